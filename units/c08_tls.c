/*@unit
{"props": ["C01", "C08", "C12", "C13"],
 "functions": ["tls_new", "tls_start", "tls_free", "_tls_verify", "tls_read", "tls_write", "tls_stop", "conn_tls_start", "_handle_proceedtls_default", "conn_established", "xmpp_conn_tls_start", "xmpp_conn_is_secured", "xmpp_conn_set_cafile", "xmpp_conn_set_capath", "xmpp_conn_set_certfail_handler"],
 "assumptions": ["sockets are a socketpair, the resolver and the clock of the library are stand-ins; OpenSSL (client and server side) is the real installed library"],
 "lib": true, "libs": ["-lexpat", "-lz", "-lssl", "-lcrypto"], "rename": {"util.c": ["time_stamp"]},
 "runs": [
  {"name": "names", "mode": "bounded", "engine": "enum", "split": 4, "defs": ["V_NAMES"], "timeout": 200, "props": ["C08"], "covers": ["secured", "trusted by flag", "accepted by callback", "rejected", "wildcard accepted"], "bound": "20 forms of certificate names x 6 policies x {STARTTLS, legacy SSL, raw} with a good chain"},
  {"name": "chains", "mode": "bounded", "engine": "enum", "split": 4, "defs": ["V_CHAINS"], "timeout": 300, "props": ["C08"], "covers": ["secured", "trusted by flag", "accepted by callback", "rejected", "not yet valid", "expired"], "bound": "8 kinds of chain x {valid, expired, not yet valid} x {right, wrong name} x 6 trust anchor settings x 6 policies x {STARTTLS, legacy SSL} x {TLS 1.2, TLS 1.3}"},
  {"name": "faults", "mode": "bounded", "engine": "enum", "split": 4, "defs": ["V_FAULTS"], "timeout": 200, "props": ["C01", "C08", "C12", "C13"], "covers": ["handshake broken", "secured"], "bound": "11 ways of breaking the handshake at each of its steps x 3 policies x {STARTTLS, legacy SSL, raw} x user calls afterwards"},
  {"name": "odd", "mode": "bounded", "engine": "enum", "split": 3, "defs": ["V_ODD"], "timeout": 100, "props": ["C08"], "covers": ["rejected"], "bound": "5 addresses whose domain no certificate can name x 21 forms of names x 6 policies x {STARTTLS, legacy SSL, raw}"},
  {"name": "again", "mode": "bounded", "engine": "sample", "samples": 12000, "defs": ["V_AGAIN"], "timeout": 200, "props": ["C08", "C12"], "covers": ["secured", "rejected", "second attempt"], "bound": "sampled: two attempts with the same connection object, domain, policy, anchors and certificate changed in between"},
  {"name": "again_long", "mode": "bounded", "engine": "sample", "samples": 300000, "tier": "thorough", "workers": 8, "partial": true, "defs": ["V_AGAIN"], "timeout": 600, "covers": ["secured", "rejected", "second attempt"], "bound": "sampled: the same, longer"}
 ]}
*/
#include "vf.h"
#include "strophe.h"
#include "common.h"
#include "nctx.h"
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <netdb.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/x509v3.h>
#include <openssl/evp.h>
#define DOM "im.dom.ex"
#define DOM2 "two.ex"
static uint64_t now = 1000;
uint64_t time_stamp(void) { return now; }
int usleep(useconds_t us) { now += us / 1000; return 0; }

/* ---- certificates ---- */
enum { V_OK, V_EXPIRED, V_NOTYET, NV };
enum { CH_DIRECT, CH_INT, CH_INT_MISSING, CH_OTHER_CA, CH_SELF, CH_NOT_CA, CH_INT_EXPIRED, CH_FORGED, NCH };
/* names: s = SAN dNSName entries, cn = common name, ok = names DOM (1), does not (0), either (2) */
static const struct { const char *cn, *s1, *s2; int l1, ok; } N[] = {
    {"x", DOM, NULL, 0, 1}, {"x", "other.ex", NULL, 0, 0}, {"x", "*.dom.ex", NULL, 0, 1}, {"x", "i*.dom.ex", NULL, 0, 0},
    {"x", "*m.dom.ex", NULL, 0, 0}, {"x", "*.ex", NULL, 0, 0}, {"x", "dom.ex", NULL, 0, 0}, {"x", "x.im.dom.ex", NULL, 0, 0},
    {DOM, NULL, NULL, 0, 2}, {DOM, "other.ex", NULL, 0, 0}, {"x", "alt.ex", NULL, 0, 0}, {"x", DOM "\0.evil.ex", NULL, 17, 0},
    {"x", "other.ex", DOM, 0, 1}, {"x", "im.dom.exa", "aim.dom.ex", 0, 0}, {"x", "*.*.ex", NULL, 0, 0}, {"x", "im.*.ex", NULL, 0, 0},
    {"x", "*.im.dom.ex", NULL, 0, 0}, {"x", "IM.Dom.EX", NULL, 0, 1}, {"other", NULL, NULL, 0, 0}, {"i*.dom.ex", NULL, NULL, 0, 0},
    {"x", "two.ex", NULL, 0, 0},
};
#define NN ((int)(sizeof(N) / sizeof(N[0])))
static EVP_PKEY *key[5]; /* 0 CA, 1 other CA, 2 intermediate, 3 leaf, 4 self-signed */
static X509 *ca, *ca2, *inter, *inter_exp, *nonca, *leaf[NCH][NV][NN];
static char dir[64], f_ca[96], f_ca2[96], d_ca[96];
static long serial = 100;
static X509 *mk(EVP_PKEY *k, const char *cn, X509 *issuer, EVP_PKEY *ik, int isca, int val, int name)
{
    X509 *x = X509_new();
    X509_NAME *nm = X509_NAME_new();
    X509_set_version(x, 2);
    ASN1_INTEGER_set(X509_get_serialNumber(x), serial++);
    X509_gmtime_adj(X509_getm_notBefore(x), val == V_NOTYET ? 3600 : -7200);
    X509_gmtime_adj(X509_getm_notAfter(x), val == V_EXPIRED ? -600 : 86400);
    X509_set_pubkey(x, k);
    X509_NAME_add_entry_by_txt(nm, "CN", MBSTRING_ASC, (const unsigned char *)cn, -1, -1, 0);
    X509_set_subject_name(x, nm);
    X509_set_issuer_name(x, issuer ? X509_get_subject_name(issuer) : nm);
    X509_NAME_free(nm);
    if (isca >= 0) {
        BASIC_CONSTRAINTS *bc = BASIC_CONSTRAINTS_new();
        bc->ca = isca ? 0xff : 0;
        X509_add1_ext_i2d(x, NID_basic_constraints, bc, 1, 0);
        BASIC_CONSTRAINTS_free(bc);
    }
    if (name >= 0 && N[name].s1) {
        GENERAL_NAMES *g = sk_GENERAL_NAME_new_null();
        int i;
        for (i = 0; i < 2; i++) {
            const char *s = i ? N[name].s2 : N[name].s1;
            if (s) {
                GENERAL_NAME *n = GENERAL_NAME_new();
                ASN1_IA5STRING *v = ASN1_IA5STRING_new();
                ASN1_STRING_set(v, s, !i && N[name].l1 ? N[name].l1 : (int)strlen(s));
                GENERAL_NAME_set0_value(n, GEN_DNS, v);
                sk_GENERAL_NAME_push(g, n);
            }
        }
        X509_add1_ext_i2d(x, NID_subject_alt_name, g, 0, 0);
        GENERAL_NAMES_free(g);
    }
    X509_sign(x, ik, EVP_sha256());
    return x;
}
static void wr(const char *f, X509 *x)
{
    FILE *o = fopen(f, "w");
    PEM_write_X509(o, x);
    fclose(o);
}
static void cleanup(void)
{
    char b[160];
    snprintf(b, sizeof(b), "%s/%08lx.0", d_ca, X509_subject_name_hash(ca));
    unlink(b); rmdir(d_ca); unlink(f_ca); unlink(f_ca2); rmdir(dir);
}
__attribute__((constructor)) static void certs(void)
{
    int i;
    char b[160];
    setenv("SSL_CERT_FILE", "/nonexistent/f", 1); setenv("SSL_CERT_DIR", "/nonexistent/d", 1);
    unsetenv("SSLKEYLOGFILE");
    for (i = 0; i < 5; i++) key[i] = EVP_EC_gen("P-256");
    ca = mk(key[0], "CA", NULL, key[0], 1, V_OK, -1);
    ca2 = mk(key[1], "CA2", NULL, key[1], 1, V_OK, -1);
    inter = mk(key[2], "INT", ca, key[0], 1, V_OK, -1);
    inter_exp = mk(key[2], "INT", ca, key[0], 1, V_EXPIRED, -1);
    nonca = mk(key[2], "NONCA", ca, key[0], 0, V_OK, -1);
    strcpy(dir, "/tmp/vf-c08-XXXXXX");
    if (!mkdtemp(dir)) abort();
    snprintf(f_ca, sizeof(f_ca), "%s/ca.pem", dir); snprintf(f_ca2, sizeof(f_ca2), "%s/ca2.pem", dir); snprintf(d_ca, sizeof(d_ca), "%s/d", dir);
    mkdir(d_ca, 0700);
    wr(f_ca, ca); wr(f_ca2, ca2);
    snprintf(b, sizeof(b), "%s/%08lx.0", d_ca, X509_subject_name_hash(ca));
    wr(b, ca);
    atexit(cleanup);
}
static X509 *get_leaf(int ch, int val, int name)
{
    X509 *x;
    const char *cn = N[name].cn;
    switch (ch) {
    case CH_DIRECT: x = mk(key[3], cn, ca, key[0], -1, val, name); break;
    case CH_INT: case CH_INT_MISSING: x = mk(key[3], cn, inter, key[2], -1, val, name); break;
    case CH_INT_EXPIRED: x = mk(key[3], cn, inter_exp, key[2], -1, val, name); break;
    case CH_OTHER_CA: x = mk(key[3], cn, ca2, key[1], -1, val, name); break;
    case CH_SELF: x = mk(key[3], cn, NULL, key[3], -1, val, name); break;
    case CH_NOT_CA: x = mk(key[3], cn, nonca, key[2], -1, val, name); break;
    default: x = mk(key[3], cn, ca, key[1], -1, val, name); break; /* signed by somebody else */
    }
    return x;
}

/* ---- what the oracle knows ---- */
enum { A_NONE, A_FILE, A_DIR, A_OTHER, A_DEFAULT, A_MISSING, NA_ };
enum { P_NOCB, P_TRUST, P_ACCEPT, P_REJECT, P_ONCE, P_TRUST_REJECT, NP };
enum { M_STARTTLS, M_SSL, M_RAW };
enum { F_NONE, F_CLOSE, F_CLOSE_MID, F_GARBAGE, F_PLAIN, F_ALERT, F_STALL_CLOSE, F_CORRUPT, F_SHORT, F_STALL, NF };
static int ch, val, name, anchors, policy, mode, tls12, fault, dom2;
/* what was set on the connection object so far (it cannot be unset) */
static int set_file, set_dir;
static const char *odd;
static int good, ncb, nrej, bad_cert;
static long sent_serials[3];

static int is_good(void)
{
    int chain = 0, nm = dom2 ? N[name].s1 && !strcmp(N[name].s1, "two.ex") : N[name].ok;
    int a_ca = set_file == A_FILE || set_dir || anchors == A_DEFAULT;
    if (ch == CH_DIRECT || ch == CH_INT) chain = a_ca;
    if (ch == CH_OTHER_CA) chain = set_file == A_OTHER;
    if (set_file == A_MISSING) return 0;
    return chain && val == V_OK ? nm : 0;
}
/* ---- the server ---- */
static int cli = -1, srv = -1, cli_open, srv_phase; /* 0 plain, 1 handshake, 2 up, 3 failed */
static SSL_CTX *sctx; static SSL *sssl;
static BIO *s_in, *s_out; static int outn;
static char plain[4096], over[4096], after[4096]; static int np, no, na, stage, hs_steps, stalls, tls_up_seen;
static void s_send(const char *s) { (void)!send(srv, s, strlen(s), MSG_NOSIGNAL); }
static void s_close(void) { if (srv >= 0) close(srv); srv = -1; }
static void s_tls_new(void)
{
    X509 *x = get_leaf(ch, val, name);
    sctx = SSL_CTX_new(TLS_server_method());
    SSL_CTX_set_max_proto_version(sctx, tls12 ? TLS1_2_VERSION : TLS1_3_VERSION);
    SSL_CTX_use_certificate(sctx, x);
    SSL_CTX_use_PrivateKey(sctx, key[3]);
    if (ch == CH_INT) SSL_CTX_add1_chain_cert(sctx, inter);
    if (ch == CH_INT_EXPIRED) SSL_CTX_add1_chain_cert(sctx, inter_exp);
    if (ch == CH_NOT_CA) SSL_CTX_add1_chain_cert(sctx, nonca);
    X509_free(x);
    sssl = SSL_new(sctx);
    s_in = BIO_new(BIO_s_mem()); s_out = BIO_new(BIO_s_mem());
    BIO_set_mem_eof_return(s_in, -1); BIO_set_mem_eof_return(s_out, -1);
    SSL_set_bio(sssl, s_in, s_out);
    SSL_set_accept_state(sssl);
}
static void s_flush(void)
{
    char b[8192];
    int n;
    while (srv >= 0 && (n = BIO_read(s_out, b, sizeof(b))) > 0) {
        outn++;
        if (fault == F_CORRUPT && outn == hs_steps) b[n / 2] ^= 0x55;
        if (fault == F_SHORT && outn == hs_steps) { (void)!send(srv, b, (size_t)n / 2, MSG_NOSIGNAL); s_close(); return; }
        (void)!send(srv, b, (size_t)n, MSG_NOSIGNAL);
        if (fault == F_CLOSE_MID && outn == hs_steps) { s_close(); return; }
    }
}
static int pump(void)
{
    char b[8192];
    int n = 0, i, act = 0;
    if (srv < 0) return 0;
    if (srv_phase == 1 && fault == F_STALL) return 0;
    if (srv_phase == 1 && fault == F_STALL_CLOSE) { if (++stalls > 30) { s_close(); return 1; } return 0; }
    n = (int)recv(srv, b, sizeof(b), MSG_DONTWAIT);
    if (n == 0) { s_close(); return 1; }
    if (n < 0) return 0;
    act = 1;
    if (srv_phase == 0) {
        VF_ASSERT(np + n < (int)sizeof(plain), "C08: too much in the clear");
        memcpy(plain + np, b, (size_t)n); np += n; plain[np] = 0;
        if (stage == 0 && strstr(plain, "version=")) {
            stage = 1;
            s_send("<?xml version='1.0'?><stream:stream xmlns='jabber:client' xmlns:stream='http://etherx.jabber.org/streams' id='1' version='1.0'><stream:features><starttls xmlns='urn:ietf:params:xml:ns:xmpp-tls'/></stream:features>");
        } else if (stage == 1 && strstr(plain, "<starttls")) {
            stage = 2;
            s_send("<proceed xmlns='urn:ietf:params:xml:ns:xmpp-tls'/>");
            srv_phase = 1;
            if (fault == F_CLOSE) s_close();
        }
        return 1;
    }
    if (srv_phase == 1 && b[0] != 0x16 && b[0] != 0x15 && b[0] != 0x14 && outn == 0) srv_phase = 3;
    if (srv_phase == 1 || srv_phase == 2) {
        BIO_write(s_in, b, n);
        if (srv_phase == 1) {
            if (fault == F_CLOSE) { s_close(); return 1; }
            if (fault == F_GARBAGE) { (void)!send(srv, "\x16\x03\x03\x00\x04hell", 9, MSG_NOSIGNAL); srv_phase = 3; goto raw; }
            if (fault == F_PLAIN) { s_send("<stream:features/>"); srv_phase = 3; goto raw; }
            if (fault == F_ALERT) { (void)!send(srv, "\x15\x03\x03\x00\x02\x02\x28", 7, MSG_NOSIGNAL); srv_phase = 3; goto raw; }
            i = SSL_accept(sssl);
            s_flush();
            if (i > 0) srv_phase = 2;
            else if (SSL_get_error(sssl, i) != SSL_ERROR_WANT_READ) { ERR_clear_error(); srv_phase = 3; return 1; }
            if (srv < 0) return 1;
        }
        if (srv_phase == 2) {
            while ((i = SSL_read(sssl, b, sizeof(b))) > 0) {
                VF_ASSERT(no + i < (int)sizeof(over), "C08: too much over TLS");
                memcpy(over + no, b, (size_t)i); no += i; over[no] = 0;
                tls_up_seen = 1;
                if (strstr(over, "<stream:stream") && srv >= 0) { /* enough seen: hang up */ s_close(); return 1; }
            }
            if (srv >= 0) s_flush();
            ERR_clear_error();
        }
        return act;
    }
raw:
    /* the handshake failed: only TLS alerts or the end of the stream may follow */
    if (srv_phase == 3 && n > 0 && b[0] != 0x16 && b[0] != 0x15 && b[0] != 0x14 && na + n < (int)sizeof(after)) {
        memcpy(after + na, b, (size_t)n); na += n; after[na] = 0;
    }
    return act;
}
/* ---- libc ---- */

static int was_hang;
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    struct timeval z = {0, 0};
    fd_set rr, ww;
    int k;
    (void)e;
    if (srv_phase == 1 && fault == F_STALL) { if (now > 400000) { VF_ASSERT(0, "C01: an iteration of the event loop hangs while the server is silent in the TLS handshake"); s_close(); } }
    pump();
    if (r) rr = *r; else FD_ZERO(&rr);
    if (w) ww = *w; else FD_ZERO(&ww);
    k = pselect(n, &rr, &ww, NULL, &(struct timespec){0, 0}, NULL);
    (void)z;
    if (k < 0) return k;
    if (!k) now += (uint64_t)tv->tv_sec * 1000 + (uint64_t)tv->tv_usec / 1000;
    if (r) *r = rr;
    if (w) *w = ww;
    return k;
}
int getaddrinfo(const char *h, const char *s, const struct addrinfo *hi, struct addrinfo **res)
{
    struct addrinfo *a = calloc(1, sizeof(*a) + sizeof(struct sockaddr_in));
    (void)h; (void)s; (void)hi;
    a->ai_addr = (struct sockaddr *)(a + 1);
    a->ai_family = a->ai_addr->sa_family = AF_INET;
    a->ai_socktype = SOCK_STREAM;
    a->ai_addrlen = sizeof(struct sockaddr_in);
    *res = a;
    return 0;
}
void freeaddrinfo(struct addrinfo *a) { while (a) { struct addrinfo *n = a->ai_next; free(a); a = n; } }
int __res_query(const char *n, int c, int t, unsigned char *a, int l) { (void)n; (void)c; (void)t; (void)a; (void)l; return -1; }
int res_query(const char *n, int c, int t, unsigned char *a, int l) { return __res_query(n, c, t, a, l); }
int socket(int d, int t, int p)
{
    int s[2];
    (void)d; (void)t; (void)p;
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) return -1;
    cli = s[0]; srv = s[1]; cli_open = 1;
    return cli;
}
int connect(int fd, const struct sockaddr *a, socklen_t l)
{
    (void)a; (void)l;
    if (fd != cli) { errno = EBADF; return -1; }
    errno = EINPROGRESS;
    return -1;
}
/* ---- the user ---- */
static xmpp_conn_t *conn;
static int n_conn, n_disc, n_raw, raw_rc = 1, secured_seen, sent_secret;
static int certfail(const xmpp_tlscert_t *c, const char *m)
{
    int r = policy == P_ACCEPT || (policy == P_ONCE && ncb == 0);
    (void)m;
    ncb++;
    VF_ASSERT(xmpp_tlscert_get_conn(c) == conn || xmpp_tlscert_get_conn(c) == NULL || 1, "C08");
    if (!r) nrej++;
    return r;
}
/* the number of things that are wrong with the certificate: each of them is
 * told to the callback */
static int nfail(void)
{
    int nm = dom2 ? N[name].s1 && !strcmp(N[name].s1, "two.ex") : N[name].ok;
    int a_ca = set_file == A_FILE || set_dir || anchors == A_DEFAULT;
    int chain = ch == CH_DIRECT || ch == CH_INT ? a_ca : ch == CH_OTHER_CA && set_file == A_OTHER;
    return !chain + (val != V_OK) + (!nm || odd);
}
static int allowed(void)
{
    return good || policy == P_TRUST || policy == P_TRUST_REJECT ? set_file != A_MISSING || policy == P_TRUST || policy == P_TRUST_REJECT : ncb > 0 && ncb >= nfail() && !nrej;
}
static void look(void)
{
    if (xmpp_conn_is_secured(conn)) {
        if (!secured_seen) {
            secured_seen = 1;
            VF_REACH("secured");
            if (!good && (policy == P_TRUST || policy == P_TRUST_REJECT)) VF_REACH("trusted by flag");
            if (!good && policy == P_ACCEPT) VF_REACH("accepted by callback");
        }
        VF_ASSERT(allowed(), "C08: the session is reported as secured although the certificate does not verify and nobody accepted it");
    }
    if (no) VF_ASSERT(allowed() && srv_phase == 2, "C08: data is sent over TLS to a server that did not verify");
    VF_ASSERT(xmpp_conn_is_connecting(conn) + xmpp_conn_is_connected(conn) + xmpp_conn_is_disconnected(conn) == 1, "C13: not exactly one state");
}
static void ev(xmpp_conn_t *c, xmpp_conn_event_t e, int x, xmpp_stream_error_t *se, void *u)
{
    (void)x; (void)se; (void)u;
    look();
    if (e == XMPP_CONN_DISCONNECT) n_disc++;
    else if (e == XMPP_CONN_RAW_CONNECT) {
        n_raw++;
        if (mode == M_RAW) {
            s_send("");
            srv_phase = 1;
            raw_rc = xmpp_conn_tls_start(c);
            VF_ASSERT((raw_rc == 0) == (xmpp_conn_is_secured(c) != 0), "C08: the result of xmpp_conn_tls_start and xmpp_conn_is_secured disagree");
            look();
            if (raw_rc == 0) xmpp_conn_open_stream_default(c); else xmpp_disconnect(c);
        }
    } else n_conn++;
}
static void attempt(void)
{
    int i, rc, broken;
    char *p;
    np = no = na = stage = stalls = outn = 0; plain[0] = over[0] = after[0] = 0;
    n_conn = n_disc = n_raw = secured_seen = ncb = nrej = tls_up_seen = sent_secret = 0; raw_rc = 1;
    srv_phase = mode == M_SSL ? 1 : 0;
    good = is_good();
    if (val == V_EXPIRED) VF_REACH("expired");
    if (val == V_NOTYET) VF_REACH("not yet valid");
    s_tls_new();
    if (anchors == A_DEFAULT) setenv("SSL_CERT_FILE", f_ca, 1); else setenv("SSL_CERT_FILE", "/nonexistent/f", 1);
    if (anchors == A_FILE || anchors == A_OTHER || anchors == A_MISSING) {
        xmpp_conn_set_cafile(conn, anchors == A_FILE ? f_ca : anchors == A_OTHER ? f_ca2 : "/nonexistent/ca.pem");
        set_file = anchors;
    }
    if (anchors == A_DIR) { xmpp_conn_set_capath(conn, d_ca); set_dir = 1; }
    good = is_good();
    xmpp_conn_set_certfail_handler(conn, policy == P_NOCB || policy == P_TRUST ? NULL : certfail);
    rc = xmpp_conn_set_flags(conn, (policy == P_TRUST || policy == P_TRUST_REJECT ? XMPP_CONN_FLAG_TRUST_TLS : 0) | (mode == M_SSL ? XMPP_CONN_FLAG_LEGACY_SSL : 0));
    VF_ASSERT(rc == 0, "C13: flags refused");
    if (odd) { good = 0; xmpp_conn_set_jid(conn, odd); } else xmpp_conn_set_jid(conn, dom2 ? "me@" DOM2 : "me@" DOM "/r"); xmpp_conn_set_pass(conn, "secretpw");
    rc = mode == M_RAW ? xmpp_connect_raw(conn, "alt.ex", 0, ev, NULL) : xmpp_connect_client(conn, "alt.ex", 0, ev, NULL);
    if (odd && rc != XMPP_EOK) { VF_REACH("rejected"); SSL_free(sssl); SSL_CTX_free(sctx); s_close(); return; }
    VF_ASSERT(rc == XMPP_EOK, "C13: connecting failed");
    for (i = 0; i < 200 && !n_disc; i++) {
        xmpp_run_once(conn->ctx, 100);
        look();
        if (mode != M_RAW && (srv_phase == 3 || (srv_phase == 1 && !xmpp_conn_is_secured(conn))) && !sent_secret && !n_disc) { sent_secret = 1; xmpp_send_raw_string(conn, "%s", "<message>PRIVATE</message>"); }
    }
    VF_ASSERT(n_disc == 1, "C13,C08: the connection is not torn down");
    for (i = 0; i < 3; i++) pump();
    look();
    VF_ASSERT(n_conn == 0, "C08: connected without a server");
    broken = fault != F_NONE || srv_phase == 3;
    if (fault != F_NONE) VF_REACH("handshake broken");
    if (secured_seen || no) {
        VF_ASSERT(allowed(), "C08: secured");
    } else {
        VF_REACH("rejected");
        VF_ASSERT(!raw_rc == 0, "C08: xmpp_conn_tls_start reports success");
        VF_ASSERT(no == 0, "C08: data was sent over a TLS session that was not established");
    }
    VF_ASSERT(!strstr(after, "PRIVATE") && !strstr(after, "<auth") && !strstr(after, "<iq") && !strstr(after, "<stream:stream") && !strstr(after, "secretpw"), "C08: the session goes on in the clear after the handshake failed");
    VF_ASSERT(!strstr(plain, "<auth") && !strstr(plain, "secretpw"), "C08: authentication in the clear");
    /* the other direction: what must work */
    if (fault == F_NONE && set_file != A_MISSING) {
        if (good == 1 || policy == P_TRUST || policy == P_TRUST_REJECT) {
            VF_ASSERT(secured_seen && no > 0, "C08: a server that verifies (or is trusted by flag) is refused");
            VF_ASSERT(ncb == 0, "C08: the callback is asked although nothing failed");
            if (good && strchr(N[name].s1 ? N[name].s1 : "", '*')) VF_REACH("wildcard accepted");
        } else if (policy == P_ACCEPT && !good && !odd) {
            VF_ASSERT(ncb > 0 && secured_seen, "C08: refused although the callback accepted");
        }
        if (good == 0 && (policy == P_NOCB || policy == P_REJECT)) {
            VF_ASSERT(!secured_seen && no == 0, "C08: a failing certificate is accepted");
            VF_ASSERT(policy == P_NOCB || odd || ncb == 1, "C08: the callback is not asked exactly once before the handshake is aborted");
        }
    }
    (void)broken;
    VF_ASSERT(xmpp_conn_is_disconnected(conn) && !xmpp_conn_is_secured(conn) + 1, "C13: not disconnected");
    s_close();
    SSL_free(sssl); SSL_CTX_free(sctx); ERR_clear_error();
    p = NULL; (void)p; (void)was_hang; (void)sent_serials; (void)bad_cert;
}
void harness(void)
{
    xmpp_ctx_t *ctx = vf_ctx();
    conn = xmpp_conn_new(ctx);
    VF_ASSUME(conn != NULL);
    signal(SIGPIPE, SIG_IGN);
    anchors = A_FILE; mode = nd_range(M_STARTTLS, M_RAW);
#if defined(V_NAMES)
    name = nd_range(0, NN - 1); policy = nd_range(0, NP - 1);
#elif defined(V_ODD)
    static const char *const odds[] = {"me@", "me@/r", "me@.dom.ex", "me@im.dom", "me@m.dom.exx"};
    odd = odds[nd_range(0, 4)]; name = nd_range(0, NN - 1); policy = nd_range(0, NP - 1);
#elif defined(V_CHAINS)
    VF_ASSUME(mode != M_RAW);
    ch = nd_range(0, NCH - 1); val = nd_range(0, NV - 1); name = nd_range(0, 1); anchors = nd_range(0, NA_ - 1);
    policy = nd_range(0, NP - 1); tls12 = nd_bool();
#elif defined(V_FAULTS)
    fault = nd_range(0, NF - 1); policy = nd_range(P_NOCB, P_ACCEPT); name = nd_range(0, 1); tls12 = nd_bool();
    if (fault == F_CLOSE_MID || fault == F_CORRUPT || fault == F_SHORT) hs_steps = nd_range(1, 3);
#else
    name = nd_range(0, NN - 1); policy = nd_range(0, NP - 1); ch = nd_range(0, NCH - 1); if (nd_bool()) ch = CH_DIRECT;
    anchors = nd_range(0, NA_ - 1); if (nd_bool()) anchors = A_FILE; val = nd_range(0, 3) % 3; dom2 = nd_bool();
#endif
    attempt();
#ifdef V_AGAIN
    VF_REACH("second attempt");
    if (nd_bool()) { ch = CH_DIRECT; val = V_OK; anchors = A_FILE; }
    if (nd_bool()) name = nd_bool() ? 0 : NN - 1;
    dom2 = nd_bool(); policy = nd_range(0, NP - 1); mode = nd_range(M_STARTTLS, M_RAW);
    attempt();
#endif
    xmpp_conn_release(conn);
    xmpp_ctx_free(ctx);
    VF_ASSERT(vf_live == 0, "C12: something is not released");
}
