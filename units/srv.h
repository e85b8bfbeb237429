/* the server, the user and the monitors (see world.h) */
#ifndef SRV_H
#define SRV_H
#include "world.h"
#include <sys/syscall.h>
#include <unistd.h>
int __real_close(int fd) { return (int)syscall(SYS_close, fd); }

/* ------------------------------------------------------------ configuration */
enum { M_PLAIN = 1, M_DIGEST = 2, M_ANON = 4, M_S1 = 8, M_S256 = 16, M_S512 = 32, M_EXT = 64, M_S1P = 128, M_S256P = 256, M_S512P = 512, M_FOO = 1024 };
static const char *const MN[11] = {"PLAIN", "DIGEST-MD5", "ANONYMOUS", "SCRAM-SHA-1", "SCRAM-SHA-256", "SCRAM-SHA-512", "EXTERNAL", "SCRAM-SHA-1-PLUS", "SCRAM-SHA-256-PLUS", "SCRAM-SHA-512-PLUS", "X-FOO"};
#define M_PLUS (M_S1P | M_S256P | M_S512P)
#define M_SCRAM (M_S1 | M_S256 | M_S512 | M_PLUS)
static struct cfg {
    long flags;
    const char *jid, *node, *domain, *resource, *pass;
    int cert, component, raw;
    /* the server */
    int s_tls, s_comp, s_bind, s_sess, s_sm;
    unsigned s_mech;
} C;
static void cfg_default(void)
{
    C.flags = 0; C.jid = "u@d/r"; C.node = "u"; C.domain = "d"; C.resource = "r"; C.pass = "pw";
    C.s_tls = 1; C.s_bind = 1; C.s_mech = M_S1 | M_PLAIN;
    C.s_sm = 1; C.s_comp = 0; C.s_sess = 0;
}
/* one deviation from the default configuration */
static void cfg_dev(void)
{
    static const unsigned MM[] = {M_PLAIN, M_S1, M_DIGEST, M_DIGEST | M_PLAIN, M_S256 | M_S1P | M_PLAIN, M_S512 | M_S512P, M_EXT | M_PLAIN, M_ANON, M_ANON | M_PLAIN, M_FOO | M_PLAIN, M_FOO, 0, M_S256P | M_DIGEST, M_S512 | M_S256 | M_S1 | M_DIGEST | M_PLAIN};
    int k = dev(P_CFG, 31);
    switch (k) {
    case 1: C.flags = XMPP_CONN_FLAG_DISABLE_TLS; break;
    case 2: C.flags = XMPP_CONN_FLAG_MANDATORY_TLS; break;
    case 3: C.flags = XMPP_CONN_FLAG_LEGACY_SSL; break;
    case 4: C.flags = XMPP_CONN_FLAG_TRUST_TLS; break;
    case 5: C.flags = XMPP_CONN_FLAG_DISABLE_SM; break;
    case 6: C.flags = XMPP_CONN_FLAG_ENABLE_COMPRESSION; C.s_comp = 1; break;
    case 7: C.flags = XMPP_CONN_FLAG_LEGACY_AUTH; C.s_mech = 0; break;
    case 8: C.jid = "u@d"; C.resource = NULL; break;
    case 9: C.jid = "d"; C.node = NULL; C.resource = NULL; C.s_mech = M_ANON | M_PLAIN; break;
    case 10: C.jid = "u,x=y@d.ex/a/b@c"; C.node = "u,x=y"; C.domain = "d.ex"; C.resource = "a/b@c"; break;
    case 11: C.cert = 1; C.s_mech = M_EXT | M_PLAIN; break;
    case 12: C.s_tls = 0; break;
    case 13: C.s_sess = 1; break;
    case 14: C.s_sess = 2; break;
    case 15: C.s_sm = 0; break;
    case 16: C.s_bind = 0; break;
    default: if (k >= 17) C.s_mech = MM[k - 17]; break;
    }
}

/* ------------------------------------------------------------ server state */
static struct srv {
    int on, tls, tls_want, comp, nhdr, need_hdr, early, closed;
    unsigned mech, mech_ever;
    int o_tls, o_comp, o_bind, o_sess, o_sm, nfeat, sf, open, garb, comp_wait;
    int r_starttls, r_auth, r_bind, r_sess, r_enable, r_resume, r_comp, r_legacy, r_hs;
    int said_success, said_bound, said_sess, said_enabled, said_resumed, said_failed, said_hs, said_legacy, said_sm_off;
    unsigned auth; /* mechanism in progress */
    int step;
    char first_bare[200], gs2[80], snonce[120], chal[400];
    unsigned tried;
    char id[32];
    size_t comp_at;
    char rx[16384];
    size_t rxn;
    uint64_t t_hdr, t_bind, t_sess, t_leg, t_hs;
} S;
static int w_sid;
static uint64_t t_close; /* the client sent </stream:stream> */
/* the stream-management session at the server */
static struct { size_t swx, ack_pos[16]; int ack_h[16], ack_n, kack, on, live, id, opt, n, acked, txn, hmax, hfuzzy, jc, rp[64], expn, expi, fuzzy, rs, as, base; char t[48][120]; char exp[48][120]; } M;
static int u_sent, u_seen, u_conn, u_disc, u_raw, u_close_req, u_started, u_err;
static char u_txt[64][120]; /* what the user sent, in order */
static int u_drop[64];
static xmpp_stream_error_t *u_serr;
static xmpp_conn_t *w_conn;
static int s_err_sent, s_err_type;
static const char *s_err_text;
static z_stream z_in, z_out;
static char *z_arena; static size_t z_use;
static int w_negotiated;

#define PROTO(c, m) VF_ASSERT(c, m)

static void *z_al(void *o, uInt n, uInt s)
{
    void *p = z_arena + z_use;
    (void)o;
    z_use += ((size_t)n * s + 63) & ~(size_t)63;
    if (z_use > 1 << 20) abort();
    return p;
}
static void z_fr(void *o, void *p) { (void)o; (void)p; }

static void w_raw(const char *d, size_t n)
{
    VF_ASSUME(w_outn + n < W_BUF);
    memcpy(w_out + w_outn, d, n);
    w_outn += n;
}
static int z_mode; /* how the server fragments its deflate stream */
static void tx(const char *fmt, ...)
{
    char b[4096];
    va_list ap;
    int n;
    va_start(ap, fmt);
    n = vsnprintf(b, sizeof(b), fmt, ap);
    va_end(ap);
    if (!S.on) return;
    if (getenv("VF_LOG")) fprintf(stderr, "S>C %s\n", b);
    if (S.comp) {
        unsigned char o[8192];
        z_out.next_in = (Bytef *)b; z_out.avail_in = (uInt)n;
        z_out.next_out = o; z_out.avail_out = sizeof(o);
        deflate(&z_out, Z_SYNC_FLUSH);
        w_raw((char *)o, (size_t)(z_out.next_out - o));
    } else w_raw(b, (size_t)n);
}
static void s_close(void) { if (M.hmax < 0) M.hmax = M.n; if (w_cur >= 0 && WS(w_cur)) WS(w_cur)->peer_closed = 1; }

static void s_error(int k)
{
    static const struct { const char *n; int t; } E[] = {{"conflict", XMPP_SE_CONFLICT}, {"see-other-host", XMPP_SE_SEE_OTHER_HOST}, {"x-unknown", XMPP_SE_UNDEFINED_CONDITION}};
    if (!S.open || S.garb || S.early || S.need_hdr || (S.tls_want && !S.tls)) return;
    s_err_sent = 1; s_err_type = E[k].t;
    s_err_text = k == 0 ? "why" : NULL;
    tx(k == 0 ? "<stream:error><%s xmlns='" NSTREAMS "'/><text xmlns='" NSTREAMS "'>why</text></stream:error>" : "<stream:error><%s xmlns='" NSTREAMS "'/></stream:error>", E[k].n);
}

static void send_r(void)
{
    if (!S.on) return;
    tx("<r xmlns='" NSM "'/>");
    if (M.live && M.rs < 64) M.rp[M.rs++] = M.txn;
}
/* things a server may say although nobody asked */
#define NINJ 26
static void inject(int k)
{
    if (!S.on) return;
    if (k && (!S.open || S.need_hdr || (S.tls_want && !S.tls))) S.garb = 1;
    switch (k) {
    case 0: return;
    case 1: tx("<message id='s0' from='x@d' type='chat'><body>hi</body></message>"); if (M.live) M.txn++; break;
    case 2: S.early = 1;
            tx("<success xmlns='" NSASL "'/>"); if (S.r_auth || !S.said_success) { S.said_success = 1; if (S.auth) { S.need_hdr = 1; S.auth = 0; } } break;
    case 3: S.early = 1;
            tx("<failure xmlns='" NSASL "'><not-authorized/></failure>"); S.auth = 0; break;
    case 4: if (S.tls || w_tls_on) return;
            if (!S.r_starttls) S.early = 1;
            tx("<proceed xmlns='" NTLS "'/>"); if (S.o_tls && !S.tls) { S.tls_want = 1; w_srv_tls_ok = 1; } break;
    case 5: tx("<challenge xmlns='" NSASL "'/>"); S.early = 1; S.step = 99; break;
    case 6: if (!S.r_bind) S.early = M.fuzzy = 1;
            tx("<iq type='result' id='_xmpp_bind1'><bind xmlns='" NBIND "'><jid>u@d/r2</jid></bind></iq>"); if (M.live) M.txn++; S.said_bound = 1; break;
    case 7: if (!S.r_bind) S.early = M.fuzzy = 1;
            tx("<iq type='error' id='_xmpp_bind1'/>"); if (M.live) M.txn++; break;
    case 8: if (!S.r_sess) S.early = M.fuzzy = 1;
            tx("<iq type='result' id='_xmpp_session1'/>"); if (M.live) M.txn++; S.said_sess = 1; break;
    case 9: if (!S.r_legacy) S.early = M.fuzzy = 1;
            tx("<iq type='result' id='_xmpp_auth1'/>"); if (M.live) M.txn++; S.said_legacy = 1; break;
    case 10: if (!S.r_enable && !S.r_resume) S.early = 1;
             tx("<enabled xmlns='" NSM "'/>"); M.fuzzy = 1; S.said_enabled = 1; break;
    case 11: if (!S.r_enable && !S.r_resume) S.early = 1;
             tx("<resumed xmlns='" NSM "' previd='sm%d' h='0'/>", M.id); M.fuzzy = 1; S.said_resumed = 1; break;
    case 12: if (!S.r_enable && !S.r_resume) S.early = 1;
             tx("<failed xmlns='" NSM "'/>"); M.fuzzy = 1; S.said_sm_off = 1; break;
    case 13: if (!S.r_comp || S.comp) return;
             tx("<failure xmlns='" NCOMP "'><setup-failed/></failure>"); break;
    case 14: tx("<handshake/>"); S.said_hs = 1; if (M.live) M.fuzzy = 1; break;
    case 15: tx("<stream:features><bind xmlns='" NBIND "'/></stream:features>"); S.nfeat++; S.sf++; S.o_bind = 1; M.fuzzy = 1; break;
    case 16: s_error(0); M.fuzzy = 1; break;
    case 17: send_r(); if (!M.live) M.fuzzy = S.early = 1; break;
    case 18: tx("<a xmlns='" NSM "' h='%d'/>", M.acked); if (!M.live) M.fuzzy = S.early = 1; break;
    case 19: tx("<iq type='result'/>"); if (M.live) M.txn++; break;
    case 20: tx("<foo xmlns='urn:foo'><bar/></foo>"); M.fuzzy = 1; break;
    case 21: tx("<a xmlns='" NSM "' h='x'/>"); if (!M.live) M.fuzzy = S.early = 1; break;
    case 22: tx("&bad;<"); M.fuzzy = 1; S.on = 0; break;
    case 23: tx("</stream:stream>"); S.closed = 1; S.on = 0; break;
    case 24: s_error(1); M.fuzzy = 1; break;
    case 25: tx("<iq type='get' id='s1'><query xmlns='urn:q'/></iq>"); if (M.live) M.txn++; break;
    }
}
static void feat_mechs(unsigned m)
{
    int i;
    if (!m) return;
    tx("<mechanisms xmlns='" NSASL "'>");
    for (i = 0; i < 11; i++) if (m >> i & 1) tx("<mechanism>%s</mechanism>", MN[i]);
    tx("</mechanisms>");
}
static void features(void)
{
    unsigned m = C.s_mech;
    int tls = C.s_tls && !S.tls && !S.said_success, comp = 0, bind = 0, sess = 0, sm = 0, k, i;
    if (S.said_success) { m = 0; tls = 0; comp = C.s_comp && !S.comp; bind = C.s_bind; sess = C.s_sess; sm = C.s_sm; }
    k = dev(P_FEAT, 17);
    switch (k) {
    case 1: return; /* none at all */
    case 2: tls = !tls; break;
    case 3: m = S.said_success ? C.s_mech : 0; break;
    case 4: comp = !comp; break;
    case 5: bind = !bind; break;
    case 6: sess = sess ? 0 : 1; break;
    case 7: sm = !sm; break;
    case 8: m = M_PLAIN; break;
    case 9: m |= M_DIGEST; break;
    case 10: m |= M_S512P | M_S256; break;
    case 11: tls = comp = bind = sess = sm = 1; m = M_PLAIN | M_S1; break;
    case 12: m |= M_EXT | M_ANON; break;
    case 13: m = M_FOO; break;
    case 14: tx("<stream:features/>"); S.nfeat++; S.sf++; S.mech = 0; return;
    case 15: tls = 1; m = M_PLAIN | M_EXT; break;
    case 16: sess = 2; break;
    }
    for (i = 0; i < 1; i++) {
        tx("<stream:features>");
        if (tls) tx("<starttls xmlns='" NTLS "'><required/></starttls>");
        feat_mechs(m);
        if (comp) tx("<compression xmlns='" NFCOMP "'><method>lzw</method><method>zlib</method></compression>");
        if (bind) tx("<bind xmlns='" NBIND "'/>");
        if (sess) tx(sess == 1 ? "<session xmlns='" NSESS "'/>" : "<session xmlns='" NSESS "'><optional/></session>");
        if (sm) tx("<sm xmlns='" NSM "'/>");
        tx("</stream:features>");
    }
    S.nfeat++; S.sf++;
    S.mech = m; S.mech_ever |= m;
    S.o_tls |= tls; S.o_comp |= comp; S.o_bind |= bind; S.o_sess |= sess; S.o_sm |= sm;
}
static void on_header(node *h)
{
    int k;
    const char *from;
    S.nhdr++;
    S.need_hdr = 0;
    S.o_tls = S.o_comp = S.o_bind = S.o_sess = S.o_sm = S.sf = S.open = 0;
    PROTO(seq(at(h, "to"), C.component ? C.jid : C.domain), "C03: a stream header does not name the configured domain");
    PROTO(seq(at(h, "version"), "1.0"), "C03: a stream header without version 1.0");
    PROTO(seq(at(h, "xmlns"), C.component ? "jabber:component:accept" : "jabber:client") && seq(at(h, "xmlns:stream"), "http://etherx.jabber.org/streams"), "C03: a stream header with wrong namespaces");
    from = at(h, "from");
    PROTO(!from || S.tls, "C03: the user's address is revealed on a stream that is not secured");
    if (from) { char b[300]; snprintf(b, sizeof(b), "%s@%s", C.node ? C.node : "", C.domain); PROTO(seq(from, b), "C03: a stream header with a wrong sender"); }
    snprintf(S.id, sizeof(S.id), "id%d", ++w_sid);
    k = dev(P_HDR, 7);
    S.t_hdr = w_now;
    if (k == 1) return;
    if (k == 2) { tx("<?xml version='1.0'?><foo xmlns='jabber:client'>"); S.on = 0; return; }
    if (k == 3) { tx("<html><body"); S.on = 0; return; }
    if (k == 4) { s_close(); S.on = 0; return; }
    inject(0);
    if (k == 5) tx("<?xml version='1.0'?><stream:stream xmlns='jabber:client' xmlns:stream='http://etherx.jabber.org/streams' version='1.0'>");
    else tx("<?xml version='1.0'?><stream:stream xmlns='%s' xmlns:stream='http://etherx.jabber.org/streams' id='%s' from='d' version='1.0'>", C.component ? "jabber:component:accept" : "jabber:client", S.id);
    S.open = 1;
    if (k == 5) S.id[0] = 0;
    if (C.component) { S.t_hs = w_now; return; }
    inject(dev(P_INJECT, NINJ));
    if (S.on) features();
    inject(dev(P_INJECT, NINJ));
}
/* ---- SASL at the server, with OpenSSL as the independent implementation */
static int b64d(const char *s, unsigned char *o, size_t cap)
{
    size_t n = strlen(s), i;
    int r;
    if (n % 4 || n / 4 * 3 > cap || !n) return -1;
    for (i = 0; i < n; i++) if (!strchr("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=", s[i])) return -1;
    r = EVP_DecodeBlock(o, (const unsigned char *)s, (int)n);
    if (r < 0) return -1;
    if (s[n - 1] == '=') r--;
    if (s[n - 2] == '=') r--;
    o[r] = 0;
    return r;
}
static void b64e(const char *s, size_t n, char *o) { EVP_EncodeBlock((unsigned char *)o, (const unsigned char *)s, (int)n); }
static char w_nonces[16][80];
static int w_nn;
static void fresh(const char *n)
{
    int i;
    for (i = 0; i < w_nn; i++) VF_ASSERT(!seq(w_nonces[i], n), "C07: a client nonce is used again");
    VF_ASSERT(strlen(n) >= 8, "C07: the client nonce is too short");
    if (w_nn < 16) snprintf(w_nonces[w_nn++], 80, "%s", n);
}
static void saslname(char *o, const char *s)
{
    for (; *s; s++) { if (*s == ',') { strcpy(o, "=2C"); o += 3; } else if (*s == '=') { strcpy(o, "=3D"); o += 3; } else *o++ = *s; }
    *o = 0;
}
static const EVP_MD *mdof(unsigned m) { return m & (M_S1 | M_S1P) ? EVP_sha1() : m & (M_S256 | M_S256P) ? EVP_sha256() : EVP_sha512(); }
static char s_salt[300]; static int s_saltn, s_iter;
static void scram_first(unsigned m, const char *b64)
{
    unsigned char d[600];
    char want[300], nm[200];
    const char *r;
    int n = b64 ? b64d(b64, d, sizeof(d) - 1) : -1;
    VF_ASSERT(n > 0 && strlen((char *)d) == (size_t)n, "C07: the SCRAM client-first-message is not base64 text");
    if (n <= 0) return;
    saslname(nm, C.node ? C.node : "");
    snprintf(want, sizeof(want), "%s,,n=%s,r=", m & M_PLUS ? "p=tls-exporter" : S.tls ? "y" : "n", nm);
    VF_ASSERT(!strncmp((char *)d, want, strlen(want)), "C07: the SCRAM client-first-message is not gs2-header and user name as RFC 5802 wants");
    r = (char *)d + strlen(want);
    VF_ASSERT(strspn(r, "!\"#$%&'()*+-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~") == strlen(r) && *r, "C07: the client nonce is not printable");
    fresh(r);
    snprintf(S.gs2, sizeof(S.gs2), "%s,,", m & M_PLUS ? "p=tls-exporter" : S.tls ? "y" : "n");
    snprintf(S.first_bare, sizeof(S.first_bare), "%s", (char *)d + strlen(S.gs2));
    snprintf(S.snonce, sizeof(S.snonce), "%sSRV%d", r, w_sid);
}
static void challenge(unsigned m)
{
    char c[700], e[1000], sb[420];
    static const struct { int n, it; } V[] = {{8, 1}, {0, 2}, {1, 3}, {48, 1}, {55, 2}, {64, 1}, {130, 1}, {16, 4096}};
    int k;
    S.chal[0] = 0;
    if (m & M_SCRAM) {
        k = dev(P_CHAL, 24);
        if (k < 8 && k != 1) { int i; s_saltn = V[k].n; s_iter = V[k].it; for (i = 0; i < s_saltn; i++) s_salt[i] = (char)(i * 37 + 5); }
        else { s_saltn = 8; s_iter = 1; memcpy(s_salt, "saltSALT", 8); }
        b64e(s_salt, (size_t)s_saltn, sb);
        snprintf(S.chal, sizeof(S.chal), "r=%s,s=%s,i=%d", S.snonce, sb, s_iter);
        snprintf(c, sizeof(c), "%s", S.chal);
        switch (k) { /* challenges that are no good */
        case 8: snprintf(c, sizeof(c), "r=WRONG%s,s=%s,i=1", S.snonce, sb); break;
        case 9: snprintf(c, sizeof(c), "r=%s,s=%s,i=0", S.snonce, sb); break;
        case 10: snprintf(c, sizeof(c), "r=%s,i=1", S.snonce); break;
        case 11: snprintf(c, sizeof(c), "s=%s,i=1", sb); break;
        case 12: snprintf(c, sizeof(c), "r=%s,s=%s", S.snonce, sb); break;
        case 13: snprintf(c, sizeof(c), "r=,s=,i="); break;
        case 14: snprintf(c, sizeof(c), "r=%s,s=***,i=1", S.snonce); break;
        case 15: snprintf(c, sizeof(c), "r=%s,s=%s,i=-1", S.snonce, sb); break;
        case 16: snprintf(c, sizeof(c), ",,,"); break;
        case 17: snprintf(c, sizeof(c), "r=%s,s=%s,i=abc", S.snonce, sb); break;
        case 18: snprintf(c, sizeof(c), "s"); break;
        case 19: snprintf(c, sizeof(c), "r=%s,s=,i=1", S.snonce); break;
        case 20: tx("<challenge xmlns='" NSASL "'>!!!notbase64</challenge>"); S.step = 99; return;
        case 21: tx("<challenge xmlns='" NSASL "'/>"); S.step = 99; return;
        case 22: tx("<challenge xmlns='" NSASL "'>AAAA</challenge>"); S.step = 99; return;
        case 23: c[strlen(S.snonce)] = 0; break; /* the nonce cut off */
        }
        S.step = k >= 8 ? 98 : 1;
    } else {
        k = dev(P_CHAL, 9);
        snprintf(c, sizeof(c), "%s", k == 1 ? "realm=\"d\",nonce=\"N,=1\",qop=\"auth\",algorithm=md5-sess" :
                 k == 2 ? "nonce=\"abc\",qop=\"auth,auth-int\",charset=utf-8,algorithm=md5-sess" : k == 3 ? "realm=\"other\",nonce=\"x\",qop=\"auth\",charset=utf-8,algorithm=md5-sess" :
                 k == 4 ? "realm=\"d\",qop=\"auth\"" : k == 5 ? "realm=\"d\",nonce=\"x" : k == 6 ? "=,=,\"" : k == 7 ? "nonce" : "realm=\"d\",nonce=\"OA6MG9tEQGm2hh\",qop=\"auth\",charset=utf-8,algorithm=md5-sess");
        snprintf(S.chal, sizeof(S.chal), "%s", c);
        S.step = k >= 4 && k < 8 ? 98 : 1;
        if (k == 8) { tx("<challenge xmlns='" NSASL "'/>"); S.step = 99; return; }
    }
    b64e(c, strlen(c), e);
    tx("<challenge xmlns='" NSASL "'>%s</challenge>", e);
}
static void field(const char *s, const char *k, char *o, size_t cap)
{
    size_t kl = strlen(k), i = 0;
    o[0] = 0;
    while (*s) {
        int hit = !strncmp(s, k, kl) && s[kl] == '=';
        s += strcspn(s, "=,");
        if (*s == '=') {
            s++;
            if (*s == '"') {
                for (s++; *s && *s != '"'; s++) { if (*s == '\\' && s[1]) s++; if (hit && i + 1 < cap) o[i++] = *s; }
                if (*s) s++;
            } else for (; *s && *s != ','; s++) if (hit && i + 1 < cap) o[i++] = *s;
        }
        if (hit) { o[i] = 0; return; }
        if (*s == ',') s++;
    }
}
static void hex(const unsigned char *d, int n, char *o) { int i; for (i = 0; i < n; i++) sprintf(o + 2 * i, "%02x", d[i]); }
static void check_digest(const char *b64)
{
    unsigned char d[1500], h[64];
    char v[8][300], a[900], ha1[33], ha2[33], r[33];
    unsigned l;
    int n = b64 ? b64d(b64, d, sizeof(d) - 1) : -1, i;
    static const char *K[] = {"username", "realm", "nonce", "cnonce", "nc", "qop", "digest-uri", "response"};
    char realm[100], nonce[100];
    VF_ASSERT(n > 0, "C07: the DIGEST-MD5 response is not base64");
    if (n <= 0) return;
    for (i = 0; i < 8; i++) field((char *)d, K[i], v[i], sizeof(v[i]));
    field(S.chal, "realm", realm, 100); field(S.chal, "nonce", nonce, 100);
    if (!realm[0]) strcpy(realm, C.domain);
    VF_ASSERT(seq(v[0], C.node) && seq(v[2], nonce) && seq(v[4], "00000001") && seq(v[5], "auth"), "C07: wrong user name, nonce, nc or qop in the DIGEST-MD5 response");
    { char u[300]; snprintf(u, sizeof(u), "xmpp/%s", C.domain); VF_ASSERT(seq(v[6], u), "C07: wrong digest-uri in the DIGEST-MD5 response"); }
    VF_ASSERT(seq(v[1], realm), "C07: wrong realm in the DIGEST-MD5 response");
    fresh(v[3]);
    snprintf(a, sizeof(a), "%s:%s:%s", v[0], v[1], C.pass);
    EVP_Digest(a, strlen(a), h, &l, EVP_md5(), NULL);
    memcpy(a, h, 16);
    i = snprintf(a + 16, sizeof(a) - 16, ":%s:%s", v[2], v[3]);
    EVP_Digest(a, (size_t)(16 + i), h, &l, EVP_md5(), NULL); hex(h, 16, ha1);
    snprintf(a, sizeof(a), "AUTHENTICATE:%s", v[6]);
    EVP_Digest(a, strlen(a), h, &l, EVP_md5(), NULL); hex(h, 16, ha2);
    snprintf(a, sizeof(a), "%s:%s:%s:%s:%s:%s", ha1, v[2], v[4], v[3], v[5], ha2);
    EVP_Digest(a, strlen(a), h, &l, EVP_md5(), NULL); hex(h, 16, r);
    VF_ASSERT(seq(v[7], r), "C07: the DIGEST-MD5 response is not the value of RFC 2831");
    VF_REACH("digest-md5 response verified");
}
static void check_scram(unsigned m, const char *b64)
{
    unsigned char d[900], salted[64], ck[64], sk[64], sig[64], pr[100];
    char cb[300], want[900], am[2000], raw[200];
    const EVP_MD *md = mdof(m);
    unsigned l;
    int n = b64 ? b64d(b64, d, sizeof(d) - 1) : -1, hl = EVP_MD_size(md), i;
    size_t rn;
    VF_ASSERT(n > 0, "C07: the SCRAM client-final-message is not base64");
    if (n <= 0) return;
    strcpy(raw, S.gs2); rn = strlen(raw);
    if (m & M_PLUS) { memcpy(raw + rn, "BINDING-DATA-OF-32-OCTETS-\0\1\2\3,=", 32); rn += 32; }
    b64e(raw, rn, cb);
    snprintf(want, sizeof(want), "c=%s,r=%s", cb, S.snonce);
    VF_ASSERT(!strncmp((char *)d, want, strlen(want)) && !strncmp((char *)d + strlen(want), ",p=", 3), "C07: wrong channel binding or nonce in the SCRAM client-final-message");
    if (strncmp((char *)d, want, strlen(want))) return;
    snprintf(am, sizeof(am), "%s,%s,%s", S.first_bare, S.chal, want);
    PKCS5_PBKDF2_HMAC(C.pass, (int)strlen(C.pass), (unsigned char *)s_salt, s_saltn, s_iter, md, hl, salted);
    HMAC(md, salted, hl, (const unsigned char *)"Client Key", 10, ck, &l);
    EVP_Digest(ck, (size_t)hl, sk, &l, md, NULL);
    HMAC(md, sk, hl, (unsigned char *)am, strlen(am), sig, &l);
    for (i = 0; i < hl; i++) ck[i] ^= sig[i];
    n = b64d((char *)d + strlen(want) + 3, pr, sizeof(pr) - 1);
    VF_ASSERT(n == hl && !memcmp(pr, ck, (size_t)hl), "C07: the SCRAM proof does not verify");
    VF_REACH("SCRAM proof verified");
}
static void said_success(void) { if (!S.on) return; tx("<success xmlns='" NSASL "'/>"); S.said_success = 1; S.need_hdr = 1; S.auth = 0; }
static void auth_end(void)
{
    if (!S.on) return;
    switch (dev(P_REPLY, 6)) {
    case 0: said_success(); break;
    case 1: tx("<failure xmlns='" NSASL "'><not-authorized/></failure>"); S.auth = 0; break;
    case 2: tx("<foo xmlns='" NSASL "'/>"); break;
    case 3: break;
    case 4: tx("<challenge xmlns='" NSASL "'>cnNwYXV0aD0x</challenge>"); S.step = 99; break;
    case 5: s_close(); break;
    }
}
static void on_auth(node *e)
{
    const char *mn = at(e, "mechanism"), *t = e->text;
    unsigned m = 0;
    int i;
    for (i = 0; i < 10; i++) if (seq(MN[i], mn)) m = 1u << i;
    S.r_auth++;
    PROTO(m != 0 && (S.mech_ever & m), "C03,C02: a SASL mechanism is used that the server did not offer");
    PROTO(!S.said_success || S.early, "C03: authenticates again after success");
    PROTO(!(S.tried & m), "C03: a mechanism is tried again after it failed");
    PROTO(S.auth == 0 || S.step == 99 || S.early, "C03: a second authentication is started while one is in progress");
    VF_ASSERT(!(C.flags & XMPP_CONN_FLAG_MANDATORY_TLS) || S.tls, "C02: authentication data before TLS although TLS is mandatory");
    if (m == M_PLAIN)
        VF_ASSERT(S.sf > 1 || !(S.mech_ever & (M_SCRAM | M_DIGEST)) && !((S.mech_ever & M_EXT) && C.cert), "C02: PLAIN is used although a stronger mechanism was offered");
    if (m & M_PLUS) VF_ASSERT(S.tls, "C07: a -PLUS mechanism without TLS");
    S.tried |= m; S.auth = m; S.step = 0;
    if (m == M_PLAIN) {
        unsigned char d[700];
        char w[700];
        int n = t ? b64d(t, d, sizeof(d) - 1) : -1, wl = 1;
        w[0] = 0;
        strcpy(w + 1, C.node ? C.node : ""); wl += (int)strlen(w + 1) + 1;
        strcpy(w + wl, C.pass); wl += (int)strlen(C.pass);
        VF_ASSERT(n == wl && !memcmp(d, w, (size_t)wl), "C07: the PLAIN response is not base64 of NUL user NUL password");
        VF_REACH("PLAIN verified");
    } else if (m == M_EXT) {
        unsigned char d[300];
        VF_ASSERT(C.cert, "C03,C02: EXTERNAL without a client certificate");
        if (w_certs == 1 && seq(C.jid, "u@d/r")) VF_ASSERT(seq(t, "="), "C07: EXTERNAL does not leave the identity to the certificate");
        else if (!seq(t, "=")) VF_ASSERT(t && b64d(t, d, sizeof(d) - 1) > 0 && seq((char *)d, C.jid), "C07: EXTERNAL with a wrong identity");
        else VF_ASSERT(w_certs == 0, "C07: EXTERNAL without identity although the certificate is ambiguous");
    } else if (m == M_ANON) {
        VF_ASSERT(!t && !C.node, "C07: wrong ANONYMOUS request");
    } else if (m & M_SCRAM) {
        scram_first(m, t);
    } else VF_ASSERT(!t, "C07: DIGEST-MD5 with initial response");
    inject(dev(P_INJECT, NINJ));
    if (!S.on) return;
    if (m & (M_SCRAM | M_DIGEST)) {
        switch (dev(P_REPLY, 6)) {
        case 0: challenge(m); break;
        case 1: tx("<failure xmlns='" NSASL "'><not-authorized/></failure>"); S.auth = 0; break;
        case 2: said_success(); break;
        case 3: tx("<foo xmlns='" NSASL "'/>"); break;
        case 4: break;
        case 5: s_error(2); break;
        }
    } else auth_end();
}
static void on_response(node *e)
{
    VF_ASSERT(!(C.flags & XMPP_CONN_FLAG_MANDATORY_TLS) || S.tls, "C02: authentication data before TLS although TLS is mandatory");
    if (S.step == 99 || S.early) { auth_end(); return; } /* answers to nonsense */
    PROTO(S.auth && S.step, "C03: a response without a challenge");
    if (S.auth & M_SCRAM) {
        VF_ASSERT(S.step == 1, "C07: a SCRAM challenge that does not continue the exchange is answered");
        if (S.step == 1) check_scram(S.auth, e->text);
        S.step = 2;
        auth_end();
    } else if (S.step == 98) { S.step = 2; auth_end(); }
    else if (S.step == 1) {
        check_digest(e->text);
        S.step = 2;
        if (!S.on) return;
        if (dev(P_REPLY, 2)) said_success();
        else tx("<challenge xmlns='" NSASL "'>cnNwYXV0aD0x</challenge>");
    } else {
        VF_ASSERT(!e->text, "C07: the answer to rspauth is not empty");
        auth_end();
    }
}
static void check_bind(node *e)
{
    node *r = kid(kid(e, "bind"), "resource");
    const char *t = r ? r->text : NULL;
    S.r_bind++;
    PROTO(S.o_bind, "C03: resource binding although the server did not offer it");
    PROTO(S.said_success, "C03: resource binding before authentication");
    PROTO(S.r_bind == 1 || S.early || M.fuzzy, "C03: a resource is bound twice");
    PROTO((!t && (!C.resource || !C.resource[0])) || seq(t, C.resource), "C03: the bind request does not ask for the configured resource");
}
static int is_stanza(const node *e) { return seq(e->name, "message") || seq(e->name, "iq") || seq(e->name, "presence"); }
static void sm_rx(const char *s, size_t n)
{
    char t[120];
    VF_ASSUME(n < sizeof(t));
    memcpy(t, s, n); t[n] = 0;
    if (M.expi < M.expn) {
        VF_ASSERT(seq(t, M.exp[M.expi]) || M.fuzzy || M.opt, "C04: what was not acknowledged is not sent again, once, in order and before anything new");
        if (seq(t, M.exp[M.expi]) || !M.opt) M.expi++;
        VF_REACH("unacknowledged stanza sent again");
    }
    if (M.on) { VF_ASSUME(M.n < 48); strcpy(M.t[M.n++], t); }
}
/* which of the acknowledgements reached the client */
static void sm_acks(int h)
{
    if (M.ack_n < 16) { M.ack_pos[M.ack_n] = w_rtot + (w_outn - w_outr); M.ack_h[M.ack_n++] = h; }
}
static void sm_msg(void)
{
    /* ordinary traffic: a message for every message, and requests */
    if (M.live) send_r();
}
static void on_user(node *e, const char *s, size_t n)
{
    char t[120];
    int i;
    const char *body = kid(e, "body") ? kid(e, "body")->text : NULL;
    VF_ASSUME(n < sizeof(t));
    memcpy(t, s, n); t[n] = 0;
    (void)body;
    PROTO(u_conn || w_negotiated, "C03: what the user submitted reaches the wire before the connection is up");
    /* the next of what the user sent that has not been seen, unless resent */
    for (i = u_seen; i < u_sent && u_drop[i]; i++);
    if (M.expi <= M.expn && M.expn && M.expi > 0 && seq(t, M.exp[M.expi - 1])) return; /* resent: checked above */
    if (M.fuzzy) return;
    VF_ASSERT(i < u_sent && seq(t, u_txt[i]), "C06,C20: what the user sent does not arrive once, whole and in order");
    u_seen = i + 1;
}
static void on_sm(node *e)
{
    if (seq(e->name, "enable")) {
        S.r_enable++;
        PROTO(S.o_sm, "C03: stream management is enabled although the server did not offer it");
        PROTO(!(C.flags & XMPP_CONN_FLAG_DISABLE_SM), "C03: stream management is enabled although the user disabled it");
        PROTO(S.said_bound && (S.r_sess == 0 || S.said_sess), "C03: stream management is enabled before a resource was bound");
        PROTO(S.r_enable == 1, "C03: stream management is enabled twice");
        if (!S.r_resume) { int i; M.expn = M.expi = 0; M.opt = 1; for (i = M.kack; i < M.n; i++) strcpy(M.exp[M.expn++], M.t[i]); }
        M.on = 1; M.n = 0; M.acked = M.jc = 0; M.txn = 0; M.live = 0; M.rs = M.as = 0; M.hmax = -1; M.hfuzzy = 0;
        if (!S.on) { M.live = M.on = 0; return; }
        switch (dev(P_SMX, 7)) {
        case 0: M.id++; tx("<enabled xmlns='" NSM "' resume='true' id='sm%d'/>", M.id); M.live = 1; S.said_enabled = 1; break;
        case 1: tx("<enabled xmlns='" NSM "'/>"); M.live = 1; S.said_enabled = 1; break;
        case 2: tx("<failed xmlns='" NSM "'/>"); M.on = 0; S.said_sm_off = 1; break;
        case 3: tx("<failed xmlns='" NSM "'><feature-not-implemented xmlns='" NSTANZAS "'/></failed>"); M.on = 0; S.said_sm_off = 1; break;
        case 4: tx("<enabled xmlns='" NSM "' resume='true'/>"); M.fuzzy = 1; break;
        case 5: break;
        case 6: M.id++; tx("<enabled xmlns='" NSM "' resume='1' id='sm%d' max='10'/>", M.id); M.live = 1; S.said_enabled = 1; break;
        }
        M.swx = M.live ? w_rtot + (w_outn - w_outr) : (size_t)-1;
        M.kack = 0; M.ack_n = 0;
        inject(dev(P_INJECT, NINJ));
    } else if (seq(e->name, "resume")) {
        char p[32];
        int h, i, lost;
        const char *hh = at(e, "h");
        S.r_resume++;
        PROTO(S.o_sm && S.said_success, "C03: resumption although the server did not offer it");
        snprintf(p, sizeof(p), "sm%d", M.id);
        PROTO(seq(at(e, "previd"), p) || M.fuzzy, "C03,C04: resumption of an unknown session");
        snprintf(p, sizeof(p), "%d", M.txn);
        VF_ASSERT(M.fuzzy || (M.hfuzzy ? hh && atoi(hh) <= M.txn : seq(hh, p)), "C05: <resume/> does not report the number of stanzas received");
        if (!S.on) return;
        if (hh) M.txn = atoi(hh);
        M.hfuzzy = 0;
        VF_REACH("resumption requested");
        /* what the server got may be less than what was written */
        lost = dev(P_SMX, 3);
        h = (M.hmax >= 0 ? M.hmax : M.n) - lost;
        if (h < M.acked) h = M.acked;
        M.expn = M.expi = M.opt = 0;
        switch (dev(P_SMX, 7)) {
        case 0:
            for (i = h; i < M.n; i++) strcpy(M.exp[M.expn++], M.t[i]);
            M.n = h; M.acked = M.jc = h; M.on = M.live = 1; M.rs = M.as = 0; M.hmax = -1;
            tx("<resumed xmlns='" NSM "' previd='sm%d' h='%d'/>", M.id, h);
            M.swx = w_rtot + (w_outn - w_outr);
            sm_acks(h);
            S.said_resumed = 1;
            break;
        case 1:
            for (i = M.kack; i < M.n; i++) strcpy(M.exp[M.expn++], M.t[i]);
            M.on = M.live = 0;
            tx("<failed xmlns='" NSM "'><item-not-found xmlns='" NSTANZAS "'/></failed>"); S.said_failed = 1; break;
        case 2:
            for (i = h; i < M.n; i++) strcpy(M.exp[M.expn++], M.t[i]);
            M.on = M.live = 0;
            tx("<failed xmlns='" NSM "' h='%d'><item-not-found xmlns='" NSTANZAS "'/></failed>", h); S.said_failed = 1; break;
        case 3: tx("<resumed xmlns='" NSM "' previd='other' h='%d'/>", h); M.fuzzy = 1; break;
        case 4: tx("<resumed xmlns='" NSM "' previd='sm%d' h='z'/>", M.id); M.fuzzy = 1; break;
        case 5: break;
        case 6: if (!S.r_bind) S.early = M.fuzzy = 1;
            tx("<resumed xmlns='" NSM "' previd='sm%d'/>", M.id); M.fuzzy = 1; break;
        }
    } else if (seq(e->name, "r")) {
        int k;
        PROTO(S.r_enable || S.r_resume, "C03: an acknowledgement is requested without stream management");
        if (!M.live || !S.on) return;
        k = dev(P_SMX, 5);
        if (k == 0) { M.acked = M.n; tx("<a xmlns='" NSM "' h='%d'/>", M.n); sm_acks(M.n); }
        else if (k == 1) tx("<a xmlns='" NSM "' h='%d'/>", M.acked);
        else if (k == 2) tx("<a xmlns='" NSM "' h='-'/>");
        else if (k == 3 && M.n > M.acked) { M.acked++; tx("<a xmlns='" NSM "' h='%d'/>", M.acked); sm_acks(M.acked); }
        else if (k == 4) tx("<a xmlns='" NSM "'/>");
    } else if (seq(e->name, "a")) {
        char p[16];
        if (M.fuzzy || !M.live) return;
        VF_ASSERT(M.as < M.rs, "C05: an <r/> is answered more than once");
        snprintf(p, sizeof(p), "%d", M.rp[M.as++ % 64]);
        VF_ASSERT(seq(at(e, "h"), p), "C05: an <a/> does not report the number of stanzas received");
        VF_REACH("<a/> checked");
    } else PROTO(0, "C03: unknown stream-management element");
}
static void on_elem(const char *s, size_t n)
{
    node *e;
    w_ause = 0; w_bad = NULL;
    e = p_elem(s, n);
    if (w_bad && getenv("VF_LOG")) fprintf(stderr, "BAD %s: %.*s\n", w_bad, (int)n, s);
    VF_ASSERT(!w_bad && e, "C06,C09,C20: what arrives at the server is not well-formed");
    if (w_bad || !e) return;
    if (getenv("VF_LOG")) fprintf(stderr, "C>S %.*s\n", (int)n, s);
    PROTO(!S.need_hdr || S.early || seq(e->name, "stream:error"), "C03: no stream restart after the security layer changed");
    VF_ASSERT(S.tls || !w_hs_fail || seq(e->name, "stream:error") || S.early, "C08,C02: the connection is continued in the clear after a failed handshake");
    if (is_stanza(e) && (M.on || M.expi < M.expn) && !(seq(e->name, "iq") && at(e, "id") && !strncmp(at(e, "id"), "_xmpp_", 6) && !M.on)) sm_rx(s, n);
    if (seq(e->ns, NTLS) && seq(e->name, "starttls")) {
        S.r_starttls++; w_tls_wanted = 1;
        VF_ASSERT(!(C.flags & XMPP_CONN_FLAG_DISABLE_TLS), "C02: TLS is requested although the user disabled it");
        PROTO(S.o_tls && (!S.tls || S.early), "C03: TLS is requested although the server did not offer it");
        PROTO(S.r_auth == 0 || S.early, "C03: TLS is requested after authentication started");
        inject(dev(P_INJECT, NINJ));
        if (!S.on) return;
        switch (dev(P_REPLY, 5)) {
        case 0: tx("<proceed xmlns='" NTLS "'/>"); S.tls_want = 1; w_srv_tls_ok = 1; break;
        case 1: tx("<failure xmlns='" NTLS "'/>"); break;
        case 2: tx("<foo xmlns='" NTLS "'/>"); break;
        case 3: break;
        case 4: s_error(0); break;
        }
    } else if (seq(e->ns, NSASL) && seq(e->name, "auth")) on_auth(e);
    else if (seq(e->ns, NSASL) && seq(e->name, "response")) on_response(e);
    else if (seq(e->ns, NCOMP)) {
        PROTO(seq(e->name, "compress") && kid(e, "method") && seq(kid(e, "method")->text, "zlib"), "C03: wrong compression request");
        PROTO(S.o_comp && S.said_success, "C03,C20: compression is requested although the server did not offer it");
        PROTO((C.flags & XMPP_CONN_FLAG_ENABLE_COMPRESSION) != 0, "C03,C20: compression is requested although the user did not enable it");
        S.r_comp++;
        PROTO(S.r_comp == 1, "C03: compression is requested twice");
        inject(dev(P_INJECT, NINJ));
        if (!S.on) return;
        switch (dev(P_REPLY, 4)) {
        case 0:
            tx("<compressed xmlns='" NCOMP "'/>");
            memset(&z_in, 0, sizeof(z_in)); memset(&z_out, 0, sizeof(z_out));
            z_in.zalloc = z_out.zalloc = z_al; z_in.zfree = z_out.zfree = z_fr;
            inflateInit(&z_in); deflateInit2(&z_out, 6, Z_DEFLATED, 15, 8, Z_DEFAULT_STRATEGY);
            S.comp = S.comp_wait = 1; S.comp_at = w_rtot + (w_outn - w_outr); S.need_hdr = 1;
            break;
        case 1: tx("<failure xmlns='" NCOMP "'><setup-failed/></failure>"); break;
        case 2: tx("<foo xmlns='" NCOMP "'/>"); break;
        case 3: break;
        }
    } else if (seq(e->name, "iq") && seq(at(e, "id"), "_xmpp_bind1")) {
        check_bind(e);
        S.t_bind = w_now;
        inject(dev(P_INJECT, NINJ));
        if (!S.on) return;
        switch (dev(P_REPLY, 7)) {
        case 0: tx("<iq type='result' id='_xmpp_bind1'><bind xmlns='" NBIND "'><jid>u@d/r2</jid></bind></iq>"); S.said_bound = 1; break;
        case 1: tx("<iq type='error' id='_xmpp_bind1'><error type='cancel'><conflict xmlns='" NSTANZAS "'/></error></iq>"); break;
        case 2: tx("<iq type='result' id='_xmpp_bind1'/>"); S.said_bound = 1; break;
        case 3: tx("<iq id='_xmpp_bind1'/>"); break;
        case 4: break;
        case 5: tx("<iq type='result' id='other'/>"); break;
        case 6: if (!S.r_bind) S.early = M.fuzzy = 1;
            tx("<iq type='result' id='_xmpp_bind1'><bind xmlns='" NBIND "'><jid/></bind></iq>"); S.said_bound = 1; break;
        }
    } else if (seq(e->name, "iq") && seq(at(e, "id"), "_xmpp_session1")) {
        PROTO(S.o_sess & 1, "C03: a session is requested although the server does not want one");
        PROTO(S.said_bound, "C03: a session is requested before a resource was bound");
        PROTO(++S.r_sess == 1 || S.early, "C03: a session is requested twice");
        inject(dev(P_INJECT, NINJ));
        if (!S.on) return;
        switch (dev(P_REPLY, 4)) {
        case 0: tx("<iq type='result' id='_xmpp_session1'/>"); S.said_sess = 1; break;
        case 1: tx("<iq type='error' id='_xmpp_session1'/>"); break;
        case 2: tx("<iq type='set' id='_xmpp_session1'/>"); break;
        case 3: break;
        }
    } else if (seq(e->name, "iq") && seq(at(e, "id"), "_xmpp_auth1")) {
        node *q = kid(e, "query");
        VF_ASSERT(!C.component && (C.flags & XMPP_CONN_FLAG_LEGACY_AUTH), "C02,C03: legacy authentication although the user did not enable it");
        VF_ASSERT(!(C.flags & XMPP_CONN_FLAG_MANDATORY_TLS) || S.tls, "C02: authentication data before TLS although TLS is mandatory");
        PROTO(++S.r_legacy == 1, "C03: legacy authentication is tried twice");
        VF_ASSERT(q && seq(q->ns, "jabber:iq:auth") && kid(q, "username") && seq(kid(q, "username")->text, C.node) && kid(q, "password") && seq(kid(q, "password")->text, C.pass) && kid(q, "resource") && seq(kid(q, "resource")->text, C.resource), "C07: legacy authentication does not carry user, password and resource");
        if (!S.on) return;
        switch (dev(P_REPLY, 4)) {
        case 0: tx("<iq type='result' id='_xmpp_auth1'/>"); S.said_legacy = 1; break;
        case 1: tx("<iq type='error' id='_xmpp_auth1'/>"); break;
        case 2: tx("<iq id='_xmpp_auth1'/>"); break;
        case 3: break;
        }
    } else if (seq(e->ns, NSM)) on_sm(e);
    else if (seq(e->name, "handshake")) {
        unsigned char h[20];
        char b[200], x[41];
        unsigned l;
        PROTO(C.component && ++S.r_hs == 1, "C03: a component handshake on a client connection, or two");
        snprintf(b, sizeof(b), "%s%s", S.id, C.pass);
        EVP_Digest(b, strlen(b), h, &l, EVP_sha1(), NULL); hex(h, 20, x);
        VF_ASSERT(S.id[0] && seq(e->text, x), "C07: the component handshake is not hex(SHA1(id || secret))");
        inject(dev(P_INJECT, NINJ));
        if (!S.on) return;
        switch (dev(P_REPLY, 4)) {
        case 0: tx("<handshake/>"); S.said_hs = 1; break;
        case 1: s_error(0); break;
        case 2: tx("<foo/>"); break;
        case 3: break;
        }
    } else if (at(e, "id") && at(e, "id")[0] == 'm') {
        on_user(e, s, n);
        if (!S.on) return;
        switch (dev(P_SMX, 4)) {
        case 0: sm_msg(); break;
        case 1: tx("<message id='s1' from='x@d'><body>a</body></message>"); if (M.live) M.txn++; sm_msg(); break;
        case 2: sm_msg(); sm_msg(); break;
        case 3: break;
        }
    } else if (seq(e->name, "stream:error")) {
        S.on = S.on && 1;
    } else {
        PROTO(0, "C03: the client says something that answers nothing");
    }
}
static void srv_item(const char *s, size_t n)
{
    if (s[0] != '<') { VF_ASSERT(s[0] == ' ' || s[0] == '\n', "C06,C09,C20: text between stanzas"); return; }
    if (s[1] == '?') return;
    if (n > 14 && !strncmp(s, "<stream:stream", 14)) {
        const char *p = s + 1;
        char b[2000];
        node *h;
        VF_ASSUME(n < sizeof(b));
        memcpy(b, s, n); b[n] = 0; p = b + 1;
        w_ause = 0; w_bad = NULL;
        h = (node *)w_al(sizeof(node));
        p_tag(&p, h, NULL);
        if (getenv("VF_LOG")) fprintf(stderr, "C>S %s\n", b);
        VF_ASSERT(!w_bad, "C03,C06: the stream header is not well-formed");
        VF_ASSERT(S.tls || !w_hs_fail, "C08,C02: the connection is continued in the clear after a failed handshake");
        PROTO(S.nhdr == 0 || S.need_hdr || S.early, "C03: a stream restart without a change of the security layer");
        on_header(h);
        return;
    }
    if (n >= 16 && !strncmp(s, "</stream:stream>", 16)) {
        if (getenv("VF_LOG")) fprintf(stderr, "C>S </stream:stream>\n");
        if (!t_close) t_close = w_now;
        if (S.on) {
            switch (dev(P_REPLY, 3)) {
            case 0: tx("</stream:stream>"); s_close(); break;
            case 1: break;
            case 2: s_close(); break;
            }
        }
        S.on = 0;
        return;
    }
    on_elem(s, n);
}
static void srv_eat(const char *d, size_t n)
{
    VF_ASSUME(S.rxn + n < sizeof(S.rx));
    memcpy(S.rx + S.rxn, d, n);
    S.rxn += n;
    S.rx[S.rxn] = 0;
    for (;;) {
        size_t l = p_len(S.rx, S.rxn);
        char item[4096];
        if (!l || !S.rxn) break;
        VF_ASSUME(l < sizeof(item));
        memcpy(item, S.rx, l); item[l] = 0;
        memmove(S.rx, S.rx + l, S.rxn - l + 1);
        S.rxn -= l;
        srv_item(item, l);
    }
}
static void srv_rx(const char *d, size_t n, int tls)
{
    if (tls && !S.tls) {
        S.tls = 1;
        S.need_hdr = 1;
        VF_ASSERT(w_srv_tls_ok, "C08: TLS without a handshake");
    }
    VF_ASSERT(tls || !S.tls, "C02,C08: plain bytes after TLS was established");
    if (S.comp_wait && w_rtot >= S.comp_at) S.comp_wait = 0; /* the client knows that compression is on */
    if (S.comp && !S.comp_wait) {
        char o[8192];
        int r;
        z_in.next_in = (Bytef *)d; z_in.avail_in = (uInt)n;
        do {
            z_in.next_out = (Bytef *)o; z_in.avail_out = sizeof(o);
            r = inflate(&z_in, Z_SYNC_FLUSH);
            VF_ASSERT(r == Z_OK || r == Z_BUF_ERROR, "C20: what the client sends does not inflate");
            if (r != Z_OK) break;
            srv_eat(o, sizeof(o) - z_in.avail_out);
        } while (z_in.avail_in || z_in.avail_out == 0);
        return;
    }
    srv_eat(d, n);
}
static void srv_accept(void)
{
    memset(&S, 0, sizeof(S));
    S.on = 1;
    w_outn = w_outr = 0;
    w_srv_tls_ok = (C.flags & XMPP_CONN_FLAG_LEGACY_SSL) != 0;
    w_tls_wanted = w_srv_tls_ok;
    w_tls_on = 0; w_tls_fail = 0; w_hs_fail = 0; t_close = 0;
    M.live = M.on = 0;
    { int i; for (i = 0; i < M.ack_n; i++) if (M.ack_pos[i] <= w_rtot && M.ack_h[i] > M.kack) M.kack = M.ack_h[i]; M.ack_n = 0; }
    M.expn = M.expi = 0;
    z_use = 0;
}
static void w_settle(void) { }

/* ------------------------------------------------------------ the user */
static xmpp_ctx_t *w_ctx;
static int A_acc, A_conn, A_disc, A_raw; /* the current attempt */
static uint64_t A_t0, t_disc, t_user_close;
static int in_cb, reconnects;
static void mon(void)
{
    int a, b, c;
    if (!w_conn) return;
    a = xmpp_conn_is_connecting(w_conn); b = xmpp_conn_is_connected(w_conn); c = xmpp_conn_is_disconnected(w_conn);
    VF_ASSERT(!!a + !!b + !!c == 1, "C13: not exactly one of connecting, connected and disconnected");
    VF_ASSERT(!!c == (!A_acc || A_disc), "C13: is_disconnected does not agree with the notifications");
    if (!C.raw) VF_ASSERT(!!b == (A_acc && A_conn && !A_disc), "C13: is_connected does not agree with the notifications");
}
static int user_msg(const char *x)
{
    VF_ASSUME(u_sent < 64);
    snprintf(u_txt[u_sent], sizeof(u_txt[0]), "<message id=\"m%d\" to=\"x@d\"><body>%s</body></message>", u_sent, x);
    return u_sent++;
}
static int user_up(void) { return A_conn && !A_disc; }
/* kind 0: xmpp_send, 1: xmpp_send_raw, 2: xmpp_send_raw_string */
static void user_send(int kind, const char *x)
{
    int up = xmpp_conn_is_connected(w_conn), i = u_sent;
    if (up) i = user_msg(x);
    else snprintf(u_txt[i], sizeof(u_txt[0]), "<message id=\"mX\"/>");
    if (kind == 0) {
        xmpp_stanza_t *m = xmpp_stanza_new_from_string(w_ctx, u_txt[i]);
        VF_ASSUME(m != NULL);
        if (up) {
            /* attribute order is the library's choice */
            char *t; size_t n;
            if (xmpp_stanza_to_text(m, &t, &n) == 0) { VF_ASSUME(n < sizeof(u_txt[0])); strcpy(u_txt[i], t); xmpp_free(w_ctx, t); }
        }
        xmpp_send(w_conn, m);
        xmpp_stanza_release(m);
    } else if (kind == 1) xmpp_send_raw(w_conn, u_txt[i], strlen(u_txt[i]));
    else xmpp_send_raw_string(w_conn, "%s", u_txt[i]);
}
static void user_dropq(xmpp_queue_element_t which)
{
    char *t = xmpp_conn_send_queue_drop_element(w_conn, which);
    int i;
    if (!t) return;
    for (i = M.expi; i < M.expn; i++) if (seq(M.exp[i], t)) {
        for (M.expn--; i < M.expn; i++) strcpy(M.exp[i], M.exp[i + 1]);
        xmpp_free(w_ctx, t);
        return;
    }
    for (i = u_seen; i < u_sent; i++) if (!u_drop[i] && seq(u_txt[i], t)) break;
    VF_ASSERT(i < u_sent || !user_up() || M.fuzzy, "C06: dropping returns something that is not waiting in the queue");
    if (i < u_sent) u_drop[i] = 1;
    xmpp_free(w_ctx, t);
}
static int u_msgs;
static int h_msg(xmpp_conn_t *c, xmpp_stanza_t *s, void *ud)
{
    (void)s; (void)ud;
    VF_ASSERT(user_up() && xmpp_conn_is_connected(c), "C03,C11: a user handler runs before the connection is up");
    u_msgs++;
    return 1;
}
static uint64_t t_last;
static int h_timed(xmpp_conn_t *c, void *ud)
{
    (void)ud;
    VF_ASSERT(user_up() && xmpp_conn_is_connected(c), "C03,C11: a timed handler of the user runs before the connection is up");
    VF_ASSERT(w_now - t_last >= 700, "C11: a timed handler fires early");
    t_last = w_now;
    return 1;
}
static void do_connect(void);
static void on_event(xmpp_conn_t *c, xmpp_conn_event_t ev, int error, xmpp_stream_error_t *se, void *ud)
{
    (void)ud; (void)error;
    VF_ASSERT(c == w_conn, "C13: a notification for another connection");
    VF_ASSERT(A_acc, "C13: a notification without an attempt");
    if (getenv("VF_LOG")) fprintf(stderr, "EVENT %d t=%lu err=%d\n", (int)ev, (unsigned long)w_now, error);
    if (ev == XMPP_CONN_CONNECT) {
        VF_ASSERT(!A_disc, "C13: connected after disconnected");
        VF_ASSERT(!A_conn, "C03,C13: the user is told twice that the connection is up");
        A_conn = 1; u_conn = 1; w_negotiated = 1;
        if (C.component) VF_ASSERT(S.said_hs, "C03: connected although the handshake was not acknowledged");
        else if (!C.raw) {
            int ok = S.said_legacy && (S.r_legacy || S.early);
            if (S.said_success && S.r_auth && S.said_bound && (S.r_bind || S.early) && (!(S.o_sess & 1) || S.said_sess || S.sf > 1)) ok = 1;
            if (S.said_success && S.said_resumed && (S.r_resume || S.early)) ok = 1;
            VF_ASSERT(ok, "C03: connected before authentication succeeded and a resource was bound or a session resumed");
            VF_ASSERT(!S.need_hdr || S.early, "C03: connected before the stream was restarted");
            VF_ASSERT(!(C.flags & XMPP_CONN_FLAG_MANDATORY_TLS) || xmpp_conn_is_secured(c), "C02: connected without TLS although TLS is mandatory");
        }
        VF_ASSERT(!!xmpp_conn_is_secured(c) == !!w_tls_on, "C08: is_secured does not tell the truth");
        mon();
        t_last = 0;
        VF_REACH("connected");
        switch (dev(P_CB, 5)) {
        case 0: user_send(0, "1"); break;
        case 1: xmpp_disconnect(c); u_close_req = 1; break;
        case 2: user_send(1, "a"); user_send(2, "b"); user_dropq(XMPP_QUEUE_OLDEST); break;
        case 3: user_send(0, "a"); xmpp_disconnect(c); xmpp_disconnect(c); u_close_req = 1; break;
        case 4: break;
        }
    } else if (ev == XMPP_CONN_RAW_CONNECT) {
        VF_ASSERT(C.raw && !A_raw && !A_disc, "C13: wrong raw connect notification");
        A_raw = 1;
    } else if (ev == XMPP_CONN_DISCONNECT) {
        VF_ASSERT(!A_disc, "C13,C01: the user is told twice that the connection ended");
        A_disc = 1; t_disc = w_now;
        if (s_err_sent && w_outn == 0) {
            VF_ASSERT(se != NULL, "C13: the server's stream error is not reported");
            if (se) {
                VF_ASSERT((int)se->type == s_err_type, "C13: a stream error is reported with the wrong condition");
                VF_ASSERT(s_err_text ? seq(se->text, s_err_text) : se->text == NULL, "C13: a stream error is reported with the wrong text");
                VF_REACH("stream error reported");
            }
        }
        if (!s_err_sent) VF_ASSERT(se == NULL, "C13: a stream error is reported that the server did not send");
        if (w_outn != 0) M.hfuzzy = 1;
        if (M.hmax < 0) M.hmax = M.n;
        S.on = 0;
        mon();
        if (reconnects && dev(P_CB, 2)) { reconnects--; do_connect(); }
    } else VF_ASSERT(0, "C13: unknown notification");
}
static void do_connect(void)
{
    int rc;
    A_conn = A_disc = A_raw = 0; A_acc = 1; /* callbacks may come before it returns? they must not: checked below */
    u_conn = 0; w_negotiated = 0; u_close_req = 0; s_err_sent = 0; t_user_close = 0;
    u_seen = u_sent;
    w_out[0] = 0; w_outn = w_outr = 0;
    A_t0 = w_now;
    rc = C.component ? xmpp_connect_component(w_conn, "host", 0, on_event, NULL) : C.raw ? xmpp_connect_raw(w_conn, "host", 0, on_event, NULL) : xmpp_connect_client(w_conn, "host", 0, on_event, NULL);
    if (rc != XMPP_EOK) {
        A_acc = 0;
        VF_ASSERT(!A_disc, "C13: a notification for an attempt that was not accepted");
    }
    mon();
}
/* the unacknowledged stanzas are exactly what the server has not counted */
static void sm_mon(void)
{
    xmpp_send_queue_t *e;
    int n = 0, j, k;
    if (!w_conn || !w_conn->sm_state || !M.on || M.fuzzy || S.comp || w_send_cut) return;
    if (xmpp_conn_is_disconnected(w_conn) && S.closed) return;
    if (w_rtot < M.swx) return; /* the client does not know yet which session this is */
    for (e = w_conn->sm_state->sm_queue.head; e; e = e->next) n++;
    j = M.n - n;
    VF_ASSERT(j >= 0, "C04: more stanzas are retained than were written");
    VF_ASSERT(j <= M.acked, "C04: a stanza is not retained until it is acknowledged");
    VF_ASSERT(j >= M.jc, "C04: an acknowledged stanza is retained again");
    if (w_outn == 0 && xmpp_conn_is_connected(w_conn)) VF_ASSERT(j == M.acked, "C04: an acknowledgement does not release what the server counted");
    M.jc = j;
    for (k = j, e = w_conn->sm_state->sm_queue.head; e && k < M.n; e = e->next, k++)
        VF_ASSERT(seq(e->data, M.t[k]), "C04: what is retained is not what was written");
}
static void user_step(int it)
{
    int k = dev(P_USER, 14);
    if (!w_conn) return;
    switch (k) {
    case 0: break;
    case 1: xmpp_disconnect(w_conn); u_close_req = 1; break;
    case 2: user_send(0, "x"); break;
    case 3: user_send(1, "x"); break;
    case 4: user_send(2, "x"); break;
    case 5: user_dropq(XMPP_QUEUE_OLDEST); break;
    case 6: user_send(1, "y"); user_dropq(XMPP_QUEUE_YOUNGEST); break;
    case 7: {
        long f = xmpp_conn_get_flags(w_conn);
        int rc = xmpp_conn_set_flags(w_conn, XMPP_CONN_FLAG_DISABLE_SM);
        if (xmpp_conn_is_disconnected(w_conn)) { VF_ASSERT(rc == 0 && xmpp_conn_get_flags(w_conn) == XMPP_CONN_FLAG_DISABLE_SM, "C13: accepted flags do not read back"); xmpp_conn_set_flags(w_conn, f); }
        else VF_ASSERT(rc != 0 && xmpp_conn_get_flags(w_conn) == f, "C13: flags are accepted although the connection is in use");
        break; }
    case 8: if (!xmpp_conn_is_disconnected(w_conn)) {
        int rc = xmpp_connect_client(w_conn, "host", 0, on_event, NULL);
        VF_ASSERT(rc != 0, "C13: a second attempt is accepted on a connection in use");
        } break;
    case 9: if (!xmpp_conn_is_disconnected(w_conn)) {
        xmpp_sm_state_t *s = xmpp_conn_get_sm_state(w_conn);
        VF_ASSERT(s == NULL, "C13: the SM state is given away while the connection is in use");
        } break;
    case 10: xmpp_conn_release(w_conn); w_conn = NULL; if (A_acc) VF_ASSERT(A_disc == 1, "C13: no disconnect notification when a connection in use is released"); break;
    case 11: user_send(0, "p"); user_send(1, "q"); user_send(2, "r"); break;
    case 12: if (!C.raw) { VF_ASSERT(xmpp_conn_open_stream_default(w_conn) != 0, "C03: a stream is opened by the user on a connection that is not raw"); } break;
    case 13: user_send(0, "p"); xmpp_disconnect(w_conn); u_close_req = 1; break;
    }
    (void)it;
    mon();
}
static void srv_spont(void)
{
    int k;
    if (w_cur < 0 || !S.on) return;
    k = dev(P_SPONT, NINJ + 2);
    if (k < NINJ) { inject(k); return; }
    if (k == NINJ) s_close();
    else { WS(w_cur)->rst = 1; if (M.hmax < 0) M.hmax = M.n; }
    S.on = 0;
}
static void step(void)
{
    static const unsigned long T[3] = {1000, 10, 20000};
    w_cpu = 0;
    errno = 0;
    xmpp_run_once(w_ctx, T[dev(P_TIME, 3)]);
    mon();
    sm_mon();
}

static void setup(void)
{
    w_out = malloc(W_BUF); vf_track(w_out);
    w_arena = malloc(W_ARENA); vf_track(w_arena);
    z_arena = malloc((1 << 20) + 65536); vf_track(z_arena);
    M.hmax = -1;
    w_ctx = vf_ctx();
    w_conn = xmpp_conn_new(w_ctx);
    VF_ASSUME(w_ctx && w_conn);
    xmpp_conn_set_jid(w_conn, C.jid);
    if (C.pass) xmpp_conn_set_pass(w_conn, C.pass);
    if (C.cert) { w_certs = C.cert; xmpp_conn_set_client_cert(w_conn, "c.pem", "k.pem"); }
    VF_ASSERT(xmpp_conn_set_flags(w_conn, C.flags) == 0 && xmpp_conn_get_flags(w_conn) == C.flags, "C13: accepted flags do not read back");
    xmpp_handler_add(w_conn, h_msg, NULL, "message", NULL, NULL);
    xmpp_timed_handler_add(w_conn, h_timed, 700, NULL);
}
static void teardown(void)
{
    int i;
    if (w_conn) {
        int was = A_acc && !A_disc;
        xmpp_conn_release(w_conn);
        w_conn = NULL;
        if (was) VF_ASSERT(A_disc == 1, "C13: no disconnect notification when a connection in use is released");
    }
    xmpp_ctx_free(w_ctx);
    VF_ASSERT(vf_live == 0, "C12: something is not released");
    for (i = 0; i < w_nsock; i++) VF_ASSERT(!W[i].open, "C12,C13: a socket is left open");
}
/* one connection from connect to disconnect */
static void cycle(int nit, int closes, int breaks)
{
    int i, up = 0;
    if (!w_conn) return;
    if (xmpp_conn_is_disconnected(w_conn)) do_connect();
    for (i = 0; i < nit && w_conn; i++) {
        if (A_acc && A_disc) break;
        user_step(i);
        if (!w_conn) break;
        srv_spont();
        step();
        if (w_conn && user_up()) {
            up++;
            if (up == 1) { user_send(1, "2"); user_send(2, "3"); }
            if (up == 2) user_send(0, "4");
            if (up == closes) { xmpp_disconnect(w_conn); u_close_req = 1; }
            if (up == breaks) { s_close(); S.on = 0; }
        }
    }
}
#endif
