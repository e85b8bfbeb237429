/*@unit
{"props": ["C08"],
 "functions": ["tls_new", "tls_start", "tls_free", "_tls_verify", "conn_tls_start", "xmpp_conn_is_secured", "conn_established", "_handle_proceedtls_default", "xmpp_conn_tls_start"],
 "assumptions": ["the contract of OpenSSL: SSL_connect succeeds under SSL_VERIFY_PEER only if the chain, validity and the host name set with X509_VERIFY_PARAM_set1_host verify or the verify callback returned non-zero for each failing certificate (the real library is exercised in c08_tls)", "reading client certificates and converting certificates for the callback are replaced by arbitrary results", "conn_tls_start is called on a connection without a TLS session (as after _conn_reset)"],
 "nobody_ok": ["strophe_debug", "strophe_error", "_tls_log_error", "_tls_set_error", "_tls_dump_cert_info"],
 "runs": [
  {"name": "start", "mode": "proof", "defs": ["T_START"], "annotate": {"tls_openssl.c": {"tls_new": 1, "tls_start": 1}}, "rename": {"tls_openssl.c": ["_tls_sock_wait", "_tls_log_error", "_tls_set_error", "_tls_dump_cert_info", "_tls_cert_read", "_tls_cert_read_p12", "_x509_to_tlscert", "_try_open_keylogfile"], "tls.c": ["xmpp_tlscert_free", "tls_clear_password_cache"]}, "unwind": 6, "timeout": 200},
  {"name": "established", "mode": "proof", "defs": ["T_EST"], "rename": {"conn.c": ["conn_tls_start", "conn_disconnect", "conn_open_stream"]}, "unwind": 6, "timeout": 100},
  {"name": "proceed", "mode": "proof", "defs": ["T_PROCEED"], "unwind": 12, "timeout": 100}
 ]}
*/
#include "vf.h"
#include "strophe.h"
#include "common.h"
#include "tls.h"
#include <openssl/ssl.h>
#include <openssl/x509v3.h>
#include <openssl/pkcs12.h>
static xmpp_ctx_t CX;
static xmpp_conn_t CN;
void strophe_debug(const xmpp_ctx_t *c, const char *a, const char *f, ...) { (void)c; (void)a; (void)f; }
void strophe_error(const xmpp_ctx_t *c, const char *a, const char *f, ...) { (void)c; (void)a; (void)f; }
void OPENSSL_sk_pop_free(OPENSSL_STACK *st, void (*f)(void *)) { (void)st; (void)f; }
int fclose(FILE *f) { (void)f; return 0; }
#ifdef T_START
/* ---- ghost state of the OpenSSL objects ---- */
static char O_ctx, O_ssl, O_par, O_cert, O_x, O_xctx; /* their identities */
static int ctx_live, ssl_live, have_ssl;
static int v_mode, v_cb, c_mode, c_cb; /* callbacks: 0 none, 1 _tls_verify, 2 something else */
static const char *v_host; static size_t v_hostlen; static unsigned v_flags;
static void *v_app;
static int connected; /* SSL_connect succeeded (last call) */
static int some_failed, accepted, asked;
static tls_t *the_tls;
static int tls_live;
static char DOM_[4];
static xmpp_tlscert_t TC;
static int seen_disabled;
#define LC_tls_new_1 __CPROVER_assigns(retries)
#define LB_tls_new_1
#define LC_tls_start_1 __CPROVER_assigns(ret, error, idle, connected, some_failed, accepted, asked)
#define LB_tls_start_1
#define TLS_OBJ_SIZE 256
static union { char b[TLS_OBJ_SIZE]; void *a; } TB;
void *strophe_alloc(const xmpp_ctx_t *ctx, const size_t n)
{
    (void)ctx;
    VF_ASSERT(n <= TLS_OBJ_SIZE && !tls_live, "C08: the TLS object");
    if (nd_bool()) return NULL;
    tls_live = 1;
    return &TB;
}
void strophe_free(const xmpp_ctx_t *ctx, void *p)
{
    (void)ctx;
    if (p == (void *)&TB) { VF_ASSERT(tls_live, "C08,C12: freed twice"); tls_live = 0; }
}
static int _tls_sock_wait(tls_t *tls, int e);
static void _tls_log_error(xmpp_ctx_t *ctx);
static void _tls_set_error(tls_t *tls, int error);
static void _tls_dump_cert_info(tls_t *tls);
static X509 *_tls_cert_read(xmpp_conn_t *conn);
static void _try_open_keylogfile(tls_t *tls);
static X509 *_tls_cert_read_p12(xmpp_conn_t *conn, EVP_PKEY **pkey, STACK_OF(X509) **ca);
static xmpp_tlscert_t *_x509_to_tlscert(xmpp_ctx_t *ctx, X509 *cert);
static void *vf_memset(void *p, int c, size_t n) { size_t i; VF_ASSERT(p == (void *)&TB && c == 0, "C08: memset"); TB.a = NULL; (void)i; (void)n; __CPROVER_array_set(TB.b, 0); return p; }
#ifdef VF_CBMC
#define memset vf_memset
#endif
/* the callback is named where it is set (so that it is called directly) */
static int cb_kind(const char *s) { return s[0] == 'N' || s[0] == '0' ? 0 : s[0] == '_' && s[1] == 't' && s[2] == 'l' && s[3] == 's' && s[4] == '_' && s[5] == 'v' && s[6] == 'e' && s[7] == 'r' && s[8] == 'i' && s[9] == 'f' && s[10] == 'y' && s[11] == 0 ? 1 : 2; }
static void vf_set_verify(SSL *s, int m, int cb) { (void)s; v_mode = m; if (cb) v_cb = cb; }
static void vf_ctx_set_verify(SSL_CTX *s, int m, int cb) { (void)s; c_mode = m; c_cb = cb; }
#define SSL_set_verify(s, m, cb) vf_set_verify(s, m, cb_kind(#cb))
#define SSL_CTX_set_verify(s, m, cb) vf_ctx_set_verify(s, m, cb_kind(#cb))
#include "tls_openssl.c"
#undef memset
static int _tls_sock_wait(tls_t *tls, int e) { (void)tls; (void)e; return nd_int(); }
static void _tls_log_error(xmpp_ctx_t *ctx) { (void)ctx; }
static void _tls_set_error(tls_t *tls, int error) { tls->lasterror = error; }
static void _tls_dump_cert_info(tls_t *tls) { (void)tls; }
static X509 *_tls_cert_read(xmpp_conn_t *conn) { (void)conn; return nd_bool() ? (X509 *)&O_cert : NULL; }
static X509 *_tls_cert_read_p12(xmpp_conn_t *conn, EVP_PKEY **pkey, STACK_OF(X509) **ca) { (void)conn; *pkey = NULL; *ca = NULL; return nd_bool() ? (X509 *)&O_cert : NULL; }
static void _try_open_keylogfile(tls_t *tls) { (void)tls; }
static xmpp_tlscert_t *_x509_to_tlscert(xmpp_ctx_t *ctx, X509 *cert) { (void)ctx; VF_ASSERT(cert == (X509 *)&O_x, "C08: not the failing certificate is shown to the user"); return nd_bool() ? &TC : NULL; }
/* OpenSSL */
const SSL_METHOD *TLS_client_method(void) { return NULL; }
SSL_CTX *SSL_CTX_new(const SSL_METHOD *m) { (void)m; if (nd_bool()) return NULL; ctx_live++; c_mode = SSL_VERIFY_NONE; c_cb = 0; return (SSL_CTX *)&O_ctx; }
void SSL_CTX_free(SSL_CTX *c) { if (c) { VF_ASSERT(c == (SSL_CTX *)&O_ctx && ctx_live > 0, "C08,C12: context freed twice"); ctx_live--; } }
SSL *SSL_new(SSL_CTX *c) { VF_ASSERT(c == (SSL_CTX *)&O_ctx && ctx_live, "C08: context"); if (nd_bool()) return NULL; ssl_live++; have_ssl = 1; v_mode = c_mode; v_cb = c_cb; v_host = NULL; v_flags = 0; v_app = NULL; return (SSL *)&O_ssl; }
void SSL_free(SSL *s) { if (s) { VF_ASSERT(s == (SSL *)&O_ssl && ssl_live > 0, "C08,C12: session freed twice"); ssl_live--; } }
int SSL_set_ex_data(SSL *s, int i, void *d) { (void)s; (void)i; v_app = d; return 1; }
void *SSL_get_ex_data(const SSL *s, int i) { (void)s; (void)i; return v_app; }
int SSL_get_ex_data_X509_STORE_CTX_idx(void) { return 3; }
void *X509_STORE_CTX_get_ex_data(const X509_STORE_CTX *x, int i) { (void)x; VF_ASSERT(i == 3, "C08: index"); return &O_ssl; }
X509 *X509_STORE_CTX_get_current_cert(const X509_STORE_CTX *x) { (void)x; return (X509 *)&O_x; }
int X509_STORE_CTX_get_error(const X509_STORE_CTX *x) { (void)x; return 1; }
const char *X509_verify_cert_error_string(long n) { (void)n; return "e"; }
X509_VERIFY_PARAM *SSL_get0_param(SSL *s) { (void)s; return (X509_VERIFY_PARAM *)&O_par; }
void X509_VERIFY_PARAM_set_hostflags(X509_VERIFY_PARAM *p, unsigned f) { (void)p; v_flags = f; }
void SSL_set_hostflags(SSL *s, unsigned f) { (void)s; v_flags = f; }
int X509_VERIFY_PARAM_set1_host(X509_VERIFY_PARAM *p, const char *n, size_t l) { (void)p; if (nd_bool()) { v_host = NULL; return 0; } v_host = n; v_hostlen = l; return 1; }
int SSL_set1_host(SSL *s, const char *n) { (void)s; if (nd_bool()) { v_host = NULL; return 0; } v_host = n; v_hostlen = 0; return 1; }
uint64_t SSL_CTX_set_options(SSL_CTX *c, uint64_t o) { (void)c; return o; }
void SSL_CTX_set_default_passwd_cb(SSL_CTX *c, pem_password_cb *cb) { (void)c; (void)cb; }
void SSL_CTX_set_default_passwd_cb_userdata(SSL_CTX *c, void *u) { (void)c; (void)u; }
int SSL_CTX_use_certificate_file(SSL_CTX *c, const char *f, int t) { (void)c; (void)f; (void)t; return nd_int(); }
int SSL_CTX_use_PrivateKey_file(SSL_CTX *c, const char *f, int t) { (void)c; (void)f; (void)t; return nd_int(); }
int SSL_CTX_use_cert_and_key(SSL_CTX *c, X509 *x, EVP_PKEY *k, STACK_OF(X509) *h, int o) { (void)c; (void)x; (void)k; (void)h; (void)o; return nd_int(); }
unsigned long ERR_peek_error(void) { return nd_u64(); }
void EVP_PKEY_free(EVP_PKEY *k) { (void)k; }
void X509_free(X509 *x) { (void)x; }
void SSL_CTX_set_client_cert_cb(SSL_CTX *c, int (*f)(SSL *, X509 **, EVP_PKEY **)) { (void)c; (void)f; }
long SSL_CTX_ctrl(SSL_CTX *c, int cmd, long l, void *p) { (void)c; (void)cmd; (void)p; return l; }
long SSL_ctrl(SSL *c, int cmd, long l, void *p) { (void)c; (void)cmd; (void)p; (void)l; return 1; }
int SSL_CTX_set_default_verify_paths(SSL_CTX *c) { (void)c; return nd_bool(); }
int SSL_CTX_load_verify_locations(SSL_CTX *c, const char *f, const char *p) { (void)c; VF_ASSERT(f == CN.tls_cafile && p == CN.tls_capath, "C08: other trust anchors than the configured ones are loaded"); return nd_bool(); }
int SSL_set_fd(SSL *s, int fd) { (void)s; VF_ASSERT(fd == CN.sock, "C08: another socket"); return nd_bool(); }
long SSL_get_verify_result(const SSL *s) { (void)s; return nd_long(); }
int SSL_get_error(const SSL *s, int r) { int e = nd_int(); (void)s; VF_ASSERT(r <= 0, "C08: r"); VF_ASSUME(e >= 1 && e <= 8); return e; }
static int handler_(const xmpp_tlscert_t *c, const char *m)
{
    int r = nd_int();
    (void)m;
    VF_ASSERT(c == &TC, "C08: certificate given to the user");
    asked++;
    accepted = r != 0;
    return r;
}
int SSL_connect(SSL *s)
{
    int r = nd_int();
    VF_ASSERT(s == (SSL *)&O_ssl && ssl_live == 1, "C08: session");
    VF_ASSUME(r >= -1 && r <= 1);
    connected = 0; some_failed = 0; accepted = 0; asked = 0;
    if (nd_bool()) {
        /* the certificate does not verify; take any one of the failing certificates */
        some_failed = 1;
        if (v_mode & SSL_VERIFY_PEER) {
            int ok = 0;
            if (v_cb == 1) { ok = _tls_verify(0, (X509_STORE_CTX *)&O_xctx); }
            VF_ASSUME(v_cb != 2);
            if (!ok) VF_ASSUME(r <= 0);
        }
    } else if ((v_mode & SSL_VERIFY_PEER) && v_cb) {
        /* the callback is told about certificates that verify, too */
        VF_ASSUME(v_cb != 2);
        if (!_tls_verify(1, (X509_STORE_CTX *)&O_xctx)) VF_ASSUME(r <= 0);
    }
    connected = r > 0;
    return r;
}
static char F1[2], F2[2];
/* the part of src/conn.c under proof */
void compression_free(xmpp_conn_t *c);
#include "conn.c"
#include "tls.c"
void tls_clear_password_cache(xmpp_conn_t *c) { (void)c; }
void xmpp_tlscert_free(xmpp_tlscert_t *c) { (void)c; }
/* the transport's operations are told apart by their addresses */
static const struct conn_interface old_ = {sock_read, sock_write, NULL, NULL, NULL, NULL};
void harness(void)
{
    struct conn_interface was;
    int rc, trust, disabled, have_cb;
    DOM_[0] = nd_char(); DOM_[1] = nd_char(); DOM_[2] = nd_char(); DOM_[3] = 0;
    ctx_live = ssl_live = have_ssl = connected = some_failed = accepted = asked = tls_live = 0;
    v_mode = c_mode = 0; v_cb = c_cb = 0; v_host = NULL; v_flags = 0; v_app = NULL;
    CN.ctx = &CX; CN.tls = NULL; CN.secured = 0; CN.tls_failed = 0; CN.error = 0;
    CN.domain = DOM_; CN.sock = nd_int();
    trust = CN.tls_trust = nd_bool(); disabled = CN.tls_disabled = nd_bool(); CN.tls_mandatory = nd_bool(); CN.tls_legacy_ssl = nd_bool();
    have_cb = nd_bool();
    CN.certfail_handler = have_cb ? handler_ : NULL;
    CN.tls_cafile = nd_bool() ? F1 : NULL; CN.tls_capath = nd_bool() ? F2 : NULL;
    CN.tls_client_cert = nd_bool() ? F1 : NULL; CN.tls_client_key = nd_bool() ? F2 : NULL;
    CN.password_callback = NULL; CN.password_retries = nd_u32();
    CN.intf = old_; CN.intf.conn = &CN; was = CN.intf;
    rc = conn_tls_start(&CN);
    VF_ASSERT((rc == 0) == (CN.secured != 0), "C08: the result and the secured flag disagree");
    VF_ASSERT((rc == 0) == (xmpp_conn_is_secured(&CN) != 0), "C08: the result and xmpp_conn_is_secured disagree");
    if (disabled) VF_ASSERT(rc != 0 && !have_ssl, "C08: TLS is started although it is disabled");
    if (rc == 0) {
        VF_ASSERT(connected, "C08: secured although the handshake did not succeed");
        VF_ASSERT(CN.tls != NULL && ssl_live == 1 && ctx_live == 1 && tls_live, "C08: secured without a session");
        VF_ASSERT(CN.intf.read == tls_read && CN.intf.write == tls_write && CN.intf.conn == &CN, "C08: secured, but data goes past the session");
        if (!trust) {
            VF_ASSERT(v_mode & SSL_VERIFY_PEER, "C08: the certificate is not verified");
            VF_ASSERT(v_host == DOM_ && (v_hostlen == 0 || v_hostlen == strlen(DOM_)), "C08: the certificate is not verified against the domain");
            VF_ASSERT(DOM_[0] != 0 && DOM_[0] != '.', "C08: a domain that turns the host name check off");
            VF_ASSERT(v_flags & X509_CHECK_FLAG_NO_PARTIAL_WILDCARDS, "C08: partial wildcards are accepted");
            VF_ASSERT(!(v_flags & (X509_CHECK_FLAG_ALWAYS_CHECK_SUBJECT | X509_CHECK_FLAG_MULTI_LABEL_WILDCARDS)), "C08: names are matched more loosely");
            VF_ASSERT(!some_failed || (have_cb && asked == 1 && accepted), "C08: secured although a certificate failed that the user did not accept");
        }
        VF_REACH("secured");
        VF_REACH_IF(some_failed && !trust, "accepted by the user");
    } else {
        VF_ASSERT(CN.tls == NULL && ssl_live == 0 && ctx_live == 0 && !tls_live, "C08,C12: a failed session is kept");
        VF_ASSERT(CN.intf.read == was.read && CN.intf.write == was.write && CN.intf.flush == was.flush && CN.intf.pending == was.pending && CN.intf.get_error == was.get_error && CN.intf.error_is_recoverable == was.error_is_recoverable && CN.intf.conn == was.conn, "C08: the plain transport is not restored");
        VF_REACH("failed");
        VF_REACH_IF(some_failed, "verification failed");
    }
}
#endif
#ifdef T_EST
static int n_disc, n_open, n_raw, tls_rc, n_tls;
static void ev(xmpp_conn_t *c, xmpp_conn_event_t e, int x, xmpp_stream_error_t *s, void *u) { (void)c; (void)x; (void)s; (void)u; VF_ASSERT(e == XMPP_CONN_RAW_CONNECT, "C08: event"); n_raw++; }
int conn_tls_start(xmpp_conn_t *c) { (void)c; n_tls++; tls_rc = nd_int(); return tls_rc; }
void conn_disconnect(xmpp_conn_t *c) { (void)c; n_disc++; }
void conn_open_stream(xmpp_conn_t *c) { (void)c; VF_ASSERT(n_disc == 0, "C08: goes on after the failed handshake"); n_open++; }
void handler_reset_timed(xmpp_conn_t *c, int u) { (void)c; (void)u; }
#include "conn.c"
void harness(void)
{
    n_disc = n_open = n_raw = n_tls = tls_rc = 0;
    CN.ctx = &CX; CN.conn_handler = ev; CN.tls_legacy_ssl = nd_bool(); CN.is_raw = nd_bool();
    conn_established(&CN);
    if (CN.tls_legacy_ssl && !CN.is_raw) {
        VF_ASSERT(n_tls == 1, "C08: a legacy SSL connection without TLS");
        VF_ASSERT((tls_rc != 0) == (n_disc == 1) && (tls_rc == 0) == (n_open == 1) && n_raw == 0, "C08: a legacy SSL connection goes on after the failed handshake");
        VF_REACH_IF(tls_rc != 0, "failed");
    } else VF_ASSERT(n_tls == 0 && n_disc == 0 && (CN.is_raw ? n_raw == 1 && n_open == 0 : n_open == 1), "C08: established");
    VF_REACH("established");
}
#endif
#ifdef T_PROCEED
static int n_disc, n_open, tls_rc, n_tls, n_reset, is_proceed;
static char nm[9];
int conn_tls_start(xmpp_conn_t *c) { (void)c; n_tls++; tls_rc = nd_int(); return tls_rc; }
void xmpp_disconnect(xmpp_conn_t *c) { (void)c; n_disc++; }
void conn_disconnect(xmpp_conn_t *c) { (void)c; n_disc++; }
void conn_open_stream(xmpp_conn_t *c) { (void)c; VF_ASSERT(n_disc == 0 && n_tls == 1 && tls_rc == 0, "C08: the stream goes on in the clear after the failed handshake"); n_open++; }
void conn_prepare_reset(xmpp_conn_t *c, xmpp_open_handler h) { (void)c; (void)h; n_reset++; }
const char *xmpp_stanza_get_name(xmpp_stanza_t *s) { (void)s; return nm; }
#include "auth.c"
void harness(void)
{
    int i;
    n_disc = n_open = tls_rc = n_tls = n_reset = 0;
    for (i = 0; i < 8; i++) nm[i] = nd_char();
    nm[8] = 0;
    is_proceed = nm[0] == 'p' && nm[1] == 'r' && nm[2] == 'o' && nm[3] == 'c' && nm[4] == 'e' && nm[5] == 'e' && nm[6] == 'd' && nm[7] == 0;
    CN.ctx = &CX;
    _handle_proceedtls_default(&CN, NULL, NULL);
    VF_ASSERT(n_tls == is_proceed, "C08: TLS is started exactly on <proceed/>");
    if (is_proceed && tls_rc == 0) { VF_ASSERT(n_open == 1 && n_reset == 1 && n_disc == 0, "C08: the stream is restarted over TLS"); VF_REACH("over TLS"); }
    if (is_proceed && tls_rc != 0) { VF_ASSERT(n_disc == 1 && n_open == 0, "C08: the connection is not torn down after the failed handshake"); VF_REACH("failed"); }
    if (!is_proceed) VF_ASSERT(n_open == 0, "C08: the stream goes on without TLS");
}
#endif
