/*@unit
{"props": ["C13"],
 "functions": ["xmpp_conn_set_flags", "xmpp_conn_get_flags", "xmpp_conn_is_connecting", "xmpp_conn_is_connected", "xmpp_conn_is_disconnected", "conn_disconnect", "conn_disconnect_clean", "_disconnect_cleanup", "xmpp_disconnect", "xmpp_conn_set_sm_state", "xmpp_conn_get_sm_state", "_conn_connect", "conn_prepare_reset", "auth_handle_open", "auth_handle_component_open", "auth_handle_open_raw", "_handle_open_tls", "_handle_open_sasl", "_handle_open_compress", "_do_bind", "_session_start", "_auth_legacy", "_handle_bind", "_handle_session", "_handle_legacy", "_handle_features", "_handle_features_sasl", "_handle_features_compress", "_handle_component_hs_response", "_handle_missing_features", "_handle_missing_features_sasl", "_handle_missing_bind", "_handle_missing_session", "_handle_missing_legacy", "_handle_missing_handshake", "_stream_negotiation_success"],
 "assumptions": ["the callees named by bodies in the unit behave as their contracts there (recorded registrations, arbitrary results)", "handler_fire_timed fires a registered handler once its period has passed (C11's contract)"],
 "nobody_ok": ["strophe_debug", "strophe_error", "strophe_warn"],
 "runs": [
  {"name": "flags", "mode": "proof", "defs": ["T_FLAGS"], "unwind": 4, "timeout": 100},
  {"name": "end", "mode": "proof", "defs": ["T_END"], "rename": {"conn.c": ["_reset_sm_state_for_reconnect", "send_raw_string"]}, "unwind": 24, "timeout": 100},
  {"name": "smset", "mode": "proof", "defs": ["T_SM"], "unwind": 4, "timeout": 100},
  {"name": "begin", "mode": "proof", "defs": ["T_BEGIN"], "rename": {"conn.c": ["_conn_reset"]}, "unwind": 4, "timeout": 100},
  {"name": "waits", "mode": "proof", "defs": ["T_WAITS"], "rename": {"auth.c": ["_auth", "_handle_component_auth", "_foreach_child", "_sm_enable"]}, "unwind": 120, "timeout": 200}
 ]}
*/
#include "vf.h"
#include "strophe.h"
#include "common.h"
#include "tls.h"
static xmpp_ctx_t CX;
static xmpp_conn_t CN;
void strophe_debug(const xmpp_ctx_t *c, const char *a, const char *f, ...) { (void)c; (void)a; (void)f; }
void strophe_error(const xmpp_ctx_t *c, const char *a, const char *f, ...) { (void)c; (void)a; (void)f; }
void strophe_warn(const xmpp_ctx_t *c, const char *a, const char *f, ...) { (void)c; (void)a; (void)f; }
static void any_state(void)
{
    int s = nd_range(0, 2);
    CN.ctx = &CX;
    CN.state = s == 0 ? XMPP_STATE_DISCONNECTED : s == 1 ? XMPP_STATE_CONNECTING : XMPP_STATE_CONNECTED;
    CN.stream_negotiation_completed = s == 2 ? nd_bool() : 0;
}
#ifdef T_FLAGS
#include "conn.c"
#define ALLF 0xffL
void harness(void)
{
    long f = nd_long(), before;
    int rc, a, b, c;
    any_state();
    CN.tls_disabled = nd_bool(); CN.tls_mandatory = nd_bool(); CN.tls_legacy_ssl = nd_bool(); CN.tls_trust = nd_bool();
    CN.auth_legacy_enabled = nd_bool(); CN.sm_disable = nd_bool(); CN.compression.allowed = nd_bool(); CN.compression.dont_reset = nd_bool();
    before = xmpp_conn_get_flags(&CN);
    VF_ASSERT((before & ~ALLF) == 0, "C13: flags that do not exist");
    VF_ASSERT(!(before & XMPP_CONN_FLAG_DISABLE_TLS) == !CN.tls_disabled && !(before & XMPP_CONN_FLAG_DISABLE_SM) == !CN.sm_disable, "C13: the flags do not tell the settings");
    rc = xmpp_conn_set_flags(&CN, f);
    if (CN.state != XMPP_STATE_DISCONNECTED) {
        VF_ASSERT(rc != XMPP_EOK && xmpp_conn_get_flags(&CN) == before, "C13: flags are accepted although the connection is in use");
        VF_REACH("refused in use");
    } else if ((f & XMPP_CONN_FLAG_DISABLE_TLS) && (f & (XMPP_CONN_FLAG_MANDATORY_TLS | XMPP_CONN_FLAG_LEGACY_SSL | XMPP_CONN_FLAG_TRUST_TLS))) {
        VF_ASSERT(rc != XMPP_EOK && xmpp_conn_get_flags(&CN) == before, "C13,C02: contradicting flags are accepted");
        VF_REACH("contradiction");
    } else {
        VF_ASSERT(xmpp_conn_get_flags(&CN) == (f & ALLF), "C13: accepted flags do not read back as set");
        VF_ASSERT((rc == XMPP_EOK) == ((f & ~ALLF) == 0), "C13: the result of setting flags");
        VF_REACH("accepted");
        VF_REACH_IF(f == (XMPP_CONN_FLAG_MANDATORY_TLS | XMPP_CONN_FLAG_DISABLE_SM), "two flags");
    }
    a = xmpp_conn_is_connecting(&CN); b = xmpp_conn_is_connected(&CN); c = xmpp_conn_is_disconnected(&CN);
    VF_ASSERT(!!a + !!b + !!c == 1, "C13: not exactly one of connecting, connected and disconnected");
    VF_ASSERT(!!c == (CN.state == XMPP_STATE_DISCONNECTED), "C13: is_disconnected");
    VF_ASSERT(!!b == (CN.state == XMPP_STATE_CONNECTED && CN.stream_negotiation_completed), "C13: is_connected");
}
#endif
#ifdef T_END
static int n_ev, n_close, n_stop, n_tlsfree, n_del, n_raw, n_timed, n_smreset;
static int sock0, err0, was_tls, order_bad;
static xmpp_stream_error_t SE, *se0;
static char TLSO;
static void ev(xmpp_conn_t *c, xmpp_conn_event_t e, int x, xmpp_stream_error_t *s, void *u)
{
    VF_ASSERT(c == &CN && e == XMPP_CONN_DISCONNECT, "C13: wrong notification");
    VF_ASSERT(x == err0 && s == se0 && u == (void *)&SE, "C13: the notification does not tell the error and the stream error");
    VF_ASSERT(xmpp_conn_is_disconnected(c) && !xmpp_conn_is_connected(c) && !xmpp_conn_is_connecting(c), "C13: notified before the state changed");
    VF_ASSERT(c->tls == NULL, "C13,C12: notified before the TLS session is gone");
    VF_ASSERT(n_close == 1 || sock0 == INVALID_SOCKET, "C13,C12: notified before the socket is closed");
    n_ev++;
}
static void _reset_sm_state_for_reconnect(xmpp_conn_t *c) { (void)c; n_smreset++; }
int sock_close(sock_t s) { VF_ASSERT(s == sock0, "C13: another socket is closed"); n_close++; return 0; }
int tls_stop(tls_t *t) { VF_ASSERT(was_tls && t == (tls_t *)&TLSO && !n_tlsfree && !n_close, "C13,C12: tls_stop"); n_stop++; return nd_int(); }
void tls_free(tls_t *t) { VF_ASSERT(was_tls && t == (tls_t *)&TLSO && !n_tlsfree, "C12: the TLS session is freed twice"); n_tlsfree++; }
static int is_cleanup(xmpp_timed_handler h);
void handler_add_timed(xmpp_conn_t *c, xmpp_timed_handler h, unsigned long period, void *u) { VF_ASSERT(c == &CN && is_cleanup(h) && period == 2000 && u == NULL, "C13: the deadline of the graceful close is not 2 s"); n_timed++; }
void xmpp_timed_handler_delete(xmpp_conn_t *c, xmpp_timed_handler h) { VF_ASSERT(c == &CN && is_cleanup(h), "C13: another timed handler is deleted"); n_del++; }
static void vf_raw(xmpp_conn_t *c, const char *s) { VF_ASSERT(c == &CN && strcmp(s, "</stream:stream>") == 0, "C13: the stream is not closed by a stream end"); n_raw++; }
#define send_raw_string(c, ...) vf_raw(c, VF_LAST_(__VA_ARGS__, __VA_ARGS__))
#define VF_LAST_(f, ...) f
#include "conn.c"
static int is_cleanup(xmpp_timed_handler h) { return h == _disconnect_cleanup; }
void harness(void)
{
    int how = nd_range(0, 3), was, rc;
    n_ev = n_close = n_stop = n_tlsfree = n_del = n_raw = n_timed = n_smreset = 0;
    any_state();
    was = CN.state;
    sock0 = CN.sock = nd_int();
    err0 = CN.error = nd_int();
    se0 = CN.stream_error = nd_bool() ? &SE : NULL;
    was_tls = nd_bool();
    CN.tls = was_tls ? (tls_t *)&TLSO : NULL;
    CN.conn_handler = ev; CN.userdata = &SE;
    if (how == 0) conn_disconnect(&CN);
    else if (how == 1) { conn_disconnect_clean(&CN); VF_ASSERT(n_del == 1, "C13: the deadline of the graceful close is kept after the stream ended"); }
    else if (how == 2) { rc = _disconnect_cleanup(&CN, NULL); VF_ASSERT(rc == 0, "C13: the deadline fires again"); }
    else {
        xmpp_disconnect(&CN);
        VF_ASSERT(n_ev == 0 && n_close == 0 && (int)CN.state == was && CN.tls == (was_tls ? (tls_t *)&TLSO : NULL), "C13: a graceful close ends the connection at once");
        if (was == XMPP_STATE_DISCONNECTED) VF_ASSERT(n_raw == 0 && n_timed == 0, "C13: a disconnected connection is closed");
        else { VF_ASSERT(n_raw == 1 && n_timed == 1, "C13: a graceful close sends the stream end and arms its deadline"); VF_REACH("graceful close"); }
        return;
    }
    VF_ASSERT(CN.state == XMPP_STATE_DISCONNECTED && CN.stream_negotiation_completed == 0, "C13: not disconnected");
    VF_ASSERT(n_raw == 0 && n_timed == 0, "C13: sends after the end");
    if (was == XMPP_STATE_DISCONNECTED) {
        VF_ASSERT(n_ev == 0 && n_close == 0 && n_stop == 0 && n_tlsfree == 0 && n_smreset == 0, "C13: the end is notified twice");
        VF_REACH("already disconnected");
    } else {
        VF_ASSERT(n_ev == 1, "C13: the end is not notified exactly once");
        VF_ASSERT(n_close == (sock0 != INVALID_SOCKET), "C13,C12: the socket is not closed once");
        VF_ASSERT(n_tlsfree == was_tls && CN.tls == NULL, "C13,C12: the TLS session is not released once");
        VF_ASSERT(n_smreset == 1, "C13,C05: the session is not prepared for the next connection");
        VF_REACH("ended");
    }
}
#endif
#ifdef T_SM
static xmpp_sm_state_t S1, S2;
#include "conn.c"
void harness(void)
{
    xmpp_sm_state_t *old, *r;
    xmpp_ctx_t other;
    int rc;
    any_state();
    old = CN.sm_state = nd_bool() ? &S1 : NULL;
    S1.ctx = &CX;
    S2.ctx = nd_bool() ? &CX : &other;
    if (nd_bool()) {
        rc = xmpp_conn_set_sm_state(&CN, &S2);
        if (CN.state != XMPP_STATE_DISCONNECTED) { VF_ASSERT(rc != XMPP_EOK && CN.sm_state == old, "C13: the SM state is replaced although the connection is in use"); VF_REACH("refused"); }
        else if (old || S2.ctx != &CX) VF_ASSERT(rc != XMPP_EOK && CN.sm_state == old, "C12,C13: an SM state is lost or taken from another context");
        else { VF_ASSERT(rc == XMPP_EOK && CN.sm_state == &S2, "C13: the SM state is not accepted"); VF_REACH("accepted"); }
    } else {
        r = xmpp_conn_get_sm_state(&CN);
        if (CN.state != XMPP_STATE_DISCONNECTED) VF_ASSERT(r == NULL && CN.sm_state == old, "C13: the SM state is given away although the connection is in use");
        else VF_ASSERT(r == old && CN.sm_state == NULL, "C12,C13: the SM state has two owners");
    }
}
#endif
#ifdef T_BEGIN
static int n_reset;
static void cb(xmpp_conn_t *c, xmpp_conn_event_t e, int x, xmpp_stream_error_t *s, void *u) { (void)c; (void)e; (void)x; (void)s; (void)u; VF_ASSERT(0, "C13: a notification before the attempt is accepted"); }
static void _conn_reset(xmpp_conn_t *c) { VF_ASSERT(c->state == XMPP_STATE_DISCONNECTED, "C13: a connection in use is reset"); n_reset++; }
static int s_sock; static uint64_t now_;
static char DOM[2];
char *strophe_strdup(const xmpp_ctx_t *ctx, const char *s) { (void)ctx; (void)s; return nd_bool() ? DOM : NULL; }
sock_t sock_connect(xmpp_sock_t *x) { (void)x; return s_sock; }
uint64_t time_stamp(void) { return now_; }
int parser_reset(parser_t *p) { (void)p; return 1; }
static xmpp_sm_state_t SS;
#include "conn.c"
void harness(void)
{
    int rc, type = nd_int(), was;
    n_reset = 0; s_sock = nd_int(); now_ = nd_u64();
    any_state(); was = CN.state;
    SS.ctx = &CX; SS.sm_enabled = 0; SS.bind = NULL;
    CN.sm_state = &SS; CN.is_raw = nd_bool(); CN.connect_timeout = nd_u32(); CN.ka_count = nd_int();
    CN.sockopt_cb = NULL;
    rc = _conn_connect(&CN, DOM, (xmpp_conn_type_t)type, cb, &SS);
    if (was != XMPP_STATE_DISCONNECTED) { VF_ASSERT(rc != XMPP_EOK && n_reset == 0 && (int)CN.state == was, "C13: a second attempt is accepted on a connection in use"); VF_REACH("in use"); return; }
    VF_ASSERT((rc == XMPP_EOK) == (CN.state == XMPP_STATE_CONNECTING), "C13: the result of connecting does not agree with the state");
    VF_ASSERT(rc == XMPP_EOK || CN.state == XMPP_STATE_DISCONNECTED, "C13: a refused attempt leaves the connection in use");
    if (rc == XMPP_EOK) {
        VF_ASSERT(n_reset == 1 && CN.sock == s_sock && s_sock != INVALID_SOCKET, "C13: the attempt has no socket");
        VF_ASSERT(CN.timeout_stamp == now_, "C13: the 5 s do not count from the attempt");
        VF_ASSERT(CN.conn_handler == cb && CN.userdata == (void *)&SS, "C13: the notification goes elsewhere");
        VF_REACH("accepted");
    }
}
#endif
#ifdef T_WAITS
static int n_timed, n_disc, n_auth, n_mem, n_up;
static xmpp_timed_handler h_; static unsigned long per; static void *ud_;
static xmpp_timed_handler d_[3]; static int n_d;
static char ST[16]; /* stanzas */
static const char *const TY[4] = {"error", "result", "get", ""};
static const char *const NM[4] = {"iq", "handshake", "features", ""};
void handler_add_timed(xmpp_conn_t *c, xmpp_timed_handler h, unsigned long period, void *u) { VF_ASSERT(c == &CN && h, "C13: timer"); h_ = h; per = period; ud_ = u; n_timed++; }
void xmpp_timed_handler_delete(xmpp_conn_t *c, xmpp_timed_handler h) { (void)c; VF_ASSERT(n_d < 3, "C13: too many"); d_[n_d++] = h; }
void handler_reset_timed(xmpp_conn_t *c, int user_only) { (void)c; (void)user_only; }
void handler_add(xmpp_conn_t *c, xmpp_handler h, const char *n, const char *m, const char *t, void *u) { (void)c; (void)h; (void)n; (void)m; (void)t; (void)u; }
void handler_add_id(xmpp_conn_t *c, xmpp_handler h, const char *id, void *u) { (void)c; (void)h; (void)id; (void)u; }
void xmpp_handler_delete(xmpp_conn_t *c, xmpp_handler h) { (void)c; (void)h; }
void xmpp_disconnect(xmpp_conn_t *c) { VF_ASSERT(c == &CN, "C13: another connection"); n_disc++; }
void disconnect_mem_error(xmpp_conn_t *c) { (void)c; n_mem++; }
static xmpp_stanza_t *st(void) { return nd_bool() ? (xmpp_stanza_t *)&ST[0] : NULL; }
xmpp_stanza_t *xmpp_iq_new(xmpp_ctx_t *c, const char *t, const char *i) { (void)c; (void)t; (void)i; return st(); }
xmpp_stanza_t *xmpp_stanza_new(xmpp_ctx_t *c) { (void)c; return st(); }
xmpp_stanza_t *xmpp_stanza_copy(const xmpp_stanza_t *s) { (void)s; return st(); }
int xmpp_stanza_release(xmpp_stanza_t *s) { VF_ASSERT(s != NULL, "C12: release"); return 1; }
int xmpp_stanza_set_name(xmpp_stanza_t *s, const char *n) { (void)s; (void)n; return 0; }
int xmpp_stanza_set_ns(xmpp_stanza_t *s, const char *n) { (void)s; (void)n; return 0; }
int xmpp_stanza_set_text(xmpp_stanza_t *s, const char *n) { (void)s; (void)n; return nd_int(); }
int xmpp_stanza_set_attribute(xmpp_stanza_t *s, const char *k, const char *v) { (void)s; (void)k; (void)v; return 0; }
int xmpp_stanza_add_child_ex(xmpp_stanza_t *s, xmpp_stanza_t *k, int c) { (void)s; (void)k; (void)c; return 0; }
xmpp_stanza_t *xmpp_stanza_get_child_by_name_and_ns(xmpp_stanza_t *s, const char *n, const char *ns) { (void)s; (void)n; (void)ns; return st(); }
xmpp_stanza_t *xmpp_stanza_get_child_by_name(xmpp_stanza_t *s, const char *n) { (void)s; (void)n; return st(); }
const char *xmpp_stanza_get_type(xmpp_stanza_t *s) { (void)s; return nd_bool() ? NULL : TY[nd_range(0, 3)]; }
const char *xmpp_stanza_get_name(xmpp_stanza_t *s) { (void)s; return NM[nd_range(0, 3)]; }
char *xmpp_stanza_get_text(xmpp_stanza_t *s) { (void)s; return nd_bool() ? ST : NULL; }
int xmpp_stanza_to_text(xmpp_stanza_t *s, char **b, size_t *n) { (void)s; (void)n; *b = nd_bool() ? ST : NULL; return 0; }
char *xmpp_jid_resource(xmpp_ctx_t *c, const char *j) { (void)c; (void)j; return nd_bool() ? ST : NULL; }
char *xmpp_jid_node(xmpp_ctx_t *c, const char *j) { (void)c; (void)j; return nd_bool() ? ST : NULL; }
void strophe_free(const xmpp_ctx_t *c, void *p) { (void)c; (void)p; }
void send_stanza(xmpp_conn_t *c, xmpp_stanza_t *s, xmpp_send_queue_owner_t o) { (void)c; (void)s; (void)o; }
void send_raw(xmpp_conn_t *c, const char *d, size_t n, xmpp_send_queue_owner_t o, void *u) { (void)c; (void)d; (void)n; (void)o; (void)u; }
void trigger_sm_callback(xmpp_conn_t *c) { (void)c; }
void tls_clear_password_cache(xmpp_conn_t *c) { (void)c; }
int strophe_snprintf(char *s, size_t n, const char *f, ...) { (void)f; if (n) s[0] = 0; return 0; }
void compression_handle_feature_children(xmpp_conn_t *c, const char *t) { (void)t; c->compression.supported = 1; }
static void ev(xmpp_conn_t *c, xmpp_conn_event_t e, int x, xmpp_stream_error_t *s, void *u) { (void)x; (void)s; (void)u; VF_ASSERT(e == XMPP_CONN_CONNECT && xmpp_conn_is_connected(c), "C13: told to be connected before it is"); n_up++; }
static void _auth(xmpp_conn_t *c) { (void)c; n_auth++; }
static int _handle_component_auth(xmpp_conn_t *c) { (void)c; return nd_int(); }
typedef void (*text_handler)(xmpp_conn_t *conn, const char *text);
static void _foreach_child(xmpp_conn_t *c, xmpp_stanza_t *p, const char *n, text_handler h) { (void)p; (void)n; (void)h; if (nd_bool()) c->compression.supported = 1; }
static void _sm_enable(xmpp_conn_t *c) { (void)c; }
int xmpp_conn_is_connected(xmpp_conn_t *c) { return c->state == XMPP_STATE_CONNECTED && c->stream_negotiation_completed == 1; }
#include "auth.c"
static void clean(void) { n_timed = n_disc = n_auth = n_mem = n_up = n_d = 0; h_ = NULL; per = 0; }
static void satisfied(xmpp_timed_handler h)
{
    int i, f = 0;
    for (i = 0; i < n_d; i++) if (d_[i] == h) f = 1;
    VF_ASSERT(f, "C13: the deadline goes on although the answer came");
    n_d = 0;
}
static xmpp_sm_state_t SS;
void harness(void)
{
    int k = nd_range(0, 10), rc, legacy_fallback = 0, i;
    xmpp_timed_handler armed;
    xmpp_stanza_t *s = (xmpp_stanza_t *)&ST[1];
    for (i = 0; i < 15; i++) ST[i] = nd_char();
    ST[15] = 0;
    clean();
    CN.ctx = &CX; CN.state = XMPP_STATE_CONNECTED; CN.stream_negotiation_completed = 0;
    CN.conn_handler = ev; CN.userdata = NULL; CN.jid = ST; CN.pass = ST; CN.sm_state = &SS;
    CN.compression.supported = nd_bool(); CN.compression.allowed = nd_bool(); CN.secured = nd_bool(); CN.tls_disabled = nd_bool();
    CN.session_required = nd_bool(); CN.sm_disable = nd_bool(); CN.sasl_support = nd_int(); CN.bound_jid = NULL;
    SS.ctx = &CX; SS.sm_support = nd_bool(); SS.can_resume = nd_bool(); SS.previd = nd_bool() ? ST : NULL; SS.bound_jid = nd_bool() ? ST : NULL; SS.resume = 0; SS.bind = NULL;
    switch (k) {
    case 0: auth_handle_open(&CN); legacy_fallback = 1; break;
    case 1: _handle_open_tls(&CN); legacy_fallback = 1; break;
    case 2: _handle_open_sasl(&CN); break;
    case 3: _handle_open_compress(&CN); break;
    case 4: _do_bind(&CN, s); break;
    case 5: _session_start(&CN); break;
    case 6: _auth_legacy(&CN); break;
    case 7: auth_handle_component_open(&CN); break;
    case 8: auth_handle_open_raw(&CN); VF_ASSERT(n_up == 1 && n_timed == 0, "C13: raw stream"); return;
    case 9: _stream_negotiation_success(&CN); VF_ASSERT(n_up == 1 && n_timed == 0 && n_disc == 0, "C13: not exactly one notification that the connection is up"); return;
    default: return;
    }
    VF_ASSERT(n_up == 0 && n_auth == 0, "C13,C03: goes on without an answer");
    if (n_mem || n_disc) { VF_ASSERT(n_mem + n_disc == 1 && (k == 4 || k == 5 || k == 6 || k == 7), "C13: gives up at once"); VF_REACH("failed at once"); return; }
    VF_ASSERT(n_timed == 1, "C13: no deadline for the answer");
    VF_ASSERT(per == 15000, "C13: the deadline is not 15 s");
    armed = h_;
    if (nd_bool()) {
        /* the deadline passes */
        rc = armed(&CN, ud_);
        VF_ASSERT(rc == 0, "C13: the deadline fires again");
        VF_ASSERT(n_up == 0, "C13: connected without an answer");
        if (legacy_fallback) VF_ASSERT(n_disc + n_auth == 1, "C13: the wait for the features is not given up");
        else VF_ASSERT(n_disc == 1 && n_auth == 0, "C13: the wait is not given up");
        VF_REACH("given up");
    } else {
        /* the answer comes */
        switch (k) {
        case 0: case 1: rc = _handle_features(&CN, s, NULL); VF_ASSERT(n_auth == 1, "C13: nothing follows the features"); break;
        case 2: rc = _handle_features_sasl(&CN, s, NULL); break;
        case 3: rc = _handle_features_compress(&CN, s, NULL); break;
        case 4: rc = _handle_bind(&CN, s, NULL); break;
        case 5: rc = _handle_session(&CN, s, NULL); break;
        case 6: rc = _handle_legacy(&CN, s, NULL); break;
        default: rc = _handle_component_hs_response(&CN, s, NULL); break;
        }
        satisfied(armed);
        VF_ASSERT(n_up + n_disc + n_mem <= 1, "C13: more than one outcome");
        VF_REACH("answered in time");
        VF_REACH_IF(n_up, "connected");
    }
}
#endif
