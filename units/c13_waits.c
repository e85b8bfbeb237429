/*@unit
{"props": ["C13"], "functions": ["xmpp_run_once", "handler_fire_timed", "handler_reset_timed", "xmpp_disconnect", "_disconnect_cleanup", "conn_disconnect_clean", "_handle_missing_features", "_handle_missing_features_sasl", "_handle_missing_bind", "_handle_missing_session", "_handle_missing_legacy", "_handle_missing_handshake", "_handle_error"], "assumptions": ["sockets, select, clock, random numbers and TLS are stand-ins (units/world.h)"], "lib": true, "libs": ["-lexpat", "-lz", "-lssl", "-lcrypto"], "without": ["rand.c", "tls_openssl.c"], "rename": {"util.c": ["time_stamp"]},
 "runs": [
  {"name": "silent", "mode": "bounded", "engine": "enum", "split": 4, "defs": ["T_SILENT", "DEVS=0"], "timeout": 200, "covers": ["given up", "answered late", "never silent", "legacy fallback", "blocked"], "bound": "four kinds of negotiation (TLS, session, legacy, component), the server silent or late (1 s, 14.999 s) at one answer or at every answer, with and without other traffic, three loop granularities, the transport blocked or not, stream end answered or not"},
  {"name": "close", "mode": "bounded", "engine": "enum", "split": 4, "defs": ["T_CLOSE", "DEVS=0"], "timeout": 200, "covers": ["closed by the user", "closed while connecting", "closed twice", "answered in time"], "bound": "the user disconnects at any stage of four kinds of negotiation or when connected, before or after a delay; the stages go on 0, 1.5 or 1.999 s later; the stream end is answered at once, after 1 s, 1.999 s or never; other traffic or none"},
  {"name": "serror", "mode": "bounded", "engine": "enum", "split": 3, "defs": ["T_ERROR", "DEVS=0"], "timeout": 100, "covers": ["condition and text", "no text", "unknown condition"], "bound": "all 25 conditions and an unknown one, with no, empty or any text before or after the condition, an application element, at three stages, in one piece or byte by byte, then stream end, close or reset"}
 ]}
*/
#include "vf.h"
#include "world.h"
#include <sys/syscall.h>
#include <unistd.h>
int __real_close(int fd) { return (int)syscall(SYS_close, fd); }
/* stages at which the server has to say something */
enum { ACC, HDR1, FEAT1, PROCEED, HDR2, FEAT2, SUCCESS, HDR3, FEAT3, BIND, SESS, LEG, HSK, NST };
static const int waits[NST] = {0, 0, 1, 0, 0, 1, 0, 0, 1, 1, 1, 1, 1};
#define NEVER (-1)
static int delay_[NST];
static int kind; /* 0 client without TLS, 1 with TLS and session, 2 legacy, 3 component */
static int stage = -1; static uint64_t due, t_wait; static int pend;
static char rx[20000]; static size_t rxn, rxp;
static int n_hdr, tls_done, authed;
static uint64_t t_closed; static int closed; /* the client closed the stream */
static int answer_close; /* delay of the answer, or NEVER */
static uint64_t due_close; static int pend_close;
static int n_conn, n_disc; static uint64_t t_disc, t_conn;
static xmpp_conn_t *conn; static xmpp_ctx_t *ctx;
static void say(const char *s) { size_t n = strlen(s); VF_ASSUME(w_outn + n < W_BUF); memcpy(w_out + w_outn, s, n); w_outn += n; }
static void next(int st) { stage = st; pend = 1; t_wait = w_now; due = delay_[st] == NEVER ? (uint64_t)-1 : w_now + (uint64_t)delay_[st]; }
static void srv_accept(void) { pend = 0; stage = -1; }
static void header(void) { say(kind == 3 ? "<stream:stream xmlns='jabber:component:accept' xmlns:stream='http://etherx.jabber.org/streams' id='i' from='comp.d'>" : "<?xml version='1.0'?><stream:stream xmlns='jabber:client' xmlns:stream='http://etherx.jabber.org/streams' id='i' from='d' version='1.0'>"); }
/* the server says what is due */
static void speak(void)
{
    int st = stage;
    if (pend_close && w_now >= due_close) { pend_close = 0; if (w_cur >= 0) say("</stream:stream>"); }
    if (!pend || w_now < due) return;
    pend = 0;
    switch (st) {
    case ACC: W[w_nsock - 1].outcome = 0; break;
    case HDR1: header(); next(kind == 3 ? HSK : FEAT1); if (kind == 3) pend = 0; t_wait = w_now; break;
    case FEAT1:
        if (kind == 1) { w_srv_tls_ok = 1; say("<stream:features><starttls xmlns='" NTLS "'/></stream:features>"); break; }
        if (kind == 2) { say("<stream:features/>"); break; }
        /* fall through */
    case FEAT2: say("<stream:features><mechanisms xmlns='" NSASL "'><mechanism>PLAIN</mechanism></mechanisms></stream:features>"); break;
    case PROCEED: say("<proceed xmlns='" NTLS "'/>"); break;
    case HDR2: header(); next(FEAT2); break;
    case SUCCESS: say("<success xmlns='" NSASL "'/>"); authed = 1; break;
    case HDR3: header(); next(FEAT3); break;
    case FEAT3: say(kind == 1 ? "<stream:features><bind xmlns='" NBIND "'/><session xmlns='" NSESS "'/></stream:features>" : "<stream:features><bind xmlns='" NBIND "'/></stream:features>"); break;
    case BIND: say("<iq type='result' id='_xmpp_bind1'><bind xmlns='" NBIND "'><jid>u@d/r</jid></bind></iq>"); break;
    case SESS: say("<iq type='result' id='_xmpp_session1'/>"); break;
    case LEG: say("<iq type='result' id='_xmpp_auth1'/>"); break;
    case HSK: say("<handshake/>"); break;
    }
    if (pend && w_now >= due) speak();
}
static int got(const char *p)
{
    char *q = strstr(rx + rxp, p);
    if (!q) return 0;
    rxp = (size_t)(q - rx) + strlen(p);
    return 1;
}
static void srv_rx(const char *d, size_t n, int tls)
{
    (void)tls;
    VF_ASSUME(rxn + n + 1 < sizeof(rx));
    memcpy(rx + rxn, d, n); rxn += n; rx[rxn] = 0;
    for (;;) {
        size_t p0 = rxp;
        const char *e = strstr(rx + rxp, "</stream:stream>");
        if (e && !closed) { closed = 1; t_closed = w_now; if (answer_close != NEVER) { pend_close = 1; due_close = w_now + (uint64_t)answer_close; } }
        if (got("<stream:stream")) { n_hdr++; if (w_tls_on) tls_done = 1; next(authed ? HDR3 : tls_done ? HDR2 : HDR1); }
        else if (got("<starttls")) next(PROCEED);
        else if (got("<auth ")) next(SUCCESS);
        else if (got("_xmpp_bind1")) next(BIND);
        else if (got("_xmpp_session1")) next(SESS);
        else if (got("_xmpp_auth1")) next(LEG);
        else if (got("<handshake")) next(HSK);
        if (rxp == p0) break;
    }
    speak();
}
static void w_settle(void) { speak(); }
static int hook(int i, int a, int p) { (void)i; (void)a; (void)p; next(ACC); return delay_[ACC] == 0 ? 0 : 3; }
static int e_type = -1; static const char *e_text;
static void on_event(xmpp_conn_t *c, xmpp_conn_event_t ev, int error, xmpp_stream_error_t *se, void *ud)
{
    (void)error; (void)ud;
    VF_ASSERT(c == conn, "C13: a notification for another connection");
    if (ev == XMPP_CONN_CONNECT) { VF_ASSERT(!n_conn && !n_disc, "C13: wrong notification"); n_conn++; t_conn = w_now; }
    else {
        VF_ASSERT(ev == XMPP_CONN_DISCONNECT && !n_disc, "C13: the end is notified twice");
        n_disc++; t_disc = w_now;
        VF_ASSERT((se != NULL) == (e_type >= 0), "C13: the server's stream error is not reported, or one it did not send");
        if (se) {
            VF_ASSERT((int)se->type == e_type, "C13: a stream error is reported with the wrong condition");
            VF_ASSERT(e_text ? seq(se->text, e_text) : se->text == NULL || !*se->text, "C13: a stream error is reported with the wrong text");
            VF_ASSERT(se->stanza && (seq(xmpp_stanza_get_name(se->stanza), "error") || seq(xmpp_stanza_get_name(se->stanza), "stream:error")), "C13: the stanza of the stream error");
        }
    }
    if (getenv("VF_LOG")) fprintf(stderr, "EVENT %d t=%lu\n", (int)ev, (unsigned long)w_now);
}
static void mon(void)
{
    int a = xmpp_conn_is_connecting(conn), b = xmpp_conn_is_connected(conn), c = xmpp_conn_is_disconnected(conn);
    VF_ASSERT(!!a + !!b + !!c == 1, "C13: not exactly one of connecting, connected and disconnected");
    VF_ASSERT(!!c == n_disc && !!b == (n_conn && !n_disc), "C13: the state does not agree with the notifications");
}
static int T_ = 1000, noise; static uint64_t noise_at;
static const char *noise_s(void) { return kind == 3 ? " " : noise == 1 ? " " : "<message from='x@d'><body>x</body></message>"; }
/* what the server does next wakes the client up */
static uint64_t wake(void)
{
    uint64_t lim = (uint64_t)-1;
    if (pend && due > w_now) lim = due;
    if (pend_close && due_close > w_now && due_close < lim) lim = due_close;
    if (noise && w_cur >= 0 && noise_at > w_now && noise_at < lim) lim = noise_at;
    return lim == (uint64_t)-1 ? lim : lim - w_now;
}
static void step(void)
{
    w_cpu = 0; errno = 0;
    w_wake = wake;
    speak();
    if (noise && w_cur >= 0 && noise_at <= w_now) { noise_at = w_now + 400; if (n_hdr && stage != HDR1 && stage != HDR2 && stage != HDR3 && stage != PROCEED && stage != SUCCESS) say(noise_s()); }
    xmpp_run_once(ctx, (unsigned long)T_);
    mon();
}
static void begin(void)
{
    int rc;
    w_out = malloc(W_BUF); vf_track(w_out);
    ctx = vf_ctx();
    conn = xmpp_conn_new(ctx);
    VF_ASSUME(ctx && conn);
    w_connect_hook = hook;
    xmpp_conn_set_jid(conn, kind == 3 ? "comp.d" : "u@d/r");
    xmpp_conn_set_pass(conn, "pw");
    VF_ASSERT(xmpp_conn_set_flags(conn, kind == 2 ? XMPP_CONN_FLAG_LEGACY_AUTH : 0) == 0, "C13: flags");
    rc = kind == 3 ? xmpp_connect_component(conn, "host", 0, on_event, NULL) : xmpp_connect_client(conn, "host", 0, on_event, NULL);
    VF_ASSERT(rc == XMPP_EOK, "C13: the attempt is refused");
    mon();
}
static void finish(void)
{
    int i;
    VF_ASSERT(n_disc == 1, "C13: not exactly one disconnect notification");
    for (i = 0; i < w_nsock; i++) VF_ASSERT(!W[i].open, "C12,C13: a socket is left open");
    xmpp_conn_release(conn);
    xmpp_ctx_free(ctx);
    VF_ASSERT(vf_live == 0, "C12: something is not released");
    VF_ASSERT(n_disc == 1, "C13: a second notification when the connection is released");
}
/* the stages of each kind of negotiation, in order */
static const int SEQ[4][12] = {
    {ACC, HDR1, FEAT1, SUCCESS, HDR3, FEAT3, BIND, -1},
    {ACC, HDR1, FEAT1, PROCEED, HDR2, FEAT2, SUCCESS, HDR3, FEAT3, BIND, SESS, -1},
    {ACC, HDR1, FEAT1, LEG, -1},
    {ACC, HDR1, HSK, -1},
};
#ifdef T_SILENT
void harness(void)
{
    static const int TT[] = {1000, 7, 40000};
    int n, i, s, how, block;
    uint64_t w0, cl;
    kind = nd_range(0, 3);
    for (n = 0; SEQ[kind][n] >= 0; n++) ;
    how = nd_range(0, 3); /* 0 silent at s, 1 late at s, 2 almost too late at s, 3 almost too late always */
    s = how == 3 ? -1 : SEQ[kind][nd_range(0, n - 1)];
    VF_ASSUME(how == 3 || waits[s]);
    for (i = 0; i < NST; i++) delay_[i] = how == 3 && waits[i] ? 14999 : 0;
    if (s >= 0) delay_[s] = how == 0 ? NEVER : how == 1 ? 1000 : 14999;
    if (kind == 2 && how == 0) delay_[LEG] = NEVER;
    T_ = TT[nd_range(0, 2)];
    noise = nd_range(0, 2);
    answer_close = nd_bool() ? 300 : NEVER;
    block = how == 0 && nd_bool();
    /* with a blocked transport the application's own loop timeout may delay a deadline by that much */
    VF_ASSUME(!block || T_ <= 1000);
    begin();
    for (i = 0; i < 12000 && !n_conn && !n_disc && !(s >= 0 && pend && stage == s); i++) step();
    if (how) {
        for (i = 0; i < 60000 && !n_conn && !n_disc; i++) step();
        VF_ASSERT(n_conn == 1 && n_disc == 0 && !closed, "C13: a wait is given up before its deadline");
        /* the deadlines that were met must not matter any more */
        w0 = w_now;
        for (i = 0; i < 60000 && !n_disc && w_now - w0 < 40000; i++) step();
        VF_ASSERT(n_disc == 0 && !closed, "C13: a deadline goes on although the answer came");
        VF_REACH("answered late");
        VF_REACH_IF(how == 3, "never silent");
        xmpp_disconnect(conn);
        w0 = w_now;
        for (i = 0; i < 3000 && !n_disc; i++) step();
        VF_ASSERT(n_disc && t_disc - w0 == (answer_close == NEVER ? 2000u : 300u), "C13: the graceful close does not end when it is answered or after 2 s");
        finish();
        return;
    }
    VF_ASSERT(!n_disc && !n_conn && pend && stage == s , "C13: the wait did not begin");
again:
    w0 = t_wait;
    if (block) { w_block = 1; VF_REACH("blocked"); }
    for (i = 0; i < 60000 && !n_disc && !closed && w_now - w0 < 15000; i++) {
        step();
        /* (a step may take the clock past the deadline, but not do anything before) */
        VF_ASSERT((!n_disc && !closed) || w_now - w0 >= 15000, "C13: a wait is given up before its deadline");
    }
    /* now it is due: at most two rounds of the loop until the stream end is sent */
    for (i = 0; i < 3 && !n_disc && !closed; i++) step();
    if (kind == 2 && s == FEAT1 && stage == LEG && !block) {
        /* no features: a server that knows legacy authentication only */
        s = LEG; VF_REACH("legacy fallback");
        VF_ASSERT(t_wait == w0 + 15000, "C13: a wait is not given up at its deadline");
        goto again;
    }
    cl = w0 + 15000;
    if (!block) VF_ASSERT(closed && t_closed == cl, "C13: a wait is not given up when its deadline passes");
    if (block && kind == 2 && s == FEAT1) { /* the legacy request cannot be sent either */ cl += 15000; }
    VF_ASSERT(!n_conn, "C13: connected without an answer");
    for (i = 0; i < 60000 && !n_disc && w_now < cl + 2000; i++) {
        step();
        if (block || answer_close == NEVER) VF_ASSERT(!n_disc || t_disc >= cl + 2000, "C13: the graceful close is given up before 2 s");
    }
    for (i = 0; i < 2 && !n_disc; i++) step();
    VF_ASSERT(n_disc == 1, "C13: the graceful close is not given up after 2 s");
    VF_ASSERT(block ? t_disc >= cl + 2000 && t_disc <= cl + 2000 + (uint64_t)T_ : t_disc == (answer_close == NEVER ? cl + 2000 : cl + 300), "C13: the connection does not end when the graceful close is answered or given up");
    VF_REACH("given up");
    finish();
}
#endif
#ifdef T_CLOSE
void harness(void)
{
    static const int DL[] = {0, 1500, 1999}, AN[] = {NEVER, 0, 1000, 1999}, OFF[] = {0, 700};
    int n, i, s, dl, off, conn_first, twice;
    uint64_t tu, lim, acc;
    kind = nd_range(0, 3);
    for (n = 0; SEQ[kind][n] >= 0; n++) ;
    i = nd_range(0, n);
    s = i == n ? -1 : SEQ[kind][i];
    off = OFF[nd_range(0, 1)];
    dl = DL[nd_range(0, 2)];
    answer_close = AN[nd_range(0, 3)];
    noise = nd_range(0, 1);
    twice = nd_bool();
    T_ = nd_bool() ? 1000 : 50;
    begin();
    if (s >= 0) delay_[s] = 100000;
    if (s == ACC) { W[0].outcome = 3; next(ACC); }
    for (i = 0; i < 12000 && !n_conn && !n_disc && !(s >= 0 && pend && stage == s); i++) step();
    VF_ASSERT(!n_disc && (s < 0 ? n_conn : !n_conn), "C13: did not get there");
    tu = w_now;
    while (w_now < tu + (uint64_t)off) { int t = T_; if (tu + (uint64_t)off - w_now < (uint64_t)T_) T_ = (int)(tu + (uint64_t)off - w_now); step(); T_ = t; }
    tu = w_now;
    VF_ASSERT(!n_disc, "C13: ended on its own");
    conn_first = s != ACC;
    xmpp_disconnect(conn);
    mon();
    VF_ASSERT(!n_disc, "C13: a graceful close ends the connection at once");
    if (s >= 0) due = tu + (uint64_t)dl;
    if (!conn_first) VF_REACH("closed while connecting");
    acc = conn_first ? tu : due;
    if (twice) {
        uint64_t x = tu + 900;
        while (w_now < x && !n_disc) { int t = T_; if (x - w_now < (uint64_t)T_) T_ = (int)(x - w_now); step(); T_ = t; }
        xmpp_disconnect(conn); /* a second call does not put it off */
        mon();
        VF_REACH("closed twice");
    }
    lim = tu + 2000;

    for (i = 0; i < 12000 && !n_disc && w_now < lim; i++) {
        step();
        VF_ASSERT(!n_disc || w_now >= lim || (closed && answer_close != NEVER && w_now >= t_closed + (uint64_t)answer_close), "C13: the graceful close is given up before 2 s");
    }
    for (i = 0; i < 2 && !n_disc; i++) step();
    (void)acc;
    VF_ASSERT(n_disc == 1, "C13: the graceful close is not given up after 2 s");
    VF_ASSERT(t_disc <= lim, "C13: the graceful close is not given up after 2 s");
    if (conn_first && answer_close != NEVER && !(pend && (stage == HDR1 || stage == HDR2 || stage == HDR3))) VF_REACH("answered in time");
    if (closed && answer_close != NEVER && t_closed + (uint64_t)answer_close < lim && n_hdr && conn_first && s != HDR1 && s != HDR2 && s != HDR3) VF_ASSERT(t_disc == t_closed + (uint64_t)answer_close, "C13: the connection does not end when the server closes the stream");
    VF_REACH("closed by the user");
    finish();
}
#endif
#ifdef T_ERROR
static const struct { const char *n; int t; } E[] = {
    {"bad-format", XMPP_SE_BAD_FORMAT}, {"bad-namespace-prefix", XMPP_SE_BAD_NS_PREFIX}, {"conflict", XMPP_SE_CONFLICT}, {"connection-timeout", XMPP_SE_CONN_TIMEOUT},
    {"host-gone", XMPP_SE_HOST_GONE}, {"host-unknown", XMPP_SE_HOST_UNKNOWN}, {"improper-addressing", XMPP_SE_IMPROPER_ADDR}, {"internal-server-error", XMPP_SE_INTERNAL_SERVER_ERROR},
    {"invalid-from", XMPP_SE_INVALID_FROM}, {"invalid-id", XMPP_SE_INVALID_ID}, {"invalid-namespace", XMPP_SE_INVALID_NS}, {"invalid-xml", XMPP_SE_INVALID_XML},
    {"not-authorized", XMPP_SE_NOT_AUTHORIZED}, {"policy-violation", XMPP_SE_POLICY_VIOLATION}, {"remote-connection-failed", XMPP_SE_REMOTE_CONN_FAILED},
    {"resource-constraint", XMPP_SE_RESOURCE_CONSTRAINT}, {"restricted-xml", XMPP_SE_RESTRICTED_XML}, {"see-other-host", XMPP_SE_SEE_OTHER_HOST},
    {"system-shutdown", XMPP_SE_SYSTEM_SHUTDOWN}, {"undefined-condition", XMPP_SE_UNDEFINED_CONDITION}, {"unsupported-encoding", XMPP_SE_UNSUPPORTED_ENCODING},
    {"unsupported-stanza-type", XMPP_SE_UNSUPPORTED_STANZA_TYPE}, {"unsupported-version", XMPP_SE_UNSUPPORTED_VERSION}, {"xml-not-well-formed", XMPP_SE_XML_NOT_WELL_FORMED},
    {"x-new-condition", XMPP_SE_UNDEFINED_CONDITION}
};
#define NE ((int)(sizeof(E) / sizeof(E[0])))
void harness(void)
{
    static const char *const TX[] = {NULL, "why", "a &lt;b&gt; &amp; \303\251"}, *const TD[] = {NULL, "why", "a <b> & \303\251"};
    static const int ST[] = {FEAT1, BIND, -1};
    char b[900], t[300], c[200];
    int k, tx, order, app, st, end, i, cut;
    kind = 0;
    k = nd_range(0, NE - 1); tx = nd_range(0, 2); order = tx ? nd_range(0, 1) : 0; app = nd_range(0, 2); st = ST[nd_range(0, 2)]; end = nd_range(0, 3);
    cut = nd_bool();
    answer_close = NEVER;
    begin();
    if (st >= 0) delay_[st] = NEVER;
    for (i = 0; i < 100 && !n_conn && !(st >= 0 && pend && stage == st); i++) step();
    for (i = 0; i < 3; i++) step();
    VF_ASSERT(!n_disc, "C13: ended on its own");
    snprintf(c, sizeof(c), "<%s xmlns='" NSTREAMS "'/>", E[k].n);
    if (tx) snprintf(t, sizeof(t), "<text xmlns='" NSTREAMS "' xml:lang='en'>%s</text>", TX[tx]); else t[0] = 0;
    snprintf(b, sizeof(b), "<stream:error>%s%s%s%s%s</stream:error>", app == 1 ? "<x xmlns='urn:app'/>" : "", order ? t : c, order ? c : t, app == 2 ? "<conflict xmlns='urn:app'/>" : "", "");
    e_type = E[k].t; e_text = TD[tx];
    if (cut) for (i = 0; b[i]; i++) { char o[2] = {b[i], 0}; say(o); step(); } else { say(b); step(); }
    if (end == 0) say("</stream:stream>");
    else if (end == 1) WS(w_cur)->peer_closed = 1;
    else if (end == 2) WS(w_cur)->rst = 1;
    else xmpp_disconnect(conn);
    for (i = 0; i < 30 && !n_disc; i++) step();
    VF_ASSERT(n_disc == 1, "C13: not exactly one disconnect notification");
    VF_REACH_IF(tx && k == 2, "condition and text"); VF_REACH_IF(!tx, "no text"); VF_REACH_IF(k == NE - 1, "unknown condition");
    finish();
}
#endif
