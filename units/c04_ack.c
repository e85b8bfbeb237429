/*@unit
{"props": ["C04", "C05"],
 "functions": ["_conn_sm_handle_stanza", "_handle_stream_stanza", "_sm_queue_cleanup", "_sm_queue_resend", "_get_h_attribute", "_handle_sm", "_sm_enable", "reset_sm_state", "_reset_sm_state_for_reconnect", "add_queue_back", "peek_queue_front", "pop_queue_front", "queue_element_free", "_send_raw"],
 "assumptions": ["the queue of unacknowledged stanzas is read through a window of two nodes at its front (the code reads no further than the successor of the first element)", "the retained stanzas carry increasing numbers (every loop iteration of the whole-library runs checks it)", "no wrap-around of the 32 bit counters between an acknowledgement and the elements it concerns"],
 "nobody_ok": ["strophe_debug", "strophe_error", "strophe_warn"],
 "runs": [
  {"name": "sm", "mode": "proof", "defs": ["T_ACK"], "annotate": {"conn.c": {"_conn_sm_handle_stanza": 1}}, "rename": {"conn.c": ["queue_element_free", "send_stanza"]}, "unwind": 24, "timeout": 100},
  {"name": "stanza", "mode": "proof", "defs": ["T_STANZA"], "rename": {"conn.c": ["_conn_sm_handle_stanza"]}, "unwind": 24, "timeout": 100},
  {"name": "cleanup", "mode": "proof", "defs": ["T_CLEANUP"], "annotate": {"auth.c": {"_sm_queue_cleanup": 1}}, "unwind": 24, "timeout": 100},
  {"name": "resend", "mode": "proof", "defs": ["T_RESEND"], "annotate": {"auth.c": {"_sm_queue_resend": 1}}, "unwind": 24, "timeout": 100},
  {"name": "handle", "mode": "proof", "defs": ["T_HANDLE"], "rename": {"auth.c": ["_sm_queue_cleanup", "_sm_queue_resend", "_do_bind", "_stream_negotiation_success"]}, "unwind": 40, "timeout": 100},
  {"name": "reset", "mode": "proof", "defs": ["T_RESET"], "unwind": 24, "timeout": 100},
  {"name": "queue", "mode": "proof", "defs": ["T_QUEUE"], "rename": {"conn.c": ["send_raw", "trigger_sm_callback"]}, "unwind": 40, "timeout": 100}
 ]}
*/
#include "vf.h"
#include "strophe.h"
#include "common.h"
static xmpp_ctx_t CX;
static xmpp_conn_t CN;
static xmpp_sm_state_t SS;
void strophe_debug(const xmpp_ctx_t *c, const char *a, const char *f, ...) { (void)c; (void)a; (void)f; }
void strophe_error(const xmpp_ctx_t *c, const char *a, const char *f, ...) { (void)c; (void)a; (void)f; }
void strophe_warn(const xmpp_ctx_t *c, const char *a, const char *f, ...) { (void)c; (void)a; (void)f; }
#undef strophe_debug_verbose
#define strophe_debug_verbose(...) ((void)0)
static int eq(const char *a, const char *b)
{
    int i;
    if (!a) return 0;
    for (i = 0; i < 20; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; }
    return 0;
}
/* ---- any stanza: what its accessors return ---- */
static xmpp_stanza_t ST; /* the stanza received */
#define THE_STANZA (&ST)
static char NAMEB[12], NSB[18], IDB[4], PREVB[4], RESB[6], HB[2];
static const char *s_name, *s_ns, *s_h, *s_id, *s_prev, *s_res;
static int h_bad; static unsigned long h_val;
static void any_stanza(void)
{
    int i;
    for (i = 0; i < 11; i++) NAMEB[i] = nd_char();
    for (i = 0; i < 17; i++) NSB[i] = nd_char();
    for (i = 0; i < 3; i++) { IDB[i] = nd_char(); PREVB[i] = nd_char(); }
    for (i = 0; i < 5; i++) RESB[i] = nd_char();
    NAMEB[11] = NSB[17] = IDB[3] = PREVB[3] = RESB[5] = HB[1] = 0; HB[0] = nd_char();
    s_name = nd_bool() ? NAMEB : NULL; s_ns = nd_bool() ? NSB : NULL; s_h = nd_bool() ? HB : NULL;
    s_id = nd_bool() ? IDB : NULL; s_prev = nd_bool() ? PREVB : NULL; s_res = nd_bool() ? RESB : NULL;
    h_bad = nd_bool(); h_val = nd_size();
}
#define IS_SM(ns) eq(ns, "urn:xmpp:sm:3")
#ifndef T_RESET
const char *xmpp_stanza_get_ns(xmpp_stanza_t *s) { VF_ASSERT(s == THE_STANZA, "C04: which stanza"); return s_ns; }
int string_to_ul(const char *s, unsigned long *u) { VF_ASSERT(s == s_h && s, "C04: another number is read"); *u = h_val; return h_bad ? -1 : 0; }
const char *xmpp_stanza_get_attribute(xmpp_stanza_t *s, const char *k)
{
    VF_ASSERT(s == THE_STANZA, "C04: which stanza");
    if (eq(k, "h")) return s_h;
    if (eq(k, "id")) return s_id;
    if (eq(k, "previd")) return s_prev;
    if (eq(k, "resume")) return s_res;
    return NULL;
}
#endif
/* ---- ghost: the retained stanzas, gN of them, gp released so far; element k is E[k % 2] ---- */
static int gN, gp;
static xmpp_send_queue_t E[2], LAST;
static char D[2];
static char *owed;       /* text whose ownership went to the code */
static unsigned long g_h; /* everything below is to be released */
static uint32_t g_first; /* number of the front element at the start */
#define FRONT (gp < gN ? &E[gp & 1] : (xmpp_send_queue_t *)0)
#define SECOND (gp + 1 < gN ? &E[(gp + 1) & 1] : (xmpp_send_queue_t *)0)
#define INVQ __CPROVER_loop_invariant(gN >= 0 && gN < (1 << 30) && gp >= 0 && gp <= gN && SS.sm_queue.head == FRONT && owed == NULL && CN.sm_state == &SS && CN.ctx == &CX) \
    __CPROVER_loop_invariant((SS.sm_queue.tail == NULL) == (gp == gN)) \
    __CPROVER_loop_invariant(gp >= gN || (E[gp & 1].next == SECOND && E[gp & 1].data == &D[gp & 1])) \
    __CPROVER_loop_invariant(gp + 1 >= gN || (E[(gp + 1) & 1].sm_h > E[gp & 1].sm_h && E[(gp + 1) & 1].data == &D[(gp + 1) & 1]))
/* assignments of the values they have tell CBMC what the pointers point to */
static void repoint(void)
{
    VF_ASSERT(SS.sm_queue.head == FRONT, "C04: front of the retained stanzas");
    SS.sm_queue.head = FRONT;
    if (gp < gN) { VF_ASSERT(E[gp & 1].next == SECOND && E[gp & 1].data == &D[gp & 1], "C04: retained stanzas"); E[gp & 1].next = SECOND; E[gp & 1].data = &D[gp & 1]; }
    if (gp + 1 < gN) { VF_ASSERT(E[(gp + 1) & 1].data == &D[(gp + 1) & 1], "C04: retained stanzas"); E[(gp + 1) & 1].data = &D[(gp + 1) & 1]; }
}
static void any_elem(int k, uint32_t after)
{
    xmpp_send_queue_t *e = &E[k & 1];
    e->data = &D[k & 1]; e->len = nd_size(); e->owner = (xmpp_send_queue_owner_t)nd_int(); e->userdata = NULL; e->written = 0; e->wip = 0;
    e->sm_h = nd_u32(); VF_ASSUME(e->sm_h > after || (k == 0 && e->sm_h >= after));
}
static void any_queue(void)
{
    gp = 0; gN = nd_int(); VF_ASSUME(gN >= 0 && gN < (1 << 30)); owed = NULL;
    any_elem(0, 0); g_first = E[0].sm_h; any_elem(1, E[0].sm_h);
    E[0].prev = NULL; E[0].next = SECOND; E[1].prev = &E[0]; E[1].next = &E[0];
    SS.sm_queue.head = FRONT; SS.sm_queue.tail = gN == 0 ? NULL : gN == 1 ? &E[0] : gN == 2 ? &E[1] : &LAST;
}
/* the element at the front was taken: the window moves */
static void gone(xmpp_send_queue_t *e)
{
    VF_ASSERT(gp < gN && e == &E[gp & 1] && SS.sm_queue.head == SECOND, "C04: an element is released that is not the oldest, or is still in the queue");
    gp++;
    if (gp + 1 < gN) any_elem(gp + 1, E[gp & 1].sm_h);
    if (gp < gN) E[gp & 1].next = SECOND;
}
/* ================= conn.c: acknowledgements and the count ================= */
#ifdef T_ACK
static char AN; /* the <a/> */
static int a_new, a_name, a_ns, a_h, a_sent; static uint32_t a_val; static unsigned long g_num; static char *g_numbuf;
const char *xmpp_stanza_get_name(xmpp_stanza_t *s) { VF_ASSERT(s == THE_STANZA, "C04: which stanza"); return s_name; }
xmpp_stanza_t *xmpp_stanza_new(xmpp_ctx_t *c) { (void)c; if (nd_bool()) return NULL; VF_ASSERT(!a_new, "C05: more than one answer"); a_new = 1; return (xmpp_stanza_t *)&AN; }
int xmpp_stanza_set_name(xmpp_stanza_t *s, const char *n) { VF_ASSERT(s == (xmpp_stanza_t *)&AN && eq(n, "a"), "C05: the answer is not an <a/>"); a_name = 1; return 0; }
int xmpp_stanza_set_ns(xmpp_stanza_t *s, const char *n) { VF_ASSERT(s == (xmpp_stanza_t *)&AN && IS_SM(n), "C05: namespace of the answer"); a_ns = 1; return 0; }
int xmpp_stanza_set_attribute(xmpp_stanza_t *s, const char *k, const char *v)
{
    VF_ASSERT(s == (xmpp_stanza_t *)&AN && eq(k, "h"), "C05: attribute of the answer");
    VF_ASSERT(v == g_numbuf, "C05: h is not the number that was formatted");
    a_val = (uint32_t)g_num; VF_ASSERT(g_num == a_val, "C05: h is not a 32 bit number"); a_h = 1; return 0;
}
static void send_stanza(xmpp_conn_t *c, xmpp_stanza_t *s, xmpp_send_queue_owner_t o)
{
    VF_ASSERT(c == &CN && s == (xmpp_stanza_t *)&AN, "C05: something else is sent");
    VF_ASSERT(a_name && a_ns && a_h, "C05: the answer is incomplete");
    VF_ASSERT(o & XMPP_QUEUE_SM, "C04: the answer would be counted as a stanza");
    a_sent++;
}
char *queue_element_free(xmpp_ctx_t *c, xmpp_send_queue_t *e)
{
    (void)c;
    VF_ASSERT(!owed, "C12: the text of an element is not released");
    VF_ASSERT(e->sm_h < g_h, "C04: a stanza the server has not counted is released");
    owed = e->data; gone(e);
    return owed;
}
void strophe_free(const xmpp_ctx_t *c, void *p) { (void)c; VF_ASSERT(p && p == owed, "C12: freed twice or not owned"); owed = NULL; }
static int vf_num(char *b, size_t n, const char *f, unsigned long v)
{
    VF_ASSERT(n >= 11, "C05: the number is cut off");
    VF_ASSERT(f[0] == '%' && (eq(f, "%u") || eq(f, "%lu")), "C05: the number is not written as an unsigned decimal");
    b[0] = '#'; b[1] = 0; g_numbuf = b; g_num = v;
    return 1;
}
#undef strophe_snprintf
#define strophe_snprintf(b, n, f, v) vf_num(b, n, f, v)
#define LC__conn_sm_handle_stanza_1 __CPROVER_assigns(gp, E, owed, SS.sm_queue, e, c) INVQ
#define LB__conn_sm_handle_stanza_1
static int vf_quiet = 1;
#ifdef VF_CBMC
#define while(...) while (vf_quiet || (repoint(), 1), (__VA_ARGS__))
#endif
#include "conn.c"
#undef while
void harness(void)
{
    uint32_t n0;
    int sm, valid;
    vf_quiet = 0; a_new = a_name = a_ns = a_h = a_sent = 0; g_numbuf = NULL; g_num = 0; a_val = 0;
    any_stanza(); any_queue();
    CN.ctx = &CX; CN.sm_state = &SS; SS.ctx = &CX; CN.state = XMPP_STATE_CONNECTED; SS.sm_enabled = 1; CN.sm_callback = NULL;
    n0 = SS.sm_handled_nr = nd_u32(); SS.r_sent = nd_bool();
    sm = s_ns && IS_SM(s_ns);
    valid = s_name && sm && eq(s_name, "a") && s_h && !h_bad;
    g_h = valid ? h_val : 0;
    _conn_sm_handle_stanza(&CN, THE_STANZA);
    /* C05 */
    if (sm || !s_name || !(eq(s_name, "message") || eq(s_name, "presence") || eq(s_name, "iq")))
        VF_ASSERT(SS.sm_handled_nr == n0, "C05: something that is not a stanza is counted");
    else if (s_ns == NULL || eq(s_ns, "jabber:client")) {
        VF_ASSERT(SS.sm_handled_nr == n0 + 1, "C05: a stanza is not counted once");
        VF_REACH("counted");
    }
    if (s_name && sm && eq(s_name, "r")) {
        VF_ASSERT(a_sent == a_new, "C05: a request is not answered exactly once");
        if (a_sent) { VF_ASSERT(a_val == n0, "C05: h of the answer is not the number of stanzas handled"); VF_REACH("answered"); }
    } else VF_ASSERT(a_sent == 0 && a_new == 0, "C05: an answer without a request");
    /* C04 */
    VF_ASSERT(owed == NULL, "C12: the text of a released element is kept");
    VF_ASSERT(SS.sm_queue.head == FRONT && (SS.sm_queue.tail == NULL) == (gp == gN), "C04: the queue does not agree with what was released");
    if (valid) VF_ASSERT(gp == gN || E[gp & 1].sm_h >= h_val, "C04: a stanza the server has counted is kept");
    else VF_ASSERT(gp == 0, "C04: stanzas are released without an acknowledgement");
    VF_REACH_IF(valid && gp == gN && gN > 3, "all released");
    VF_REACH_IF(valid && gp > 2 && gp < gN, "some released");
}
#endif
#ifdef T_STANZA
static int n_fire, n_sm, st_after, en_after;
static xmpp_sm_state_t *ss_after;
static char TX;
int xmpp_stanza_to_text(xmpp_stanza_t *s, char **b, size_t *n) { (void)s; if (nd_bool()) return XMPP_EMEM; *b = &TX; *n = 0; owed = &TX; return 0; }
void strophe_free(const xmpp_ctx_t *c, void *p) { (void)c; VF_ASSERT(p && p == owed, "C12: freed twice or not owned"); owed = NULL; }
void handler_fire_stanza(xmpp_conn_t *c, xmpp_stanza_t *s)
{
    VF_ASSERT(c == &CN && s == THE_STANZA && n_sm == 0, "C05,C11: dispatch");
    n_fire++;
    CN.state = (xmpp_conn_state_t)st_after; SS.sm_enabled = en_after;
}
static void _conn_sm_handle_stanza(xmpp_conn_t *const c, xmpp_stanza_t *s) { VF_ASSERT(c == &CN && s == THE_STANZA, "C05: another stanza is counted"); n_sm++; }
#include "conn.c"
void harness(void)
{
    int s = nd_range(0, 2);
    n_fire = n_sm = 0; owed = NULL; ss_after = &SS;
    CN.ctx = &CX; CN.sm_state = &SS;
    CN.state = s == 0 ? XMPP_STATE_DISCONNECTED : s == 1 ? XMPP_STATE_CONNECTING : XMPP_STATE_CONNECTED;
    st_after = nd_bool() ? XMPP_STATE_CONNECTED : XMPP_STATE_DISCONNECTED; SS.sm_enabled = nd_bool(); en_after = nd_bool();
    _handle_stream_stanza(THE_STANZA, &CN);
    VF_ASSERT(owed == NULL, "C12: text kept");
    if (s != 2) { VF_ASSERT(n_fire == 0 && n_sm == 0, "C13,C05: a stanza is dispatched after the connection ended"); VF_REACH("ended"); return; }
    VF_ASSERT(n_fire == 1, "C11,C05: a stanza is not dispatched once");
    VF_ASSERT(n_sm == (st_after == XMPP_STATE_CONNECTED && en_after), "C05: the stanza is not handed to stream management exactly once after its dispatch");
    VF_REACH_IF(n_sm, "handed to stream management");
}
#endif
/* ================= auth.c: resumption ================= */
#if defined(T_CLEANUP) || defined(T_RESEND)
static int n_sent;
/* contracts of the queue operations (proved on conn.c by the run "queue") */
xmpp_send_queue_t *peek_queue_front(xmpp_queue_t *q) { VF_ASSERT(q == &SS.sm_queue, "C04: another queue"); repoint(); return FRONT; }
xmpp_send_queue_t *pop_queue_front(xmpp_queue_t *q)
{
    xmpp_send_queue_t *r;
    VF_ASSERT(q == &SS.sm_queue, "C04: another queue");
    repoint(); r = FRONT;
    if (r) {
        SS.sm_queue.head = SECOND;
        if (!SS.sm_queue.head) SS.sm_queue.tail = NULL;
        r->next = r->prev = NULL;
    }
    return r;
}
char *queue_element_free(xmpp_ctx_t *c, xmpp_send_queue_t *e)
{
    (void)c;
    VF_ASSERT(!owed, "C12: the text of an element is not released");
#ifdef T_CLEANUP
    VF_ASSERT(e->sm_h < g_h, "C04: a stanza the server has not counted is released");
#else
    VF_ASSERT(n_sent == gp + 1, "C04: a stanza is dropped without being sent again");
#endif
    owed = e->data; gone(e);
    return owed;
}
void strophe_free(const xmpp_ctx_t *c, void *p) { (void)c; VF_ASSERT(p && p == owed, "C12: freed twice or not owned"); owed = NULL; }
void send_raw(xmpp_conn_t *c, const char *d, size_t n, xmpp_send_queue_owner_t o, void *u)
{
    (void)u;
    VF_ASSERT(c == &CN && n_sent == gp && gp < gN && d == &D[gp & 1] && n == E[gp & 1].len && o == E[gp & 1].owner, "C04: something else than the oldest retained stanza is sent again, or it is sent twice");
    n_sent++;
}
#define LC__sm_queue_cleanup_1 __CPROVER_assigns(gp, E, owed, SS.sm_queue, e) INVQ
#define LB__sm_queue_cleanup_1
#define LC__sm_queue_resend_1 __CPROVER_assigns(gp, n_sent, E, owed, SS.sm_queue, e) INVQ __CPROVER_loop_invariant(n_sent == gp)
#define LB__sm_queue_resend_1
#include "auth.c"
void harness(void)
{
    any_queue(); n_sent = 0;
    CN.ctx = &CX; CN.sm_state = &SS; SS.ctx = &CX; CN.state = XMPP_STATE_CONNECTED;
    g_h = nd_size();
#ifdef T_CLEANUP
    _sm_queue_cleanup(&CN, g_h);
    VF_ASSERT(gp == gN || E[gp & 1].sm_h >= g_h, "C04: a stanza the server has counted is kept");
    VF_REACH_IF(gp == gN && gN > 3, "all released");
    VF_REACH_IF(gp > 2 && gp < gN, "some released");
#else
    _sm_queue_resend(&CN);
    VF_ASSERT(gp == gN && n_sent == gN, "C04: not every retained stanza is sent again");
    VF_REACH_IF(gN > 3, "sent again");
#endif
    VF_ASSERT(owed == NULL && SS.sm_queue.head == FRONT && (SS.sm_queue.tail == NULL) == (gp == gN), "C04: the queue does not agree with what was released");
}
#endif
#ifdef T_HANDLE
static int n_clean, n_resend, n_up, n_bind, n_disc, n_reset, late; static unsigned long c_h;
static char OLDP[4], OLDB, OLDI, TX, NEWID; static int free_i, id_dup; static char OLDBIND; static int cause;
static char CA; /* the cause of a failure */
static const char *const CAUSE[3] = {"feature-not-implemented", "item-not-found", "x"};
static uint32_t nr_resend;
const char *xmpp_stanza_get_name(xmpp_stanza_t *s) { VF_ASSERT(s == THE_STANZA || s == (xmpp_stanza_t *)&CA, "C04: which stanza"); return s == THE_STANZA ? s_name : CAUSE[cause & 3]; }
xmpp_stanza_t *xmpp_stanza_get_child_by_ns(xmpp_stanza_t *s, const char *ns) { VF_ASSERT(s == THE_STANZA, "C04: which stanza"); (void)ns; return cause < 3 ? (xmpp_stanza_t *)&CA : NULL; }
int xmpp_stanza_to_text(xmpp_stanza_t *s, char **b, size_t *n) { (void)s; (void)n; *b = nd_bool() ? &TX : NULL; return nd_bool() ? 0 : nd_bool() ? XMPP_EMEM : XMPP_EINVOP; }
void strophe_free(const xmpp_ctx_t *c, void *p) { (void)c; if (p == &OLDI) free_i++; VF_ASSERT(p != &OLDB && p != OLDP, "C04,C12: the token of the session is released"); }
char *strophe_strdup(const xmpp_ctx_t *c, const char *s) { (void)c; VF_ASSERT(s == s_id && s, "C04: another token is kept"); id_dup++; return &NEWID; }
static void _sm_queue_cleanup(xmpp_conn_t *c, unsigned long h) { VF_ASSERT(c == &CN && !n_resend, "C04: acknowledged stanzas are sent again"); n_clean++; c_h = h; }
static void _sm_queue_resend(xmpp_conn_t *c) { VF_ASSERT(c == &CN && !n_up, "C04: something new goes before what is sent again"); n_resend++; }
static void _do_bind(xmpp_conn_t *c, xmpp_stanza_t *b) { VF_ASSERT(c == &CN && b == (xmpp_stanza_t *)&OLDBIND, "C03: another bind"); n_bind++; }
static void _stream_negotiation_success(xmpp_conn_t *c) { VF_ASSERT(c == &CN, "C13: another connection"); n_up++; nr_resend = SS.sm_sent_nr; late = n_resend; }
void reset_sm_state(xmpp_sm_state_t *s) { VF_ASSERT(s == &SS, "C04: another session"); n_reset++; s->id = s->previd = s->bound_jid = NULL; s->bind = NULL; s->sm_handled_nr = s->sm_sent_nr = 0; s->r_sent = s->can_resume = s->resume = 0; }
void trigger_sm_callback(xmpp_conn_t *c) { (void)c; }
void xmpp_disconnect(xmpp_conn_t *c) { VF_ASSERT(c == &CN, "C13: another connection"); n_disc++; }
void disconnect_mem_error(xmpp_conn_t *c) { (void)c; n_disc++; }
#include "auth.c"
void harness(void)
{
    int resume, enabled0, i, truthy; uint32_t hn, sn;
    n_clean = n_resend = n_up = n_bind = n_disc = n_reset = late = 0; c_h = 0; free_i = id_dup = 0; owed = NULL;
    any_stanza(); cause = nd_range(0, 3);
    for (i = 0; i < 3; i++) OLDP[i] = nd_char();
    OLDP[3] = 0;
    CN.ctx = &CX; CN.sm_state = &SS; SS.ctx = &CX; CN.state = XMPP_STATE_CONNECTED; CN.bound_jid = NULL;
    resume = SS.resume = nd_bool(); enabled0 = SS.sm_enabled = nd_bool(); SS.can_resume = nd_bool();
    hn = SS.sm_handled_nr = nd_u32(); sn = SS.sm_sent_nr = nd_u32(); SS.dont_request_resume = nd_bool(); SS.r_sent = 0;
    SS.id = resume ? NULL : nd_bool() ? &OLDI : NULL; SS.previd = resume ? OLDP : NULL; SS.bound_jid = resume ? &OLDB : NULL; SS.bind = resume && nd_bool() ? (xmpp_stanza_t *)&OLDBIND : NULL;
    i = SS.bind != NULL;
    _handle_sm(&CN, THE_STANZA, NULL);
    VF_ASSERT(n_up <= 1 && n_resend <= 1 && n_clean <= 1, "C04: more than one outcome");
    if (s_name && eq(s_name, "enabled") && !resume) {
        truthy = s_res && (eq(s_res, "1") || ((s_res[0] | 32) == 't' && (s_res[1] | 32) == 'r' && (s_res[2] | 32) == 'u' && (s_res[3] | 32) == 'e' && !s_res[4]));
        VF_ASSERT(SS.sm_handled_nr == 0, "C05: the count does not start at 0");
        VF_ASSERT(n_clean == 0 && n_reset == 0 && SS.sm_sent_nr == sn, "C04: stanzas are released because the server enabled stream management");
        if (truthy && !s_id) VF_ASSERT(n_up == 0 && (n_disc || SS.sm_enabled == 0) && SS.can_resume == 0, "C04: a session without a token is taken for one that can be resumed");
        else {
            VF_ASSERT(n_up == 1 && n_resend == 1 && late == 1, "C04: what the server did not report as handled is not sent again in the new session");
            VF_ASSERT(SS.can_resume == truthy && id_dup == truthy && (!truthy || SS.id == &NEWID), "C04: the token of the session");
            VF_ASSERT(SS.sm_enabled == enabled0, "C04: stream management is switched off");
            VF_REACH("enabled"); VF_REACH_IF(truthy, "can be resumed");
        }
    } else if (s_name && eq(s_name, "resumed") && resume) {
        if (s_prev && eq(s_prev, OLDP) && s_h && !h_bad) {
            VF_ASSERT(n_clean == 1 && c_h == h_val, "C04: not exactly what the server counted is released");
            VF_ASSERT(n_resend == 1 && n_up == 1 && late == 1, "C04: what lies beyond h is not sent again before anything new");
            VF_ASSERT(SS.sm_sent_nr == (uint32_t)h_val && nr_resend == (uint32_t)h_val, "C04: the client's count is not in step with the server's");
            VF_ASSERT(SS.sm_handled_nr == hn, "C05: the count is not carried across the resumption");
            VF_ASSERT(SS.sm_enabled == 1 && SS.resume == 0 && SS.id == OLDP && SS.previd == NULL && CN.bound_jid == &OLDB && SS.bound_jid == NULL, "C04,C12: the session goes on without its token or JID");
            VF_REACH("resumed");
        } else {
            VF_ASSERT(n_clean == 0 && n_resend == 0 && n_up == 0 && (n_disc || SS.sm_enabled == 0) && SS.sm_handled_nr == hn && SS.sm_sent_nr == sn, "C04: another session is taken for the resumed one");
            VF_REACH("another session");
        }
    } else if (s_name && eq(s_name, "failed")) {
        VF_ASSERT(SS.sm_enabled == 0 && n_reset == 1, "C04: a refused session is kept");
        if (resume) {
            if (s_h && !h_bad) { VF_ASSERT(n_clean == 1 && c_h == h_val, "C04: what the server reports as handled is sent again"); VF_REACH("failed with h"); }
            else VF_ASSERT(n_clean == 0, "C04: stanzas are dropped although the resumption failed");
            VF_ASSERT(n_resend == 0 && n_up == 0, "C04: sent before the new session");
            VF_ASSERT(i ? n_bind == 1 : n_bind == 0, "C04,C03: no new session after a failed resumption");
        } else {
            VF_ASSERT(n_clean == 0 && n_resend == 1 && n_up == 1 && late == 1, "C04: what was not acknowledged is dropped because the server refuses stream management");
            VF_REACH("refused");
        }
    } else {
        VF_ASSERT(n_clean == 0 && n_resend == 0 && n_reset == 0 && n_up == 0, "C04: an element that is no answer changes the session");
        VF_ASSERT(SS.sm_handled_nr == hn && SS.sm_sent_nr == sn, "C04,C05: an element that is no answer changes the counts");
        VF_REACH("no answer");
    }
}
#endif
#ifdef T_RESET
static char I, P, B, J, BI; static int fI, fP, fB, fJ, fBI;
static xmpp_send_queue_t Q1, Q2;
void strophe_free(const xmpp_ctx_t *c, void *p)
{
    (void)c;
    if (p == &I) fI++; else if (p == &P) fP++; else if (p == &B) fB++; else if (p == &J) fJ++; else VF_ASSERT(!p, "C04,C12: something else is released");
}
int xmpp_stanza_release(xmpp_stanza_t *s) { VF_ASSERT(s == (xmpp_stanza_t *)&BI, "C12: something else is released"); fBI++; return 1; }
#define OWNED(q) ((SS.id == &q) + (SS.previd == &q) + (SS.bound_jid == &q) + (CN.bound_jid == &q))
#include "conn.c"
void harness(void)
{
    int hi, hp, hb, hj, hbi, full = nd_bool(), can; uint32_t hn, sn;
    fI = fP = fB = fJ = fBI = 0;
    CN.ctx = &CX; CN.sm_state = &SS; SS.ctx = &CX;
    hi = nd_bool(); hp = nd_bool(); hb = nd_bool(); hj = nd_bool(); hbi = nd_bool();
    SS.id = hi ? &I : NULL; SS.previd = hp ? &P : NULL; SS.bound_jid = hb ? &B : NULL; CN.bound_jid = hj ? &J : NULL; SS.bind = hbi ? (xmpp_stanza_t *)&BI : NULL;
    SS.sm_queue.head = &Q1; SS.sm_queue.tail = &Q2; hn = SS.sm_handled_nr = nd_u32(); sn = SS.sm_sent_nr = nd_u32();
    can = SS.can_resume = nd_bool(); SS.resume = nd_bool(); SS.r_sent = nd_bool(); SS.sm_enabled = nd_bool(); SS.sm_support = nd_bool(); SS.dont_request_resume = 0;
    if (full) {
        reset_sm_state(&SS);
        VF_ASSERT(SS.id == NULL && SS.previd == NULL && SS.can_resume == 0 && SS.resume == 0 && SS.sm_sent_nr == 0 && SS.sm_handled_nr == 0, "C04: a session that is gone leaves its token or its counts behind");
    } else {
        _reset_sm_state_for_reconnect(&CN);
        VF_ASSERT(SS.sm_handled_nr == hn, "C05: the count is lost with the connection");
        VF_ASSERT(SS.sm_sent_nr == sn && SS.can_resume == can, "C04: the session is lost with the connection");
        if (can && hi) { VF_ASSERT(SS.previd == &I && SS.id == NULL && SS.bound_jid == (hj ? &J : NULL) && CN.bound_jid == NULL, "C04: the token of the session does not survive the connection"); VF_REACH("token kept"); }
        else if (can) VF_ASSERT(SS.previd == (hp ? &P : NULL) && SS.bound_jid == (hb ? &B : NULL), "C04: the token does not survive a second loss of the connection");
        else VF_ASSERT(SS.previd == NULL && SS.id == NULL, "C04: a session that can not be resumed keeps a token");
        VF_ASSERT(!SS.sm_enabled && !SS.resume && !SS.sm_support && !SS.r_sent, "C04: stream management goes on without a connection");
    }
    VF_ASSERT(SS.sm_queue.head == &Q1 && SS.sm_queue.tail == &Q2, "C04: the retained stanzas are lost");
    VF_ASSERT(OWNED(I) + fI == hi && OWNED(P) + fP == hp && OWNED(B) + fB == hb && OWNED(J) + fJ == hj && fBI == hbi && SS.bind == NULL, "C12: not exactly one owner");
}
#endif
#ifdef T_QUEUE
static xmpp_send_queue_t N1, N2, N3, IT; static char TXT[2]; static int f_it, f_txt, n_alloc, n_r, n_trig, oom;
void *strophe_alloc(const xmpp_ctx_t *c, size_t n) { (void)c; VF_ASSERT(n >= sizeof(IT) && !n_alloc, "C06: size of an element"); n_alloc++; oom = nd_bool(); return oom ? NULL : &IT; }
void strophe_free(const xmpp_ctx_t *c, void *p) { (void)c; if (p == &IT) f_it++; else if (p == TXT) f_txt++; else VF_ASSERT(!p, "C12: something else is released"); }
static void send_raw(xmpp_conn_t *c, const char *d, size_t n, xmpp_send_queue_owner_t o, void *u)
{
    VF_ASSERT(c == &CN && eq(d, "<r xmlns='urn:xmpp:") == 0 && n == strlen(d) && o == XMPP_QUEUE_SM_STROPHE && u == &IT, "C04: the request for an acknowledgement");
    VF_ASSERT(CN.send_queue_tail == &IT, "C04: the request goes before the stanza");
    n_r++;
}
void trigger_sm_callback(xmpp_conn_t *c) { (void)c; n_trig++; }
#include "conn.c"
void harness(void)
{
    xmpp_queue_t Q; int k = nd_range(0, 3), op = nd_range(0, 3), rc, ul, en, rs; size_t len; xmpp_send_queue_owner_t o; xmpp_send_queue_t *r;
    uint32_t h1 = nd_u32(), h2 = nd_u32();
    n_alloc = f_it = f_txt = n_r = n_trig = 0;
    /* a queue of 0, 1, 2 or more elements: N1 and N2 are its first ones, N3 the last of a long one */
    N1.sm_h = h1; N2.sm_h = h2; N1.prev = NULL; N1.next = k >= 2 ? &N2 : NULL; N2.prev = &N1; N2.next = k == 3 ? &N3 : NULL; N3.prev = NULL; N3.next = NULL;
    Q.head = k ? &N1 : NULL; Q.tail = k == 0 ? NULL : k == 1 ? &N1 : k == 2 ? &N2 : &N3;
    CN.ctx = &CX; CN.sm_state = &SS; SS.ctx = &CX;
    if (op == 0) {
        r = peek_queue_front(&Q);
        VF_ASSERT(r == (k ? &N1 : NULL) && Q.head == r, "C04: peek_queue_front");
    } else if (op == 1) {
        r = pop_queue_front(&Q);
        VF_ASSERT(r == (k ? &N1 : NULL), "C04: pop_queue_front does not take the oldest");
        VF_ASSERT(Q.head == (k >= 2 ? &N2 : NULL) && Q.tail == (k <= 1 ? NULL : k == 2 ? &N2 : &N3), "C04: pop_queue_front takes more than one");
        if (k) VF_ASSERT(N1.next == NULL && N1.prev == NULL && N1.sm_h == h1, "C04: what is taken is still linked");
        if (k >= 2) VF_ASSERT(N2.prev == NULL && N2.next == (k == 3 ? &N3 : NULL) && N2.sm_h == h2, "C04: the rest of the queue");
        VF_REACH_IF(k == 3, "pop");
    } else if (op == 2) {
        IT.next = IT.prev = nd_bool() ? &N2 : NULL; IT.sm_h = h1;
        add_queue_back(&Q, &IT);
        VF_ASSERT(Q.tail == &IT && IT.next == NULL && Q.head == (k ? &N1 : &IT), "C04: add_queue_back does not add at the end");
        r = k == 0 ? NULL : k == 1 ? &N1 : k == 2 ? &N2 : &N3;
        VF_ASSERT(IT.prev == r && (!r || r->next == &IT) && IT.sm_h == h1, "C04: the element is not linked");
        if (k >= 2) VF_ASSERT(N1.next == &N2 && N1.prev == NULL, "C04: the rest of the queue");
        if (k == 3) VF_ASSERT(N2.next == &N3, "C04: the rest of the queue");
        VF_REACH_IF(k == 3, "add");
    } else if (nd_bool()) {
        IT.data = TXT;
        char *t = queue_element_free(&CX, &IT);
        VF_ASSERT(t == TXT && f_it == 1 && f_txt == 0, "C12: queue_element_free");
    } else {
        CN.send_queue_head = Q.head; CN.send_queue_tail = Q.tail; CN.send_queue_len = k; ul = CN.send_queue_user_len = nd_range(0, 3);
        en = SS.sm_enabled = nd_bool(); rs = SS.r_sent = nd_bool(); len = nd_size();
        o = nd_bool() ? XMPP_QUEUE_USER : nd_bool() ? XMPP_QUEUE_STROPHE : XMPP_QUEUE_SM_STROPHE;
        rc = _send_raw(&CN, TXT, len, o, NULL);
        if (oom) { VF_ASSERT(rc != XMPP_EOK && f_txt == 1 && CN.send_queue_len == k && CN.send_queue_user_len == ul && CN.send_queue_head == Q.head && CN.send_queue_tail == Q.tail && n_r == 0, "C06,C12: a stanza that is refused"); return; }
        VF_ASSERT(rc == XMPP_EOK && f_txt == 0 && f_it == 0, "C06: result");
        VF_ASSERT(CN.send_queue_head == (k ? &N1 : &IT) && CN.send_queue_tail == &IT && IT.next == NULL && IT.prev == Q.tail && (!Q.tail || Q.tail->next == &IT), "C06: not queued at the end");
        VF_ASSERT(CN.send_queue_len == k + 1 && CN.send_queue_user_len == ul + (o == XMPP_QUEUE_USER), "C06: length of the queue");
        VF_ASSERT(IT.data == TXT && IT.len == len && IT.owner == o && IT.written == 0 && !IT.wip, "C06: what is queued");
        VF_ASSERT(n_r == (!(o & XMPP_QUEUE_SM) && en && !rs), "C04: acknowledgements are not requested exactly for stanzas, one at a time");
        if (n_r) VF_ASSERT(SS.r_sent, "C04: a second request is sent");
        VF_REACH_IF(n_r, "request");
    }
}
#endif
