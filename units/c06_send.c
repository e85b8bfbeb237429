/*@unit
{"props": ["C06", "C04", "C12"],
 "functions": ["xmpp_run_once", "_drop_send_queue_element", "conn_interface_write"],
 "assumptions": ["the send queue is read through a window of two nodes at its front (the code reads no further than the successor of the first element)", "elements are shorter than 2^31 bytes", "the stream management callback leaves a consistent queue: it may queue elements behind and drop elements that were not started"],
 "nobody_ok": ["strophe_debug", "strophe_error", "strophe_warn"],
 "runs": [
  {"name": "unlink", "mode": "proof", "defs": ["T_UNLINK"], "rename": {"conn.c": ["queue_element_free"]}, "unwind": 4, "timeout": 100},
  {"name": "loop", "mode": "proof", "defs": ["T_LOOP"], "annotate": {"event.c": {"xmpp_run_once": 5}}, "unwind": 4, "timeout": 150}
 ]}
*/
#include "vf.h"
#include "strophe.h"
#include "common.h"
#include "tls.h"
#include <sys/select.h>
static xmpp_ctx_t CX;
static xmpp_conn_t CN;
static xmpp_sm_state_t SS;
static xmpp_connlist_t CL;
void strophe_debug(const xmpp_ctx_t *c, const char *a, const char *f, ...) { (void)c; (void)a; (void)f; }
void strophe_error(const xmpp_ctx_t *c, const char *a, const char *f, ...) { (void)c; (void)a; (void)f; }
void strophe_warn(const xmpp_ctx_t *c, const char *a, const char *f, ...) { (void)c; (void)a; (void)f; }
void strophe_info(const xmpp_ctx_t *c, const char *a, const char *f, ...) { (void)c; (void)a; (void)f; }
#undef strophe_debug_verbose
#define strophe_debug_verbose(...) ((void)0)
#ifdef T_UNLINK
/* any place in the queue: A and B are the neighbours of the element X, F and L its ends where these are others */
static xmpp_send_queue_t F, A, X, B, L; static char TX; static int n_free, n_w, w_ret, is_rec, w_err;
static char BUF[4]; static size_t w_len;
char *queue_element_free(xmpp_ctx_t *c, xmpp_send_queue_t *e) { VF_ASSERT(c == &CX && e == &X && !n_free, "C06,C12: another element is released"); n_free++; return &TX; }
static int do_write(struct conn_interface *i, const void *b, size_t n) { VF_ASSERT(i == &CN.intf && b == BUF && n == w_len && !n_w, "C06: not what was asked for is written"); n_w++; return w_ret; }
static int do_rec(struct conn_interface *i, int e) { VF_ASSERT(i == &CN.intf && e == w_err, "C06: another error"); return is_rec; }
static int do_err(struct conn_interface *i) { VF_ASSERT(i == &CN.intf, "C06: another connection"); return w_err; }
#include "conn.c"
void harness(void)
{
    int pa = nd_range(0, 2), nb = nd_range(0, 2), len = nd_int(), ul = nd_int(), e0; char *t;
    CN.ctx = &CX; n_free = n_w = 0;
    if (nd_bool()) {
        w_ret = nd_int(); is_rec = nd_bool(); w_err = nd_int(); w_len = nd_size(); e0 = CN.error = nd_int();
        CN.intf.write = do_write; CN.intf.error_is_recoverable = do_rec; CN.intf.get_error = do_err; CN.intf.conn = &CN;
        VF_ASSERT(conn_interface_write(&CN.intf, BUF, w_len) == w_ret && n_w == 1, "C06: result of a write");
        VF_ASSERT(CN.error == (w_ret < 0 && !is_rec ? w_err : e0), "C06: a failed write does not end the connection, or one that can be repeated does");
        VF_REACH_IF(w_ret < 0, "failing write");
        return;
    }
    VF_ASSUME(len >= 1 && ul >= 1);
    /* 0: X is the first, 1: A is the first, 2: F is the first, somewhere before A */
    X.prev = pa ? &A : NULL; X.next = nb ? &B : NULL; X.owner = nd_bool() ? XMPP_QUEUE_USER : nd_bool() ? XMPP_QUEUE_STROPHE : XMPP_QUEUE_SM_STROPHE;
    A.next = &X; A.prev = pa == 2 ? &F : NULL; B.prev = &X; B.next = nb == 2 ? &L : NULL; F.next = &A; L.prev = &B; F.prev = L.next = NULL;
    CN.send_queue_head = pa == 0 ? &X : pa == 1 ? &A : &F; CN.send_queue_tail = nb == 0 ? &X : nb == 1 ? &B : &L;
    CN.send_queue_len = len; CN.send_queue_user_len = ul;
    t = _drop_send_queue_element(&CN, &X);
    VF_ASSERT(t == &TX && n_free == 1, "C06,C12: the element is not handed over once");
    VF_ASSERT(CN.send_queue_len == len - 1 && CN.send_queue_user_len == ul - (X.owner == XMPP_QUEUE_USER), "C06: length of the queue");
    VF_ASSERT(CN.send_queue_head == (pa == 2 ? &F : pa == 1 ? &A : nb ? &B : NULL), "C06: first element of the queue");
    VF_ASSERT(CN.send_queue_tail == (nb == 2 ? &L : nb == 1 ? &B : pa ? &A : NULL), "C06: last element of the queue");
    if (pa) VF_ASSERT(A.next == (nb ? &B : NULL) && A.prev == (pa == 2 ? &F : NULL) && F.next == &A, "C06: an element before is lost");
    if (nb) VF_ASSERT(B.prev == (pa ? &A : NULL) && B.next == (nb == 2 ? &L : NULL) && L.prev == &B, "C06: an element behind is lost");
    VF_REACH_IF(pa == 2 && nb == 2, "in the middle");
}
#endif
#ifdef T_LOOP
/* ---- ghost: the send queue, gN elements were queued, gp of them have left; element k is E[k % 2] ---- */
static int gN, gp;
static size_t gw;          /* bytes of the front element the transport has taken */
static int gdone, gstop;   /* the front element is completely written; the transport took less than offered */
static int fdata, guser;   /* the text of the front element is released; elements of the user in the queue */
static uint32_t gsent;     /* number of the next stanza */
static xmpp_send_queue_t E[2], LAST;
static char *D[2];         /* text of element k is D[k % 2] */
static int n_flush, n_disc, n_write, pend_bad, had_tls;
#define FRONT (gp < gN ? &E[gp & 1] : (xmpp_send_queue_t *)0)
#define SECOND (gp + 1 < gN ? &E[(gp + 1) & 1] : (xmpp_send_queue_t *)0)
#define OKQ (CN.send_queue_head == FRONT && (CN.send_queue_tail == NULL) == (gp == gN) && CN.send_queue_len == gN - gp && CN.send_queue_user_len == guser)
#define OKE(k) (E[(k) & 1].data == D[(k) & 1] && E[(k) & 1].len < ((size_t)1 << 31))
static void any_elem(int k)
{
    xmpp_send_queue_t *e = &E[k & 1];
    e->data = D[k & 1]; e->len = nd_size(); e->owner = nd_bool() ? XMPP_QUEUE_USER : nd_bool() ? XMPP_QUEUE_STROPHE : XMPP_QUEUE_SM_STROPHE;
    e->userdata = NULL; e->written = 0; e->wip = 0; e->prev = NULL; e->sm_h = nd_u32();
    VF_ASSUME(e->len < ((size_t)1 << 31));
}
static void link_(void)
{
    if (gp < gN) E[gp & 1].next = SECOND;
}
static void repoint(void)
{
    VF_ASSERT(CN.send_queue_head == FRONT, "C06: front of the queue");
    CN.send_queue_head = FRONT;
    if (gp < gN) { VF_ASSERT(E[gp & 1].next == SECOND && E[gp & 1].data == D[gp & 1], "C06: queue"); E[gp & 1].next = SECOND; E[gp & 1].data = D[gp & 1]; }
    if (gp + 1 < gN) { VF_ASSERT(E[(gp + 1) & 1].data == D[(gp + 1) & 1], "C06: queue"); E[(gp + 1) & 1].data = D[(gp + 1) & 1]; }
}
/* the front element has left: the window moves */
static void gone(void)
{
    if (E[gp & 1].owner & XMPP_QUEUE_USER) guser--;
    gp++; gw = 0; gdone = 0; fdata = 0;
    if (gp + 1 < gN) any_elem(gp + 1);
    link_();
}
int conn_interface_write(struct conn_interface *i, const void *b, size_t n)
{
    int r = nd_int();
    VF_ASSERT(i == &CN.intf, "C06: another connection");
    VF_ASSERT(!gstop, "C06: written again although the transport takes no more");
    VF_ASSERT(gp < gN && !gdone, "C06: an element is written again");
    VF_ASSERT(b == D[gp & 1] + gw && n == E[gp & 1].len - gw, "C06: not the rest of the oldest element is written");
    VF_ASSUME(r >= -1 && r <= (int)n);
    if (r > 0) gw += (size_t)r;
    if (r == (int)n) gdone = 1; else gstop = 1;
    if (r < 0 && nd_bool()) CN.error = 1;
    n_write = 1;
    return r;
}
void strophe_free(const xmpp_ctx_t *c, void *p)
{
    (void)c;
    VF_ASSERT(gp < gN && gdone, "C06: an element is released that is not completely written");
    VF_ASSERT((E[gp & 1].owner & XMPP_QUEUE_SM) || !SS.sm_enabled, "C04: a stanza is released before it is acknowledged");
    if (!fdata) { VF_ASSERT(p == D[gp & 1], "C12: something else is released"); fdata = 1; }
    else { VF_ASSERT(p == &E[gp & 1], "C12: something else is released"); gone(); }
}
void add_queue_back(xmpp_queue_t *q, xmpp_send_queue_t *e)
{
    VF_ASSERT(q == &SS.sm_queue && gp < gN && e == &E[gp & 1] && gdone && !fdata, "C04: retained before it is written");
    VF_ASSERT(!(e->owner & XMPP_QUEUE_SM) && SS.sm_enabled, "C04: something is retained that is not counted");
    VF_ASSERT(e->sm_h == gsent, "C04: the number of a stanza");
    gsent++;
    gone();
}
/* the callback may queue and drop */
void trigger_sm_callback(xmpp_conn_t *c)
{
    int more = nd_int();
    VF_ASSERT(c == &CN && OKQ && SS.sm_sent_nr == gsent && !gdone, "C06,C04: the callback sees an inconsistent queue");
    VF_ASSERT(gp >= gN || (E[gp & 1].prev == NULL && E[gp & 1].next == SECOND), "C06: the front of the queue has a predecessor");
    VF_ASSUME(more >= 0 && more < 1000 && gN < (1 << 30));
    if (gp < gN && nd_bool()) { gone(); }
    if (more) {
        int old = gN;
        gN += more;
        if (gp >= old) any_elem(gp);
        if (gp + 1 >= old && gp + 1 < gN) any_elem(gp + 1);
        link_();
        guser = nd_int();
    }
    CN.send_queue_head = FRONT; CN.send_queue_tail = gp == gN ? NULL : gp + 1 == gN ? FRONT : gp + 2 == gN ? SECOND : &LAST;
    if (gp < gN) E[gp & 1].prev = NULL;
    CN.send_queue_len = gN - gp; CN.send_queue_user_len = guser;
}
int tls_clear_pending_write(struct conn_interface *i) { VF_ASSERT(i == &CN.intf && had_tls, "C06: no TLS"); pend_bad = nd_bool(); return pend_bad ? -1 : nd_range(0, 1); }
int tls_error(struct conn_interface *i) { (void)i; return nd_int(); }
static int rec;
int tls_is_recoverable(struct conn_interface *i, int e) { (void)i; (void)e; rec = nd_bool(); return rec; }
static int do_flush(struct conn_interface *i)
{
    VF_ASSERT(i == &CN.intf, "C06: another connection");
    VF_ASSERT(OKQ && SS.sm_sent_nr == gsent && !gdone, "C06: the queue after sending");
    VF_ASSERT(gp == gN || gstop, "C06: stops although the transport takes more");
    if (gp < gN) {
        VF_ASSERT(E[gp & 1].written == gw && gw <= E[gp & 1].len && E[gp & 1].data == D[gp & 1], "C06: what is left of an element");
        VF_ASSERT(E[gp & 1].wip, "C06: an element that was started can be dropped");
    }
    n_flush++;
    VF_REACH_IF(gp == gN && gp > 2, "everything sent");
    VF_REACH_IF(gp < gN && gp > 2 && gw > 0, "partial");
    VF_REACH_IF(SS.sm_enabled && gsent > 3 && CN.error, "retained, then failed");
    return 0;
}
void conn_disconnect(xmpp_conn_t *c) { VF_ASSERT(c == &CN, "C06: another connection"); n_disc++; }
uint64_t handler_fire_timed(xmpp_ctx_t *c)
{
    (void)c;
    VF_ASSERT(n_flush <= 1, "C06: flushed twice");
    if (CN.state == XMPP_STATE_CONNECTED && !(had_tls && pend_bad && !rec)) {
        VF_ASSERT(n_flush == 1, "C06: queued data is not sent");
        VF_ASSERT(!CN.error == !n_disc, "C06: a failed connection goes on");
    } else VF_ASSERT(!n_write && (CN.state != XMPP_STATE_CONNECTED || n_disc), "C06: written although the connection is down");
    VF_ASSUME(0); /* the rest of the iteration is not about the queue */
    return 0;
}
#define LC_xmpp_run_once_1
#define LC_xmpp_run_once_3
#define LB_xmpp_run_once_3
#define LC_xmpp_run_once_4
#define LB_xmpp_run_once_4
#define LC_xmpp_run_once_5
#define LB_xmpp_run_once_5
#define LB_xmpp_run_once_1
#define LC_xmpp_run_once_2 __CPROVER_assigns(sq, tsq, ret, towrite, gp, gN, gw, gdone, gstop, fdata, guser, gsent, n_write, E, CN.send_queue_head, CN.send_queue_tail, CN.send_queue_len, CN.send_queue_user_len, CN.error, SS.sm_sent_nr) \
    __CPROVER_loop_invariant(gN >= 0 && gN < (1 << 30) + 1000 && gp >= 0 && gp <= gN && sq == FRONT && OKQ && SS.sm_sent_nr == gsent && !gdone && !gstop && !fdata) \
    __CPROVER_loop_invariant(gp >= gN || (OKE(gp) && E[gp & 1].next == SECOND && E[gp & 1].written == gw && gw <= E[gp & 1].len)) \
    __CPROVER_loop_invariant(gp + 1 >= gN || (OKE(gp + 1) && E[(gp + 1) & 1].written == 0))
#define LB_xmpp_run_once_2 repoint(); VF_ASSERT(sq == FRONT, "C06: front of the queue"); sq = FRONT;
#include "event.c"
void harness(void)
{
    gp = 0; gN = nd_int(); VF_ASSUME(gN >= 0 && gN < (1 << 30)); gdone = gstop = fdata = 0; guser = nd_int(); gsent = nd_u32(); n_flush = n_disc = n_write = pend_bad = rec = 0;
    D[0] = malloc((size_t)1 << 31); D[1] = malloc((size_t)1 << 31); VF_ASSUME(D[0] && D[1]);
    any_elem(0); any_elem(1);
    E[0].written = nd_size(); VF_ASSUME(E[0].written <= E[0].len); E[0].wip = E[0].written ? 1 : nd_bool(); gw = E[0].written;
    E[1].next = NULL; link_();
    CX.loop_status = XMPP_LOOP_RUNNING; CX.connlist = &CL; CL.conn = &CN; CL.next = NULL;
    CN.ctx = &CX; CN.state = nd_bool() ? XMPP_STATE_CONNECTED : XMPP_STATE_DISCONNECTED; CN.sm_state = &SS; SS.ctx = &CX; SS.sm_enabled = nd_bool(); SS.sm_sent_nr = gsent;
    CN.intf.flush = do_flush; CN.intf.conn = &CN; CN.error = 0; CN.reset_parser = 0; had_tls = nd_bool(); CN.tls = had_tls ? (tls_t *)D[0] : NULL;
    CN.send_queue_head = FRONT; CN.send_queue_tail = gN == 0 ? NULL : gN == 1 ? &E[0] : gN == 2 ? &E[1] : &LAST; CN.send_queue_len = gN; CN.send_queue_user_len = guser;
    xmpp_run_once(&CX, 0);
}
#endif
