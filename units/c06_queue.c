/*@unit
{"props": ["C06", "C12", "C01"],
 "functions": ["xmpp_run_once", "send_raw", "_send_raw", "xmpp_send_raw", "xmpp_conn_send_queue_len", "xmpp_conn_send_queue_drop_element", "_drop_send_queue_element", "queue_element_free", "conn_interface_write", "_free_send_queue"],
 "assumptions": ["the transport is a stand-in that takes any prefix of what it is offered"],
 "lib": true, "libs": ["-lexpat", "-lz", "-lssl", "-lcrypto"], "rename": {"util.c": ["time_stamp"]},
 "runs": [
  {"name": "ops5", "mode": "bounded", "engine": "enum", "split": 3, "defs": ["NOPS=5", "NWR=4"], "timeout": 240, "covers": ["dropped", "partial", "done"], "bound": "5 operations (queue by user or library, drop oldest or youngest, loop iteration), the first 4 writes accept nothing, a part or everything, with and without stream management"},
  {"name": "ops6", "mode": "bounded", "engine": "enum", "split": 4, "workers": 8, "defs": ["NOPS=6", "NWR=5"], "timeout": 120, "partial": true, "covers": ["dropped", "partial", "done"], "bound": "6 operations, 5 writes"},
  {"name": "long", "mode": "bounded", "engine": "sample", "samples": 300000, "defs": ["NOPS=30", "NWR=60"], "timeout": 240, "covers": ["dropped", "partial", "done"], "bound": "sampled: 30 operations, 60 writes"}
 ]}
*/
#include "vf.h"
#include "strophe.h"
#include "common.h"
#include "nctx.h"
#include <sys/select.h>
#include <sys/socket.h>
#include <errno.h>
uint64_t time_stamp(void) { return 1000; }
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
    (void)n; (void)e; (void)t;
    FD_ZERO(r); FD_ZERO(w);
    return 0;
}
/* ghost: the elements in the order they were queued */
#define NE 80
static struct { int user, rlink, gone; char t[64]; } G[NE];
static int ng, gcur, tried; /* first element not completely written, a write was attempted for it */
static size_t goff;
static char *wire; static size_t wn;
static char want[NE * 64]; static size_t wantn;
static int wr_left = NWR, alive = 1, hard;
static xmpp_conn_t *conn;
static int first(int from) { while (from < ng && G[from].gone) from++; return from; }

static int w_write(struct conn_interface *i, const void *b, size_t n)
{
    size_t k;
    (void)i;
    gcur = first(gcur);
    VF_ASSERT(gcur < ng, "C06: something is written that was not queued, or again");
    VF_ASSERT(n > 0, "C06: an empty write");
    VF_ASSERT(n <= strlen(G[gcur].t) - goff && !memcmp(b, G[gcur].t + goff, n), "C06: what is written is not the next byte of the oldest queued element");
    if (!wr_left) k = 4;
    else { wr_left--; k = (size_t)nd_range(0, 5); }
    tried = 1;
    if (k == 0) { errno = EAGAIN; return -1; }
    if (k == 1) n = 1;
    if (k == 2) n = (n + 1) / 2;
    if (k == 3 && n > 1) n = n - 1;
    if (k == 5) { hard = 1; errno = ECONNRESET; return -1; }
    memcpy(wire + wn, b, n); wn += n;
    goff += n;
    if (goff == strlen(G[gcur].t)) { goff = 0; gcur++; tried = 0; }
    else VF_REACH("partial");
    return (int)n;
}
static int w_nop(struct conn_interface *i) { (void)i; return 0; }
static int w_err(struct conn_interface *i) { (void)i; return errno; }
static int w_rec(struct conn_interface *i, int e) { (void)i; return e == EAGAIN; }
static int w_read(struct conn_interface *i, void *b, size_t n) { (void)i; (void)b; (void)n; errno = EAGAIN; return -1; }
static void ev(xmpp_conn_t *c, xmpp_conn_event_t e, int x, xmpp_stream_error_t *se, void *u)
{
    (void)c; (void)x; (void)se; (void)u;
    VF_ASSERT(e == XMPP_CONN_DISCONNECT && hard && alive, "C06,C13: wrong notification");
    alive = 0;
}
/* the queue holds exactly the ghost elements that are not completely written */
static void inv(void)
{
    xmpp_send_queue_t *e, *p = NULL;
    int g = first(gcur), nu = 0, nt = 0;
    for (e = conn->send_queue_head; e; p = e, e = e->next) {
        VF_ASSERT(g < ng && e->len == strlen(G[g].t) && !memcmp(e->data, G[g].t, e->len), "C06: the queue is not the elements waiting, in order");
        if (g >= ng) return;
        VF_ASSERT(e->prev == p, "C06: the queue is not linked backwards");
        nt++;
        if (G[g].user && !(g == first(gcur) && (goff || tried))) nu++;
        g = first(g + 1);
    }
    VF_ASSERT(g >= ng, "C06: a queued element is lost");
    VF_ASSERT(conn->send_queue_tail == p, "C06: the queue has a wrong tail");
    VF_ASSERT(conn->send_queue_len == nt, "C06: wrong number of queued elements");
    g = first(gcur);
    nt = xmpp_conn_send_queue_len(conn);
    VF_ASSERT(nt == nu || (g < ng && tried && !goff && G[g].user && nt == nu + 1), "C06: the reported queue length is not the number of the user's elements waiting");
}
static void g_add(int user, const char *t)
{
    VF_ASSUME(ng < NE);
    memset(&G[ng], 0, sizeof(G[0]));
    G[ng].user = user;
    snprintf(G[ng].t, sizeof(G[0].t), "%s", t);
    ng++;
}
/* the library may have asked for an acknowledgement after the element */
static void g_req(void)
{
    xmpp_send_queue_t *e = conn->send_queue_tail;
    if (alive && e && strstr(e->data, "urn:xmpp:sm:3") && strcmp(G[ng - 1].t, e->data)) {
        VF_ASSERT(conn->sm_state->sm_enabled, "C04: an acknowledgement is requested without stream management");
        g_add(0, e->data);
        G[ng - 1].rlink = 1;
    }
}
static void op(int k)
{
    char t[64];
    static int serial;
    int g, i, n;
    char *d;
    switch (k) {
    case 0: case 1:
        snprintf(t, sizeof(t), "%c%d%.*s", k ? 'l' : 'u', serial, 1 + serial % 3, "abc");
        serial++;
        if (k == 0) xmpp_send_raw(conn, t, strlen(t));
        else send_raw(conn, t, strlen(t), XMPP_QUEUE_STROPHE, NULL);
        if (alive) { n = ng; g_add(k == 0, t); (void)n; g_req(); }
        break;
    case 2: case 3:
        d = xmpp_conn_send_queue_drop_element(conn, k == 2 ? XMPP_QUEUE_OLDEST : XMPP_QUEUE_YOUNGEST);
        /* candidates: the user's, not started unless the connection is gone */
        n = -1;
        for (i = first(gcur); i < ng; i = first(i + 1)) {
            if (!G[i].user) continue;
            if (i == first(gcur) && (goff || tried) && alive) {
                /* nothing of it was accepted yet: may count as started or not */
                if (!goff && d && !strcmp(d, G[i].t)) { n = i; if (k == 2) break; }
                continue;
            }
            n = i;
            if (k == 2) break;
        }
        if (n < 0) { VF_ASSERT(d == NULL, "C06: an element is dropped that must not be dropped"); break; }
        VF_ASSERT(d != NULL, "C06: nothing is dropped although a user's element is waiting");
        if (!d) break;
        VF_ASSERT(!strcmp(d, G[n].t), "C06: not the oldest or youngest waiting element of the user is dropped, or not its text is returned");
        xmpp_free(conn->ctx, d);
        VF_REACH("dropped");
        G[n].gone = 1;
        if (n == gcur) { goff = 0; tried = 0; }
        /* the request that belongs to it goes, too */
        if (n + 1 < ng && G[n + 1].rlink) {
            xmpp_send_queue_t *e = conn->send_queue_head;
            g = 0;
            for (; e; e = e->next) g++;
            for (i = first(gcur), n++; i < ng; i = first(i + 1)) g--;
            if (g < 0) G[n].gone = 1;
        }
        break;
    case 4:
        xmpp_run_once(conn->ctx, 0);
        VF_ASSERT(!hard || !alive, "C06,C13: the connection lives on after the transport failed");
        break;
    }
    inv();
}
void harness(void)
{
    xmpp_ctx_t *ctx = vf_ctx();
    int i, g;
    wire = malloc(NE * 64); vf_track(wire);
    conn = xmpp_conn_new(ctx);
    VF_ASSUME(conn != NULL);
    conn->state = XMPP_STATE_CONNECTED;
    conn->type = XMPP_CLIENT;
    conn->stream_negotiation_completed = 1;
    conn->conn_handler = ev;
    conn->sm_state = strophe_alloc(ctx, sizeof(*conn->sm_state));
    memset(conn->sm_state, 0, sizeof(*conn->sm_state));
    conn->sm_state->ctx = ctx;
    conn->sm_state->sm_enabled = nd_range(0, 1);
    conn->sock = 5;
    conn->intf.read = w_read; conn->intf.write = w_write; conn->intf.flush = w_nop; conn->intf.pending = w_nop;
    conn->intf.get_error = w_err; conn->intf.error_is_recoverable = w_rec; conn->intf.conn = conn;
    for (i = 0; i < NOPS; i++) op(nd_range(0, 4));
    wr_left = 0;
    if (alive) {
        for (i = 0; i < 3; i++) op(4);
        for (g = 0; g < ng; g++) if (!G[g].gone) { size_t l = strlen(G[g].t); memcpy(want + wantn, G[g].t, l); wantn += l; }
        VF_ASSERT(wn == wantn && !memcmp(wire, want, wn), "C06: the bytes on the wire are not the queued elements in order");
        VF_ASSERT(conn->send_queue_head == NULL && xmpp_conn_send_queue_len(conn) == 0, "C06: elements stay in the queue");
        VF_REACH("done");
    }
    alive = 1; hard = 1;
    conn->sock = -1;
    xmpp_conn_release(conn);
    xmpp_ctx_free(ctx);
    VF_ASSERT(vf_live == 0, "C12: something is not released");
}
