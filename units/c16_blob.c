/*@unit
{"props": ["C16", "C12"],
 "functions": ["sm_state_serialize", "trigger_sm_callback", "xmpp_conn_set_sm_callback", "xmpp_conn_restore_sm_state", "sm_load_u32", "sm_load_string", "sm_store_u32", "xmpp_free_sm_state", "reset_sm_state", "_free_send_queue", "xmpp_conn_send_queue_drop_element", "_conn_sm_handle_stanza"],
 "assumptions": ["the transport is a stand-in that takes any prefix of what it is offered", "texts with an embedded zero byte may be accepted or refused (the library never produces one)"],
 "lib": true, "libs": ["-lexpat", "-lz", "-lssl", "-lcrypto"], "rename": {"util.c": ["time_stamp"]},
 "runs": [
  {"name": "trip", "mode": "bounded", "engine": "enum", "split": 3, "defs": ["TRIP", "NOPS=3", "NUSE=1"], "timeout": 200, "covers": ["restored", "unsent", "unacked", "acked", "dropped", "rewritten"], "bound": "every history of 3 operations (queue by user or library with texts of 1, 2, 300 and 70000 bytes, write nothing/part/all, stanza or acknowledgement received, drop) from 4 counter/id settings, the blob handed out last restored, 1 operation on the restored connection"},
  {"name": "mutate", "mode": "bounded", "engine": "enum", "split": 3, "defs": ["MUT", "NOPS=3"], "timeout": 200, "covers": ["refused", "accepted"], "bound": "the blobs of 6 states; every truncation, extension by 1..6 bytes, every byte replaced by one of 8 values, every length or counter field replaced by one of 12 values; then reuse, reconnect or release"},
  {"name": "fuzz", "mode": "bounded", "engine": "sample", "samples": 400000, "defs": ["MUT", "FUZZ", "NOPS=3"], "timeout": 120, "covers": ["refused", "accepted"], "bound": "sampled: up to 4 simultaneous mutations (bytes, fields, cut, inserted, repeated parts)"},
  {"name": "trip_long", "mode": "bounded", "engine": "sample", "samples": 30000, "defs": ["TRIP", "NOPS=16", "NUSE=8"], "timeout": 120, "covers": ["restored", "unsent", "unacked", "acked", "dropped", "rewritten"], "bound": "sampled: 16 operations, 8 on the restored connection"},
  {"name": "trip4", "mode": "bounded", "engine": "enum", "tier": "thorough", "split": 3, "workers": 8, "partial": true, "defs": ["TRIP", "NOPS=4", "NUSE=2"], "timeout": 700, "covers": ["restored", "unsent", "unacked", "acked", "dropped", "rewritten"], "bound": "4 operations, 2 on the restored connection"}
 ]}
*/
#include "vf.h"
#include "strophe.h"
#include "common.h"
#include "parser.h"
#include "nctx.h"
#include <sys/select.h>
#include <sys/socket.h>
#include <netdb.h>
#include <errno.h>
#include <arpa/inet.h>
uint64_t time_stamp(void) { return 1000; }
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
    (void)n; (void)e; (void)t;
    FD_ZERO(r); FD_ZERO(w);
    return 0;
}
/* no network: every connection attempt fails at once */
int getaddrinfo(const char *n, const char *s, const struct addrinfo *h, struct addrinfo **r)
{
    (void)n; (void)s; (void)h; *r = NULL;
    return EAI_NONAME;
}
void freeaddrinfo(struct addrinfo *a) { (void)a; }

/* ---- what a blob means (independent of the library) ---- */
#define NI 48
struct item { uint32_t h; const unsigned char *t; size_t n; };
struct blob { uint32_t sent, handled; const unsigned char *id; size_t idn; int ns, nu; struct item s[NI], u[NI]; int big, zero; };
static struct { const unsigned char *p; size_t n; int ok; } R;
static uint32_t r32(int tag)
{
    uint32_t v;
    if (!R.ok || R.n < 5 || R.p[0] != tag) { R.ok = 0; return 0; }
    v = (uint32_t)R.p[1] << 24 | (uint32_t)R.p[2] << 16 | (uint32_t)R.p[3] << 8 | R.p[4];
    R.p += 5; R.n -= 5;
    return v;
}
static const unsigned char *rstr(size_t *n)
{
    const unsigned char *s;
    uint32_t l = r32(0x7a);
    if (!R.ok || R.n < l) { R.ok = 0; *n = 0; return NULL; }
    s = R.p; *n = l; R.p += l; R.n -= l;
    return s;
}
static int blob_parse(struct blob *b, const unsigned char *p, size_t n)
{
    uint32_t i, k;
    memset(b, 0, sizeof(*b));
    R.p = p; R.n = n; R.ok = 1;
    if (r32(0x1a) != 0) return 0;
    b->sent = r32(0x1a); b->handled = r32(0x1a); b->id = rstr(&b->idn);
    if (!R.ok || memchr(b->id, 0, b->idn)) return 0;
    k = r32(0x9a);
    for (i = 0; R.ok && i < k; i++) {
        struct item it = {0};
        it.t = rstr(&it.n);
        if (R.ok && memchr(it.t, 0, it.n)) b->zero = 1;
        if (b->ns < NI) b->s[b->ns++] = it; else b->big = 1;
    }
    k = r32(0xba);
    for (i = 0; R.ok && i < k; i++) {
        struct item it = {0};
        it.h = r32(0x1a); it.t = rstr(&it.n);
        if (R.ok && memchr(it.t, 0, it.n)) b->zero = 1;
        if (b->nu < NI) b->u[b->nu++] = it; else b->big = 1;
    }
    return R.ok && R.n == 0;
}
/* ---- the state at the time of the last callback ---- */
struct snap { uint32_t sent, handled; char *id; int ns, nu; struct { char *t; size_t n; uint32_t h; int user; } s[NI], u[NI]; };
static struct snap S;
static unsigned char *last; static size_t lastn; static int ncb;
static char *keep(const char *t, size_t n)
{
    char *r = malloc(n + 1);
    vf_track(r);
    memcpy(r, t, n); r[n] = 0;
    return r;
}
static void snapshot(xmpp_conn_t *c)
{
    xmpp_send_queue_t *e;
    S.ns = S.nu = 0;
    S.sent = c->sm_state->sm_sent_nr; S.handled = c->sm_state->sm_handled_nr;
    S.id = c->sm_state->id ? keep(c->sm_state->id, strlen(c->sm_state->id)) : NULL;
    for (e = c->send_queue_head; e; e = e->next) { VF_ASSUME(S.ns < NI); S.s[S.ns].t = keep(e->data, e->len); S.s[S.ns].user = e->owner == XMPP_QUEUE_USER; S.s[S.ns++].n = e->len; }
    for (e = c->sm_state->sm_queue.head; e; e = e->next) { VF_ASSUME(S.nu < NI); S.u[S.nu].t = keep(e->data, e->len); S.u[S.nu].h = e->sm_h; S.u[S.nu++].n = e->len; }
}
static void on_sm(xmpp_conn_t *c, void *ud, const unsigned char *b, size_t n)
{
    ncb++;
    VF_ASSERT(ud == &S, "C16: the callback's context is not passed on");
    VF_ASSERT((b == NULL) == (n == 0), "C16: blob and size do not agree");
    if (!b) { last = NULL; lastn = 0; return; }
    last = malloc(n); vf_track(last);
    memcpy(last, b, n); lastn = n;
    snapshot(c);
}
/* ---- transport ---- */
static char wire[1 << 19]; static size_t wn;
static int mode_w; /* 0 nothing, 1 one byte less or one byte, 2 everything */
static int w_write(struct conn_interface *i, const void *b, size_t n)
{
    (void)i;
    if (mode_w == 0) { errno = EAGAIN; return -1; }
    if (mode_w == 1) { mode_w = 0; n = n > 1 ? n - 1 : n; }
    VF_ASSUME(wn + n < sizeof(wire));
    memcpy(wire + wn, b, n); wn += n;
    return (int)n;
}
static int w_nop(struct conn_interface *i) { (void)i; return 0; }
static int w_err(struct conn_interface *i) { (void)i; return errno; }
static int w_rec(struct conn_interface *i, int e) { (void)i; return e == EAGAIN; }
static int w_read(struct conn_interface *i, void *b, size_t n) { (void)i; (void)b; (void)n; errno = EAGAIN; return -1; }
static void ev(xmpp_conn_t *c, xmpp_conn_event_t e, int x, xmpp_stream_error_t *se, void *u) { (void)c; (void)e; (void)x; (void)se; (void)u; }
static void plug(xmpp_conn_t *c)
{
    c->state = XMPP_STATE_CONNECTED;
    c->type = XMPP_CLIENT;
    c->stream_negotiation_completed = 1;
    c->conn_handler = ev;
    c->sock = 5;
    c->intf.read = w_read; c->intf.write = w_write; c->intf.flush = w_nop; c->intf.pending = w_nop;
    c->intf.get_error = w_err; c->intf.error_is_recoverable = w_rec; c->intf.conn = c;
    c->open_handler = NULL;
}
static void unplug(xmpp_conn_t *c) { c->sock = -1; c->state = XMPP_STATE_DISCONNECTED; }
static void open_nop(xmpp_conn_t *c) { (void)c; }
static void feed(xmpp_conn_t *c, const char *t)
{
    char b[256];
    c->open_handler = open_nop;
    parser_reset(c->parser);
    snprintf(b, sizeof(b), "<stream:stream xmlns='jabber:client' xmlns:stream='http://etherx.jabber.org/streams' id='1' from='d'>%s", t);
    parser_feed(c->parser, b, (int)strlen(b));
}
static int serial;
static char big[70100];
static void op(xmpp_conn_t *c, int k)
{
    static const int len[] = {1, 2, 300, 70000};
    int n;
    char *d, t[64];
    switch (k) {
    case 0: case 1:
        n = len[nd_range(0, 3)];
        memset(big, 'x', n);
        memcpy(big, "u\x9a\xba\x7a", n < 4 ? n : 4);
        big[0] = 'A' + serial++ % 26;
        big[n] = 0;
        if (k == 0) xmpp_send_raw(c, big, n);
        else send_raw(c, big, n, XMPP_QUEUE_STROPHE, NULL);
        break;
    case 2:
        mode_w = nd_range(0, 2);
        xmpp_run_once(c->ctx, 0);
        break;
    case 3: feed(c, "<message/>"); break;
    case 4:
        n = (int)(c->sm_state->sm_sent_nr - (unsigned)nd_range(0, 1));
        snprintf(t, sizeof(t), "<a xmlns='urn:xmpp:sm:3' h='%u'/>", (unsigned)n);
        feed(c, t);
        break;
    case 5:
        d = xmpp_conn_send_queue_drop_element(c, nd_range(0, 1) ? XMPP_QUEUE_OLDEST : XMPP_QUEUE_YOUNGEST);
        if (d) xmpp_free(c->ctx, d);
        break;
    }
}
static xmpp_conn_t *start(xmpp_ctx_t *ctx, uint32_t sent, uint32_t handled, const char *id)
{
    xmpp_conn_t *c = xmpp_conn_new(ctx);
    VF_ASSUME(c != NULL);
    plug(c);
    c->sm_state = strophe_alloc(ctx, sizeof(*c->sm_state));
    memset(c->sm_state, 0, sizeof(*c->sm_state));
    c->sm_state->ctx = ctx;
    c->sm_state->sm_support = c->sm_state->sm_enabled = c->sm_state->can_resume = c->sm_state->resume = 1;
    c->sm_state->sm_sent_nr = sent; c->sm_state->sm_handled_nr = handled;
    c->sm_state->id = strophe_strdup(ctx, id);
    xmpp_conn_set_sm_callback(c, on_sm, &S);
    return c;
}
static void stop(xmpp_conn_t *c) { unplug(c); xmpp_conn_release(c); }
/* the state of a disconnected connection equals a blob */
static void same(xmpp_conn_t *c, struct blob *b)
{
    xmpp_send_queue_t *e, *p;
    int i;
    xmpp_sm_state_t *s = c->sm_state;
    VF_ASSERT(s != NULL, "C16: no state after a successful restore");
    if (!s) return;
    VF_ASSERT(s->sm_sent_nr == b->sent && s->sm_handled_nr == b->handled, "C16: counters differ after restoring");
    VF_ASSERT(s->id && strlen(s->id) == b->idn && !memcmp(s->id, b->id, b->idn), "C16: the session id differs after restoring");
    if (b->big) return;
    for (i = 0, p = NULL, e = c->send_queue_head; e; p = e, e = e->next, i++) {
        VF_ASSERT(i < b->ns && e->len == b->s[i].n && !memcmp(e->data, b->s[i].t, e->len), "C16: the unsent queue differs after restoring");
        if (i >= b->ns) return;
        VF_ASSERT(e->prev == p && e->written == 0, "C16: the restored unsent queue is not well formed");
    }
    VF_ASSERT(i == b->ns && c->send_queue_tail == p, "C16: the unsent queue differs after restoring");
    VF_ASSERT(c->send_queue_len == b->ns, "C16: wrong length of the restored unsent queue");
    for (i = 0, p = NULL, e = s->sm_queue.head; e; p = e, e = e->next, i++) {
        VF_ASSERT(i < b->nu && e->sm_h == b->u[i].h && e->len == b->u[i].n && !memcmp(e->data, b->u[i].t, e->len), "C16: the unacknowledged queue differs after restoring");
        if (i >= b->nu) return;
        VF_ASSERT(e->prev == p, "C16: the restored unacknowledged queue is not well formed");
    }
    VF_ASSERT(i == b->nu && s->sm_queue.tail == p, "C16: the unacknowledged queue differs after restoring");
}
#ifdef TRIP
/* the blob is the state it was made from */
static void blob_is_snap(struct blob *b)
{
    int i;
    VF_ASSERT(b->sent == S.sent && b->handled == S.handled && S.id && b->idn == strlen(S.id) && !memcmp(b->id, S.id, b->idn) && b->ns == S.ns && b->nu == S.nu, "C16: the blob is not the state");
    for (i = 0; i < S.ns && i < b->ns; i++) VF_ASSERT(b->s[i].n == S.s[i].n && !memcmp(b->s[i].t, S.s[i].t, S.s[i].n), "C16: the blob's unsent queue is not the state's");
    for (i = 0; i < S.nu && i < b->nu; i++) VF_ASSERT(b->u[i].h == S.u[i].h && b->u[i].n == S.u[i].n && !memcmp(b->u[i].t, S.u[i].t, S.u[i].n), "C16: the blob's unacknowledged queue is not the state's");
}
void harness(void)
{
    static const struct { uint32_t s, h; const char *id; } st[] = {
        {0, 0, "i"}, {1, 0xffffffffu, "some-id-\xc3\xa4-0123456789abcdef"}, {0x7ffffffeu, 0x1a7a9abau, ""}, {0xfffffff0u, 0x80000000u, "\x7a\x1a"}};
    xmpp_ctx_t *ctx = vf_ctx();
    int i, k, n, nuser = 0;
    struct blob b, b2;
    xmpp_conn_t *c, *d;
    char *t;
    k = nd_range(0, 3);
    c = start(ctx, st[k].s, st[k].h, st[k].id);
    for (i = 0; i < NOPS; i++) op(c, nd_range(0, 5));
    VF_ASSUME(last != NULL);
    VF_ASSERT(blob_parse(&b, last, lastn), "C16: the blob is not in the documented form");
    blob_is_snap(&b);
    for (i = 0; i < S.ns; i++) nuser += S.s[i].user;
    stop(c);
    d = xmpp_conn_new(ctx);
    n = xmpp_conn_restore_sm_state(d, last, lastn);
    VF_ASSERT(n == XMPP_EOK, "C16: a blob of the library is refused");
    same(d, &b);
    if (b.ns) VF_REACH("unsent");
    if (b.nu) VF_REACH("unacked");
    VF_REACH("restored");
    n = xmpp_conn_send_queue_len(d);
    VF_ASSERT(n >= nuser && n <= S.ns, "C16: wrong length of the restored queue");
    VF_ASSERT(xmpp_conn_restore_sm_state(d, last, lastn) < 0, "C16: a second restore is accepted");
    same(d, &b);
    /* the restored queues behave like native ones */
    k = nd_range(0, 3);
    if (k == 0) { /* drop while offline */
        int from = 0, to = S.ns;
        for (;;) {
            int old = nd_range(0, 1), q;
            t = xmpp_conn_send_queue_drop_element(d, old ? XMPP_QUEUE_OLDEST : XMPP_QUEUE_YOUNGEST);
            if (!t) break;
            VF_REACH("dropped");
            /* the next one from that side; the library's own may be skipped */
            for (q = old ? from : to - 1; q >= from && q < to; q += old ? 1 : -1) {
                if (!strcmp(t, S.s[q].t)) break;
                VF_ASSERT(!S.s[q].user, "C16: dropping from the restored queue passes over a user's element");
                if (S.s[q].user) { xmpp_free(ctx, t); goto out; }
            }
            VF_ASSERT(q >= from && q < to, "C16: dropping from the restored queue returns something else");
            if (old) from = q + 1; else to = q;
            xmpp_free(ctx, t);
        }
        for (; from < to; from++) VF_ASSERT(!S.s[from].user, "C16: an element of the restored queue cannot be dropped");
        VF_ASSERT(xmpp_conn_send_queue_len(d) == 0, "C16: wrong length of the emptied restored queue");
    } else if (k == 1) { /* acknowledge, write, send more */
        char a[64];
        int left;
        size_t exp = 0;
        plug(d);
        xmpp_conn_set_sm_callback(d, on_sm, &S);
        if (b.nu) {
            left = nd_range(0, b.nu > 2 ? 2 : b.nu);
            if (b.u[b.nu - 1].h != 0xffffffffu) {
                snprintf(a, sizeof(a), "<a xmlns='urn:xmpp:sm:3' h='%u'/>", left == 0 ? b.u[b.nu - 1].h + 1 : b.u[b.nu - left].h);
                feed(d, a);
                if (left < b.nu) VF_REACH("acked");
                for (i = 0; i < left; i++) b2.u[i] = b.u[b.nu - left + i];
                memcpy(b.u, b2.u, sizeof(b.u[0]) * left); b.nu = left;
                same(d, &b);
            }
        }
        wn = 0; mode_w = 2;
        { /* (owned by the user, counted while it is written) */
            int sent0 = b.nu;
            xmpp_run_once(ctx, 0);
            for (i = 0; i < b.ns; i++) { VF_ASSERT(wn >= exp + b.s[i].n && !memcmp(wire + exp, b.s[i].t, b.s[i].n), "C16: the restored unsent queue is not written in order"); exp += b.s[i].n; }
            VF_ASSERT(exp == wn, "C16: something else than the restored unsent queue is written");
            VF_ASSERT(xmpp_conn_send_queue_len(d) == 0 && d->send_queue_head == NULL && d->send_queue_tail == NULL, "C16: the restored queue does not get empty");
            (void)sent0;
            if (b.ns) VF_REACH("rewritten");
        }
        for (i = 0; i < NUSE; i++) op(d, nd_range(0, 5));
        wn = 0; mode_w = 2;
        last = NULL;
        xmpp_send_raw(d, "end", 3);
        VF_ASSERT(last != NULL && blob_parse(&b2, last, lastn), "C16: no valid blob from a restored connection");
        if (last) { blob_is_snap(&b2); VF_ASSERT(b2.ns >= 1 && b2.s[b2.ns - 1].n >= 3, "C16: a new element is not last in the restored queue"); }
        unplug(d);
    } else if (k == 2) { /* hand the state over, connect */
        xmpp_sm_state_t *s = xmpp_conn_get_sm_state(d);
        VF_ASSERT(s != NULL && d->sm_state == NULL, "C16: the restored state cannot be taken");
        VF_ASSERT(xmpp_conn_set_sm_state(d, s) == XMPP_EOK, "C16: the restored state cannot be set");
        same(d, &b);
        xmpp_conn_set_jid(d, "u@d"); xmpp_conn_set_pass(d, "p");
        n = xmpp_connect_client(d, "h", 1, ev, NULL);
        VF_ASSERT(n != XMPP_EOK, "C16,C13: connecting without a network succeeds");
        VF_ASSERT(xmpp_conn_is_disconnected(d), "C16,C13: not disconnected after a failed attempt");
    }
out:
    stop(d);
    xmpp_ctx_free(ctx);
    VF_ASSERT(vf_live == 0, "C16,C12: something is not released");
}
#else
static unsigned char *M; static size_t mn;
static void put32(size_t at, uint32_t v) { M[at] = v >> 24; M[at + 1] = v >> 16; M[at + 2] = v >> 8; M[at + 3] = v; }
static void mutate(void)
{
    static const uint32_t fv[] = {0, 1, 2, 3, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu, 0xfffffffbu, 0x10000, 5, 10};
    unsigned char *q;
    size_t at, k, n;
    switch (nd_range(0, 3)) {
    case 0: /* cut */
        k = nd_size_max(mn - 1); mn = k; break;
    case 1: /* extend */
        n = (size_t)nd_range(1, 6); k = (size_t)nd_range(0, 3);
        q = malloc(mn + n); vf_track(q);
        memcpy(q, M, mn);
        memset(q + mn, k == 0 ? 0 : k == 1 ? 0xff : 0x7a, n);
        if (k == 3) { memcpy(q + mn, "\x9a\0\0\0\0\xba", n); }
        M = q; mn += n; break;
    case 2: /* one byte */
        at = nd_size_max(mn - 1);
        k = (size_t)nd_range(0, 7);
        { static const int to[] = {0, 0xff, 0x1a, 0x7a, 0x9a, 0xba};
          unsigned char v = k < 6 ? to[k] : k == 6 ? M[at] ^ 1 : M[at] + 1;
          M[at] = v; }
        break;
    case 3: /* a 32 bit field anywhere */
        if (mn < 5) return;
        at = nd_size_max(mn - 5);
        VF_ASSUME(M[at] == 0x1a || M[at] == 0x7a || M[at] == 0x9a || M[at] == 0xba);
        put32(at + 1, fv[nd_range(0, 11)]);
        break;
    }
}
#ifdef FUZZ
static void mutate2(void)
{
    size_t at, n, to;
    unsigned char *q;
    if (mn < 2 || nd_range(0, 3)) { if (mn) mutate(); return; }
    /* remove, repeat or insert a part */
    at = (size_t)nd_range(0, (int)mn - 1); n = (size_t)nd_range(0, (int)(mn - at)); to = (size_t)nd_range(0, (int)mn);
    q = malloc(mn + n + 1); vf_track(q);
    if (nd_bool()) {
        memcpy(q, M, at); memcpy(q + at, M + at + n, mn - at - n);
        M = q; mn -= n;
    } else {
        memcpy(q, M, to); memcpy(q + to, M + at, n); memcpy(q + to + n, M + to, mn - to);
        M = q; mn += n;
    }
}
#endif
/* six states, the blob is made by the library */
static void base(xmpp_ctx_t *ctx, int k)
{
    static const char ops[6][8] = {"", "ss", "swss", "swsws", "ssw", "swm"};
    static int sz;
    xmpp_conn_t *c = start(ctx, (uint32_t)k * 0x40000000u, 7, k & 1 ? "" : "ident");
    const char *o;
    char t[8];
    for (o = ops[k]; *o; o++) {
        if (*o == 's') { sz++; memset(t, 'a' + sz, 7); t[k == 4 ? 1 : sz % 7] = 0; if (!t[0]) t[0] = 'z', t[1] = 0; send_raw(c, t, strlen(t), k == 3 ? XMPP_QUEUE_STROPHE : XMPP_QUEUE_USER, NULL); }
        if (*o == 'w') { mode_w = k == 4 ? 1 : 2; xmpp_run_once(ctx, 0); mode_w = 0; }
        if (*o == 'm') feed(c, "<message/>");
    }
    if (!last) trigger_sm_callback(c);
    VF_ASSERT(last != NULL, "C16: no blob");
    stop(c);
}
void harness(void)
{
    xmpp_ctx_t *ctx = vf_ctx();
    struct blob b;
    unsigned char *buf;
    int ok, rc, i;
    xmpp_conn_t *c;
    base(ctx, nd_range(0, 5));
    VF_ASSUME(last != NULL);
    M = malloc(lastn); vf_track(M);
    memcpy(M, last, lastn); mn = lastn;
#ifdef FUZZ
    for (i = nd_range(1, 4); i > 0; i--) mutate2();
#else
    mutate();
#endif
    ok = blob_parse(&b, M, mn);
    buf = malloc(mn ? mn : 1); vf_track(buf);
    memcpy(buf, M, mn);
    c = xmpp_conn_new(ctx);
    rc = xmpp_conn_restore_sm_state(c, buf, mn);
    VF_ASSERT(!memcmp(buf, M, mn), "C16: restoring writes to the buffer");
    VF_ASSERT(rc == XMPP_EOK || rc < 0, "C16: not an error code");
    if (!(ok && b.zero)) VF_ASSERT((rc == XMPP_EOK) == ok, "C16: another byte string than a state's is accepted, or a state's refused");
    if (rc == XMPP_EOK) { VF_REACH("accepted"); same(c, &b); }
    else {
        VF_REACH("refused");
        VF_ASSERT(c->sm_state == NULL, "C16: a refused restore leaves a state");
        VF_ASSERT(c->send_queue_head == NULL && c->send_queue_tail == NULL && c->send_queue_len == 0 && xmpp_conn_send_queue_len(c) == 0, "C16: a refused restore leaves elements in the queue");
        VF_ASSERT(xmpp_conn_is_disconnected(c), "C16: a refused restore changes the connection");
        VF_ASSERT(xmpp_conn_send_queue_drop_element(c, XMPP_QUEUE_OLDEST) == NULL, "C16: a refused restore leaves elements in the queue");
    }
    i = nd_range(0, 2);
    if (i == 1 && rc != XMPP_EOK) {
        VF_ASSERT(blob_parse(&b, last, lastn), "C16: not a blob");
        VF_ASSERT(xmpp_conn_restore_sm_state(c, last, lastn) == XMPP_EOK, "C16: nothing can be restored after a refused restore");
        same(c, &b);
    }
    if (i == 2) {
        xmpp_conn_set_jid(c, "u@d"); xmpp_conn_set_pass(c, "p");
        rc = xmpp_connect_client(c, "h", 1, ev, NULL);
        VF_ASSERT(rc != XMPP_EOK && xmpp_conn_is_disconnected(c), "C16: connecting after a restore goes wrong");
    }
    stop(c);
    xmpp_ctx_free(ctx);
    VF_ASSERT(vf_live == 0, "C16,C12: something is not released");
}
#endif
