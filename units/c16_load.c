/*@unit
{"props": ["C16"],
 "functions": ["sm_load_u32", "sm_load_string", "sm_store_u32", "sm_state_serialize", "xmpp_conn_restore_sm_state"],
 "assumptions": ["buffers below 2^40 bytes in the unbounded proofs", "in the proof of xmpp_conn_restore_sm_state a queue is represented by its first and its last element and the element being appended (the code reads no other); the release functions it calls on failure are replaced by their contracts (checked bounded in c16_blob)", "in the proof of sm_state_serialize a queue is a sequence of lengths read through one node that stands for the current element; the sum of its lengths is defined by its recurrence and monotone; texts below 2^32 and the id below 2^31 bytes (expat cannot deliver a longer one), fewer than 2^31 elements, all together below 2^44 bytes"],
 "runs": [
  {"name": "u32", "mode": "proof", "defs": ["T_U32"], "timeout": 120},
  {"name": "string", "mode": "proof", "defs": ["T_STR"], "cbmc": ["--sat-solver", "cadical"], "timeout": 200},
  {"name": "store", "mode": "proof", "defs": ["T_STORE"], "timeout": 120},
  {"name": "restore", "mode": "proof", "defs": ["T_RESTORE"], "annotate": {"conn.c": {"xmpp_conn_restore_sm_state": 2}}, "rename": {"conn.c": ["sm_load_u32", "sm_load_string", "_free_send_queue", "xmpp_free_sm_state"]}, "unwind": 6, "timeout": 200},
  {"name": "serialize", "mode": "proof", "defs": ["T_SER"], "annotate": {"conn.c": {"sm_state_serialize": 4}}, "rename": {"conn.c": ["sm_store_u32"]}, "cbmc": ["--sat-solver", "cadical"], "unwind": 6, "timeout": 200}
 ]}
*/
#include "vf.h"
#include "strophe.h"
#include "common.h"
#define MAXB ((size_t)1 << 40)
uint32_t ntohl(uint32_t x) { return x >> 24 | (x >> 8 & 0xff00) | (x << 8 & 0xff0000) | x << 24; }
uint32_t htonl(uint32_t x) { return ntohl(x); }
void strophe_error(const xmpp_ctx_t *ctx, const char *a, const char *f, ...) { (void)ctx; (void)a; (void)f; }
#ifdef T_RESTORE
struct sm_restore;
static int sm_load_u32(struct sm_restore *sm, uint8_t type, uint32_t *val);
static int sm_load_string(struct sm_restore *sm, char **val, size_t *len);
static void _free_send_queue(xmpp_conn_t *conn);
/* ---- ghost state ---- */
static xmpp_send_queue_t EA, EB; /* last element of the queue in work, and the next one */
static xmpp_sm_state_t SM;
static xmpp_conn_t CN;
static int fresh;              /* which element the allocator gives out next */
static int phase, freed_q, freed_s, nalloc, started;
static uint32_t v_sent, v_handled, n_s, n_u, got_s, got_u;
static char idtext[4];
#define LC_xmpp_conn_restore_sm_state_1                                                                                       \
    __CPROVER_assigns(i, ret, sm.state, fresh, got_s, phase, started, EA, EB, CN.send_queue_head, CN.send_queue_tail, CN.send_queue_len, CN.send_queue_user_len) \
    __CPROVER_loop_invariant(i <= len && len == n_s && got_s == i && phase == 4 && ret == 0 && got_u == 0)                                   \
    __CPROVER_loop_invariant(__CPROVER_same_object(sm.state, sm.state_end) && __CPROVER_POINTER_OFFSET(sm.state) <= __CPROVER_POINTER_OFFSET(sm.state_end)) \
    __CPROVER_loop_invariant((fresh == 0 || fresh == 1) && CN.send_queue_tail == (i == 0 ? (xmpp_send_queue_t *)0 : fresh ? &EA : &EB))            \
    __CPROVER_loop_invariant((i == 0) == (CN.send_queue_head == (xmpp_send_queue_t *)0) && (CN.send_queue_head == (xmpp_send_queue_t *)0 || CN.send_queue_head == &EA || CN.send_queue_head == &EB)) \
    __CPROVER_loop_invariant(i == 0 || CN.send_queue_tail->next == (xmpp_send_queue_t *)0)                                     \
    __CPROVER_loop_invariant((uint32_t)CN.send_queue_len == i && (uint32_t)CN.send_queue_user_len == i)                                          \
    __CPROVER_decreases(len - i)
/* (the assignment of the value it has tells CBMC what the pointer points to) */
#define LASTE (i == 0 ? (xmpp_send_queue_t *)0 : fresh ? &EA : &EB)
#define LB_xmpp_conn_restore_sm_state_1 VF_ASSERT(CN.send_queue_tail == LASTE, "C16: tail"); CN.send_queue_tail = LASTE;
#define LC_xmpp_conn_restore_sm_state_2                                                                                       \
    __CPROVER_assigns(i, ret, sm.state, fresh, got_u, phase, started, EA, EB, SM.sm_queue)                                     \
    __CPROVER_loop_invariant(i <= len && len == n_u && got_u == i && phase == 5 && ret == 0)                                   \
    __CPROVER_loop_invariant(__CPROVER_same_object(sm.state, sm.state_end) && __CPROVER_POINTER_OFFSET(sm.state) <= __CPROVER_POINTER_OFFSET(sm.state_end)) \
    __CPROVER_loop_invariant((fresh == 0 || fresh == 1) && SM.sm_queue.tail == (i == 0 ? (xmpp_send_queue_t *)0 : fresh ? &EA : &EB))              \
    __CPROVER_loop_invariant((i == 0) == (SM.sm_queue.head == (xmpp_send_queue_t *)0))                                         \
    __CPROVER_loop_invariant(i == 0 || SM.sm_queue.tail->next == (xmpp_send_queue_t *)0)                                       \
    __CPROVER_decreases(len - i)
#define LB_xmpp_conn_restore_sm_state_2 VF_ASSERT(SM.sm_queue.tail == LASTE, "C16: tail"); SM.sm_queue.tail = LASTE;
void *strophe_alloc(const xmpp_ctx_t *ctx, const size_t size)
{
    (void)ctx;
    if (CN.sm_state == NULL && phase == 0) { VF_ASSERT(size >= sizeof(SM), "C16: too little memory for the state"); return &SM; }
    VF_ASSERT(size >= sizeof(EA), "C16: too little memory for an element");
    fresh = !fresh;
    started = 1;
    return fresh ? (void *)&EA : (void *)&EB;
}
void strophe_free(const xmpp_ctx_t *ctx, void *p) { (void)ctx; (void)p; }
#ifdef VF_CBMC
/* memset on one of the ghost objects, as ISO C defines it */
static void *vf_memset(void *p, int c, size_t n)
{
    VF_ASSERT(c == 0, "C16: memory is not zeroed");
    if (p == (void *)&EA) { VF_ASSERT(n == sizeof(EA), "C16: not the whole element is zeroed"); EA.next = EA.prev = NULL; EA.data = NULL; EA.len = EA.written = 0; EA.wip = 0; EA.userdata = NULL; EA.owner = 0; EA.sm_h = 0; }
    else if (p == (void *)&EB) { VF_ASSERT(n == sizeof(EB), "C16: not the whole element is zeroed"); EB.next = EB.prev = NULL; EB.data = NULL; EB.len = EB.written = 0; EB.wip = 0; EB.userdata = NULL; EB.owner = 0; EB.sm_h = 0; }
    else { VF_ASSERT(p == (void *)&SM && n == sizeof(SM), "C16: something else is zeroed"); SM.sm_queue.head = SM.sm_queue.tail = NULL; SM.id = SM.previd = SM.bound_jid = NULL; SM.bind = NULL; SM.sm_sent_nr = SM.sm_handled_nr = 0; }
    return p;
}
#define memset vf_memset
#endif
#endif
#if defined(T_SER) && defined(VF_CBMC)
static int sm_store_u32(unsigned char **next_, const unsigned char *const end, uint8_t type, uint32_t val);
/* ---- ghost state: cs unsent and cu unacknowledged elements; LS/LU their
 * lengths, PS/PU the bytes the first k of them take ---- */
static size_t cs, cu, LS[__CPROVER_constant_infinity_uint], LU[__CPROVER_constant_infinity_uint], PS[__CPROVER_constant_infinity_uint], PU[__CPROVER_constant_infinity_uint];
static size_t gi, gj, gk, gl, idn, pos, total;
static int ph;
static xmpp_send_queue_t NS, NU;
static xmpp_sm_state_t SM;
static xmpp_conn_t CN;
static unsigned char *out;
static char *txt;
#define CUR(g, c, N) ((g) < (c) ? &N : (xmpp_send_queue_t *)0)
#define STEP(g, c, N, L, P, k) \
    VF_ASSERT(peek == &N && g < c, "C16: not at an element of the queue"); peek = &N; \
    N.len = L[g]; N.data = txt; N.sm_h = nd_u32(); N.next = CUR(g + 1, c, N); \
    VF_ASSUME(L[g] < ((size_t)1 << 32) && P[g + 1] == P[g] + k + L[g] && P[g + 1] <= P[c]); g++;
#define LC_sm_state_serialize_1 __CPROVER_assigns(gi, peek, sm_queue_len, sm_queue_size, NU) \
    __CPROVER_loop_invariant(gi <= cu && sm_queue_len == gi && sm_queue_size == PU[gi] && peek == CUR(gi, cu, NU)) __CPROVER_decreases(cu - gi)
#define LB_sm_state_serialize_1 STEP(gi, cu, NU, LU, PU, 10)
#define LC_sm_state_serialize_2 __CPROVER_assigns(gj, peek, send_queue_len, send_queue_size, NS) \
    __CPROVER_loop_invariant(gj <= cs && send_queue_len == gj && send_queue_size == PS[gj] && peek == CUR(gj, cs, NS)) __CPROVER_decreases(cs - gj)
#define LB_sm_state_serialize_2 STEP(gj, cs, NS, LS, PS, 5)
#define HDR (25 + idn)
#define LC_sm_state_serialize_3 __CPROVER_assigns(gk, peek, next, pos, ph, NS) \
    __CPROVER_loop_invariant(gk <= cs && ph == 10 && pos == HDR + PS[gk] && __CPROVER_POINTER_OFFSET(next) == pos && __CPROVER_same_object(next, out) && peek == CUR(gk, cs, NS)) __CPROVER_decreases(cs - gk)
#define LB_sm_state_serialize_3 STEP(gk, cs, NS, LS, PS, 5)
#define LC_sm_state_serialize_4 __CPROVER_assigns(gl, peek, next, pos, ph, NU) \
    __CPROVER_loop_invariant(gl <= cu && ph == 20 && pos == HDR + PS[cs] + 5 + PU[gl] && __CPROVER_POINTER_OFFSET(next) == pos && __CPROVER_same_object(next, out) && peek == CUR(gl, cu, NU)) __CPROVER_decreases(cu - gl)
#define LB_sm_state_serialize_4 STEP(gl, cu, NU, LU, PU, 10)
void *strophe_alloc(const xmpp_ctx_t *ctx, const size_t size)
{
    (void)ctx;
    out = malloc(size); total = size;
    VF_ASSUME(out != NULL);
    return out;
}
void strophe_free(const xmpp_ctx_t *ctx, void *p) { (void)ctx; (void)p; VF_ASSERT(0, "C16: the blob does not fit the size computed for it"); }
static size_t vf_strlen(const char *s) { VF_ASSERT(s == SM.id, "C16: length of something else"); return idn; }
static int vf_at(const void *d, size_t n)
{
    return __CPROVER_same_object(d, out) && __CPROVER_POINTER_OFFSET(d) == pos && pos + n <= total;
}
static void *vf_memcpy(void *d, const void *s, size_t n)
{
    VF_ASSERT(vf_at(d, n), "C16: a copy is not to the next place of the blob, or leaves it");
    if (ph == 0) { VF_ASSERT(n == 5 && !memcmp(s, "\x1a\0\0\0\0", 5), "C16: wrong version"); ph = 1; }
    else if (ph == 4) { VF_ASSERT(s == SM.id && n == idn, "C16: not the id is stored"); ph = 5; }
    else if (ph == 11) { VF_ASSERT(s == NS.data && n == NS.len, "C16: not the element's text is stored"); ph = 10; }
    else { VF_ASSERT(ph == 22 && s == NU.data && n == NU.len, "C16: not the element's text is stored"); ph = 20; }
    pos += n;
    return d;
}
#define memcpy vf_memcpy
#define strlen vf_strlen
#endif
#if defined(T_STR) && defined(VF_CBMC)
/* memcpy as ISO C defines it, observed at one arbitrary index */
static size_t wit;
static void *vf_memcpy(void *d, const void *s, size_t n)
{
    if (n == 4) { ((char *)d)[0] = ((const char *)s)[0]; ((char *)d)[1] = ((const char *)s)[1]; ((char *)d)[2] = ((const char *)s)[2]; ((char *)d)[3] = ((const char *)s)[3]; return d; }
    VF_ASSERT(__CPROVER_r_ok(s, n), "C16: a copy reads outside the buffer");
    VF_ASSERT(__CPROVER_w_ok(d, n), "C16: a copy writes outside the block");
    if (wit < n) ((char *)d)[wit] = ((const char *)s)[wit];
    return d;
}
#define memcpy vf_memcpy
#endif
#include "conn.c"
#undef memset
#undef memcpy
#undef strlen

static unsigned char *buf;
static size_t n, off;
static struct sm_restore *mk(void)
{
    static struct sm_restore *p;
    static unsigned char st[sizeof(struct sm_restore)];
    n = nd_size(); off = nd_size();
    VF_ASSUME(n > 0 && n < MAXB && off <= n);
    buf = malloc(n);
    VF_ASSUME(buf != NULL);
    {
        static xmpp_ctx_t ctx; static xmpp_conn_t conn;
        struct sm_restore s = {.conn = &conn, .state = buf + off, .state_end = buf + n, .orig = buf};
        conn.ctx = &ctx;
        memcpy(st, &s, sizeof(s));
        p = (void *)st;
    }
    return p;
}
#define BE(q) ((uint32_t)(q)[0] << 24 | (uint32_t)(q)[1] << 16 | (uint32_t)(q)[2] << 8 | (q)[3])
#ifdef T_U32
void harness(void)
{
    struct sm_restore *s = mk();
    unsigned char type = nd_u8();
    uint32_t v = 7;
    int r = sm_load_u32(s, type, &v);
    if (n - off >= 5 && buf[off] == type) {
        VF_ASSERT(r == 0, "C16: a well formed field is refused");
        VF_ASSERT(v == BE(buf + off + 1), "C16: a field has another value than its bytes");
        VF_ASSERT(s->state == buf + off + 5, "C16: not exactly the field is consumed");
        VF_REACH("field");
    } else {
        VF_ASSERT(r < 0, "C16: a malformed field is accepted");
        VF_ASSERT(s->state >= buf && s->state <= buf + n, "C16: the position leaves the buffer");
        VF_REACH("no field");
    }
}
#elif defined(T_STR)
static char *blk; static size_t blkn;
void *strophe_alloc(const xmpp_ctx_t *ctx, const size_t size)
{
    (void)ctx;
    blk = malloc(size); blkn = size;
    VF_ASSUME(blk != NULL);
    return blk;
}
void harness(void)
{
    struct sm_restore *s = mk();
    char *v = NULL;
    size_t l = 0, k = nd_size();
    int r;
#ifdef VF_CBMC
    wit = k;
#endif
    r = sm_load_string(s, &v, &l);
    if (n - off >= 5 && buf[off] == 0x7a && n - off - 5 >= BE(buf + off + 1)) {
        VF_ASSERT(r == 0 && l == BE(buf + off + 1), "C16: a well formed string is refused or has another length");
        VF_ASSERT(s->state == buf + off + 5 + l, "C16: not exactly the string is consumed");
        VF_ASSERT(v == blk && blkn > l && v[l] == 0, "C16: the string is not terminated");
        if (k < l) { VF_ASSERT((unsigned char)v[k] == buf[off + 5 + k], "C16: a string has other bytes"); VF_REACH("byte"); }
    } else {
        VF_ASSERT(r < 0, "C16: a malformed string is accepted");
        VF_ASSERT(s->state >= buf && s->state <= buf + n, "C16: the position leaves the buffer");
        VF_REACH("refused");
    }
}
#elif defined(T_STORE)
void harness(void)
{
    size_t k = nd_size();
    unsigned char *p, type = nd_u8(), was = 0;
    uint32_t v = nd_u32(), back = 0;
    int r;
    struct sm_restore *s = mk();
    p = buf + off;
    if (k < n) was = buf[k];
    /* room for the field: the caller computes the exact size */
    VF_ASSUME(n - off >= 5);
    r = sm_store_u32(&p, buf + n, type, v);
    VF_ASSERT(r == 0, "C16: a field is not stored although there is room");
    if (k < n && (k < off || k >= off + 5)) VF_ASSERT(buf[k] == was, "C16: storing a field writes elsewhere");
    VF_ASSERT(p == buf + off + 5, "C16: not exactly the field is written");
    VF_ASSERT(sm_load_u32(s, type, &back) == 0 && back == v, "C16: a stored field is not read back");
    VF_REACH("round");
}
#elif defined(T_RESTORE)
#ifdef VF_CBMC
/* the contracts proved in the runs u32 and string */
static int sm_load_u32(struct sm_restore *sm, uint8_t type, uint32_t *val)
{
    uint32_t v;
    VF_ASSERT(__CPROVER_same_object(sm->state, sm->state_end) && sm->state >= sm->orig && sm->state <= sm->state_end, "C16: the reading position is in the buffer");
    if (nd_bool() || sm->state_end - sm->state < 5) {
        size_t k = nd_bool();
        if (sm->state < sm->state_end) sm->state += k;
        return nd_bool() ? XMPP_EINVOP : XMPP_EMEM;
    }
    sm->state += 5;
    v = nd_u32();
    *val = v;
    if (phase == 0) { VF_ASSERT(type == 0x1a, "C16: wrong field"); v_sent = v; phase = 1; }
    else if (phase == 1) { VF_ASSERT(type == 0x1a, "C16: wrong field"); v_handled = v; phase = 2; }
    else if (phase == 3) { VF_ASSERT(type == 0x9a, "C16: wrong field"); n_s = v; phase = 4; }
    else if (phase == 4) { VF_ASSERT(type == 0xba && got_s == n_s, "C16: not as many unsent elements as announced"); n_u = v; phase = 5; fresh = 0; }
    else { VF_ASSERT(phase == 5 && type == 0x1a && val == &SM.sm_queue.tail->sm_h && SM.sm_queue.tail == (fresh ? &EA : &EB), "C16: the sequence number is not that of the element appended"); phase = 6; }
    return 0;
}
static int sm_load_string(struct sm_restore *sm, char **val, size_t *len)
{
    size_t l = nd_size();
    VF_ASSERT(__CPROVER_same_object(sm->state, sm->state_end) && sm->state >= sm->orig && sm->state <= sm->state_end, "C16: the reading position is in the buffer");
    if (nd_bool() || sm->state_end - sm->state < 5 || (size_t)(sm->state_end - sm->state) - 5 < l) {
        size_t k = nd_bool() ? 5 : nd_bool();
        if ((size_t)(sm->state_end - sm->state) >= k) sm->state += k;
        return nd_bool() ? XMPP_EINVOP : XMPP_EMEM;
    }
    sm->state += 5 + l;
    if (phase == 2) {
        VF_ASSERT(val == &SM.id, "C16: the first string is not the id");
        idtext[0] = nd_char(); idtext[1] = nd_char(); idtext[2] = nd_char(); idtext[3] = 0;
        *val = idtext; *len = l; phase = 3;
        return 0;
    }
    if (phase == 4) {
        VF_ASSERT(val == &CN.send_queue_tail->data && len == &CN.send_queue_tail->len && CN.send_queue_tail == (fresh ? &EA : &EB), "C16: the text is not that of the element appended");
        VF_ASSERT(CN.send_queue_tail->next == NULL && CN.send_queue_tail->owner == XMPP_QUEUE_USER && CN.send_queue_tail->written == 0 && !CN.send_queue_tail->wip && CN.send_queue_tail->userdata == NULL, "C16: the element appended is not initialised");
        VF_ASSERT(CN.send_queue_tail->prev == (got_s ? (fresh ? &EB : &EA) : (xmpp_send_queue_t *)0), "C16: the element appended does not follow the last one");
        if (got_s) VF_ASSERT(CN.send_queue_tail->prev->next == CN.send_queue_tail, "C16: the last element is not followed by the one appended");
        else VF_ASSERT(CN.send_queue_head == CN.send_queue_tail, "C16: the first element is not the head");
        got_s++;
    } else {
        VF_ASSERT(phase == 6 && val == &SM.sm_queue.tail->data && len == &SM.sm_queue.tail->len, "C16: the text is not that of the element appended");
        VF_ASSERT(SM.sm_queue.tail->next == NULL && SM.sm_queue.tail->prev == (got_u ? (fresh ? &EB : &EA) : (xmpp_send_queue_t *)0), "C16: the element appended does not follow the last one");
        if (got_u) VF_ASSERT(SM.sm_queue.tail->prev->next == SM.sm_queue.tail, "C16: the last element is not followed by the one appended");
        else VF_ASSERT(SM.sm_queue.head == SM.sm_queue.tail, "C16: the first element is not the head");
        got_u++; phase = 5;
    }
    *val = nd_bool() ? idtext : NULL;
    *len = l;
    return 0;
}
static void _free_send_queue(xmpp_conn_t *conn)
{
    VF_ASSERT(conn == &CN, "C16: the wrong connection is cleaned");
    freed_q = 1;
    conn->send_queue_head = conn->send_queue_tail = NULL;
    conn->send_queue_len = conn->send_queue_user_len = 0;
}
void xmpp_free_sm_state(xmpp_sm_state_t *s)
{
    VF_ASSERT(s == &SM && !freed_s, "C16: the wrong state is released, or twice");
    freed_s = 1;
}
#endif
void harness(void)
{
    static xmpp_ctx_t ctx;
    int r;
    fresh = phase = freed_q = freed_s = nalloc = started = 0;
    v_sent = v_handled = n_s = n_u = got_s = got_u = 0;
    CN.ctx = &ctx;
    CN.state = XMPP_STATE_DISCONNECTED;
    CN.sm_state = NULL;
    CN.send_queue_head = CN.send_queue_tail = NULL;
    CN.send_queue_len = CN.send_queue_user_len = 0;
    n = nd_size();
    VF_ASSUME(n > 0 && n < MAXB);
    buf = malloc(n);
    VF_ASSUME(buf != NULL);
    r = xmpp_conn_restore_sm_state(&CN, buf, n);
    if (r == XMPP_EOK) {
        VF_REACH("restored");
        VF_REACH_IF(n_s > 3 && n_u > 3, "many");
        VF_ASSERT(CN.sm_state == &SM && !freed_s && !freed_q, "C16: no state after restoring");
        VF_ASSERT(phase == 5 && got_s == n_s && got_u == n_u, "C16: not every announced element was read");
        VF_ASSERT(SM.sm_sent_nr == v_sent && SM.sm_handled_nr == v_handled && SM.id == idtext, "C16: counters or id are not those read");
        VF_ASSERT((uint32_t)CN.send_queue_len == n_s && (uint32_t)CN.send_queue_user_len == n_s, "C16: the queue's length is not that announced");
        VF_ASSERT(n >= 30 && buf[0] == 0x1a && BE(buf + 1) == 0, "C16: another version is accepted");
    } else {
        VF_ASSERT(r < 0, "C16: not an error code");
        VF_ASSERT(CN.sm_state == NULL && CN.send_queue_head == NULL && CN.send_queue_tail == NULL && CN.send_queue_len == 0 && CN.send_queue_user_len == 0, "C16: a refused restore leaves something");
        VF_ASSERT(freed_s == (phase > 0 || freed_s), "C16: the state of a refused restore is not released");
        VF_REACH("refused");
        VF_REACH_IF(got_u > 2, "refused late");
    }
}
#elif defined(T_SER)
#ifdef VF_CBMC
/* the contract proved in the run store */
static int sm_store_u32(unsigned char **next_, const unsigned char *const end, uint8_t type, uint32_t v)
{
    VF_ASSERT(vf_at(*next_, 5), "C16: a field is not stored at the next place of the blob, or leaves it");
    VF_ASSERT(__CPROVER_same_object(end, out) && __CPROVER_POINTER_OFFSET(end) == total, "C16: wrong end of the blob");
    switch (ph) {
    case 1: VF_ASSERT(type == 0x1a && v == SM.sm_sent_nr, "C16: not the sent counter is stored"); ph = 2; break;
    case 2: VF_ASSERT(type == 0x1a && v == SM.sm_handled_nr, "C16: not the handled counter is stored"); ph = 3; break;
    case 3: VF_ASSERT(type == 0x7a && v == idn, "C16: not the length of the id is stored"); ph = 4; break;
    case 5: VF_ASSERT(type == 0x9a && v == cs, "C16: not the number of unsent elements is stored"); ph = 10; break;
    case 10:
        if (gk == cs && type == 0xba) { VF_ASSERT(v == cu, "C16: not the number of unacknowledged elements is stored"); ph = 20; }
        else { VF_ASSERT(type == 0x7a && v == NS.len, "C16: not the length of the element is stored"); ph = 11; }
        break;
    case 20: VF_ASSERT(type == 0x1a && v == NU.sm_h, "C16: not the sequence number of the element is stored"); ph = 21; break;
    default: VF_ASSERT(ph == 21 && type == 0x7a && v == NU.len, "C16: not the length of the element is stored"); ph = 22; break;
    }
    *next_ += 5; pos += 5;
    return 0;
}
#endif
void harness(void)
{
#ifdef VF_CBMC
    unsigned char *b = NULL;
    static xmpp_ctx_t ctx;
    size_t r;
    gi = gj = gk = gl = pos = total = 0; ph = 0; out = NULL;
    cs = nd_size(); cu = nd_size(); idn = nd_size();
    VF_ASSUME(cs < ((size_t)1 << 31) && cu < ((size_t)1 << 31) && idn < ((size_t)1 << 31));
    VF_ASSUME(PS[0] == 0 && PU[0] == 0 && PS[cs] < ((size_t)1 << 43) && PU[cu] < ((size_t)1 << 43));
    SM.id = malloc(idn + 1); txt = malloc(1);
    VF_ASSUME(SM.id != NULL && txt != NULL);
    CN.ctx = &ctx; CN.sm_state = &SM;
    SM.sm_support = SM.sm_enabled = SM.can_resume = 1;
    SM.sm_sent_nr = nd_u32(); SM.sm_handled_nr = nd_u32();
    SM.sm_queue.head = CUR(0, cu, NU); CN.send_queue_head = CUR(0, cs, NS);
    r = sm_state_serialize(&CN, &b);
    VF_ASSERT(b == out && out != NULL && r == total && r == pos, "C16: the blob is not completely filled");
    VF_ASSERT(ph == 20 && gk == cs && gl == cu && gi == cu && gj == cs, "C16: not every element is in the blob");
    VF_REACH_IF(cs > 3 && cu > 3, "many");
    VF_REACH_IF(cs == 0 && cu == 0, "none");
#endif
}
#endif
