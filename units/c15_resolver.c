/*@unit
{"props": ["C15", "C01", "C14"],
 "functions": ["message_name_get", "message_name_len", "message_name_append_safe", "resolver_raw_srv_lookup_buf", "resolver_srv_lookup_buf", "resolver_srv_rr_new", "resolver_srv_list_sort", "resolver_srv_free"],
 "assumptions": ["DNS response buffers shorter than 2^31 bytes (the system resolver is asked for at most 65536)", "snprintf/memcpy behave as specified by ISO C"],
 "runs": [
  {"name": "name", "mode": "proof", "props": ["C15", "C01"], "rename": {"resolver.c": ["message_name_get"]}, "annotate": {"resolver.c": {"message_name_get": 1}},
   "defs": ["T_NAME"], "cbmc": ["--sat-solver", "cadical"], "timeout": 400},
  {"name": "records", "mode": "proof", "props": ["C15", "C01"], "rename": {"resolver.c": ["message_name_get", "resolver_srv_free", "resolver_srv_rr_new"]}, "annotate": {"resolver.c": {"resolver_raw_srv_lookup_buf": 2}},
   "defs": ["T_REC"], "cbmc": ["--sat-solver", "cadical"], "timeout": 400},
  {"name": "bytes_b", "cases": [0, 3], "mode": "bounded", "props": ["C15", "C01"], "bound": "arbitrary response buffers of 34 (and 11) bytes, at most 1 question and 2 answers, names through their contract", "rename": {"resolver.c": ["message_name_get", "resolver_srv_rr_new"]}, "defs": ["T_BYTES", "BMAX=41"], "unwind": 43, "unwindset": ["resolver_srv_rr_new.0:258", "resolver_srv_list_sort.0:4", "resolver_srv_list_sort.1:4", "resolver_srv_free.0:4", "resolver_raw_srv_lookup_buf.0:4", "resolver_raw_srv_lookup_buf.1:4"], "objbits": 11, "cbmc": ["--max-field-sensitivity-array-size", "512"], "timeout": 400},
  {"name": "name_b", "mode": "bounded", "props": ["C15", "C01"], "bound": "name decoding over arbitrary buffers of at most 6 bytes, name fields of 0..7 bytes, recursion through the functional contract", "rename": {"resolver.c": ["message_name_get"]}, "defs": ["T_NAMEB", "BMAX=6"], "unwind": 15, "objbits": 11, "cbmc": ["--max-field-sensitivity-array-size", "512"], "timeout": 400},
  {"name": "lay", "cases": [0, 13], "mode": "bounded", "props": ["C15"], "bound": "well-formed responses: 0-1 questions, 1-3 answers in 12 lay, symbolic numbers, types, classes and label bytes", "defs": ["T_LAY", "LAY"], "rename": {"resolver.c": ["resolver_srv_rr_new"]}, "cbmc": ["--max-field-sensitivity-array-size", "512"], "unwind": 16, "unwindset": ["resolver_srv_rr_new.0:258", "lay.0:110", "resolver_srv_list_sort.0:4", "resolver_srv_list_sort.1:4", "resolver_srv_free.0:4"], "objbits": 12, "timeout": 500},
  {"name": "long254_0", "mode": "bounded", "props": ["C15", "C01"], "bound": "target of 254 characters, form 0", "defs": ["T_LONG", "LTOTAL=254", "LPTR=0"], "rename": {"resolver.c": ["resolver_srv_rr_new"]}, "cbmc": ["--max-field-sensitivity-array-size", "512"], "unwind": 430, "objbits": 12, "timeout": 500},
  {"name": "long255_0", "mode": "bounded", "props": ["C15", "C01"], "bound": "target of 255 characters, form 0", "defs": ["T_LONG", "LTOTAL=255", "LPTR=0"], "rename": {"resolver.c": ["resolver_srv_rr_new"]}, "cbmc": ["--max-field-sensitivity-array-size", "512"], "unwind": 430, "objbits": 12, "timeout": 500},
  {"name": "long256_0", "mode": "bounded", "props": ["C15", "C01"], "bound": "target of 256 characters, form 0", "defs": ["T_LONG", "LTOTAL=256", "LPTR=0"], "rename": {"resolver.c": ["resolver_srv_rr_new"]}, "cbmc": ["--max-field-sensitivity-array-size", "512"], "unwind": 430, "objbits": 12, "timeout": 500},
  {"name": "long255_1", "mode": "bounded", "props": ["C15", "C01"], "bound": "target of 255 characters, form 1", "defs": ["T_LONG", "LTOTAL=255", "LPTR=1"], "rename": {"resolver.c": ["resolver_srv_rr_new"]}, "cbmc": ["--max-field-sensitivity-array-size", "512"], "unwind": 430, "objbits": 12, "timeout": 500},
  {"name": "long252_2", "mode": "bounded", "props": ["C15", "C01"], "bound": "target of 252 characters, form 2", "defs": ["T_LONG", "LTOTAL=252", "LPTR=2"], "rename": {"resolver.c": ["resolver_srv_rr_new"]}, "cbmc": ["--max-field-sensitivity-array-size", "512"], "unwind": 430, "objbits": 12, "timeout": 500},
  {"name": "long253_2", "mode": "bounded", "props": ["C15", "C01"], "bound": "target of 253 characters, form 2", "defs": ["T_LONG", "LTOTAL=253", "LPTR=2"], "rename": {"resolver.c": ["resolver_srv_rr_new"]}, "cbmc": ["--max-field-sensitivity-array-size", "512"], "unwind": 430, "objbits": 12, "timeout": 500},
  {"name": "long256_1", "mode": "bounded", "props": ["C15", "C01"], "tier": "thorough", "bound": "target of 256 characters, form 1", "defs": ["T_LONG", "LTOTAL=256", "LPTR=1"], "rename": {"resolver.c": ["resolver_srv_rr_new"]}, "cbmc": ["--max-field-sensitivity-array-size", "512"], "unwind": 430, "objbits": 12, "timeout": 500},
  {"name": "long300_0", "mode": "bounded", "props": ["C15", "C01"], "tier": "thorough", "bound": "target of 300 characters, form 0", "defs": ["T_LONG", "LTOTAL=300", "LPTR=0"], "rename": {"resolver.c": ["resolver_srv_rr_new"]}, "cbmc": ["--max-field-sensitivity-array-size", "512"], "unwind": 430, "objbits": 12, "timeout": 500},
  {"name": "long300_2", "mode": "bounded", "props": ["C15", "C01"], "tier": "thorough", "bound": "target of 300 characters, form 2", "defs": ["T_LONG", "LTOTAL=300", "LPTR=2"], "rename": {"resolver.c": ["resolver_srv_rr_new"]}, "cbmc": ["--max-field-sensitivity-array-size", "512"], "unwind": 430, "objbits": 12, "timeout": 500},
  {"name": "rrnew", "mode": "proof", "props": ["C15", "C14"], "defs": ["T_RRNEW"], "unwind": 8, "timeout": 100},
  {"name": "sort4", "mode": "bounded", "props": ["C15", "C14"], "bound": "lists of at most 4 records", "defs": ["T_SORT", "NMAX=4"], "unwind": 7, "timeout": 300},
  {"name": "sort6", "mode": "bounded", "tier": "thorough", "props": ["C15", "C14"], "bound": "lists of at most 6 records", "defs": ["T_SORT", "NMAX=6"], "unwind": 9, "timeout": 800}
 ]}
*/
#include "vf.h"
#include "strophe.h"
#include "common.h"
#include "resolver.h"
#include "mem.h"

#define SAME __CPROVER_same_object
/* ---------------- contract of message_name_get ----------------
 * requires  name == NULL, or name_max bytes writable at name
 * assigns   name[0 .. name_max)
 * ensures   result == 0, or buf_offset + result <= buf_len and
 *           (name && name_max) ==> a NUL within name[0 .. name_max)
 * decreases buf_offset (only called with a smaller offset by itself)       */
#ifdef T_NAMEB
/* independent decoder: expanded name into o (room for 64), wire length, or 0 */
static unsigned spec_name(const unsigned char *b, unsigned len, unsigned off, char *o, unsigned *ol)
{
    unsigned i = off, start = off, used = 0, n = 0, steps;
    for (steps = 0; steps < BMAX + 1; steps++) {
        unsigned l;
        if (i >= len) return 0;
        l = b[i];
        if (l == 0) { if (!used) used = i + 1 - off; if (n) n--; o[n] = 0; *ol = n; return used; }
        if (l < 64) {
            unsigned k;
            if (i + 1 + l > len) return 0;
            for (k = 0; k < l && k < BMAX; k++) o[n++] = (char)b[i + 1 + k];
            o[n++] = '.';
            i += 1 + l;
        } else if (l >= 192) {
            unsigned p;
            if (i + 1 >= len) return 0;
            p = (l & 63) << 8 | b[i + 1];
            if (!used) used = i + 2 - off;
            if (p >= start) return 0;
            i = start = p;
        } else return 0;
    }
    return 0;
}
/* functional contract of the recursive call: smaller offset, value of the specification */
static unsigned g_off;
static unsigned message_name_get(const unsigned char *buf, size_t buf_len, unsigned buf_offset, char *name, size_t name_max)
{
    char o[64];
    unsigned ol = 0, r, i;
    VF_ASSERT(buf_offset < g_off, "C15: compression pointers strictly descend (termination)");
    r = spec_name(buf, (unsigned)buf_len, buf_offset, o, &ol);
    if (r && name)
        for (i = 0; i <= ol && i < 2 * BMAX + 2; i++)
            if (i < name_max) name[i] = i == name_max - 1 ? 0 : o[i];
    return r;
}
#endif
#ifdef T_BYTES
static unsigned message_name_get(const unsigned char *buf, size_t buf_len, unsigned buf_offset, char *name, size_t name_max)
{
    unsigned r = nd_u32(), k;
    VF_ASSERT(name == NULL || name_max == MAX_DOMAIN_LEN, "C15: the target field size is passed");
    if (buf_offset >= buf_len) return 0;
    VF_ASSUME(r <= buf_len - buf_offset);
    if (r && name) { name[0] = 'x'; k = nd_bool() ? MAX_DOMAIN_LEN - 1 : 1; name[k] = 0; }
    return r;
}
#endif
#if defined(T_NAME) || defined(T_REC)
static unsigned g_off; static int g_rec; /* ghost: offset of the verified activation */
static size_t g_z;                        /* witness: a NUL position inside name */
static char *g_name, *g_obj; static size_t g_max;
static unsigned message_name_get(const unsigned char *buf, size_t buf_len, unsigned buf_offset, char *name, size_t name_max)
{
    unsigned r = nondet_vf_u32();
    size_t k = nondet_vf_size();
    VF_ASSERT(__CPROVER_r_ok(buf, buf_len), "C15: name decoder is given the whole buffer");
    if (name != NULL)
        VF_ASSERT(name_max == 0 || __CPROVER_w_ok(name, name_max), "C15: name decoder is given writable room");
    if (g_rec)
        VF_ASSERT(buf_offset < g_off, "C15: compression pointers strictly descend (termination)");
    __CPROVER_assume(r == 0 || (buf_offset < buf_len && r <= buf_len - buf_offset));
    if (name != NULL && name_max > 0) {
        if (g_rec) __CPROVER_havoc_object(g_obj);
        if (r != 0) {
            __CPROVER_assume(k < name_max);
            name[k] = 0;
            if (g_rec) g_z = (size_t)(name - g_name) + k;
        }
    }
    return r;
}
#endif
#ifdef T_NAME
#define LC_message_name_get_1                                                                         \
    __CPROVER_assigns(i, label_len, name_len, name, name_max, pointer, rc, __CPROVER_object_whole(g_obj), g_z, g_min) \
    __CPROVER_loop_invariant(buf_offset <= i && i <= buf_len)                                         \
    __CPROVER_loop_invariant(name == (void*)0 || (name == g_name && name_max == g_max))               \
    __CPROVER_loop_invariant(g_name == (void*)0 || name == g_name)                                    \
    __CPROVER_loop_invariant(name_len <= i - buf_offset)                                              \
    __CPROVER_decreases(buf_len - i)
#define LB_message_name_get_1
#endif
#ifdef T_REC
#define LC_resolver_raw_srv_lookup_buf_1                                        \
    __CPROVER_assigns(i, j, name_len)                                           \
    __CPROVER_loop_invariant(i <= header.qdcount && *srv_rr_list == (void*)0)   \
    __CPROVER_loop_invariant(12 <= j && j <= len + 4)                           \
    __CPROVER_decreases(header.qdcount - i)
#define LB_resolver_raw_srv_lookup_buf_1
#define LC_resolver_raw_srv_lookup_buf_2                                        \
    __CPROVER_assigns(i, j, name_len, type, class, rdlength, rr, *srv_rr_list, vf_live)  \
    __CPROVER_loop_invariant(i <= header.ancount)                               \
    __CPROVER_loop_invariant(12 <= j && j <= len + 70000)                       \
    __CPROVER_decreases(header.ancount - i)
#define LB_resolver_raw_srv_lookup_buf_2
#endif
#if defined(T_BYTES) || defined(T_LAY) || defined(T_LONG)
/* contract of resolver_srv_rr_new(ctx, NULL, port, prio, weight), discharged by run rrnew */
resolver_srv_rr_t *resolver_srv_rr_new(xmpp_ctx_t *ctx, const char *host, unsigned short port, unsigned short prio, unsigned short weight)
{
    resolver_srv_rr_t *r = malloc(sizeof(*r));
    size_t k;
    VF_ASSUME(r != NULL);
    VF_ASSERT(host == NULL, "C15: rr_new contract used without host");
    vf_live++;
    r->next = NULL; r->port = port; r->priority = prio; r->weight = weight;
    for (k = 0; k < MAX_DOMAIN_LEN; k++) r->target[k] = 0;
    return r;
}
#endif
#if defined(T_REC)
resolver_srv_rr_t *resolver_srv_rr_new(xmpp_ctx_t *ctx, const char *host, unsigned short port, unsigned short prio, unsigned short weight)
{
    resolver_srv_rr_t *r = malloc(sizeof(*r));
    VF_ASSUME(r != NULL);
    r->next = NULL;
    return r;
}
void resolver_srv_free(xmpp_ctx_t *ctx, resolver_srv_rr_t *l) { (void)ctx; (void)l; }
#endif
#ifdef T_NAME
static size_t g_min; /* last value handed out by xmpp_min: witness hint for the terminator's position */
static size_t vf_min(size_t a, size_t b) { return g_min = a < b ? a : b; }
#include "util.h"
#undef xmpp_min
#define xmpp_min vf_min
#endif
#include "resolver.c"

#ifdef T_NAME
void harness(void)
{
    size_t len = nd_size_max(0x7fffffff), max = nd_size_max(0x7fffffff), z = 0;
    unsigned off = nd_u32(), r;
    _Bool hn = nd_bool();
    unsigned char *b = malloc(len);
    VF_ASSUME(b != NULL && off <= len);
    g_name = NULL; g_max = max; g_z = 0; g_rec = 1; g_off = off;
    g_obj = malloc(max);
    VF_ASSUME(g_obj != NULL);
    if (hn) g_name = g_obj;
    r = vf_real_message_name_get(b, len, off, g_name, max);
    VF_ASSERT(r == 0 || (off < len && r <= len - off), "C15: reported name length stays inside the buffer");
    if (r != 0 && hn && max > 0) {
        /* some NUL: the recursion's witness, the truncation point, or the end of the own labels */
        VF_ASSERT(g_name[max - 1] == 0 || (g_z < max && g_name[g_z] == 0) || (g_min > 0 && g_min <= max && g_name[g_min - 1] == 0), "C15: target is NUL terminated within its field");
    }
    VF_REACH_IF(r != 0 && hn && max > 4, "name decoded");
    VF_REACH_IF(r == 0, "name refused");
}
#endif

#ifdef T_REC
void harness(void)
{
    size_t len = nd_size_max(0x7fffffff);
    unsigned char *b = malloc(len);
    resolver_srv_rr_t *l;
    int r;
    VF_ASSUME(b != NULL);
    g_rec = 0;
    r = resolver_raw_srv_lookup_buf(NULL, b, len, &l);
    VF_ASSERT((r == XMPP_DOMAIN_FOUND) ? l != NULL : r == XMPP_DOMAIN_NOT_FOUND, "C15: found only with a list");
    VF_REACH_IF(r == XMPP_DOMAIN_FOUND, "records found");
    VF_REACH_IF(r != XMPP_DOMAIN_FOUND, "not found");
}
#endif

#if defined(T_BYTES)
static void one(const size_t len)
{
    size_t i, k;
    int r, n = 0;
    unsigned char *b = malloc(len ? len : 1);
    resolver_srv_rr_t *l = (resolver_srv_rr_t *)b, *p;
    VF_ASSUME(b != NULL);
    for (i = 0; i < len; i++) b[i] = nd_u8();
    if (len > 11) { b[4] = b[6] = 0; b[5] = CASE == 1; b[7] = CASE == 2 ? 2 : CASE < 2; }
    vf_live = 0;
    r = resolver_srv_lookup_buf(NULL, b, len, &l);
    VF_ASSERT(r == XMPP_DOMAIN_FOUND || r == XMPP_DOMAIN_NOT_FOUND, "C15: outcome is found or not found");
    VF_ASSERT((r == XMPP_DOMAIN_FOUND) == (l != NULL), "C15: found exactly with a non-empty list");
    for (p = l; p; p = p->next) {
        n++;
        VF_ASSERT(n <= 2, "C15: no more records than answers");
        for (k = 0; k < MAX_DOMAIN_LEN && k < 40 && p->target[k]; k++);
        VF_ASSERT(p->target[k] == 0 && k < 40, "C15: target NUL terminated");
    }
    VF_ASSERT(vf_live == n, "C15: every record not returned is released");
    VF_REACH_IF(CASE == 3 || l != NULL, "returns");
}
void harness(void)
{
    one(CASE == 3 ? 11 : BMAX);
}
#endif

#if defined(T_LAY)
/* response builder: a ghost description next to the bytes */
static unsigned char *b; static size_t n;
static void w8(unsigned v) { b[n++] = (unsigned char)v; }
static void w16(unsigned v) { w8(v >> 8); w8(v & 255); }
static unsigned char lab(void) { unsigned char c = nd_u8(); VF_ASSUME(c != 0 && c != '.'); return c; }
static int teq(const char *a, const char *b)
{
    int k;
    for (k = 0; k < 12; k++) {
        if (a[k] != b[k]) return 0;
        if (!a[k]) return 1;
    }
    return 0;
}
struct exp { int is; unsigned prio, weight, port; char t[16]; } E[3];
static int ne;
static char qn[4]; /* name in the question at offset 12: "q" or "q.r" */
/* emit a name of the given form; its expansion is appended to t */
static void name(int form, char *t)
{
    size_t k = strlen(t);
    unsigned char c;
    switch (form) {
    case 0: w8(0); break;
    case 1: c = lab(); w8(1); w8(c); w8(0); t[k++] = c; t[k] = 0; break;
    case 2: c = lab(); w8(1); w8(c); t[k++] = c; c = lab(); w8(2); w8(c); w8('z'); w8(0); t[k++] = '.'; t[k++] = c; t[k++] = 'z'; t[k] = 0; break;
    case 3: w16(0xc00c); t[k] = 0; strcpy(t + k, qn); break;
    default: c = lab(); w8(1); w8(c); t[k++] = c; t[k++] = '.'; w16(0xc00c); strcpy(t + k, qn); break;
    }
}
/* one answer: owner name form, target form (or -1: not SRV, rdlength = extra), trailing */
static void answer(int own, int kind, int tf)
{
    char dummy[16] = "";
    unsigned type = 33, cls = 1, k;
    size_t lenpos;
    name(own, dummy);
    if (kind == 1) { type = nd_u16(); VF_ASSUME(type != 33); }
    if (kind == 2) { cls = nd_u16(); VF_ASSUME(cls != 1); }
    w16(type); w16(cls); w16(nd_u16()); w16(nd_u16());
    lenpos = n; w16(0);
    if (kind == 3) { b[lenpos - 8] = 0; b[lenpos - 7] = tf == 6 ? 28 : 5; for (k = 0; k < tf; k++) w8(nd_u8()); }
    else {
        unsigned p = nd_u16(), w = nd_u16(), o = nd_u16();
        struct exp *e = &E[ne];
        w16(p); w16(w); w16(o);
        e->prio = p; e->weight = w; e->port = o; e->t[0] = 0;
        name(tf, e->t);
        if (kind == 0) ne++;
    }
    b[lenpos] = 0; b[lenpos + 1] = (unsigned char)(n - lenpos - 2);
}
static void lay(int qd, int a0, int k0, int t0, int an, int a1, int k1, int t1)
{
    unsigned char tmp[160], *x;
    resolver_srv_rr_t *l, *p, *q;
    int r, i, c;
    size_t k;
    b = tmp; n = 0; ne = 0;
    w16(nd_u16()); 
    w8(0x81); w8(0x80);
    w16(qd); w16(an); w16(0); w16(0);
    qn[0] = 'q'; qn[1] = 0;
    if (qd) { w8(1); w8('q'); w8(0); w16(33); w16(1); }
    if (an > 0) answer(a0, k0, t0);
    if (an > 1) answer(a1, k1, t1);
    x = malloc(n);
    VF_ASSUME(x != NULL);
    for (k = 0; k < n; k++) x[k] = tmp[k];
    vf_live = 0;
    r = resolver_srv_lookup_buf(NULL, x, n, &l);
    for (c = 0, p = l; p && c < 3; p = p->next) c++;
    VF_ASSERT(c == ne && (r == XMPP_DOMAIN_FOUND) == (ne > 0), "C15: exactly the IN/SRV answers are returned");
    VF_ASSERT(vf_live == ne, "C15: nothing leaked");
    for (p = l, q = NULL, c = 0; p && c < 2; q = p, p = p->next, c++) {
        int hit = 0;
        for (i = 0; i < ne; i++)
            if (p->priority == E[i].prio && p->weight == E[i].weight && p->port == E[i].port && teq(p->target, E[i].t)) hit = 1;
        VF_ASSERT(hit, "C15: priority, weight, port and expanded target of the record");
        if (q) VF_ASSERT(q->priority < p->priority || (q->priority == p->priority && q->weight >= p->weight), "C15: ordered by priority then descending weight");
    }
    VF_REACH("response decoded");
    if (ne == 2) {
        for (i = 0; i < 2; i++) {
            p = l; 
            if (!(p->priority == E[i].prio && p->weight == E[i].weight && p->port == E[i].port && teq(p->target, E[i].t))) p = p->next;
            VF_ASSERT(p->priority == E[i].prio && p->weight == E[i].weight && p->port == E[i].port && teq(p->target, E[i].t), "C15: no answer missing");
        }
    }
}
void harness(void)
{
    switch (CASE) {
    case 0: lay(0, 0, 0, 0, 0, 0, 0, 0); break;
    case 1: lay(1, 3, 0, 1, 1, 0, 0, 0); break;
    case 2: lay(1, 3, 0, 2, 1, 0, 0, 0); break;
    case 3: lay(1, 3, 0, 3, 1, 0, 0, 0); break;
    case 4: lay(1, 4, 0, 4, 1, 0, 0, 0); break;
    case 5: lay(0, 2, 0, 2, 1, 0, 0, 0); break;
    case 6: lay(1, 3, 0, 1, 2, 3, 0, 4); break;
    case 7: lay(1, 3, 1, 1, 2, 3, 0, 1); break;
    case 8: lay(1, 3, 0, 1, 2, 3, 2, 1); break;
    case 9: lay(1, 3, 0, 4, 2, 3, 3, 4); break;
    case 10: lay(1, 3, 3, 0, 2, 3, 0, 3); break;
    case 11: lay(1, 3, 0, 1, 2, 3, 3, 0); break;
    case 12: lay(1, 3, 0, 0, 2, 3, 3, 6); break;
    default: lay(0, 1, 3, 5, 1, 0, 0, 0); break;
    }
}
#endif

#if defined(T_LONG)
static void one(unsigned total, int ptr)
{
    /* question name: labels up to `total` characters after expansion */
    unsigned char x[420], nm[330];
    unsigned k, n = 0, m = 0, left = total, start, qlen;
    resolver_srv_rr_t *l;
    int r;
    for (k = 0; k < 12; k++) x[k] = 0;
    x[2] = 0x80;
    n = 12;
    /* labels of 63, 63, 63, then the rest; `total` counts dots between */
    while (left) {
        unsigned c = left > 63 ? 63 : left;
        if (left - c == 1) c--;
        nm[m++] = c;
        for (k = 0; k < c; k++) nm[m++] = 'a' + (m % 7);
        left -= c;
        if (left) left--;
    }
    nm[m++] = 0;
    if (ptr) { x[5] = 1; for (k = 0; k < m; k++) x[n++] = nm[k]; n += 4; x[n - 3] = 33; x[n - 1] = 1; x[n - 4] = 0; x[n - 2] = 0; }
    x[7] = 1;
    x[n++] = 0;
    x[n++] = 0; x[n++] = 33; x[n++] = 0; x[n++] = 1;
    x[n++] = 0; x[n++] = 0; x[n++] = 0; x[n++] = 0;
    start = n; n += 2;
    x[n++] = 0; x[n++] = 1; x[n++] = 0; x[n++] = 2; x[n++] = 0; x[n++] = 3;
    if (ptr) {
        if (ptr > 1) { x[n++] = 2; x[n++] = 'y'; x[n++] = 'x'; total += 3; }
        x[n++] = 0xc0; x[n++] = 12;
    } else for (k = 0; k < m; k++) x[n++] = nm[k];
    x[start] = (n - start - 2) >> 8; x[start + 1] = (n - start - 2) & 255;
    {
        unsigned char *y = malloc(n);
        VF_ASSUME(y != NULL);
        for (k = 0; k < n; k++) y[k] = x[k];
        r = resolver_srv_lookup_buf(NULL, y, n, &l);
    }
    VF_ASSERT(r == XMPP_DOMAIN_FOUND && l && !l->next, "C15: record found");
    for (k = 0; k < MAX_DOMAIN_LEN && l->target[k]; k++) {
        unsigned o = ptr > 1 ? 3 : 0;
        if (k >= o) VF_ASSERT(l->target[k] == (nm[k - o + 1] < 64 ? '.' : nm[k - o + 1]), "C15: target characters");
    }
    VF_ASSERT(k == (total < MAX_DOMAIN_LEN ? total : MAX_DOMAIN_LEN - 1), "C15: target shorter than 256 bytes, complete when it fits");
}
void harness(void)
{
    one(LTOTAL, LPTR);
    VF_REACH("end");
}
#endif

#if defined(T_SORT)
void harness(void)
{
    resolver_srv_rr_t *r[NMAX], *l = NULL, *p;
    int n = nd_range(0, NMAX), i, c = 0, seen[NMAX];
    for (i = NMAX - 1; i >= 0; i--) {
        r[i] = malloc(sizeof(*r[i]));
        VF_ASSUME(r[i] != NULL);
        r[i]->priority = nd_u16();
        r[i]->weight = nd_u16();
        r[i]->port = i;
        seen[i] = 0;
        if (i < n) { r[i]->next = l; l = r[i]; }
    }
    resolver_srv_list_sort(&l);
    for (p = l; p && c <= NMAX; p = p->next) {
        c++;
        seen[p->port]++;
        if (p->next)
            VF_ASSERT(p->priority < p->next->priority || (p->priority == p->next->priority && p->weight >= p->next->weight),
                      "C15: ordered by ascending priority then descending weight");
    }
    VF_ASSERT(c == n, "C15: sorting keeps the number of records");
    for (i = 0; i < NMAX; i++) VF_ASSERT(seen[i] == (i < n), "C15: sorting permutes the records");
    VF_REACH_IF(n == NMAX && l == r[NMAX - 1], "reordered");
}
#endif

#if defined(T_NAMEB)
void harness(void)
{
    unsigned char b[BMAX];
    char o[64], *nm;
    unsigned off = nd_range(0, BMAX - 1), r, e, ol = 0, i, max = nd_range(0, BMAX + 1), m;
    for (i = 0; i < BMAX; i++) b[i] = nd_u8();
    for (m = 0; m <= BMAX + 1; m++) if (max == m) { nm = malloc(m ? m : 1); VF_ASSUME(nm != NULL); break; }
    e = spec_name(b, BMAX, off, o, &ol);
    g_off = off;
    r = vf_real_message_name_get(b, BMAX, off, nm, max);
    VF_ASSERT(r == e, "C15: wire length of the name");
    if (r && max) {
        unsigned t = ol < max ? ol : max - 1;
        /* a compression pointer to the root leaves the separator: accepted */
        VF_ASSERT(nm[t] == 0 || (t + 1 < max && nm[t] == '.' && nm[t + 1] == 0), "C15: expanded name terminated at its length");
        for (i = 0; i < BMAX && i < t; i++) VF_ASSERT(nm[i] == o[i], "C15: expanded name");
    }
    VF_REACH_IF(r && max > 3 && off == 2 && b[2] == 1 && (b[4] & 0xc0) == 0xc0, "label and pointer");
}
#endif

#if defined(T_RRNEW)
void harness(void)
{
    unsigned short a = nd_u16(), b = nd_u16(), c = nd_u16();
    size_t k = nd_size_max(MAX_DOMAIN_LEN - 1);
    resolver_srv_rr_t *r = resolver_srv_rr_new(NULL, NULL, a, b, c);
    VF_ASSERT(r && r->next == NULL && r->port == a && r->priority == b && r->weight == c, "C15: new record carries port, priority and weight");
    VF_ASSERT(r->target[k] == 0, "C15: new record has an empty target");
    VF_REACH("end");
}
#endif
