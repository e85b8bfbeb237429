/*@unit
{"props": ["C19"],
 "functions": ["xmpp_jid_new"],
 "assumptions": ["strings shorter than 2^40 bytes in the unbounded JID proofs", "memcpy/free behave as specified by ISO C (CBMC library models)"],
 "runs": [
  {"name": "new", "mode": "proof", "annotate": {"jid.c": {}}, "defs": ["T_PROOF"], "cbmc": ["--sat-solver", "cadical"], "unwind": 20, "timeout": 300},
  {"name": "new_small", "mode": "bounded", "bound": "parts shorter than 1100 bytes", "replay": true, "annotate": {"jid.c": {}}, "defs": ["T_PROOF", "LENMAX=1100"], "cbmc": ["--sat-solver", "cadical"], "unwind": 20, "timeout": 300},
  {"name": "round_b2", "mode": "bounded", "bound": "each part at most 2 characters, 3 together", "defs": ["BMAX=2", "SUM=3"], "unwind": 11, "objbits": 13, "timeout": 300},
  {"name": "round_b3", "mode": "bounded", "tier": "thorough", "bound": "each part at most 2 characters, 4 together", "defs": ["BMAX=2", "SUM=4"], "unwind": 14, "objbits": 14, "timeout": 800}
 ]}
*/
#include "vf.h"
#include "strophe.h"
#include "common.h"

static int badchar(char c)
{
    return c == '"' || c == '&' || c == '\'' || c == '/' || c == ':' || c == '<' || c == '>' || c == '@';
}
#ifdef T_PROOF
/* in native replay the strings are filled concretely instead */
static char *N, *D, *Z;     /* node, domain, resource */
static size_t LN, LD, LZ, C; /* lengths, first forbidden character of the node */
#ifdef VF_CBMC
#define INST(s, k)                                                                \
    {                                                                             \
        if ((s) == N && (k) < LN) __CPROVER_assume(N[k] != 0);                    \
        if ((s) == N && (k) < C) __CPROVER_assume(!badchar(N[k]));                \
        if ((s) == D && (k) < LD) __CPROVER_assume(D[k] != 0);                    \
        if ((s) == Z && (k) < LZ) __CPROVER_assume(Z[k] != 0);                    \
    }
static size_t vf_scan(const char *s, const unsigned char *stop, size_t m)
{
    size_t n = 0;
    INST(s, 0);
    while (!stop[(unsigned char)s[n]])
        __CPROVER_assigns(n)
        __CPROVER_loop_invariant(n <= m)
        __CPROVER_decreases(m - n)
    {
        n++;
        INST(s, n);
    }
    INST(s, n);
    return n;
}
static size_t vf_strlen(const char *s)
{
    VF_ASSERT(s == N || s == D || s == Z, "C19: strlen model: argument is one of the parts");
    return s == N ? LN : s == D ? LD : LZ;
}
static size_t vf_strcspn(const char *s, const char *rej)
{
    unsigned char stoptab[256] = {0};
    size_t k;
    VF_ASSERT(s == N || s == D || s == Z, "C19: strcspn model: argument is one of the parts");
    for (k = 0; k < 16 && rej[k]; k++) stoptab[(unsigned char)rej[k]] = 1;
    stoptab[0] = 1;
    return vf_scan(s, stoptab, s == N ? (C < LN && stoptab[(unsigned char)N[C]] ? C : LN) : s == D ? LD : LZ);
}
#define strlen vf_strlen
#define strcspn vf_strcspn
#else
#define INST(s, k)
#endif
#else
#include "libc.h"
#endif
#include "mem.h"
#include "jid.c"

#ifdef T_PROOF
#ifndef LENMAX
#define LENMAX ((1ul << 40) - 1)
#endif
static char *part(size_t *len)
{
    char *p;
    *len = nd_size_max(LENMAX);
    p = malloc(*len + 1);
#ifndef VF_CBMC
    memset(p, 'x', *len);
    p[*len] = 0;
#endif
    VF_ASSUME(p != NULL && p[*len] == 0);
    return p;
}
void harness(void)
{
    _Bool hn = nd_bool(), hd = nd_bool(), hz = nd_bool();
    size_t W = nd_size_max(LENMAX), o;
    char *r, bc;
    N = part(&LN); D = part(&LD); Z = part(&LZ);
    C = nd_size_max(LN);
    bc = nd_char();
#ifndef VF_CBMC
    if (C < LN) N[C] = bc;
#endif
    VF_ASSUME(C == LN || N[C] == bc);
    VF_ASSUME(C == LN || (badchar(N[C]) && N[C] != 0));
    INST(N, C); INST(N, LN);
    r = xmpp_jid_new(NULL, hn ? N : NULL, hd ? D : NULL, hz ? Z : NULL);
    VF_ASSERT((r != NULL) == (hd && LD <= 1023 && (!hn || (LN <= 1023 && C == LN)) && (!hz || LZ <= 1023)),
              "C19: a JID is built exactly when the parts are valid");
    if (r) {
        o = hn ? LN + 1 : 0;
        if (hn) {
            VF_ASSERT(r[LN] == '@', "C19: '@' after the local part");
            if (W < LN) VF_ASSERT(r[W] == N[W], "C19: local part text");
        }
        if (W < LD) VF_ASSERT(r[o + W] == D[W], "C19: domain text");
        if (hz) {
            VF_ASSERT(r[o + LD] == '/', "C19: '/' before the resource");
            if (W < LZ) VF_ASSERT(r[o + LD + 1 + W] == Z[W], "C19: resource text");
            VF_ASSERT(r[o + LD + 1 + LZ] == 0, "C19: JID terminated");
        } else
            VF_ASSERT(r[o + LD] == 0, "C19: JID terminated");
    }
    VF_REACH_IF(r && hn && hz && LN > 5 && LZ > 5, "full jid built");
    VF_REACH_IF(!r && hd && hn && LN == 10 && LD == 10, "refused for a character");
}
#else
static char *part(const size_t l)
{
    size_t i;
    char *p = malloc(l + 1);
    VF_ASSUME(p != NULL);
    for (i = 0; i < l; i++) {
        p[i] = nd_char();
        VF_ASSUME(p[i] != 0);
    }
    p[l] = 0;
    return p;
}
static void one(const size_t ln, const size_t ld, const size_t lz)
{
    _Bool hn = nd_bool(), hd = nd_bool(), hz = nd_bool();
    char *n = part(ln), *d = part(ld), *z = part(lz), *r, *x;
    size_t i;
    int bad = 0, dbad = 0;
    for (i = 0; i < ln; i++) bad |= badchar(n[i]);
    for (i = 0; i < ld; i++) dbad |= d[i] == '/' || d[i] == '@';
    r = xmpp_jid_new(NULL, hn ? n : NULL, hd ? d : NULL, hz ? z : NULL);
    if (!hd || (hn && bad)) VF_ASSERT(r == NULL, "C19: invalid local part or missing domain refused");
    else VF_ASSERT(r != NULL, "C19: valid parts accepted");
    if (r && !dbad) {
        x = xmpp_jid_node(NULL, r);
        VF_ASSERT(hn ? x && !strcmp(x, n) : !x, "C19: node of the built JID");
        x = xmpp_jid_domain(NULL, r);
        VF_ASSERT(x && !strcmp(x, d), "C19: domain of the built JID");
        x = xmpp_jid_resource(NULL, r);
        VF_ASSERT(hz ? x && !strcmp(x, z) : !x, "C19: resource of the built JID");
    }
    if (ln == 1 && ld == 1 && lz == 1)
        VF_REACH_IF(r && hn && hz, "full jid");
}
void harness(void)
{
    size_t ln = nd_size_max(BMAX), ld = nd_size_max(BMAX), lz = nd_size_max(BMAX), a, b, c;
    for (a = 0; a <= BMAX; a++)
        for (b = 0; b <= BMAX; b++)
            for (c = 0; c <= BMAX; c++)
                if (a + b + c <= SUM && ln == a && ld == b && lz == c) {
                    one(a, b, c);
                    return;
                }
}
#endif
