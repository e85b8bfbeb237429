/*@unit
{"props": ["C19"],
 "functions": ["xmpp_jid_bare", "xmpp_jid_node", "xmpp_jid_domain", "xmpp_jid_resource"],
 "assumptions": ["strings shorter than 2^40 bytes in the unbounded JID proofs", "memcpy/free behave as specified by ISO C (CBMC library models)"],
 "runs": [
  {"name": "bare", "mode": "proof", "annotate": {"jid.c": {}}, "defs": ["T_PROOF", "T_BARE"], "cbmc": ["--sat-solver", "cadical"], "timeout": 300},
  {"name": "node", "mode": "proof", "annotate": {"jid.c": {}}, "defs": ["T_PROOF", "T_NODE"], "cbmc": ["--sat-solver", "cadical"], "timeout": 300},
  {"name": "domain", "mode": "proof", "annotate": {"jid.c": {}}, "defs": ["T_PROOF", "T_DOMAIN"], "cbmc": ["--sat-solver", "cadical"], "timeout": 300},
  {"name": "resource", "mode": "proof", "annotate": {"jid.c": {}}, "defs": ["T_PROOF", "T_RES"], "cbmc": ["--sat-solver", "cadical"], "timeout": 300},
  {"name": "split_b6", "mode": "bounded", "bound": "JID strings of at most 6 characters", "defs": ["BMAX=6"], "unwind": 11, "timeout": 300},
  {"name": "split_b9", "mode": "bounded", "tier": "thorough", "bound": "JID strings of at most 9 characters", "defs": ["BMAX=9"], "unwind": 14, "timeout": 600}
 ]}
*/
#include "vf.h"
#include "strophe.h"
#include "common.h"

/* ghost description of the argument: length, first '/', first '@' before it */
static char *g_jid;
static size_t L, R, A, W;

#ifdef T_PROOF
/* forall k: k<L => jid[k]!=0; k<R => jid[k]!='/'; k<A => jid[k]!='@'  -- instantiated at index k */
#define INST(k)                                                              \
    {                                                                        \
        if ((k) < L) __CPROVER_assume(g_jid[k] != 0);                        \
        if ((k) < R) __CPROVER_assume(g_jid[k] != '/');                      \
        if ((k) < A) __CPROVER_assume(g_jid[k] != '@');                      \
    }
/* distance from s to the first c or NUL, from the ghost description */
static size_t lim(const char *s, int c)
{
    size_t o = __CPROVER_POINTER_OFFSET(s);
    const char *base = s - o;
    size_t end = base[R] == 0 ? R : L;
    if (c == '/' && R < end) end = R;
    if (c == '@' && A < end && A < R && o <= A) end = A;
    return end - o;
}
static size_t vf_scan(const char *s, int c)
{
    size_t n = 0, m = lim(s, c), o = __CPROVER_POINTER_OFFSET(s);
    INST(o);
    while (s[n] != 0 && s[n] != (char)c)
        __CPROVER_assigns(n)
        __CPROVER_loop_invariant(n <= m && s[m] == __CPROVER_loop_entry(s[m]))
        __CPROVER_decreases(m - n)
    {
        n++;
        INST(o + n);
    }
    INST(o + n);
    return n;
}
static size_t vf_strlen(const char *s) { return vf_scan(s, 0); }
static char *vf_strchr(const char *s, int c)
{
    size_t n = vf_scan(s, c);
    return s[n] == (char)c ? (char *)s + n : NULL;
}
static size_t vf_strcspn(const char *s, const char *rej)
{
    VF_ASSERT(rej[0] != 0 && rej[1] == 0, "C19: strcspn model: single character set");
    return vf_scan(s, rej[0]);
}
#define strlen vf_strlen
#define strchr vf_strchr
#define strcspn vf_strcspn
#endif
#ifndef T_PROOF
#include "libc.h"
#endif
#include "mem.h"
#include "jid.c"

#ifdef T_PROOF
#define LENMAX ((1ul << 40) - 1)
void harness(void)
{
    L = nd_size_max(LENMAX);
    g_jid = malloc(L + 1);
    VF_ASSUME(g_jid != NULL && g_jid[L] == 0);
    R = nd_size_max(L);
    VF_ASSUME(R == L || g_jid[R] == '/');
    A = nd_size_max(R);
    VF_ASSUME(A == R || g_jid[A] == '@');
    W = nd_size_max(LENMAX);
    char *r;
    INST(L); INST(R); INST(A); INST(W);
#ifdef T_BARE
    r = xmpp_jid_bare(NULL, g_jid);
    VF_ASSERT(r != NULL && r[R] == 0, "C19: bare JID ends before the first '/'");
    if (W < R) VF_ASSERT(r[W] == g_jid[W], "C19: bare JID is the string without its resource");
#endif
#ifdef T_NODE
    r = xmpp_jid_node(NULL, g_jid);
    VF_ASSERT((r != NULL) == (A < R), "C19: node present iff '@' before the first '/'");
    if (r) {
        VF_ASSERT(r[A] == 0, "C19: node ends at the first '@'");
        if (W < A) VF_ASSERT(r[W] == g_jid[W], "C19: node text");
    }
#endif
#ifdef T_DOMAIN
    size_t s = A < R ? A + 1 : 0;
    r = xmpp_jid_domain(NULL, g_jid);
    VF_ASSERT(r != NULL && r[R - s] == 0, "C19: domain ends at the first '/'");
    if (W >= s && W < R) VF_ASSERT(r[W - s] == g_jid[W], "C19: domain text");
#endif
#ifdef T_RES
    r = xmpp_jid_resource(NULL, g_jid);
    VF_ASSERT((r != NULL) == (R < L), "C19: resource present iff '/'");
    if (r) {
        VF_ASSERT(r[L - R - 1] == 0, "C19: resource runs to the end");
        if (W > R && W < L) VF_ASSERT(r[W - R - 1] == g_jid[W], "C19: resource text");
    }
#endif
    VF_REACH_IF(r != NULL && A < R && R < L, "full jid");
    VF_REACH_IF(R == L, "no resource");
}
#else
static void one(const size_t len)
{
    size_t i, r, a, k = 0;
    char *j = malloc(len + 1), *bare, *node, *dom, *res, joined[2 * BMAX + 4];
    VF_ASSUME(j != NULL);
    for (i = 0; i < len; i++) {
        j[i] = nd_char();
        VF_ASSUME(j[i] != 0);
    }
    j[len] = 0;
    for (r = 0; r < len && j[r] != '/'; r++);
    for (a = 0; a < r && j[a] != '@'; a++);
    bare = xmpp_jid_bare(NULL, j);
    node = xmpp_jid_node(NULL, j);
    dom = xmpp_jid_domain(NULL, j);
    res = xmpp_jid_resource(NULL, j);
    VF_ASSERT(bare && strlen(bare) == r && !strncmp(bare, j, r), "C19: bare JID is the string without its resource");
    VF_ASSERT((node != NULL) == (a < r), "C19: node present iff '@' before the first '/'");
    VF_ASSERT((res != NULL) == (r < len), "C19: resource present iff '/'");
    VF_ASSERT(dom != NULL, "C19: domain returned");
    if (node) {
        VF_ASSERT(strlen(node) == a, "C19: node ends at the first '@'");
        for (i = 0; node[i]; i++) joined[k++] = node[i];
        joined[k++] = '@';
    }
    VF_ASSERT(strlen(dom) == r - (node ? a + 1 : 0), "C19: domain ends at the first '/'");
    for (i = 0; dom[i]; i++) joined[k++] = dom[i];
    if (res) {
        VF_ASSERT(strlen(res) == len - r - 1, "C19: resource runs to the end");
        joined[k++] = '/';
        for (i = 0; res[i]; i++) joined[k++] = res[i];
    }
    joined[k] = 0;
    VF_ASSERT(!strcmp(joined, j), "C19: joining the parts reproduces the string");
    if (len == BMAX)
        VF_REACH_IF(node && res, "full jid at the bound");
}
void harness(void)
{
    size_t len = nd_size_max(BMAX), l;
    for (l = 0; l <= BMAX; l++)
        if (len == l) {
            one(l);
            return;
        }
}
#endif
