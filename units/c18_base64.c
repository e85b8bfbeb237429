/*@unit
{"props": ["C18", "C01", "C07"],
 "functions": ["base64_encode", "base64_encoded_len", "base64_decode", "base64_decoded_len", "xmpp_base64_encode", "xmpp_base64_decode_str", "xmpp_base64_decode_bin"],
 "assumptions": ["input length below 2^40 bytes in the unbounded base64 proofs"],
 "runs": [
  {"name": "dec_value", "mode": "proof", "props": ["C18"], "annotate": {"crypto.c": {"base64_decode": 1, "base64_decoded_len": 1}},
   "defs": ["T_DEC", "VALUE"], "checks": ["--no-standard-checks"], "cbmc": ["--sat-solver", "cadical"], "timeout": 400},
  {"name": "dec_complete", "mode": "proof", "props": ["C18"], "annotate": {"crypto.c": {"base64_decode": 1, "base64_decoded_len": 1}},
   "defs": ["T_DEC", "COMPLETE"], "checks": ["--no-standard-checks"], "cbmc": ["--sat-solver", "cadical"], "timeout": 400},
  {"name": "dec_safe", "mode": "proof", "props": ["C18", "C01"], "annotate": {"crypto.c": {"base64_decode": 1, "base64_decoded_len": 1}},
   "defs": ["T_DEC", "SAFE"], "cbmc": ["--sat-solver", "cadical"], "timeout": 400},
  {"name": "enc_value", "mode": "proof", "props": ["C18"], "annotate": {"crypto.c": {"base64_encode": 1}},
   "defs": ["T_ENC", "VALUE"], "checks": ["--no-standard-checks"], "cbmc": ["--sat-solver", "cadical"], "timeout": 400},
  {"name": "enc_safe", "mode": "proof", "props": ["C18"], "annotate": {"crypto.c": {"base64_encode": 1}},
   "defs": ["T_ENC", "SAFE"], "cbmc": ["--sat-solver", "cadical"], "timeout": 400},
  {"name": "dec_b8", "mode": "bounded", "bound": "encoded length <= 8 bytes", "defs": ["T_BDEC", "BMAX=8"], "unwind": 18, "timeout": 300},
  {"name": "dec_b20", "mode": "bounded", "tier": "thorough", "bound": "encoded length <= 20 bytes", "defs": ["T_BDEC", "BMAX=20"], "unwind": 26, "timeout": 600},
  {"name": "enc_b8", "mode": "bounded", "bound": "input length <= 8 bytes", "defs": ["T_BENC", "BMAX=8"], "unwind": 18, "timeout": 300}
 ]}
*/
#include "vf.h"
#include "strophe.h"
#include "common.h"
#include "mem.h"

/* ---- specification: RFC 4648 alphabet ---- */
static const unsigned char VT[256] = {
    65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65,
    65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 62, 65, 65, 65, 63, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 65, 65, 65, 64, 65, 65,
    65, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 65, 65, 65, 65, 65,
    65, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 65, 65, 65, 65, 65,
    65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65,
    65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65,
    65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65,
    65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65, 65,
};
#define V(x) VT[(unsigned char)(x)]
static const char AL[65] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=";
/* byte r (0..2) decoded from quartet starting at b[q] */
#define DECB(b, q, r)                                                   \
    ((unsigned char)((r) == 0   ? ((V((b)[q]) << 2) | (V((b)[(q) + 1]) >> 4))        \
                     : (r) == 1 ? ((V((b)[(q) + 1]) << 4) | (V((b)[(q) + 2]) >> 2))  \
                                : ((V((b)[(q) + 2]) << 6) | V((b)[(q) + 3]))))
/* character r (0..3) of the quartet encoding triple b[t..t+2] */
#define ENCC(b, t, r)                                                            \
    AL[(r) == 0   ? (b)[t] >> 2                                                  \
       : (r) == 1 ? (((b)[t] & 3) << 4 | (b)[(t) + 1] >> 4)                      \
       : (r) == 2 ? (((b)[(t) + 1] & 15) << 2 | (b)[(t) + 2] >> 6)               \
                  : ((b)[(t) + 2] & 63)]

static size_t WQ, WR, G; /* arbitrary witnesses */
static size_t g_len, g_pads;

#define INST(b, k) __CPROVER_assume((k) < g_len - g_pads ? V((b)[k]) < 64 : (b)[k] == '=')

/* ---- loop contracts (empty outside the proof runs) ---- */
#if defined(T_DEC)
#if defined(VALUE) || defined(COMPLETE)
#define GINV(x) x
#else
#define GINV(x)
#endif
#ifdef VALUE
#define VALINV(x) x
#else
#define VALINV(x)
#endif
#define LC_base64_decode_1                                                                     \
    __CPROVER_assigns(i, word, hextet, d, __CPROVER_object_whole(dbuf))                        \
    __CPROVER_loop_invariant((i & 3) == 0 && i <= len && __CPROVER_same_object(d, dbuf))       \
    __CPROVER_loop_invariant(4 * (size_t)__CPROVER_POINTER_OFFSET(d) == 3 * i && hextet < 64)  \
    VALINV(__CPROVER_loop_invariant((4 * WQ < i) ==> dbuf[3 * WQ + WR] == DECB(buffer, 4 * WQ, WR))) \
    GINV(__CPROVER_loop_invariant((G < i) ==> V(buffer[G]) < 64))                              \
    __CPROVER_decreases(len - i)
#define LC_base64_decoded_len_1                                                                \
    __CPROVER_assigns(i, nudge, c)                                                             \
    __CPROVER_loop_invariant(i <= len && nudge == len - i)                                     \
    __CPROVER_loop_invariant((i <= G && G < len) ==> buffer[G] == '=')                         \
    __CPROVER_loop_invariant((i < len ==> buffer[len - 1] == '=') && (i + 1 < len ==> buffer[len - 2] == '=') && (i + 2 < len ==> buffer[len - 3] == '=')) \
    __CPROVER_decreases(i)
#ifdef COMPLETE
#define LB_base64_decode_1 INST(buffer, i); INST(buffer, i + 1); INST(buffer, i + 2); INST(buffer, i + 3);
#define LB_base64_decoded_len_1 INST(buffer, i - 1);
#else
#define LB_base64_decode_1
#define LB_base64_decoded_len_1
#endif
#endif
#if defined(T_ENC)
#ifdef VALUE
#define VALINV(x) x
#else
#define VALINV(x)
#endif
#define LC_base64_encode_1                                                                     \
    __CPROVER_assigns(i, word, hextet, c, __CPROVER_object_whole(cbuf))                        \
    __CPROVER_loop_invariant(i <= len && __CPROVER_same_object(c, cbuf))                       \
    __CPROVER_loop_invariant(3 * (size_t)__CPROVER_POINTER_OFFSET(c) == 4 * i)                 \
    VALINV(__CPROVER_loop_invariant((3 * WQ < i) ==> cbuf[4 * WQ + WR] == ENCC(buffer, 3 * WQ, WR))) \
    __CPROVER_decreases(len - i)
#define LB_base64_encode_1
#endif

#include "crypto.c"

#if defined(T_DEC) || defined(T_ENC)
#define LENMAX ((1ul << 40) - 1)
void harness(void)
{
    size_t len = nd_size_max(LENMAX);
    WQ = nd_size_max(LENMAX);
    WR = nd_size_max(3);
    G = nd_size();
    char *b = malloc(len + 1);
    VF_ASSUME(b != NULL);
    g_len = len;
#ifdef T_DEC
    unsigned char *out;
    size_t ol;
    VF_ASSUME(WR < 3);
#ifdef COMPLETE
    /* requires: b is a correctly padded base64 string */
    g_pads = nd_size_max(2);
    VF_ASSUME(len > 0 && (len & 3) == 0);
    G = len - 1;
    INST(b, len - 1); INST(b, len - 2); INST(b, len - 3); INST(b, len - 4);
#endif
    base64_decode(NULL, b, len, &out, &ol);
    VF_REACH_IF(out != NULL, "decode accepts");
#ifdef COMPLETE
    VF_ASSERT(out != NULL && ol == 3 * (len >> 2) - g_pads, "C18: every correctly padded string is accepted");
#elif defined(VALUE)
    VF_REACH_IF(out == NULL, "decode refuses");
    if (out) {
        size_t pads = b[len - 1] != '=' ? 0 : b[len - 2] != '=' ? 1 : 2;
        VF_ASSERT((len & 3) == 0 && len > 0, "C18: accepted length is a positive multiple of 4");
        VF_ASSERT(ol == 3 * (len >> 2) - pads, "C18: decoded length is exact");
        if (3 * WQ + WR < ol)
            VF_ASSERT(out[3 * WQ + WR] == DECB(b, 4 * WQ, WR), "C18: decoded byte equals RFC 4648 value");
        if (G < len - pads)
            VF_ASSERT(V(b[G]) < 64, "C18: only alphabet characters accepted before the padding");
    } else
        VF_ASSERT(ol == 0, "C18: failure reports length 0");
#else
    if (out) {
        VF_ASSERT(__CPROVER_r_ok(out, ol + 1), "C18: result buffer holds outlen bytes and a NUL");
        VF_ASSERT(out[ol] == 0, "C18: decoded data NUL terminated");
    }
#endif
#else
    char *out = base64_encode(NULL, (unsigned char *)b, len);
    const unsigned char *ub = (const unsigned char *)b;
    size_t n = ((len + 2) / 3) * 4;
#ifdef VALUE
    if (3 * WQ + 3 <= len)
        VF_ASSERT(out[4 * WQ + WR] == ENCC(ub, 3 * WQ, WR), "C18: encoded character equals RFC 4648 value");
    else if (3 * WQ + 2 == len)
        VF_ASSERT(out[4 * WQ + WR] == (WR == 0   ? AL[ub[len - 2] >> 2]
                                       : WR == 1 ? AL[(ub[len - 2] & 3) << 4 | ub[len - 1] >> 4]
                                       : WR == 2 ? AL[(ub[len - 1] & 15) << 2]
                                                 : '='), "C18: encoded tail of 2 bytes");
    else if (3 * WQ + 1 == len)
        VF_ASSERT(out[4 * WQ + WR] == (WR == 0 ? AL[ub[len - 1] >> 2] : WR == 1 ? AL[(ub[len - 1] & 3) << 4] : '='), "C18: encoded tail of 1 byte");
    VF_ASSERT(out[n] == 0, "C18: encoded string ends after 4*ceil(len/3) characters");
#endif
    (void)ub; (void)n;
    VF_REACH("encode returns");
#endif
}
#endif

#if defined(T_BDEC)
/* bounded: the public wrappers over an arbitrary byte string of <= BMAX bytes */
static void spec_decode(const unsigned char *b, size_t len, int *ok, unsigned char *o, size_t *ol)
{
    size_t i, pads = 0;
    *ok = 0; *ol = 0;
    if (len == 0 || len % 4) return;
    if (b[len - 1] == '=') pads = b[len - 2] == '=' ? 2 : 1;
    for (i = 0; i < len - pads; i++)
        if (VT[b[i]] > 63) return;
    for (i = 0; i + 4 <= len; i += 4) {
        o[(*ol)++] = DECB(b, i, 0);
        o[(*ol)++] = DECB(b, i, 1);
        o[(*ol)++] = DECB(b, i, 2);
    }
    *ol -= pads;
    *ok = 1;
}
static void one(const size_t len)
{
    size_t i, sl, ol = 7;
    char *b = malloc(len ? len : 1);
    unsigned char o[BMAX + 3], *out = (unsigned char *)b;
    int ok, nul = 0;
    char *s;
    VF_ASSUME(b != NULL);
    for (i = 0; i < len; i++) b[i] = nd_char();
    spec_decode((unsigned char *)b, len, &ok, o, &sl);
    xmpp_base64_decode_bin(NULL, b, len, &out, &ol);
    if (len) {
        VF_ASSERT((out != NULL) == (ok != 0), "C18: decode accepts exactly the correctly padded strings");
        if (out) {
            VF_ASSERT(ol == sl, "C18: decoded length is exact");
            for (i = 0; i < sl; i++) {
                VF_ASSERT(out[i] == o[i], "C18: decoded byte equals RFC 4648 value");
                if (o[i] == 0) nul = 1;
            }
        } else
            VF_ASSERT(ol == 0, "C18: failure reports length 0");
    }
    s = xmpp_base64_decode_str(NULL, b, len);
    if (len == 0)
        VF_ASSERT(s != NULL && s[0] == 0, "C18: empty string decodes to the empty string");
    else {
        VF_ASSERT((s != NULL) == (ok && !nul), "C18: string variant refuses exactly failures and embedded NUL");
        if (s) {
            for (i = 0; i < sl; i++) VF_ASSERT((unsigned char)s[i] == o[i], "C18: string variant value");
            VF_ASSERT(s[sl] == 0, "C18: string variant terminated");
        }
    }
    if (len == BMAX)
        VF_REACH_IF(s != NULL, "string accepted at the bound");
    if (len == BMAX)
        VF_REACH_IF(out == NULL, "refusal");
}
void harness(void)
{
    size_t len = nd_size_max(BMAX), l;
    for (l = 0; l <= BMAX; l++)
        if (len == l) {
            one(l);
            return;
        }
}
#endif

#if defined(T_BENC)
static void one(const size_t len)
{
    size_t i, n, ol;
    unsigned char *b = malloc(len ? len : 1), *out;
    char *s;
    VF_ASSUME(b != NULL);
    for (i = 0; i < len; i++) b[i] = nd_u8();
    s = xmpp_base64_encode(NULL, b, len);
    VF_ASSERT(s != NULL, "C18: encode succeeds");
    n = (len + 2) / 3 * 4;
    for (i = 0; i < n; i++) {
        size_t t = i / 4 * 3;
        unsigned char t3[3];
        t3[0] = b[t]; t3[1] = t + 1 < len ? b[t + 1] : 0; t3[2] = t + 2 < len ? b[t + 2] : 0;
        char want = (i % 4 == 2 && t + 1 >= len) || (i % 4 == 3 && t + 2 >= len) ? '=' : ENCC(t3, 0, i % 4);
        VF_ASSERT(s[i] == want, "C18: canonical RFC 4648 encoding");
    }
    VF_ASSERT(s[n] == 0, "C18: encoding has exactly 4*ceil(len/3) characters");
    if (len) {
        xmpp_base64_decode_bin(NULL, s, n, &out, &ol);
        VF_ASSERT(out != NULL && ol == len, "C18: round trip length");
        for (i = 0; i < len; i++) VF_ASSERT(out[i] == b[i], "C18: round trip value");
    }
    if (len == BMAX)
        VF_REACH("bound reached");
}
void harness(void)
{
    size_t len = nd_size_max(BMAX), l;
    for (l = 0; l <= BMAX; l++)
        if (len == l) {
            one(l);
            return;
        }
}
#endif
