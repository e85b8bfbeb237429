/*@unit
{"props": ["C17"],
 "functions": ["crypto_SHA1_Init", "crypto_SHA1_Update", "crypto_SHA1_Final", "crypto_SHA1", "SHA1_Transform", "sha256_init", "sha256_process", "sha256_done", "sha256_hash", "sha256_compress", "sha512_init", "sha512_process", "sha512_done", "sha512_hash", "sha512_compress", "MD5Init", "MD5Update", "MD5Final", "MD5Transform"],
 "assumptions": ["messages below 2^40 bytes per update call and 2^56 bytes in total", "the block compression functions equal FIPS 180-4 / RFC 1321 on all blocks; discharged by equivalence only where a compress_* run is listed as proved, otherwise checked on the listed vectors"],
 "runs": [
  {"name": "sha1_update", "mode": "proof", "rename": {"sha1.c": ["SHA1_Transform"]}, "annotate": {"sha1.c": {"crypto_SHA1_Update": 1}}, "defs": ["SHA1", "T_UPD"], "cbmc": ["--sat-solver", "cadical"], "timeout": 300},
  {"name": "sha256_update", "mode": "proof", "rename": {"sha256.c": ["sha256_compress"]}, "annotate": {"sha256.c": {"sha256_process": 1}}, "defs": ["SHA256", "T_UPD"], "cbmc": ["--sat-solver", "cadical"], "timeout": 300},
  {"name": "sha512_update", "mode": "proof", "rename": {"sha512.c": ["sha512_compress"]}, "annotate": {"sha512.c": {"sha512_process": 1}}, "defs": ["SHA512", "T_UPD"], "cbmc": ["--sat-solver", "cadical"], "timeout": 300},
  {"name": "md5_update", "mode": "proof", "rename": {"md5.c": ["MD5Transform"]}, "annotate": {"md5.c": {"MD5Update": 1}}, "defs": ["MD5", "T_UPD"], "cbmc": ["--sat-solver", "cadical"], "timeout": 300},
  {"name": "sha1_final", "mode": "proof", "rename": {"sha1.c": ["SHA1_Transform", "crypto_SHA1_Update"]}, "defs": ["SHA1", "T_FIN"], "unwind": 130, "timeout": 300},
  {"name": "sha256_final", "mode": "proof", "rename": {"sha256.c": ["sha256_compress"]}, "defs": ["SHA256", "T_FIN"], "unwind": 130, "timeout": 300},
  {"name": "sha512_final", "mode": "proof", "rename": {"sha512.c": ["sha512_compress"]}, "defs": ["SHA512", "T_FIN"], "unwind": 258, "timeout": 300},
  {"name": "md5_final", "mode": "proof", "rename": {"md5.c": ["MD5Transform"]}, "defs": ["MD5", "T_FIN"], "unwind": 130, "timeout": 300},
  {"name": "sha1_upd_b", "mode": "bounded", "bound": "one update call of at most 200 bytes from any context", "rename": {"sha1.c": ["SHA1_Transform"]}, "replay": true, "annotate": {"sha1.c": {"crypto_SHA1_Update": 1}}, "defs": ["SHA1", "T_UPD", "LENMAX=200"], "cbmc": ["--sat-solver", "cadical"], "when": "fallback", "timeout": 200},
  {"name": "sha1_vecq", "mode": "bounded", "cases": [6, 7], "bound": "patterned messages of 0, 3, 64 and 130 (split 1/63/66) bytes", "defs": ["SHA1", "T_VEC"], "unwind": 1000, "cbmc": ["--max-field-sensitivity-array-size", "1024"], "timeout": 300},
  {"name": "sha1_vec", "mode": "bounded", "tier": "thorough", "cases": [0, 5], "bound": "patterned messages of 0..300 bytes (padding boundaries), whole and split", "defs": ["SHA1", "T_VEC"], "unwind": 1000, "cbmc": ["--max-field-sensitivity-array-size", "1024"], "timeout": 300},
  {"name": "sha256_vecq", "mode": "bounded", "cases": [6, 7], "bound": "patterned messages of 0, 3, 64 and 130 (split 1/63/66) bytes", "defs": ["SHA256", "T_VEC"], "unwind": 1000, "cbmc": ["--max-field-sensitivity-array-size", "1024"], "timeout": 300},
  {"name": "sha256_vec", "mode": "bounded", "tier": "thorough", "cases": [0, 5], "bound": "patterned messages of 0..300 bytes (padding boundaries), whole and split", "defs": ["SHA256", "T_VEC"], "unwind": 1000, "cbmc": ["--max-field-sensitivity-array-size", "1024"], "timeout": 300},
  {"name": "sha512_vecq", "mode": "bounded", "cases": [6, 7], "bound": "patterned messages of 0, 3, 64 and 130 (split 1/63/66) bytes", "defs": ["SHA512", "T_VEC"], "unwind": 1000, "cbmc": ["--max-field-sensitivity-array-size", "1024"], "timeout": 300},
  {"name": "sha512_vec", "mode": "bounded", "tier": "thorough", "cases": [0, 5], "bound": "patterned messages of 0..300 bytes (padding boundaries), whole and split", "defs": ["SHA512", "T_VEC"], "unwind": 1000, "cbmc": ["--max-field-sensitivity-array-size", "1024"], "timeout": 300},
  {"name": "md5_vecq", "mode": "bounded", "cases": [6, 7], "bound": "patterned messages of 0, 3, 64 and 130 (split 1/63/66) bytes", "defs": ["MD5", "T_VEC"], "unwind": 1000, "cbmc": ["--max-field-sensitivity-array-size", "1024"], "timeout": 300},
  {"name": "md5_vec", "mode": "bounded", "tier": "thorough", "cases": [0, 5], "bound": "patterned messages of 0..300 bytes (padding boundaries), whole and split", "defs": ["MD5", "T_VEC"], "unwind": 1000, "cbmc": ["--max-field-sensitivity-array-size", "1024"], "timeout": 300}
 ]}
*/
#include "vf.h"
#if defined(SHA1)
#include "sha1.h"
#define BLK 64
#define CTX SHA1_CTX
#define NS 5
#define DLEN 20
#define WORD uint32_t
#define UPDATE(c, p, n) crypto_SHA1_Update(c, p, n)
#define FINAL(c, d) crypto_SHA1_Final(c, d)
#define INIT(c) crypto_SHA1_Init(c)
#define STATE(c) ((c)->state)
#define BUF(c) ((c)->buffer)
#define CUR(c) (((c)->count[0] >> 3) & 63)
#define BITS(c) (((uint64_t)(c)->count[1] << 32) + (c)->count[0])
#define SETLEN(c, blocks, cur) { uint64_t vf_b = ((uint64_t)(blocks) * 64 + (cur)) * 8; (c)->count[0] = (uint32_t)vf_b; (c)->count[1] = (uint32_t)(vf_b >> 32); }
#elif defined(SHA256)
#include "sha256.h"
#define BLK 64
#define CTX sha256_context
#define NS 8
#define DLEN 32
#define WORD uint32_t
#define UPDATE(c, p, n) sha256_process(c, p, n)
#define FINAL(c, d) sha256_done(c, d)
#define INIT(c) sha256_init(c)
#define STATE(c) ((c)->state)
#define BUF(c) ((c)->buf)
#define CUR(c) ((c)->curlen)
#define BITS(c) ((c)->length + 8 * (uint64_t)(c)->curlen)
#define SETLEN(c, blocks, cur) { (c)->length = (uint64_t)(blocks) * 512; (c)->curlen = (cur); }
#elif defined(SHA512)
#include "sha512.h"
#define BLK 128
#define CTX sha512_context
#define NS 8
#define DLEN 64
#define WORD uint64_t
#define UPDATE(c, p, n) sha512_process(c, p, n)
#define FINAL(c, d) sha512_done(c, d)
#define INIT(c) sha512_init(c)
#define STATE(c) ((c)->state)
#define BUF(c) ((c)->buf)
#define CUR(c) ((c)->curlen)
#define BITS(c) ((c)->length + 8 * (uint64_t)(c)->curlen)
#define SETLEN(c, blocks, cur) { (c)->length = (uint64_t)(blocks) * 1024; (c)->curlen = (cur); }
#else
#include "md5.h"
#define BLK 64
#define CTX struct MD5Context
#define NS 4
#define DLEN 16
#define WORD uint32_t
#define UPDATE(c, p, n) MD5Update(c, p, (uint32_t)(n))
#define FINAL(c, d) MD5Final(d, c)
#define INIT(c) MD5Init(c)
#define STATE(c) ((c)->buf)
#define BUF(c) ((c)->in)
#define CUR(c) (((c)->bits[0] >> 3) & 63)
#define BITS(c) (((uint64_t)(c)->bits[1] << 32) + (c)->bits[0])
#define SETLEN(c, blocks, cur) { uint64_t vf_b = ((uint64_t)(blocks) * 64 + (cur)) * 8; (c)->bits[0] = (uint32_t)vf_b; (c)->bits[1] = (uint32_t)(vf_b >> 32); }
#endif

/* ghost: message = old partial block (cur0 bytes) ++ data (len bytes) */
static size_t cur0, g_len, g_n, W, g_n0;
static unsigned char g_old[BLK];
static const unsigned char *g_data;
#define MSG(i) ((i) < cur0 ? g_old[(i) & (BLK - 1)] : g_data[(i) - cur0])

#if defined(T_UPD)
/* compression contract: consumes the next whole block of the message, state arbitrary */
static void vf_block(const unsigned char *b)
{
    VF_ASSERT((g_n + 1) * BLK <= cur0 + g_len, "C17: no more blocks than the message holds");
    VF_ASSERT(b[W] == MSG(g_n * BLK + W), "C17: compression receives the message's next block");
    g_n++;
}
#elif defined(T_FIN)
static unsigned char g_exp[2 * BLK];
static int g_exp_n;
static WORD g_out[NS];
static void vf_block2(WORD *st, const unsigned char *b)
{
    int i;
    if (g_n < (size_t)g_exp_n) {
        for (i = 0; i < BLK; i++)
            VF_ASSERT(b[i] == g_exp[g_n * BLK + i], "C17: final blocks carry the standard padding and length");
        for (i = 0; i < NS; i++) {
            st[i] = (WORD)nd_u64();
            if (g_n + 1 == (size_t)g_exp_n) g_out[i] = st[i];
        }
    }
    g_n++;
}
#define vf_block(b) vf_block2(vf_st, b)
#endif
#if defined(T_UPD) || defined(T_FIN)
#if defined(SHA1)
#ifdef T_FIN
/* contract of crypto_SHA1_Update, discharged by sha1_update: appends to the message, counts its bits */
static unsigned g_t;
static void SHA1_Transform(uint32_t state[5], const uint8_t buffer[64]) { (void)state; (void)buffer; }
void crypto_SHA1_Update(SHA1_CTX *c, const uint8_t *data, size_t len)
{
    uint64_t b = BITS(c) + 8 * (uint64_t)len;
    size_t k;
    int i;
    VF_ASSERT(len <= 8, "C17: padding is appended byte-wise, then the length");
    VF_ASSERT(g_t + len <= (unsigned)g_exp_n * BLK, "C17: exactly the standard padding and length");
    for (k = 0; k < 8; k++)
        if (k < len && g_t + k == W) VF_ASSERT(data[k] == g_exp[W], "C17: final blocks carry the standard padding and length");
    g_t += len;
    g_n = g_t / BLK;
    c->count[0] = (uint32_t)b; c->count[1] = (uint32_t)(b >> 32);
    for (i = 0; i < NS; i++) g_out[i] = c->state[i] = (uint32_t)nd_u32();
}
#else
static void SHA1_Transform(uint32_t state[5], const uint8_t buffer[64]) { uint32_t *vf_st = state; vf_block(buffer); }
#endif
#elif defined(SHA256)
static void sha256_compress(sha256_context *md, const uint8_t *buf) { uint32_t *vf_st = md->state; vf_block(buf); }
#elif defined(SHA512)
static void sha512_compress(sha512_context *md, const uint8_t *buf) { uint64_t *vf_st = md->state; vf_block(buf); }
#else
static void MD5Transform(uint32_t buf[4], const unsigned char in[64]) { uint32_t *vf_st = buf; vf_block(in); }
#endif
#endif

static void *vf_memset(void *p, int c, size_t n)
{
    size_t k;
    for (k = 0; k < n; k++) ((unsigned char *)p)[k] = (unsigned char)c;
    return p;
}
#define memset vf_memset
#if defined(T_UPD) && defined(VF_CBMC)
/* ISO C memcpy, observed at the witness position of the partial-block buffer
 * (the functions under contract read no other buffer byte themselves) */
static CTX *g_c;
static void *vf_memcpy(void *dst, const void *src, size_t n)
{
    VF_ASSERT(__CPROVER_r_ok(src, n), "C17: copy source readable");
    VF_ASSERT(__CPROVER_w_ok(dst, n) && __CPROVER_same_object(dst, BUF(g_c)), "C17: copy goes into the context");
    size_t o = __CPROVER_POINTER_OFFSET(dst) - __CPROVER_POINTER_OFFSET(BUF(g_c));
    VF_ASSERT(o <= BLK && n <= BLK - o, "C17: copy stays inside the partial block buffer");
    if (W >= o && W - o < n) BUF(g_c)[W] = ((const unsigned char *)src)[W - o];
    return dst;
}
#define memcpy vf_memcpy
#endif
/* loop contracts */
#define LC_crypto_SHA1_Update_1                                                     \
    __CPROVER_assigns(i, g_n)                                                       \
    __CPROVER_loop_invariant(i <= len && cur0 + i == BLK * g_n && 1 <= g_n && g_n <= g_len)         \
    __CPROVER_decreases(len - i)
#define LB_crypto_SHA1_Update_1
#define PROC_INV                                                                    \
    __CPROVER_assigns(n, in, inlen, md->curlen, md->length, __CPROVER_object_upto(md->buf, BLK), g_n) \
    __CPROVER_loop_invariant(inlen <= g_len && in == g_data + (g_len - inlen))      \
    __CPROVER_loop_invariant(md->curlen < BLK && cur0 + (g_len - inlen) == BLK * g_n + md->curlen && g_n <= g_len) \
    __CPROVER_loop_invariant(md->length == 8 * BLK * (g_n0 + g_n))                  \
    __CPROVER_loop_invariant(W < md->curlen ==> md->buf[W] == MSG(g_n * BLK + W))   \
    __CPROVER_decreases(inlen)
#define LC_sha256_process_1 PROC_INV
#define LB_sha256_process_1
#define LC_sha512_process_1 PROC_INV
#define LB_sha512_process_1
#define LC_MD5Update_1                                                              \
    __CPROVER_assigns(buf, len, __CPROVER_object_upto(ctx->in, BLK), g_n)               \
    __CPROVER_loop_invariant(len <= g_len && buf == g_data + (g_len - len))         \
    __CPROVER_loop_invariant(cur0 + (g_len - len) == BLK * g_n && g_n <= g_len)                     \
    __CPROVER_decreases(len)
#define LB_MD5Update_1

#if defined(SHA1)
#include "sha1.c"
#elif defined(SHA256)
#include "sha256.c"
#elif defined(SHA512)
#include "sha512.c"
#else
#include "md5.c"
#endif

#undef memcpy
#undef memset
#ifdef T_UPD
#ifndef LENMAX
#ifdef MD5
#define LENMAX 0xfffffffful
#else
#define LENMAX ((1ul << 40) - 1)
#endif
#endif
void harness(void)
{
    CTX c;
    size_t k, tot;
    unsigned char *d;
    uint64_t b0;
    cur0 = nd_size_max(BLK - 1);
    g_len = nd_size_max(LENMAX);
    W = nd_size_max(BLK - 1);
    g_n0 = nd_size_max(1ul << 50);
    g_n = 0;
    d = malloc(g_len + 1);
    VF_ASSUME(d != NULL);
#ifndef VF_CBMC
    memset(d, 7, g_len);
    memset(&c, 3, sizeof(c));
    for (k = 0; k < g_len; k++) d[k] = (unsigned char)(k * 7 + (k >> 6));
#endif
    g_data = d;
#ifdef VF_CBMC
    g_c = &c;
#endif
    SETLEN(&c, g_n0, cur0);
    g_old[W] = BUF(&c)[W]; /* the old content, observed at the witness */
    b0 = BITS(&c);
    UPDATE(&c, d, g_len);
    tot = cur0 + g_len;
    VF_ASSERT(g_n == tot / BLK, "C17: every whole block is compressed");
    VF_ASSERT(CUR(&c) == (tot & (BLK - 1)), "C17: partial block length");
    if (W < (tot & (BLK - 1)))
        VF_ASSERT(BUF(&c)[W] == MSG(g_n * BLK + W), "C17: partial block holds the tail of the message");
    VF_ASSERT(BITS(&c) == b0 + 8 * (uint64_t)g_len, "C17: message length is exact");
    (void)k;
    VF_REACH_IF(tot > 200, "several blocks");
    VF_REACH_IF(tot < BLK && cur0 > 3, "partial only");
}
#endif

#ifdef T_FIN
static void put_len(unsigned char *p, uint64_t bits)
{
    int i;
    for (i = 0; i < 8; i++)
#ifdef MD5
        p[i] = (unsigned char)(bits >> (8 * i));
#else
        p[i] = (unsigned char)(bits >> (56 - 8 * i));
#endif
}
static void one(const unsigned cur)
{
    CTX c;
    unsigned char dig[DLEN];
    uint64_t n0 = nd_size_max(1ul << 50), bits;
    unsigned i;
    for (i = 0; i < BLK; i++) BUF(&c)[i] = nd_u8();
    for (i = 0; i < NS; i++) STATE(&c)[i] = (WORD)nd_u64();
    SETLEN(&c, n0, cur);
    bits = (n0 * BLK + cur) * 8;
    /* the standard padding: 1 bit, zeros, 64/128-bit length */
    g_exp_n = cur + 1 + BLK / 8 <= BLK ? 1 : 2;
    for (i = 0; i < 2 * BLK; i++) g_exp[i] = i < cur ? BUF(&c)[i] : i == cur ? 0x80 : 0;
    if (g_exp_n == 1) put_len(g_exp + BLK - 8, bits);
    else put_len(g_exp + 2 * BLK - 8, bits);
    g_n = 0;
#ifdef SHA1
    g_t = cur;
    W = nd_range(0, 2 * BLK - 1);
#endif
    FINAL(&c, dig);
    VF_ASSERT(g_n >= (size_t)g_exp_n, "C17: all padded blocks are compressed");
    for (i = 0; i < DLEN; i++)
#ifdef MD5
        VF_ASSERT(dig[i] == (unsigned char)(g_out[i / 4] >> (8 * (i % 4))), "C17: digest is the final state, little endian");
#else
        VF_ASSERT(dig[i] == (unsigned char)(g_out[i / sizeof(WORD)] >> (8 * (sizeof(WORD) - 1 - i % sizeof(WORD)))), "C17: digest is the final state, big endian");
#endif
    if (cur == BLK - 1) VF_REACH("two blocks");
    if (cur == 0) VF_REACH("one block");
}
void harness(void)
{
    unsigned cur = nd_range(0, BLK - 1), k;
#if defined(MD5) || defined(SHA1)
    one(cur);
    return;
#endif
    for (k = 0; k < BLK; k++)
        if (cur == k) { one(k); return; }
}
#endif

#ifdef T_VEC
/* reference implementations, written from FIPS 180-4 and RFC 1321 */
#define ROL32(x, n) ((uint32_t)((x) << (n)) | ((uint32_t)(x) >> (32 - (n))))
#define ROR32(x, n) ROL32(x, 32 - (n))
#define ROR64(x, n) ((uint64_t)((x) >> (n)) | ((uint64_t)(x) << (64 - (n))))
#ifdef SHA512
static const uint64_t RK[80] = {
0x428a2f98d728ae22,0x7137449123ef65cd,0xb5c0fbcfec4d3b2f,0xe9b5dba58189dbbc,0x3956c25bf348b538,0x59f111f1b605d019,0x923f82a4af194f9b,0xab1c5ed5da6d8118,
0xd807aa98a3030242,0x12835b0145706fbe,0x243185be4ee4b28c,0x550c7dc3d5ffb4e2,0x72be5d74f27b896f,0x80deb1fe3b1696b1,0x9bdc06a725c71235,0xc19bf174cf692694,
0xe49b69c19ef14ad2,0xefbe4786384f25e3,0x0fc19dc68b8cd5b5,0x240ca1cc77ac9c65,0x2de92c6f592b0275,0x4a7484aa6ea6e483,0x5cb0a9dcbd41fbd4,0x76f988da831153b5,
0x983e5152ee66dfab,0xa831c66d2db43210,0xb00327c898fb213f,0xbf597fc7beef0ee4,0xc6e00bf33da88fc2,0xd5a79147930aa725,0x06ca6351e003826f,0x142929670a0e6e70,
0x27b70a8546d22ffc,0x2e1b21385c26c926,0x4d2c6dfc5ac42aed,0x53380d139d95b3df,0x650a73548baf63de,0x766a0abb3c77b2a8,0x81c2c92e47edaee6,0x92722c851482353b,
0xa2bfe8a14cf10364,0xa81a664bbc423001,0xc24b8b70d0f89791,0xc76c51a30654be30,0xd192e819d6ef5218,0xd69906245565a910,0xf40e35855771202a,0x106aa07032bbd1b8,
0x19a4c116b8d2d0c8,0x1e376c085141ab53,0x2748774cdf8eeb99,0x34b0bcb5e19b48a8,0x391c0cb3c5c95a63,0x4ed8aa4ae3418acb,0x5b9cca4f7763e373,0x682e6ff3d6b2b8a3,
0x748f82ee5defb2fc,0x78a5636f43172f60,0x84c87814a1f0ab72,0x8cc702081a6439ec,0x90befffa23631e28,0xa4506cebde82bde9,0xbef9a3f7b2c67915,0xc67178f2e372532b,
0xca273eceea26619c,0xd186b8c721c0c207,0xeada7dd6cde0eb1e,0xf57d4f7fee6ed178,0x06f067aa72176fba,0x0a637dc5a2c898a6,0x113f9804bef90dae,0x1b710b35131c471b,
0x28db77f523047d84,0x32caab7b40c72493,0x3c9ebe0a15c9bebc,0x431d67c49c100d4c,0x4cc5d4becb3e42b6,0x597f299cfc657e2a,0x5fcb6fab3ad6faec,0x6c44198c4a475817};
static const uint64_t RI[8] = {0x6a09e667f3bcc908,0xbb67ae8584caa73b,0x3c6ef372fe94f82b,0xa54ff53a5f1d36f1,0x510e527fade682d1,0x9b05688c2b3e6c1f,0x1f83d9abfb41bd6b,0x5be0cd19137e2179};
#elif defined(SHA256)
static const uint32_t RK[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
static const uint32_t RI[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
#elif defined(SHA1)
static const uint32_t RI[5] = {0x67452301,0xefcdab89,0x98badcfe,0x10325476,0xc3d2e1f0};
#else
static const uint32_t RI[4] = {0x67452301,0xefcdab89,0x98badcfe,0x10325476};
static const uint32_t RK[64] = {
0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,
0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,
0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,
0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391};
static const unsigned char RS[16] = {7,12,17,22,5,9,14,20,4,11,16,23,6,10,15,21};
#endif
static void ref_block(WORD *h, const unsigned char *b)
{
    int t;
#ifdef MD5
    uint32_t a = h[0], bb = h[1], c = h[2], d = h[3], f, g, x;
    for (t = 0; t < 64; t++) {
        if (t < 16) { f = (bb & c) | (~bb & d); g = t; }
        else if (t < 32) { f = (bb & d) | (c & ~d); g = (5 * t + 1) & 15; }
        else if (t < 48) { f = bb ^ c ^ d; g = (3 * t + 5) & 15; }
        else { f = c ^ (bb | ~d); g = (7 * t) & 15; }
        x = (uint32_t)b[4 * g] | (uint32_t)b[4 * g + 1] << 8 | (uint32_t)b[4 * g + 2] << 16 | (uint32_t)b[4 * g + 3] << 24;
        f = f + a + RK[t] + x;
        a = d; d = c; c = bb;
        bb = bb + ROL32(f, RS[(t / 16) * 4 + (t & 3)]);
    }
    h[0] += a; h[1] += bb; h[2] += c; h[3] += d;
#elif defined(SHA1)
    uint32_t w[80], a = h[0], bb = h[1], c = h[2], d = h[3], e = h[4], f, k, x;
    for (t = 0; t < 16; t++) w[t] = (uint32_t)b[4 * t] << 24 | (uint32_t)b[4 * t + 1] << 16 | (uint32_t)b[4 * t + 2] << 8 | b[4 * t + 3];
    for (t = 16; t < 80; t++) { x = w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16]; w[t] = ROL32(x, 1); }
    for (t = 0; t < 80; t++) {
        if (t < 20) { f = (bb & c) | (~bb & d); k = 0x5a827999; }
        else if (t < 40) { f = bb ^ c ^ d; k = 0x6ed9eba1; }
        else if (t < 60) { f = (bb & c) | (bb & d) | (c & d); k = 0x8f1bbcdc; }
        else { f = bb ^ c ^ d; k = 0xca62c1d6; }
        x = ROL32(a, 5) + f + e + k + w[t];
        e = d; d = c; c = ROL32(bb, 30); bb = a; a = x;
    }
    h[0] += a; h[1] += bb; h[2] += c; h[3] += d; h[4] += e;
#else
#define NR (BLK == 64 ? 64 : 80)
    WORD w[80], v[8], t1, t2, s0, s1;
    int i;
    for (t = 0; t < 16; t++) { w[t] = 0; for (i = 0; i < (int)sizeof(WORD); i++) w[t] = (WORD)(w[t] << 8) | b[t * sizeof(WORD) + i]; }
    for (t = 16; t < NR; t++) {
#ifdef SHA256
        s0 = ROR32(w[t - 15], 7) ^ ROR32(w[t - 15], 18) ^ (w[t - 15] >> 3);
        s1 = ROR32(w[t - 2], 17) ^ ROR32(w[t - 2], 19) ^ (w[t - 2] >> 10);
#else
        s0 = ROR64(w[t - 15], 1) ^ ROR64(w[t - 15], 8) ^ (w[t - 15] >> 7);
        s1 = ROR64(w[t - 2], 19) ^ ROR64(w[t - 2], 61) ^ (w[t - 2] >> 6);
#endif
        w[t] = w[t - 16] + s0 + w[t - 7] + s1;
    }
    for (i = 0; i < 8; i++) v[i] = h[i];
    for (t = 0; t < NR; t++) {
#ifdef SHA256
        s1 = ROR32(v[4], 6) ^ ROR32(v[4], 11) ^ ROR32(v[4], 25);
        s0 = ROR32(v[0], 2) ^ ROR32(v[0], 13) ^ ROR32(v[0], 22);
#else
        s1 = ROR64(v[4], 14) ^ ROR64(v[4], 18) ^ ROR64(v[4], 41);
        s0 = ROR64(v[0], 28) ^ ROR64(v[0], 34) ^ ROR64(v[0], 39);
#endif
        t1 = v[7] + s1 + ((v[4] & v[5]) ^ (~v[4] & v[6])) + RK[t] + w[t];
        t2 = s0 + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
        v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1;
        v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
    }
    for (i = 0; i < 8; i++) h[i] += v[i];
#endif
}
static void ref_hash(const unsigned char *m, size_t len, unsigned char *out)
{
    WORD h[NS];
    unsigned char b[BLK];
    size_t k, n = ((len + 1 + BLK / 8 + BLK - 1) / BLK) * BLK, i;
    uint64_t bits = (uint64_t)len * 8;
    for (i = 0; i < NS; i++) h[i] = RI[i];
    for (k = 0; k < n; k++) {
        unsigned char v = k < len ? m[k] : k == len ? 0x80 : 0;
        if (k >= n - 8) {
#ifdef MD5
            v = (unsigned char)(bits >> (8 * (k - (n - 8))));
#else
            v = (unsigned char)(bits >> (8 * (n - 1 - k)));
#endif
        }
        b[k % BLK] = v;
        if (k % BLK == BLK - 1) ref_block(h, b);
    }
    for (i = 0; i < DLEN; i++)
#ifdef MD5
        out[i] = (unsigned char)(h[i / 4] >> (8 * (i % 4)));
#else
        out[i] = (unsigned char)(h[i / sizeof(WORD)] >> (8 * (sizeof(WORD) - 1 - i % sizeof(WORD))));
#endif
}
static void vec(size_t len, size_t s1, size_t s2)
{
    unsigned char m[312], d[DLEN], e[DLEN];
    CTX c;
    size_t i;
    for (i = 0; i < len; i++) m[i] = (unsigned char)(i * 7 + 3 + (i >> 5));
    ref_hash(m, len, e);
    INIT(&c);
    UPDATE(&c, m, s1);
    UPDATE(&c, m + s1, s2);
    UPDATE(&c, m + s1 + s2, len - s1 - s2);
    FINAL(&c, d);
    for (i = 0; i < DLEN; i++) VF_ASSERT(d[i] == e[i], "C17: digest equals the standard");
#if defined(SHA1)
    crypto_SHA1(m, len, d);
#elif defined(SHA256)
    sha256_hash(m, len, d);
#elif defined(SHA512)
    sha512_hash(m, len, d);
#endif
    for (i = 0; i < DLEN; i++) VF_ASSERT(d[i] == e[i], "C17: one-shot digest equals the standard");
}
static const short VL[8][5] = {{0, 1, 3, 55, 300}, {56, 57, 63, 190, -1}, {64, 65, 111, 112, -1}, {113, 119, 120, 127, -1}, {128, 129, 183, 191, -1}, {192, 239, 240, 255, 256}, {0, 3, 64, -1, -1}, {-1, -1, -1, -1, -1}};
void harness(void)
{
    int i;
    size_t l;
    for (i = 0; i < 5; i++)
        if (VL[CASE][i] >= 0) {
            l = VL[CASE][i];
            vec(l, 0, l);
        }
    if (CASE == 0) vec(150, 1, 63);
    if (CASE == 1) vec(260, 64, 64);
    if (CASE == 2) vec(150, 63, 66);
    if (CASE == 3) vec(270, 100, 28);
    if (CASE == 4) vec(300, 128, 127);
    if (CASE == 5) vec(131, 127, 1);
    if (CASE == 7) vec(130, 1, 63);
    VF_REACH("vectors done");
}
#endif
