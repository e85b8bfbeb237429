/*@unit
{"props": ["C17", "C07"],
 "functions": ["crypto_HMAC", "crypto_HMAC_ex", "SCRAM_Hi", "SCRAM_ClientKey", "SCRAM_ClientSignature", "SCRAM_ClientProof", "xmpp_sha1", "xmpp_sha1_digest", "xmpp_sha1_new", "xmpp_sha1_update", "xmpp_sha1_final", "xmpp_sha1_to_string", "xmpp_sha1_to_string_alloc", "xmpp_sha1_to_digest"],
 "assumptions": ["hash primitives inside HMAC/SCRAM are seen through their contract (init, update*, final over the concatenation of the updates), discharged in c17_digest", "strlen/memcpy/memset/snprintf follow ISO C"],
 "runs": [
  {"name": "hmac20", "mode": "proof", "defs": ["T_HMAC", "DS=20"], "unwind": 140, "timeout": 300},
  {"name": "hmac32", "mode": "proof", "defs": ["T_HMAC", "DS=32"], "unwind": 140, "timeout": 300},
  {"name": "hmac64", "mode": "proof", "defs": ["T_HMAC", "DS=64"], "unwind": 140, "timeout": 300},
  {"name": "hi", "when": "fallback", "mode": "bounded", "bound": "iteration counts 0..3, password and salt of any length", "cases": [0, 3], "rename": {"scram.c": ["crypto_HMAC", "crypto_HMAC_ex"]}, "defs": ["T_HI"], "unwind": 130, "timeout": 300},
  {"name": "hi_proof", "mode": "proof", "rename": {"scram.c": ["crypto_HMAC", "crypto_HMAC_ex"]}, "annotate": {"scram.c": {"SCRAM_Hi": 2}}, "defs": ["T_HIP"], "unwind": 130, "timeout": 300},
  {"name": "key", "mode": "proof", "rename": {"scram.c": ["crypto_HMAC", "SCRAM_Hi"]}, "defs": ["T_KEY"], "unwind": 66, "timeout": 300},
  {"name": "algs", "mode": "proof", "defs": ["T_ALGS"], "unwind": 30, "timeout": 60},
  {"name": "api", "mode": "proof", "cases": [0, 5], "defs": ["T_API"], "props": ["C17"], "unwind": 61, "timeout": 300}
 ]}
*/
#include "vf.h"
#include "libc.h"
#include "common.h"
#include "mem.h"
#include "ostypes.h"
#include "sha1.h"
#include "sha256.h"
#include "sha512.h"
static void *vf_memset(void *p, int c, size_t n)
{
    size_t k;
    for (k = 0; k < n; k++) ((unsigned char *)p)[k] = (unsigned char)c;
    return p;
}
static void *vf_memcpy(void *d, const void *s, size_t n)
{
    size_t k;
    VF_ASSERT(n <= 128, "copy into a fixed buffer");
    for (k = 0; k < 128; k++)
        if (k < n) ((unsigned char *)d)[k] = ((const unsigned char *)s)[k];
    return d;
}
/* hash primitives: never executed in these runs except through the recording algorithm */
void crypto_SHA1(const uint8_t *d, size_t n, uint8_t *o);
#ifndef T_API
void crypto_SHA1(const uint8_t *d, size_t n, uint8_t *o) {}
void crypto_SHA1_Init(SHA1_CTX *c) {}
void crypto_SHA1_Update(SHA1_CTX *c, const uint8_t *d, size_t n) {}
void crypto_SHA1_Final(SHA1_CTX *c, uint8_t *o) {}
void sha256_hash(const uint8_t *d, size_t n, uint8_t *o) {}
void sha256_init(sha256_context *c) {}
void sha256_process(sha256_context *c, const uint8_t *d, size_t n) {}
void sha256_done(sha256_context *c, uint8_t *o) {}
void sha512_hash(const uint8_t *d, size_t n, uint8_t *o) {}
void sha512_init(sha512_context *c) {}
void sha512_process(sha512_context *c, const uint8_t *d, size_t n) {}
void sha512_done(sha512_context *c, uint8_t *o) {}

#include "scram.h"
#if defined(T_HI) || defined(T_HIP)
static void crypto_HMAC(const struct hash_alg *alg, const uint8_t *key, size_t key_len, const uint8_t *text, size_t len, uint8_t *digest);
static void crypto_HMAC_ex(const struct hash_alg *alg, const uint8_t *key, size_t key_len, const uint8_t *text, size_t len, const uint8_t *suffix, size_t suffix_len, uint8_t *digest);
#endif
#ifdef T_KEY
static void crypto_HMAC(const struct hash_alg *alg, const uint8_t *key, size_t key_len, const uint8_t *text, size_t len, uint8_t *digest);
static void SCRAM_Hi(const struct hash_alg *alg, const uint8_t *text, size_t len, const uint8_t *salt, size_t salt_len, uint32_t i, uint8_t *digest);
#endif
#ifdef T_HIP
static uint32_t g_calls, g_iter;
static size_t W;
static unsigned char g_acc, g_last;
static struct hash_alg vf_alg;
#define LC_SCRAM_Hi_1 \
    __CPROVER_assigns(j, __CPROVER_object_whole(tmp), __CPROVER_object_whole(digest), g_calls, g_acc, g_last, k) \
    __CPROVER_loop_invariant(1 <= j && j <= i && g_calls == j) \
    __CPROVER_loop_invariant(digest[W] == g_acc && tmp[W] == g_last) \
    __CPROVER_decreases(i - j)
#define LB_SCRAM_Hi_1
#define LC_SCRAM_Hi_2 \
    __CPROVER_assigns(k, __CPROVER_object_whole(digest)) \
    __CPROVER_loop_invariant(k <= alg->digest_size) \
    __CPROVER_loop_invariant(digest[W] == (unsigned char)(W < k ? g_acc : (g_acc ^ g_last))) \
    __CPROVER_decreases(alg->digest_size - k)
#define LB_SCRAM_Hi_2
#endif
#ifdef VF_CBMC
#define memset vf_memset
#define memcpy vf_memcpy
#endif
#include "scram.c"
#undef memset
#undef memcpy
#endif

#ifdef T_HMAC
/* recording hash: checks what is fed against RFC 2104 at a witness position */
static int g_step, g_err;
static size_t W, g_klen, g_tlen, g_slen, g_tot;
static const uint8_t *g_key, *g_text, *g_suf;
static unsigned char g_hk[DS], g_inner[DS], g_outer[DS];
static size_t bs(void) { return DS < 48 ? 64 : 128; }
static unsigned char padk(size_t i)
{
    if (g_klen <= bs()) return i < g_klen ? g_key[i] : 0;
    return i < DS ? g_hk[i] : 0;
}
static void a_hash(const uint8_t *d, size_t n, uint8_t *o)
{
    int i;
    VF_ASSERT(d == g_key && n == g_klen && n > bs(), "C17,C07: only an over-long key is hashed first");
    for (i = 0; i < DS; i++) o[i] = g_hk[i];
}
static void a_init(void *c) { VF_ASSERT(g_step == 0 || g_step == 3, "C17,C07: one inner and one outer hash"); g_step++; g_tot = 0; }
static void a_update(void *c, const uint8_t *d, size_t n)
{
    /* the stream fed so far has g_tot bytes; check d[0..n) against the expected stream */
    size_t total = g_step == 1 ? bs() + g_tlen + g_slen : bs() + DS;
    VF_ASSERT(g_step == 1 || g_step == 4, "C17,C07: data goes into a started hash");
    VF_ASSERT(n <= total - g_tot, "C17,C07: not more data than HMAC specifies");
    if (W >= g_tot && W - g_tot < n) {
        unsigned char v = d[W - g_tot], x;
        if (g_step == 1) x = W < bs() ? padk(W) ^ 0x36 : W - bs() < g_tlen ? g_text[W - bs()] : g_suf[W - bs() - g_tlen];
        else x = W < bs() ? padk(W) ^ 0x5c : g_inner[W - bs()];
        VF_ASSERT(v == x, "C17,C07: HMAC hashes (K^ipad || text) then (K^opad || inner)");
    }
    g_tot += n;
}
static void a_final(void *c, uint8_t *o)
{
    int i;
    VF_ASSERT(g_step == 1 || g_step == 4, "C17,C07: final after init");
    VF_ASSERT(g_tot == (g_step == 1 ? bs() + g_tlen + g_slen : bs() + DS), "C17,C07: all HMAC data was hashed");
    for (i = 0; i < DS; i++) o[i] = g_step == 1 ? g_inner[i] : g_outer[i];
    g_step += 2;
    if (g_step == 3) g_step = 3;
}
void harness(void)
{
    struct hash_alg a;
    uint8_t dig[DS], suf[4];
    uint8_t *key, *text;
    size_t i;
    int ex = nd_range(0, 1);
    a.scram_name = "X"; a.mask = 0; a.digest_size = DS;
    a.hash = a_hash; a.init = a_init; a.update = a_update; a.final = a_final;
    g_klen = nd_size_max(1ul << 20);
    g_tlen = nd_size_max(1ul << 30);
    key = malloc(g_klen + 1); text = malloc(g_tlen + 1);
    VF_ASSUME(key && text);
#ifndef VF_CBMC
    for (i = 0; i < g_klen; i++) key[i] = (uint8_t)(i * 3 + 1);
    for (i = 0; i < g_tlen; i++) text[i] = (uint8_t)(i * 5 + 2);
#endif
    for (i = 0; i < DS; i++) { g_hk[i] = nd_u8(); g_inner[i] = nd_u8(); g_outer[i] = nd_u8(); }
    for (i = 0; i < 4; i++) suf[i] = nd_u8();
    g_key = key; g_text = text; g_suf = suf; g_slen = 0;
    W = nd_size_max(1ul << 31);
    crypto_HMAC(&a, key, g_klen, text, g_tlen, dig);
    VF_ASSERT(g_step == 6, "C17,C07: inner and outer hash completed");
    for (i = 0; i < DS; i++) VF_ASSERT(dig[i] == g_outer[i], "C17,C07: HMAC is the outer hash");
    (void)ex;
    VF_REACH_IF(g_klen > bs(), "long key");
    VF_REACH_IF(g_klen == bs(), "block size key");
    VF_REACH_IF(g_klen < 5 && W > 1000, "short key");
}
#endif

#if defined(T_HI)
/* HMAC contract: a fresh pseudo-random value per call, arguments recorded */
static unsigned g_calls;
static const uint8_t *g_key, *g_salt;
static size_t g_klen, g_slen, g_ds;
static unsigned char U[8][64];
static void rec(uint8_t *d)
{
    size_t k;
    for (k = 0; k < 64; k++) if (k < g_ds) d[k] = U[g_calls & 7][k];
    g_calls++;
}
static void crypto_HMAC(const struct hash_alg *alg, const uint8_t *key, size_t key_len, const uint8_t *text, size_t len, uint8_t *digest)
{
    size_t k;
    VF_ASSERT(key == g_key && key_len == g_klen, "C17,C07: Hi keys HMAC with the password");
    VF_ASSERT(g_calls >= 1 && len == g_ds, "C17,C07: later rounds hash the previous round");
    for (k = 0; k < 64; k++) if (k < g_ds) VF_ASSERT(text[k] == U[(g_calls - 1) & 7][k], "C17,C07: later rounds hash the previous round");
    rec(digest);
}
static void crypto_HMAC_ex(const struct hash_alg *alg, const uint8_t *key, size_t key_len, const uint8_t *text, size_t len, const uint8_t *suffix, size_t suffix_len, uint8_t *digest)
{
    VF_ASSERT(key == g_key && key_len == g_klen, "C17,C07: Hi keys HMAC with the password");
    VF_ASSERT(g_calls == 0 && text == g_salt && len == g_slen && suffix_len == 4 && suffix[0] == 0 && suffix[1] == 0 && suffix[2] == 0 && suffix[3] == 1,
              "C17,C07: first round hashes salt || INT(1)");
    rec(digest);
}
void harness(void)
{
    struct hash_alg a;
    uint8_t key[1], salt[1], out[64];
    int it = CASE, i, k, dsel = CASE == 3 ? 2 : CASE & 1;
    g_ds = dsel == 0 ? 20 : dsel == 1 ? 32 : 64;
    a.digest_size = g_ds;
    for (i = 0; i < 8; i++) for (k = 0; k < 64; k++) U[i][k] = nd_u8();
    g_key = key; g_salt = salt; g_klen = nd_size(); g_slen = nd_size();
    SCRAM_Hi(&a, key, g_klen, salt, g_slen, (uint32_t)it, out);
    VF_ASSERT(g_calls == (unsigned)it, "C17,C07: exactly i HMAC rounds");
    for (k = 0; k < 64; k++)
        if ((size_t)k < g_ds) {
            unsigned char x = 0;
            for (i = 0; i < 5; i++) if (i < it) x ^= U[i][k];
            VF_ASSERT(out[k] == x, "C17,C07: Hi is the XOR of all rounds");
        }
    VF_REACH("rounds");
}
#endif
#if defined(T_HIP)
static const uint8_t *g_key, *g_salt;
static size_t g_klen, g_slen, g_ds;
static void crypto_HMAC(const struct hash_alg *alg, const uint8_t *key, size_t key_len, const uint8_t *text, size_t len, uint8_t *digest)
{
    VF_ASSERT(key == g_key && key_len == g_klen, "C17,C07: Hi keys HMAC with the password");
    VF_ASSERT(g_calls >= 1 && len == g_ds && text[W] == g_last, "C17,C07: later rounds hash the previous round");
    g_calls++;
    g_last = nd_u8();
    g_acc ^= g_last;
    digest[W] = g_last;
}
static void crypto_HMAC_ex(const struct hash_alg *alg, const uint8_t *key, size_t key_len, const uint8_t *text, size_t len, const uint8_t *suffix, size_t suffix_len, uint8_t *digest)
{
    VF_ASSERT(key == g_key && key_len == g_klen, "C17,C07: Hi keys HMAC with the password");
    VF_ASSERT(g_calls == 0 && text == g_salt && len == g_slen && suffix_len == 4 && suffix[0] == 0 && suffix[1] == 0 && suffix[2] == 0 && suffix[3] == 1,
              "C17,C07: first round hashes salt || INT(1)");
    g_calls = 1;
    g_last = nd_u8();
    g_acc = g_last;
    digest[W] = g_last;
}
void harness(void)
{
    struct hash_alg a;
    uint8_t key[1], salt[1], out[64];
    int dsel = nd_range(0, 2);
    uint32_t it = nd_u32();
    g_ds = dsel == 0 ? 20 : dsel == 1 ? 32 : 64;
    a.digest_size = g_ds;
    W = nd_size_max(63);
    VF_ASSUME(W < g_ds);
    g_calls = 0;
    g_acc = 0;
    g_key = key; g_salt = salt; g_klen = nd_size(); g_slen = nd_size();
    SCRAM_Hi(&a, key, g_klen, salt, g_slen, it, out);
    VF_ASSERT(g_calls == it, "C17,C07: exactly i HMAC rounds");
    VF_ASSERT(out[W] == g_acc, "C17,C07: Hi is the XOR of all rounds");
    VF_REACH_IF(it > 5, "many rounds");
    VF_REACH_IF(it == 0, "none");
}
#endif
#ifdef T_KEY
static int g_step;
static unsigned char g_salted[64], g_val[64], g_stored[64];
static const uint8_t *a_pw, *a_salt, *a_key, *a_msg;
static size_t a_pwl, a_saltl, a_msgl, g_ds;
static uint32_t a_it;
static void SCRAM_Hi(const struct hash_alg *alg, const uint8_t *text, size_t len, const uint8_t *salt, size_t salt_len, uint32_t i, uint8_t *digest)
{
    size_t k;
    VF_ASSERT(text == a_pw && len == a_pwl && salt == a_salt && salt_len == a_saltl && i == a_it && g_step == 0, "C17,C07: SaltedPassword = Hi(password, salt, i)");
    for (k = 0; k < 64; k++) if (k < g_ds) digest[k] = g_salted[k];
    g_step = 1;
}
static void h(const uint8_t *d, size_t n, uint8_t *o)
{
    size_t k;
    VF_ASSERT(d == a_key && n == g_ds && g_step == 10, "C17,C07: StoredKey = H(ClientKey)");
    for (k = 0; k < 64; k++) if (k < g_ds) o[k] = g_stored[k];
    g_step = 11;
}
static void crypto_HMAC(const struct hash_alg *alg, const uint8_t *key, size_t key_len, const uint8_t *text, size_t len, uint8_t *digest)
{
    size_t k;
    VF_ASSERT(key_len == g_ds, "C17,C07: key length");
    if (g_step == 1) {
        VF_ASSERT(len == 10 && !memcmp(text, "Client Key", 10), "C17,C07: ClientKey = HMAC(SaltedPassword, 'Client Key')");
        for (k = 0; k < 64; k++) if (k < g_ds) VF_ASSERT(key[k] == g_salted[k], "C17,C07: ClientKey keyed with SaltedPassword");
        g_step = 2;
    } else {
        VF_ASSERT(g_step == 11 && text == a_msg && len == a_msgl, "C17,C07: ClientSignature over the AuthMessage");
        for (k = 0; k < 64; k++) if (k < g_ds) VF_ASSERT(key[k] == g_stored[k], "C17,C07: ClientSignature keyed with StoredKey");
        g_step = 12;
    }
    for (k = 0; k < 64; k++) if (k < g_ds) digest[k] = g_val[k];
}
void harness(void)
{
    struct hash_alg a;
    uint8_t pw[1], salt[1], msg[1], ck[64], cs[64], out[64];
    int dsel = nd_range(0, 2), k, which = nd_range(0, 2);
    g_ds = dsel == 0 ? 20 : dsel == 1 ? 32 : 64;
    a.digest_size = g_ds;
    a.hash = h;
    for (k = 0; k < 64; k++) { g_salted[k] = nd_u8(); g_val[k] = nd_u8(); g_stored[k] = nd_u8(); ck[k] = nd_u8(); cs[k] = nd_u8(); }
    a_pw = pw; a_salt = salt; a_msg = msg; a_key = ck;
    a_pwl = nd_size(); a_saltl = nd_size(); a_msgl = nd_size(); a_it = nd_u32();
    if (which == 0) {
        g_step = 0;
        SCRAM_ClientKey(&a, pw, a_pwl, salt, a_saltl, a_it, out);
        VF_ASSERT(g_step == 2, "C17,C07: ClientKey computed");
        for (k = 0; k < 64; k++) if ((size_t)k < g_ds) VF_ASSERT(out[k] == g_val[k], "C17,C07: ClientKey returned");
        VF_REACH("key");
    } else if (which == 1) {
        g_step = 10;
        SCRAM_ClientSignature(&a, ck, msg, a_msgl, out);
        VF_ASSERT(g_step == 12, "C17,C07: ClientSignature computed");
        for (k = 0; k < 64; k++) if ((size_t)k < g_ds) VF_ASSERT(out[k] == g_val[k], "C17,C07: ClientSignature returned");
        VF_REACH("sig");
    } else {
        int alias = nd_range(0, 1);
        uint8_t c2[64];
        for (k = 0; k < 64; k++) c2[k] = cs[k];
        SCRAM_ClientProof(&a, ck, c2, alias ? c2 : out);
        for (k = 0; k < 64; k++) if ((size_t)k < g_ds) VF_ASSERT((alias ? c2 : out)[k] == (ck[k] ^ cs[k]), "C17,C07: proof = ClientKey XOR ClientSignature");
        VF_REACH("proof");
    }
}
#endif
#ifdef T_ALGS
#define IS(a, nm, m, ds, H, I, U, F) \
    VF_ASSERT(!strcmp((a)->scram_name, nm) && (a)->mask == (m) && (a)->digest_size == (ds), "C17,C07: " nm " name, mask and digest size"); \
    VF_ASSERT((void *)(a)->hash == (void *)(H) && (void *)(a)->init == (void *)(I) && (void *)(a)->update == (void *)(U) && (void *)(a)->final == (void *)(F), "C17,C07: " nm " uses its hash functions")
void harness(void)
{
    VF_ASSERT(scram_algs_num == 6, "C17,C07: six SCRAM variants");
    IS(scram_algs[0], "SCRAM-SHA-512-PLUS", SASL_MASK_SCRAMSHA512_PLUS, 64, sha512_hash, sha512_init, sha512_process, sha512_done);
    IS(scram_algs[1], "SCRAM-SHA-256-PLUS", SASL_MASK_SCRAMSHA256_PLUS, 32, sha256_hash, sha256_init, sha256_process, sha256_done);
    IS(scram_algs[2], "SCRAM-SHA-1-PLUS", SASL_MASK_SCRAMSHA1_PLUS, 20, crypto_SHA1, crypto_SHA1_Init, crypto_SHA1_Update, crypto_SHA1_Final);
    IS(scram_algs[3], "SCRAM-SHA-512", SASL_MASK_SCRAMSHA512, 64, sha512_hash, sha512_init, sha512_process, sha512_done);
    IS(scram_algs[4], "SCRAM-SHA-256", SASL_MASK_SCRAMSHA256, 32, sha256_hash, sha256_init, sha256_process, sha256_done);
    IS(scram_algs[5], "SCRAM-SHA-1", SASL_MASK_SCRAMSHA1, 20, crypto_SHA1, crypto_SHA1_Init, crypto_SHA1_Update, crypto_SHA1_Final);
    VF_REACH("table");
}
#endif
#ifdef T_API
#include "crypto.c"
static int g_state; /* 0 none 1 init 2 final */
static const unsigned char *g_d;
static size_t g_n;
static unsigned char g_dig[20];
static int g_upd;
void crypto_SHA1(const uint8_t *d, size_t n, uint8_t *o)
{
    int i;
    VF_ASSERT(d == g_d && n == g_n, "C17: one-shot API hashes the whole buffer");
    for (i = 0; i < 20; i++) o[i] = g_dig[i];
}
void crypto_SHA1_Init(SHA1_CTX *c) { g_state = 1; }
void crypto_SHA1_Update(SHA1_CTX *c, const uint8_t *d, size_t n)
{
    VF_ASSERT(g_state == 1 && d == g_d && n == g_n, "C17: update passes the data on");
    g_upd++;
}
void crypto_SHA1_Final(SHA1_CTX *c, uint8_t *o)
{
    int i;
    VF_ASSERT(g_state == 1, "C17: final after init");
    g_state = 2;
    for (i = 0; i < 20; i++) o[i] = g_dig[i];
}
static void hexcheck(const char *s)
{
    int i;
    const char *hx = "0123456789abcdef";
    VF_ASSERT(s != NULL, "C17: string returned");
    for (i = 0; i < 20; i++)
        VF_ASSERT(s[2 * i] == hx[g_dig[i] >> 4] && s[2 * i + 1] == hx[g_dig[i] & 15], "C17: lower-case hexadecimal of the digest");
    VF_ASSERT(s[40] == 0, "C17: terminated");
}
void harness(void)
{
    unsigned char buf[1], out[20];
    char s[50], *r;
    xmpp_sha1_t *h;
    int i, which = CASE > 1 ? 2 : CASE;
    size_t sl = CASE == 2 ? 41 : CASE == 3 ? 40 : CASE == 4 ? 0 : 50;
    g_d = buf; g_n = nd_size();
    for (i = 0; i < 20; i++) g_dig[i] = nd_u8();
    if (which == 0) {
        r = xmpp_sha1(NULL, buf, g_n);
        hexcheck(r);
        strophe_free(NULL, r);
        
    } else if (which == 1) {
        xmpp_sha1_digest(buf, g_n, out);
        for (i = 0; i < 20; i++) VF_ASSERT(out[i] == g_dig[i], "C17: digest stored");
    } else {
        h = xmpp_sha1_new(NULL);
        xmpp_sha1_update(h, buf, g_n);
        VF_ASSERT(g_upd == 1, "C17: update hashes");
        xmpp_sha1_final(h);
        VF_ASSERT(g_state == 2, "C17: final finishes");
        r = xmpp_sha1_to_string_alloc(h);
        hexcheck(r);
        strophe_free(NULL, r);
                r = xmpp_sha1_to_string(h, s, sl);
        if (sl < 41) VF_ASSERT(r == NULL, "C17: too small a buffer is refused");
        else { VF_ASSERT(r == s, "C17: returns the caller's buffer"); hexcheck(s); }
        xmpp_sha1_to_digest(h, out);
        for (i = 0; i < 20; i++) VF_ASSERT(out[i] == g_dig[i], "C17: digest stored");
        xmpp_sha1_free(h);
        
    }
    VF_ASSERT(vf_live == 0, "C17,C12: nothing leaked");
    VF_REACH("done");
}
#endif
