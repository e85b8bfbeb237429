/* allocator and log contracts: fresh block of the requested size, never NULL
 * (allocation failure is outside the listed properties).  vf_live counts blocks
 * handed out and not yet returned. */
#ifndef VF_MEM_H
#define VF_MEM_H
static int vf_live;
#ifdef VF_ENUM
void vf_track(void *);
void vf_untrack(void *);
#else
#define vf_track(p) ((void)0)
#define vf_untrack(p) ((void)0)
#endif
void *strophe_alloc(const xmpp_ctx_t *ctx, const size_t size)
{
    void *p = malloc(size);
    VF_ASSUME(p != NULL);
    (void)ctx;
    vf_live++;
    vf_track(p);
    return p;
}
void *strophe_realloc(const xmpp_ctx_t *ctx, void *q, const size_t size)
{
    void *p;
    if (q) vf_untrack(q);
    p = realloc(q, size);
    VF_ASSUME(p != NULL);
    vf_track(p);
    (void)ctx;
    if (!q)
        vf_live++;
    return p;
}
void strophe_free(const xmpp_ctx_t *ctx, void *p)
{
    (void)ctx;
    if (p) {
        vf_live--;
        vf_untrack(p);
    }
    free(p);
}
char *strophe_strdup(const xmpp_ctx_t *ctx, const char *s)
{
    size_t n = strlen(s) + 1;
    char *p = strophe_alloc(ctx, n);
    memcpy(p, s, n);
    return p;
}
char *strophe_strndup(const xmpp_ctx_t *ctx, const char *s, size_t m)
{
    size_t n = 0;
    char *p;
    while (n < m && s[n])
        n++;
    p = strophe_alloc(ctx, n + 1);
    memcpy(p, s, n);
    p[n] = 0;
    return p;
}
void *xmpp_alloc(const xmpp_ctx_t *c, const size_t n) { return strophe_alloc(c, n); }
void xmpp_free(const xmpp_ctx_t *c, void *p) { strophe_free(c, p); }
char *xmpp_strdup(const xmpp_ctx_t *c, const char *s) { return strophe_strdup(c, s); }
char *xmpp_strndup(const xmpp_ctx_t *c, const char *s, size_t m) { return strophe_strndup(c, s, m); }
#ifndef VF_OWN_LOG
void strophe_error(const xmpp_ctx_t *c, const char *a, const char *f, ...) { (void)c; (void)a; (void)f; }
void strophe_warn(const xmpp_ctx_t *c, const char *a, const char *f, ...) { (void)c; (void)a; (void)f; }
void strophe_info(const xmpp_ctx_t *c, const char *a, const char *f, ...) { (void)c; (void)a; (void)f; }
void strophe_debug(const xmpp_ctx_t *c, const char *a, const char *f, ...) { (void)c; (void)a; (void)f; }
void strophe_debug_verbose(int l, const xmpp_ctx_t *c, const char *a, const char *f, ...) { (void)l; (void)c; (void)a; (void)f; }
#endif
#endif
