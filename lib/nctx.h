/* a real library context over a counting allocator (native units).
 * Every block handed out is in the ghost table until it is returned:
 * returning or resizing anything else is a violation of C12. */
#ifndef VF_NCTX_H
#define VF_NCTX_H
#if defined(VF_ENUM) && !defined(VF_NOTRACK)
void vf_track(void *);
void vf_untrack(void *);
#else
#define vf_track(p) ((void)0)
#define vf_untrack(p) ((void)0)
#endif
static int vf_live;
static void *vf_m_alloc(const size_t n, void *ud)
{
    void *p = malloc(n ? n : 1);
    (void)ud;
    if (p) { memset(p, 0xA5, n); vf_live++; vf_track(p); }
    return p;
}
static void vf_m_free(void *p, void *ud)
{
    (void)ud;
    if (p) { vf_live--; vf_untrack(p); }
    free(p);
}
static void *vf_m_realloc(void *q, const size_t n, void *ud)
{
    void *p;
    (void)ud;
    if (q) vf_untrack(q); else vf_live++;
    p = realloc(q, n ? n : 1);
    vf_track(p);
    return p;
}
static const xmpp_mem_t vf_mem = {vf_m_alloc, vf_m_free, vf_m_realloc, NULL};
#ifndef VF_LOG
static void vf_m_log(void *ud, xmpp_log_level_t l, const char *a, const char *m)
{
    (void)ud;
    if (getenv("VF_LOG")) fprintf(stderr, "LOG %d %s %s\n", l, a, m);
}
#endif
static const xmpp_log_t vf_log = {vf_m_log, NULL};
static xmpp_ctx_t *vf_ctx(void) { return xmpp_ctx_new(&vf_mem, &vf_log); }
#endif
