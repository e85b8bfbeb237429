/* depth-first enumeration / sampling driver (native, AddressSanitizer).
 * usage: exe WORKER NWORKERS SPLIT SAMPLES SEED SECONDS FAILFILE PROP
 * prints "RUNS n" "DONE" "COVER name" lines. */
#include <setjmp.h>
#include <signal.h>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#define VF_MAXC 4096
struct vf_st {
    unsigned c[VF_MAXC], n[VF_MAXC];
    long long v[VF_MAXC];
    unsigned depth, pos, nv;
    unsigned long runs, pruned, tick, last;
    unsigned worker, nworkers, split;
    unsigned long samples;
    uint64_t rng;
    const char *failfile, *prop;
    void **blk;
    unsigned nblk, capblk;
    jmp_buf jb;
    char *names[64];
    int nnames;
    int owned;
    char *save;
    const char *collect, *seen[60];
    int nseen;
};
static struct vf_st *vf_s;
extern char __data_start[], _end[];
void __asan_set_death_callback(void (*cb)(void));
#define VF_RAW __attribute__((no_sanitize("address"), noinline))
VF_RAW static void vf_copy(char *d, const char *s, size_t n)
{
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}
static void vf_dump(const char *msg)
{
    FILE *f = fopen(vf_s->failfile, "w");
    unsigned i;
    if (!f) _Exit(96);
    fprintf(f, "# %s\n", msg);
    for (i = 0; i < vf_s->nv; i++) fprintf(f, "%lld\n", vf_s->v[i]);
    fclose(f);
}
static void vf_death(void) { vf_dump("AddressSanitizer report"); }
static void vf_sig(int s)
{
    vf_dump(s == SIGABRT ? "abort" : "signal");
    _Exit(s == SIGABRT ? 95 : 94);
}
static void vf_alrm(int s)
{
    unsigned long last = vf_s->last;
    (void)s;
    if (vf_s->runs == last && vf_s->tick++ >= 8) {
        fprintf(stderr, "REPLAY-FAIL: does not terminate\n");
        vf_dump("does not terminate");
        _Exit(93);
    }
    if (vf_s->runs != last) vf_s->tick = 0;
    vf_s->last = vf_s->runs;
}
void vf_enum_fail(const char *msg)
{
    /* an assertion that belongs to other properties only is not ours */
    if (msg[0] == 'C' && msg[1] >= '0' && msg[1] <= '9' && vf_s->prop[0]) {
        const char *c = strchr(msg, ':'), *p = strstr(msg, vf_s->prop);
        if (c && (!p || p > c)) return;
    }
    if (vf_s->collect) { /* for development: go on, keep one example each */
        static char name[300];
        int i;
        for (i = 0; i < vf_s->nseen; i++) if (vf_s->seen[i] == msg) longjmp(vf_s->jb, 1);
        if (vf_s->nseen < 60) vf_s->seen[vf_s->nseen++] = msg;
        snprintf(name, sizeof(name), "%s.%d", vf_s->collect, vf_s->nseen);
        vf_s->failfile = name;
        fprintf(stderr, "%s: %s\n", name, msg);
        vf_dump(msg);
        longjmp(vf_s->jb, 1);
    }
    fprintf(stderr, "REPLAY-FAIL: %s\n", msg);
    vf_dump(msg);
    _Exit(99);
}
void vf_enum_assume(void) { longjmp(vf_s->jb, 1); }
void vf_enum_reach(const char *name)
{
    int i;
    for (i = 0; i < vf_s->nnames; i++) if (vf_s->names[i] == name) return;
    if (vf_s->nnames < 64) vf_s->names[vf_s->nnames++] = (char *)name;
}
long long vf_note(long long v)
{
    if (vf_s->nv < VF_MAXC) vf_s->v[vf_s->nv++] = v;
    return v;
}
unsigned vf_choice(unsigned n)
{
    struct vf_st *s = vf_s;
    unsigned p = s->pos++;
    if (p >= VF_MAXC) { fprintf(stderr, "too many choices\n"); _Exit(92); }
    if (n == 0) n = 1;
    if (s->samples) {
        s->rng ^= s->rng << 13; s->rng ^= s->rng >> 7; s->rng ^= s->rng << 17;
        return (unsigned)((s->rng >> 20) % n);
    }
    if (p >= s->depth) { s->c[p] = 0; s->n[p] = n; s->depth = p + 1; }
    if (!s->split && !s->owned && s->c[p]) {
        /* the place and value of the first deviation pick the worker */
        unsigned long h = (p * 131ul + s->c[p]) * 2654435761u;
        s->owned = 1;
        if ((h >> 7) % s->nworkers != s->worker) { s->depth = p + 1; s->pruned++; longjmp(s->jb, 2); }
    }
    if (s->split && !s->owned && p + 1 >= s->split) {
        /* the first `split` digits pick the worker */
        unsigned long h = 0; unsigned i;
        for (i = 0; i <= p; i++) h = h * 31 + s->c[i];
        h = h * 2654435761u;
        s->owned = 1;
        if ((h >> 7) % s->nworkers != s->worker) { s->depth = p + 1; s->pruned++; longjmp(s->jb, 2); }
    }
    return s->c[p];
}
void vf_track(void *p)
{
    struct vf_st *s = vf_s;
    if (s->nblk == s->capblk) {
        s->capblk = s->capblk ? 2 * s->capblk : 256;
        s->blk = realloc(s->blk, s->capblk * sizeof(void *));
    }
    s->blk[s->nblk++] = p;
}
void vf_untrack(void *p)
{
    unsigned i;
    for (i = vf_s->nblk; i-- > 0;)
        if (vf_s->blk[i] == p) { vf_s->blk[i] = vf_s->blk[--vf_s->nblk]; return; }
}
static void vf_reset(void)
{
    while (vf_s->nblk) free(vf_s->blk[--vf_s->nblk]);
    vf_copy(__data_start, vf_s->save, (size_t)(_end - __data_start));
}
int main(int argc, char **argv)
{
    struct itimerval it = {{1, 0}, {1, 0}};
    double tmax;
    struct timespec t0, t1;
    int i, complete = 0;
    if (argc < 9) return 91;
    vf_s = calloc(1, sizeof(*vf_s));
    vf_s->worker = (unsigned)atoi(argv[1]); vf_s->nworkers = (unsigned)atoi(argv[2]);
    vf_s->split = (unsigned)atoi(argv[3]); vf_s->samples = strtoul(argv[4], NULL, 10);
    vf_s->rng = (strtoull(argv[5], NULL, 10) + 1) * 0x9E3779B97F4A7C15ull + (uint64_t)vf_s->worker * 0xD1342543DE82EF95ull + 88172645463325252ull;
    tmax = atof(argv[6]);
    vf_s->collect = getenv("VF_COLLECT");
    vf_s->failfile = argv[7]; vf_s->prop = argv[8];
    __asan_set_death_callback(vf_death);
    signal(SIGABRT, vf_sig); signal(SIGALRM, vf_alrm); signal(SIGPIPE, SIG_DFL);
    vf_s->save = malloc((size_t)(_end - __data_start));
    setitimer(ITIMER_REAL, &it, NULL);
    clock_gettime(CLOCK_MONOTONIC, &t0);
    vf_copy(vf_s->save, __data_start, (size_t)(_end - __data_start));
    if (vf_s->samples) vf_s->samples = vf_s->samples / vf_s->nworkers + 1;
    for (;;) {
        int k, j;
        vf_s->pos = vf_s->nv = 0;
        vf_s->owned = 0;
        j = setjmp(vf_s->jb);
        if (j == 0) harness();
        if (j != 2) vf_s->runs++;
        vf_reset();
        if (vf_s->samples) {
            if (--vf_s->samples == 0) { complete = 1; break; }
        } else {
            if (vf_s->pos < vf_s->depth) vf_s->depth = vf_s->pos;
            for (k = (int)vf_s->depth - 1; k >= 0; k--)
                if (vf_s->c[k] + 1 < vf_s->n[k]) break;
            if (k < 0) { complete = 1; break; }
            vf_s->c[k]++;
            vf_s->depth = (unsigned)k + 1;
        }
        if ((vf_s->runs & 63) == 0) {
            clock_gettime(CLOCK_MONOTONIC, &t1);
            if ((double)(t1.tv_sec - t0.tv_sec) > tmax) break;
        }
    }
    printf("RUNS %lu\n", vf_s->runs);
    for (i = 0; i < vf_s->nnames; i++) printf("COVER %s\n", vf_s->names[i]);
    if (complete) printf("DONE\n");
    return 0;
}
