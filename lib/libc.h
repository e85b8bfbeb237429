/* ISO C string functions CBMC has no model for */
#ifndef VF_LIBC_H
#define VF_LIBC_H
#ifdef VF_CBMC
static size_t vfb_strcspn(const char *s, const char *rej)
{
    size_t n = 0, k;
    for (; s[n]; n++)
        for (k = 0; rej[k]; k++)
            if (s[n] == rej[k]) return n;
    return n;
}
static size_t vfb_strspn(const char *s, const char *acc)
{
    size_t n = 0, k;
    for (; s[n]; n++) {
        for (k = 0; acc[k] && s[n] != acc[k]; k++);
        if (!acc[k]) return n;
    }
    return n;
}
static char *vfb_strpbrk(const char *s, const char *acc)
{
    s += vfb_strcspn(s, acc);
    return *s ? (char *)s : NULL;
}
static void *vfb_memchr(const void *p, int c, size_t n)
{
    size_t i;
    for (i = 0; i < n; i++)
        if (((const unsigned char *)p)[i] == (unsigned char)c) return (char *)p + i;
    return NULL;
}
/* snprintf family: the conversions the sources use */
static size_t vfb_num(char *t, unsigned long v, unsigned base, int neg, size_t sz)
{
    char r[24];
    size_t n = 0, k = 0;
    size_t md = base == 16 ? 2 * sz : sz == 1 ? 3 : sz == 2 ? 5 : sz == 4 ? 10 : 20, i;
    for (i = 0; i < md; i++)
        if (i == 0 || v) {
            unsigned d = (unsigned)(base == 16 ? v & 15 : v % 10);
            r[n++] = (char)(d < 10 ? '0' + d : 'a' + d - 10);
            v = base == 16 ? v >> 4 : v / 10;
        }
    if (neg) t[k++] = '-';
    while (n) t[k++] = r[--n];
    return k;
}
#define VFB_PUT(c) { char vf_c = (c); if (o + 1 < n) s[o] = vf_c; o++; }
static int vfb_vsnprintf(char *s, size_t n, const char *f, va_list ap)
{
    size_t o = 0, k, w, nn;
    char t[26];
    while (*f) {
        int lng = 0;
        if (*f != '%') { VFB_PUT(*f); f++; continue; }
        f++;
        w = 0;
        if (*f == '0') f++;
        while (*f >= '0' && *f <= '9') { w = w * 10 + (size_t)(*f - '0'); f++; }
        while (*f == 'l' || *f == 'z' || *f == 'h') { if (*f != 'h') lng = 1; f++; }
        if (*f == 's') {
            const char *a = va_arg(ap, const char *);
            size_t l;
            VF_ASSERT(a != NULL, "snprintf: %s gets a string");
            l = strlen(a);
            for (k = 0; k < l; k++) VFB_PUT(a[k]);
        } else if (*f == 'c') {
            char c = (char)va_arg(ap, int);
            VFB_PUT(c);
        } else if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x') {
            unsigned long v; int neg = 0;
            /* CBMC passes variadic arguments unpromoted: read the object's own size */
            size_t sz = __CPROVER_OBJECT_SIZE(*(void **)ap);
            int sg = *f == 'd' || *f == 'i';
            if (sz == 8) v = va_arg(ap, unsigned long);
            else if (sz == 4) v = sg ? (unsigned long)(long)va_arg(ap, int) : va_arg(ap, unsigned);
            else if (sz == 2) v = va_arg(ap, unsigned short);
            else v = va_arg(ap, unsigned char);
            if ((*f == 'd' || *f == 'i') && (long)v < 0) { neg = 1; v = 0 - v; }
            if (*f == 'x' && w >= 2 * sz) { /* fixed width */
                for (k = w; k > 0; k--) {
                    unsigned d = k > 2 * sz ? 0 : (unsigned)((v >> (4 * (k - 1))) & 15);
                    VFB_PUT((char)(d < 10 ? '0' + d : 'a' + d - 10));
                }
                f++;
                continue;
            }
            nn = vfb_num(t, v, *f == 'x' ? 16 : 10, neg, sz);
            for (k = nn; k < w; k++) VFB_PUT('0');
            for (k = 0; k < nn; k++) VFB_PUT(t[k]);
        } else if (*f == '%') { VFB_PUT('%'); }
        else VF_ASSERT(0, "snprintf: conversion not modelled");
        f++;
    }
    if (n) s[o < n ? o : n - 1] = 0;
    return (int)o;
}
static int vfb_snprintf(char *s, size_t n, const char *f, ...)
{
    va_list ap;
    int r;
    va_start(ap, f);
    r = vfb_vsnprintf(s, n, f, ap);
    va_end(ap);
    return r;
}
#define snprintf vfb_snprintf
#define vsnprintf vfb_vsnprintf
#define strcspn vfb_strcspn
#define strspn vfb_strspn
#define strpbrk vfb_strpbrk
#define memchr vfb_memchr
#endif
#endif
