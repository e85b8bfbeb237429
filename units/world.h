/* A whole libstrophe client against a server written for this purpose, in one
 * process: sockets, time, name resolution and TLS are stand-ins, everything
 * else is the library as it is built.  The server answers as RFC 6120 wants
 * unless a "deviation" is chosen; monitors check every byte and callback. */
#ifndef WORLD_H
#define WORLD_H
#include "strophe.h"
#include "common.h"
#include "sock.h"
#include "tls.h"
#include "nctx.h"
#include <sys/socket.h>
#include <sys/select.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <fcntl.h>
#include <errno.h>
#include <stdarg.h>
#include <zlib.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <dlfcn.h>
int __real_close(int);

#define NSM "urn:xmpp:sm:3"
#define NSASL "urn:ietf:params:xml:ns:xmpp-sasl"
#define NTLS "urn:ietf:params:xml:ns:xmpp-tls"
#define NBIND "urn:ietf:params:xml:ns:xmpp-bind"
#define NSESS "urn:ietf:params:xml:ns:xmpp-session"
#define NCOMP "http://jabber.org/protocol/compress"
#define NFCOMP "http://jabber.org/features/compress"
#define NSTREAMS "urn:ietf:params:xml:ns:xmpp-streams"
#define NSTANZAS "urn:ietf:params:xml:ns:xmpp-stanzas"

/* ---------------------------------------------------------------- choices */
#ifndef DEVS
#define DEVS 1
#endif
enum {
    P_CFG, P_FEAT, P_HDR, P_REPLY, P_INJECT, P_SPONT, P_USER, P_CB, P_SEND, P_RECV, P_TLS, P_NET, P_TIME, P_SMX, P_CHAL
};
#define B(x) (1u << (x))
#ifndef MASK
#define MASK 0xffffffffu
#endif
static int w_budget = DEVS, w_devs;
static unsigned w_mask = MASK; /* dimensions in which deviations may happen */
/* the default (0), or one of n-1 deviations if there is budget left */
static int dev(int point, int n)
{
    int k;
    if (!(w_mask >> point & 1) || w_budget == 0 || n < 2) return 0;
#ifdef W_SAMPLE
    if (nd_range(0, W_SAMPLE) != 0) return 0;
#endif
    k = nd_range(0, n - 1);
    if (k) { w_budget--; w_devs++; if (getenv("VF_LOG")) fprintf(stderr, "DEVIATION point %d: %d\n", point, k); }
    return k;
}

/* ---------------------------------------------------------------- clock */
static uint64_t w_now = 1000;
uint64_t time_stamp(void) { return w_now; }
static int w_cpu; /* calls into the outside within one loop iteration */
#define W_TICK() do { VF_ASSERT(++w_cpu < 5000, "C01: spins inside one iteration of the event loop"); } while (0)

/* ---------------------------------------------------------------- random */
static unsigned w_rnd;
xmpp_rand_t *xmpp_rand_new(xmpp_ctx_t *c) { return strophe_alloc(c, 8); }
void xmpp_rand_free(xmpp_ctx_t *c, xmpp_rand_t *r) { strophe_free(c, r); }
int xmpp_rand(xmpp_rand_t *r) { (void)r; return (int)(1000 + w_rnd++); }
void xmpp_rand_bytes(xmpp_rand_t *r, unsigned char *o, size_t n)
{
    size_t i;
    (void)r;
    w_rnd++;
    for (i = 0; i < n; i++) o[i] = (unsigned char)(w_rnd + i);
}
void xmpp_rand_nonce(xmpp_rand_t *r, char *o, size_t n)
{
    size_t i;
    (void)r;
    if (!n) return;
    w_rnd++;
    for (i = 0; i + 1 < n; i++) o[i] = "0123456789abcdef"[(w_rnd >> (4 * (i % 4)) ) & 15];
    o[n - 1] = 0;
}

/* ---------------------------------------------------------------- strings */
static int seq(const char *a, const char *b) { return a && b && strcmp(a, b) == 0; }

/* ------------------------------------------------- small XML reader (client output) */
typedef struct node {
    const char *name, *ns, *text;
    int na;
    const char *ak[14], *av[14];
    struct node *kid, *next, *up;
} node;
#define W_ARENA 32768
static char *w_arena; /* lives outside the restored globals */
static size_t w_ause;
static char *w_al(size_t n)
{
    char *p = w_arena + w_ause;
    n = (n + 15) & ~(size_t)15;
    VF_ASSUME(w_ause + n < W_ARENA);
    w_ause += n;
    memset(p, 0, n);
    return p;
}
static const char *w_bad; /* why the output is not well-formed */
static char *unesc(const char *s, size_t n)
{
    char *o = w_al(n + 1), *p = o;
    size_t i;
    for (i = 0; i < n;) {
        if (s[i] == '<') w_bad = "'<' in text";
        if (s[i] != '&') { *p++ = s[i++]; continue; }
        if (!strncmp(s + i, "&lt;", 4)) { *p++ = '<'; i += 4; }
        else if (!strncmp(s + i, "&gt;", 4)) { *p++ = '>'; i += 4; }
        else if (!strncmp(s + i, "&amp;", 5)) { *p++ = '&'; i += 5; }
        else if (!strncmp(s + i, "&quot;", 6)) { *p++ = '"'; i += 6; }
        else if (!strncmp(s + i, "&apos;", 6)) { *p++ = '\''; i += 6; }
        else if (!strncmp(s + i, "&#xD;", 5) || !strncmp(s + i, "&#13;", 5)) { *p++ = '\r'; i += 5; }
        else if (!strncmp(s + i, "&#xA;", 5) || !strncmp(s + i, "&#10;", 5)) { *p++ = '\n'; i += 5; }
        else if (!strncmp(s + i, "&#x9;", 5)) { *p++ = '\t'; i += 5; }
        else if (!strncmp(s + i, "&#9;", 4)) { *p++ = '\t'; i += 4; }
        else { w_bad = "bad entity"; i++; }
    }
    *p = 0;
    return o;
}
static int isnm(char c) { return c && c != ' ' && c != '>' && c != '/' && c != '=' && c != '<' && c != '\'' && c != '"'; }
/* parses a start tag at *pp (after '<'); returns 1 if it is an empty element */
static int p_tag(const char **pp, node *n, node *up)
{
    const char *p = *pp, *s = p;
    int i;
    while (isnm(*p)) p++;
    n->name = unesc(s, (size_t)(p - s));
    n->up = up;
    for (;;) {
        const char *k; char q; size_t kl;
        while (*p == ' ' || *p == '\n') p++;
        if (*p == '>' || *p == '/' || !*p) break;
        k = p;
        while (isnm(*p)) p++;
        kl = (size_t)(p - k);
        if (kl == 0 || *p++ != '=') { w_bad = "bad attribute"; return 1; }
        q = *p++;
        if (q != '"' && q != '\'') { w_bad = "bad attribute value"; return 1; }
        s = p;
        while (*p && *p != q) p++;
        if (!*p) { w_bad = "bad attribute value"; return 1; }
        if (n->na < 14) { n->ak[n->na] = unesc(k, kl); n->av[n->na++] = unesc(s, (size_t)(p - s)); }
        p++;
    }
    n->ns = up ? up->ns : "jabber:client";
    for (i = 0; i < n->na; i++) if (seq(n->ak[i], "xmlns")) n->ns = n->av[i];
    if (*p == '/') { p++; if (*p != '>') w_bad = "bad tag"; else p++; *pp = p; return 1; }
    if (*p == '>') p++;
    *pp = p;
    return 0;
}
static const char *at(const node *n, const char *k)
{
    int i;
    for (i = 0; i < n->na; i++) if (seq(n->ak[i], k)) return n->av[i];
    return NULL;
}
static node *kid(const node *n, const char *name)
{
    node *k;
    if (!n) return NULL;
    for (k = n->kid; k; k = k->next) if (seq(k->name, name)) return k;
    return NULL;
}
/* complete element s[0..n): a tree */
static node *p_elem(const char *s, size_t n)
{
    const char *p = s, *e = s + n;
    node *root = NULL, *cur = NULL;
    while (p < e && !w_bad) {
        if (*p == '<' && p[1] == '/') {
            const char *q = p + 2;
            while (isnm(*q)) q++;
            if (!cur || strncmp(cur->name, p + 2, (size_t)(q - p - 2)) || cur->name[q - p - 2] || *q != '>') { w_bad = "unbalanced"; break; }
            p = q + 1;
            cur = cur->up;
        } else if (*p == '<') {
            node *k = (node *)w_al(sizeof(node)), **l;
            p++;
            int empty = p_tag(&p, k, cur);
            if (cur) { for (l = &cur->kid; *l; l = &(*l)->next); *l = k; }
            else if (root) { w_bad = "two roots"; break; }
            else root = k;
            if (!empty) cur = k;
        } else {
            const char *q = p;
            char *t;
            while (q < e && *q != '<') q++;
            if (!cur) { w_bad = "text outside"; break; }
            t = unesc(p, (size_t)(q - p));
            if (cur->text) {
                char *j = w_al(strlen(cur->text) + strlen(t) + 1);
                strcpy(j, cur->text); strcat(j, t); t = j;
            }
            cur->text = t;
            p = q;
        }
    }
    if (cur) w_bad = "unbalanced";
    return root;
}
/* length of the complete top-level thing at the start of s, 0 if incomplete */
static size_t p_len(const char *s, size_t n)
{
    size_t i = 0;
    int depth = 0;
    if (n && s[0] != '<') return 1;
    if (n >= 2 && s[1] == '?') {
        for (i = 2; i + 1 < n; i++) if (s[i] == '?' && s[i + 1] == '>') return i + 2;
        return 0;
    }
    while (i < n) {
        char q = 0;
        size_t st = i;
        if (s[i] != '<') { i++; continue; }
        for (i++; i < n && (q || s[i] != '>'); i++) {
            if (q) { if (s[i] == q) q = 0; }
            else if (s[i] == '"' || s[i] == '\'') q = s[i];
        }
        if (i >= n) return 0;
        if (s[st + 1] == '/') depth--;
        else if (s[i - 1] != '/') depth++;
        i++;
        if (depth <= 0) return i;
        if (depth == 1 && n - st > 14 && st == 0 && !strncmp(s, "<stream:stream", 14)) return i;
    }
    return 0;
}

/* ---------------------------------------------------------------- network */
#define FD0 700
#define W_BUF 65536
static struct wsock { int open, connecting, outcome, nonblock, peer_closed, rst, port, addr; } W[64];
static int w_nsock;
static char *w_out; /* bytes on their way to the client */
static size_t w_outn, w_outr, w_rtot;
static int w_cur = -1; /* the socket the server talks on */
static int w_plain_closed;
/* connect(2) log */
static struct { int addr, port; uint64_t t; } w_att[64];
static int w_natt;
/* what happens to the k-th connect: 0 accepted, 1 refused at once, 2 refused later, 3 never answered */
static int (*w_connect_hook)(int k, int addr, int port);
static void srv_rx(const char *d, size_t n, int tls);
static void srv_accept(void);

int socket(int d, int t, int p)
{
    (void)d; (void)t; (void)p;
    W_TICK();
    VF_ASSUME(w_nsock < 64);
    memset(&W[w_nsock], 0, sizeof(W[0]));
    W[w_nsock].open = 1;
    return FD0 + w_nsock++;
}
#define WS(fd) ((fd) >= FD0 && (fd) < FD0 + w_nsock ? &W[(fd) - FD0] : NULL)
int connect(int fd, const struct sockaddr *sa, socklen_t l)
{
    struct wsock *w = WS(fd);
    const struct sockaddr_in *in = (const struct sockaddr_in *)sa;
    int k;
    (void)l;
    W_TICK();
    VF_ASSERT(w && w->open, "C14,C01: connect() on something that is no open socket");
    if (!w) { errno = EBADF; return -1; }
    w->addr = (int)(ntohl(in->sin_addr.s_addr) & 0xffff);
    w->port = ntohs(in->sin_port);
    VF_ASSUME(w_natt < 64);
    w_att[w_natt].addr = w->addr; w_att[w_natt].port = w->port; w_att[w_natt].t = w_now; w_natt++;
    k = w_connect_hook ? w_connect_hook(w_natt - 1, w->addr, w->port) : 0;
    if (k == 1) { errno = ECONNREFUSED; return -1; }
    w->connecting = 1;
    w->outcome = k;
    errno = EINPROGRESS;
    return -1;
}
int fcntl(int fd, int cmd, ...)
{
    struct wsock *w = WS(fd);
    va_list ap;
    long a;
    va_start(ap, cmd); a = va_arg(ap, long); va_end(ap);
    if (!w) return -1;
    if (cmd == F_GETFL) return w->nonblock ? O_RDWR | O_NONBLOCK : O_RDWR;
    if (cmd == F_SETFL) { w->nonblock = (a & O_NONBLOCK) != 0; return 0; }
    return 0;
}
int setsockopt(int fd, int l, int o, const void *v, socklen_t n) { (void)fd; (void)l; (void)o; (void)v; (void)n; return 0; }
int getsockopt(int fd, int l, int o, void *v, socklen_t *n)
{
    struct wsock *w = WS(fd);
    (void)l; (void)n;
    if (o == SO_ERROR && w) *(int *)v = w->outcome == 2 ? ECONNREFUSED : 0;
    return 0;
}
int getpeername(int fd, struct sockaddr *sa, socklen_t *n)
{
    struct wsock *w = WS(fd);
    (void)sa; (void)n;
    if (!w || w->connecting || w->outcome == 2) { errno = ENOTCONN; return -1; }
    return 0;
}
int close(int fd)
{
    struct wsock *w = WS(fd);
    if (!w) {
        if (fd >= FD0) VF_ASSERT(0, "C01,C12: close() of a socket that was never opened");
        return __real_close(fd);
    }
    VF_ASSERT(w->open, "C01,C12: socket closed twice");
    w->open = 0;
    if (w_cur == fd) w_plain_closed = 1;
    return 0;
}
static uint64_t (*w_wake)(void); /* how soon the server will say something */
static int w_block; /* the transport takes nothing */
static int w_recoverable; /* the last send()/recv() gave EAGAIN on purpose */
static void w_settle(void);
int select(int nfds, fd_set *r, fd_set *wr, fd_set *ex, struct timeval *tv)
{
    int fd, n = 0;
    uint64_t ms = (uint64_t)tv->tv_sec * 1000 + (uint64_t)tv->tv_usec / 1000;
    int pass;
    fd_set or, ow;
    (void)ex;
    W_TICK();
    w_settle();
    for (pass = 0; pass < 2; pass++) {
        FD_ZERO(&or); FD_ZERO(&ow);
        for (fd = FD0; fd < nfds; fd++) {
            struct wsock *w = WS(fd);
            int wr_ = FD_ISSET(fd, wr), rd = FD_ISSET(fd, r);
            if (!wr_ && !rd) continue;
            VF_ASSERT(w && w->open, "C01,C13: waits for a socket that is not open");
            if (!w) continue;
            if (w->connecting) {
                if (wr_ && w->outcome != 3) {
                    w->connecting = 0;
                    if (w->outcome == 0) { w_cur = fd; w_plain_closed = 0; srv_accept(); }
                    FD_SET(fd, &ow); n++;
                }
            } else {
                if (rd && ((w_cur == fd && w_outr < w_outn) || w->peer_closed || w->rst)) { FD_SET(fd, &or); n++; }
                if (wr_ && !w_block) { FD_SET(fd, &ow); n++; }
            }
        }
        if (n || pass || ms == 0) break;
        /* nothing happens: time passes */
        if (w_wake && w_wake() < ms) ms = w_wake();
        w_now += ms;
        break;
    }
    /* a busy transport takes some time, too */
    if (n) w_now += ms && 0;
    *r = or; *wr = ow;
    return n;
}
int usleep(useconds_t us) { w_now += us / 1000; return 0; }

static int w_tls_on; /* client side: the bytes go through TLS */
static int w_send_cut; /* a send() did not take everything */
static int w_sent_bytes;
static ssize_t w_send(int fd, const void *b, size_t n, int tls)
{
    struct wsock *w = WS(fd);
    int k;
    W_TICK();
    VF_ASSERT(w && w->open && !w->connecting, "C01,C06: data is sent on a socket that is not connected");
    if (!w) { errno = EBADF; return -1; }
    if (w->rst) { errno = ECONNRESET; return -1; }
    if (n == 0) return 0;
    if (w_block) { errno = EAGAIN; w_recoverable = 1; w_send_cut = 1; return -1; }
    k = dev(P_SEND, 6);
    w_recoverable = 0;
    if (k == 1) { errno = EAGAIN; w_recoverable = 1; w_send_cut = 1; return -1; }
    if (k == 2) { n = 1; w_send_cut = 1; }
    if (k == 3 && n > 1) { n = n / 2; w_send_cut = 1; }
    if (k == 4 && n > 1) { n = n - 1; w_send_cut = 1; }
    if (k == 5) { w->rst = 1; errno = ECONNRESET; return -1; }
    w_sent_bytes += (int)n;
    srv_rx(b, n, tls);
    return (ssize_t)n;
}
static ssize_t w_recv(int fd, void *b, size_t n)
{
    struct wsock *w = WS(fd);
    size_t a = w_outn - w_outr;
    int k;
    W_TICK();
    w_recoverable = 0;
    if (w && w->open && w->outcome == 2) { errno = ECONNREFUSED; return -1; }
    VF_ASSERT(w && w->open && !w->connecting, "C01: reads from a socket that is not connected");
    if (!w || w->rst) { errno = ECONNRESET; return -1; }
    if (a == 0 || w_cur != fd) {
        if (w->peer_closed) return 0;
        errno = EAGAIN; w_recoverable = 1;
        return -1;
    }
    k = dev(P_RECV, 5);
    if (k == 1) { errno = EAGAIN; w_recoverable = 1; return -1; }
    if (k == 2) a = 1;
    if (k == 3 && a > 1) a = a / 2;
    if (k == 4 && a > 1) a = a - 1;
    if (a > n) a = n;
    memcpy(b, w_out + w_outr, a);
    w_outr += a; w_rtot += a;
    if (w_outr == w_outn) w_outr = w_outn = 0;
    return (ssize_t)a;
}
ssize_t send(int fd, const void *b, size_t n, int f)
{
    (void)f;
    VF_ASSERT(!w_tls_on, "C02,C08: plain bytes are sent on a connection that uses TLS");
    return w_send(fd, b, n, 0);
}
ssize_t recv(int fd, void *b, size_t n, int f) { (void)f; return w_recv(fd, b, n); }

#ifndef W_OWN_DNS
/* one address per name by default */
int getaddrinfo(const char *h, const char *s, const struct addrinfo *hi, struct addrinfo **res)
{
    struct addrinfo *a = calloc(1, sizeof(*a) + sizeof(struct sockaddr_in));
    struct sockaddr_in *in = (struct sockaddr_in *)(a + 1);
    (void)h; (void)hi;
    a->ai_family = AF_INET; a->ai_socktype = SOCK_STREAM; a->ai_addr = (struct sockaddr *)in; a->ai_addrlen = sizeof(*in);
    in->sin_family = AF_INET; in->sin_port = htons((uint16_t)atoi(s)); in->sin_addr.s_addr = htonl(0x0a000001);
    vf_track(a);
    *res = a;
    return 0;
}
void freeaddrinfo(struct addrinfo *a) { vf_untrack(a); free(a); }
int __res_query(const char *n, int c, int t, unsigned char *a, int l) { (void)n; (void)c; (void)t; (void)a; (void)l; return -1; }
int res_query(const char *n, int c, int t, unsigned char *a, int l) { return __res_query(n, c, t, a, l); }
#endif

/* ---------------------------------------------------------------- TLS stand-in
 * an identity layer; whether the handshake succeeds is the environment's choice */
#ifndef W_REAL_TLS
struct _tls { xmpp_ctx_t *ctx; xmpp_conn_t *conn; int started; char cb[32]; };
static int w_tls_started, w_tls_new, w_tls_fail, w_hs_fail, w_certs; /* xmppAddrs in the client certificate */
static int w_tls_wanted, w_srv_tls_ok; /* the server is ready for a handshake */
void tls_initialize(void) {}
void tls_shutdown(void) {}
tls_t *tls_new(xmpp_conn_t *c)
{
    tls_t *t;
    w_tls_new++;
    if (dev(P_TLS, 2)) { w_tls_fail = 1; if (w_srv_tls_ok && w_tls_wanted) w_hs_fail = 1; return NULL; }
    t = strophe_alloc(c->ctx, sizeof(*t));
    memset(t, 0, sizeof(*t));
    t->ctx = c->ctx; t->conn = c;
    return t;
}
void tls_free(tls_t *t) { if (t->started) w_tls_on = 0; strophe_free(t->ctx, t); }
char *tls_id_on_xmppaddr(xmpp_conn_t *c, unsigned n)
{
    return (int)n < w_certs ? strophe_strdup(c->ctx, n ? "other@d" : "u@d/r") : NULL;
}
unsigned tls_id_on_xmppaddr_num(xmpp_conn_t *c) { (void)c; return (unsigned)w_certs; }
xmpp_tlscert_t *tls_peer_cert(xmpp_conn_t *c) { (void)c; return NULL; }
int tls_set_credentials(tls_t *t, const char *f) { (void)t; (void)f; return -1; }
int tls_init_channel_binding(tls_t *t, const char **p, size_t *l)
{
    (void)t;
    *p = "tls-exporter"; *l = strlen(*p);
    return 0;
}
const void *tls_get_channel_binding_data(tls_t *t, size_t *n)
{
    memcpy(t->cb, "BINDING-DATA-OF-32-OCTETS-\0\1\2\3,=", 32);
    *n = 32;
    return t->cb;
}
int tls_start(tls_t *t)
{
    w_tls_started++;
    if (!w_srv_tls_ok || dev(P_TLS, 2)) { w_tls_fail = w_hs_fail = 1; return 0; }
    t->started = 1;
    w_tls_on = 1;
    return 1;
}
int tls_stop(tls_t *t) { (void)t; w_tls_on = 0; return 1; }
int tls_pending(struct conn_interface *i) { (void)i; return 0; }
int tls_read(struct conn_interface *i, void *b, size_t n) { return (int)w_recv(i->conn->sock, b, n); }
int tls_write(struct conn_interface *i, const void *b, size_t n)
{
    VF_ASSERT(i->conn->tls && i->conn->tls->started, "C02,C08: TLS is used before its handshake");
    return (int)w_send(i->conn->sock, b, n, 1);
}
int tls_clear_pending_write(struct conn_interface *i) { (void)i; return 0; }
int tls_error(struct conn_interface *i) { (void)i; return w_recoverable ? EAGAIN : w_plain_closed ? ECONNABORTED : errno ? errno : ECONNRESET; }
int tls_is_recoverable(struct conn_interface *i, int e) { (void)i; return e == EAGAIN; }
#endif
#endif
