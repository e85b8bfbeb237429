/*@unit
{"props": ["C14", "C13"],
 "functions": ["sock_new", "sock_connect", "sock_getaddrinfo", "sock_free", "sock_connect_error", "resolver_srv_lookup", "resolver_srv_lookup_buf", "resolver_srv_list_sort", "_connect_client", "xmpp_connect_client", "xmpp_connect_raw", "xmpp_connect_component", "_conn_connect", "_conn_default_port", "_connect_next", "xmpp_run_once", "conn_established"],
 "assumptions": ["sockets, the system resolver and time are stand-ins that behave as POSIX specifies"],
 "lib": true, "libs": ["-lexpat", "-lz", "-lssl", "-lcrypto"], "rename": {"util.c": ["time_stamp"]},
 "runs": [
  {"name": "modes", "mode": "bounded", "engine": "enum", "split": 3, "defs": ["NREC=1", "NADDR=2", "MODES"], "timeout": 200, "covers": ["accepted", "all failed", "default port", "refused at once"], "bound": "client, raw, legacy SSL and component connections with and without host and port, one SRV record, two addresses, all outcomes (accepted, refused at once or later, never answered, no socket)"},
  {"name": "srv2", "mode": "bounded", "engine": "enum", "split": 5, "defs": ["NREC=2", "NADDR=2"], "timeout": 200, "covers": ["accepted", "all failed", "second target"], "bound": "lookup failure or 0-2 SRV records with 3 priorities and 3 weights each, 0-2 addresses per target, all outcomes"},
  {"name": "again", "mode": "bounded", "engine": "enum", "split": 5, "defs": ["NREC=1", "NADDR=2", "AGAIN"], "timeout": 200, "covers": ["accepted", "all failed", "second attempt"], "bound": "the same, one record, two attempts with the same connection object"},
  {"name": "srv5", "mode": "bounded", "engine": "sample", "samples": 150000, "defs": ["NREC=5", "NADDR=3", "AGAIN"], "timeout": 150, "covers": ["accepted", "all failed", "second target"], "bound": "sampled: up to 5 records, 3 addresses each, two attempts"},
  {"name": "srv8", "mode": "bounded", "engine": "sample", "samples": 1000000, "tier": "thorough", "workers": 8, "partial": true, "defs": ["NREC=8", "NADDR=4", "AGAIN"], "timeout": 600, "covers": ["accepted", "all failed", "second target"], "bound": "sampled: up to 8 records, 4 addresses each, two attempts"}
 ]}
*/
#include "vf.h"
#include "strophe.h"
#include "common.h"
#include "nctx.h"
#include <sys/select.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netdb.h>
#include <fcntl.h>
#include <errno.h>
int __real_close(int);
static uint64_t now = 1000;
uint64_t time_stamp(void) { return now; }

/* ---- the world: SRV records, addresses, outcomes ---- */
static struct rec { int prio, weight, port, addrs, id; } rec[NREC + 1]; static int nrec; /* -1: lookup fails */
static char ex_host[16]; static int ex_port; /* what the domain or host stands for */
static int host_addrs = -1; /* addresses of the host connected to without SRV */
static int srv_asked, bad_query;
enum { ACCEPT, REFUSE, LATE, HANG, NOSOCK, NOUT };
static struct att { int target, idx, port, outcome; uint64_t t; } att[128]; static int natt;
#define FD0 700
static struct { int open, connecting, out, nonblock, att, fam, wr; } W[140]; static int nw, pending_out = -1;
static char hdr[600]; static int hdr_fd = -1;
static int attempts_base; /* first attempt of this round */

static void put16(unsigned char **p, int v) { *(*p)++ = (unsigned char)(v >> 8); *(*p)++ = (unsigned char)v; }
static void putname(unsigned char **p, const char *s)
{
    while (*s) { size_t l = strcspn(s, "."); *(*p)++ = (unsigned char)l; memcpy(*p, s, l); *p += l; s += l; if (*s) s++; }
    *(*p)++ = 0;
}
int __res_query(const char *n, int c, int t, unsigned char *a, int l)
{
    unsigned char *p = a, *q;
    int i;
    char name[16];
    srv_asked++;
    if (strcmp(n, "_xmpp-client._tcp.dom.ex") || c != 1 || t != 33) bad_query = 1;
    if (nrec < 0) return -1;
    VF_ASSUME(l >= 1000);
    put16(&p, 77); put16(&p, 0x8180); put16(&p, 1); put16(&p, nrec); put16(&p, 0); put16(&p, 0);
    putname(&p, n); put16(&p, 33); put16(&p, 1);
    for (i = 0; i < nrec; i++) {
        put16(&p, 0xc00c); put16(&p, 33); put16(&p, 1); put16(&p, 0); put16(&p, 300);
        q = p; p += 2;
        put16(&p, rec[i].prio); put16(&p, rec[i].weight); put16(&p, rec[i].port);
        snprintf(name, sizeof(name), "t%d.ex", rec[i].id);
        putname(&p, name);
        i = i; { unsigned char *e = p; p = q; put16(&p, (int)(e - q - 2)); p = e; }
    }
    return (int)(p - a);
}
int res_query(const char *n, int c, int t, unsigned char *a, int l) { return __res_query(n, c, t, a, l); }

static int live_ai;
int getaddrinfo(const char *h, const char *s, const struct addrinfo *hi, struct addrinfo **res)
{
    int target = -2, n, i, port = s ? atoi(s) : -1;
    struct addrinfo *head = NULL, **l = &head, *a;
    (void)hi;
    if (sscanf(h, "t%d.ex", &i) == 1) target = i;
    else if (!strcmp(h, ex_host)) target = -1;
    VF_ASSERT(target != -2, "C14: an address of something else is looked up");
    if (target >= 0) {
        for (i = 0; i < nrec; i++) if (rec[i].id == target) break;
        if (i == nrec) { VF_ASSERT(0, "C14: an address of something else is looked up"); return EAI_NONAME; }
        if (rec[i].addrs < 0) rec[i].addrs = nd_range(0, NADDR);
        n = rec[i].addrs;
        VF_ASSERT(port == rec[i].port, "C14: not the port of the SRV record is used");
    } else {
        if (host_addrs < 0) host_addrs = nd_range(0, NADDR);
        n = host_addrs;
        VF_ASSERT(port == ex_port, "C14: not the port given or the default port is used");
    }
    if (n == 0) return EAI_NONAME;
    for (i = 0; i < n; i++) {
        a = calloc(1, sizeof(*a) + sizeof(struct sockaddr_in6));
        live_ai++;
        a->ai_addr = (struct sockaddr *)(a + 1);
        a->ai_socktype = SOCK_STREAM; a->ai_protocol = IPPROTO_TCP;
        if (i % 2 == 0) {
            struct sockaddr_in6 *x = (void *)a->ai_addr;
            a->ai_family = x->sin6_family = AF_INET6; x->sin6_port = htons((uint16_t)port);
            x->sin6_addr.s6_addr[14] = (unsigned char)(target + 2); x->sin6_addr.s6_addr[15] = (unsigned char)i;
            a->ai_addrlen = sizeof(*x);
        } else {
            struct sockaddr_in *x = (void *)a->ai_addr;
            a->ai_family = x->sin_family = AF_INET; x->sin_port = htons((uint16_t)port);
            x->sin_addr.s_addr = htonl((uint32_t)((target + 2) << 8 | i));
            a->ai_addrlen = sizeof(*x);
        }
        *l = a; l = &a->ai_next;
    }
    *res = head;
    return 0;
}
void freeaddrinfo(struct addrinfo *a)
{
    while (a) { struct addrinfo *n = a->ai_next; memset(a, 0xee, sizeof(*a)); free(a); live_ai--; a = n; }
}
/* the candidate the next attempt must be for, by the statement */
static int cur_t, cur_a; /* position: target (in SRV order) and address */
static int order[NREC + 1], norder;
static void make_order(int explicit_host)
{
    int i, j;
    norder = 0;
    if (explicit_host || nrec <= 0) { order[norder++] = -1; return; }
    for (i = 0; i < nrec; i++) {
        for (j = norder; j > 0 && (rec[i].prio < rec[order[j - 1]].prio || (rec[i].prio == rec[order[j - 1]].prio && rec[i].weight > rec[order[j - 1]].weight)); j--) order[j] = order[j - 1];
        order[j] = i; norder++;
    }
}
static int n_addrs(int o) { return o < 0 ? (host_addrs < 0 ? 0 : host_addrs) : rec[o].addrs < 0 ? 0 : rec[o].addrs; }
static int resolved(int o) { return o < 0 ? host_addrs >= 0 : rec[o].addrs >= 0; }
static int equal_rank(int a, int b) { return a == b || (a >= 0 && b >= 0 && rec[a].prio == rec[b].prio && rec[a].weight == rec[b].weight); }
static void attempt(int target, int idx, int port, int outcome)
{
    int i, j;
    struct att *p = natt > attempts_base ? &att[natt - 1] : NULL;
    VF_ASSUME(natt < 126);
    if (p) {
        VF_ASSERT(p->outcome != ACCEPT, "C14: another candidate is tried although one accepted");
        VF_ASSERT(p->outcome != HANG || now - p->t >= 5000, "C13,C14: an attempt is given up before 5 s passed");
    }
    /* targets of equal rank may come in any order: bring the one used to the front */
    while (cur_t < norder && cur_a >= n_addrs(order[cur_t]) && resolved(order[cur_t])) { cur_t++; cur_a = 0; }
    if (cur_t < norder && cur_a == 0) {
        for (i = cur_t; i < norder; i++) {
            if (!equal_rank(order[cur_t], order[i])) break;
            if ((order[i] < 0 ? -1 : rec[order[i]].id) == target) { j = order[i]; order[i] = order[cur_t]; order[cur_t] = j; break; }
        }
    }
    VF_ASSERT(cur_t < norder, "C14: more is tried than there are candidates");
    if (cur_t < norder) {
        int o = order[cur_t];
        VF_ASSERT(target == (o < 0 ? -1 : rec[o].id), "C14: the targets are not tried in SRV order");
        VF_ASSERT(idx == cur_a, "C14: the addresses of a target are not tried in resolver order");
        VF_ASSERT(port == (o < 0 ? ex_port : rec[o].port), "C14: wrong port");
        if (cur_t > 0) VF_REACH("second target");
    }
    cur_a++;
    att[natt].target = target; att[natt].idx = idx; att[natt].port = port; att[natt].outcome = outcome; att[natt++].t = now;
}
static int in_sock; static int next_fam;
int socket(int d, int t, int p)
{
    (void)p;
    VF_ASSERT((t & SOCK_STREAM) && (d == AF_INET || d == AF_INET6), "C14: not a TCP socket");
    VF_ASSUME(nw < 139);
    pending_out = nd_range(ACCEPT, NOUT - 1);
    if (pending_out == NOSOCK) {
        /* which candidate this was is known from the order only */
        while (cur_t < norder && cur_a >= n_addrs(order[cur_t]) && resolved(order[cur_t])) { cur_t++; cur_a = 0; }
        if (cur_t < norder) {
            int o = order[cur_t], i;
            /* equal ranks: do not know which; leave such histories out */
            for (i = cur_t + 1; i < norder; i++) VF_ASSUME(cur_a > 0 || !equal_rank(o, order[i]));
            attempt(o < 0 ? -1 : rec[o].id, cur_a, o < 0 ? ex_port : rec[o].port, NOSOCK);
        } else VF_ASSERT(0, "C14: more is tried than there are candidates");
        errno = EMFILE;
        return -1;
    }
    W[nw].open = 1; W[nw].fam = d; W[nw].out = pending_out;
    (void)in_sock; (void)next_fam;
    return FD0 + nw++;
}
#define WS(fd) ((fd) >= FD0 && (fd) < FD0 + nw ? &W[(fd) - FD0] : NULL)
int connect(int fd, const struct sockaddr *sa, socklen_t l)
{
    int target, idx, port;
    if (!WS(fd) || !WS(fd)->open) { VF_ASSERT(0, "C14: connects something that is not a socket"); errno = EBADF; return -1; }
    VF_ASSERT(WS(fd)->nonblock, "C14,C01: a blocking connect");
    VF_ASSERT(sa->sa_family == WS(fd)->fam, "C14: wrong address family");
    if (sa->sa_family == AF_INET6) {
        const struct sockaddr_in6 *x = (const void *)sa;
        VF_ASSERT(l == sizeof(*x), "C14: wrong address length");
        target = x->sin6_addr.s6_addr[14] - 2; idx = x->sin6_addr.s6_addr[15]; port = ntohs(x->sin6_port);
    } else {
        const struct sockaddr_in *x = (const void *)sa;
        VF_ASSERT(l == sizeof(*x), "C14: wrong address length");
        target = (int)(ntohl(x->sin_addr.s_addr) >> 8) - 2; idx = (int)(ntohl(x->sin_addr.s_addr) & 255); port = ntohs(x->sin_port);
    }
    attempt(target, idx, port, WS(fd)->out);
    if (WS(fd)->out == REFUSE) { VF_REACH("refused at once"); errno = ECONNREFUSED; return -1; }
    WS(fd)->connecting = 1;
    errno = EINPROGRESS;
    return -1;
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap; long a;
    va_start(ap, cmd); a = va_arg(ap, long); va_end(ap);
    if (!WS(fd)) return -1;
    if (cmd == F_SETFL) WS(fd)->nonblock = (a & O_NONBLOCK) != 0;
    return cmd == F_GETFL ? O_RDWR : 0;
}
int setsockopt(int fd, int l, int o, const void *v, socklen_t n) { (void)fd; (void)l; (void)o; (void)v; (void)n; return 0; }
int getsockopt(int fd, int l, int o, void *v, socklen_t *n)
{
    (void)l; (void)n;
    if (o == SO_ERROR && WS(fd)) *(int *)v = WS(fd)->out == LATE ? ECONNREFUSED : 0;
    return 0;
}
int getpeername(int fd, struct sockaddr *sa, socklen_t *n)
{
    (void)sa; (void)n;
    if (!WS(fd) || WS(fd)->connecting || WS(fd)->out != ACCEPT) { errno = ENOTCONN; return -1; }
    return 0;
}
int close(int fd)
{
    if (!WS(fd)) return __real_close(fd);
    VF_ASSERT(WS(fd)->open, "C14,C12: a socket is closed twice");
    WS(fd)->open = 0;
    return 0;
}
static int closing;
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    int fd, k = 0;
    fd_set or, ow;
    (void)e;
    FD_ZERO(&or); FD_ZERO(&ow);
    for (fd = FD0; fd < n; fd++) {
        if (!FD_ISSET(fd, r) && !FD_ISSET(fd, w)) continue;
        VF_ASSERT(WS(fd) && WS(fd)->open, "C14: waits for a socket that is not open");
        if (!WS(fd)) continue;
        if (WS(fd)->connecting) {
            if (FD_ISSET(fd, w) && WS(fd)->out != HANG) { WS(fd)->connecting = 0; FD_SET(fd, &ow); k++; }
        } else {
            if (FD_ISSET(fd, w)) { FD_SET(fd, &ow); k++; }
            if (FD_ISSET(fd, r) && closing) { FD_SET(fd, &or); k++; }
        }
    }
    if (!k) now += (uint64_t)tv->tv_sec * 1000 + (uint64_t)tv->tv_usec / 1000;
    *r = or; *w = ow;
    return k;
}
ssize_t send(int fd, const void *b, size_t n, int f)
{
    (void)f;
    VF_ASSERT(WS(fd) && WS(fd)->open && !WS(fd)->connecting && WS(fd)->out == ACCEPT, "C14: writes to a candidate that did not accept");
    hdr_fd = fd;
    if (strlen(hdr) + n < sizeof(hdr)) strncat(hdr, b, n);
    return (ssize_t)n;
}
ssize_t recv(int fd, void *b, size_t n, int f)
{
    (void)b; (void)n; (void)f;
    if (WS(fd) && WS(fd)->out == LATE) { errno = ECONNREFUSED; return -1; }
    if (closing) return 0;
    errno = EAGAIN;
    return -1;
}
int usleep(useconds_t us) { now += us / 1000; return 0; }

/* ---- the user ---- */
static int n_conn, n_disc, n_raw, disc_err;
static void ev(xmpp_conn_t *c, xmpp_conn_event_t e, int x, xmpp_stream_error_t *se, void *u)
{
    (void)c; (void)se; (void)u;
    if (e == XMPP_CONN_DISCONNECT) { n_disc++; disc_err = x; VF_ASSERT(xmpp_conn_is_disconnected(c), "C13: state during the disconnect notification"); }
    else if (e == XMPP_CONN_RAW_CONNECT) { n_raw++; }
    else n_conn++;
}
static void one_state(xmpp_conn_t *c)
{
    VF_ASSERT(xmpp_conn_is_connecting(c) + xmpp_conn_is_connected(c) + xmpp_conn_is_disconnected(c) == 1, "C13: not exactly one state");
}
static xmpp_conn_t *conn;
static void round_(int mode)
{
    int rc, i, explicit_host = 0, port = 0, raw = 0, comp = 0, ssl = 0;
    const char *host = NULL;
    attempts_base = natt; cur_t = cur_a = 0; n_conn = n_disc = n_raw = 0; srv_asked = bad_query = 0; closing = 0; hdr[0] = 0; hdr_fd = -1;
    strcpy(ex_host, "dom.ex"); ex_port = 5222;
    if (mode & 1) { host = "alt.ex"; strcpy(ex_host, host); explicit_host = 1; }
    if (mode & 2) ex_port = port = 6000;
    if (mode >> 2 == 1) raw = 1;
    if (mode >> 2 == 2) { ssl = 1; if (!host) explicit_host = 1; if (!port) ex_port = 5223; }
    if (mode >> 2 == 3) { comp = 1; if (!port) ex_port = 5347; }
    if (!port) VF_REACH("default port");
    make_order(explicit_host);
    xmpp_conn_set_flags(conn, ssl ? XMPP_CONN_FLAG_LEGACY_SSL : 0);
    xmpp_conn_set_jid(conn, comp ? "comp.ex" : "me@dom.ex/r"); xmpp_conn_set_pass(conn, "p");
    rc = comp ? xmpp_connect_component(conn, host, (unsigned short)port, ev, NULL)
         : raw ? xmpp_connect_raw(conn, host, (unsigned short)port, ev, NULL)
               : xmpp_connect_client(conn, host, (unsigned short)port, ev, NULL);
    if (explicit_host) VF_ASSERT(!srv_asked, "C14: an SRV lookup although the host is given");
    else VF_ASSERT(srv_asked == 1 && !bad_query, "C14: not the SRV records of the domain are looked up");
    one_state(conn);
    if (rc == XMPP_EOK) {
        VF_ASSERT(!xmpp_conn_is_disconnected(conn), "C13: an accepted attempt is not under way");
        for (i = 0; i < 400 && !n_disc && hdr_fd < 0 && !(n_raw && raw); i++) {
            uint64_t was = now;
            struct att *p = &att[natt - 1];
            int before = natt;
            xmpp_run_once(conn->ctx, 1000);
            one_state(conn);
            VF_ASSERT(xmpp_conn_is_disconnected(conn) == n_disc, "C13: state and notification disagree");
            if (natt > attempts_base && p->outcome == HANG && natt == before && !n_disc && was - p->t > 6100) VF_ASSERT(0, "C13,C14: an attempt is not given up after 5 s");
            if (n_disc && p->outcome == HANG && before == natt) VF_ASSERT(now - p->t >= 5000, "C13,C14: the last attempt is given up before 5 s passed");
        }
        VF_ASSERT(n_disc || hdr_fd >= 0 || n_raw, "C14: neither connected nor given up");
    } else {
        VF_ASSERT(rc < 0 && xmpp_conn_is_disconnected(conn) && n_disc == 0, "C13,C14: wrong report of a failed attempt");
    }
    if (natt > attempts_base && att[natt - 1].outcome == ACCEPT) {
        VF_REACH("accepted");
        if (!ssl) VF_ASSERT(rc == XMPP_EOK && !n_disc, "C14: failure is reported although a candidate accepted");
        if (!raw && !ssl) VF_ASSERT(strstr(hdr, comp ? "to=\"comp.ex\"" : "to=\"dom.ex\"") || strstr(hdr, comp ? "to='comp.ex'" : "to='dom.ex'"), "C14: the stream is not opened to the domain");
        for (i = 0; i < nw; i++) VF_ASSERT(W[i].open == (i == nw - 1 && !n_disc), "C12,C14: sockets of failed attempts stay open");
        if (!n_disc && rc == XMPP_EOK) {
            /* the server hangs up */
            closing = 1;
            for (i = 0; i < 20 && !n_disc; i++) xmpp_run_once(conn->ctx, 1000);
            VF_ASSERT(n_disc == 1, "C13: not exactly one disconnect notification");
        }
    } else {
        VF_REACH("all failed");
        /* everything was tried */
        while (cur_t < norder && resolved(order[cur_t]) && cur_a >= n_addrs(order[cur_t])) { cur_t++; cur_a = 0; }
        VF_ASSERT(cur_t >= norder, "C14: failure is reported although not all candidates were tried");
        VF_ASSERT(rc != XMPP_EOK ? n_disc == 0 : n_disc == 1, "C13,C14: failure is not reported exactly once");
    }
    VF_ASSERT(n_conn == 0, "C13: connected without a server");
    one_state(conn);
    VF_ASSERT(xmpp_conn_is_disconnected(conn), "C13: not disconnected");
    for (i = 0; i < nw; i++) VF_ASSERT(!W[i].open, "C12,C14: a socket stays open");
    nw = 0;
}
void harness(void)
{
    static const int pr[] = {0, 1, 65535}, we[] = {0, 1, 65535};
    xmpp_ctx_t *ctx = vf_ctx();
    int i, mode = 0;
    memset(W, 0, sizeof(W));
    conn = xmpp_conn_new(ctx);
    VF_ASSUME(conn != NULL);
    nrec = nd_range(-1, NREC);
    for (i = 0; i < nrec; i++) {
        rec[i].prio = pr[nd_range(0, NREC > 1 ? 2 : 0)]; rec[i].weight = we[nd_range(0, NREC > 1 ? 2 : 0)];
        rec[i].port = i == 1 ? 65535 : 1000 + i; rec[i].addrs = -1; rec[i].id = i;
    }
#ifdef MODES
    mode = nd_range(0, 15);
    VF_ASSUME(mode >> 2 != 3 || (mode & 1));
#endif
    round_(mode);
#ifdef AGAIN
    memset(W, 0, sizeof(W));
    VF_REACH("second attempt");
    for (i = 0; i < nrec; i++) rec[i].addrs = -1;
    host_addrs = -1;
    round_(0);
#endif
    xmpp_conn_release(conn);
    xmpp_ctx_free(ctx);
    VF_ASSERT(vf_live == 0 && live_ai == 0, "C12: something is not released");
}
