/*@unit
{"props": ["C14", "C13"],
 "functions": ["xmpp_run_once", "_connect_next", "sock_connect_error", "sock_connect", "conn_disconnect"],
 "assumptions": ["sockets, the system resolver and time are stand-ins that behave as POSIX specifies; a new socket gets the lowest free number"],
 "lib": true, "libs": ["-lexpat", "-lz", "-lssl", "-lcrypto"], "rename": {"util.c": ["time_stamp"]},
 "runs": [
  {"name": "reuse", "mode": "bounded", "engine": "enum", "split": 4, "timeout": 200, "covers": ["reused", "accepted", "given up", "first lost"], "bound": "two connections in either order of creation, the second one connected beforehand, in or after the disconnect notification of the first one; the first one loses its peer (reset, end of stream, send error) with or without data to send, before or after the loop waits; the second one is accepted after 0 to 2 iterations or never"}
 ]}
*/
#include "vf.h"
#include "strophe.h"
#include "common.h"
#include "nctx.h"
#include <sys/select.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netdb.h>
#include <fcntl.h>
#include <errno.h>
int __real_close(int);
static uint64_t now = 1000;
uint64_t time_stamp(void) { return now; }
#define FD0 500
enum { FREE, CONNECTING, UP, EOFED, RESET };
static struct { int st, acc, port; uint64_t t; } S[8];
static int loss, when_, full, blk, acc2, n1, n2, up2, rc2, at2, sel_n;
static uint64_t t2, e2;
static xmpp_ctx_t *ctx; static xmpp_conn_t *c1, *c2;
static struct addrinfo ai; static struct sockaddr_in sa;
int getaddrinfo(const char *h, const char *s, const struct addrinfo *hi, struct addrinfo **r)
{
    (void)h; (void)hi;
    memset(&ai, 0, sizeof(ai)); memset(&sa, 0, sizeof(sa));
    sa.sin_family = ai.ai_family = AF_INET; sa.sin_port = htons((uint16_t)atoi(s)); ai.ai_socktype = SOCK_STREAM; ai.ai_protocol = IPPROTO_TCP;
    ai.ai_addr = (void *)&sa; ai.ai_addrlen = sizeof(sa);
    *r = &ai;
    return 0;
}
void freeaddrinfo(struct addrinfo *a) { (void)a; }
int socket(int d, int t, int p)
{
    int i;
    (void)d; (void)t; (void)p;
    for (i = 0; i < 8; i++) if (S[i].st == FREE) { S[i].st = CONNECTING; S[i].acc = -1; return FD0 + i; }
    abort();
}
static int idx(int fd) { VF_ASSERT(fd >= FD0 && fd < FD0 + 8 && S[fd - FD0].st != FREE, "C12: a closed socket is used"); return fd - FD0; }
int fcntl(int fd, int c, ...) { (void)fd; (void)c; return 0; }
int fcntl64(int fd, int c, ...) { (void)fd; (void)c; return 0; }
int setsockopt(int fd, int a, int b, const void *c, socklen_t d) { (void)fd; (void)a; (void)b; (void)c; (void)d; return 0; }
int connect(int fd, const struct sockaddr *a, socklen_t l)
{
    int i = idx(fd);
    (void)l;
    S[i].port = ntohs(((const struct sockaddr_in *)a)->sin_port);
    S[i].acc = S[i].port == 2 ? acc2 : 0;
    S[i].t = now;
    if (S[i].port == 2) { VF_ASSERT(t2 == 0, "C14: an address is tried twice"); t2 = now; if (i == 0 && n1) VF_REACH("reused"); }
    errno = EINPROGRESS;
    return -1;
}
int getpeername(int fd, struct sockaddr *a, socklen_t *l)
{
    int i = idx(fd);
    (void)a; (void)l;
    if (S[i].st == UP || S[i].st == EOFED) return 0;
    errno = ENOTCONN;
    return -1;
}
int getsockopt(int fd, int a, int b, void *v, socklen_t *l) { (void)a; (void)b; *(int *)v = S[idx(fd)].st == RESET ? ECONNRESET : 0; *l = sizeof(int); return 0; }
ssize_t recv(int fd, void *b, size_t n, int f)
{
    int i = idx(fd);
    (void)b; (void)n; (void)f;
    if (S[i].st == EOFED) return 0;
    errno = S[i].st == RESET ? ECONNRESET : EAGAIN;
    return -1;
}
ssize_t send(int fd, const void *b, size_t n, int f)
{
    int i = idx(fd);
    (void)b; (void)f;
    if (S[i].st == RESET) { errno = EPIPE; return -1; }
    if (blk && S[i].port == 1 && S[i].st == UP) { errno = EAGAIN; return -1; }
    return (ssize_t)n;
}
int close(int fd)
{
    if (fd < FD0 || fd >= FD0 + 8) return __real_close(fd);
    S[idx(fd)].st = FREE;
    return 0;
}
int usleep(useconds_t us) { now += us / 1000; return 0; }
static void lose(void) { int i; for (i = 0; i < 8; i++) if (S[i].st == UP && S[i].port == 1) { S[i].st = loss ? RESET : EOFED; VF_REACH("first lost"); } }
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    int i, k = 0;
    (void)n; (void)e;
    if (++sel_n == 3 && when_) lose();
    for (i = 0; i < 8; i++) if (S[i].st == CONNECTING && FD_ISSET(FD0 + i, w) && S[i].acc >= 0 && S[i].acc-- == 0) S[i].st = UP;
    for (i = 0; i < 8; i++) {
        if (S[i].st == FREE) { VF_ASSERT(!FD_ISSET(FD0 + i, r) && !FD_ISSET(FD0 + i, w), "C12: a closed socket is waited for"); continue; }
        if (FD_ISSET(FD0 + i, r)) { if (S[i].st == EOFED || S[i].st == RESET) k++; else FD_CLR(FD0 + i, r); }
        if (FD_ISSET(FD0 + i, w)) { if (S[i].st == RESET || S[i].st == EOFED || (S[i].st == UP && !(blk && S[i].port == 1))) k++; else FD_CLR(FD0 + i, w); }
    }
    if (!k) now += (uint64_t)tv->tv_sec * 1000 + (uint64_t)tv->tv_usec / 1000;
    return k;
}
static void ev(xmpp_conn_t *c, xmpp_conn_event_t e, int err, xmpp_stream_error_t *se, void *u);
static void second(void)
{
    rc2 = xmpp_connect_raw(c2, "b.ex", 2, ev, NULL);
    VF_ASSERT(rc2 == 0, "C13: the second connection cannot be made");
}
static void make2(void) { c2 = xmpp_conn_new(ctx); VF_ASSUME(c2 != NULL); xmpp_conn_set_jid(c2, "me@b.ex"); }
static void ev(xmpp_conn_t *c, xmpp_conn_event_t e, int err, xmpp_stream_error_t *se, void *u)
{
    (void)err; (void)se; (void)u;
    if (c == c2) { if (e == XMPP_CONN_DISCONNECT) { n2++; e2 = now; } else up2++; return; }
    if (e == XMPP_CONN_DISCONNECT) {
        n1++;
        if (at2 == 1) second();
        if (at2 == 3) { make2(); second(); }
    }
}
void harness(void)
{
    int i, order;
    ctx = vf_ctx();
    loss = nd_bool(); when_ = nd_bool(); full = nd_bool(); acc2 = nd_range(-1, 2); at2 = nd_range(0, 3); order = nd_bool();
    /* at2: 0 beforehand, 1 in the notification, 2 after it, 3 in it with a new connection */
    if (order && at2 != 3) make2();
    c1 = xmpp_conn_new(ctx); VF_ASSUME(c1 != NULL); xmpp_conn_set_jid(c1, "me@a.ex");
    if (!order && at2 != 3) make2();
    VF_ASSERT(xmpp_connect_raw(c1, "a.ex", 1, ev, NULL) == 0, "C13: the first connection cannot be made");
    xmpp_run_once(ctx, 100);
    VF_ASSERT(xmpp_conn_is_connected(c1), "C14: not connected");
    if (at2 == 0) second();
    blk = full;
    xmpp_send_raw_string(c1, "%s", "<a/>");
    xmpp_run_once(ctx, 100);
    if (!when_) lose();
    for (i = 0; i < 90 && (n1 == 0 || (n2 == 0 && up2 == 0)); i++) {
        xmpp_run_once(ctx, 100);
        if (at2 == 2 && n1 && t2 == 0) second();
        if (i == 80) break;
    }
    VF_ASSERT(n1 == 1, "C13: the first connection did not end exactly once");
    if (acc2 < 0) {
        VF_REACH("given up");
        VF_ASSERT(up2 == 0 && n2 == 1, "C13,C14: the attempt that is not answered does not fail");
        VF_ASSERT(e2 - t2 >= 5000, "C13,C14: an attempt is given up before 5 s passed although it was not refused");
        VF_ASSERT(e2 - t2 <= 5300, "C13,C14: an attempt is not given up after 5 s");
    } else {
        VF_REACH("accepted");
        VF_ASSERT(up2 == 1 && n2 == 0, "C14: an endpoint that accepts is not used");
    }
    xmpp_conn_release(c1); xmpp_conn_release(c2); xmpp_ctx_free(ctx);
    VF_ASSERT(vf_live == 0, "C12: something is not released");
}
