/*@unit
{"props": ["C14"],
 "functions": ["sock_new", "sock_connect", "sock_getaddrinfo", "sock_set_nonblocking", "_sock_set_blocking_mode", "_in_progress", "_connect_next"],
 "assumptions": ["the list of SRV targets and each target's list of addresses are read through one node that stands for the current element (the code reads no other one)", "freeaddrinfo releases the whole list it is given; less than 2^30 targets and addresses"],
 "runs": [
  {"name": "connect", "mode": "proof", "defs": ["T_CONNECT"], "annotate": {"sock.c": {"sock_connect": 2}}, "after": ["sock_connect_2"], "rename": {"sock.c": ["_sockaddr2str", "sock_getaddrinfo"]}, "unwind": 6, "timeout": 200},
  {"name": "getaddrinfo", "mode": "proof", "defs": ["T_GAI"], "unwind": 8, "timeout": 100},
  {"name": "new", "mode": "proof", "defs": ["T_NEW"], "rename": {"sock.c": ["sock_getaddrinfo"]}, "unwind": 6, "timeout": 100},
  {"name": "next", "mode": "proof", "defs": ["T_NEXT"], "unwind": 6, "timeout": 100}
 ]}
*/
#include "vf.h"
#include <sys/types.h>
#include <sys/socket.h>
#include <netdb.h>
#include <fcntl.h>
#include "strophe.h"
#include "common.h"
#include "resolver.h"
#include "sock.h"
void strophe_debug(const xmpp_ctx_t *c, const char *a, const char *f, ...) { (void)c; (void)a; (void)f; }
void strophe_error(const xmpp_ctx_t *c, const char *a, const char *f, ...) { (void)c; (void)a; (void)f; }
static xmpp_ctx_t CX;
static xmpp_conn_t CN;
uint16_t ntohs(uint16_t x) { return (uint16_t)(x << 8 | x >> 8); }
static int g_errno;
int *__errno_location(void) { return &g_errno; }
#ifdef T_CONNECT
/* ---- ghost: position among the candidates ---- */
static int gT, gt, gn, ga;             /* targets, current target, its addresses, addresses tried */
static resolver_srv_rr_t RR[2];        /* target k is RR[k % 2] */
static struct addrinfo AI[2];          /* address k of the current target is AI[k % 2] */
static struct sockaddr_storage SA[2];
static int g_t0, g_a0;
static int n_open, cur_fd, n_try, last_ok, want_connect;
static int set_nb; static int asked_cb;
static void sock_getaddrinfo(xmpp_sock_t *xsock);
static const char *_sockaddr2str(struct sockaddr *sa, char *buf, size_t buflen);
#define CUR_RR (gt + 1 < gT ? &RR[(gt + 1) & 1] : (resolver_srv_rr_t *)0)
#define CUR_AI (ga < gn ? &AI[ga & 1] : (struct addrinfo *)0)
#define INVS __CPROVER_loop_invariant(gT >= 1 && gt >= 0 && gt < gT && gT < (1 << 30) && gn >= 0 && gn < (1 << 30) && ga >= 0 && ga <= gn && xsock->srv_rr_cur == CUR_RR && xsock->ainfo_cur == CUR_AI && xsock->conn == &CN && xsock->ctx == &CX) \
    __CPROVER_loop_invariant((ga >= gn || AI[ga & 1].ai_next == (ga + 1 < gn ? &AI[(ga + 1) & 1] : (struct addrinfo *)0))) \
    __CPROVER_loop_invariant((ga >= gn || AI[ga & 1].ai_addr == (struct sockaddr *)&SA[ga & 1])) \
    __CPROVER_loop_invariant((gt + 1 >= gT || RR[(gt + 1) & 1].next == (gt + 2 < gT ? &RR[(gt + 2) & 1] : (resolver_srv_rr_t *)0)))
#define FRAME gt, gn, ga, RR, AI, SA, n_open, cur_fd, n_try, last_ok, want_connect, set_nb, g_errno, *xsock
#define LC_sock_connect_1 __CPROVER_assigns(vf_do, ainfo, sock, rc, buf, FRAME) INVS \
    __CPROVER_loop_invariant(vf_do || sock == -1 ? n_open == 0 && !last_ok : n_open == 1 && last_ok && sock == cur_fd)        \
    __CPROVER_loop_invariant(vf_do == 0 || vf_do == 1) __CPROVER_loop_invariant(gt > g_t0 || (gt == g_t0 && ga >= g_a0 + (vf_do ? 0 : 1)))
#define LC_sock_connect_2 __CPROVER_assigns(gt, gn, ga, RR, AI, *xsock) INVS __CPROVER_loop_invariant(gt > g_t0 || (gt == g_t0 && ga >= g_a0))
/* assignments of the values they have tell CBMC what the pointers point to */
#define RESET_PTRS                                                                                                            \
    VF_ASSERT(xsock->srv_rr_cur == CUR_RR && xsock->ainfo_cur == CUR_AI && xsock->conn == &CN && xsock->ctx == &CX, "C14: cursor");       \
    xsock->srv_rr_cur = CUR_RR; xsock->ainfo_cur = CUR_AI; xsock->conn = &CN; xsock->ctx = &CX;                                             \
    if (ga < gn) { VF_ASSERT(AI[ga & 1].ai_next == (ga + 1 < gn ? &AI[(ga + 1) & 1] : (struct addrinfo *)0), "C14: address list"); \
        AI[ga & 1].ai_next = ga + 1 < gn ? &AI[(ga + 1) & 1] : (struct addrinfo *)0; AI[ga & 1].ai_addr = (struct sockaddr *)&SA[ga & 1]; } \
    if (gt + 1 < gT) { VF_ASSERT(RR[(gt + 1) & 1].next == (gt + 2 < gT ? &RR[(gt + 2) & 1] : (resolver_srv_rr_t *)0), "C14: target list"); \
        RR[(gt + 1) & 1].next = gt + 2 < gT ? &RR[(gt + 2) & 1] : (resolver_srv_rr_t *)0; }
#define LB_sock_connect_1 RESET_PTRS
#define LB_sock_connect_2 RESET_PTRS
#define LA_sock_connect_2 RESET_PTRS
/* (glibc declares connect with a transparent union) */
int vf_connect(int fd, const struct sockaddr *sa, socklen_t l);
#define connect vf_connect
int vf_fcntl(int fd, int cmd, long v);
#define fcntl(fd, cmd, arg) vf_fcntl(fd, cmd, (long)(arg))
#include "sock.c"
#undef connect
#undef fcntl
static struct _xmpp_sock_t XS;
static const char *_sockaddr2str(struct sockaddr *sa, char *buf, size_t buflen) { (void)sa; (void)buflen; buf[0] = 0; return buf; }
static void new_addrs(void)
{
    ga = 0; gn = nd_int();
    VF_ASSUME(gn >= 0 && gn < (1 << 30));
    AI[0].ai_next = gn > 1 ? &AI[1] : NULL; AI[1].ai_next = gn > 2 ? &AI[0] : NULL;
    AI[0].ai_addr = (struct sockaddr *)&SA[0]; AI[1].ai_addr = (struct sockaddr *)&SA[1];
}
/* contract of sock_getaddrinfo (proved in the run getaddrinfo): the current target is resolved anew */
static void sock_getaddrinfo(xmpp_sock_t *xsock)
{
    VF_ASSERT(gt + 1 < gT && xsock->srv_rr_cur == &RR[(gt + 1) & 1], "C14: resolves something else than the next target");
    VF_ASSERT(ga == gn, "C14: goes on to the next target before all addresses were tried");
    gt++;
    new_addrs();
    RR[(gt + 1) & 1].next = gt + 2 < gT ? &RR[(gt + 2) & 1] : NULL;
    xsock->ainfo_list = xsock->ainfo_cur = gn > 0 ? &AI[0] : NULL;
}
static xmpp_sock_t *const pxs = &XS;
int socket(int d, int t, int p)
{
    struct addrinfo *a = &AI[ga & 1];
    VF_ASSERT(n_open == 0, "C14: a second socket while one is open");
    VF_ASSERT(!last_ok, "C14: another candidate is tried although one accepted");
    VF_ASSERT(ga < gn, "C14: tries something that is not a candidate");
    VF_ASSERT(XS.ainfo_cur == a, "C14: the addresses are not tried in order");
    VF_ASSERT(d == a->ai_family && t == a->ai_socktype && p == a->ai_protocol, "C14: another kind of socket than the resolver said");
    /* the node behind the current one */
    AI[(ga + 1) & 1].ai_next = ga + 2 < gn ? &AI[ga & 1] : NULL;
    AI[(ga + 1) & 1].ai_addr = (struct sockaddr *)&SA[(ga + 1) & 1];
    AI[(ga + 1) & 1].ai_family = nd_int(); AI[(ga + 1) & 1].ai_addrlen = nd_u32();
    ga++; n_try++;
    set_nb = 0;
    if (nd_bool()) { g_errno = nd_int(); return -1; }
    cur_fd = nd_int();
    VF_ASSUME(cur_fd >= 0);
    n_open = 1;
    return cur_fd;
}
int vf_fcntl(int fd, int cmd, long v)
{
    int r = nd_int();
    VF_ASSERT(n_open && fd == cur_fd, "C14: not the socket");
    if (r < 0) { g_errno = nd_int(); VF_ASSUME(g_errno != EINPROGRESS); return -1; }
    if (cmd == F_SETFL) { if (v & O_NONBLOCK) set_nb = 1; return 0; }
    return r;
}
int vf_connect(int fd, const struct sockaddr *sa, socklen_t l)
{
    struct addrinfo *a = &AI[(ga - 1) & 1];
    VF_ASSERT(n_open && fd == cur_fd, "C14: not the socket");
    VF_ASSERT(set_nb, "C14: a blocking connect");
    VF_ASSERT(sa == a->ai_addr && l == a->ai_addrlen, "C14: connects to another address than the candidate");
    if (nd_bool()) { last_ok = 1; return 0; }
    g_errno = nd_int();
    last_ok = g_errno == EINPROGRESS;
    return -1;
}
int close(int fd)
{
    VF_ASSERT(n_open && fd == cur_fd, "C14: closes something else");
    VF_ASSERT(!last_ok, "C14: a candidate that accepted is dropped");
    n_open = 0;
    return 0;
}
static int opt_cb(xmpp_conn_t *c, void *s)
{
    int r = nd_int();
    VF_ASSERT(n_open && *(int *)s == cur_fd && c == &CN, "C14: the user gets another socket");
    *(int *)s = nd_int();
    g_errno = nd_int();
    VF_ASSUME(g_errno != EINPROGRESS);
    return r;
}
void harness(void)
{
    int s;
    gT = nd_int(); gt = nd_int();
    VF_ASSUME(gT >= 1 && gT < (1 << 30) && gt >= 0 && gt < gT);
    new_addrs();
    ga = nd_int();
    VF_ASSUME(ga >= 0 && ga <= gn);
    AI[ga & 1].ai_next = ga + 1 < gn ? &AI[(ga + 1) & 1] : NULL;
    AI[(ga + 1) & 1].ai_next = ga + 2 < gn ? &AI[ga & 1] : NULL;
    AI[0].ai_family = nd_int(); AI[1].ai_family = nd_int(); AI[0].ai_addrlen = nd_u32(); AI[1].ai_addrlen = nd_u32();
    RR[(gt + 1) & 1].next = gt + 2 < gT ? &RR[(gt + 2) & 1] : NULL;
    RR[gt & 1].next = gt + 1 < gT ? &RR[(gt + 1) & 1] : NULL;
    n_open = n_try = last_ok = want_connect = set_nb = 0; cur_fd = -1;
    XS.ctx = &CX; XS.conn = &CN; XS.host = NULL; XS.port = 0; XS.srv_rr_list = NULL;
    XS.ainfo_list = gn > 0 ? &AI[0] : NULL;
    XS.ainfo_cur = CUR_AI; XS.srv_rr_cur = CUR_RR;
    CN.sockopt_cb = nd_bool() ? opt_cb : NULL;
    g_t0 = gt; g_a0 = ga;
    s = sock_connect(&XS);
    if (s == -1) {
        VF_ASSERT(!last_ok && n_open == 0, "C14: an accepted candidate is not reported");
        VF_ASSERT(gt == gT - 1 && ga == gn, "C14: failure is reported although not all candidates were tried");
        VF_REACH("all failed");
    } else {
        VF_ASSERT(last_ok && n_open == 1 && s == cur_fd, "C14: success is reported for a candidate that did not accept");
        VF_ASSERT(gt > g_t0 || (gt == g_t0 && ga > g_a0), "C14: no new candidate was tried");
        VF_REACH_IF(gt > g_t0 + 5 && ga > 7, "a later target");
    }
    VF_ASSERT(XS.ainfo_cur == CUR_AI && XS.srv_rr_cur == CUR_RR, "C14: the cursor is not behind the candidates that were tried");
}
#endif
#ifdef T_GAI
/* resolving a target: the old addresses are released, the target's own host and port are asked for */
static struct addrinfo OLD, NEW;
static resolver_srv_rr_t RRt;
static char svc_mark; static int n_ask, n_freed, ok, svc_ok;
void freeaddrinfo(struct addrinfo *a) { VF_ASSERT(a == &OLD, "C14,C12: releases another list"); n_freed++; }
const char *gai_strerror(int e) { (void)e; return "e"; }
#undef strophe_snprintf
int vf_service(char *buf, size_t n, const char *fmt, unsigned port, ...)
{
    VF_ASSERT(n >= 6 && fmt[0] == '%' && (fmt[1] == 'u' || fmt[1] == 'd') && fmt[2] == 0, "C14: the port is not written as a number");
    svc_ok = port == RRt.port; buf[0] = 'S'; buf[1] = 0; (void)svc_mark;
    return 1;
}
int getaddrinfo(const char *h, const char *s, const struct addrinfo *hi, struct addrinfo **res)
{
    n_ask++;
    VF_ASSERT(h == RRt.target, "C14: asks for another host than the target");
    VF_ASSERT(s && s[0] == 'S' && svc_ok, "C14: asks for another port than the target's");
    VF_ASSERT(hi && hi->ai_family == AF_UNSPEC && hi->ai_socktype == SOCK_STREAM && hi->ai_protocol == IPPROTO_TCP, "C14: asks for other addresses than all TCP ones");
    ok = nd_bool();
    if (!ok) { *res = nd_bool() ? &OLD : NULL; return EAI_NONAME; }
    *res = &NEW;
    return 0;
}
#define strophe_snprintf(buf, n, ...) vf_service(buf, n, __VA_ARGS__, 0)
#include "sock.c"
void harness(void)
{
    struct _xmpp_sock_t x;
    int had = nd_bool(), cur = nd_bool();
    n_ask = n_freed = ok = svc_ok = 0;
    RRt.port = nd_u16(); RRt.target[0] = nd_char(); RRt.target[1] = 0;
    x.ctx = &CX; x.conn = &CN; x.ainfo_list = had ? &OLD : NULL; x.ainfo_cur = had && nd_bool() ? &OLD : NULL;
    x.srv_rr_list = &RRt; x.srv_rr_cur = cur ? &RRt : NULL; x.host = NULL; x.port = 0;
    sock_getaddrinfo(&x);
    VF_ASSERT(n_freed == had, "C14,C12: the old addresses are not released exactly once");
    VF_ASSERT(n_ask == cur, "C14: a target is resolved exactly once");
    VF_ASSERT(x.ainfo_list == (ok ? &NEW : NULL) && x.ainfo_cur == x.ainfo_list, "C14: the addresses found are not the next ones to try");
    VF_ASSERT(x.srv_rr_cur == (cur ? &RRt : NULL), "C14: the target is skipped");
    VF_REACH_IF(ok && had, "resolved");
    VF_REACH_IF(cur && !ok, "not resolved");
}
#endif
#ifdef T_NEW
static resolver_srv_rr_t R1, R2;
static struct _xmpp_sock_t *got; static int n_srv, n_rr, n_gai, mem, srv_found;
static char HOST[3], DOMA[3], BUFx[512]; static int want_host; static unsigned short want_port;
static void sock_getaddrinfo(xmpp_sock_t *xsock);
void *strophe_alloc(const xmpp_ctx_t *c, const size_t n) { (void)c; VF_ASSERT(n <= sizeof(BUFx), "C14: size"); mem = nd_bool(); return mem ? malloc(n) : NULL; }
int resolver_srv_lookup(xmpp_ctx_t *c, const char *service, const char *proto, const char *domain, resolver_srv_rr_t **l)
{
    (void)c;
    n_srv++;
    VF_ASSERT(service[0] == 'x' && service[4] == '-' && service[5] == 'c' && service[11] == 0 && proto[0] == 't' && proto[3] == 0 && domain == DOMA, "C14: not the SRV records of the domain are looked up");
    srv_found = nd_bool();
    *l = srv_found ? &R1 : NULL;
    return srv_found ? XMPP_DOMAIN_FOUND : XMPP_DOMAIN_NOT_FOUND;
}
resolver_srv_rr_t *resolver_srv_rr_new(xmpp_ctx_t *c, const char *host, unsigned short port, unsigned short p, unsigned short w)
{
    (void)c; (void)p; (void)w;
    n_rr++;
    VF_ASSERT(host == (want_host ? HOST : DOMA) && port == want_port, "C14: not the given host (or the domain) and port are used");
    R2.next = NULL;
    return nd_bool() ? &R2 : NULL;
}
#include "sock.c"
static resolver_srv_rr_t *at_gai;
static void sock_getaddrinfo(xmpp_sock_t *xsock) { n_gai++; VF_ASSERT(xsock->ainfo_list == NULL && xsock->srv_rr_cur == xsock->srv_rr_list, "C14: does not begin with the first target"); at_gai = xsock->srv_rr_cur; xsock->ainfo_cur = NULL; }
void harness(void)
{
    xmpp_sock_t *x;
    n_srv = n_rr = n_gai = srv_found = 0; at_gai = NULL;
    want_host = nd_bool(); want_port = nd_u16();
    R1.next = nd_bool() ? &R2 : NULL; R2.next = NULL;
    CN.ctx = &CX;
    x = sock_new(&CN, DOMA, want_host ? HOST : NULL, want_port);
    if (!x) { VF_ASSERT(!mem, "C14: nothing to try"); return; }
    VF_ASSERT(n_srv == !want_host, "C14: SRV records are looked up exactly when no host is given");
    VF_ASSERT(n_rr == (want_host || !srv_found), "C14: host or domain are used as the only target exactly when there are no SRV records");
    VF_ASSERT(!srv_found || x->srv_rr_list == &R1, "C14: the SRV targets are not used");
    VF_ASSERT(n_gai == 1 && x->srv_rr_cur == (at_gai ? at_gai->next : NULL), "C14: the cursor is not at the first target");
    VF_REACH_IF(srv_found, "SRV");
    VF_REACH_IF(want_host, "host given");
}
#endif
#ifdef T_NEXT
static int n_closed, n_conn_, next_fd, old_fd; static uint64_t now_;
int sock_close(sock_t s) { VF_ASSERT(s == old_fd && n_conn_ == 0, "C14,C12: not the failed socket is closed"); n_closed++; return 0; }
sock_t sock_connect(xmpp_sock_t *x) { VF_ASSERT(x == CN.xsock && n_closed == 1, "C14: the failed socket is still open"); n_conn_++; next_fd = nd_int(); VF_ASSUME(next_fd >= -1); return next_fd; }
uint64_t time_stamp(void) { return now_; }
#include "event.c"
void harness(void)
{
    uint64_t ts;
    int r;
    n_closed = n_conn_ = 0;
    CN.ctx = &CX; CN.sock = old_fd = nd_int(); CN.xsock = (xmpp_sock_t *)&CX; CN.timeout_stamp = ts = nd_u64(); now_ = nd_u64();
    r = _connect_next(&CN);
    VF_ASSERT(n_closed == 1 && n_conn_ == 1, "C14: the next candidate is tried exactly once");
    VF_ASSERT((r == 0) == (next_fd != -1) && CN.sock == next_fd, "C14: giving up is reported exactly when no candidate is left");
    VF_ASSERT(r != 0 || CN.timeout_stamp == now_, "C13,C14: the 5 s of the next candidate do not begin with its attempt");
    VF_REACH_IF(r == 0, "next"); VF_REACH_IF(r != 0, "none left");
}
#endif
