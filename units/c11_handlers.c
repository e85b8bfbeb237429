/*@unit
{"props": ["C11", "C12", "C01"],
 "functions": ["handler_fire_stanza", "handler_fire_timed", "handler_reset_timed", "handler_add", "handler_add_id", "handler_add_timed", "handler_system_delete_all", "xmpp_handler_add", "xmpp_handler_delete", "xmpp_id_handler_add", "xmpp_id_handler_delete", "xmpp_timed_handler_add", "xmpp_timed_handler_delete", "xmpp_global_timed_handler_add", "xmpp_global_timed_handler_delete", "hash_new", "hash_add", "hash_get", "hash_drop", "hash_iter_next"],
 "assumptions": ["the stanza accessors return constant strings for the stanza being dispatched (their own contract is C09's)", "time_stamp() never goes backwards"],
 "rename": {"util.c": ["time_stamp", "strophe_strdup", "strophe_strndup"]},
 "runs": [
  {"name": "filter", "mode": "bounded", "engine": "enum", "bound": "one stanza handler, every combination of 3 values of namespace, name and type for filter and stanza, 3 namespaces of a child", "defs": ["T_DISPATCH", "NREG=1", "KIND1", "FILTERS", "ACTS=0", "NST=1"]},
  {"name": "norm", "mode": "bounded", "engine": "enum", "bound": "3 stanza handlers, 2 stanzas, at most 2 registrations or deletions (of any handler, the running one included) by handlers", "defs": ["T_DISPATCH", "NREG=3", "KIND1", "ACTS=2"]},
  {"name": "ids", "mode": "bounded", "engine": "enum", "bound": "3 id handlers of 2 ids, 2 stanzas, at most 1 registration or deletion by handlers", "defs": ["T_DISPATCH", "NREG=3", "KIND2", "ACTS=1"]},
  {"name": "ids2", "mode": "bounded", "engine": "enum", "tier": "thorough", "timeout": 600, "bound": "3 id handlers of 2 ids, 2 stanzas, at most 2 registrations or deletions by handlers", "defs": ["T_DISPATCH", "NREG=3", "KIND2", "ACTS=2"]},
  {"name": "both", "mode": "bounded", "engine": "enum", "bound": "3 handlers (id or stanza), 1 stanza, at most 1 registration or deletion of either kind by handlers", "defs": ["T_DISPATCH", "NREG=3", "KIND1", "KIND2", "NST=1", "ACTS=1"]},
  {"name": "timed", "mode": "bounded", "engine": "enum", "bound": "2 timed handlers of a connection, 2 event-loop passes, periods and clock steps of 0 to 2, at most 1 registration, deletion or disconnect by handlers", "defs": ["T_TIMED", "NREG=2", "ACTS=1"]},
  {"name": "ctxtimed", "mode": "bounded", "engine": "enum", "bound": "2 context-wide timed handlers, 2 passes, periods and clock steps of 0 to 2, at most 1 registration or deletion by handlers", "defs": ["T_TIMED", "T_GLOBAL", "NREG=2", "ACTS=1"]},
  {"name": "mix", "mode": "bounded", "engine": "sample", "samples": 1500000, "bound": "sampled: 4 handlers of both kinds with filters, 3 stanzas, 4 registrations or deletions by handlers", "defs": ["T_DISPATCH", "NREG=4", "KIND1", "KIND2", "FILTERS", "NST=3", "ACTS=4"]},
  {"name": "timedmix", "mode": "bounded", "engine": "sample", "samples": 1500000, "bound": "sampled: 4 timed handlers, 4 passes, 4 changes by handlers", "defs": ["T_TIMED", "NREG=4", "NPASS=4", "ACTS=4"]},
  {"name": "sysdel", "mode": "bounded", "engine": "enum", "bound": "3 handlers of any kind", "defs": ["T_SYSDEL", "NREG=3", "ACTS=0"]}
 ]}
*/
#include "vf.h"
#include "strophe.h"
#include "common.h"
#include "mem.h"
#include "util.c"
#include "hash.c"
#include "handler.c"

#ifndef NST
#define NST 2
#endif
#ifndef NPASS
#define NPASS 2
#endif
#define NG (NREG + ACTS)
static struct ghost {
    int kind, fn, ud, user, alive, fresh, done, ns, name, type, id;
    uint64_t period, stamp;
} G[NG];
static int ng, in_pass, acts = ACTS;
static int s_id, s_ns, s_name, s_type, s_cns; /* the stanza: 0 none, 1 "a", 2 "b" */
static const char *STR[3] = {NULL, "a", "b"};
static const char *str(int k) { return k == 0 ? NULL : k == 1 ? "a" : "b"; }
static xmpp_conn_t conn;
static xmpp_ctx_t ctx;
static int UD[2];
static uint64_t now;
static int up = 1;
uint64_t time_stamp(void) { return now; }

const char *xmpp_stanza_get_id(xmpp_stanza_t *s) { (void)s; return str(s_id); }
const char *xmpp_stanza_get_ns(xmpp_stanza_t *s) { (void)s; return str(s_ns); }
const char *xmpp_stanza_get_name(xmpp_stanza_t *s) { (void)s; return str(s_name); }
const char *xmpp_stanza_get_type(xmpp_stanza_t *s) { (void)s; return str(s_type); }
xmpp_stanza_t *xmpp_stanza_get_child_by_ns(xmpp_stanza_t *s, const char *ns)
{
    return ns && s_cns && ns[0] == str(s_cns)[0] ? s : NULL;
}
/* the next handler the property wants called */
static int expected(void)
{
    int i;
    for (i = 0; i < ng; i++)
        if (G[i].kind == 2 && G[i].alive && !G[i].fresh && !G[i].done && s_id && G[i].id == s_id &&
            (!G[i].user || conn.stream_negotiation_completed))
            return i;
    for (i = 0; i < ng; i++)
        if (G[i].kind == 1 && G[i].alive && !G[i].fresh && !G[i].done &&
            (!G[i].ns || G[i].ns == s_ns || G[i].ns == s_cns) && (!G[i].name || G[i].name == s_name) &&
            (!G[i].type || G[i].type == s_type) && (!G[i].user || conn.stream_negotiation_completed))
            return i;
    return -1;
}
static int h0(xmpp_conn_t *c, xmpp_stanza_t *s, void *ud);
static int h1(xmpp_conn_t *c, xmpp_stanza_t *s, void *ud);
static xmpp_handler H(int k) { return k ? h1 : h0; }
static int t0(xmpp_conn_t *c, void *ud);
static int t1(xmpp_conn_t *c, void *ud);
static int x0(xmpp_ctx_t *c, void *ud);
static int x1(xmpp_ctx_t *c, void *ud);

#if defined(FILTERS) || defined(T_SYSDEL)
#define USERSEL nd_bool()
#else
#define USERSEL (ud == 1)
#endif
static void reg(int kind)
{
    int fn = nd_range(0, 1), ud = nd_range(0, 1), user = USERSEL, i;
    struct ghost g = {0};
    g.kind = kind; g.fn = fn; g.ud = ud; g.user = user; g.alive = 1; g.fresh = in_pass;
    if (kind == 1) {
#ifdef FILTERS
        g.ns = nd_range(0, 2); g.name = nd_range(0, 2); g.type = nd_range(0, 2);
#endif
        if (user) xmpp_handler_add(&conn, H(fn), str(g.ns), str(g.name), str(g.type), &UD[ud]);
        else handler_add(&conn, H(fn), str(g.ns), str(g.name), str(g.type), &UD[ud]);
    } else if (kind == 2) {
        g.id = nd_range(1, 2);
        if (user) xmpp_id_handler_add(&conn, H(fn), str(g.id), &UD[ud]);
        else handler_add_id(&conn, H(fn), str(g.id), &UD[ud]);
    } else {
        g.period = (uint64_t)nd_range(0, 2); g.stamp = now;
#ifdef T_GLOBAL
        xmpp_global_timed_handler_add(&ctx, fn ? x1 : x0, g.period, &UD[ud]);
#else
        if (user) xmpp_timed_handler_add(&conn, fn ? t1 : t0, g.period, &UD[ud]);
        else handler_add_timed(&conn, fn ? t1 : t0, g.period, &UD[ud]);
#endif
    }
    for (i = 0; i < ng; i++)
        if (G[i].alive && G[i].kind == kind && G[i].fn == fn && G[i].ud == ud && G[i].id == g.id)
            return; /* kept once */
    VF_ASSUME(ng < NG);
    G[ng++] = g;
}
static void del(int kind)
{
    int fn = nd_range(0, 1), id = nd_range(1, 2), i;
    if (kind == 1) xmpp_handler_delete(&conn, H(fn));
    else if (kind == 2) xmpp_id_handler_delete(&conn, H(fn), str(id));
#ifdef T_GLOBAL
    else xmpp_global_timed_handler_delete(&ctx, fn ? x1 : x0);
#else
    else xmpp_timed_handler_delete(&conn, fn ? t1 : t0);
#endif
    for (i = 0; i < ng; i++)
        if (G[i].kind == kind && G[i].fn == fn && (kind != 2 || G[i].id == id)) G[i].alive = 0;
}
static int kind(void)
{
#if defined(KIND1) && defined(KIND2)
    return nd_range(1, 2);
#elif defined(KIND1)
    return 1;
#else
    return 2;
#endif
}
static int called(int k, void *ud)
{
    int e = expected(), act = acts ? nd_range(0, 2) : 0, ret = nd_bool();
    acts -= act != 0;
    VF_ASSERT(e >= 0, "C11: no handler beyond the matching, live ones is called");
    VF_ASSERT(G[e].fn == k && ud == &UD[G[e].ud], "C11: matching handlers are called in order, id handlers first, each once");
    G[e].done = 1;
    if (act == 1) del(kind());
    if (act == 2 && ng < NG) reg(kind());
    if (!ret) G[e].alive = 0;
    return ret;
}
static int h0(xmpp_conn_t *c, xmpp_stanza_t *s, void *ud) { (void)c; (void)s; return called(0, ud); }
static int h1(xmpp_conn_t *c, xmpp_stanza_t *s, void *ud) { (void)c; (void)s; return called(1, ud); }

static void pass_end(void)
{
    int i;
    for (i = 0; i < ng; i++) G[i].fresh = G[i].done = 0;
    in_pass = 0;
}
static void all_gone(void)
{
    int i;
    for (i = 0; i < 2; i++) {
        xmpp_handler_delete(&conn, H(i));
        xmpp_id_handler_delete(&conn, H(i), "a");
        xmpp_id_handler_delete(&conn, H(i), "b");
        xmpp_timed_handler_delete(&conn, i ? t1 : t0);
        xmpp_global_timed_handler_delete(&ctx, i ? x1 : x0);
    }
    if (conn.id_handlers) hash_release(conn.id_handlers);
    VF_ASSERT(vf_live == 0, "C12: every handler block is freed exactly once");
}

/* timed handlers */
static uint64_t start;
static int tcalled(int k, void *ud)
{
    int i, e = -1, act = acts ? nd_range(0, 4) : 0, ret = nd_bool();
    acts -= act != 0;
    for (i = 0; i < ng; i++)
        if (G[i].alive && G[i].fn == k && ud == &UD[G[i].ud]) e = i;
    VF_ASSERT(e >= 0, "C11: deleted timed handlers are never called");
    VF_ASSERT(!G[e].done && !G[e].fresh, "C11: a timed handler fires once per pass, one just added not at all");
    VF_ASSERT(now - G[e].stamp >= G[e].period, "C11: a timed handler never fires early");
#ifndef T_GLOBAL
    VF_ASSERT(conn.state == XMPP_STATE_CONNECTED, "C11: timed handlers of a connection fire only while connected");
    VF_ASSERT(!G[e].user || conn.stream_negotiation_completed, "C03,C11: no user timed handler before the negotiation completed");
#endif
    G[e].done = 1;
    G[e].stamp = now;
    if (act == 1) del(3);
    if (act == 2 && ng < NG) reg(3);
#ifndef T_GLOBAL
    if (act == 3) { conn.state = XMPP_STATE_DISCONNECTED; up = 0; }
#endif
    if (act == 4) {
        now += (uint64_t)nd_range(1, 2);
    }
    if (!ret) G[e].alive = 0;
    return ret;
}
static int t0(xmpp_conn_t *c, void *ud) { (void)c; return tcalled(0, ud); }
static int t1(xmpp_conn_t *c, void *ud) { (void)c; return tcalled(1, ud); }
static int x0(xmpp_ctx_t *c, void *ud) { (void)c; return tcalled(0, ud); }
static int x1(xmpp_ctx_t *c, void *ud) { (void)c; return tcalled(1, ud); }

void harness(void)
{
    int i, st;
    xmpp_connlist_t cl;
    cl.conn = &conn; cl.next = NULL;
    conn.ctx = &ctx;
    ctx.connlist = nd_bool() ? &cl : NULL;
    conn.state = XMPP_STATE_CONNECTED;
    conn.stream_negotiation_completed = nd_bool();
    now = 5;
    conn.id_handlers = hash_new(&ctx, 2, NULL);
#ifdef T_DISPATCH
    static char dummy[sizeof(struct _xmpp_stanza_t)];
    for (i = 0; i < NREG; i++)
        if (nd_bool()) reg(kind());
    for (st = 0; st < NST; st++) {
#ifdef FILTERS
        s_ns = nd_range(0, 2); s_name = nd_range(0, 2); s_type = nd_range(0, 2); s_cns = nd_range(0, 2);
#endif
#ifdef KIND2
        s_id = nd_range(0, 2);
#endif
        in_pass = 1;
        handler_fire_stanza(&conn, (xmpp_stanza_t *)dummy);
        VF_ASSERT(expected() < 0, "C11: every matching handler was called");
        VF_REACH_IF(NREG == 1 || (ng > 1 && G[1].done && G[0].done) && st == NST - 1, "two handlers called");
        VF_REACH_IF((!ACTS || ng > NREG) && st == NST - 1, "registered while dispatching");
        pass_end();
    }
    all_gone();
#endif
#ifdef T_TIMED
    for (i = 0; i < NREG; i++)
        if (nd_bool()) {
            now += 1;
            reg(3);
        }
    for (st = 0; st < NPASS; st++) {
        now += 1;
#ifndef T_GLOBAL
        int rs = nd_range(0, 2);
        if (rs) {
            int uo = rs == 2;
            handler_reset_timed(&conn, uo);
            for (i = 0; i < ng; i++)
                if (!uo || G[i].user) G[i].stamp = now;
        }
        if (!rs && nd_bool()) { conn.state = XMPP_STATE_CONNECTING; up = 0; }
#endif
        now += (uint64_t)nd_range(0, 2);
        start = now;
        in_pass = 1;
        handler_fire_timed(&ctx);
        for (i = 0; i < ng; i++)
            VF_ASSERT(!(G[i].alive && !G[i].fresh && !G[i].done && start - G[i].stamp >= G[i].period
#ifndef T_GLOBAL
                        && ctx.connlist && up && (!G[i].user || conn.stream_negotiation_completed)
#endif
                            ), "C11: a due timed handler fires in the next pass");
        VF_REACH_IF(st == NPASS - 1 && ng > 1 && G[0].done && G[1].done, "two timed handlers fired");
        pass_end();
        conn.state = XMPP_STATE_CONNECTED;
        up = 1;
    }
    all_gone();
#endif
#ifdef T_SYSDEL
    xmpp_handlist_t *it;
    for (i = 0; i < NREG; i++) reg(nd_range(1, 3));
    handler_system_delete_all(&conn);
    it = conn.handlers;
    for (i = 0; i < ng; i++)
        if (G[i].kind == 1 && G[i].user) {
            VF_ASSERT(it && it->handler == (xmpp_void_handler)H(G[i].fn) && it->user_handler, "C11,C12: user handlers survive a reset in order");
            it = it->next;
        }
    VF_ASSERT(!it, "C11: system handlers are deleted by a reset");
    for (st = 1; st <= 2; st++) {
        it = hash_get(conn.id_handlers, str(st));
        for (i = 0; i < ng; i++)
            if (G[i].kind == 2 && G[i].id == st && G[i].user) {
                VF_ASSERT(it && it->handler == (xmpp_void_handler)H(G[i].fn) && it->user_handler, "C11,C12: user id handlers survive a reset in order");
                it = it->next;
            }
        VF_ASSERT(!it, "C11: system id handlers are deleted by a reset");
    }
    for (it = conn.timed_handlers, st = 0; it; it = it->next, st++)
        VF_ASSERT(it->user_handler, "C11: system timed handlers are deleted by a reset");
    for (i = 0; i < ng; i++)
        if (G[i].kind == 3 && G[i].user) st--;
    VF_ASSERT(st == 0, "C11: user timed handlers survive a reset");
    VF_REACH_IF(ng == 3 && G[0].kind == 1 && G[1].kind == 2 && G[2].kind == 3 && !G[2].user, "three kinds");
    all_gone();
#endif
}
