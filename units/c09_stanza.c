/*@unit
{"props": ["C09", "C12", "C10"],
 "functions": ["xmpp_stanza_to_text", "_render_stanza_recursive", "_escape_xml", "xmpp_stanza_new_from_string", "xmpp_stanza_copy", "_stanza_copy_attributes", "xmpp_stanza_clone", "xmpp_stanza_release", "xmpp_stanza_add_child", "xmpp_stanza_set_attribute", "xmpp_stanza_set_text", "xmpp_stanza_get_text", "xmpp_stanza_reply", "xmpp_stanza_reply_error", "xmpp_error_new", "xmpp_message_set_body", "xmpp_message_get_body"],
 "assumptions": ["expat is the independent XML parser and is trusted", "texts and attribute values hold characters XML 1.0 can represent", "attribute names carry no prefix (the parser discards the prefix of attributes by design)"],
 "lib": true, "libs": ["-lexpat", "-lz", "-lssl", "-lcrypto"], "without": ["rand.c"],
 "runs": [
  {"name": "esc", "mode": "bounded", "engine": "enum", "defs": ["T_TREE", "NODES=2", "NTXT=18", "NATTR=2"], "bound": "one child, 18 texts and values in every position"},
  {"name": "tree", "mode": "bounded", "engine": "enum", "defs": ["T_TREE", "NODES=4", "NTXT=2", "NATTR=0", "NSALL", "NNAME=2"], "bound": "trees of at most 4 nodes, 3 namespaces"},
  {"name": "long", "mode": "bounded", "engine": "enum", "defs": ["T_LONG"], "bound": "renderings of 1 to 2100 bytes"},
  {"name": "deep", "mode": "bounded", "engine": "enum", "props": ["C09", "C12", "C01"], "defs": ["T_DEEP", "VF_NOTRACK"], "workers": 1, "bound": "200000 nested elements"},
  {"name": "copy", "mode": "bounded", "engine": "enum", "defs": ["T_COPY", "NODES=3", "NTXT=2", "NATTR=1", "NSALL", "NNAME=1"], "bound": "trees of at most 3 nodes; one change to either tree"},
  {"name": "reply", "mode": "bounded", "engine": "enum", "defs": ["T_REPLY"], "bound": "every presence of to, from, id, type, xmlns, text; all stream error conditions"},
  {"name": "refs", "mode": "bounded", "engine": "enum", "props": ["C12"], "defs": ["T_REFS"], "bound": "3 stanzas, 5 operations (add, clone, release, render, replace)"},
  {"name": "mix", "mode": "bounded", "engine": "sample", "samples": 150000, "defs": ["T_TREE", "NODES=9", "NTXT=18", "NATTR=4", "NSALL"], "bound": "sampled trees of at most 9 nodes"}
 ]}
*/
#include "vf.h"
#include "strophe.h"
#include "common.h"
#include "parser.h"
#include <expat.h>
#include "nctx.h"
xmpp_rand_t *xmpp_rand_new(xmpp_ctx_t *c) { return strophe_alloc(c, 8); }
void xmpp_rand_free(xmpp_ctx_t *c, xmpp_rand_t *r) { strophe_free(c, r); }
#ifndef NODES
#define NODES 3
#define NTXT 2
#define NATTR 1
#endif
#ifndef NNAME
#define NNAME 3
#endif
static const char *const TXT[] = {"x", "<", "", ">", "&", "\"", "'", "]]>", "&amp;", "&#60;", "\n", "\t", "\r", "\r\n", "a\nb", "\xc3\xa9", "\"/><evil a=\"", "<!--"};
static const char *const NAME[] = {"a", "message", "b"};
static const char *const NS[] = {NULL, "jabber:client", "urn:x", "urn:y\"<&'"};
static const char *const ANAME[] = {"id", "to", "type", "k"};

/* abstract tree */
struct node { int text, name, ns, val[4], txt, parent, nch; };
static struct node T[16];
static xmpp_stanza_t *S[16];
static int nn;
static xmpp_ctx_t *ctx;

static int tv(void) { return nd_range(0, NTXT - 1); }
static void mk(int parent)
{
    struct node *t = &T[nn];
    int i;
    xmpp_stanza_t *s = xmpp_stanza_new(ctx);
    t->parent = parent;
    t->text = parent >= 0 && nd_bool();
    S[nn] = s;
    if (t->text) {
        t->txt = tv();
        if (T[parent].nch & 1) VF_ASSERT(xmpp_stanza_set_text(s, TXT[t->txt]) == 0, "C09: set_text");
        else { char *p = malloc(strlen(TXT[t->txt]) + 1 ); memcpy(p, TXT[t->txt], strlen(TXT[t->txt])); xmpp_stanza_set_text_with_size(s, p, strlen(TXT[t->txt])); free(p); }
    } else {
        t->name = nd_range(0, NNAME - 1);
        xmpp_stanza_set_name(s, "zz");
        xmpp_stanza_set_name(s, NAME[t->name]);
#ifdef NSALL
        t->ns = nd_range(0, 3);
        if (t->ns) xmpp_stanza_set_ns(s, NS[t->ns]);
#endif
        for (i = 0; i < NATTR; i++) {
            t->val[i] = -1;
            if (nd_bool()) {
                t->val[i] = tv();
                if (i == 0) xmpp_stanza_set_attribute(s, ANAME[i], "old");
                xmpp_stanza_set_attribute(s, ANAME[i], TXT[t->val[i]]);
            }
        }
        for (; i < 4; i++) t->val[i] = -1;
    }
    if (parent >= 0) {
        xmpp_stanza_add_child(S[parent], s);
        xmpp_stanza_release(s);
        T[parent].nch++;
    }
    nn++;
}
static void build(void)
{
    int i, n = nd_range(1, NODES);
    mk(-1);
    for (i = 1; i < n; i++) {
        int p = nd_range(0, i - 1);
        VF_ASSUME(!T[p].text);
        mk(p);
    }
}
static int ans(int i) /* effective namespace; the stream's default is jabber:client */
{
    while (i >= 0 && !T[i].ns) i = T[i].parent;
    return i < 0 ? 1 : T[i].ns;
}
/* the abstract tree in canonical form: (name{ns}[id=..]children) with
 * adjacent texts joined and empty ones gone */
static void put(char **o, const char *s) { size_t n = strlen(s); memcpy(*o, s, n); *o += n; **o = 0; }
static void canon_t(int i, char **o)
{
    int k;
    if (T[i].text) { put(o, TXT[T[i].txt]); return; }
    put(o, "\x01"); put(o, NAME[T[i].name]); put(o, "\x02"); put(o, NS[ans(i)]);
    for (k = 0; k < 4; k++)
        if (T[i].val[k] >= 0) { put(o, "\x03"); put(o, ANAME[k]); put(o, "\x04"); put(o, TXT[T[i].val[k]]); }
    put(o, "\x05");
    for (k = i + 1; k < nn; k++)
        if (T[k].parent == i) canon_t(k, o);
    put(o, "\x06");
}
/* what the independent parser reports */
static char XB[65536], *xo;
static void XMLCALL x_start(void *u, const char *n, const char **a)
{
    const char *sep = strchr(n, '\x1F');
    int k, i;
    (void)u;
    if (sep && !strcmp(sep + 1, "stream_root")) return;
    put(&xo, "\x01"); put(&xo, sep ? sep + 1 : n); put(&xo, "\x02");
    if (sep) { memcpy(xo, n, (size_t)(sep - n)); xo += sep - n; *xo = 0; }
    for (k = 0; k < 4; k++)
        for (i = 0; a[i]; i += 2)
            if (!strcmp(a[i], ANAME[k])) { put(&xo, "\x03"); put(&xo, a[i]); put(&xo, "\x04"); put(&xo, a[i + 1]); }
    for (i = 0; a[i]; i += 2) {
        for (k = 0; k < 4; k++) if (!strcmp(a[i], ANAME[k])) break;
        if (k == 4) put(&xo, "UNKNOWN");
    }
    put(&xo, "\x05");
}
static void XMLCALL x_end(void *u, const char *n) { (void)u; if (!strstr(n, "stream_root")) put(&xo, "\x06"); }
static void XMLCALL x_chr(void *u, const char *s, int n) { (void)u; memcpy(xo, s, (size_t)n); xo += n; *xo = 0; }
static int indep(const char *s, size_t n)
{
    XML_Parser p = XML_ParserCreateNS(NULL, '\x1F');
    static const char h[] = "<stream_root xmlns='jabber:client'>", t[] = "</stream_root>";
    int ok;
    xo = XB; *xo = 0;
    XML_SetElementHandler(p, x_start, x_end);
    XML_SetCharacterDataHandler(p, x_chr);
    ok = XML_Parse(p, h, sizeof(h) - 1, 0) && XML_Parse(p, s, (int)n, 0) && XML_Parse(p, t, sizeof(t) - 1, 1);
    XML_ParserFree(p);
    return ok;
}
/* the library's own view of a stanza */
static void canon_s(xmpp_stanza_t *s, const char *dns, char **o)
{
    const char *ns;
    int k;
    xmpp_stanza_t *c;
    if (xmpp_stanza_is_text(s)) { put(o, xmpp_stanza_get_text_ptr(s)); return; }
    VF_ASSERT(xmpp_stanza_is_tag(s), "C09: a node is a text or an element");
    ns = xmpp_stanza_get_ns(s) ? xmpp_stanza_get_ns(s) : dns;
    put(o, "\x01"); put(o, xmpp_stanza_get_name(s)); put(o, "\x02"); put(o, ns);
    for (k = 0; k < 4; k++) {
        const char *v = xmpp_stanza_get_attribute(s, ANAME[k]);
        if (v) { put(o, "\x03"); put(o, ANAME[k]); put(o, "\x04"); put(o, v); }
    }
    put(o, "\x05");
    for (c = xmpp_stanza_get_children(s); c; c = xmpp_stanza_get_next(c)) canon_s(c, ns, o);
    put(o, "\x06");
}
static char A[65536], B[65536];
static char *render(xmpp_stanza_t *s)
{
    char *buf = NULL;
    size_t len = 0;
    VF_ASSERT(xmpp_stanza_to_text(s, &buf, &len) == XMPP_EOK, "C09: a valid tree is rendered");
    VF_ASSERT(buf && strlen(buf) == len, "C09: the reported length is that of the returned string");
    return buf;
}
static void same(xmpp_stanza_t *s)
{
    char *buf = render(s), *o;
    xmpp_stanza_t *r;
    o = A; *o = 0; canon_t(0, &o);
    VF_ASSERT(indep(buf, strlen(buf)), "C09: the rendering is well-formed");
    VF_ASSERT(!strcmp(A, XB), "C09: an independent parser reads the same tree back");
    r = xmpp_stanza_new_from_string(ctx, buf);
    VF_ASSERT(r != NULL, "C09: new_from_string reads a rendering");
    o = B; *o = 0; canon_s(r, "jabber:client", &o);
    VF_ASSERT(!strcmp(A, B), "C09,C10: new_from_string reads the same tree back");
    VF_ASSERT(!xmpp_stanza_get_next(r), "C09: one stanza");
    xmpp_stanza_release(r);
    xmpp_free(ctx, buf);
}
static void done(void)
{
    xmpp_ctx_free(ctx);
    VF_ASSERT(vf_live == 0, "C12: every block is returned exactly once");
}

void harness(void)
{
    int i;
    ctx = vf_ctx();
#ifdef T_TREE
    build();
    same(S[0]);
    VF_REACH_IF(nn == NODES && T[1].parent == 0 && T[1].text, "text child");
    xmpp_stanza_release(S[0]);
    done();
#endif
#ifdef T_LONG
    {
        int n = nd_range(0, 11), kind = nd_range(0, 3), m;
        static const int len[] = {1, 500, 1000, 1006, 1007, 1008, 1009, 1010, 1011, 1012, 1500, 2100};
        static char big[2200];
        xmpp_stanza_t *s = xmpp_stanza_new(ctx), *t = xmpp_stanza_new(ctx);
        char *b, want[2300];
        m = len[n] + nd_range(0, 12);
        memset(big, 'q', (size_t)m); big[m] = 0;
        if (kind == 3) big[m - 1] = '<';
        xmpp_stanza_set_name(s, kind == 2 ? big : "m");
        if (kind == 1) xmpp_stanza_set_attribute(s, "k", big);
        if (kind == 0 || kind == 3) { xmpp_stanza_set_text(t, big); xmpp_stanza_add_child(s, t); }
        b = render(s);
        if (kind == 0) snprintf(want, sizeof(want), "<m>%s</m>", big);
        else if (kind == 1) snprintf(want, sizeof(want), "<m k=\"%s\"/>", big);
        else if (kind == 2) snprintf(want, sizeof(want), "<%s/>", big);
        else { big[m - 1] = 0; snprintf(want, sizeof(want), "<m>%s&lt;</m>", big); }
        VF_ASSERT(!strcmp(b, want), "C09: long stanzas are rendered completely");
        VF_REACH_IF(strlen(b) == 1023, "1023"); VF_REACH_IF(strlen(b) == 1024, "1024");
        xmpp_free(ctx, b);
        xmpp_stanza_release(s); xmpp_stanza_release(t);
        done();
    }
#endif
#ifdef T_DEEP
    {
        enum { D = 200000 };
        char *big = malloc(7 * D + 1), *o = big, *b;
        xmpp_stanza_t *s;
        for (i = 0; i < D; i++) { memcpy(o, "<a>", 3); o += 3; }
        for (i = 0; i < D; i++) { memcpy(o, "</a>", 4); o += 4; }
        *o = 0;
        s = xmpp_stanza_new_from_string(ctx, big);
        VF_ASSERT(s != NULL, "C10: deep nesting is parsed");
        free(big);
        if (nd_bool()) { b = render(s); VF_ASSERT(strlen(b) == 7 * D - 3, "C09: deep nesting is rendered"); xmpp_free(ctx, b); }
        xmpp_stanza_release(s);
        VF_REACH("deep");
        done();
    }
#endif
#ifdef T_COPY
    {
        xmpp_stanza_t *c, *v;
        char *o;
        int side = nd_bool(), what = nd_range(0, 4);
        build();
        c = xmpp_stanza_copy(S[0]);
        VF_ASSERT(c != NULL && c != S[0], "C09: a copy is made");
        o = A; *o = 0; canon_s(S[0], "jabber:client", &o);
        o = B; *o = 0; canon_s(c, "jabber:client", &o);
        VF_ASSERT(!strcmp(A, B), "C09: a copy equals the original");
        VF_ASSERT(!xmpp_stanza_get_next(c), "C09: a copy stands alone");
        v = side ? c : S[0];
        if (what == 1) xmpp_stanza_set_attribute(v, "id", "changed");
        if (what == 2) xmpp_stanza_set_name(v, "changed");
        if (what == 3 && xmpp_stanza_get_children(v)) {
            xmpp_stanza_t *k = xmpp_stanza_get_children(v);
            if (xmpp_stanza_is_text(k)) xmpp_stanza_set_text(k, "changed"); else xmpp_stanza_set_name(k, "changed");
        }
        if (what == 4) { xmpp_stanza_del_attribute(v, "id"); }
        xmpp_stanza_release(v);
        v = side ? S[0] : c;
        o = B; *o = 0; canon_s(v, "jabber:client", &o);
        VF_ASSERT(!strcmp(A, B), "C09,C12: original and copy are independent");
        same(v);
        VF_REACH_IF(what == 3 && nn == NODES, "child changed");
        xmpp_stanza_release(v);
        done();
    }
#endif
#ifdef T_REPLY
    {
        xmpp_stanza_t *s = xmpp_stanza_new(ctx), *r, *e, *q;
        int to = nd_bool(), from = nd_bool(), id = nd_bool(), type = nd_bool(), ns = nd_bool(), ch = nd_bool(), err = nd_range(0, 3);
        char *t;
        xmpp_stanza_set_name(s, "iq");
        if (to) xmpp_stanza_set_to(s, "me@x/y");
        if (from) xmpp_stanza_set_from(s, "you@z/w");
        if (id) xmpp_stanza_set_id(s, "i1");
        if (type) xmpp_stanza_set_type(s, "get");
        if (ns) xmpp_stanza_set_ns(s, "jabber:client");
        if (ch) { q = xmpp_stanza_new(ctx); xmpp_stanza_set_name(q, "q"); xmpp_stanza_add_child(s, q); xmpp_stanza_release(q); }
        if (err == 0) {
            r = xmpp_stanza_reply(s);
            VF_ASSERT(from ? r != NULL : r == NULL, "C09: only a stanza with a sender can be replied to");
            if (r) VF_ASSERT(type ? !strcmp(xmpp_stanza_get_type(r), "get") : !xmpp_stanza_get_type(r), "C09: a reply keeps the type");
            if (r) VF_ASSERT(!xmpp_stanza_get_from(r), "C09: a reply has no from");
            if (r) VF_ASSERT(!xmpp_stanza_get_children(r), "C09: a reply is empty");
        } else {
            r = xmpp_stanza_reply_error(s, err == 3 ? NULL : "cancel", "item-not-found", err == 2 ? "what <is> it?" : NULL);
            VF_ASSERT(from && err != 3 ? r != NULL : r == NULL, "C09: only a stanza with a sender can be replied to");
            if (r) {
                VF_ASSERT(!strcmp(xmpp_stanza_get_type(r), "error"), "C09: an error reply has type error");
                VF_ASSERT(to ? !strcmp(xmpp_stanza_get_from(r), "me@x/y") : !xmpp_stanza_get_from(r), "C09: an error reply comes from the addressee");
                e = xmpp_stanza_get_children(r);
                VF_ASSERT(e && !strcmp(xmpp_stanza_get_name(e), "error") && !xmpp_stanza_get_next(e), "C09: an error reply has one error element");
                VF_ASSERT(!strcmp(xmpp_stanza_get_type(e), "cancel"), "C09: the error element has the given type");
                q = xmpp_stanza_get_children(e);
                VF_ASSERT(q && !strcmp(xmpp_stanza_get_name(q), "item-not-found") && !strcmp(xmpp_stanza_get_ns(q), "urn:ietf:params:xml:ns:xmpp-stanzas"), "C09: the condition is a child in the stanzas namespace");
                q = xmpp_stanza_get_next(q);
                if (err == 2) {
                    VF_ASSERT(q && !strcmp(xmpp_stanza_get_name(q), "text") && !strcmp(xmpp_stanza_get_ns(q), "urn:ietf:params:xml:ns:xmpp-stanzas"), "C09: the text is a child in the stanzas namespace");
                    t = xmpp_stanza_get_text(q);
                    VF_ASSERT(t && !strcmp(t, "what <is> it?"), "C09: the text is carried");
                    xmpp_free(ctx, t);
                    q = xmpp_stanza_get_next(q);
                }
                VF_ASSERT(!q, "C09: nothing else is in the error");
            }
        }
        if (r) {
            VF_ASSERT(!strcmp(xmpp_stanza_get_to(r), "you@z/w"), "C09: a reply addresses the original sender");
            VF_ASSERT(id ? !strcmp(xmpp_stanza_get_id(r), "i1") : !xmpp_stanza_get_id(r), "C09: a reply keeps the id");
            VF_ASSERT(!strcmp(xmpp_stanza_get_name(r), "iq") , "C09: a reply keeps the name");
            xmpp_free(ctx, render(r));
            xmpp_stanza_release(r);
        }
        VF_ASSERT(from ? !strcmp(xmpp_stanza_get_from(s), "you@z/w") : 1, "C09: the original is untouched");
        xmpp_stanza_release(s);
        /* stream errors */
        static const char *const cond[] = {"bad-format", "bad-namespace-prefix", "conflict", "connection-timeout", "host-gone", "host-unknown", "improper-addressing", "internal-server-error", "invalid-from", "invalid-id", "invalid-namespace", "invalid-xml", "not-authorized", "policy-violation", "remote-connection-failed", "resource-constraint", "restricted-xml", "see-other-host", "system-shutdown", "undefined-condition", "unsupported-encoding", "unsupported-stanza-type", "unsupported-version", "xml-not-well-formed"};
        i = nd_range(0, 23);
        r = xmpp_error_new(ctx, (xmpp_error_type_t)i, ch ? "t&t" : NULL);
        VF_ASSERT(!strcmp(xmpp_stanza_get_name(r), "stream:error"), "C09: stream error element");
        q = xmpp_stanza_get_children(r);
        VF_ASSERT(!strcmp(xmpp_stanza_get_name(q), cond[i]) && !strcmp(xmpp_stanza_get_ns(q), "urn:ietf:params:xml:ns:xmpp-streams"), "C09: stream error condition names follow RFC 6120");
        q = xmpp_stanza_get_next(q);
        if (ch) { VF_ASSERT(q && !strcmp(xmpp_stanza_get_name(q), "text"), "C09: stream error text"); t = xmpp_stanza_get_text(q); VF_ASSERT(!strcmp(t, "t&t"), "C09: stream error text"); xmpp_free(ctx, t); }
        else VF_ASSERT(!q, "C09: no text");
        xmpp_stanza_release(r);
        /* bodies */
        r = xmpp_message_new(ctx, type ? "chat" : NULL, to ? "a@b" : NULL, id ? "i" : NULL);
        VF_ASSERT((type ? !strcmp(xmpp_stanza_get_type(r), "chat") : !xmpp_stanza_get_type(r)) && (to ? !strcmp(xmpp_stanza_get_to(r), "a@b") : !xmpp_stanza_get_to(r)) && (id ? !strcmp(xmpp_stanza_get_id(r), "i") : !xmpp_stanza_get_id(r)), "C09: message attributes");
        VF_ASSERT(!xmpp_message_get_body(r), "C09: no body yet");
        VF_ASSERT(xmpp_message_set_body(r, "<hi>") == 0 && xmpp_message_set_body(r, "x") != 0, "C09: one body");
        t = xmpp_message_get_body(r);
        VF_ASSERT(!strcmp(t, "<hi>"), "C09: the body is what was set");
        xmpp_free(ctx, t);
        xmpp_stanza_release(r);
        VF_REACH_IF(to && from && id && type && ns && ch && err == 2, "full");
        done();
    }
#endif
#ifdef T_REFS
    {
        int mine[3], k, par[3] = {-1, -1, -1};
        for (i = 0; i < 3; i++) { S[i] = xmpp_stanza_new(ctx); xmpp_stanza_set_name(S[i], NAME[i]); mine[i] = 1; }
        for (k = 0; k < 5; k++) {
            int op = nd_range(0, 4), a = nd_range(0, 2), b;
            if (!mine[a]) continue;
            if (op == 0) { /* add a child; the tree must stay a tree */
                b = nd_range(0, 2);
                if (a == b || !mine[b] || par[b] >= 0 || b < a) continue;
                xmpp_stanza_add_child(S[a], S[b]); par[b] = a;
            } else if (op == 1) { VF_ASSUME(mine[a] < 2); VF_ASSERT(xmpp_stanza_clone(S[a]) == S[a], "C12: a clone is the same object"); mine[a]++; }
            else if (op == 2) {
                int j, last = --mine[a] == 0 && par[a] < 0;
                VF_ASSERT(xmpp_stanza_release(S[a]) == last, "C12: release tells whether the object is gone");
                if (last) for (j = 0; j < 3; j++) if (par[j] == a) {
                    par[j] = -1;
                    if (!mine[j]) { int l; for (l = 0; l < 3; l++) if (par[l] == j) par[l] = -1; }
                }
            } else if (op == 3) xmpp_free(ctx, render(S[a]));
            else { xmpp_stanza_t *c; for (c = xmpp_stanza_get_children(S[a]); c; c = xmpp_stanza_get_next(c)) xmpp_stanza_set_attribute(c, "id", "x"); }
        }
        VF_REACH_IF(par[2] == 1 && par[1] == 0 && !mine[1], "held through the parent only");
        for (i = 0; i < 3; i++) while (mine[i]) { mine[i]--; xmpp_stanza_release(S[i]); }
        done();
    }
#endif
}
