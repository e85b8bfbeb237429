/*@unit
{"props": ["C10", "C12", "C01"],
 "functions": ["parser_new", "parser_feed", "parser_reset", "parser_free", "_start_element", "_end_element", "_characters", "complete_inner_text", "_set_attributes", "_xml_name", "_xml_namespace", "_free_parent_stanza"],
 "assumptions": ["expat is the independent namespace-aware XML parser and is trusted (the oracle is expat fed with the whole input at once, with its own handlers)", "attribute names carry no prefix (the parser discards the prefix of attributes by design)"],
 "lib": true, "libs": ["-lexpat", "-lz", "-lssl", "-lcrypto"], "without": ["rand.c"],
 "runs": [
  {"name": "split2", "mode": "bounded", "engine": "enum", "defs": ["T_SPLIT2", "NF=2"], "bound": "streams of 2 of 24 fragments, whole, byte by byte and split at every pair of positions"},
  {"name": "mix", "mode": "bounded", "engine": "sample", "samples": 120000, "defs": ["T_RANDOM", "NF=6"], "bound": "sampled streams of 6 fragments, 2 stream restarts, random chunks"},
  {"name": "bytes", "mode": "bounded", "engine": "sample", "samples": 120000, "defs": ["T_BYTES", "NF=3"], "bound": "sampled streams of 3 fragments with up to 2 bytes replaced, random chunks"}
 ]}
*/
#include "vf.h"
#include "strophe.h"
#include "common.h"
#include "parser.h"
#include <expat.h>
#include "nctx.h"
xmpp_rand_t *xmpp_rand_new(xmpp_ctx_t *c) { return strophe_alloc(c, 8); }
void xmpp_rand_free(xmpp_ctx_t *c, xmpp_rand_t *r) { strophe_free(c, r); }

static const char *const HEAD[] = {
    "<?xml version='1.0'?><stream:stream xmlns='jabber:client' xmlns:stream='http://etherx.jabber.org/streams' id='s1' from='d' version='1.0'>",
    "<stream:stream xmlns:stream='http://etherx.jabber.org/streams' xmlns='jabber:client' id='a&amp;b'>"};
static const char *const FRAG[] = {
    "<message to='a' from='b'><body>hello</body></message>",
    "<iq id='1'/>",
    "<a>x&amp;y&lt;z&#65;&#x42;</a>",
    "<a><![CDATA[<b>]]>&gt;<![CDATA[]]]]></a>",
    "<a>one<b/>two<c>three</c>four</a>",
    "<stream:features><starttls xmlns='urn:ietf:params:xml:ns:xmpp-tls'><required/></starttls></stream:features>",
    " \n",
    "<a k='1&quot;&#10;2' m=\"'\"/>",
    "<x:y xmlns:x='urn:x'><z/><x:z q='1'/></x:y>",
    "<a>l1\nl2\r\nl3\rl4</a>",
    "<a><!-- c -->t<!-- d -->u<?pi x?>v</a>",
    "text at top",
    "<a xmlns='urn:1'><b xmlns='urn:2'><c xmlns=''/></b></a>",
    "<\xc3\xa9>\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80</\xc3\xa9>",
    "<r xmlns='urn:xmpp:sm:3'/>",
    "<a>  <b> </b>  </a>",
    "<a>&#9;tab</a>",
    "<a></a><b></b>",
    /* the rest ends the stream or is not well-formed */
    "</stream:stream>",
    "</a>",
    "<a><b></a>",
    "<a>&nbsp;</a>",
    "<a k=1/>",
    "<p:a/>",
    "\xff\xfe"};
#define NGOOD 18
#define NFRAG 25

static char EVA[1 << 15], EVB[1 << 15], *ev, *evend;
static void put(const char *s) { size_t n = strlen(s); if (ev + n + 1 < evend) { memcpy(ev, s, n); ev += n; *ev = 0; } }
static void putn(const char *s, size_t n) { if (ev + n + 1 < evend) { memcpy(ev, s, n); ev += n; *ev = 0; } }
/* attributes in a fixed order: selection of the smallest greater name */
static void puta(const char *k, const char *v) { put("\x03"); put(k); put("\x04"); put(v); }
static void attrs_sorted(const char **k, const char **v, int n)
{
    int i, j;
    for (i = 0; i < n; i++) for (j = i + 1; j < n; j++) if (strcmp(k[j], k[i]) < 0) {
        const char *t = k[i]; k[i] = k[j]; k[j] = t; t = v[i]; v[i] = v[j]; v[j] = t; }
    for (i = 0; i < n; i++) puta(k[i], v[i]);
}
/* oracle: events of expat over the whole input; only complete top-level
 * elements count, character data at the top level is ignored */
static int od;
static char *mark;
static char *markev;
static void XMLCALL o_start(void *u, const char *n, const char **a)
{
    const char *sep = strchr(n, '\x1F'), *k[16], *v[16];
    int c = 0, i;
    (void)u;
    if (od == 0) {
        put("OPEN "); put(sep ? sep + 1 : n);
        for (i = 0; a[i]; i += 2) { k[c] = a[i]; v[c++] = a[i + 1]; }
        attrs_sorted(k, v, c); put("\n");
        od++; return;
    }
    if (od == 1) { mark = ev; put("STANZA "); }
    put("\x01"); put(sep ? sep + 1 : n); put("\x02"); if (sep) putn(n, (size_t)(sep - n));
    for (i = 0; a[i]; i += 2) { /* prefixes of attributes are discarded, the last one of a name counts */
        const char *ln = strchr(a[i], '\x1F') ? strchr(a[i], '\x1F') + 1 : a[i];
        int j;
        for (j = 0; j < c && strcmp(k[j], ln); j++);
        if (!strcmp(ln, "xmlns")) continue;
        k[j] = ln; v[j] = a[i + 1];
        if (j == c) c++;
    }
    attrs_sorted(k, v, c);
    put("\x05");
    od++;
}
static void XMLCALL o_end(void *u, const char *n)
{
    (void)u; (void)n;
    od--;
    if (od == 0) { put("CLOSE\n"); return; }
    put("\x06");
    if (od == 1) { put("\n"); mark = NULL; }
}
static void XMLCALL o_chr(void *u, const char *s, int n) { (void)u; if (od >= 2) putn(s, (size_t)n); }
static void oracle(const char *s, size_t n)
{
    XML_Parser p = XML_ParserCreateNS(NULL, '\x1F');
    od = 0; mark = NULL;
    XML_SetElementHandler(p, o_start, o_end);
    XML_SetCharacterDataHandler(p, o_chr);
#if XML_MAJOR_VERSION * 10000 + XML_MINOR_VERSION * 100 >= 20600
    XML_SetReparseDeferralEnabled(p, XML_FALSE);
#endif
    if (!XML_Parse(p, s, (int)n, 0)) { if (mark) { ev = mark; *ev = 0; } put("ERROR\n"); }
    else if (mark) { ev = mark; *ev = 0; } /* incomplete stanza */
    XML_ParserFree(p);
}
/* the library */
static xmpp_ctx_t *ctx;
static void l_start(char *name, char **attrs, void *u)
{
    const char *k[16], *v[16];
    int i, c = 0;
    (void)u;
    put("OPEN "); put(name);
    for (i = 0; attrs[i]; i += 2) { k[c] = attrs[i]; v[c++] = attrs[i + 1]; }
    attrs_sorted(k, v, c);
    put("\n");
}
static void l_end(char *name, void *u) { (void)name; (void)u; put("CLOSE\n"); }
static int lasttext;
static void l_canon(xmpp_stanza_t *s)
{
    const char *k[16], *v[16], *at[32];
    int i, c = 0, n;
    xmpp_stanza_t *ch;
    int t = 0;
    VF_ASSERT(xmpp_stanza_is_tag(s), "C10: elements are elements");
    put("\x01"); put(xmpp_stanza_get_name(s)); put("\x02"); if (xmpp_stanza_get_ns(s)) put(xmpp_stanza_get_ns(s));
    n = xmpp_stanza_get_attributes(s, at, 32);
    for (i = 0; i + 1 < n; i += 2) if (strcmp(at[i], "xmlns")) { k[c] = at[i]; v[c++] = at[i + 1]; }
    attrs_sorted(k, v, c);
    put("\x05");
    for (ch = xmpp_stanza_get_children(s); ch; ch = xmpp_stanza_get_next(ch))
        if (xmpp_stanza_is_text(ch)) {
            VF_ASSERT(!t, "C10: text split across reads, entities or CDATA is one text");
            t = 1;
            put(xmpp_stanza_get_text_ptr(ch));
        } else { t = 0; l_canon(ch); }
    put("\x06");
}
static void l_stanza(xmpp_stanza_t *s, void *u) { (void)u; put("STANZA "); l_canon(s); put("\n"); }
static char doc[4096];
static size_t dl;
static int failed;
static void feed(parser_t *p, size_t a, size_t b)
{
    char *c;
    if (failed || a >= b) return;
    c = malloc(b - a); /* exact buffer: reading past the chunk is caught */
    memcpy(c, doc + a, b - a);
    if (!parser_feed(p, c, (int)(b - a))) { failed = 1; put("ERROR\n"); }
    free(c);
}
static parser_t *lib_begin(char *buf)
{
    ev = buf; *ev = 0; evend = buf + sizeof(EVA); failed = 0;
    return NULL;
}
static void cmp(const char *what) { VF_ASSERT(!strcmp(EVA, EVB), what); }
static void add(const char *s) { size_t n = strlen(s); memcpy(doc + dl, s, n); dl += n; }

void harness(void)
{
    parser_t *p;
    int i;
    size_t a, b, body;
    ctx = vf_ctx();
#ifdef T_SPLIT2
    add(HEAD[nd_range(0, 1)]);
    body = dl;
    for (i = 0; i < NF; i++) add(FRAG[nd_range(0, NFRAG - 1)]);
    lib_begin(EVA); oracle(doc, dl);
    p = parser_new(ctx, l_start, l_end, l_stanza, NULL);
    /* whole, then byte by byte on the same parser after a restart */
    lib_begin(EVB); feed(p, 0, dl);
    cmp("C10: the events of a read agree with an independent parser");
    VF_ASSERT(parser_reset(p), "C10: restart");
    lib_begin(EVB); for (a = 0; a < dl; a++) feed(p, a, a + 1);
    cmp("C10: byte-wise reads give the same events, a restart starts from a clean slate");
    for (a = body ? 1 : 0; a < dl; a += a < body ? 7 : 1)
        for (b = a; b <= dl; b += b < body ? 40 : (a < body ? 3 : 5)) {
            parser_reset(p);
            lib_begin(EVB);
            feed(p, 0, a); feed(p, a, b); feed(p, b, dl);
            cmp("C10: split reads give the same events");
        }
    parser_free(p);
    VF_REACH_IF(strstr(EVA, "ERROR"), "error"); VF_REACH_IF(strstr(EVA, "CLOSE"), "close"); VF_REACH_IF(strstr(EVA, "STANZA"), "stanza");
#endif
#if defined(T_RANDOM) || defined(T_BYTES)
    p = parser_new(ctx, l_start, l_end, l_stanza, NULL);
    for (int round = 0; round < 3; round++) {
        dl = 0;
        add(HEAD[nd_range(0, 1)]);
        for (i = 0; i < NF; i++) add(FRAG[nd_range(0, nd_range(0, 5) ? NGOOD - 1 : NFRAG - 1)]);
#ifdef T_BYTES
        for (i = nd_range(0, 2); i > 0; i--) doc[nd_range(0, (int)dl - 1)] = (char)"<>/&;'\"= a\0\xc3[]!?-:x"[nd_range(0, 19)];
#endif
        lib_begin(EVA); oracle(doc, dl);
        lib_begin(EVB);
        { int mx = nd_range(0, 2) ? 9 : 80; for (a = 0; a < dl && !failed; a = b) { b = a + (size_t)nd_range(1, mx); if (b > dl) b = dl; feed(p, a, b); } }
        cmp("C10: the events do not depend on the chunks");
        VF_REACH_IF(round == 2 && !strstr(EVA, "ERROR") && strstr(EVA, "STANZA"), "third stream");
        if (round < 2) VF_ASSERT(parser_reset(p), "C10: restart");
    }
    parser_free(p);
#endif
    xmpp_ctx_free(ctx);
    VF_ASSERT(vf_live == 0, "C12: every block is returned exactly once");
}
