#!/usr/bin/env python3
"""Mechanical insertion of loop-contract hooks into real C sources.

annotate(src_text, {func: nloops}) returns the text of the real source in which,
in each named function, every loop head is followed by a macro call
LC_<func>_<ordinal>.  Nothing else of the text is changed or dropped.  The
macros are defined by the proof unit (empty when the unit has no contract for
that loop, and always empty in bounded mode and in native replay).
"""
import re, sys

class Mismatch(Exception):
    pass

def _mask(src):
    """same length text with comments, strings, chars and preprocessor lines blanked"""
    out = list(src); i = 0; n = len(src)
    def blank(a, b):
        for k in range(a, b):
            if out[k] != '\n':
                out[k] = ' '
    bol = True
    while i < n:
        c = src[i]
        if src.startswith('/*', i):
            j = src.find('*/', i + 2); j = n if j < 0 else j + 2
            blank(i, j); i = j; continue
        if src.startswith('//', i):
            j = src.find('\n', i); j = n if j < 0 else j
            blank(i, j); i = j; continue
        if c in '"\'':
            j = i + 1
            while j < n and src[j] != c:
                j += 2 if src[j] == '\\' else 1
            blank(i, j + 1); i = j + 1; bol = False; continue
        if c == '#' and bol:
            j = i
            while j < n and src[j] != '\n':
                j += 2 if src[j] == '\\' else 1
            blank(i, j); i = j; continue
        if c == '\n':
            bol = True
        elif not c.isspace():
            bol = False
        i += 1
    return ''.join(out)

def _match(m, i, o, c):
    d = 0
    while i < len(m):
        if m[i] == o: d += 1
        elif m[i] == c:
            d -= 1
            if d == 0: return i
        i += 1
    raise Mismatch('unbalanced')

def functions(src):
    """{name: (body_start, body_end)} of top-level function definitions"""
    m = _mask(src); res = {}; i = 0; depth = 0
    last = 0
    while i < len(m):
        if m[i] == '{':
            e = _match(m, i, '{', '}')
            head = m[last:i]
            # drop previous declarations
            h = head.rsplit(';', 1)[-1]
            mm = re.search(r'([A-Za-z_]\w*)\s*\(', h)
            if mm and ')' in h and '=' not in h:
                # last identifier directly before the first '(' at depth 0
                res[mm.group(1)] = (i, e)
            i = e + 1; last = i; continue
        i += 1
    return res

def loops(src, fn):
    m = _mask(src)
    fs = functions(src)
    if fn not in fs:
        raise Mismatch('function %s not found' % fn)
    b, e = fs[fn]
    pos = []       # insertion offsets in order of loop keyword
    body = m[b:e + 1]
    dowhiles = set()
    for k in re.finditer(r'\b(for|while|do)\b', body):
        at = b + k.start()
        if k.group(1) == 'do':
            j = b + k.end()
            while m[j].isspace(): j += 1
            if m[j] != '{':
                raise Mismatch('do without block')
            ce = _match(m, j, '{', '}')
            w = re.compile(r'\s*while\s*').match(m, ce + 1)
            if not w: raise Mismatch('do without while')
            wpos = m.index('while', ce)
            dowhiles.add(wpos)
            pos.append((at, b + k.end()))
        else:
            if at in dowhiles: continue
            p = m.index('(', at)
            pos.append((at, _match(m, p, '(', ')') + 1))
    pos.sort()
    return [p[1] for p in pos]

def body_off(src, off):
    """offset just after the '{' of a loop body whose head ends at off, or None"""
    m = _mask(src)
    while off < len(m) and m[off].isspace(): off += 1
    return off + 1 if off < len(m) and m[off] == '{' else None

def rename_defs(src, names):
    """rename the *definitions* of the named functions to vf_real_<name>; calls
    keep the old name and so resolve to the contract stub of the unit."""
    m = _mask(src); fs = functions(src); ed = []
    for n in names:
        if n not in fs:
            raise Mismatch('function %s not found' % n)
        b = fs[n][0]
        k = [x for x in re.finditer(r'\b%s\s*\(' % re.escape(n), m[:b])][-1].start()
        ed.append((k, n))
    for k, n in sorted(ed, reverse=True):
        src = src[:k] + 'vf_real_' + src[k:]
    return src

def flatten_do0(src):
    """in macro definitions, `do { X } while (0)` -> `if (1) { X } else (void)0`
    (same meaning as no macro breaks out; loop contracts may not enclose loops)"""
    def one(m):
        t = m.group(0)
        if len(re.findall(r'\bdo\b', t)) == 1 and re.search(r'\}\s*while \(0\)\s*$', t) \
           and not re.search(r'\b(break|continue)\b', t):
            t = re.sub(r'\bdo\b', 'if (1)', t, count=1)
            t = re.sub(r'while \(0\)(\s*)$', r'else (void)0\1', t)
        return t
    return re.sub(r'^#define(?:[^\n]*\\\n)*[^\n]*', one, src, flags=re.M)

def do_to_while(src, fn):
    """`do { B } while (c);` -> `{ int vf_do = 1; while (vf_do || (c)) { vf_do = 0; B } }`
    (the same meaning, also for break and continue; loop contracts do not
    support do-while)"""
    while True:
        m = _mask(src)
        fs = functions(src)
        if fn not in fs: raise Mismatch('function %s not found' % fn)
        b, e = fs[fn]
        k = re.search(r'\bdo\b', m[b:e])
        if not k: return src
        at = b + k.start(); j = b + k.end()
        while m[j].isspace(): j += 1
        if m[j] != '{': raise Mismatch('do without block')
        ce = _match(m, j, '{', '}')
        w = re.compile(r'\s*while\s*').match(m, ce + 1)
        if not w: raise Mismatch('do without while')
        pe = _match(m, w.end(), '(', ')')
        sc = re.compile(r'\s*;').match(m, pe + 1)
        if not sc: raise Mismatch('do without end')
        cond = src[w.end():pe + 1]
        nl = '\n' * src[ce + 1:sc.end()].count('\n')
        src = src[:at] + '{ int vf_do = 1; while (vf_do || ' + ' '.join(cond.split()) + ') ' + src[b + k.end():j] + \
            '{ vf_do = 0; ' + src[j + 1:ce + 1] + nl + '}' + src[sc.end():]

def annotate(src, want, after=()):
    if any(want.values()):
        src = flatten_do0(src)
    for fn, cnt in want.items():
        if cnt: src = do_to_while(src, fn)
    ins = []
    for fn, cnt in want.items():
        ls = loops(src, fn)
        if len(ls) != cnt:
            raise Mismatch('%s has %d loops, contract written for %d' % (fn, len(ls), cnt))
        for n, off in enumerate(ls, 1):  # LB_ = ghost statements at body start
            ins.append((off, ' LC_%s_%d ' % (fn, n)))
            bo = body_off(src, off)
            if bo is not None:
                ins.append((bo, ' LB_%s_%d ' % (fn, n)))
                if '%s_%d' % (fn, n) in after:  # LA_ = ghost statements behind the loop
                    m = _mask(src)
                    ins.append((_match(m, bo - 1, '{', '}') + 1, ' LA_%s_%d ' % (fn, n)))
    for off, t in sorted(ins, reverse=True):
        src = src[:off] + t + src[off:]
    return src

if __name__ == '__main__':
    s = open(sys.argv[1]).read()
    want = dict((a.split('=')[0], int(a.split('=')[1])) for a in sys.argv[2:])
    sys.stdout.write(annotate(s, want))
