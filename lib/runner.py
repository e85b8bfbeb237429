#!/usr/bin/env python3
"""Runner: generates obligations from /repo's current sources, discharges them
with CBMC (function contracts / loop contracts / callee contracts), replays
counterexamples against the real code, writes evidence."""
import atexit, threading
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VF_REPO', '/repo')  # (development only; registered commands use /repo)
SRC = REPO + '/src'
sys.path.insert(0, HERE)
import annotate as ann

DEFS = [
 '-DPACKAGE_NAME="libstrophe"', '-DPACKAGE_VERSION="0.14.0"', '-DPACKAGE="libstrophe"',
 '-DVERSION="0.14.0"', '-DHAVE_STDIO_H=1', '-DHAVE_STDLIB_H=1', '-DHAVE_STRING_H=1',
 '-DHAVE_INTTYPES_H=1', '-DHAVE_STDINT_H=1', '-DHAVE_STRINGS_H=1', '-DHAVE_SYS_STAT_H=1',
 '-DHAVE_SYS_TYPES_H=1', '-DHAVE_UNISTD_H=1', '-DSTDC_HEADERS=1', '-DHAVE_DLFCN_H=1',
 '-DHAVE_CLOCK_GETTIME=1', '-DHAVE_SNPRINTF=1', '-DHAVE_VSNPRINTF=1', '-DHAVE_VA_COPY=1',
 '-DHAVE_GETRANDOM=1', '-DHAVE_ZLIB=1', '-DLIBXMPP_VERSION_MAJOR=0', '-DLIBXMPP_VERSION_MINOR=14',
]
COMMON_CBMC = ['--no-standard-checks', '--bounds-check', '--pointer-check',
               '--div-by-zero-check', '--unwinding-assertions', '--no-malloc-may-fail']

def sh(cmd, timeout, cwd=None, env=None):
    """run cmd (list) -> (rc, out, err, secs); rc None on timeout"""
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd,
                         env=env, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace'), time.time() - t
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.communicate()
        return None, '', '', time.time() - t

def load_units():
    units = {}
    d = VERIF + '/units'
    for f in sorted(os.listdir(d)):
        if not f.endswith('.c'): continue
        s = open(d + '/' + f).read()
        m = re.search(r'/\*@unit(.*?)\*/', s, re.S)
        if not m: continue
        u = json.loads(m.group(1))
        u['file'] = d + '/' + f
        u['name'] = f[:-2]
        runs = []
        for run in u['runs']:    # "cases": [lo, hi] -> one run per case, -DCASE=k
            if 'cases' in run:
                for k in range(run['cases'][0], run['cases'][1] + 1):
                    r2 = dict(run); del r2['cases']
                    r2['name'] = '%s_c%d' % (run['name'], k)
                    r2['defs'] = run.get('defs', []) + ['CASE=%d' % k]
                    runs.append(r2)
            else:
                runs.append(run)
        u['runs'] = runs
        units[u['name']] = u
    return units

class Result:
    def __init__(self, **k):
        self.__dict__.update(k)

def prepare(unit, run, anndir, loops):
    """write the mechanically prepared copies of real sources a run needs"""
    os.makedirs(anndir, exist_ok=True)
    an = (run.get('annotate') or {}) if loops else {}
    rn = run.get('rename', unit.get('rename')) or {}
    for f in sorted(set(an) | set(rn)):
        s = open(SRC + '/' + f).read()
        s = ann.annotate(s, an.get(f, {}), run.get('after', ()))
        s = ann.rename_defs(s, rn.get(f, []))
        open(anndir + '/' + f, 'w').write('#line 1 "%s/%s"\n' % (SRC, f) + s)

def build(unit, run, wd):
    """-> (gb path, error string or None)"""
    anndir = wd + '/ann'
    try:
        prepare(unit, run, anndir, True)
    except (ann.Mismatch, OSError, ValueError, IndexError) as e:
        return None, 'contract structure: %s' % e
    inc = ['-I' + anndir, '-I' + HERE, '-I' + VERIF + '/units', '-I' + SRC, '-I' + REPO] + \
          ['-I' + x for x in unit.get('incs', [])]
    defs = DEFS + ['-DVF_CBMC_BUILD'] + ['-D' + d for d in unit.get('defs', []) + run.get('defs', [])]
    gb = wd + '/a.gb'
    rc, o, e, _ = sh(['goto-cc'] + inc + defs + ['--function', 'harness', unit['file']] +
                     [SRC + '/' + x for x in unit.get('link', [])] + ['-o', gb], 120)
    if rc != 0:
        return None, 'goto-cc: ' + (o + e)[-1500:]
    steps = []
    if run.get('dfcc'):
        steps.append(['--dfcc', 'harness'] + run['dfcc'] +
                     (['--apply-loop-contracts'] if run.get('annotate') else []))
    else:
        steps.append(['--drop-unused-functions'])
        if run.get('annotate'):
            steps.append(['--apply-loop-contracts'])
    for i, st in enumerate(steps):
        out = wd + '/b%d.gb' % i
        rc, o, e, _ = sh(['goto-instrument'] + st + [gb, out], 120)
        if rc != 0:
            return None, 'goto-instrument: ' + (o + e)[-1500:]
        gb = out
    return gb, None

def cbmc_cmd(unit, run, gb, extra=()):
    c = ['cbmc', gb] + (run.get('checks') or COMMON_CBMC)
    c += ['--object-bits', str(run.get('objbits', 10))]
    if 'unwind' in run: c += ['--unwind', str(run['unwind'])]
    if run.get('unwindset'): c += ['--unwindset', ','.join(run['unwindset'])]
    if not run.get('noslice'): c += ['--slice-formula']
    c += list(run.get('cbmc', []))
    return c + list(extra)

def backend(run):
    a = run.get('cbmc', [])
    if '--cvc5' in a: return 'cvc5 (SMT2)'
    if '--z3' in a: return 'z3 (SMT2)'
    if 'cadical' in a: return 'CaDiCaL (SAT)'
    return 'MiniSat (SAT)'

def execute_enum(unit, run, wd, prop):
    """bounded exhaustive enumeration (or sampling) of the harness's choices on
    the natively compiled real code with AddressSanitizer"""
    t0 = time.time()
    samples = run.get('samples', 0)
    r = Result(unit=unit['name'], run=run['name'], mode=run['mode'], status='NA', reason='',
               failed=[], nprops=0, nok=0, covers=0, covers_ok=0, secs=0, bound=run.get('bound', ''),
               backend='sampled execution (ASan)' if samples else 'exhaustive enumeration (ASan)', nobody=[], wd=wd, values=None)
    exe = wd + '/enum.exe'
    try:
        ok, msg = native_build(unit, run, exe, ['-DVF_ENUM', '-O1'])
    except (ann.Mismatch, OSError, ValueError, IndexError) as e:
        ok, msg = False, 'structure: %s' % e
    if not ok:
        r.reason = 'native build: ' + msg; r.secs = time.time() - t0; return r
    # names of all covers of this configuration
    rc, o, e, _ = sh(['gcc', '-E', '-P'] + native_flags(unit, run, exe + '.ann') + ['-DVF_ENUM', unit['file']], 60)
    want = set(re.findall(r'vf_enum_reach\("((?:[^"\\]|\\.)*)"\)', o))
    nw = run.get('workers', 4)
    to = run.get('timeout', 120)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=98:quarantine_size_mb=8:thread_local_quarantine_size_kb=64:allocator_may_return_null=1:malloc_context_size=3')
    procs = [subprocess.Popen([exe, str(k), str(nw), str(run.get('split', 6)), str(samples), os.environ.get('VERIF_SEED', '1'),
                               str(to), '%s/fail%d' % (wd, k), prop or ''],
                              stdout=subprocess.PIPE, stderr=open('%s/err%d' % (wd, k), 'wb'), env=env, start_new_session=True) for k in range(nw)]
    outs, dl, got = [], time.time() + to + 30, set()
    runs = done = 0
    bad = None
    for k, p in enumerate(procs):
        try:
            o, _ = p.communicate(timeout=max(1, dl - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.communicate(); continue
        o = o.decode('utf8', 'replace')
        m = re.search(r'RUNS (\d+)', o)
        if m: runs += int(m.group(1))
        if 'DONE' in o: done += 1
        got |= set(re.findall(r'^COVER (.*)$', o, re.M))
        if p.returncode != 0 and bad is None:
            for q in procs:
                if q.poll() is None:
                    try: os.killpg(q.pid, signal.SIGKILL)
                    except ProcessLookupError: pass
            e = open('%s/err%d' % (wd, k), errors='replace').read()
            m = re.search(r'REPLAY-FAIL: (.*)', e) or re.search(r'ERROR: (AddressSanitizer.*)', e) or re.search(r'.*(Assertion .* failed).*', e)
            msg = m.group(1) if m else 'exit status %s %s' % (p.returncode, e[-300:])
            loc = re.search(r'#\d+ \S+ in (\S+) /repo/src/(\S+):(\d+)', e)
            bad = (msg, loc.group(2) if loc else '?', loc.group(3) if loc else '?', loc.group(1) if loc else '?', k)
    r.secs = time.time() - t0
    r.solver_secs = r.secs
    r.nprops = r.nok = runs
    want = {re.sub(r'\\(.)', r'\1', x) for x in want}
    if 'covers' in run: want = set(run['covers'])
    r.covers, r.covers_ok = len(want), len(want & got)
    if bad:
        r.status = 'FAIL'
        r.failed = [('enumeration', bad[0], bad[1], bad[2], bad[3])]
        try: r.values = open('%s/fail%d' % (wd, bad[4])).read()
        except OSError: r.values = None
    elif done < nw and run.get('partial') and runs >= 1000:
        r.status = 'OK' # the time budget is part of the stated bound
        r.bound += ' (first %d executions within %d s)' % (runs, to)
    elif done < nw:
        r.status = 'TIMEOUT'; r.reason = '%d of %d workers finished, %d combinations' % (done, nw, runs)
    elif r.covers_ok < r.covers:
        r.status = 'VACUOUS'; r.reason = 'not reached: %s' % ', '.join(sorted(want - got))
    else:
        r.status = 'OK'
    return r

def execute(unit, run, wd, prop=None):
    t0 = time.time()
    os.makedirs(wd, exist_ok=True)
    if run.get('engine') in ('enum', 'sample'):
        return execute_enum(unit, run, wd, prop)
    r = Result(unit=unit['name'], run=run['name'], mode=run['mode'], status='NA', reason='',
               failed=[], nprops=0, nok=0, covers=0, covers_ok=0, secs=0, bound=run.get('bound', ''),
               backend=backend(run), nobody=[], wd=wd)
    gb, err = build(unit, run, wd)
    if err:
        r.reason = err; r.secs = time.time() - t0; return r
    r.gb = gb
    to = run.get('timeout', 240)
    rc, o, e, s = sh(cbmc_cmd(unit, run, gb, ['--json-ui']), to)
    r.secs = time.time() - t0; r.solver_secs = s
    if rc is None:
        r.status = 'TIMEOUT'; r.reason = 'no answer within %ds' % to; return r
    try:
        js = json.loads(o, strict=False)
    except ValueError as ex:
        r.status = 'NA'; r.reason = 'cbmc: rc=%s %s' % (rc, (o + e)[-600:]); return r
    res = None
    for x in js:
        if 'result' in x: res = x['result']
        if x.get('messageType') == 'WARNING' and 'no body for' in x.get('messageText', ''):
            m = re.search(r"no body for (?:function|callee) '?(\S+?)'?$", x['messageText'])
            r.nobody.append(m.group(1) if m else x['messageText'])
    if res is None:
        r.reason = 'cbmc gave no result: ' + ' / '.join(x.get('messageText', '') for x in js if x.get('messageType') == 'ERROR')[-600:]
        return r
    unknown = 0; cov = {}
    for p in res:
        d = p.get('description', '')
        if d.startswith('VFCOVER'):
            # (inlining makes copies of one statement: one of them has to be reached)
            sl = p.get('sourceLocation', {})
            k = (d, sl.get('file'), sl.get('line'))
            cov[k] = cov.get(k, False) or p['status'] == 'FAILURE'
            continue
        r.nprops += 1
        if p['status'] == 'SUCCESS': r.nok += 1
        elif p['status'] == 'FAILURE':
            sl = p.get('sourceLocation', {})
            r.failed.append((p['property'], d, sl.get('file', '?'), sl.get('line', '?'), sl.get('function', '?')))
        else: unknown += 1
    r.covers = len(cov); r.covers_ok = sum(cov.values())
    for k, hit in cov.items():
        if not hit: r.reason += ' cover unreached: %s;' % k[0]
    if r.failed:
        r.status = 'FAIL'
    elif unknown:
        r.status = 'NA'; r.reason += ' %d unknown' % unknown
    elif r.nprops == 0 or (r.covers_ok < r.covers):
        r.status = 'VACUOUS'
    elif r.nobody and not set(r.nobody) <= set(unit.get('nobody_ok', [])):
        r.status = 'OK'; r.reason += ' no body: ' + ','.join(sorted(set(r.nobody)))
    else:
        r.status = 'OK'
    return r

def pick_fail(r):
    """order: explicit property assertions, then safety, unwinding last"""
    def k(f):
        d = f[1]
        if 'unwinding' in d: return 3
        if re.match(r'C\d\d', d): return 0
        return 1
    return sorted(r.failed, key=k)

def trace_values(unit, run, r, prop):
    run2 = dict(run); run2['noslice'] = True
    rc, o, e, s = sh(cbmc_cmd(unit, run2, r.gb, ['--json-ui', '--trace', '--property', prop]),
                     run.get('timeout', 240))
    if rc is None: return None
    try: js = json.loads(o, strict=False)
    except ValueError: return None
    for x in js:
        for p in x.get('result', []) if isinstance(x, dict) else []:
            if p.get('property') == prop and p.get('trace'):
                vals = []
                for st in p['trace']:
                    if st.get('stepType') == 'assignment' and st.get('lhs', '') == 'vf_nd' and not st.get('hidden'):
                        v = st['value']
                        b = v.get('binary')
                        if b is not None:
                            n = int(b, 2)
                            if len(b) == 64 and n >= 1 << 63: n -= 1 << 64
                        else:
                            d = v.get('data', '0')
                            n = {'TRUE': 1, 'FALSE': 0, 'true': 1, 'false': 0}.get(d)
                            if n is None:
                                m = re.match(r'-?\d+', d); n = int(m.group(0)) if m else 0
                        vals.append(n)
                return vals
    return None

def native_flags(unit, run, anndir):
    return ['-I' + x for x in [anndir, HERE, VERIF + '/units', SRC, REPO] + unit.get('incs', [])] + \
        DEFS + ['-D' + d for d in unit.get('defs', []) + run.get('defs', [])]

def lib_sources(unit):
    """the library's own source list (default configuration)"""
    s = open(REPO + '/Makefile.am').read()
    m = re.search(r'libstrophe_la_SOURCES = ((?:.*\\\n)*.*)', s)
    fs = re.findall(r'src/(\w+\.c)', m.group(1)) + ['compression.c', 'tls_openssl.c', 'parser_expat.c']
    return [f for f in fs if f not in unit.get('without', [])]

_objs, _objlock = {}, threading.Lock()
NCC = ['gcc', '-g', '-w', '-fsanitize=address', '-fno-omit-frame-pointer', '-fno-pie']

def native_build(unit, run, exe, extra=()):
    anndir = exe + '.ann'
    prepare(unit, run, anndir, False)
    flags = native_flags(unit, run, anndir)
    link = list(unit.get('link', []))
    objs = []
    if unit.get('lib'):
        link += lib_sources(unit)
    if link:
        objdir = tempfile.gettempdir() + '/vf-obj-%d' % os.getpid()
        base_flags = ['-I' + x for x in [SRC, REPO]] + DEFS + ['-D' + d for d in unit.get('defs', [])]
        def comp(f):
            src = anndir + '/' + f if os.path.exists(anndir + '/' + f) else SRC + '/' + f
            h = hashlib.sha1(open(src, 'rb').read() + ' '.join(base_flags).encode()).hexdigest()[:16]
            o = '%s/%s-%s.o' % (objdir, f, h)
            with _objlock:
                if o not in _objs:
                    os.makedirs(objdir, exist_ok=True)
                    if not _objs: atexit.register(shutil.rmtree, objdir, True)
                    _objs[o] = threading.Lock()
                lk = _objs[o]
            with lk:
                if not os.path.exists(o):
                    rc, a, b, _ = sh(NCC + ['-O1'] + base_flags + ['-c', src, '-o', o + '.tmp'], 120)
                    if rc != 0: return None, (a + b)[-1500:]
                    os.rename(o + '.tmp', o)
            return o, ''
        with cf.ThreadPoolExecutor(8) as ex:
            for o, msg in ex.map(comp, link):
                if o is None: return False, msg
                objs.append(o)
    rc, o, e, _ = sh(NCC + ['-O0', '-fno-builtin'] + list(extra) + flags + [unit['file']] + objs +
                     ['-o', exe, '-Wl,--unresolved-symbols=ignore-all', '-no-pie'] + unit.get('libs', []), 120)
    return rc == 0, (o + e)[-1500:]

def native_replay(unit, run, valfile, exe):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=98:allocator_may_return_null=1')
    rc, o, e, _ = sh([exe, valfile], 20, env=env)
    if rc is None: return True, 'does not terminate within 20 s'
    if rc == 0: return False, 'replay passes'
    if rc == 77: return False, 'replay leaves the assumed input space: ' + e[-300:]
    m = re.search(r'REPLAY-FAIL: .*', e) or re.search(r'ERROR: AddressSanitizer.*', e) or \
        re.search(r'.*Assertion .* failed.*', e)
    return True, (m.group(0) if m else 'exit status %s %s' % (rc, e[-300:]))

def replay_of(prop, unit, run, r, outdir):
    """try to turn a failed obligation into a failing concrete input on the real code"""
    last = ''
    for f in pick_fail(r)[:3]:
        if run.get('engine'):
            vals = [int(x) for x in (r.values or '').split('\n') if re.fullmatch(r'-?\d+', x)] if r.values is not None else None
        else:
            vals = trace_values(unit, run, r, f[0])
        if vals is None:
            last = 'no trace'; continue
        os.makedirs(outdir, exist_ok=True)
        name = '%s-%s-%s' % (prop, unit['name'], run['name'])
        vf = outdir + '/' + name + '.replay'
        with open(vf, 'w') as fh:
            fh.write('# replay of a failed obligation against the real code\n')
            fh.write('# unit: %s\n# run: %s\n# obligation: %s (%s) at %s:%s in %s\n' %
                     (unit['name'], run['name'], f[1], f[0], f[2], f[3], f[4]))
            fh.write('# run with: python3 /verif/check.py --replay %s\n' % vf)
            for v in vals: fh.write('%d\n' % v)
        exe = r.wd + '/replay.exe'
        ok, msg = native_build(unit, run, exe)
        if not ok: return None, vf, f, 'native build failed: ' + msg
        hit, msg = native_replay(unit, run, vf, exe)
        with open(vf, 'a') as fh: fh.write('# native result: %s\n' % msg.replace('\n', ' '))
        if hit: return True, vf, f, msg
        last = msg
    return False, None, pick_fail(r)[0], last

def relevant(desc, prop):
    """an obligation tagged with other properties only does not concern prop"""
    m = re.match(r'((?:C\d\d[, ]*)+):', desc)
    return not m or prop in m.group(1)

def known_findings():
    p = VERIF + '/known-findings.jsonl'
    res = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'): res.append(json.loads(l))
    return res

def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    units = [u for u in load_units().values() if prop in u['props']]
    kf = [k for k in known_findings() if k['property'] == prop]
    base = tempfile.mkdtemp(prefix='vf-%s-' % prop)
    outdir = VERIF + '/evidence/replays'
    results = {}   # unit -> {run: Result}
    jobs = []
    def want(run):
        if run.get('tier', 'quick') == 'thorough' and tier != 'thorough': return False
        if run.get('when', 'always') != 'always': return False
        return run.get('props') is None or prop in run['props']
    nw = int(os.environ.get('VF_JOBS', '8'))
    with cf.ThreadPoolExecutor(nw) as ex:
        for u in units:
            for run in u['runs']:
                if want(run):
                    jobs.append((u, run, ex.submit(execute, u, run, '%s/%s-%s' % (base, u['name'], run['name']), prop)))
        for u, run, fu in jobs:
            results.setdefault(u['name'], {})[run['name']] = (run, fu.result())
    violations, notes, errors, known = [], [], [], []
    extra = []
    umap = {u['name']: u for u in units}
    def do_bounded(u, why):
        """run fallback runs of u; -> (list of results)"""
        out = []
        for run in u['runs']:
            if run.get('when') == 'fallback' and (run.get('props') is None or prop in run['props']):
                r = execute(u, run, '%s/%s-%s' % (base, u['name'], run['name']), prop)
                extra.append(r); out.append((run, r))
        for run, r in results[u['name']].values():
            if run['mode'] == 'bounded' and not any(r is x for _, x in out): out.append((run, r))
        return out
    def is_known(u, f):
        for k in kf:
            if k.get('unit') == u['name'] and re.search(k['obligation'], f[1]):
                return k
        return None
    def handle_fail(u, run, r):
        fresh = []
        r.failed = [f for f in r.failed if relevant(f[1], prop)]
        for f in r.failed:
            k = is_known(u, f)
            if k: known.append(k)
            else: fresh.append(f)
        if not fresh:
            return
        r.failed = fresh
        if not run.get('annotate') or run.get('replay'):
            hit, vf, f, msg = replay_of(prop, u, run, r, outdir)
            if hit:
                violations.append((u['name'], run['name'], f, vf, msg, True)); return
        else:
            f, msg = pick_fail(r)[0], 'proof obligation over loop contracts; no concrete state'
            for brun, br in do_bounded(u, 'refute'):
                if br.status == 'FAIL':
                    hit, vf, bf, bmsg = replay_of(prop, u, brun, br, outdir)
                    if hit:
                        violations.append((u['name'], brun['name'], bf, vf, bmsg, True)); return
        os.makedirs(outdir, exist_ok=True)
        vf = outdir + '/%s-%s-%s.obligation' % (prop, u['name'], run['name'])
        with open(vf, 'w') as fh:
            fh.write('unit %s run %s: obligations that no longer discharge\n' % (u['name'], run['name']))
            for x in r.failed: fh.write('  %s: %s  (%s:%s in %s)\n' % x)
            fh.write('replay attempt: %s\n' % msg)
            fh.write('verifier: %s\n' % ' '.join(cbmc_cmd(u, run, 'a.gb')))
        violations.append((u['name'], run['name'], f, vf, msg, False))
    for u in units:
        for run, r in list(results.get(u['name'], {}).values()):
            if r.status == 'OK': continue
            if r.status == 'FAIL':
                handle_fail(u, run, r); continue
            if r.status == 'VACUOUS':
                errors.append('%s/%s vacuous: %s' % (u['name'], run['name'], r.reason)); continue
            # NA / TIMEOUT: fall back to bounded runs
            fb = do_bounded(u, r.reason)
            fb = [(b, x) for b, x in fb if x is not r]
            notes.append('%s/%s: %s (%s) -> decided by %d bounded run(s)' %
                         (u['name'], run['name'], r.status, r.reason.strip()[:300], len(fb)))
            done = False
            for brun, br in fb:
                if br.status == 'FAIL':
                    if brun.get('when') == 'fallback': handle_fail(u, brun, br)
                    done = True
                elif br.status == 'OK': done = True
            if not done:
                # a proof that can not be rebuilt from the changed source: the bounded runs of the
                # other units of this property stand in for it
                others = ['%s/%s' % (x.unit, x.run) for d in results.values() for b, x in d.values()
                          if b['mode'] == 'bounded' and x.unit != u['name'] and x.status in ('OK', 'FAIL')]
                if others:
                    notes.append('%s/%s: not proved on this tree; bounded stand-in: %s' % (u['name'], run['name'], ', '.join(others)[:300]))
                else:
                    errors.append('%s/%s: %s: %s' % (u['name'], run['name'], r.status, r.reason[-800:]))
    write_evidence(prop, tier, seed, units, results, extra, violations, notes, errors, known, time.time() - t0)
    seen = set()
    for k in known:
        if k['what'] not in seen:
            seen.add(k['what'])
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for n in notes: print('NOTE: ' + n)
    for e in errors: print('ERROR: ' + e)
    for (un, rn, f, vf, msg, hit) in violations:
        print('FAILED OBLIGATION: %s/%s %s: %s (%s:%s in %s) -- %s' % (un, rn, f[0], f[1], f[2], f[3], f[4], msg))
        print('VIOLATION property=%s replay=%s%s' % (prop, vf, '' if hit else ' no-failing-input-found'))
    if not os.environ.get('VF_KEEP'):
        shutil.rmtree(base, ignore_errors=True)
    else: print('workdir', base)
    return 1 if violations else (2 if errors else 0)

def write_evidence(prop, tier, seed, units, results, extra, violations, notes, errors, known, wall):
    meta = json.load(open(VERIF + '/lib/props.json'))[prop]
    allr = [(run, r) for d in results.values() for (run, r) in d.values()]
    pr = [r for run, r in allr if r.mode == 'proof']
    bo = [r for run, r in allr if r.mode != 'proof'] + [r for r in extra]
    rows = lambda rs: [{'unit': r.unit, 'run': r.run, 'obligations': r.nprops, 'discharged': r.nok,
                        'covers_reached': '%d/%d' % (r.covers_ok, r.covers), 'backend': r.backend,
                        'status': r.status, 'wall_s': round(r.secs, 1), 'bound': r.bound} for r in rs]
    fns = sorted({f for u in units for f in u.get('functions', [])})
    be = {}
    for r in pr + bo:
        b = be.setdefault(r.backend, {'obligations': 0, 'discharged': 0, 'solver_s': 0})
        b['obligations'] += r.nprops; b['discharged'] += r.nok
        b['solver_s'] = round(b['solver_s'] + getattr(r, 'solver_secs', 0), 1)
    assumptions = sorted({a for u in units for a in u.get('assumptions', [])} | set(meta.get('assumptions', [])) |
        {'memory allocation succeeds (allocator contract: fresh block of the requested size)',
         'CBMC 6.11 C semantics of the sources as preprocessed for the default build configuration (x86_64, gcc)'})
    cov = {'functions_under_contract': fns, 'runs_proved': rows(pr), 'runs_bounded': rows(bo),
           'backends': be, 'notes': notes, 'errors': errors,
           'assume_sites': assume_scan(units)}
    if meta['level'] == 'proof':
        cov.update({'obligations': sum(r.nprops for r in pr), 'discharged': sum(r.nok for r in pr),
                    'bounded_obligations': sum(r.nprops for r in bo), 'bounded_discharged': sum(r.nok for r in bo),
                    'checker_cmd': 'python3 /verif/check.py %s' % prop,
                    'trusted_base': assumptions})
    else:
        cov['explanation'] = meta.get('explanation', '') + \
            ' This run: %d obligations over contracts discharged without an input bound, %d discharged within the stated bounds.' % (
                sum(r.nok for r in pr), sum(r.nok for r in bo))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': meta['level'], 'coverage': cov,
          'assumptions': assumptions, 'wall_s': round(wall, 1), 'violations': len(violations)}
    if known: ev['known_findings'] = sorted({k['what'] for k in known})
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open(VERIF + '/evidence/%s.json' % prop, 'w'), indent=1)

def assume_scan(units):
    out = []
    for u in units:
        s = open(u['file']).read()
        out.append('%s: %d assume sites' % (u['name'], len(re.findall(r'VF_ASSUME|__CPROVER_assume|nd_range|nd_size_max', s))))
    return out

def replay_file(path):
    s = open(path).read()
    un = re.search(r'# unit: (\S+)', s).group(1); rn = re.search(r'# run: (\S+)', s).group(1)
    u = load_units()[un]; run = [x for x in u['runs'] if x['name'] == rn][0]
    d = tempfile.mkdtemp(prefix='vf-replay-')
    try:
        ok, msg = native_build(u, run, d + '/r')
        if not ok: print(msg); return 2
        hit, msg = native_replay(u, run, path, d + '/r')
        print(msg); return 1 if hit else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)

def one(unitname, runname=None):
    """developer entry: run a unit verbosely"""
    u = load_units()[unitname]
    sel = [r for r in u['runs'] if not runname or re.fullmatch(runname, r['name'])]
    if len(sel) > 1:
        nw = int(os.environ.get('VF_JOBS', '8'))
        with cf.ThreadPoolExecutor(nw) as ex:
            list(ex.map(lambda r: one(unitname, re.escape(r['name'])), sel))
        return
    for run in u['runs']:
        if runname and not re.fullmatch(runname, run['name']): continue
        wd = tempfile.mkdtemp(prefix='vf-dev-')
        r = execute(u, run, wd)
        print('%s/%s %s: %s  props %d ok %d covers %d/%d  %.1fs %s' % (u['name'], run['name'], r.mode, r.status, r.nprops, r.nok,
              r.covers_ok, r.covers, r.secs, r.reason[-1500:]))
        if r.nobody: print('   nobody:', sorted(set(r.nobody)))
        for f in pick_fail(r)[:12]: print('   FAIL', f)
        if r.status == 'FAIL' and (not run.get('annotate') or run.get('replay')) and not os.environ.get('VF_NOREPLAY'):
            print('   replay:', replay_of('DEV', u, run, r, wd))
        if not os.environ.get('VF_KEEP'): shutil.rmtree(wd, ignore_errors=True)
        else: print('   wd', wd)
        sys.stdout.flush()
