#!/usr/bin/env python3
"""Decide one property: compile /repo's current tree to LLVM IR, execute the harness symbolically (engine/sse.cpp,
Z3), replay every counterexample on a native build of the same tree, report and write the evidence file."""
import sys, os, json, re, subprocess, tempfile, shutil, time, hashlib, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'checks'))
import meta
NCPU = os.cpu_count() or 4
DEFS = ['-DUSE_REUSABLES', '-DUNIXVER', '-DUSE_BUILTIN_FCREATE']

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return r.returncode, r.stdout.decode('utf-8', 'replace')

def die(msg, code=2):
    print('ERROR:', msg); sys.exit(code)

def engine():
    b = os.path.join(V, 'build'); os.makedirs(b, exist_ok=True)
    h = hashlib.sha256()
    for f in ('sse.cpp', 'expr.h'): h.update(open(os.path.join(V, 'engine', f), 'rb').read())
    exe = os.path.join(b, 'sse-' + h.hexdigest()[:16])
    if not os.path.exists(exe):
        flags = [x for x in sh(['llvm-config', '--cxxflags'])[1].split() if not x.startswith('-std') and x != '-fno-exceptions']
        libdir = sh(['llvm-config', '--libdir'])[1].strip()
        tmp = exe + '.%d' % os.getpid()
        rc, o = sh(['clang++', '-O2', '-std=c++17'] + flags + ['-fexceptions', '-w', '-o', tmp, os.path.join(V, 'engine', 'sse.cpp'), '-lLLVM-18', '-L' + libdir, '-lz3'])
        if rc: die('engine build failed\n' + o)
        os.rename(tmp, exe)
    return exe

def sources():
    mk = open(os.path.join(REPO, 'Makefile')).read().replace('\\\n', ' ')
    m = re.search(r'^SRC\s*=\s*(.*)$', mk, re.M)
    return m.group(1).split()

def build_ir(w):
    os.makedirs(w + '/m')
    def one(f):
        # without exceptions where the source allows it (throwing is then the end of the path)
        for x in (['-fno-exceptions', '-fno-rtti'], []):
            r = sh(['clang++', '-c', '-emit-llvm', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-threadsafe-statics', '-gline-tables-only', '-w'] + x + DEFS +
                  ['-o', '%s/m/%s.bc' % (w, f.replace('/', '_')), os.path.join(REPO, f)], cwd=REPO)
            if not r[0]: break
        return r
    with ThreadPoolExecutor(NCPU) as ex:
        for f, (rc, o) in zip(sources(), ex.map(one, sources())):
            if rc: die('cannot compile %s\n%s' % (f, o))
    rc, o = sh(['llvm-link'] + sorted(glob.glob(w + '/m/*.bc')) + ['-o', w + '/all0.bc'])
    if rc: die('llvm-link: ' + o)
    rc, o = sh(['clang++', '-c', '-emit-llvm', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-fno-rtti', '-w', os.path.join(V, 'rt', 'cxx.cpp'), '-o', w + '/cxx.bc'])
    if rc: die('cxx: ' + o)
    rc, o = sh(['llvm-link', '--only-needed', w + '/all0.bc', w + '/cxx.bc', '-o', w + '/all.bc'])
    if rc: die('llvm-link: ' + o)
    rc, o = sh(['opt', '-passes=function(lowerinvoke,loweratomic,sroa,early-cse,simplifycfg),globaldce', w + '/all.bc', '-o', w + '/prog.bc'])
    if rc: die('opt: ' + o)

def build_harness(w, src):
    for f, out in ((os.path.join(V, 'rt', 'rt.c'), 'rt.bc'), (src, 'h0.bc')):
        rc, o = sh(['clang', '-c', '-emit-llvm', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-builtin', '-w', '-I' + V + '/rt', '-I' + V + '/checks', f, '-o', w + '/' + out])
        if rc: die('harness: ' + o)
    rc, o = sh(['llvm-link', w + '/rt.bc', w + '/h0.bc', '-o', w + '/h1.bc'])
    if rc: die(o)
    rc, o = sh(['opt', '-passes=function(sroa,early-cse,simplifycfg)', w + '/h1.bc', '-o', w + '/harness.bc'])
    if rc: die(o)

def build_native(w, name, flags):
    d = '%s/nat_%s' % (w, name); os.makedirs(d)
    def one(f):
        return sh(['g++'] + DEFS + flags + ['-w', '-c', '-o', '%s/%s.o' % (d, f.replace('/', '_')), os.path.join(REPO, f)], cwd=REPO)
    with ThreadPoolExecutor(NCPU) as ex:
        for f, (rc, o) in zip(sources(), ex.map(one, sources())):
            if rc: die('cannot compile %s\n%s' % (f, o))
    rc, o = sh(['g++'] + flags + ['-o', d + '/spasm'] + glob.glob(d + '/*.o') + ['-lm', '-lgmp', '-lcrypto'])
    if rc: die('native link: ' + o)
    return d + '/spasm'

def build_native_harness(w, src):
    rc, o = sh(['gcc', '-O1', '-w', '-I' + V + '/rt', '-I' + V + '/checks', '-o', w + '/nharness', os.path.join(V, 'rt', 'native.c'), src])
    if rc: die('native harness: ' + o)

def write_input(path, inp):
    with open(path, 'w') as f:
        f.write('tier %d\n' % inp.get('tier', 0))
        for c in inp['choices']: f.write('choice %d\n' % c)
        for k, v in inp['bytes'].items(): f.write('byte %s %d\n' % (k, v))

_n = [0]
def native(w, exe, inp, env=None, keep=None, timeout=120):
    _n[0] += 1
    d = '%s/run%d' % (w, _n[0]); os.makedirs(d)
    ip = '%s/in%d' % (w, _n[0]); write_input(ip, inp)
    art = '%s/art%d' % (w, _n[0])
    e = dict(os.environ, VP_INPUT=ip, VP_SPASM=exe, VP_DIR=d, VP_ART=art, ASAN_OPTIONS='detect_leaks=0:exitcode=98:detect_stack_use_after_return=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0', MALLOC_PERTURB_='165')
    e.update(env or {})
    try:
        p = subprocess.run([w + '/nharness'], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        rc, out = p.returncode, p.stdout.decode('latin-1')
    except subprocess.TimeoutExpired as x:
        rc, out = 4, 'timeout\n' + (x.stdout or b'').decode('latin-1')
    arts = {}
    if os.path.exists(art):
        for l in open(art):
            k, _, h = l.rstrip('\n').partition(' ')
            arts[k] = h
        os.unlink(art)
    shutil.rmtree(d, ignore_errors=True)
    if not keep: os.unlink(ip)
    return rc, out, arts

def norm_stdout(h):
    b = bytes.fromhex(h)
    return re.sub(rb'Assembly time:[^\n]*', b'Assembly time', b)

def merge(res):
    tot = {k: 0 for k in ('paths', 'forks', 'instrs', 'queries', 'sat', 'unsat', 'unknown', 'cached', 'solver_s', 'asserts_total')}
    asserts, reach, inc, viol, fns, samples = {}, {}, {}, [], set(), []
    for r in [res['parent']] + res['results']:
        for k in tot: tot[k] += r.get(k, 0)
        for k, v in r.get('asserts', {}).items():
            a = asserts.setdefault(k, [0, 0, 0])
            for i in range(3): a[i] += v[i]
        for k, v in r.get('reach', {}).items(): reach[k] = reach.get(k, 0) + v
        for k, v in r.get('incomplete', {}).items(): inc[k] = inc.get(k, 0) + v
        viol += r.get('violations', [])
        fns |= set(r.get('functions', []))
        samples.append(r.get('samples', []))
    if res.get('skipped'): inc['cases never started (time budget)'] = res['skipped']
    return tot, asserts, reach, inc, viol, fns, samples

def main():
    pid = sys.argv[1]
    if pid == '--setup': engine(); return
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    extra = []
    args = sys.argv[2:]; verbose = False; keepw = False; only_engine = False
    while args:
        a = args.pop(0)
        if a == '--tier': tier = args.pop(0)
        elif a == '-v': verbose = True
        elif a == '-F': extra += ['-F']; verbose = True
        elif a == '--keep': keepw = True
        elif a == '--choices': extra += ['-c', args.pop(0)]
        elif a == '--replay': return replay(pid, args.pop(0))
    m = meta.CHECKS[pid]
    T = 1 if tier == 'thorough' else 0
    t0 = time.time()
    w = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    try:
        rc = check(pid, m, tier, T, seed, w, t0, extra, verbose)
    finally:
        if keepw: print('work directory', w)
        else: shutil.rmtree(w, ignore_errors=True)
    sys.exit(rc)

def replay(pid, path):
    """re-run a recorded counterexample on the current tree: exit 1 if it still fails"""
    w = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    try:
        src = os.path.join(V, 'checks', meta.CHECKS[pid].get('src', pid) + '.c')
        build_native_harness(w, src)
        inp = json.load(open(path))['inputs']
        exe = build_native(w, 'n', ['-O0', '-g'])
        rc, out, _ = native(w, exe, inp, {'VP_SHOW': '1'})
        print(out)
        if rc in (0, 5):
            exe = build_native(w, 'asan', ['-O1', '-g', '-fsanitize=address'])
            rc, out, _ = native(w, exe, inp, {'VP_SHOW': '1'}); print(out)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    sys.exit(1 if rc not in (0, 5) else 0)

def check(pid, m, tier, T, seed, w, t0, extra, verbose):
    exe = engine()
    src = os.path.join(V, 'checks', m.get('src', pid) + '.c')
    jobs = {}
    with ThreadPoolExecutor(4) as ex:
        f1 = ex.submit(build_ir, w)
        f2 = ex.submit(build_harness, w, src)
        f3 = ex.submit(build_native, w, 'n', ['-O0', '-g'])
        f4 = ex.submit(build_native_harness, w, src)
        for f in (f1, f2, f3, f4): f.result()
    nat = w + '/nat_n/spasm'
    t1 = time.time()
    budget = m.get('budget', (150, 700))[T]
    cmd = [exe, w + '/prog.bc', w + '/harness.bc', w + '/out.json', '-t', str(T), '-j', str(NCPU), '-T', str(budget)] + m.get('engine', []) + m.get('engine_thorough', []) * T + extra
    if verbose: cmd.append('-v')
    rc, o = sh(cmd)
    if verbose or rc: print(o)
    if rc: die('engine failed (%d)\n%s' % (rc, o[-3000:]))
    t2 = time.time()
    res = json.load(open(w + '/out.json'))
    tot, asserts, reach, inc, viol, fns, samples = merge(res)
    if verbose:
        for r in sorted(res['results'], key=lambda r: -r.get('wall', 0))[:12]: print('  case %s %.1fs paths %d' % (r.get('label', '?'), r.get('wall', 0), r.get('paths', 0)))
    # ---- replay
    want = set(m.get('kinds', ['assert']))
    groups = {}
    for v in viol:
        if v['kind'] == 'uninit' and 'uninit' not in want: continue
        key = (v['kind'], v['msg'] if v['kind'] != 'mem' else re.sub(r' \(.*', '', v['msg']), v['where'] if v['kind'] in ('mem', 'uninit') else '', re.sub(r'\d+$', '', v['label']) if v['kind'] == 'assert' else '')
        groups.setdefault(key, []).append(v)
    confirmed, unconfirmed, nrep = [], [], 0
    asan = None
    order = {'assert': 0, 'mem': 1, 'uninit': 1, 'incomplete': 2}
    limit = m.get('max_replays', 60)
    known = [k for k in json.load(open(V + '/known_findings.json'))['findings'] if k['property'] == pid]
    def known_of(v):
        for k in known:
            if re.search(k['msg'], v['msg']) and re.search(k.get('label', ''), v['label']) and re.search(k.get('where', ''), v['where']): return k
        return None
    for key in sorted(groups, key=lambda k: (order[k[0]], k)):
        vs = groups[key]
        ok = False
        vs = sorted(vs, key=lambda v: (known_of(v) is not None))
        for v in vs[:3 if key[0] != 'incomplete' else 1]:
            if nrep >= limit and v['kind'] != 'assert': break
            if nrep >= 2 * limit: break
            el = time.time() - t2
            if sum(known_of(x) is None for x in confirmed) >= 10 or el > 400 or (el > 120 and any(known_of(x) is None for x in confirmed)): break
            nrep += 1
            kind = v['kind']
            if kind == 'mem' and 'mem' in want:
                if 'no termination' in v['msg']:
                    r, out, _ = native(w, nat, v['inputs'], {'VP_CPU': '10'}, timeout=60)
                else:
                    if not asan: asan = build_native(w, 'asan', ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer'])
                    r, out, _ = native(w, asan, v['inputs'])
                    if r in (0, 1, 5) and not re.search('sanitizer|signal', out):
                        r2, out2, _ = native(w, nat, v['inputs'], {'VP_VALGRIND': '1'})
                        if r2 == 3: r, out = r2, out2
                hit = r in (3, 4) or 'sanitizer report' in out or 'killed by signal' in out
            elif kind == 'uninit':
                r, out, _ = native(w, nat, v['inputs'], {'VP_VALGRIND': '1'})
                hit = 'valgrind report' in out
            else:
                r, out, _ = native(w, nat, v['inputs'])
                hit = r == 1
            v['native'] = out[-2500:]
            if hit:
                confirmed.append(v); ok = True
                if known_of(v) is None: break
        if not ok and vs and 'native' in vs[0]: unconfirmed.append(vs[0])
    # ---- validation of sampled paths against the real binary
    nval, mism = 0, []
    smax = m.get('validate', (24, 200))[T]
    flat = []
    depth = max([len(s) for s in samples] or [0])
    for i in range(depth):
        for s in samples:
            if i < len(s): flat.append(s[i])
    if len(flat) > smax:
        stride = len(flat) / float(smax); flat = [flat[int(i * stride)] for i in range(smax)]
    def val(s):
        rc, out, arts = native(w, nat, s['inputs'])
        exp = dict((k, h) for k, h in s['artifacts'])
        bad = []
        for k in sorted(set(exp) | set(arts)):
            if m.get('ignore_artifacts') and re.search(m['ignore_artifacts'], k): continue
            a, b = exp.get(k), arts.get(k)
            if a is not None and b is not None and k.endswith(':stdout'):
                if norm_stdout(a) != norm_stdout(b): bad.append((k, norm_stdout(a)[:600].decode('latin-1'), norm_stdout(b)[:600].decode('latin-1')))
            elif a != b: bad.append((k, (a or 'absent')[:400], (b or 'absent')[:400]))
        return s, bad
    if not m.get('no_validate'):
        for s in flat:
            _, bad = val(s)
            nval += 1
            if bad: mism.append({'inputs': s['inputs'], 'diff': bad[:3]})
    # ---- report
    rdir = os.path.join(V, 'replays'); 
    new, kn = [], {}
    for v in confirmed:
        k = known_of(v)
        if k: kn.setdefault(k['id'], (k, v))
        else: new.append(v)
    for k, v in kn.values(): print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for kk, n in sorted(inc.items(), key=lambda x: -x[1])[:15]: print('note: incomplete x%d: %s' % (n, kk))
    for v in unconfirmed[:10]:
        if v['kind'] != 'incomplete': print('note: not confirmed on the real binary: [%s] %s label=%s at %s' % (v['kind'], v['msg'], v['label'], v['where']))
        if verbose: print(v['native'][-1500:], json.dumps(v['inputs']))
    for b in mism[:5]:
        print('note: encoding mismatch on a sampled path:', json.dumps(b)[:1500])
    missing = [l for l in m.get('reach', []) if not reach.get(l)]
    n = 0
    seen = set()
    for v in new:
        key = (v['kind'], v['msg'], v['where'] if v['kind'] != 'assert' else v['label'])
        if key in seen: continue
        seen.add(key)
        os.makedirs(rdir, exist_ok=True)
        n += 1
        path = os.path.join(rdir, '%s-%d.json' % (pid, n))
        json.dump(v, open(path, 'w'), indent=1)
        print('counterexample [%s] %s label=%s %s' % (v['kind'], v['msg'], v['label'], ('at ' + v['where']) if v['kind'] != 'assert' else ''))
        print('   ' + '\n   '.join(v['native'].strip().split('\n')[:8]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        if n >= 10: break
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot['forks'] + res['cases'] + 1,
            'transitions': tot['instrs'],
            'traces_validated_against_impl': nval - len(mism),
            'samples': [dict(inputs=s['inputs'], predicted={k: h[:200] for k, h in s['artifacts']}) for s in flat[:3]],
            'rule': 'states: symbolic states (case splits and forks); transitions: LLVM IR instructions executed symbolically; paths: completed symbolic paths',
            'paths': tot['paths'], 'cases': res['cases'],
            'assertion_instances': tot['asserts_total'],
            'assertions': {k: {'instances': a[0], 'decided_by_query': a[1], 'decided_by_simplification': a[2]} for k, a in sorted(asserts.items())},
            'solver': {'name': 'Z3 4.8.12 (QF_BV)', 'queries': tot['queries'], 'sat': tot['sat'], 'unsat': tot['unsat'], 'unknown': tot['unknown'], 'cache_hits': tot['cached'], 'seconds': round(tot['solver_s'], 2)},
            'functions_encoded': sorted(demangle(fns)),
            'functions_encoded_count': len(fns),
            'reach': reach, 'bounds': m['bounds'], 'incomplete': inc,
            'counterexamples': {'reported_by_engine': len(viol), 'replayed_natively': nrep, 'confirmed': len(confirmed), 'not_confirmed': len([u for u in unconfirmed if u['kind'] != 'incomplete'])},
            'encoding_mismatches': mism[:5],
            'unreached_witnesses': missing,
            'ir_build_s': round(t1 - t0, 2), 'engine_s': round(t2 - t1, 2),
        },
        'assumptions': m.get('assumptions', []) + meta.COMMON,
        'wall_s': round(time.time() - t0, 2), 'violations': n,
    }
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(V + '/evidence/%s.json' % pid, 'w'), indent=1)
    print('%s: %s; %d cases, %d paths, %d assertion instances, %d solver queries (%.1f s), %d/%d sampled paths agree with the real binary, %.1f s' % (
        pid, 'VIOLATED' if n else 'held on everything explored', res['cases'], tot['paths'], tot['asserts_total'], tot['queries'], tot['solver_s'], nval - len(mism), nval, time.time() - t0))
    if missing and not n and not new:
        print('note: witnesses not reached: ' + ', '.join(missing))
        if tot['asserts_total'] == 0: die('vacuous run: no assertion reached')
    return 1 if n else 0

def demangle(fns):
    fns = list(fns)
    if not fns: return []
    p = subprocess.run(['c++filt'], input='\n'.join(fns).encode(), stdout=subprocess.PIPE)
    return [x for x in p.stdout.decode().split('\n') if x and not x.startswith('std::') and not x.startswith('__gnu_cxx') and 'std::' not in x]

if __name__ == '__main__': main()
