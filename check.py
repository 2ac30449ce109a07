#!/usr/bin/env python3-vt
"""Runs one property's check:  check.py <ID> [quick|thorough]

1. the contract translation units of the property (props/<ID>/*.cc, which #include the real sources of /repo) are compiled to LLVM IR from
   /repo's current tree, and the verifier (engine/) generates and discharges every obligation of every contract harness;
2. the property's native driver (histories against a reference model, sanitizers on) runs as a bounded supplement and as the search for a
   concrete failing input when an obligation fails;
3. a failing obligation's counterexample is replayed natively against the real code.
exit 0: held; exit 1 + VIOLATION line: broken; exit 2: no answer.
"""
import sys, os, json, time, subprocess, tempfile, shutil, multiprocessing, traceback, hashlib, re, glob, signal
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + '/engine')
import build
REPO = build.REPO
CXX = build.CLANG
ABSL = None

def absl_libs():
    return ['-Wl,--start-group'] + sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.a')) + ['-Wl,--end-group', '-lpthread']

def incs(mode):
    """include path: 'real' = the distribution's abseil; 'shim' = plus stand-ins for headers missing from it; 'model' = verification models"""
    d = [V + '/include']
    if mode == 'shim': d.append(V + '/shim')
    if mode == 'model': d += [V + '/model', V + '/shim']
    return d

def run(cmd, timeout, cwd=None, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', cwd=cwd, env=env, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.communicate()
        return -999, 'TIMEOUT after %ds' % timeout

# ---------------------------------------------------------------- jobs in worker processes
def job_ir(work, c):
    out = os.path.join(work, c['key'] + '.ll')
    try:
        build.emit_ir(c['path'], out, incs(c.get('mode', 'real')), c.get('flags', []) + mode_flags(c.get('mode', 'real')))
        return {'ok': True, 'out': out}
    except build.BuildError as e:
        return {'ok': False, 'err': str(e)}

def mode_flags(mode):
    if mode == 'model': return ['-include', V + '/model/vp_prelude.h']
    if mode == 'shim': return ['-include', V + '/shim/shim_prelude.h']
    return []

SAN = ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function,alignment,object-size,nonnull-attribute', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']

def job_native(work, c):
    """native build of a contract TU for replay"""
    out = os.path.join(work, c['key'] + '.native')
    base = [CXX, '-std=c++17', '-include', 'cstdint', '-fno-access-control', '-fwrapv', '-w'] + SAN
    cmd = base + mode_flags(c.get('mode', 'real')) + c.get('flags', []) + sum([['-I', i] for i in incs(c.get('mode', 'real'))], []) + ['-I', REPO, '-c', c['path'], '-o', out + '.o']
    rc, o = run(cmd, 300)
    if rc == 0: rc, o = run(base + ['-I', V + '/include', '-c', V + '/native/vp_native.cc', '-o', out + '.rt.o'], 300)
    if rc == 0: rc, o = run(base + [out + '.o', out + '.rt.o', '-o', out] + absl_libs(), 300)
    return {'ok': rc == 0, 'out': out, 'err': o[-3000:]}

def job_driver(work, d):
    out = os.path.join(work, d['key'] + '.drv')
    san = SAN if d.get('san', True) else ['-O1', '-g']
    base = [CXX, '-std=c++17', '-include', 'cstdint', '-fno-access-control', '-w'] + san + mode_flags(d.get('mode', 'real')) + d.get('flags', []) + \
        sum([['-I', i] for i in incs(d.get('mode', 'real'))], []) + ['-I', REPO]
    srcs = [d['path']] + [os.path.join(REPO, s) for s in d.get('sources', [])]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(6) as ex:
        rs = list(ex.map(lambda t: run(base + ['-c', t[1], '-o', '%s.%d.o' % (out, t[0])], 400), enumerate(srcs)))
    for rc, o in rs:
        if rc: return {'ok': False, 'out': out, 'err': o[-4000:]}
    rc, o = run([CXX] + san + ['%s.%d.o' % (out, i) for i in range(len(srcs))] + ['-o', out] + absl_libs() + d.get('libs', []), 400)
    return {'ok': rc == 0, 'out': out, 'err': o[-4000:]}

def job_driver_run(work, d, exe, tier, seed):
    secs = d.get('quick_s', 6) if tier == 'quick' else d.get('thorough_s', 90)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=%d:alloc_dealloc_mismatch=1:abort_on_error=0:allocator_may_return_null=1:hard_rss_limit_mb=12000' % (1 if d.get('leaks', True) else 0), UBSAN_OPTIONS='print_stacktrace=1')
    t0 = time.time()
    rc, o = run([exe, str(seed), str(secs), tier], secs * 4 + 200, cwd=work, env=env)
    return {'rc': rc, 'out': o[-8000:], 't': time.time() - t0, 'cmd': [exe, str(seed), str(secs), tier]}

def job_harness(ll, h, opts, deadline, thorough, end=None):
    import sym
    from irparse import Module
    t0 = time.time()
    m = Module(open(ll).read())
    o = {'witness': True, 'deadline': min(time.time() + deadline, end or 1e18)}
    o.update(opts)
    e = sym.Engine(m, o)
    smt = []
    if thorough:
        import z3
        def oracle(pc, neg, ob):
            s = z3.Solver(); s.add(list(pc)); s.add(neg)
            smt.append((len(e.obls), s.to_smt2()))
        e.oracle = oracle
    err = None
    try: e.run_harness(h)
    except sym.Undecided as u: err = 'undecided: %s' % u
    except RecursionError: err = 'undecided: recursion'
    except Exception as x:
        err = 'engine error: %s' % ''.join(traceback.format_exception(x))[-1500:]
    cross = {'confirmed': 0, 'unknown': 0, 'disagree': []}
    if thorough:
        for i, txt in smt:
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write('(set-logic ALL)\n' + txt)
            rc, out = run(['cvc5', '--tlimit=20000', f.name], 40)
            os.unlink(f.name)
            r = out.strip().split('\n')[-1] if out.strip() else ''
            if r == 'unsat': cross['confirmed'] += 1
            elif r == 'sat': cross['disagree'].append(i)
            else: cross['unknown'] += 1
    return {'h': h, 'err': err, 't': time.time() - t0,
            'obls': [{'label': x.label, 'kind': x.kind, 'loc': x.loc, 'status': x.status, 'model': x.model, 'approx': list(x.approx), 't': x.t, 'backend': x.backend} for x in e.obls],
            'covers': {k[1]: v for k, v in e.covers.items()}, 'witness': {k[1]: v for k, v in e.witness.items() if v},
            'funcs': {k: v for k, v in e.funcs_seen.items()}, 'stats': e.stats, 'bounded': sorted(e.bounded), 'notes': sorted(e.notes), 'cross': cross, 'loops': e.stats.get('loops', 0)}

def worker(conn, fn, args):
    try: conn.send(fn(*args))
    except BaseException as x:
        try: conn.send({'ok': False, 'crash': ''.join(traceback.format_exception(x))[-2000:], 'err': 'crash: %r' % x})
        except Exception: pass
    conn.close()

class Pool:
    def __init__(self, n): self.n = n
    def map(self, jobs, end=None):
        """jobs: list of (fn, args, timeout) -> results in order (None when the worker died or timed out, or the time was over before it started)"""
        res = [None] * len(jobs); run_ = {}; nxt = 0
        ctx = multiprocessing.get_context('fork')
        while nxt < len(jobs) or run_:
            while nxt < len(jobs) and len(run_) < self.n:
                fn, args, to = jobs[nxt]
                if end is not None and time.time() > end: nxt += 1; continue
                a, b = ctx.Pipe(False)
                p = ctx.Process(target=worker, args=(b, fn, args)); p.start(); b.close()
                run_[nxt] = (p, a, time.time() + to); nxt += 1
            for i in list(run_):
                p, a, dl = run_[i]
                if a.poll(0):
                    try: res[i] = a.recv()
                    except EOFError: res[i] = None
                    p.join(); del run_[i]
                elif not p.is_alive():
                    del run_[i]
                elif time.time() > dl:
                    p.kill(); p.join(); del run_[i]
            time.sleep(0.01)
        return res

def write_inputs(path, model):
    with open(path, 'w') as f:
        for it in model:
            if it[0] == 'any': f.write('any %s %d %d\n' % (it[1], it[2], it[3]))
            elif it[0] == 'region': f.write('region %s %d %d %d %s\n' % (it[1], it[2], it[3], len(it[4]), ' '.join(('%0' + str(2 * it[2]) + 'x') % v for v in it[4])))

def demangle(names):
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        return p.stdout.split('\n')
    except Exception: return list(names)

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = '-v' in sys.argv
    t0 = time.time()
    P = os.path.join(V, 'props', pid)
    cfg = json.load(open(P + '/prop.json'))
    work = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    try:
        rc = check(pid, tier, seed, P, cfg, work, t0, verbose)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def check(pid, tier, seed, P, cfg, work, t0, verbose):
    pool = Pool(8)
    contracts = cfg.get('contracts', []) if os.environ.get('VP_ONLY') != 'driver' else []; drivers = cfg.get('drivers', [])
    for i, c in enumerate(contracts): c['path'] = os.path.join(P, c['src']); c['key'] = 'c%d' % i
    for i, d in enumerate(drivers): d['path'] = os.path.join(P, d['src']); d['key'] = 'd%d' % i
    jobs = [(job_ir, (work, c), 300) for c in contracts] + [(job_native, (work, c), 320) for c in contracts] + [(job_driver, (work, d), 420) for d in drivers]
    res = pool.map(jobs)
    n = len(contracts)
    irs = res[:n]; nat = res[n:2 * n]; drv = res[2 * n:]
    undecided = []; failures = []; harness = []
    from irparse import Module
    hj = []
    budget = cfg.get('harness_s', 240) if tier == 'quick' else cfg.get('harness_thorough_s', 1500)
    meta = []
    end = t0 + cfg.get('total_s', 640) if tier == 'quick' else None      # the answer comes within the time limit of a check whatever the source looks like
    for c, r in zip(contracts, irs):
        if not r or not r.get('ok'):
            undecided.append({'what': 'contract unit %s no longer compiles against the current source' % c['src'], 'detail': (r or {}).get('err', 'crash')[:1500]})
            continue
        names = re.findall(r'^define [^\n]*@(vp_[hb]_\w+)\(', open(r['out']).read(), re.M)
        declared = sorted(set(re.findall(r'VP_(?:HARNESS|BOUNDED)\((\w+)\)', open(c['path']).read())))
        c['nh'] = len(names)
        for h in names:
            o = dict(c.get('opts', {}).get('*', {})); o.update(c.get('opts', {}).get(h[5:], {}))
            if h.startswith('vp_b_'): o.setdefault('on_bound', 'cut')
            hj.append((job_harness, (r['out'], h, o, budget, tier == 'thorough', end), budget * (3 if tier == 'thorough' else 1) + 60)); meta.append((c, h))
    dj = [(job_driver_run, (work, d, r['out'], tier, seed), 4000) for d, r in zip(drivers, drv) if r and r.get('ok')]
    dm = [d for d, r in zip(drivers, drv) if r and r.get('ok')]
    for d, r in zip(drivers, drv):
        if not r or not r.get('ok'):
            undecided.append({'what': 'native driver %s does not build against the current source' % d['src'], 'detail': (r or {}).get('err', 'crash')[-1500:]})
    out = pool.map(dj + hj, end)
    dres = out[:len(dj)]; hres = out[len(dj):]

    obl = dis = bobl = bdis = 0
    stats = {'queries': 0, 'solver_s': 0.0, 'maxq': 0.0, 'loops': 0, 'paths': 0, 'merges': 0}
    funcs = {}; covers = 0; vac = []; bounded_notes = set(); cross = {'confirmed': 0, 'unknown': 0, 'disagree': 0}; backends = {}
    per = []; wit_jobs = []
    for (c, h), r in zip(meta, hres):
        if r is None or 'obls' not in (r or {}):
            undecided.append({'what': 'harness %s: verifier ran out of time or memory' % h, 'detail': (r or {}).get('crash', '')}); continue
        isb = h.startswith('vp_b_') or bool(r['bounded'])
        good = sum(1 for o in r['obls'] if o['status'] == 'proved')
        if isb: bobl += len(r['obls']); bdis += good
        else: obl += len(r['obls']); dis += good
        bounded_notes |= set('%s: %s' % (h[5:], b) for b in r['bounded'])
        for k in ('queries', 'solver_s', 'paths', 'merges', 'loops'): stats[k] += r['stats'].get(k, 0)
        stats['maxq'] = max(stats['maxq'], r['stats'].get('maxq', 0))
        for o in r['obls']:
            if o['status'] == 'proved': backends[o['backend']] = backends.get(o['backend'], 0) + 1
        funcs.update(r['funcs'])
        for k in ('confirmed', 'unknown'): cross[k] += r['cross'][k]
        cross['disagree'] += len(r['cross']['disagree'])
        if r['err']: undecided.append({'what': 'harness %s: %s' % (h, r['err'].split('\n')[0][:300]), 'detail': r['err'][-1200:]})
        if not r['obls'] and not r['err']: undecided.append({'what': 'harness %s generated no obligation' % h, 'detail': ''})
        for k, v in r['covers'].items():
            if v == 'sat': covers += 1
            elif v == 'unsat':
                vac.append('%s/%s' % (h, k))
        for o in r['obls']:
            if o['status'] == 'failed' and not o['approx']: failures.append((c, h, o))
            elif o['status'] != 'proved':
                undecided.append({'what': 'harness %s: obligation "%s" at %s not discharged (%s)' % (h, o['label'], o['loc'], 'invariant too weak: ' + str(o['approx'])[:200] if o['approx'] else o['status']), 'detail': ''})
        for k, m in r['witness'].items(): wit_jobs.append((c, h, k, m))
        per.append({'harness': h[5:], 'bounded': isb, 'obligations': len(r['obls']), 'discharged': good, 'time_s': round(r['t'], 2), 'loops_by_invariant': r['loops']})
        if verbose: print('  %-40s obls %3d/%3d %6.2fs covers %s %s' % (h, good, len(r['obls']), r['t'], r['covers'], r['err'].split('\n')[0][:200] if r['err'] else ''))
    for v in vac: undecided.append({'what': 'precondition of %s is unsatisfiable on this source' % v, 'detail': ''})
    # ---- replay of witnesses of the covers (checks that harness, engine and native code agree)
    natmap = {c['key']: r for c, r in zip(contracts, nat)}
    def native_run(c, h, model, tag):
        r = natmap.get(c['key'])
        if not r or not r.get('ok') or model is None: return None, 'no native build: %s' % ((r or {}).get('err', '')[-300:])
        f = os.path.join(work, 'in_%s' % tag); write_inputs(f, model)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:alloc_dealloc_mismatch=0:abort_on_error=0:allocator_may_return_null=1:hard_rss_limit_mb=12000')
        return run([r['out'], h, f], 60, env=env)
    wit_ok = wit_div = 0; wit_bad = []; wit_mis = []
    for i, (c, h, k, m) in enumerate(wit_jobs):
        rc, o = native_run(c, h, m, 'w%d' % i)
        if rc in (0, 79): wit_ok += 1
        elif rc in (77, 78, 80, None, -999): wit_div += 1
        elif c.get('whitebox'): wit_div += 1; wit_mis.append('%s/%s' % (h, k))
        else: wit_bad.append((c, h, k, m, rc, o))
        if verbose and rc not in (0, 79): print('  witness %s/%s rc=%s %s' % (h, k, rc, (o or '')[-300:]))
    # ---- verdict
    viol = []     # (replay dict, concrete?)
    seen = set()
    known = load_known(pid)
    khit = []
    for c, h, o in failures:
        key = (h, o['label'], o['kind'])
        if key in seen: continue
        seen.add(key)
        ident = '%s/%s' % (h[5:], o['label'])
        kn = [k for k in known if k['match'] in ident]
        if kn: khit.append((kn[0], ident)); continue
        rc, out_ = native_run(c, h, o['model'], 'f%d' % len(seen))
        conc = rc is not None and rc not in (0, 77, 78, 79, 80, -999) and not c.get('whitebox')
        viol.append(({'property': pid, 'obligation': o['label'], 'kind': o['kind'], 'harness': h, 'location': o['loc'], 'inputs': o['model'], 'contract_unit': 'props/%s/%s' % (pid, c['src']),
                      'verifier': 'obligation refuted by z3: the path condition and the negated obligation are satisfiable',
                      'native_replay': {'rc': rc, 'output': (out_ or '')[-3000:]}, 'reproduce': 'python3-vt /verif/check.py %s %s' % (pid, tier)}, conc))
    for c, h, k, m, rc, o in wit_bad:
        # the native code fails on an input the engine considers fine: trust the concrete run
        viol.append(({'property': pid, 'obligation': 'native execution of witness %s' % k, 'harness': h, 'inputs': m, 'native_replay': {'rc': rc, 'output': (o or '')[-3000:]}}, True))
    dcases = 0; ddist = 0; dsamples = []; dran = 0
    for d, r in zip(dm, dres):
        if r is None: undecided.append({'what': 'driver %s crashed the runner' % d['src'], 'detail': ''}); continue
        m = re.search(r'^CASES (\d+) DISTINCT (\d+)', r['out'], re.M)
        if m: dcases += int(m.group(1)); ddist += int(m.group(2)); dran += 1
        dsamples += re.findall(r'^SAMPLE (.*)$', r['out'], re.M)[:3]
        if verbose: print('  driver %s rc=%s %.1fs %s' % (d['src'], r['rc'], r['t'], r['out'][-300:].strip()))
        if r['rc'] == -999: undecided.append({'what': 'driver %s timed out' % d['src'], 'detail': ''})
        elif r['rc'] != 0:
            tag = re.search(r'^FAIL (.*)$', r['out'], re.M)
            ident = 'driver/' + (tag.group(1) if tag else 'crash')
            kn = [k for k in known if k['match'] in ident]
            if kn: khit.append((kn[0], ident)); continue
            viol.append(({'property': pid, 'obligation': ident[:400], 'driver': 'props/%s/%s' % (pid, d['src']), 'seed': seed, 'tier': tier,
                          'native_replay': {'rc': r['rc'], 'output': r['out'][-6000:]}, 'reproduce': 'VERIF_SEED=%d python3-vt /verif/check.py %s %s' % (seed, pid, tier)}, True))
    ok_unchanged = not undecided
    repo_funcs = {k: v for k, v in funcs.items() if v and v[0] and v[0].startswith(REPO + '/')}
    dm_names = demangle(sorted(repo_funcs))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {
              'obligations': obl, 'discharged': dis, 'checker_cmd': 'python3-vt /verif/check.py %s %s' % (pid, tier),
              'trusted_base': cfg.get('trusted', []) + ['clang 18 front end and the opt passes sroa, early-cse, simplifycfg, instcombine, loop-simplify, lcssa (they produce the IR the obligations come from)',
                                                        'the verifier /verif/engine (IR semantics, memory model, loop rule) and the SMT solver z3 (%s)' % z3ver()],
              'backends': backends, 'functions_under_contract': [re.sub(r'\s+', ' ', x) for x in dm_names if x][:400], 'n_functions_under_contract': len(repo_funcs),
              'harnesses': per, 'loops_proved_by_invariant': stats['loops'], 'solver_queries': stats['queries'], 'solver_s': round(stats['solver_s'], 2), 'slowest_query_s': round(stats['maxq'], 2),
              'vacuity_covers_satisfied': covers, 'cover_witnesses_replayed_natively': wit_ok, 'cover_witnesses_not_replayable': wit_div, 'cover_witnesses_mismatching': wit_mis,
              'bounded_obligations': bobl, 'bounded_discharged': bdis, 'bounds': sorted(bounded_notes) + cfg.get('bounds', []),
              'undecided': undecided[:50],
              'native_cases': dcases, 'native_distinct': ddist, 'native_samples': dsamples[:6]},
          'assumptions': cfg.get('assumptions', []) + ['termination is not proved; loop trip counts below 2^40; allocation never fails; objects do not straddle the address-space end'],
          'wall_s': 0, 'violations': len(viol)}
    if tier == 'thorough':
        ev['coverage']['cvc5_confirmed'] = cross['confirmed']; ev['coverage']['cvc5_no_answer'] = cross['unknown']; ev['coverage']['cvc5_disagreements'] = cross['disagree']
        if cross['disagree']: undecided.append({'what': 'solvers disagree', 'detail': ''})
    os.makedirs(V + '/evidence/replay', exist_ok=True)
    ev['wall_s'] = round(time.time() - t0, 2)
    json.dump(ev, open(V + '/evidence/%s.json' % pid, 'w'), indent=1)
    for k, ident in khit:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for u in undecided[:20]: print('undecided: %s' % u['what'])
    if verbose:
        for u in undecided[:6]: print(u['detail'][:1500])
    print('%s %s: obligations %d/%d discharged, bounded %d/%d, undecided items %d, native cases %d, functions under contract %d, %.1fs' % (pid, tier, dis, obl, bdis, bobl, len(undecided), dcases, len(repo_funcs), time.time() - t0))
    if viol:
        viol.sort(key=lambda x: not x[1])
        rp = V + '/evidence/replay/%s.json' % pid
        json.dump({'violations': [dict(v, concrete=c) for v, c in viol[:20]]}, open(rp, 'w'), indent=1)
        v, conc = viol[0]
        print('failed obligation: %s (%s) %s' % (v['obligation'], v.get('harness', v.get('driver')), v.get('location', '')))
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if conc else ' no-failing-input-found'))
        return 1
    if dran == 0 and obl + bobl == 0:
        print('no answer: neither the contracts nor the driver could be built'); return 2
    return 0

def z3ver():
    import z3
    return z3.get_version_string()

def load_known(pid):
    out = []
    try:
        for l in open(V + '/known_findings.txt'):
            m = re.match(r'known: property=(\S+) match=\[(.*?)\] (.*)', l)
            if m and m.group(1) == pid: out.append({'match': m.group(2), 'what': m.group(3).strip()})
    except FileNotFoundError: pass
    return out

if __name__ == '__main__': main()
