"""Check of one property: discharge every obligation generated from /repo's current source, replay against the
real code, write the evidence file and decide the exit code."""
import importlib, json, multiprocessing as mp, os, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NMPCV_REPO', '/repo')
TECH = 'contract-based deductive verification (own VC generator over the clang AST of the real code, z3; cvc5 cross-check in thorough)'

INC = {
    'ddp': ['nmpc_ddp/include'],
    'fmpc': ['nmpc_fmpc/include', 'nmpc_ddp/include'],
    'cgmres': ['nmpc_cgmres/include', 'nmpc_cgmres/src'],
}
ASAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS', '-g1']
# property -> replay harnesses: (source, include set, flags, quick cases, thorough cases)
ND = ['-DNDEBUG']
HARNESS = {
    'C01': [('ddp.cpp', 'ddp', ND, 30000, 1000000)],
    'C02': [('ddp.cpp', 'ddp', ND, 30000, 1000000)],
    'C03': [('ddp.cpp', 'ddp', ND, 30000, 1000000), ('ddp_gain.cpp', 'ddp', ND, 30000, 1000000)],
    'C04': [('ddp_gain.cpp', 'ddp', ND, 40000, 2000000)],
    'C05': [('ddp.cpp', 'ddp', ND, 30000, 1000000), ('ddp_gain.cpp', 'ddp', ND, 30000, 1000000)],
    'C06': [('boxqp.cpp', 'ddp', ND, 200000, 10000000)],
    'C07': [('boxqp.cpp', 'ddp', ND, 200000, 10000000)],
    'C08': [('boxqp.cpp', 'ddp', ND, 200000, 10000000)],
    'C09': [('fmpc_probe.cpp', 'fmpc', ND, 40000, 2000000), ('fmpc.cpp', 'fmpc', ND, 20000, 500000)],
    'C10': [('fmpc.cpp', 'fmpc', ND, 40000, 1000000)],
    'C11': [('fmpc_probe.cpp', 'fmpc', ND, 40000, 1000000), ('fmpc.cpp', 'fmpc', ND, 20000, 500000)],
    'C12': [('ddp.cpp', 'ddp', ASAN, 8000, 400000), ('fmpc.cpp', 'fmpc', ASAN, 8000, 400000)],
    'C13': [('fmpc_probe.cpp', 'fmpc', ND, 40000, 1000000), ('fmpc.cpp', 'fmpc', ND, 20000, 500000)],
    'C14': [('gmres.cpp', 'cgmres', ND, 100000, 5000000)],
    'C15': [('cgmres.cpp', 'cgmres', ND, 40000, 2000000)],
    'C16': [('ode.cpp', 'cgmres', ND, 100000, 5000000)],
    'C17': [('ddp.cpp', 'ddp', ND, 20000, 500000), ('fmpc.cpp', 'fmpc', ND, 20000, 500000), ('boxqp.cpp', 'ddp', ND, 100000, 3000000)],
    'C18': [('fmpc_probe.cpp', 'fmpc', ND, 40000, 1000000), ('fmpc.cpp', 'fmpc', ND, 20000, 500000)],
}


def now():
    return time.time()


def worker(pid, si, key, q, cross):
    """verify one contract in its own process"""
    res = dict(spec=si, key=key, obls=[], error=None, notes=[], trusted=[], inlined=[], loops=[], fn=None, stats={})
    t0 = now()
    try:
        import z3
        from . import spec as sp, prove as pv
        if cross:
            pv.CROSS = True
        m = importlib.import_module('nmpcv.props.' + pid.lower())
        S = (m.SPEC if isinstance(m.SPEC, (list, tuple)) else [m.SPEC])[si]
        s = S()
        v = sp.Verifier(FRONTS[s.unit], s, pid)
        con = s.contracts[key]
        f = v.find(con.key, con.np, con.pick)
        if f is None:
            res['error'] = f'function {con.key} not found in the current source'
        else:
            try:
                v.run_verify(f, con)
                res['fn'] = v.under_contract.get(f.key)
            except sp.Unsupported as e:
                res['error'] = 'outside the supported dialect: ' + str(e)[:300]
            for o in v.obls:
                d = dict(name=o.name, fn=o.fn, line=o.line, tag=o.tag, ok=bool(o.res))
                if not o.res:
                    d['why'] = o.res.why
                    d['unknown'] = bool(o.res.unknown)
                    d['formula'] = str(o.formula)[:3000]
                    try:
                        d['model'] = str(o.res.model)[:4000] if o.res.model is not None else ''
                    except Exception:
                        d['model'] = ''
                res['obls'].append(d)
            res['notes'] = v.notes
            res['trusted'] = sorted(v.trusted)
            res['inlined'] = sorted(v.inlined)
            res['loops'] = [dict(fn=l['fn'], line=l['line'], candidates=l['cands'], kept=l['kept'], time_s=l['t']) for l in v.loops]
        st = pv.STATS
        res['stats'] = dict(queries=st.queries, solver_s=round(st.time, 2), unknown=st.unknown, cvc5=st.cvc5, cvc5_s=round(st.cvc5_time, 2),
                            cvc5_disagree=len(st.cvc5_disagree), cvc5_results=dict(pv.CROSS_RES))
    except Exception as e:
        res['error'] = 'internal: ' + repr(e)[:300] + ' ' + traceback.format_exc()[-1500:]
    res['wall'] = round(now() - t0, 1)
    q.put(res)


FRONTS = {}


def proofs(pid, work, deadline, cross, log):
    from .front import Front
    try:
        m = importlib.import_module('nmpcv.props.' + pid.lower())
    except ModuleNotFoundError:
        return []
    specs = m.SPEC if isinstance(m.SPEC, (list, tuple)) else [m.SPEC]
    jobs = []
    for si, S in enumerate(specs):
        s = S()
        if s.unit not in FRONTS:
            FRONTS[s.unit] = Front(s.unit, work)
        for key, con in s.contracts.items():
            if con.do_verify:
                jobs.append((si, key, con))
    jobs.sort(key=lambda j: -j[2].cost)
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    run, results, pend = {}, [], list(jobs)
    ncpu = min(8, os.cpu_count() or 4)
    while pend or run:
        while pend and len(run) < ncpu:
            si, key, con = pend.pop(0)
            p = ctx.Process(target=worker, args=(pid, si, key, q, cross))
            p.start()
            run[(si, key)] = p
        try:
            r = q.get(timeout=1.0)
            results.append(r)
            p = run.pop((r['spec'], r['key']))
            p.join(5)
            log(f"  [{r['wall']:6.1f}s] {r['key']}: {sum(o['ok'] for o in r['obls'])}/{len(r['obls'])} obligations" + (f" ({r['error'][:160]})" if r['error'] else ''))
        except Exception:
            for k, p in list(run.items()):
                if not p.is_alive() and q.empty():
                    time.sleep(0.3)
                    if q.empty():
                        run.pop(k)
                        results.append(dict(spec=k[0], key=k[1], obls=[], error='verifier process died', notes=[], trusted=[], inlined=[], loops=[], fn=None, stats={}, wall=0))
        if now() > deadline:
            for k, p in run.items():
                p.kill()
                results.append(dict(spec=k[0], key=k[1], obls=[], error='time budget exhausted', notes=[], trusted=[], inlined=[], loops=[], fn=None, stats={}, wall=0))
            for si, key, con in pend:
                results.append(dict(spec=si, key=key, obls=[], error='time budget exhausted', notes=[], trusted=[], inlined=[], loops=[], fn=None, stats={}, wall=0))
            break
    return results


def start_builds(pid, work):
    out = []
    for n, (src, inc, flags, cq, ct) in enumerate(HARNESS.get(pid, [])):
        exe = os.path.join(work, f'h{n}')
        cmd = ['g++', '-std=c++17', '-O1', '-w', '-I/usr/include/eigen3', f'-I{VERIF}/harness'] + [f'-I{REPO}/{d}' for d in INC[inc]] + list(flags) \
            + [f'-DREPO_DIR="{REPO}"', os.path.join(VERIF, 'harness', src), '-o', exe]
        lg = open(exe + '.log', 'w')
        out.append((src, exe, cmd, subprocess.Popen(cmd, stdout=lg, stderr=lg), cq, ct))
    return out


def run_harness(pid, builds, tier, seed, deadline, log):
    res = []
    for src, exe, cmd, p, cq, ct in builds:
        p.wait()
        r = dict(source='harness/' + src, built=p.returncode == 0, cases=0, fail=None, build_cmd=' '.join(cmd))
        if not r['built']:
            r['build_log'] = open(exe + '.log').read()[-3000:]
            log(f'  replay harness {src} does not build against the current tree')
            res.append(r)
            continue
        n = ct if tier == 'thorough' else cq
        # split over processes; each uses its own seed
        k = 4 if n >= 4000 else 1
        procs = []
        for j in range(k):
            a = [exe, pid, str(seed * 100 + j), str(n // k)]
            procs.append((a, subprocess.Popen(a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')))
        for a, pr in procs:
            try:
                o, e = pr.communicate(timeout=max(5, deadline - now()))
            except subprocess.TimeoutExpired:
                pr.kill()
                o, e = pr.communicate()
                r['timeout'] = True
                continue
            m = re.search(r'OK cases=(\d+)', o)
            if m:
                r['cases'] += int(m.group(1))
                continue
            m = re.search(r'FAIL case=(\d+) seed=(\d+) (.*)', o, re.S)
            if r['fail'] is None:
                if m:
                    r['fail'] = dict(case=int(m.group(1)), seed=int(m.group(2)), what=m.group(3).strip()[:2000], argv=a[1:], stderr=e[-2000:])
                elif pr.returncode not in (0, None):
                    r['fail'] = dict(case=None, seed=int(a[2]), what=f'harness ended with status {pr.returncode}: ' + (o + e)[-1500:], argv=a[1:])
        log(f"  replay harness {src}: {r['cases']} cases" + (f" FAIL {r['fail']['what'][:200]}" if r['fail'] else ''))
        res.append(r)
    return res


def replay_cmd(src, fail, cmd):
    return f"{cmd.replace(' -o ' + cmd.split(' -o ')[1], ' -o /tmp/replay')} && /tmp/replay {' '.join(fail['argv'])}" + (f" {fail['case']}" if fail.get('case') is not None else '')


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = now()
    budget = 780 if tier == 'quick' else 3 * 3600
    work = tempfile.mkdtemp(prefix='nmpcv_')
    log = lambda s: print(s, flush=True)
    log(f'{pid} ({tier}): verifying {REPO}')
    try:
        builds = start_builds(pid, work)
        try:
            pr = proofs(pid, work, t0 + (budget * 0.88), tier == 'thorough', log)
            fe = None
        except Exception as e:
            pr, fe = [], repr(e)[:500] + traceback.format_exc()[-800:]
            log('  front end: ' + fe[:300])
        hr = run_harness(pid, builds, tier, seed, t0 + budget, log)
        return decide(pid, tier, seed, t0, pr, fe, hr, log)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, tier, seed, t0, pr, fe, hr, log):
    obls = [o for r in pr for o in r['obls']]
    failed = [o for o in obls if not o['ok']]
    refuted = [o for o in failed if not o.get('unknown')]
    undecided = [dict(contract=r['key'], reason=r['error']) for r in pr if r['error']]
    undecided += [dict(obligation=o['name'], reason=o['why']) for o in failed if o.get('unknown')]
    if fe:
        undecided.append(dict(contract='front end', reason=fe))
    vac = [n for r in pr for n in r['notes'] if 'VACUOUS' in n]
    undecided += [dict(contract='vacuity', reason=n) for n in vac]
    hfail = [r for r in hr if r['fail']]
    hok = [r for r in hr if r['built'] and not r['fail']]
    viol = []
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, f'{pid}-{tier}.json')
    lines = []
    if hfail:
        r = hfail[0]
        d = dict(property=pid, kind='failing input replayed on the real code', harness=r['source'], failure=r['fail'],
                 reproduce=replay_cmd(r['source'], r['fail'], r['build_cmd']), failed_obligations=failed[:20])
        json.dump(d, open(rp, 'w'), indent=1)
        viol.append(d['failure'])
        lines.append(f'VIOLATION property={pid} replay={rp}')
    elif refuted:
        d = dict(property=pid, kind='failed proof obligation', failed_obligations=refuted[:20], searched=[dict(harness=r['source'], cases=r['cases']) for r in hr],
                 note='the verifier refutes these obligations (its model is attached); no concrete failing input was found by the replay harness')
        json.dump(d, open(rp, 'w'), indent=1)
        viol.append([o['name'] for o in refuted[:20]])
        for o in refuted[:5]:
            log(f"  failed obligation: {o['name']} ({o['fn']}:{o['line']})")
        lines.append(f'VIOLATION property={pid} replay={rp} no-failing-input-found')
    tb = sorted({t for r in pr for t in r['trusted']})
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', coverage=dict(
        obligations=len(obls), discharged=sum(o['ok'] for o in obls),
        checker_cmd='z3 (libz3, python3-vt) on ground SMT queries' + ('; cvc5 re-decides each query' if tier == 'thorough' else ''),
        trusted_base=tb + ['clang 18 JSON AST of the current source', 'nmpcv VC generator (terms.py normal form of Eigen expressions, engine/evalx semantics, loop rule)', 'z3'],
        functions_under_contract=sorted({f"{r['key']} ({os.path.basename((r['fn'] or {}).get('file') or '?')}:{(r['fn'] or {}).get('line')})" for r in pr if r['fn']}),
        inlined_callees=sorted({x for r in pr for x in r['inlined']}),
        loop_invariants=dict(loops=len({(l['fn'], l['line']) for r in pr for l in r['loops']}), established=sum(l['kept'] for r in pr for l in r['loops']),
                             candidates=sum(l['candidates'] for r in pr for l in r['loops'])),
        by_contract=[dict(contract=r['key'], obligations=len(r['obls']), discharged=sum(o['ok'] for o in r['obls']), wall_s=r['wall'], undecided=r['error']) for r in pr],
        solver_queries=sum(r['stats'].get('queries', 0) for r in pr), solver_s=round(sum(r['stats'].get('solver_s', 0) for r in pr), 1),
        cvc5=dict(queries=sum(r['stats'].get('cvc5', 0) for r in pr), disagreements=sum(r['stats'].get('cvc5_disagree', 0) for r in pr)),
        undecided=undecided,
        replay_harness=[dict(source=r['source'], built=r['built'], cases=r['cases']) for r in hr],
        samples=[o['name'] for o in obls[:8]],
    ), assumptions=ASSUME.get('all') + ASSUME.get(pid, []), wall_s=round(now() - t0, 1), violations=viol)
    if undecided:
        ev['coverage']['bounded_stand_in'] = 'for the undecided items only the bounded runtime-contract runs of the replay harness stand in; they are not counted as proved'
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for u in undecided[:6]:
        log('  undecided: ' + str(u)[:250])
    for n in known(pid):
        log(n)
    for l in lines:
        print(l, flush=True)
    if lines:
        return 1
    nothing = (not obls or undecided and not any(o['ok'] for o in obls)) and not hok
    if nothing:
        log('  nothing could be decided')
        return 2
    log(f"{pid}: {sum(o['ok'] for o in obls)}/{len(obls)} obligations discharged, {sum(r['cases'] for r in hr)} replay cases, {now() - t0:.1f}s")
    return 0


def known(pid):
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            if l.startswith('KNOWN-FINDING:') and f'property={pid} ' in l:
                out.append(l.strip())
    except OSError:
        pass
    return out


ASSUME = {'all': [
    'machine arithmetic of double treated as real arithmetic except where the property file says otherwise (no rounding, overflow)',
    'int/size_t arithmetic treated as mathematical integers',
    'Eigen operations have their mathematical meaning; no aliasing between distinct objects',
    'dropped by the extraction: stream output, time stamps, assert(), exception texts, allocation failure']}

if __name__ == '__main__':
    sys.exit(main())
