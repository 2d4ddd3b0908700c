#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough]: decide one property.

1. compiles props/<ID>/*.proof.cc -- which #include the real sources from
   /repo -- to LLVM IR, generates every obligation from that IR and discharges
   them (tool/).  All of them valid is what decides the property.
2. builds and runs props/<ID>/native.cc against the real code and libraries:
   turns a failed obligation into a failing input where one exists, and stands
   in (bounded, labelled so) for code outside the contracts.
"""
import sys, os
VERIF = os.path.dirname(os.path.abspath(__file__))
if 'veriftools' not in sys.executable and os.path.exists('/opt/veriftools/pyvenv/bin/python'):
    os.execv('/opt/veriftools/pyvenv/bin/python', ['/opt/veriftools/pyvenv/bin/python', os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, os.path.join(VERIF, 'tool'))
import json, time, subprocess, hashlib, re, glob, threading, shutil, multiprocessing as mp
import build as B

REPO = B.REPO

TRUSTED = [
    'clang 18 front end (C++ -> LLVM IR at -O1 -disable-llvm-passes) and the LLVM passes sroa/early-cse/instsimplify/simplifycfg/loop-simplify/inliner (Eigen only) run by tool/irdump.cc',
    'tool/irvc.py, mem.py, loops.py, terms.py: the obligation generator',
    'SMT solvers z3 5.3 (python), z3 4.8.12, cvc5 1.1.2',
    'models/models.h: contracts of the standard-library containers, smart pointers and std::function used in place of libstdc++ (library code, not cartographer code)',
]
ASSUME = [
    'float and double are mathematical reals (IEEE rounding, NaN, overflow not modelled); the bounded native run uses the real IEEE code',
    'signed integer overflow does not occur in the code under proof (it would be undefined behaviour)',
    'containers hold fewer than 2^62 elements; memory allocation succeeds',
    'objects reached through distinct symbolic pointers of different allocation families do not overlap',
    'destructors of container elements are not run by the container models',
    'glog is silenced; CHECK(c) is an obligation (or, where listed, a precondition); DCHECK is off as in the shipped Release build',
]

def loop_shape(mod):
    """loops per function of the code under proof: what the loop annotations (by ordinal) refer to"""
    return {f['dem']: len(f['loops']) for f in mod['funcs'].values() if not f['decl'] and f.get('loops') and '/cartographer/' in (f.get('file') or '') and not f['dem'].startswith('vc')}

def reshaped(modpath, mod, E):
    """functions this harness ran through whose loops are not the ones its annotations were written for"""
    p = os.path.join(VERIF, 'props', 'shapes.json')
    if not os.path.exists(p): return []
    base = json.load(open(p)).get(os.path.basename(modpath).rsplit('-', 1)[0])
    if base is None: return []
    now = loop_shape(mod); seen = {mod['funcs'][n]['dem'] for n in E.funcs_seen}
    return sorted(d for d in seen if now.get(d, 0) != base.get(d, 0))

def proof_worker(args):
    modpath, specd, entry, budget, deadline, jobs = args
    sys.setrecursionlimit(20000)
    import verify, irvc
    t0 = time.time()
    out = dict(entry=entry, unsupported=None, obls=[], funcs=[], loops=[], stats={}, reach='?', trusted=[], stubs=[], sym=0, solve=0)
    try:
        mod = json.load(open(modpath))
        E = verify.run_harness(mod, specd, entry, budget=budget, jobs=jobs, deadline=deadline)
        for o in E.obls:
            out['obls'].append(dict(label=o.label, kind=o.kind, where=o.where, stack=o.stack, result=o.result, solver=o.solver,
                                    time=round(o.time, 3), model=o.model, outs=getattr(o, 'outs', None)))
        out['funcs'] = [mod['funcs'][n]['dem'] + ' @ ' + re.sub(r'^/repo/', '', mod['funcs'][n].get('file') or '') for n in E.funcs_seen
                        if '/cartographer/' in (mod['funcs'][n].get('file') or '')]
        out['loops'] = [str(k) for k in E.loops_cut]
        out['reshaped'] = reshaped(modpath, mod, E)
        out['stats'] = E.stats; out['reach'] = E.reach; out['trusted'] = sorted(map(str, E.trusted))
        out['stubs'] = sorted(map(str, getattr(E, 'stubs_used', []) or []))
        out['sym'] = E.sym_time; out['solve'] = E.solve_time
    except irvc.Unsupported as e:
        out['unsupported'] = f'{type(e).__name__}: {e}'
    except Exception as e:
        import traceback
        out['unsupported'] = 'internal: ' + repr(e) + ' ' + traceback.format_exc()[-600:]
    out['wall'] = time.time() - t0
    return out

def run_proof(pid, pdir, tier, res):
    t0 = time.time()
    units = sorted(glob.glob(os.path.join(pdir, '*.proof.cc')))
    try:
        B.ensure_proof_tools()
        tasks = []
        def comp(u):
            return u, B.compile_proof(u)
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex: mods = list(ex.map(comp, units))
        budget = 15 if tier == 'quick' else 120
        limit = 420 if tier == 'quick' else 3000
        deadline = time.time() + limit
        for u, (modpath, err) in mods:
            if modpath is None:
                res['compile_errors'].append(f'{os.path.basename(u)}: {err}'); continue
            mod = json.load(open(modpath))
            sp = u.replace('.proof.cc', '.spec.json')
            spec = json.load(open(sp)) if os.path.exists(sp) else {}
            for n, f in mod['funcs'].items():
                if n.startswith('vc_h_') and not f['decl']:
                    s = dict(spec.get('*', {})); s.update(spec.get(n[5:], {}))
                    if s.get('tier') == 'thorough' and tier != 'thorough': continue
                    tasks.append((modpath, s, n, s.get('budget', budget), deadline, 4))
        procs = []
        with mp.get_context('spawn').Pool(min(6, max(1, len(tasks)))) as pool:
            for r in pool.imap_unordered(proof_worker, tasks):
                res['harnesses'].append(r)
    except Exception as e:
        import traceback
        res['compile_errors'].append('driver: ' + repr(e) + traceback.format_exc()[-800:])
    res['proof_wall'] = time.time() - t0

def run_native(pid, pdir, tier, seed, res, workdir):
    src = os.path.join(pdir, 'native.cc')
    if not os.path.exists(src): res['native'] = None; return
    t0 = time.time()
    try:
        exe, err = B.build_native(src, f'{pid}')
    except Exception as e:
        exe, err = None, repr(e)
    if exe is None:
        res['native'] = dict(built=False, err=err); return
    secs = 15 if tier == 'quick' else 240
    meta = {}
    mf = os.path.join(pdir, 'native.json')
    if os.path.exists(mf): meta = json.load(open(mf))
    secs = meta.get(tier, secs)
    out = os.path.join(workdir, 'fail.txt')
    n = 3
    procs = []
    for k in range(n):
        o = os.path.join(workdir, f'fail{k}.txt')
        if os.path.exists(o): os.unlink(o)
        wd = os.path.join(workdir, f'w{k}'); os.makedirs(wd, exist_ok=True)
        procs.append((o, subprocess.Popen([exe, '--seconds', str(secs), '--seed', str(seed * 100 + k), '--out', o], cwd=wd,
                      stdout=subprocess.PIPE, stderr=open(os.path.join(workdir, f'err{k}.txt'), 'w'), text=True, env=dict(os.environ, GLOG_minloglevel='2', TMPDIR=wd, VCN_TMP=wd))))
    nat = dict(built=True, build_s=round(time.time() - t0, 1), evals=0, checks=0, distinct=0, samples=[], failed=None, per={}, runs=n, seconds=secs, exe=exe, broken=None)
    for o, p in procs:
        try: so, _ = p.communicate(timeout=secs + 300)
        except subprocess.TimeoutExpired:
            p.kill(); so = ''; nat['broken'] = 'native run did not stop'
        if p.returncode == 1 and os.path.exists(o):
            if nat['failed'] is None: nat['failed'] = open(o).read()
        elif p.returncode != 0: nat['broken'] = f'native run ended with {p.returncode}'
        for l in (so or '').split('\n'):
            w = l.split(' ', 1)
            if w[0] == 'EVALS': nat['evals'] += int(w[1])
            elif w[0] == 'CHECKS': nat['checks'] += int(w[1])
            elif w[0] == 'DISTINCT': nat['distinct'] += int(w[1])
            elif w[0] == 'PER': a, b = w[1].split(); nat['per'][a] = nat['per'].get(a, 0) + int(b)
            elif w[0] == 'SAMPLE' and len(nat['samples']) < 6: nat['samples'].append(w[1])
    res['native'] = nat

def kill_children(root):
    kids = {}
    for d in os.listdir('/proc'):
        if d.isdigit():
            try: kids.setdefault(int(open(f'/proc/{d}/stat').read().rsplit(')', 1)[1].split()[1]), []).append(int(d))
            except OSError: pass
    todo = list(kids.get(root, []))
    while todo:
        p = todo.pop(); todo += kids.get(p, [])
        try: os.kill(p, 9)
        except OSError: pass

def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == pid and k.get('status') != 'fixed']

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pdir = os.path.join(VERIF, 'props', pid)
    workdir = os.path.join(VERIF, 'build', 'work', pid)
    shutil.rmtree(workdir, ignore_errors=True); os.makedirs(workdir)
    t0 = time.time()
    res = dict(harnesses=[], compile_errors=[], native=None)
    tp = threading.Thread(target=run_proof, args=(pid, pdir, tier, res))
    tn = threading.Thread(target=run_native, args=(pid, pdir, tier, seed, res, workdir))
    B.ensure_common()
    tp.daemon = tn.daemon = True
    tp.start(); tn.start(); tn.join()
    if res['native'] and res['native'].get('failed') and not load_known(pid):
        tp.join(45)              # the failing input decides; wait a little for the obligation it breaks
        if tp.is_alive(): res['cut_short'] = True
    else:
        tp.join(max(5, (560 if tier == 'quick' else 4200) - (time.time() - t0)))
        if tp.is_alive(): res['late'] = True      # a harness does not come to an end on this tree
    res['harnesses'] = list(res['harnesses'])
    nat = res['native']
    obls = [dict(o, entry=h['entry']) for h in res['harnesses'] for o in h['obls']]
    ok = [o for o in obls if o['result'] == 'valid']
    bad = [o for o in obls if o['result'] not in ('valid', 'skipped')]
    out_of_reach = list(res['compile_errors'])
    for h in res['harnesses']:      # loops were added, removed or moved: the annotations no longer say what they are about
        if h.get('reshaped') and any(o['entry'] == h['entry'] for o in bad):
            out_of_reach.append(f"{h['entry']}: loops differ from the annotated ones in " + ', '.join(h['reshaped']))
            bad = [o for o in bad if o['entry'] != h['entry']]
    skipped = [o for o in obls if o['result'] == 'skipped']
    for h in res['harnesses']:
        if h['unsupported']: out_of_reach.append(f"{h['entry']}: {h['unsupported']}")
        elif h['reach'] == 'unsat': out_of_reach.append(f"{h['entry']}: vacuous (no path reaches the end)")
        elif not h['obls']: out_of_reach.append(f"{h['entry']}: generated no obligation")
    if skipped: out_of_reach.append(f'{len(skipped)} obligations not attempted (after failures, or for lack of time)')
    if res.get('late'): out_of_reach.append('proof not completed in time')
    if res.get('cut_short'): out_of_reach.append('proof not completed: a failing input was found first')
    refuted = [o for o in bad if o['result'] == 'invalid']
    if bad or out_of_reach: res['level'] = 'degraded'
    print(f"{pid} [{tier}]: {len(res['harnesses'])} contract harnesses, {len(ok)}/{len(obls)} obligations discharged, proof {res.get('proof_wall', 0):.1f}s")
    for h in sorted(res['harnesses'], key=lambda h: h['entry']):
        v = sum(o['result'] == 'valid' for o in h['obls'])
        print(f"  {h['entry'][5:]}: {v}/{len(h['obls'])} valid, paths {h['stats'].get('paths')}, reach {h['reach']}, sym {h['sym']:.1f}s solve {h['solve']:.1f}s" + (f"  OUT-OF-REACH {h['unsupported']}" if h['unsupported'] else ''))
    for e in out_of_reach: print('  NOT PROVED (outside the verifier\'s reach on this tree; bounded stand-in only): ' + e[:600])
    for o in bad: print(f"  {o['result'].upper()} obligation [{o['kind']}] {o['label']} in {o['entry'][5:]} at {' > '.join(o['stack'][-3:])} ({o['solver']})")
    if nat and nat.get('built'):
        print(f"  native (bounded): {nat['evals']} cases, {nat['checks']} checks, {nat['seconds']}s x{nat['runs']}" + (', FAILED' if nat['failed'] else '') + (', ' + nat['broken'] if nat['broken'] else ''))
    elif nat: print('  native: could not be built: ' + str(nat['err'])[-1500:])
    known = load_known(pid)
    violations = []
    rc = 0
    def suppressed(text):
        for k in known:
            if k.get('match') and re.search(k['match'], text, re.S): return k
        return None
    for k in known: print(f"KNOWN-FINDING: property={pid} {k['what']}")
    native_fail = nat and nat.get('failed')
    if native_fail and suppressed(native_fail): native_fail = None
    bad = [o for o in bad if not suppressed(f"{o['entry']} {o['label']} {o['where']}")]
    os.makedirs(os.path.join(VERIF, 'build', 'replay'), exist_ok=True)
    rp = os.path.join(VERIF, 'build', 'replay', f'{pid}.txt')
    if native_fail or bad:
        with open(rp, 'w') as f:
            f.write(f'property {pid}\n')
            if native_fail:
                f.write('FAILING INPUT (real code):\n' + native_fail + '\n')
                m = re.search(r'case: (\S+) --seed (\d+) --iter (\d+)', native_fail)
                if m: f.write(f"replay: {nat['exe']} --case {m.group(1)} --seed {m.group(2)} --iter {m.group(3)} --out /tmp/x   (rebuild with: python3 check.py {pid})\n")
            for o in bad:
                f.write(f"\nfailed obligation: {o['label']} [{o['kind']}] result={o['result']}\n  harness {o['entry']}\n  at {' > '.join(o['stack'])}\n  solver output: {o['outs']}\n  model: {json.dumps(o['model'])}\n")
        violations.append(rp)
        rc = 1
    covered_by_proof = bool(obls) and not bad and not out_of_reach
    if rc == 0 and not covered_by_proof and not (nat and nat.get('built') and not nat['broken']):
        print('  check cannot give an answer: neither proof nor bounded stand-in could be built'); rc = 2
    fns = sorted({f for h in res['harnesses'] for f in h['funcs']})
    ev = dict(property=pid, tier=tier, seed=seed, level='proof' if covered_by_proof else 'exploration', wall_s=round(time.time() - t0, 2), violations=len(violations),
              coverage=dict(obligations=len(obls), discharged=len(ok),
                            checker_cmd=f'python3 /verif/check.py {pid} --tier {tier}',
                            trusted_base=TRUSTED + sorted({t for h in res['harnesses'] for t in h['trusted']}),
                            explanation='contract obligations generated from /repo\'s current source by tool/irvc.py and discharged by SMT' if covered_by_proof else 'proof incomplete on this tree; see not_proved; bounded native exploration only for those parts',
                            functions_under_contract=fns,
                            contract_stubs=sorted({s for h in res['harnesses'] for s in h['stubs']}),
                            loops_cut_by_invariant=sorted({l for h in res['harnesses'] for l in h['loops']}),
                            by_solver={}, solver_seconds=round(sum(o['time'] for o in obls), 2),
                            harnesses=[dict(name=h['entry'][5:], obligations=len(h['obls']), valid=sum(o['result'] == 'valid' for o in h['obls']), paths=h['stats'].get('paths'), reach=h['reach']) for h in res['harnesses']],
                            obligation_kinds={}, not_proved=out_of_reach + [f"{o['entry']}: {o['label']} ({o['result']})" for o in bad]),
              assumptions=ASSUME)
    cov = ev['coverage']
    for o in obls:
        cov['by_solver'][str(o['solver'])] = cov['by_solver'].get(str(o['solver']), 0) + 1
        cov['obligation_kinds'][o['kind']] = cov['obligation_kinds'].get(o['kind'], 0) + 1
    if nat and nat.get('built'):
        cov.update(evaluations=nat['evals'], distinct_nontrivial=nat['distinct'], rule='bounded native run: seeded generator per case in props/%s/native.cc; distinct = distinct shape signatures set by the case' % pid, samples=nat['samples'] or ['(none)'], native_checks=nat['checks'], native_per_case=nat['per'])
    nt = os.path.join(pdir, 'assumptions.txt')
    if os.path.exists(nt): ev['assumptions'] = ASSUME + [l.strip() for l in open(nt) if l.strip()]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f: json.dump(ev, f, indent=1)
    if rc == 1:
        print(f'VIOLATION property={pid} replay={rp}' + ('' if native_fail else ' no-failing-input-found'))
    elif rc == 0: print(f'{pid}: holds ({"proof" if covered_by_proof else "BOUNDED stand-in only on this tree"})')
    sys.stdout.flush()
    kill_children(os.getpid())
    os._exit(rc)

if __name__ == '__main__': main()
