#!/usr/bin/env python3-vt
"""Entry point of every check:  python3-vt run.py <property> [quick|thorough]   (exit 0 held, 1 violation)"""
import sys, os, time, json, shutil, importlib, tempfile, traceback, fnmatch
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine')); sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.setrecursionlimit(20000)
import multiprocessing as mp

G = {}


def job(i):
    u = G['units'][i]
    m = G['mods'][u.mod]
    try:
        return i, u.run(m[0], m[1], m[2], G['seed'], G['tier'])
    except Exception:
        return i, {'unit': u.name, 'error': traceback.format_exc(), 'obl': [], 'viol': [], 'undecided': [], 'notes': []}


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import build, irparse
    work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        return check(pid, tier, only, seed, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(pid, tier, only, seed, t0, work):
    import build, irparse
    mod = importlib.import_module(pid.lower())
    units = [u for u in mod.units(tier) if not only or fnmatch.fnmatch(u.name, only)]
    B = build.Builder(work)
    need = sorted(set(u.mod for u in units))
    srcs = [(stem, os.path.join(HERE, 'harness', path), defs) for stem, path, defs in mod.sources() if stem in need]
    try:
        B.build(pid, srcs)
    except build.BuildError as e:
        print('ERROR: the harness does not build against the current tree\n%s' % e)
        return 3
    tb = time.time() - t0
    skipped = [u.name for u in units if u.mod in B.failed]
    if skipped:
        # part of the harness does not compile against this tree: its units are undecided
        print('NOTE: %d units undecided, their harness does not build: %s' % (len(skipped), ', '.join(sorted(B.failed))))
        units = [u for u in units if u.mod not in B.failed]; srcs = [x for x in srcs if x[0] not in B.failed]
    mods = {}
    for stem, _, _ in srcs:
        m = irparse.Module(open(os.path.join(work, stem + '.ll')).read())
        dem = build.demangle([n.lstrip('@').strip('"') for n in m.funcs])
        mods[stem] = (m, dem, os.path.join(work, stem + '.so'))
    import unit as unit_mod
    unit_mod.deadline = t0 + (540 if tier == 'quick' else 3600)
    G.update(units=units, mods=mods, seed=seed, tier=tier)
    order = sorted(range(len(units)), key=lambda i: -getattr(units[i], 'cost', 1))
    res = [None] * len(units)
    if os.environ.get('VERIF_SERIAL'):
        for i in order: res[i] = job(i)[1]
    else:
        with mp.get_context('fork').Pool(8, maxtasksperchild=6) as pool:
            for i, r in pool.imap_unordered(job, order): res[i] = r
    return report(pid, tier, seed, t0, tb, mod, units, res, only, skipped, B)


def report(pid, tier, seed, t0, tb, mod, units, res, only, skipped, B):
    known = load_known(pid)
    nobl = sum(len(r['obl']) for r in res)
    disch = sum(1 for r in res for o in r['obl'] if o[1] == 'proved')
    backs = {}
    for r in res:
        for o in r['obl']:
            if o[1] == 'proved': backs[o[2]] = backs.get(o[2], 0) + 1
    errs = [(r['unit'], r['error']) for r in res if r.get('error')]
    rc = 0
    vout = []; kf = []
    for u, r in zip(units, res):
        for v in r['viol']:
            k = match_known(known, u.name, v)
            if k: kf.append(k); continue
            vout.append((u, v))
    verbose = os.environ.get('VERIF_VERBOSE')
    for r in res:
        if verbose or r['viol'] or r.get('error'):
            print('unit %s: %d obligations, %d proved, %d undecided, %d paths, %.1fs' % (
                r['unit'], len(r['obl']), sum(1 for o in r['obl'] if o[1] == 'proved'), len(r['undecided']), r.get('paths', 0), r.get('wall', 0)))
            if verbose:
                for x in r['undecided'][:6]: print('   undecided:', str(x)[:400])
                for x in r['notes'][:4]: print('   note:', x[:400])
        for x in r['notes']:
            if x.startswith('validation:') and not verbose: print('note: unit %s %s' % (r['unit'], x[:300])); break
    for k in sorted(set(kf)): print('KNOWN-FINDING: property=%s %s' % (pid, k))
    outd = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(outd, exist_ok=True)
    for i, (u, v) in enumerate(vout[:20]):
        p = os.path.join(outd, '%s-%d.json' % (pid, i))
        json.dump({'property': pid, 'unit': u.name, 'wrapper': u.fn, **v}, open(p, 'w'), indent=1)
        print('failed obligation: %s / %s: %s (%s)' % (pid, u.name, v['obligation'], v['how']))
        if v.get('input'): print('   input: %s' % json.dumps(v['input'])[:600])
        if v.get('native'): print('   native: %s' % v['native'][:600])
        print('VIOLATION property=%s replay=%s%s' % (pid, p, '' if v['confirmed'] else ' no-failing-input-found'))
        rc = 1
    und = [(r['unit'], a, b) for r in res for a, b in r['undecided']]
    hold = [r for r in res if r['obl'] and not r['undecided'] and not r['viol']]
    contracts = {}; lib = {}; fns = set()
    for r in res:
        for k, x in (r.get('contracts') or {}).items(): contracts[k[:200]] = contracts.get(k[:200], 0) + x
        for k, x in (r.get('lib') or {}).items(): lib[k] = lib.get(k, 0) + x
        for f in r.get('entered', []):
            if f.startswith('caribou::') or ' caribou::' in f[:80]: fns.add(f[:200])
    level = getattr(mod, 'LEVEL', 'proof')
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': {
              'obligations': nobl, 'discharged': disch,
              'checker_cmd': 'python3-vt run.py %s %s' % (pid, tier),
              'trusted_base': TRUST + list(getattr(mod, 'TRUST', [])),
              'discharged_by_back_end': backs,
              'solver_time_s': {k: round(sum(r.get('solver', {}).get(k, 0) for r in res), 2) for k in ('poly', 'z3', 'cvc5')},
              'units_under_contract': len(units), 'units_fully_discharged': len(hold),
              'functions_under_contract': sorted(set(f for u in units for f in u.funcs)),
              'functions_entered_by_the_proofs': sorted(fns)[:400],
              'callee_contracts_used_at_call_sites': contracts, 'runtime_models_used': lib,
              'undecided_obligations': [list(map(str, x))[:3] for x in und][:60], 'undecided_count': len(und), 'units_whose_harness_does_not_build': skipped, 'modules_built_without_assertions': sorted(B.noassert),
              'bounded_stand_ins': [{'unit': u.name, 'bound': u.bounded} for u in units if u.bounded],
              'native_executions': sum(r.get('native_calls', 0) for r in res), 'native_outputs_matching_symbolic_prediction': sum(r.get('validated', 0) for r in res),
              'validation_notes': [n for r in res for n in r['notes']][:20],
              'precondition_witnesses': sum(r.get('pre_witness', 0) for r in res), 'build_s': round(tb, 2),
              'explanation': getattr(mod, 'EXPLANATION', ''),
          },
          'assumptions': ASSUME + list(getattr(mod, 'ASSUME', [])), 'wall_s': round(time.time() - t0, 2), 'violations': len(vout)}
    if not only:
        json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d units, %d obligations, %d discharged, %d undecided, %d violations, %d known, %.1fs (build %.1fs)' % (
        pid, tier, len(units), nobl, disch, len(und), len(vout), len(set(kf)), time.time() - t0, tb))
    if rc: return 1
    if errs:
        for n, e in errs[:3]: print('ERROR in unit %s\n%s' % (n, e))
        return 3
    if nobl == 0 and not sum(r.get('native_calls', 0) for r in res):
        print('ERROR: nothing was explored'); return 3
    return 0


def load_known(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k.get('property') == pid and k.get('status') == 'known']


def match_known(known, unit, v):
    for k in known:
        if k['unit'] == unit and any(v['obligation'].startswith(o) for o in k['obligations']): return k['what']
    return None


TRUST = [
    'engine/irparse.py, engine/interp.py, engine/expr.py, engine/solver.py: the VC generator over LLVM IR and the polynomial normal form (cross-validated against native runs of the same wrappers on every run)',
    'clang 18 -O1 front end and opt passes sroa, early-cse, simplifycfg (what is verified is the IR of the current source)',
    'z3 (python bindings), cvc5 CLI',
    'engine/libmodel.py: models of operator new/delete, memcpy/memset, sqrt/floor/round, exception allocation',
    'harness/*.cpp wrappers: copy between flat buffers and caribou types only',
]
ASSUME = [
    'floating point is treated as exact real arithmetic; the decimal constants in the source are read as the rational value of the nearest double and identities hold up to a coefficient slack of 1e-12',
    'machine integers are mathematical integers with a range obligation wherever a value is compared, divided, widened or used as an index',
    'Eigen vectorisation is off and Eigen uses its coefficient-based product in the verified build (native replays use the default product)',
]

if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
