"""Entry point:  run.py ID [--replay FILE]   (see bin/check)."""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
PY = '/opt/venv/bin/python'
sys.path.insert(0, HERE)


def load_check(prop):
    return importlib.import_module('checks.' + prop.lower())


def worker(prop, tier, seed, shard, nshards, out, deadline):
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    import core
    mod = load_check(prop)
    if getattr(mod, 'COMM', 'real') == 'sim':
        import mpisim
        mpisim.install()
    elif mod.COMM == 'none':
        import mpisim
        mpisim.block_mpi4py()
    sys.path.insert(0, REPO)
    import bet
    import pkgutil
    real = os.path.realpath(bet.__file__)
    assert real.startswith(os.path.realpath(REPO) + os.sep), real
    if getattr(mod, 'POISON', True):
        core.install_poison()
    mod.setup()
    if os.environ.get('VERIF_COV'):      # which lines of the code the check executes (tools/mutate.py)
        import linecov
        linecov.start(REPO, os.environ['VERIF_COV'])
    ctx = core.Ctx(prop, tier, seed)
    viols, capped = [], False
    jobs = []
    for kind in mod.KINDS:
        n = cases_of(mod, kind, tier)
        jobs += [((i + 0.5) / max(n, 1), kind, i) for i in range(n)
                 if (i + kind_offset(kind.name)) % nshards == shard]
    jobs.sort(key=lambda j: (j[0], j[1].name))
    for _, kind, i in jobs:
        if time.time() > deadline:
            capped = True
            break
        v = core.run_case(ctx, kind, i, getattr(mod, 'CASE_ALARM', 150))
        if v:
            viols.append(v)
            if len(viols) >= 40:
                break
    with open(out, 'w') as f:
        json.dump({'counters': dict(ctx.counters), 'sigs': sorted(ctx.sigs),
                   'trivial': ctx.trivial, 'samples': ctx.samples,
                   'violations': viols, 'capped': capped}, f)


def cases_of(mod, kind, tier):
    """How many cases of a kind a run explores (QUICK_X, THOROUGH_X: what the time budget allows)."""
    if tier == 'quick':
        return kind.quick * getattr(mod, 'QUICK_X', 1)
    return kind.thorough * getattr(mod, 'THOROUGH_X', 1)


def kind_offset(name):
    return sum(map(ord, name))


def known_findings(prop):
    known = {}
    path = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(path):
        for e in json.load(open(path)):
            if e.get('property') == prop and e.get('status') == 'known':
                known[e['key']] = e['what']
    return known


def main():
    prop = sys.argv[1].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--worker' in sys.argv:
        k = sys.argv.index('--worker')
        shard, nshards, out, deadline = sys.argv[k + 1:k + 5]
        worker(prop, tier, seed, int(shard), int(nshards), out, float(deadline))
        return 0
    if '--replay' in sys.argv:
        return replay(prop, sys.argv[sys.argv.index('--replay') + 1])
    t0 = time.time()
    mod = load_check(prop)
    soft = 360 if tier == 'quick' else getattr(mod, 'THOROUGH_S', 700)
    hard = soft + 200
    nshards = int(os.environ.get('VERIF_WORKERS', os.cpu_count() or 4))
    nshards = max(1, min(nshards, 8, getattr(mod, 'SHARDS', 8)))
    scratch = tempfile.mkdtemp(prefix='betverif-')
    procs = []
    try:
        for s in range(nshards):
            out = os.path.join(scratch, 'w%d.json' % s)
            cwd = os.path.join(scratch, 'cwd%d' % s)
            os.mkdir(cwd)
            env = dict(os.environ, VERIF_SCRATCH=cwd, VERIF_TIER=tier,
                       MPLCONFIGDIR=os.path.join(scratch, 'mpl'),
                       TMPDIR=cwd)
            log = open(os.path.join(scratch, 'w%d.log' % s), 'w')
            procs.append((s, out, log, subprocess.Popen(
                [PY, '-W', 'ignore', os.path.join(HERE, 'run.py'), prop, '--tier', tier,
                 '--worker', str(s), str(nshards), out, str(t0 + soft)],
                cwd=cwd, env=env, stdout=log, stderr=subprocess.STDOUT,
                start_new_session=True)))
        errors, parts = [], []
        for s, out, log, p in procs:
            try:
                p.wait(timeout=max(1, t0 + hard - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                errors.append('worker %d ran out of time' % s)
            log.close()
            if os.path.exists(out):
                parts.append(json.load(open(out)))
            else:
                errors.append('worker %d ended with %s: %s' % (
                    s, p.returncode, open(log.name).read()[-3000:]))
        return finish(prop, tier, seed, mod, parts, errors, time.time() - t0)
    finally:
        for _, _, _, p in procs:
            if p.poll() is None:
                os.killpg(p.pid, 9)
        shutil.rmtree(scratch, ignore_errors=True)


def finish(prop, tier, seed, mod, parts, errors, wall):
    counters, sigs, samples, viols, trivial, capped = {}, set(), {}, [], 0, False
    for p in parts:
        for k, v in p['counters'].items():
            counters[k] = counters.get(k, 0) + v
        sigs.update(p['sigs'])
        samples.update(p['samples'])
        viols += p['violations']
        trivial += p['trivial']
        capped = capped or p['capped']
    known = known_findings(prop)
    fresh = [v for v in viols if v['key'] not in known]
    hit = sorted({v['key'] for v in viols if v['key'] in known})
    cases = sum(v for k, v in counters.items() if k.startswith('cases:'))
    missing = [k for k in list(getattr(mod, 'REQUIRE', [])) +
               ['cases:' + k.name for k in mod.KINDS
                if cases_of(mod, k, tier)]
               if not counters.get(k)]
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': cases,
            'distinct_nontrivial': len(sigs),
            'rule': mod.RULE,
            'samples': list(samples.values())[:12] or [{'none': True}],
            'trivial_cases': trivial,
            'monitor_events': {k: counters[k] for k in sorted(counters)},
            'stopped_at_time_cap': capped,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(fresh),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write('\n')
    for key in hit:
        print('KNOWN-FINDING: property=%s %s' % (prop, known[key]))
    print('%s tier=%s seed=%d: %d cases, %d distinct non-trivial, %d oracle '
          'evaluations, %.1f s%s' % (prop, tier, seed, cases, len(sigs),
                                     counters.get('oracle_evaluations', 0), wall,
                                     ', stopped at time cap' if capped else ''))
    if fresh:
        rdir = os.path.join(EVIDENCE, 'replay')
        os.makedirs(rdir, exist_ok=True)
        seen = {}
        for v in fresh:
            seen.setdefault(v['key'], []).append(v)
        for n, (key, vs) in enumerate(sorted(seen.items())):
            path = os.path.join(rdir, '%s-%d.json' % (prop, n))
            with open(path, 'w') as f:
                json.dump(vs[0], f, indent=1, sort_keys=True)
            print('%s: %s in %d case(s), first %s#%d: %s' % (
                prop, key, len(vs), vs[0]['kind'], vs[0]['idx'],
                json.dumps(vs[0]['detail'])[:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        for e in errors:
            print('ERROR %s: %s' % (prop, e))
        return 2
    if missing:
        print('INCONCLUSIVE %s: never observed: %s' % (prop, ', '.join(missing)))
        return 2
    return 0


def replay(prop, path):
    v = json.load(open(path))
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    import core
    mod = load_check(prop)
    if mod.COMM == 'sim':
        import mpisim
        mpisim.install()
    elif mod.COMM == 'none':
        import mpisim
        mpisim.block_mpi4py()
    sys.path.insert(0, REPO)
    scratch = tempfile.mkdtemp(prefix='betverif-')
    os.environ['VERIF_SCRATCH'] = scratch
    cwd = os.getcwd()
    os.chdir(scratch)
    try:
        if getattr(mod, 'POISON', True):
            core.install_poison()
        mod.setup()
        ctx = core.Ctx(prop, v['tier'], v['seed'])
        kind = [k for k in mod.KINDS if k.name == v['kind']][0]
        r = core.run_case(ctx, kind, v['idx'], 600)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    print(json.dumps(r, indent=1))
    return 1 if r else 0


if __name__ == '__main__':
    sys.exit(main())
