"""Run one check:  run.py <PROPERTY> [quick|thorough]   (see check.sh)"""

from __future__ import annotations

import argparse
import atexit
import importlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback
import warnings
from pathlib import Path as FPath

VERIF = FPath(__file__).resolve().parent.parent
REPO = os.environ.get('VERIF_REPO', '/repo')


def setup_env():
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, *sys.argv])
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS',
              'NUMEXPR_NUM_THREADS'):
        os.environ[k] = '1'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ['MPLBACKEND'] = 'Agg'
    for k in ('GITHUB_TOKEN', 'PELICUN_GITHUB_API_URL', 'PELICUN_GITHUB_RAW_URL',
              'DLML_REPO_OWNER', 'DLML_REPO_NAME'):
        os.environ.pop(k, None)
    sys.dont_write_bytecode = True
    d = tempfile.mkdtemp(prefix='verif-dlml-')
    FPath(d, 'model_files.txt').write_text('')
    FPath(d, '.dlml_cache.json').write_text(
        '{"last_version_check": "2999-01-01T00:00:00"}')
    os.environ['DLML_DATA_DIR'] = d
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, True))
    sys.path[:] = [p for p in sys.path if not p.endswith("/verif/engine")]
    sys.path.insert(0, REPO)
    sys.path.insert(0, str(VERIF))
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    warnings.simplefilter('ignore')
    import pelicun

    where = os.path.realpath(pelicun.__file__)
    if not where.startswith(os.path.realpath(REPO) + '/'):
        raise SystemExit(f'pelicun imported from {where}, not {REPO}')


# ------------------------------------------------------------- function trace
SEEN = set()


def start_monitor():
    mon = sys.monitoring
    tool = mon.COVERAGE_ID
    mon.use_tool_id(tool, 'verif')
    prefix = os.path.realpath(REPO) + '/pelicun/'

    def on_start(code, _off):
        fn = code.co_filename
        if fn.startswith(prefix) or fn.startswith(REPO + '/pelicun/'):
            SEEN.add(f'{fn.split("/pelicun/", 1)[1]}:{code.co_qualname}')
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, on_start)
    mon.set_events(tool, mon.events.PY_START)


def job(args):
    prop, hname, params, tier, seed = args
    from engine import path
    from engine.harness import REGISTRY

    h = REGISTRY[hname]
    warnings.simplefilter('ignore')
    os.environ['COLUMNS'] = '80'
    t0 = time.time()
    SEEN.clear()
    sys.monitoring.restart_events()

    def fn(ctx):
        warnings.simplefilter('ignore')
        return h.fn(ctx, **params)

    limit = h.time_limit if tier == 'quick' else h.time_limit * 3
    try:
        st = path.explore(fn, max_paths=h.max_paths, time_limit=limit,
                          replay_paths=h.replays if tier == 'quick'
                          else h.replays * 4, seed=seed)
        d = st.as_dict()
        # encoding validation: the same harness on plain random numbers
        extra = 1 if tier == 'quick' else 8
        d['random_replays'] = 0
        for k in range(extra):
            r = path.run_concrete(fn, {}, seed=seed * 1000 + k, tol=1e-6)
            if r[0] == 'assume':
                continue
            d['random_replays'] += 1
            if r[0] in {'violation', 'exception'} and path.robust_failure(
                fn, r[3].used, seed
            ):
                d['violations'].append({
                    'label': r[1], 'symbolic_label': '(concrete run)',
                    'detail': r[2], 'values': r[3].used, 'seed': seed * 1000 + k})
    except (Exception, SystemExit) as e:  # noqa: BLE001
        d = {'error': f'{type(e).__name__}: {e}', 'trace': traceback.format_exc()}
    d['harness'] = hname
    d['params'] = {k: repr(v) for k, v in params.items()}
    d['rawparams'] = params
    d['functions'] = sorted(SEEN)
    d['wall'] = time.time() - t0
    return d


def load_known():
    f = VERIF / 'known_findings.json'
    if not f.exists():
        return []
    return json.loads(f.read_text())['findings']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('tier', nargs='?',
                    default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-k', default=None)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    setup_env()
    prop, tier = a.property, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    from engine.harness import REGISTRY, META

    importlib.import_module(f'checks.{prop.lower()}')
    jobs = []
    for name, h in REGISTRY.items():
        if h.fn.__module__ != f'checks.{prop.lower()}':
            continue
        if a.k and a.k not in name:
            continue
        if h.tier == 'thorough' and tier != 'thorough':
            continue
        for p in h.param_list(tier):
            jobs.append((prop, name, p, tier, seed))
    jobs.sort(key=lambda j: -REGISTRY[j[1]].weight)
    start_monitor()
    if a.j == 1 or len(jobs) == 1:
        results = [job(j) for j in jobs]
    else:
        with mp.get_context('fork').Pool(
            min(a.j, len(jobs)), maxtasksperchild=1
        ) as pool:
            results = pool.map(job, jobs, chunksize=1)
    return report(prop, tier, seed, results, REGISTRY, META, t0, a)


def report(prop, tier, seed, results, REGISTRY, META, t0, a):
    known = [k for k in load_known() if k['property'] == prop]
    viol, knownhit, errors, degraded, inconc, incomplete = [], [], [], [], [], []
    tot = dict(paths=0, branches=0, forks=0, queries=0, solver_s=0.0,
               obligations=0, discharged=0, trivial=0, replays=0)
    funcs, samples, per, reached = set(), [], [], {}
    for r in results:
        hid = r['harness'] + (
            '(' + ','.join(f'{k}={v}' for k, v in r['params'].items()) + ')'
            if r['params'] else '')
        if 'error' in r:
            errors.append(f'{hid}: {r["error"]}\n{r.get("trace", "")}')
            continue
        for k in tot:
            tot[k] += r[k]
        tot['replays'] += r['random_replays']
        funcs.update(r['functions'])
        for k, v in r['reached'].items():
            reached[f'{r["harness"]}:{k}'] = reached.get(
                f'{r["harness"]}:{k}', 0) + v
        for s in r['samples'][:2]:
            if len(samples) < 8:
                samples.append({'harness': hid, **s})
        for v in r['violations']:
            kn = [k for k in known
                  if k['harness'] == r['harness'] and k['label'] == v['label']]
            (knownhit if kn else viol).append((hid, r, v, kn))
        degraded += [f'{hid}: {x}' for x in r['degraded']]
        inconc += [f'{hid}: {x}' for x in r['inconclusive']]
        if r['incomplete']:
            incomplete.append(hid)
        if r['obligations'] == 0 and not r['violations']:
            errors.append(f'{hid}: vacuous (no obligation reached)')
        h = REGISTRY[r['harness']]
        for lab in h.must_reach:
            if not r['violations'] and lab not in r['reached']:
                errors.append(f'{hid}: reachability witness {lab!r} not reached')
        per.append({
            'harness': hid, 'bounds': h.bounds, 'paths': r['paths'],
            'obligations': r['obligations'], 'discharged': r['discharged'],
            'queries': r['queries'], 'solver_s': round(r['solver_s'], 3),
            'wall_s': round(r['wall'], 2), 'degraded': len(r['degraded']),
            'inconclusive': len(r['inconclusive']),
            'complete': not r['incomplete']})
        if a.v:
            print(f'{hid}: paths={r["paths"]} obl={r["obligations"]} '
                  f'disch={r["discharged"]} q={r["queries"]} '
                  f'solver={r["solver_s"]:.2f}s wall={r["wall"]:.1f}s '
                  f'reached={r["reached"]}')
    for x in degraded[: 10 if a.v else 4]:
        print('DEGRADED', x[:1500])
    for x in inconc[: 10 if a.v else 4]:
        print('INCONCLUSIVE', x[:600])
    for x in incomplete:
        print('INCOMPLETE', x)
    seen = set()
    for hid, r, v, kn in knownhit:
        if kn[0]['what'] not in seen:
            seen.add(kn[0]['what'])
            print(f'KNOWN-FINDING: property={prop} {kn[0]["what"]}')
    rc = 0
    if viol:
        rdir = VERIF / 'evidence' / 'replay'
        rdir.mkdir(parents=True, exist_ok=True)
        for n, (hid, r, v, _) in enumerate(viol[:10]):
            f = rdir / f'{prop}-{n}.json'
            f.write_text(json.dumps({
                'property': prop, 'harness': r['harness'],
                'params': r['params'], 'rawparams': r['rawparams'], **v},
                indent=1, default=str))
            print(f'  {hid}: {v["label"]} {v["detail"][:300]}')
            print(f'VIOLATION property={prop} replay={f}')
        rc = 1
    wall = time.time() - t0
    expl = (
        f'Bounded symbolic execution of the real code: {tot["paths"]} paths, '
        f'{tot["obligations"]} obligations ({tot["discharged"]} discharged), '
        f'{tot["queries"]} solver queries in {tot["solver_s"]:.1f} s.'
    )
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'],
            'transitions': tot['branches'],
            'traces_validated_against_impl': tot['replays'],
            'samples': samples,
            'explanation': expl,
            'solver': 'z3 (python API)',
            'queries': tot['queries'],
            'solver_seconds': round(tot['solver_s'], 2),
            'obligations_checked': tot['obligations'],
            'obligations_discharged': tot['discharged'],
            'obligations_settled_without_query': tot['trivial'],
            'functions_encoded': sorted(funcs),
            'harnesses': per,
            'reachability': reached,
            'degraded_paths': degraded[:40],
            'inconclusive_obligations': inconc[:40],
            'incomplete_harnesses': incomplete,
            'exhaustive': not (degraded or inconc or incomplete),
        },
        'assumptions': META.get('assumptions', []),
        'wall_s': round(wall, 2),
        'violations': len(viol),
    }
    (VERIF / 'evidence').mkdir(exist_ok=True)
    if not a.k:
        (VERIF / 'evidence' / f'{prop}.json').write_text(
            json.dumps(ev, indent=1, default=str))
    print(f'{prop} {tier}: {expl} wall {wall:.1f} s; '
          f'degraded {len(degraded)}, inconclusive {len(inconc)}, '
          f'incomplete {len(incomplete)}')
    if rc == 0 and errors:
        for e in errors[:6]:
            print('ERROR', e)
        return 2
    return rc


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.exit(code)
