"""Runs one property check: generates the cases, executes them in worker
processes against /repo's working tree, collects what the monitors saw, writes
the evidence file and prints the verdict."""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get('MSV_PY', '/opt/venv/bin/python')
REPO = os.environ.get('MSV_REPO', '/repo')
EVID = os.environ.get('MSV_EVID', os.path.join(VERIF, 'evidence'))


def worker_env(scratch, mode):
    e = dict(os.environ)
    for k in ('PYTHONPATH', 'NUMBA_DISABLE_JIT', 'NUMBA_BOUNDSCHECK'):
        e.pop(k, None)
    e.update(
        PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
        MPLCONFIGDIR=os.path.join(scratch, 'mpl'), MSV_SCRATCH=scratch,
        NUMBA_CACHE_DIR=os.path.join(scratch, 'nb_' + mode),
        PYTHONPATH=VERIF, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
        MKL_NUM_THREADS='1', NUMBA_NUM_THREADS='1', TMPDIR=scratch,
    )
    if mode == 'py':
        e['NUMBA_DISABLE_JIT'] = '1'
    elif mode == 'bc':
        e['NUMBA_BOUNDSCHECK'] = '1'
    return e


def split(cases, n):
    """Balance cases over n shards by weight; cases of one 'grp' stay together
    (they share compiled kernels)."""
    groups = {}
    for i, c in enumerate(cases):
        groups.setdefault(c.get('grp', 'case%d' % i), []).append(c)
    shards = [[0.0, []] for _ in range(n)]
    for g in sorted(groups.values(), key=lambda g: -sum(c.get('w', 1.0) for c in g)):
        s = min(shards, key=lambda s: s[0])
        s[0] += sum(c.get('w', 1.0) for c in g)
        s[1] += g
    return [s[1] for s in shards if s[1]]


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        return {
            k['key']: k for k in json.load(f)['known'] if k['property'] == prop
        }


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('MSV_JOBS', '8')))
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    mod = importlib.import_module('msv.checks.' + a.prop.lower())
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    if a.replay:
        with open(a.replay) as f:
            cases = [json.load(f)['case']]
    else:
        cases = mod.gen(tier, a.seed)
    for i, c in enumerate(cases):
        c.setdefault('mode', 'py')
        c['id'] = i
    scratch = tempfile.mkdtemp(prefix='msv_%s_' % a.prop)
    results, errors = [], []
    limit = 780 if tier == 'quick' else 4 * 3600
    try:
        modes = sorted({c['mode'] for c in cases})
        tot = sum(c.get('w', 1.0) for c in cases) or 1.0
        procs = []
        todo = []
        for m in modes:
            mc = [c for c in cases if c['mode'] == m]
            share = getattr(mod, 'JOBS', {}).get(m)
            if share is None:
                share = max(1, round(a.jobs * sum(c.get('w', 1.0) for c in mc) / tot))
            todo += [(m, sh) for sh in split(mc, min(share, a.jobs))]
        for k, (m, sh) in enumerate(todo):
            cf = os.path.join(scratch, 'cases_%d.json' % k)
            of = os.path.join(scratch, 'out_%d.jsonl' % k)
            with open(cf, 'w') as f:
                json.dump(sh, f)
            lf = open(os.path.join(scratch, 'log_%d.txt' % k), 'w')
            os.makedirs(os.path.join(scratch, 'nb_' + m), exist_ok=True)
            p = subprocess.Popen(
                [PY, '-m', 'msv.worker', a.prop.lower(), cf, of],
                cwd=scratch, env=worker_env(scratch, m), stdout=lf, stderr=lf,
                stdin=subprocess.DEVNULL,
            )
            procs.append((p, of, sh, lf))
        for p, of, sh, lf in procs:
            try:
                p.wait(max(1, limit - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            lf.close()
            got = []
            if os.path.exists(of):
                with open(of) as f:
                    for line in f:
                        if line.endswith('\n'):
                            got.append(json.loads(line))
            results += got
            done = {g['id'] for g in got}
            missing = [c for c in sh if c['id'] not in done]
            if missing:
                with open(lf.name) as f:
                    log = f.read()[-1500:]
                if p.returncode is not None and p.returncode in (-11, -6, -7, -4, -8):
                    # the interpreter died inside the code under test
                    results.append(dict(
                        id=missing[0]['id'], keys=[], n=0, stats={},
                        viol=[dict(key='crash', msg='process died with signal %d while running '
                                   'this case: %s' % (-p.returncode, log[-400:]))]))
                else:
                    errors.append('worker rc=%s left %d cases undone: %s' % (
                        p.returncode, len(missing), log))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    by_id = {c['id']: c for c in cases}
    known = load_known(a.prop)
    viols, knowns = [], {}
    keys, stats, n_eval, samples = set(), {}, 0, []
    for r in sorted(results, key=lambda r: r['id']):
        n_eval += 1
        for k in r.get('keys', []):
            keys.add(k)
        for k, v in r.get('stats', {}).items():
            if k.startswith('max_'):
                stats[k] = max(stats.get(k, v), v)
            elif k.startswith('min_'):
                stats[k] = min(stats.get(k, v), v)
            else:
                stats[k] = stats.get(k, 0) + v
        if r.get('sample') is not None and len(samples) < 6:
            samples.append(r['sample'])
        for v in r.get('viol', []):
            if v.get('key') in known:
                knowns.setdefault(v['key'], v)
            else:
                viols.append((r['id'], v))
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    if not a.replay:
        for f in os.listdir(rdir):
            if f.startswith(a.prop + '-'):
                os.remove(os.path.join(rdir, f))
    lines, seen = [], set()
    for cid, v in viols:
        if cid in seen or len(lines) >= 5:
            continue
        seen.add(cid)
        path = os.path.join(rdir, '%s-%d.json' % (a.prop, len(lines)))
        with open(path, 'w') as f:
            json.dump(dict(property=a.prop, case=by_id.get(cid), violation=v), f, indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (a.prop, path))
        print('# %s case %s: %s' % (a.prop, cid, v.get('msg', '')[:600]))
    for k, v in knowns.items():
        print('KNOWN-FINDING: property=%s %s' % (a.prop, known[k]['what']))
    for k, d in known.items():
        if k not in knowns and not a.replay:
            print('# listed finding not reproduced on this run: %s' % k)
    if hasattr(mod, 'finish'):
        # cross-case verdicts and minimum-reach requirements
        for v in mod.finish(results, by_id, stats):
            if v.get('key') in known:
                continue
            path = os.path.join(rdir, '%s-%d.json' % (a.prop, len(lines)))
            with open(path, 'w') as f:
                json.dump(dict(property=a.prop, case=v.get('case'), violation=v), f, indent=1)
            lines.append('VIOLATION property=%s replay=%s' % (a.prop, path))
            viols.append((-1, v))
            print('# %s: %s' % (a.prop, v['msg'][:600]))
    wall = time.time() - t0
    modes_n = {}
    for r in results:
        m = by_id.get(r['id'], {}).get('mode', '?')
        modes_n[m] = modes_n.get(m, 0) + 1
    if not a.replay:
        ev = dict(
            property=a.prop, tier=tier, seed=a.seed, level='exploration',
            coverage=dict(
                evaluations=n_eval, distinct_nontrivial=len(keys), rule=mod.RULE,
                samples=samples or [str(c)[:300] for c in cases[:2]],
                observed={k: (round(v, 9) if isinstance(v, float) else v)
                          for k, v in sorted(stats.items())},
                executions_by_mode=modes_n,
                tree=tree_id(),
            ),
            assumptions=getattr(mod, 'ASSUMPTIONS', []),
            wall_s=round(wall, 2), violations=len(viols),
        )
        with open(os.path.join(EVID, a.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for ln in lines:
        print(ln)
    print('# %s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %d errors, %.1fs %s'
          % (a.prop, tier, a.seed, n_eval, len(keys), len(viols), len(errors), wall, modes_n))
    if a.verbose:
        print(json.dumps(stats, indent=1))
    if lines:
        return 1
    if errors:
        for e in errors:
            sys.stderr.write(e + '\n')
        return 2
    return 0


def tree_id():
    h = hashlib.sha256()
    base = os.path.join(REPO, 'multisim')
    for d, ds, fs in sorted(os.walk(base)):
        ds[:] = sorted(x for x in ds if x != '__pycache__')
        for f in sorted(fs):
            if f.endswith('.py'):
                with open(os.path.join(d, f), 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]
