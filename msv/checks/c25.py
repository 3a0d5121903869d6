"""C25: memory safety of the compiled code, compiled == interpreted."""
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

from .. import ctrl, lib, nets

RULE = ('one evaluation = one batch of simulations of one network family executed by the compiled kernels under the bounds-checking sanitizer and by the '
        'interpreter; every recorded array is compared; distinct = (network, solver, saving, steps class)')
ASSUMPTIONS = ['bounds checking: numba boundscheck inserts a check on every array access of the compiled kernels; interpreted kernels are checked by numpy',
               'step sizes follow the truncation error, whose rounding differs between both executions: runs whose step sequences are equal are compared to 1e-7 K, '
               'others at the end of the run to 100 times the solver tolerance']

FAMS = ['chain', 'chain-impl', 'branched', 'tes', 'valve', 'conn3', 'heated', 'chp', 'hexu', 'hexi', 'hexe', 'mixloop', 'PID', 'BangBang', 'rnet']


def gen(tier, seed):
    n = 1 if tier == 'quick' else 6
    W = dict(chain=12, tes=16, hexi=30, hexe=12, chp=6, rnet=40, mixloop=12)
    return [dict(fam=f, seed='c25_%d_%s_%d' % (seed, f, i), k=8 if tier == 'quick' else 12, mode=m, grp='c25' + f + m, w=W.get(f, 10), timeout=800)
            for i in range(n) for f in FAMS for m in (('bc',) if tier == 'quick' else ('bc', 'jit'))]


def specs(c):
    r = lib.rng(c['seed'])
    out = []
    for j in range(c['k'] if c['fam'] != 'rnet' else 2):
        f = c['fam']
        tf = r.choice([2.0, 8.0, 20.0])
        if f.startswith('hex'):
            tf = 2.0
        kw = dict(max_stepsize=r.choice([100.0, 1.0, 0.2]))
        if f == 'chp':
            from . import c15
            s = c15.build(dict(tf=r.choice([50.0, 300.0]), hot=r.random() < 0.3), r)[0]
        elif f == 'heated':
            s = nets.heated(r, tf=tf).s
        elif f in ('PID', 'BangBang'):
            from . import c12
            s, a = ctrl.plant(r, tf, ['pump', 'valve'][j % 2], wide=False)
            s['ctrls'] = [c12.one(r, s, a, tf, f)['c']]
        else:
            s = lib.fam_spec(dict(fam=f.split('-')[0], seed='%s_%d' % (c['seed'], j), tf=tf, tfkw=kw))
            if f.endswith('impl'):
                s['impl'] = True
        how = ['mem', 'chunk', 'enlarge', 'mem'][j % 4]
        if how == 'enlarge' and not f.startswith('hex') and f not in ('chp', 'rnet'):
            s['tf'] = 1.0
            s['tfkw'] = dict(max_stepsize=0.004)
            for x in s['ctrls']:  # more delayed values than there is room for at the start
                if f in ('PID', 'BangBang'):
                    x['kw']['deadtime'] = round(r.uniform(0.05, 0.7), 3)
        s['_how'] = how
        out.append(s)
    return out


def simulate(ss):
    from .. import scen
    import shutil
    out = []
    for s in ss:
        s = dict(s)
        how, d = s.pop('_how'), None
        if how == 'chunk':
            s['disk'], d = lib.disk(save_every_n_steps=101)
        try:
            with scen.quiet():
                e = scen.run(s)
                tr = scen.trace(e)
                if d is not None:
                    tr['store'] = {k: np.asarray(w.values, dtype=float) for k, w in sorted(e.return_stored_data().items()) if 'sim_vecs' not in k} \
                        if hasattr(e.return_stored_data(), 'items') else {}
            out.append(('ok', tr))
        except Exception as x:
            import traceback
            out.append(('err', type(x).__name__, str(x)[:200], traceback.format_exc()[-400:]))
        finally:
            if d is not None:
                shutil.rmtree(d, ignore_errors=True)
    return out


def interpreted(c):
    e = dict(os.environ, NUMBA_DISABLE_JIT='1')
    e.pop('NUMBA_BOUNDSCHECK', None)
    f = tempfile.mktemp(dir=os.environ.get('MSV_SCRATCH'), suffix='.pkl')
    p = subprocess.run([sys.executable, '-m', 'msv.checks.c25', f], input=pickle.dumps(c), env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise RuntimeError('interpreter run failed: ' + p.stderr.decode()[-500:])
    with open(f, 'rb') as h:
        o = pickle.load(h)
    os.remove(f)
    return o


def compare(a, b):
    """(message or None, compared values, same steps)"""
    n, worst = 0, None
    st = a['t'].shape == b['t'].shape and np.allclose(a['t'], b['t'], rtol=1e-9, atol=1e-9)
    if a.keys() != b.keys():
        return 'different parts recorded', 0, st
    for p in a:
        if p in ('t', 'dtv'):
            continue
        if a[p].keys() != b[p].keys():
            return '%s: records %s and %s' % (p, sorted(a[p]), sorted(b[p])), n, st
        for k in a[p]:
            x, y = a[p][k], b[p][k]
            sc = 1.0 if k == 'res' or k.endswith('/res') else 1e-3 + float(np.nanmax(np.abs(y))) if y.size else 1.0
            if st:
                if x.shape != y.shape:
                    return '%s.%s: shape %s compiled, %s interpreted' % (p, k, x.shape, y.shape), n, st
                d = np.abs(x - y)
                n += x.size
                ok = bool(np.all((d <= 1e-7 * sc) | (np.isnan(x) & np.isnan(y))))
            else:
                if not x.size or not y.size:
                    continue
                d = np.abs(x[-1] - y[-1])
                n += d.size
                ok = k in ('_chp_state',) or bool(np.all(d <= (0.05 if sc == 1.0 else 2e-2 * sc)))
            if not ok:
                return '%s.%s differs by %.3g between compiled and interpreted execution%s' % (p, k, np.nanmax(d), '' if st else ' at the end of the run'), n, st
    return None, n, st


def run(c):
    v = lib.V()
    ss = specs(c)
    ci = simulate(ss)
    py = interpreted(c)
    keys, vals, steps, eq = set(), 0, 0, 0
    for s, a, b in zip(ss, ci, py):
        if a[0] == 'err' or b[0] == 'err':
            for nm, o in (('compiled', a), ('interpreted', b)):
                if o[0] == 'err' and o[1] == 'IndexError':
                    v.add('oob', '%s (%s): access outside an array in %s code: %s | %s' % (c['fam'], s['_how'], nm, o[2], o[3].replace('\n', ' ')[-250:]))
            v.chk(a[0] == b[0], 'error', lambda: '%s (%s): compiled run: %s; interpreted run: %s' % (c['fam'], s['_how'], a[:3] if a[0] == 'err' else 'ok', b[:3] if b[0] == 'err' else 'ok'))
            continue
        m, n, st = compare(a[1], b[1])
        vals += n
        eq += st
        steps += len(a[1]['t'])
        v.chk(m is None, 'differs', lambda: '%s (%s): %s' % (c['fam'], s['_how'], m))
        keys.add('%s %s %s %d' % (c['fam'], s['_how'], c['mode'], min(9, len(a[1]['t']) // 50)))
    return dict(viol=v, keys=sorted(keys), stats=dict(values_compared=vals, steps=steps, runs_equal_steps=eq, runs=len(ss)), sample=dict(c, values=vals))


if __name__ == '__main__':
    import logging
    logging.disable(logging.CRITICAL)
    cc = pickle.load(sys.stdin.buffer)
    oo = simulate(specs(cc))
    with open(sys.argv[1], 'wb') as hh:
        pickle.dump(oo, hh)
