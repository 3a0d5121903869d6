"""C20: resetting an environment."""
import shutil

import numpy as np

from .. import lib, nets

RULE = ('one evaluation = one environment simulated, reset and simulated again (several times); the records of every run are compared bit '
        'for bit with those of the first one and of a fresh environment; distinct = (network, saving, number of resets, dynamic boundaries)')
ASSUMPTIONS = ['interpreted kernels (numba disabled); compiled equivalence is C25', 'runs are deterministic (C19)']


def gen(tier, seed):
    n = 90 if tier == 'quick' else 1000
    fams = ['chain', 'branched', 'tes', 'valve', 'conn3', 'loop', 'mixloop', 'heated', 'rnet', 'chp', 'hexu', 'hexi', 'hexe', 'ctrl', 'ctrl', 'c9',
            'enlarge', 'hp']
    out = []
    for i in range(n):
        r = lib.rng('c20', seed, i)
        f = fams[i % len(fams)]
        tf = r.choice([3.0, 10.0, 20.0])
        if 'hex' in f:
            tf = 3.0
        if f == 'chp':
            tf = r.choice([100.0, 400.0])
        out.append(dict(fam=f, seed='c20_%d_%d' % (seed, i), tf=tf, save=['mem', 'mem', 'chunk', 'mem'][(i // len(fams) + i) % 4],
                        times=r.choice([1, 1, 2]), early=r.random() < 0.2, w=2))
    out += [dict(out[-1 - 2 * i], fam='hexc', seed='c20_x%d_%d' % (seed, i), tf=5.0) for i in range(4 if tier == 'quick' else 40)]
    return out


def spec(c, r):
    f, tf = c['fam'], c['tf']
    if f == 'chp':
        from . import c15
        return c15.build(dict(tf=tf, hot=r.random() < 0.3), r)[0]
    if f == 'ctrl':
        from . import c12
        return c12.build(dict(kind=r.choice(['ctrl', 'ctrl', 'part', 'dead']), tf=tf), r)[0]
    if f == 'c9':
        from . import c12
        from .. import ctrl
        s, a = ctrl.plant(r, tf, r.choice(['pump', 'valve']), wide=False)
        x = c12.one(r, s, a, tf, r.choice(['PID', 'BangBang']))
        s['ctrls'] = [x['c']]
        return s
    if f == 'enlarge':
        return lib.fam_spec(dict(c, fam=r.choice(['chain', 'tes', 'valve', 'heated']), tf=1.0, tfkw=dict(max_stepsize=0.004)))
    if f == 'hp':
        return nets.heated(r, tf=tf).s
    s = lib.fam_spec(dict(c, tfkw=dict(max_stepsize=r.choice([100.0, 1.0]))))
    if r.random() < 0.6:
        for q in s['bcs']:
            if q.get('const', True) and r.random() < 0.7:
                q.update(const=False, T=nets.ts([round(r.uniform(15, 80), 2) for _ in range(int(tf) + 3)], 1.0))
        for p in s['parts']:
            if p['t'] == 'PipeWithPump' and r.random() < 0.7 and 'time_series' not in p['kw'] and not p['kw'].get('ctrl_required'):
                f0 = p['kw'].get('start_massflow', 0.1) or 0.1
                x = [abs(f0) * r.choice([1.0, 1.0, 0.5, 0.2]) for _ in range(int(tf) + 3)]
                p['kw'].pop('const_val', None)
                p['kw'].update(start_massflow=x[0], time_series=nets.ts(x, 1.0))
    return s


def extra(e):
    return dict(sim=dict(err=np.array(e._sys_trnc_err), failed=np.array(e._failed_steps, dtype=float), state=np.array(e._solver_state, dtype=float)),
                t=np.array(e.time_vec))


def run(c):
    from .. import scen
    v, r = lib.V(), lib.rng(c['seed'], 'k')
    s = spec(c, r)
    d = None
    if c['save'] == 'chunk':
        o, d = lib.disk(save_every_n_steps=r.choice([5, 17, 60]))
        s = dict(s, disk=o)
    with scen.quiet():
        f = scen.build(dict(s, disk=None))
        scen.init(f, s)
        f.start_sim()
        a, xa = scen.trace(f), extra(f)
        e = scen.build(s)
        scen.init(e, s)
    nv = sum(x['res'].size for p, x in a.items() if p not in ('t', 'dtv'))
    n = 0
    if c['early']:
        with scen.quiet():
            e.initialize_sim(build_simenv=False, reset_simenv=True)
    for k in range(c['times'] + 1):
        with scen.quiet():
            if k and c['save'] == 'chunk':
                e.set_disksaving(**scen.dec(dict(s['disk'], sim_name='s%d' % k)))
            if k:
                e.initialize_sim(build_simenv=False, reset_simenv=True)
            e.start_sim()
        b = scen.trace(e)
        q = lib.diff_traces(a, b) or lib.diff_traces(xa, extra(e))
        n += nv
        what = 'run %d%s (%s, %d rows)' % (k + 1, ' after an early reset' if c['early'] else '', c['save'], len(a['t']))
        if not v.chk(q is None, 'rerun' if k else 'first', lambda: '%s: %s' % (what, q)):
            break
        if c['save'] == 'chunk':
            R = e.return_stored_data()
            for p in a:
                if p in ('t', 'dtv'):
                    continue
                y = R[p]['res'].to_numpy()
                v.chk(np.array_equal(y, a[p]['res'].reshape(len(a['t']), -1)), 'stored', lambda: '%s: stored temperatures of %s have shape %s' % (what, p, y.shape))
    if d:
        shutil.rmtree(d, ignore_errors=True)
    dyn = any(isinstance(q['T'], dict) for q in s['bcs'])
    return dict(viol=v, keys=['%s %s %d %d %d' % (c['fam'], c['save'], c['times'], dyn, c['early'])], stats=dict(values=n, rows=len(a['t']), reruns=c['times']),
                sample=dict(c, rows=len(a['t'])))
