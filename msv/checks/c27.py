"""C27: invalid values stop the run and are reported."""
import contextlib
import csv
import glob
import io
import shutil

import numpy as np

from .. import ctrl, lib, nets

RULE = ('one evaluation = one simulation driven out of the valid range at a random time (or a healthy control run) with its records, console output and '
        'report; distinct = (network, fault, saving, outcome)')
ASSUMPTIONS = ['interpreted kernels (numba disabled)',
               'faults reach the solver through boundary temperatures outside the range of the water properties, NaN actuator values and NaN set points',
               'a run which raises an error counts as stopped and reported']

FAMS = ['chain', 'tes', 'branched', 'valve', 'conn3', 'hexu', 'rnet', 'heated', 'hexi']


def gen(tier, seed):
    n = 90 if tier == 'quick' else 900
    out = []
    for i in range(n):
        r = lib.rng('c27', seed, i)
        kind = ['hot', 'hot', 'healthy', 'hot', 'const', 'setp'][i % 6]
        f = FAMS[(i // 6 + i) % len(FAMS)]
        if kind in ('hot', 'healthy') and f == 'hexi':
            f = r.choice(['chain', 'tes', 'hexi'])
        out.append(dict(kind=kind, fam=f, seed='c27_%d_%d' % (seed, i), save=r.choice(['mem', 'enlarge', 'chunk', 'chunk']), w=2, timeout=150,
                        tf=r.choice([6.0, 12.0]), ms=r.choice([0.02, 0.05, 0.5]), ch=r.choice([50, 101, 150, 333])))
    return out


def run(c):
    from .. import scen
    v, r = lib.V(), lib.rng(c['seed'])
    tf, k = c['tf'], c['kind']
    ms_ = c['ms'] if c['fam'] != 'hexi' else 0.5
    if k == 'setp':
        from . import c12
        s, a = ctrl.plant(r, tf, r.choice(['pump', 'valve']), wide=False)
        s['ctrls'] = [c12.one(r, s, a, tf, 'PID')['c']]
        s['ctrls'][0]['kw']['setpoint'] = float('nan')
        s['tfkw'] = dict(max_stepsize=ms_)
    else:
        s = nets.heated(r, tf=tf).s if c['fam'] == 'heated' else lib.fam_spec(dict(fam=c['fam'], seed=c['seed'], tf=tf))
        s['tfkw'] = dict(max_stepsize=ms_)
        if k in ('hot', 'healthy'):
            n = int(tf) + 4
            at = r.randrange(0, int(tf) - 1)
            bad = r.choice([130.0, 180.0, 250.0, 400.0]) if k == 'hot' else 75.0
            for b in s['bcs']:
                t0 = r.uniform(20, 70)
                b.update(const=False, T=nets.ts([t0] * at + [bad] * (n - at), 1.0))
        else:
            for p in s['parts']:
                if p['t'] == 'PipeWithPump' and 'const_val' in p['kw']:
                    p['kw']['const_val'] = float('nan')
    s['quiet'] = r.random() < 0.5
    d = None
    if c['save'] == 'chunk':
        s['disk'], d = lib.disk(save_every_n_steps=c['ch'])
    elif c['save'] == 'enlarge':
        s['tfkw']['max_stepsize'] = min(ms_, 0.009)
        s['tf'] = 6.0
    out = io.StringIO()
    ctx = '%s, %s, %s' % (k, c['fam'] if k != 'setp' else 'controlled plant', c['save'])
    outcome, steps, bad_rows = 'raised', 0, 0
    try:
        with contextlib.redirect_stdout(out):
            e = scen.build(s)
            scen.init(e, s)
            tf = e.timeframe
            e.start_sim()
    except Exception as x:
        v.chk(k != 'healthy', 'healthy raised', lambda: '%s: %s: %s' % (ctx, type(x).__name__, str(x)[:100]))
        if isinstance(x, (IndexError, KeyError, AttributeError, NameError)):
            v.add('crash', '%s: %s: %s' % (ctx, type(x).__name__, str(x)[:100]))
        e = None
    if e is not None:
        tr = scen.trace(e)
        t, st = np.asarray(e.time_vec, dtype=float), np.asarray(getattr(e, '_solver_state', []))
        steps = len(t)
        nan = np.zeros(steps, bool)
        for n, p in e.parts.items():
            for q in ('res', 'res_dm'):
                x = tr[n].get(q)
                if x is not None and x.shape[0] == steps:
                    nan |= np.isnan(x.reshape(steps, -1)).any(axis=1)
        live = any(np.isnan(np.asarray(p.T, dtype=float)).any() or np.isnan(np.asarray(p.dm, dtype=float)).any() for p in e.parts.values())
        flag = bool((st == 98).any())
        rep = None
        if d is not None:
            f = glob.glob(d + '/*REPORT.csv')
            v.chk(len(f) == 1, 'report', '%s: %d reports written' % (ctx, len(f)))
            if f:
                with open(f[0]) as h:
                    rep = {q[0]: q[1] for q in csv.reader(h, delimiter=';') if len(q) > 1}
        if nan.any() or live:
            outcome = 'stopped'
            bad_rows = int(nan.sum())
            v.chk(flag or not st.size, 'flag', '%s: %d of %d recorded steps contain invalid values, but the run ends at %.4g of %.4g s without being marked as failed' % (
                ctx, bad_rows, steps, t[-1], tf))
            v.chk(nan[:-2].sum() == 0, 'stop', '%s: simulation goes on for %d steps after the first invalid value' % (ctx, steps - 1 - int(np.argmax(nan))))
            v.chk('nvalid value' in out.getvalue(), 'message', '%s: invalid values found, but no message printed' % ctx)
            if rep is not None:
                v.chk(rep.get('Simulation success') == 'False', 'report success', '%s: report says success %s for a run with invalid values' % (
                    ctx, rep.get('Simulation success')))
                v.chk(any('failed at' in q for q in rep) and 'nvalid' in rep.get('failure reason', ''), 'report reason', '%s: report does not name the failure: %s' % (
                    ctx, list(rep.items())[:4]))
        else:
            outcome = 'finished'
            v.chk(not flag and not (st == 99).any(), 'healthy flagged', '%s: valid run marked as failed' % ctx)
            v.chk(t[-1] >= tf - 1e-9, 'healthy short', '%s: valid run ends at %.6g of %.6g s' % (ctx, t[-1], tf))
            if rep is not None:
                v.chk(rep.get('Simulation success') == 'True' and any('solved in' in q for q in rep), 'report healthy', '%s: report of a valid run says success %s' % (
                    ctx, rep.get('Simulation success')))
                n_ = [q for w, q in rep.items() if 'solved in' in w]
                v.chk(not n_ or abs(int(n_[0]) - steps) <= 1, 'report steps', '%s: report gives %s steps, %d recorded' % (ctx, n_, steps))
    if d is not None:
        shutil.rmtree(d, ignore_errors=True)
    return dict(viol=v, keys=['%s %s' % (ctx, outcome)], stats={'steps': steps, 'runs_' + outcome: 1, 'invalid_rows': bad_rows}, sample=dict(c, outcome=outcome, steps=steps))


def finish(results, by_id, stats):
    if len(results) > 40 and stats.get('runs_stopped', 0) + stats.get('runs_raised', 0) < 10:
        return [dict(key='reach', msg='only %d runs reached an invalid state' % stats.get('runs_stopped', 0))]
    return []
