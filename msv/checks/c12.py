"""C12: dead time and controller hierarchies."""
from .. import ctrl, lib, nets

RULE = ('one evaluation = one simulation with a delayed controller or a master/sub controller pair, both compared in every step with '
        'the replayed control law; distinct = (kind, controller types, dependency, dead time class, master states seen)')
ASSUMPTIONS = ['interpreted kernels (numba disabled); compiled equivalence is C25',
               'before the start of the simulation the delay line of a dead time holds 25 degrees, as documented in the code']


def gen(tier, seed):
    n = 180 if tier == 'quick' else 1200
    return [dict(seed='c12_%d_%d' % (seed, i), tf=float(lib.rng('c12', seed, i).choice([8, 15, 30])), i=i,
                 kind=['dead', 'ctrl', 'part'][i % 3]) for i in range(n)]


def one(r, s, a, tf, typ, suf='', **o):
    part, port, cell = ctrl.sensor(r, s, names=[p['n'] for p in s['parts'] if p['n'].endswith(suf)] if suf else
                                   [p['n'] for p in s['parts'] if not p['n'].endswith('_z')])
    sc = a['scale']
    kw = ctrl.base_kw(r, a['part'], part, port, CV_saturation=nets.tup(0.0, sc), **o)
    if a['kind'] == 'valve':
        kw['process_CV_mode'] = 'part_specific'
    if typ == 'PID':
        kw.update(ctrl.pid_kw(r, sc, tf))
    else:
        kw.update(ctrl.bb_kw(r, 1.0))
        kw['setpoint'] = round(r.uniform(25, 65), 2)
    ctrl.steady(typ, kw)
    return dict(a=a, part=part, cell=cell, sp=lambda k: kw['setpoint'], c=dict(t=typ, n='c' + suf, kw=kw), suf=suf)


def build(c, r):
    if c['kind'] == 'dead':
        act = r.choice(['pump', 'pump', 'valve'])
        s, a = ctrl.plant(r, c['tf'], act, wide=True)
        x = one(r, s, a, c['tf'], 'PID')
        dt = round(r.choice([0.05, 0.3, 1.0, 3.0, 7.0, 40.0]) * r.uniform(0.5, 1.5), 3)
        x['c']['kw'].update(deadtime=dt, CV_saturation=nets.tup(-10.0, 10.0))
        s['ctrls'] = [x['c']]
        xs = [x]
        lab = '%s %s %g' % (act, x['c']['kw']['terms'], float('%.0e' % dt))
    else:
        sa, aa = ctrl.plant(r, c['tf'], r.choice(['pump', 'pump', 'valve']) if c['kind'] == 'part' else 'pump', wide=True)
        sb, ab = ctrl.plant(r, c['tf'], r.choice(['pump', 'pump', 'valve']), wide=True)
        dt = min(aa['bcdt'], ab['bcdt'])
        for b in sb['bcs'] + sa['bcs']:  # all series of one simulation share one time index
            t = b['T']['__ts__']
            m = int(c['tf'] / dt) + 3
            t.update(dt=dt, v=(t['v'] * 3)[:m])
        s = ctrl.merge(sa, sb, '_z')
        s['tfkw'] = dict(max_stepsize=dt)
        ab = dict(ab, part=ab['part'] + '_z')
        dep = r.choice(['concurrent', 'sequential'])
        tb = r.choice(['PID', 'BangBang'])
        y = one(r, s, ab, c['tf'], tb, suf='_z', off_state=r.choice([0.0, 0.0, 0.3]) * ab['scale'])
        y['c']['kw'].update(sub_controller=True, dependency_kind=dep)
        if c['kind'] == 'ctrl':
            ta = r.choice(['PID', 'BangBang'])
            x = one(r, s, aa, c['tf'], ta, off_state=r.choice([0.0, 0.0, 0.2]) * aa['scale'])
            if x['c']['kw']['off_state']:
                x['c']['kw']['CV_saturation'] = nets.tup(x['c']['kw']['off_state'], aa['scale'])
            y['c']['kw'].update(master_type='controller', master_controller='c')
            y['master'] = 0
            xs = [x, y]
            lab = '%s>%s %s' % (ta, tb, dep)
        else:
            # master is a pump with a flow profile
            for p in s['parts']:
                if p['n'] == 'pu':
                    for k in ('const_val', 'lower_limit', 'upper_limit', 'maximum_flow'):
                        p['kw'].pop(k, None)
                    m = int(c['tf'] / dt) + 3
                    f = [r.choice([0.0, 0.0, 0.05]) for _ in range(m)]
                    f = [f[i // 3 * 3] for i in range(m)]
                    p['kw'].update(ctrl_required=False, start_massflow=f[0], time_series=nets.ts(f, dt))
                if p['n'] == 'v':
                    p['kw'].update(ctrl_required=False, const_val=p['kw']['start_portA_opening'])
            y['c']['kw'].update(master_type='part', master_part='pu', master_variable='dm', master_variable_index=0)
            y['master'] = ('part', 'pu')
            xs = [y]
            lab = 'part>%s %s' % (tb, dep)
        s['ctrls'] = [q['c'] for q in xs]
    return s, xs, lab


def run(c):
    from .. import scen
    v, r = lib.V(), lib.rng(c['seed'])
    s, xs, lab = build(c, r)
    tr = scen.trace(scen.run(s))
    seen, st = ctrl.follow(v, c['kind'], tr, xs)
    return dict(viol=v, keys=['%s %s %d%d%d' % (c['kind'], lab, q[0], q[4], q[5]) for q in st],
                stats=dict(seen, steps=len(tr['t']) - 1), sample=dict(kind=c['kind'], what=lab, master_off=seen['off']))


def finish(results, by_id, stats):
    if len(results) >= 50 and not stats.get('off', 0) > 20:
        return [dict(key='reach', msg='no master was ever off: %s' % stats)]
    return []
