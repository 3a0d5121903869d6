"""C09: PID controllers."""
from .. import ctrl, lib, nets
from . import c08

RULE = ('one evaluation = one simulation with a PID controlled pump or valve whose actuator was compared in every step with the PID '
        'law replayed from the recorded process values and set points; distinct = (terms, tuning, time domain, filter, wind-up '
        'limit, set point kind, saturation states seen)')
ASSUMPTIONS = ['interpreted kernels (numba disabled); compiled equivalence is C25',
               'the actuator is observed through the recorded flows, the process values through the recorded temperatures']


def gen(tier, seed):
    n = 220 if tier == 'quick' else 1600
    return [dict(seed='c09_%d_%d' % (seed, i), tf=float(lib.rng('c09', seed, i).choice([6, 12, 25])), i=i) for i in range(n)]


def run(c):
    from .. import scen
    v, r = lib.V(), lib.rng(c['seed'])
    act = 'valve' if c['i'] % 5 == 4 else 'pump'
    s, a = ctrl.plant(r, c['tf'], act, wide=True)
    part, port, cell = ctrl.sensor(r, s)
    kw = ctrl.base_kw(r, a['part'], part, port)
    kw.update(ctrl.pid_kw(r, a['scale'], c['tf']))
    if act == 'valve':
        kw['process_CV_mode'] = 'part_specific'
    x = dict(a=a, part=part, cell=cell, sp=lambda k: kw['setpoint'])
    sk = r.choice(['const', 'const', 'ref', 'series'])
    if sk == 'ref':
        rp, rport, rc = ctrl.sensor(r, s)
        del kw['setpoint']
        kw.update(reference_part=rp, reference_port=rport, ref_SP_diff=round(r.uniform(-10, 10), 2))
        x['ref'] = (rp, rc)
    ctrl.steady('PID', kw)
    x['c'] = dict(t='PID', n='c', kw=kw)
    s['ctrls'] = [x['c']]
    if sk == 'series':
        dt = a['bcdt']
        q, _ = c08.series(r, int(c['tf'] / dt) + 3, 15.0, 75.0)
        s['dyn'] = [dict(control='c', time_series=nets.ts(q, dt))]
    tr = scen.trace(scen.run(s))
    t = tr['t']
    if sk == 'series':
        x['sp'] = lambda k: c08.val(q, dt, t[k - 1])
    seen, st = ctrl.follow(v, 'pid', tr, [x])
    key = '%s %s %s %s f%d aw%s m%d i%d %s' % (act, kw['terms'], kw['loop_tuning'], kw['time_domain'], bool(kw['filter_derivative']),
                                         str(kw['anti_windup'])[:4] if isinstance(kw['anti_windup'], str) else kw['anti_windup'] < 1e8,
                                         'K_mult' in kw, kw['invert'], sk)
    return dict(viol=v, keys=[key + ' %d%d%d%d' % q[1:5] for q in st], stats=dict(seen, steps=len(t) - 1),
                sample=dict(law=key, steps=len(t) - 1, moved=seen['moved']))


def finish(results, by_id, stats):
    if len(results) >= 50 and not (stats.get('moved', 0) > 0.2 * stats.get('cmp', 1)):
        return [dict(key='reach', msg='the controlled actuators hardly ever moved: %s' % stats)]
    return []
