"""C10: two-point controllers."""
from .. import ctrl, lib, nets
from . import c08

RULE = ('one evaluation = one simulation with a bang-bang or two-sensor controlled pump or valve whose switching state was compared in '
        'every step with the thresholds; distinct = (controller, hysteresis class or signs, inversion, switching states seen)')
ASSUMPTIONS = ['interpreted kernels (numba disabled); compiled equivalence is C25',
               'a process value within 1e-9 K of a threshold may count for either side']


def gen(tier, seed):
    n = 240 if tier == 'quick' else 1600
    return [dict(seed='c10_%d_%d' % (seed, i), tf=float(lib.rng('c10', seed, i).choice([8, 15, 30])), i=i) for i in range(n)]


def run(c):
    from .. import scen
    v, r = lib.V(), lib.rng(c['seed'])
    act = 'valve' if c['i'] % 5 == 4 else 'pump'
    s, a = ctrl.plant(r, c['tf'], act, wide=True)
    part, port, cell = ctrl.sensor(r, s)
    on = a['scale'] * r.uniform(0.3, 1.0)
    off = r.choice([0.0, 0.0, 0.2 * on])
    kw = ctrl.base_kw(r, a['part'], part, port, CV_saturation=nets.tup(0.0, on), off_state=off, invert=r.random() < 0.3)
    kw['setpoint'] = round(r.uniform(25, 65), 2)
    if act == 'valve':
        kw['process_CV_mode'] = 'part_specific'
    x = dict(a=a, part=part, cell=cell, sp=lambda k: kw['setpoint'])
    t2 = c['i'] % 2
    if t2:
        op, oport, oc = ctrl.sensor(r, s)
        kw.update(on_sensor_part=op, on_sensor_port=oport, activation_value=round(r.uniform(25, 65), 2),
                  activation_sign=r.choice(['greater', 'lower']), deactivation_sign=r.choice(['greater', 'lower']))
        x['on'] = (op, oc)
        lab = 'two %s/%s' % (kw['activation_sign'], kw['deactivation_sign'])
    else:
        kw.update(ctrl.bb_kw(r, 1.0))
        lab = 'bb %+d' % (0 if kw['hysteresis'] == 0 else 1 if kw['hysteresis'] > 0 else -1)
    sk = r.choice(['const', 'const', 'ref', 'series'])
    if sk == 'ref':
        rp, rport, rc = ctrl.sensor(r, s)
        del kw['setpoint']
        kw.update(reference_part=rp, reference_port=rport, ref_SP_diff=round(r.uniform(-10, 10), 2))
        x['ref'] = (rp, rc)
    ctrl.steady('', kw)
    x['c'] = dict(t='TwoSensors' if t2 else 'BangBang', n='c', kw=kw)
    s['ctrls'] = [x['c']]
    if sk == 'series':
        dt = a['bcdt']
        q, _ = c08.series(r, int(c['tf'] / dt) + 3, 25.0, 65.0)
        s['dyn'] = [dict(control='c', time_series=nets.ts(q, dt))]
    tr = scen.trace(scen.run(s))
    t = tr['t']
    if sk == 'series':
        x['sp'] = lambda k: c08.val(q, dt, t[k - 1])
    seen, st = ctrl.follow(v, 'two', tr, [x])
    key = '%s %s i%d %s off%d' % (act, lab, kw['invert'], sk, off > 0)
    return dict(viol=v, keys=[key + ' %d%d' % q[3:5] for q in st], stats=dict(seen, steps=len(t) - 1, switched=int(seen['moved'] > 1)),
                sample=dict(law=key, steps=len(t) - 1, switches=seen['moved']))


def finish(results, by_id, stats):
    if len(results) >= 50 and not stats.get('switched', 0) > 0.15 * len(results):
        return [dict(key='reach', msg='the two-point controllers hardly ever switched: %s' % stats)]
    return []
