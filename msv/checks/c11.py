"""C11: saturation, slope and actuator limits."""
from .. import ctrl, lib, nets

RULE = ('one evaluation = one simulation with a tightly limited actuator whose recorded value was checked in every step against the '
        'actuator limits, the saturation, the slope limits and the exact limited control law; distinct = (actuator, controller, '
        'processing mode, slope, limit states seen)')
ASSUMPTIONS = ['interpreted kernels (numba disabled); compiled equivalence is C25',
               'slope limits bound the controller output, which starts at zero']


def gen(tier, seed):
    n = 240 if tier == 'quick' else 1600
    return [dict(seed='c11_%d_%d' % (seed, i), tf=float(lib.rng('c11', seed, i).choice([8, 15, 30])), i=i) for i in range(n)]


def run(c):
    from .. import scen
    v, r = lib.V(), lib.rng(c['seed'])
    act = 'valve' if c['i'] % 3 == 2 else 'pump'
    s, a = ctrl.plant(r, c['tf'], act, wide=r.random() < 0.2)
    part, port, cell = ctrl.sensor(r, s)
    mode = 'part_specific' if act == 'valve' or r.random() < 0.5 else 'direct'
    sc = a['scale'] / (a.get('maximum_flow', 1.0) if mode == 'part_specific' else 1.0)
    sat = (r.choice([0.0, -sc, 0.1 * sc]), sc * r.uniform(0.4, 2.0))
    slope = (0, 0)
    if r.random() < 0.6:
        slope = (-sc / r.uniform(0.5, 20), sc / r.uniform(0.5, 20))
    kw = ctrl.base_kw(r, a['part'], part, port, CV_saturation=nets.tup(*sat), slope=nets.tup(*slope), process_CV_mode=mode)
    typ = r.choice(['PID', 'PID', 'BangBang', 'TwoSensors'])
    if typ == 'PID':
        kw.update(ctrl.pid_kw(r, 3 * sc, c['tf']))
    elif typ == 'BangBang':
        kw.update(ctrl.bb_kw(r, 1.0))
    x = dict(a=a, part=part, cell=cell, sp=lambda k: kw['setpoint'])
    if typ == 'TwoSensors':
        op, oport, oc = ctrl.sensor(r, s)
        kw.update(on_sensor_part=op, on_sensor_port=oport, activation_value=round(r.uniform(25, 65), 2),
                  activation_sign=r.choice(['greater', 'lower']), deactivation_sign=r.choice(['greater', 'lower']),
                  silence_slope_warning=True)
        x['on'] = (op, oc)
    ctrl.steady(typ, kw)
    x['c'] = dict(t=typ, n='c', kw=kw)
    s['ctrls'] = [x['c']]
    tr = scen.trace(scen.run(s))
    t = tr['t']
    o = ctrl.observed(tr, a)
    f = a['maximum_flow'] if mode == 'part_specific' and act == 'pump' else 1.0
    for k in range(2, len(t)):
        # (1) actuator limits and saturation hold whatever the law is
        v.chk(a['lower_limit'] - 1e-9 <= o[k] <= a['upper_limit'] + 1e-9, 'limit',
              lambda: '%s %s at %.9g in step %d, limits are %.9g..%.9g' % (act, a['part'], o[k], k, a['lower_limit'], a['upper_limit']))
        # (2) slope of the output (actuator clipping is non-expansive)
        if slope != (0, 0) and k > 2:
            dt = t[k - 1] - t[k - 2]
            d = (o[k] - o[k - 1]) / f
            v.chk(slope[0] * dt - 1e-9 <= d <= slope[1] * dt + 1e-9, 'slope',
                  lambda: '%s %s changed by %.9g in step %d (dt=%.6g), allowed slope %s' % (act, a['part'], d, k, dt, slope))
    seen, st = ctrl.follow(v, 'limited', tr, [x])
    key = '%s %s %s slope%d' % (act, typ, mode, slope != (0, 0))
    return dict(viol=v, keys=[key + ' %d%d%d%d' % q[1:5] for q in st], stats=dict(seen, steps=len(t) - 1),
                sample=dict(law=key, steps=len(t) - 1, clipped=seen['clipped']))
