"""Controller workloads and the executable controller specification which is
replayed beside every recorded run."""
import copy
import math

import numpy as np

from . import lib, nets
from .checks import c08

ZN = {'P': {None: (0.5, None, None)}, 'PI': {None: (0.45, 0.85, None)}, 'PD': {None: (0.55, None, 0.15)},
      'PID': {'classic': (0.6, 0.5, 0.125), 'pessen-int': (0.7, 0.4, 0.15), 'some-os': (0.33, 0.5, 0.33),
              'no-os': (0.2, 0.5, 0.33)}}


# ------------------------------------------------------------------ reference
class Ref:
    """State machine of one controller, written from its documentation."""

    def __init__(self, c, act):
        self.t, self.k, self.act = c['t'], c['kw'], act
        k = self.k
        self.cv = 0.0
        self.e1 = self.e2 = 0.0
        self.I = 0.0
        self.D = 0.0
        self.hist = [(0.0, 25.0)]
        self.sgn = -1.0 if k['invert'] else 1.0
        self.sat = k['CV_saturation']['__tup__']
        self.slope = k['slope']['__tup__']
        if self.t == 'PID':
            T = k['terms']
            if k['loop_tuning'] == 'ziegler-nichols':
                a, n, v = ZN[T][k.get('rule') if T == 'PID' else None]
                kp = a * k['Kp_crit']
                ki = kp / (n * k['T_crit']) if n else 0.0
                kd = kp * v * k['T_crit'] if v else 0.0
            elif k['loop_tuning'] == 'tune':
                kp, ki, kd = k['Kp'], 0.0, 0.0
            else:
                kp = k['Kp'] if 'P' in T else 0.0
                ki = k['Ki'] if 'I' in T else 0.0
                kd = k['Kd'] if 'D' in T else 0.0
            m = k.get('K_mult', [1.0, 1.0, 1.0])
            self.K = kp * m[0], ki * m[1], kd * m[2]
            aw = k.get('anti_windup', math.inf)
            if k['loop_tuning'] == 'tune' or 'I' not in T:
                aw = math.inf
            elif isinstance(aw, str):
                aw = (float(aw.split('_')[1]) if '_' in aw else 1.0) / self.K[1]
            self.aw = aw
            self.rc = 1 / (2 * math.pi * k['cutoff_freq']) if 'D' in T and k.get('filter_derivative') else None

    def deriv(self, x, dt):
        if self.rc is None:
            self.D = x
        else:
            a = dt / (self.rc + dt)
            self.D = (1 - a) * self.D + a * x
        return self.D

    def pid(self, dt, e):
        kp, ki, kd = self.K
        lim = lambda x: max(-self.aw, min(self.aw, x))
        if self.k['time_domain'] == 'discrete':
            if ki != 0:
                u = lim(self.cv) + self.sgn * (kp * (e - self.e1) + ki * dt * e
                                               + kd / dt * self.deriv(e - 2 * self.e1 + self.e2, dt))
            else:
                u = self.sgn * (kp * e + kd / dt * self.deriv(e - self.e1, dt))
        else:
            self.I = lim(self.I + dt * e)
            u = self.sgn * (kp * e + ki * self.I + kd * self.deriv(e - self.e1, dt) / dt)
        return max(self.sat[0], min(self.sat[1], u))

    def step(self, t, dt, pv, sp, on=None, master_off=None):
        """returns the set of admissible controller outputs (two only if the
        process value sits on a threshold)"""
        k, prev = self.k, self.cv
        if self.t == 'PID':
            if k['deadtime']:
                self.hist.append((t, pv))
                h = np.array(self.hist)
                pv = float(np.interp(t - k['deadtime'], h[:, 0], h[:, 1]))
            e = sp - pv
            opts = [self.pid(dt, e)]
            self.e2, self.e1 = self.e1, e
        elif self.t == 'BangBang':
            h = abs(k['hysteresis']) / 2
            hi, lo = self.sgn * self.sat[1], self.sgn * k['off_state']
            if k['hysteresis'] < 0:
                hi, lo = lo, hi
            opts = []
            if pv < sp - h + 1e-9:
                opts.append(hi)
            if pv > sp + h - 1e-9:
                opts.append(lo)
            if sp - h - 1e-9 <= pv <= sp + h + 1e-9:
                opts.append(self.cv)
        else:
            up = k['activation_sign'] == 'greater'
            dn = k['deactivation_sign'] == 'greater'
            d = on - k['activation_value'] if up else k['activation_value'] - on
            x = [self.cv] if d < -1e-9 else [self.sgn * self.sat[1]] if d > 1e-9 else [self.cv, self.sgn * self.sat[1]]
            d = pv - sp if dn else sp - pv
            off = self.sgn * k['off_state']
            opts = x if d < -1e-9 else [off] if d > 1e-9 else x + [off]
        if k['sub_controller']:
            if bool(master_off) == (k['dependency_kind'] == 'concurrent'):
                opts = [float(k['off_state'])]
                self.I = 0.0
        if self.slope[0] or self.slope[1]:
            opts = [min(max(u, prev + self.slope[0] * dt), prev + self.slope[1] * dt) for u in opts]
        self.opts = opts
        return opts

    def apply(self, u):
        a = self.act
        x = u * a.get('maximum_flow', 1.0) if self.k['process_CV_mode'] == 'part_specific' and a['kind'] == 'pump' else u
        return max(a['lower_limit'], min(a['upper_limit'], x))


# ------------------------------------------------------------------ workload
def lims(r, wide):
    if wide:
        return -2.0, 2.0
    lo = r.choice([0.0, 0.0, 0.02, -0.1])
    return lo, round(lo + r.choice([0.05, 0.1, 0.3]), 3)


def flow_scale(n):
    return n.dnflow(0.4, 0.8)


def base_kw(r, act, part, port, **o):
    d = dict(actuator=act, process_CV_mode='direct', CV_saturation=nets.tup(-10.0, 10.0), controlled_part=part,
             controlled_port=port, reference_part='none', setpoint=round(r.uniform(20, 70), 2), sub_controller=False,
             off_state=0.0, time_domain=r.choice(['discrete', 'continuous']), deadtime=0.0, slope=nets.tup(0, 0),
             invert=r.random() < 0.5)
    d.update(o)
    return d


def steady(typ, kw):
    """declare a third of the controllers without dynamics as such"""
    if (typ != 'PID' or kw['terms'] == 'P') and sum(map(ord, repr(sorted(kw.items(), key=str)))) % 3 == 0:
        kw['steady_state'] = True


def pid_kw(r, scale, tf):
    """gains which give outputs of the order of scale"""
    T = r.choice(['P', 'PI', 'PI', 'PD', 'PID', 'PID'])
    lt = r.choice(['manual', 'manual', 'ziegler-nichols', 'ziegler-nichols', 'tune'])
    d = dict(terms=T, loop_tuning=lt, adapt_coefficients=False, norm_timestep=1.0)
    kp = scale / 30.0 * r.uniform(0.3, 1.5)
    kd = kp * r.uniform(0.01, 0.3)
    if lt == 'manual':
        if 'P' in T:
            d['Kp'] = kp
        if 'I' in T:
            d['Ki'] = kp / r.uniform(1.0, 20.0)
        if 'D' in T:
            d['Kd'] = kd
    elif lt == 'tune':
        d['Kp'] = kp
    else:
        d.update(Kp_crit=kp * 2, T_crit=round(r.uniform(1.0, 8.0), 3))
        if 'D' in T:
            d['T_crit'] = round(r.uniform(0.2, 1.0), 3)
        if T == 'PID':
            d['rule'] = r.choice(list(ZN['PID']))
    if r.random() < 0.3:
        d['K_mult'] = [round(r.uniform(0.5, 1.5), 2) for _ in range(3)]
    if 'I' in T:
        x = r.random()
        if x < 0.3:
            d['anti_windup'] = 1e9
        elif x < 0.65:
            # discrete: limits the output, continuous: limits the integral
            d['anti_windup'] = round(scale * r.uniform(0.2, 1.5), 5) if r.random() < 0.5 else round(r.uniform(5, 60), 3)
        elif lt != 'tune':
            d['anti_windup'] = r.choice(['auto_0.5', 'auto_1', 'auto_2', 'auto'])
        else:
            d['anti_windup'] = 1e9
    else:
        d['anti_windup'] = 1e9
    d['filter_derivative'] = False
    if 'D' in T and r.random() < 0.5:
        d.update(filter_derivative=True, cutoff_freq=round(r.choice([0.05, 0.5, 3.0]) * r.uniform(0.5, 1.5), 4))
    return d


def bb_kw(r, scale):
    return dict(hysteresis=round(r.choice([0.0, 2.0, 6.0, -2.0, -6.0, 15.0]) * r.uniform(0.5, 1.2), 2))


def sensor(r, spec, names=None):
    """a numeric part and one of its cells (as index, negative index or port)"""
    ps = [p for p in spec['parts'] if p['t'] in ('Pipe', 'PipeWithPump', 'PipeWith3wValve', 'PipeBranched', 'Tes', 'HeatedPipe')
          and (names is None or p['n'] in names)]
    p = r.choice(ps)
    g = p['kw']['grid_points']
    x = r.random()
    if x < 0.25 and p['t'] in ('Pipe', 'PipeWithPump'):
        q = r.choice(['in', 'out'])
        return p['n'], q, 0 if q == 'in' else g - 1
    c = r.randrange(g)
    if x < 0.5:
        return p['n'], c - g, c
    return p['n'], c, c


def series_bc(r, spec, tf, names, lo=5.0, hi=90.0):
    dt = r.choice([1.0, 2.0])
    m = int(tf / dt) + 3
    for b in spec['bcs']:
        if b['n'] in names:
            v, _ = c08.series(r, m, lo, hi)
            b.update(const=False, T=nets.ts(v, dt))
    return dt


def merge(a, b, suf):
    """two independent circuits in one environment"""
    a, b = copy.deepcopy(a), copy.deepcopy(b)
    for p in b['parts']:
        p['n'] += suf
    for x in b['bcs']:
        x['n'] += suf
    for c in b['conns']:
        for i in (0, 2):
            if c[i] == nets.B:
                c[i + 1] += suf
            else:
                c[i] += suf
    for k in ('parts', 'bcs', 'conns'):
        a[k] = a[k] + b[k]
    return a


def plant(r, tf, act='pump', wide=True, scale=None):
    """(spec, actuator description); the actuator part needs a controller"""
    lo, hi = lims(r, wide)
    if act == 'pump':
        n = nets.chain(r, tf=tf, pumpdm=dict(start_massflow=0.0, ctrl_required=True, lower_limit=lo, upper_limit=hi,
                                             maximum_flow=1.0))
        sc = n.dnflow(0.3, 0.7)
        kw = [p for p in n.s['parts'] if p['n'] == 'pu'][0]['kw']
        if not wide:
            lo = r.choice([0.0, 0.0, 0.1 * sc, -0.3 * sc])
            hi = lo + sc * r.uniform(0.3, 1.0)
        else:
            lo, hi = -3 * sc, 3 * sc
        kw.update(start_massflow=round(r.uniform(0, 1) * sc, 5), lower_limit=lo, upper_limit=hi,
                  maximum_flow=round(sc * r.uniform(0.5, 1.5), 5))
        a = dict(kind='pump', part='pu', lower_limit=lo, upper_limit=hi, maximum_flow=kw['maximum_flow'], scale=sc,
                 start=kw['start_massflow'])
        names = ['BC_i', 'BC_o']
    else:
        n = nets.valve(r, tf=tf)
        kw = [p for p in n.s['parts'] if p['n'] == 'v'][0]['kw']
        lo, hi = (0.0, 1.0) if wide else r.choice([(0.0, 1.0), (0.2, 0.8), (0.0, 0.5), (0.35, 0.4)])
        del kw['const_val']
        kw.update(ctrl_required=True, lower_limit=lo, upper_limit=hi)
        a = dict(kind='valve', part='v', lower_limit=lo, upper_limit=hi, scale=1.0, start=kw['start_portA_opening'])
        names = ['BC_a', 'BC_b', 'BC_c']
    a['bcdt'] = series_bc(r, n.s, tf, names)
    n.s['tfkw'] = dict(max_stepsize=a['bcdt'])
    return n.s, a


def observed(tr, a, suf=''):
    """recorded actuator value for each step"""
    if a['kind'] == 'pump':
        x = tr[a['part']]['res_dm']
        return x.reshape(len(x), -1)[:, 0].copy()
    if a['kind'] == 'heat':
        x = tr[a['part']]['res_dQ']
        return x.reshape(len(x), -1)[:, 0].copy()
    n = len(tr['t'])
    pu = tr['pu' + suf]['res_dm'].reshape(n, -1)[:, 0]
    pa = tr['pa' + suf]['res_dm'].reshape(n, -1)[:, 0]
    return np.abs(pa / pu)


def follow(v, key, tr, ctrls, tol=1e-7, kmax=None):
    """Replay all controllers beside the recorded run. ctrls: list of dicts
    c (controller spec), a (actuator), cell, sp (function of step), ref, on,
    master (index of controller or ('part', name, off))."""
    t = tr['t']
    n = len(t)
    refs = [Ref(x['c'], x['a']) for x in ctrls]
    obs = [observed(tr, x['a'], x.get('suf', '')) for x in ctrls]
    seen = dict(cmp=0, clipped=0, moved=0, off=0)
    states = set()
    for x, o in zip(ctrls, obs):
        v.chk(abs(o[1] - max(x['a']['lower_limit'], min(x['a']['upper_limit'], x['a']['start']))) <= tol * 10
              or abs(o[1] - x['a']['start']) <= tol * 10, key + '-start',
              lambda: 'actuator %s starts at %.9g instead of %.9g' % (x['a']['part'], o[1], x['a']['start']))
    last = n - 1 if kmax is None else min(n - 1, kmax)
    for k in range(1, last):
        dt = t[k] - t[k - 1]
        for i, (x, rf) in enumerate(zip(ctrls, refs)):
            pv = float(tr[x['part']]['res'][k].ravel()[x['cell']])
            if x.get('ref'):
                sp = float(tr[x['ref'][0]]['res'][k].ravel()[x['ref'][1]]) + x['c']['kw']['ref_SP_diff']
            else:
                sp = x['sp'](k)
            on = float(tr[x['on'][0]]['res'][k].ravel()[x['on'][1]]) if x.get('on') else None
            mo = None
            if x.get('master') is not None:
                m = x['master']
                if isinstance(m, int):
                    mo = obs[m][k + 1] == ctrls[m]['c']['kw']['off_state']
                else:
                    mo = tr[m[1]]['res_dm'][k].ravel()[0] == 0.0
                seen['off'] += bool(mo)
            opts = rf.step(t[k], dt, pv, sp, on, mo)
            got = obs[i][k + 1]
            best = min(opts, key=lambda u: abs(rf.apply(u) - got))
            w = rf.apply(best)
            if not abs(w - got) <= tol * max(1.0, abs(w)):
                v.add(key, '%s %s: after step %d (t=%.6g, dt=%.6g, process value %.9g, set point %.9g) the actuator %s is set to '
                      '%.9g, the control law gives %.9g' % (x['c']['t'], {a: b for a, b in x['c']['kw'].items() if a in (
                          'terms', 'loop_tuning', 'rule', 'time_domain', 'hysteresis', 'invert', 'deadtime', 'slope', 'anti_windup')},
                          k, t[k], dt, pv, sp, x['a']['part'], got, w))
                return seen, states
            rf.cv = best
            seen['cmp'] += 1
            seen['clipped'] += w != best
            seen['moved'] += abs(got - obs[i][k]) > 1e-9
            states.add((i, w <= x['a']['lower_limit'], w >= x['a']['upper_limit'], abs(best) >= abs(rf.sat[1]), best > 0, bool(mo)))
    return seen, states
