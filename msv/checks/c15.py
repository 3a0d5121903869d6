"""C15: CHP plants."""
import math

import numpy as np

from .. import ctrl, lib, nets

RULE = ('one evaluation = one simulation of a controlled CHP plant whose state, heat, power and gas records were followed by an '
        'independent state machine and whose cells were replayed with the recorded heat; distinct = (on at start, events seen, '
        'temperature limits reached)')
ASSUMPTIONS = ['interpreted kernels (numba disabled); compiled equivalence is C25',
               'the plant decides with the first attempted length of a step; where the step is shorter than the largest one the '
               'decision may be that of any length up to the largest one',
               'inlet temperature limit 75 °C for 120 s and 110 °C anywhere, start-up and shut-down curves of the documented plant']


def gen(tier, seed):
    n = 72 if tier == 'quick' else 800
    out = []
    for i in range(n):
        r = lib.rng('c15', seed, i)
        out.append(dict(seed='c15_%d_%d' % (seed, i), i=i, tf=r.choice([300.0, 500.0, 900.0, 1500.0] if i % 8 != 7 else [900.0, 1500.0]),
                        hot=i % 4 == 3, epi=i % 8 == 7, w=2))
    return out


def th(t):
    return 1 / (1 + (1 / 4.3715647889609857e-4 - 1) * math.exp(-8.61423130773867e-3 * t))


def el(t):
    return 4.6611096613889975 - (4.6611096613889975 + 3.6832212021813398e-09) * 0.9997484824090741 ** t


def gas(t):
    return el(t) / 0.32733 + th(t) / 0.6334


def shut(t):
    return 1.2532286835042036e-09 * (927.5198588530006 - t) ** 3


def lg(x, s, b, k):
    return s - (s - b) * k ** x


def heat_of(m):
    return lg(m, 0.60275, 0.972917, 3.5990506789130166)


def gas_of(m):
    return lg(m, -1.17, 0.995828402366862, 1.9507547298681704)


def clip(x):
    return min(1.0, max(0.0, x))


T_ON = next(t for t in range(1, 100000) if th(t) > 0.999)


def remaining(f):
    """seconds of the start-up curve which correspond to the heat left"""
    return min(range(1, T_ON + 1), key=lambda t: abs(th(t) - f)) - 1


def build(c, r):
    n = nets.Net(r, c['tf'])
    n.dn = r.choice(['DN40', 'DN50'])
    i, o = n.bc('i'), n.bc('o')
    g = r.randint(3, 6)
    P = float(r.choice([5e3, 2e4, 2e4, 5e4]))
    fl = round(P / 0.5 / 4180 / r.uniform(10, 25), 4)
    if c['hot']:
        fl = round(fl * (0.8 if c.get('epi') else 0.4), 4)
    lo = round(r.uniform(0.3, 0.6), 2)
    hi = r.choice([1.0, 1.0, round(r.uniform(0.7, 0.95), 2)])
    p2h, eta = r.choice([(0.516796, 0.32733), (0.5, 0.3), (0.6, 0.35), (0.45, 0.25)])
    kw = dict(power_electrical=P, eta_el=eta, p2h_ratio=p2h, modulation_range=nets.tup(lo, hi),
              max_slope_el=r.choice([0.005, 0.02, 0.05, 0.5]), min_off_time=float(r.choice([20, 60, 150])),
              min_on_time=float(r.choice([20, 60, 150])), theta_ff=83.5, no_control=False, lower_limit=0.0, upper_limit=1.0,
              connect_fluegas_hex=False, fluegas_flow=1.1)
    hs = r.choice(['all', 'range', 'single'])
    kw['heat_spread'] = hs
    cells = slice(0, g)
    if hs == 'range':
        a = r.randint(0, g - 2)
        b = r.randint(a + 1, g - 1)
        kw['heated_cells'] = nets.tup(a, b)
        cells = slice(a, b)
    elif hs == 'single':
        a = r.randint(0, g - 1)
        kw['heated_cells'] = a
        cells = slice(a, a + 1)
    if r.random() < 0.35:
        kw['chp_on_at_start'] = True
        kw['start_modulation'] = round(r.uniform(lo, hi), 2)
    T0 = round(r.uniform(30, 60), 1)
    gs = n.gs(g, T=T0, dn='DN80')
    gs['T_amb'] = max(gs['T_amb'], 5.0)
    n.part('CHPPlant', 'chp', length=round(g * r.uniform(0.8, 2.0), 2), grid_points=g, **kw, **gs)
    n.pump('pp', fl)
    n.pipe('u')
    uk = next(p for p in n.s['parts'] if p['n'] == 'u')['kw']
    uk['T_init'] = T0
    n.chain(i, ('u', 'in', 'out'), ('chp', 'in', 'out'), ('pp', 'in', 'out'), o)
    s = n.s
    # slowly varying inlet temperature drives the controller
    dt = 20.0
    m = int(c['tf'] / dt) + 3
    x = []
    a, b = r.uniform(0.02, 0.12), r.uniform(0, 6.28)
    if c['hot']:
        mid, amp = r.uniform(66, 74), r.uniform(6, 14)
    else:
        mid, amp = r.uniform(40, 55), r.uniform(8, 16)
    for k in range(m):
        x.append(round(mid + amp * math.sin(a * k + b) + r.uniform(-1, 1), 3))
    if c.get('epi'):
        # episodes of hot return water shorter than (sometimes as long as) the tolerated time
        x = []
        while len(x) < m:
            x += [round(r.uniform(77, 82), 2)] * r.choice([3, 4, 4, 5, 5, 7]) + [round(r.uniform(50, 66), 2)] * r.choice([1, 1, 2])
        x = x[:m]
        mid = 70.0
    for q in s['bcs']:
        if q['n'] == 'BC_i':
            q.update(const=False, T=nets.ts(x, dt))
    kp = round(r.uniform(0.02, 0.2), 4)
    ck = ctrl.base_kw(r, 'chp', 'u', r.choice([0, -1]), CV_saturation=nets.tup(0.0, 1.0),
                      setpoint=round(mid + (r.uniform(25, 40) if c.get('epi') else r.uniform(-3, 12)), 2), invert=False, time_domain='continuous')
    ck.update(terms='P', loop_tuning='manual', Kp=kp, adapt_coefficients=False, norm_timestep=1.0, anti_windup=1e9,
              filter_derivative=False)
    s['ctrls'] = [dict(t='PID', n='c', kw=ck)]
    dm = r.choice([0.5, 1.0, 2.0])
    s['tfkw'] = dict(max_stepsize=dm, rtol=0.1, atol=0.1)
    return s, kw, cells, g, dm, ck


def run(c):
    from .. import ref, scen
    v, r = lib.V(), lib.rng(c['seed'])
    s, kw, cells, g, dm, ck = build(c, r)
    tr = scen.trace(scen.run(s))
    t = tr['t']
    K = len(t)
    X = tr['chp']
    H = X['res']
    S = X['_chp_state'].reshape(K, -1)[:, 0]
    Q = X['res_dQ'].reshape(K, -1)[:, 0]
    E = X['res_Pel'].reshape(K, -1)[:, 0]
    G = X['res_Pgas'].reshape(K, -1)[:, 0]
    U = tr['u']['res']
    cell = 0 if ck['controlled_port'] == 0 else U.shape[1] - 1
    P, (lo, hi) = kw['power_electrical'], kw['modulation_range']['__tup__']
    fth = 1 / heat_of(1.0) / kw['p2h_ratio'] * P
    fga = 1 / gas_of(1.0) / kw['eta_el'] * P
    ev = set()
    st = dict(steps=K - 1, starts=0, stops=0, warm_starts=0, held_on=0, held_off=0, ramped=0, hot_stops=0, exact=0, on_steps=0, full_length=0)
    on0 = bool(kw.get('chp_on_at_start')) and kw.get('start_modulation', 0) >= lo
    v.chk(S[0] == (kw['start_modulation'] if on0 else 0.0), 'start', lambda: 'plant state %.6g recorded at the start' % S[0])
    # intervals
    INF = 1e9
    onat = [-kw['min_on_time']] * 2 if on0 else [0.0, 0.0]
    offat = [onat[0] - 1] * 2 if on0 else [-kw['min_off_time'] - 1] * 2
    done = on0          # start-up finished: True, False or None (unknown)
    rem = [0, 0]
    last = 0.0
    cooling = False     # shut-down ramp running
    fac = [0.0, 0.0]    # shut-down factor of the last step
    timer = [0.0, 0.0]
    refc = ctrl.Ref(s['ctrls'][0], dict(kind='chp', part='chp', lower_limit=0.0, upper_limit=1.0))
    u = kw.get('start_modulation', 0)
    for k in range(1, K):
        h = t[k] - t[k - 1]
        amax = max(h, dm)
        st['full_length'] += h >= dm * (1 - 1e-9)
        now = [t[k], t[k - 1] + amax]
        cmd = min(u, hi)
        want, was, on = cmd >= lo, S[k - 1] != 0.0, S[k] != 0.0
        Tin, Tmx = H[k - 1][0], H[k - 1].max()
        hotT = Tin > 75.0 or Tmx > 110.0
        ctx = 'step %d (t=%.6g, h=%.4g): command %.9g, state before %.9g, recorded %.9g' % (k, t[k], h, u, S[k - 1], S[k])
        # expected set of states, before the temperature monitor
        A = []
        if was and not want:
            a, b = now[0] - onat[1], now[1] - onat[0]
            if kw['min_on_time'] > a - 1e-9:
                A.append((lo, lo))
                if kw['min_on_time'] > b + 1e-9:
                    st['held_on'] += 1
            if kw['min_on_time'] <= b + 1e-9:
                A.append((0.0, 0.0))
        elif want and not was:
            a, b = now[0] - offat[1], now[1] - offat[0]
            if hotT or kw['min_off_time'] > a - 1e-9:
                A.append((0.0, 0.0))
                if hotT or kw['min_off_time'] > b + 1e-9:
                    st['held_off'] += 1
            if not hotT and kw['min_off_time'] <= b + 1e-9:
                A.append((cmd, cmd))
        elif want:
            d = cmd - S[k - 1]
            x, y = kw['max_slope_el'] * h, kw['max_slope_el'] * amax
            if abs(d) <= x:
                A.append((cmd, cmd))
            else:
                z = math.copysign(1, d)
                A.append(tuple(sorted((S[k - 1] + z * x, S[k - 1] + z * min(y, abs(d))))))
                st['ramped'] += 1
        else:
            A.append((0.0, 0.0))
        # temperature monitor
        tripped = False
        if any(x[1] > 0 for x in A) and hotT:
            if Tmx > 110.0:
                A, tripped = [(0.0, 0.0)], True
            elif timer[0] > 120.0:
                A, tripped = [(0.0, 0.0)], True
            elif timer[1] > 120.0:
                A.append((0.0, 0.0))
                tripped = None
            timer = [timer[0] + h, timer[1] + amax] if on else [0.0, 0.0]
        else:
            timer = [0.0, 0.0]
        ok = any(a - 1e-9 <= S[k] <= b + 1e-9 for a, b in A)
        v.chk(ok, 'state', lambda: '%s; allowed %s; inlet %.5g, hottest %.5g; on since %s, off since %s'
              % (ctx, A, Tin, Tmx, [round(x, 3) for x in onat], [round(x, 3) for x in offat]))
        if not ok:
            break
        if was and not on:
            st['stops'] += 1
            st['hot_stops'] += bool(tripped)
            offat = list(now)
            cooling = True
            last = Q[k - 1]
        if on and not was:
            st['starts'] += 1
            onat = list(now)
            done = False
            if fac[1] > 0.01 + 1e-9:
                st['warm_starts'] += 1
                rem = [remaining(fac[0]) if fac[0] > 0.01 else 0, remaining(fac[1])]
                if fac[0] > 0.01 and fac[0] < 0.01 + 1e-6:
                    rem[0] = 0
            else:
                rem = [0, 0]
            cooling = False
            fac = [0.0, 0.0]
        # outputs
        if on:
            st['on_steps'] += 1
            D = [now[0] - onat[1] + rem[0], now[1] - onat[0] + rem[1]]
            if done is not True:
                f = [[clip(z(max(d, 0.0))) for d in D] for z in (th, el, gas)]
                full = [[1.0, 1.0]] * 3
                if th(D[0]) > 0.999 + 1e-9:
                    f, done = full, True
                elif th(D[1]) > 0.999 - 1e-9:
                    f, done = [[x[0], 1.0] for x in f], None
            else:
                f = [[1.0, 1.0]] * 3
            if D[0] == D[1] or done is True:
                st['exact'] += 1
            for nm, rec, base, ff in (('heat', Q[k], fth * heat_of(S[k]), f[0]), ('power', E[k], P * S[k], f[1]),
                                      ('gas', G[k], fga * gas_of(S[k]), f[2])):
                v.chk(base * ff[0] * (1 - 1e-9) - 1e-6 <= rec <= base * ff[1] * (1 + 1e-9) + 1e-6, nm,
                      lambda: '%s: %s %.9g W, specified %.9g..%.9g W (start-up since %.5g s)' % (ctx, nm, rec, base * ff[0], base * ff[1], D[1]))
            if done is True:
                eta = (Q[k] + E[k]) / G[k]
                v.chk(0 < eta <= 1.0 + 1e-9, 'efficiency', lambda: '%s: total efficiency %.6g' % (ctx, eta))
        else:
            v.chk(E[k] == 0.0 and G[k] == 0.0, 'off', lambda: '%s: %.9g W power and %.9g W gas while off' % (ctx, E[k], G[k]))
            if cooling:
                d = [now[0] - offat[1], now[1] - offat[0]]
                if was:
                    d = [0.0, 0.0]
                fac = [shut(max(d[1], 0)), shut(max(d[0], 0))]
                fac = [0.0 if x < 0.01 - 1e-9 else x for x in fac]
                if fac[1] == 0.0:
                    cooling = False
            else:
                fac = [0.0, 0.0]
            a, b = last * fac[0], last * fac[1]
            if fac[0] < 0.0101:
                a = 0.0
            v.chk(a * (1 - 1e-9) - 1e-6 <= Q[k] <= b * (1 + 1e-9) + 1e-6, 'shut-down',
                  lambda: '%s: %.9g W heat while off, shut-down ramp gives %.9g..%.9g W' % (ctx, Q[k], a, b))
        v.chk(0 <= Q[k] <= P / kw['p2h_ratio'] * 1.000001 and 0 <= E[k] <= P * hi * 1.000001 and 0 <= G[k] <= P / kw['eta_el'] * 1.000001,
              'rating', lambda: '%s: heat %.9g, power %.9g, gas %.9g W beyond the ratings' % (ctx, Q[k], E[k], G[k]))
        # next command
        pv = float(U[k][cell])
        opts = refc.step(t[k], h, pv, ck['setpoint'], None, None)
        refc.cv = opts[0]
        u = refc.apply(opts[0])
    # the recorded heat is what warms the water
    nc = cells.stop - cells.start

    def heat(k):
        x = np.zeros(g)
        x[cells] = Q[k] / nc
        return x
    bs = next(q for q in s['bcs'] if q['n'] == 'BC_i')['T']['__ts__']
    bo = next(q for q in s['bcs'] if q['n'] == 'BC_o')['T']

    def bcs(k):
        x = dict(BC_i=bs['v'][int(t[k - 1] // bs['dt'])], BC_o=bo)
        return x, x
    rep = ref.Replay(s, heat={'chp': heat}, bcs=bcs)
    ex = nb = 0
    q = rep.net.parts['chp']
    for k, p, a, b, tol, sc, _ in rep.steps(tr, kmax=250):
        if p != 'chp':
            continue
        h = t[k] - t[k - 1]
        e = np.abs(a - b)
        num = 2e-9 * (1 + np.abs(a))
        if k <= 5:
            l = num + 2 * tol + h * 10 * q.At * (np.abs(q.Ta - a).max() + 0.1) / q.mcp(a)
        else:
            l = num + 0.05 * sc + 2 * tol + 0.004 * sc.max()
        nb += g
        ex += int((e <= num + 1e-3 * sc.max() + 2 * tol).all())
        if not (e <= l).all():
            j = int(np.argmax(e - l))
            v.add('cell', 'plant cell %d/%d (heated %d..%d) at step %d (h=%.4g, %.6g W): recorded %.12g, balance gives %.12g '
                  '(difference %.3g, allowed %.3g)' % (j, g, cells.start, cells.stop - 1, k, h, Q[k], b[j], a[j], e[j], l[j]))
    st['cells'] = nb
    ev = [x for x in ('starts', 'stops', 'warm_starts', 'held_on', 'held_off', 'ramped', 'hot_stops') if st[x]]
    return dict(viol=v, keys=['on%d %s' % (on0, '+'.join(ev))], stats=st, sample=dict(events=ev, **st))


def finish(results, by_id, stats):
    if len(results) > 60:
        for k, m in (('starts', 15), ('stops', 12), ('warm_starts', 2), ('held_on', 10), ('held_off', 10), ('ramped', 100), ('exact', 1000)):
            if stats.get(k, 0) < m:
                return [dict(key='reach', msg='too few observations (%s): %s' % (k, stats))]
    return []
