"""C21: ill-formed descriptions are rejected."""
import copy
import json
import os

from .. import ctrl, lib, nets

RULE = ('one evaluation = one well-formed description which must be accepted and simulated, and a set of single mutations of it each of which must raise '
        'an error before the first step; distinct = (network, mutated element, mutation)')
ASSUMPTIONS = ['interpreted kernels (numba disabled)',
               'parts and controllers are constructed by initialize_sim, so most rejections happen there; an error raised by start_sim counts as too late',
               'scope: mutations which the argument documentation declares invalid (msv/data/reject.json lists argument and mutation per type); '
               'unknown extra keyword arguments and repeated identical connections are accepted by design']

FAMS = ['chain', 'branched', 'tes', 'valve', 'conn3', 'heated', 'hexu', 'hexi', 'chp', 'ctlPID', 'ctlBang', 'loop', 'mixloop']
TAB = json.load(open(os.path.join(os.path.dirname(__file__), '..', 'data', 'reject.json')))
VAL = dict(str='xyz', list=[1.0, 2.0], none=None, zero=0, nan=float('nan'), dict={'q': 1})


def gen(tier, seed):
    n = 3 if tier == 'quick' else 30
    return [dict(fam=f, seed='c21_%d_%s_%d' % (seed, f, i), part=i % 4, mode='py', w=3, timeout=400, frac=1.0)
            for f in FAMS for i in range(n)]


def spec(c, r):
    f = c['fam']
    if f == 'chp':
        from . import c15
        return c15.build(dict(tf=2.0, hot=r.random() < 0.3), r)[0]
    if f == 'heated':
        return nets.heated(r, tf=2.0).s
    if f.startswith('ctl'):
        from . import c12
        s, a = ctrl.plant(r, 2.0, r.choice(['pump', 'valve']), wide=False)
        s['ctrls'] = [c12.one(r, s, a, 2.0, 'PID' if f == 'ctlPID' else 'BangBang')['c']]
        return s
    return lib.fam_spec(dict(fam=f, seed=c['seed'], tf=2.0))


def kw_mutations(s):
    for sec in ('parts', 'ctrls'):
        for i, p in enumerate(s.get(sec, [])):
            for k, ms_ in TAB.get(p['t'], {}).items():
                if k not in p['kw'] or k in ('lower_limit', 'upper_limit', 'maximum_flow') and not p['kw'].get('ctrl_required', True):
                    continue  # limits of an actuator are only used if it is controlled
                v = p['kw'][k]
                num = isinstance(v, (int, float)) and not isinstance(v, bool)
                for m in ms_:
                    if m in ('neg', 'zero', 'nan') and (not num or v <= 0 and m != 'nan'):
                        continue
                    if m == 'list' and isinstance(v, list) or m == 'none' and v is None:
                        continue
                    t = copy.deepcopy(s)
                    if m == 'drop':
                        t[sec][i]['kw'].pop(k)
                    else:
                        t[sec][i]['kw'][k] = -v if m == 'neg' else copy.deepcopy(VAL[m])
                    yield '%s %s %s' % (p['t'], k, m), '%s `%s`: argument %s %s' % (
                        p['t'], p['n'], k, 'missing' if m == 'drop' else '= %r' % (t[sec][i]['kw'][k],)), t


def structure(s, r, fam=''):
    isb = lambda x: x == nets.B  # noqa: E731
    for i, q in enumerate(s['conns']):
        t = copy.deepcopy(s)
        t['conns'].pop(i)
        yield 'conn missing', 'connection %s missing' % q, t
        sides = [j for j in (0, 2) if not isb(q[j]) and not str(q[j]).startswith('BC')]
        for j in sides:
            t = copy.deepcopy(s)
            t['conns'][i][j] = 'nope'
            yield 'conn unknown part', 'connection to unknown part %s' % t['conns'][i], t
            t = copy.deepcopy(s)
            t['conns'][i][j + 1] = 'nope'
            yield 'conn unknown port', 'connection to unknown port %s' % t['conns'][i], t
            t = copy.deepcopy(s)
            t['bcs'].append(dict(n='BC_zz', T=20.0))
            x = q[j:j + 2] + [nets.B, 'BC_zz']
            t['conns'].insert(r.randrange(len(t['conns']) + 1), x if r.random() < 0.5 else x[2:] + x[:2])
            yield 'port twice', 'port %s connected twice' % q[j:j + 2], t
            t = copy.deepcopy(s)
            t['conns'][i] = q[j:j + 2] * 2
            t['bcs'] = [b for b in t['bcs'] if b['n'] not in q]
            yield 'port to itself', 'port %s connected to itself' % q[j:j + 2], t
        if len(s['conns']) > 2:
            o = r.choice([k for k in range(len(s['conns'])) if k != i])
            t = copy.deepcopy(s)
            w = s['conns'][o]
            j2 = [j for j in (0, 2) if not isb(w[j]) and not str(w[j]).startswith('BC')]
            if sides and j2 and w[j2[0]:j2[0] + 2] != q[sides[0]:sides[0] + 2]:
                t['conns'][i] = list(q)
                t['conns'][i][2 - sides[0]:4 - sides[0]] = w[j2[0]:j2[0] + 2]
                if sorted(map(str, t['conns'][i])) != sorted(map(str, w)) and sorted(map(str, t['conns'][i])) != sorted(map(str, q)):
                    yield 'port shared', 'connection %s replaced by %s, port also used by %s' % (q, t['conns'][i], w), t
    for i, p in enumerate(s['parts']):
        t = copy.deepcopy(s)
        t['parts'].append(copy.deepcopy(p))
        yield 'part twice', 'part %s added twice' % p['n'], t
        t = copy.deepcopy(s)
        t['parts'].pop(i)
        yield 'part missing', 'part %s missing' % p['n'], t
        if len(s['parts']) > 1:
            t = copy.deepcopy(s)
            o = s['parts'][(i + 1) % len(s['parts'])]
            t['parts'][i] = dict(copy.deepcopy(p), n=o['n'])
            yield 'part same name', 'two parts named %s' % o['n'], t
        kw = p['kw']
        if 'T_init' in kw and 'grid_points' in kw and p['t'] not in ('HexNum', 'HeatExchanger'):
            t = copy.deepcopy(s)
            t['parts'][i]['kw']['T_init'] = nets.nd([30.0] * (kw['grid_points'] + r.choice([1, 3, -1 if kw['grid_points'] > 3 else 2])))
            yield 'T_init shape', 'initial temperatures of %s with wrong length' % p['n'], t
        if p['t'] == 'PipeWith3wValve':
            for x, ok in ((kw['grid_points'] + 3, 0), (1.5, 0)):
                t = copy.deepcopy(s)
                t['parts'][i]['kw']['valve_location'] = x
                yield 'valve location', 'valve of %s at %r of %d cells' % (p['n'], x, kw['grid_points']), t
            t = copy.deepcopy(s)
            t['parts'][i]['kw']['start_portA_opening'] = 1.2
            yield 'valve opening', 'start opening 1.2', t
        if p['t'] in ('PipeBranched', 'Tes'):
            for nm, x in (('index out of range', [kw['grid_points'] + 2, 'index']), ('unknown position type', [1, 'foo']), ('negative', [-99, 'index'])):
                t = copy.deepcopy(s)
                q = t['parts'][i]['kw']['new_ports']
                if not isinstance(q, dict) or not q:
                    continue
                k = sorted(q)[0]
                q[k] = (x + list(q[k])[2:]) if isinstance(q[k], list) else x
                yield 'new port ' + nm, 'new port of %s at %r' % (p['n'], q[k]), t
    for i, q in enumerate(s['bcs']):
        t = copy.deepcopy(s)
        t['bcs'].append(copy.deepcopy(q))
        yield 'open port twice', 'open port %s added twice' % q['n'], t
        t = copy.deepcopy(s)
        t['bcs'].pop(i)
        yield 'open port missing', 'open port %s missing' % q['n'], t
        for x in ('warm', None, [20.0, 30.0]):
            t = copy.deepcopy(s)
            t['bcs'][i].update(T=x, const=True)
            yield 'open port temperature', 'constant open port with temperature %r' % (x,), t
        for x in ('warm', 20.0, None, nets.nd([20.0] * 10)):
            t = copy.deepcopy(s)
            t['bcs'][i].update(T=x, const=False)
            yield 'open port series', 'dynamic open port with temperature %r' % (str(x)[:30],), t
    t = copy.deepcopy(s)
    t['bcs'].append(dict(n='BC_zz', T=20.0))
    yield 'open port unused', 'open port which is not connected', t
    pumps = [p for p in s['parts'] if p['t'] in ('Pump', 'PipeWithPump')]
    if fam in ('chain', 'loop', 'hexu', 'hexi') and pumps:
        for i, q in enumerate(s['conns']):
            t = copy.deepcopy(s)  # every line of these networks already has its source of flow
            t['parts'].insert(r.randrange(len(t['parts']) + 1), dict(copy.deepcopy(pumps[0]), n='pu_zz', st=False))
            t['conns'][i:i + 1] = [[*q[:2], 'pu_zz', 'in'], ['pu_zz', 'out', *q[2:]]]
            yield 'two pumps', 'second pump in the line of %s' % q, t
        for p in pumps:
            t = copy.deepcopy(s)
            o = t['parts'][s['parts'].index(p)]
            if p['t'] == 'PipeWithPump':
                o['t'] = 'Pipe'
                for k in ('start_massflow', 'ctrl_required', 'const_val', 'maximum_flow', 'lower_limit', 'upper_limit'):
                    o['kw'].pop(k, None)
                yield 'no pump', 'line without pump (%s is a pipe)' % p['n'], t
    for i, q in enumerate(s.get('ctrls', [])):
        t = copy.deepcopy(s)
        t['ctrls'].append(copy.deepcopy(q))
        yield 'control twice', 'control %s added twice' % q['n'], t
        t = copy.deepcopy(s)
        t['ctrls'].append(dict(copy.deepcopy(q), n='other'))
        yield 'two controls', 'two controls for one actuator', t
        t = copy.deepcopy(s)
        t['ctrls'].pop(i)
        yield 'no control', 'actuator which requires a control has none', t
        for k in ('actuator', 'controlled_part', 'reference_part'):
            if q['kw'].get(k, 'none') != 'none':
                t = copy.deepcopy(s)
                t['ctrls'][i]['kw'][k] = 'nope'
                yield 'control unknown ' + k, 'control with unknown %s' % k, t
        t = copy.deepcopy(s)
        t['ctrls'][i]['kw']['controlled_port'] = 5000
        yield 'control sensor', 'control with sensor at cell 5000', t
        t = copy.deepcopy(s)
        a = q['kw']['actuator']
        o = [p['n'] for p in s['parts'] if p['t'] in ('Pipe', 'Tes', 'PipeBranched') and p['n'] != a]
        if o:
            t['ctrls'][i]['kw']['actuator'] = o[0]
            yield 'control no actuator', 'control acts on %s which is no actuator' % o[0], t
    for k, xs in dict(tf=[-1.0, 0, 'a', None, [1.0], float('nan')]).items():
        for x in xs:
            t = copy.deepcopy(s)
            t['tf'] = x
            yield 'timeframe', 'timeframe %r' % (x,), t
    for k, xs in dict(rtol=[-1e-3, 'a', None], atol=[-1.0, 'a', None], max_stepsize=[-1.0, 'a', 0], min_stepsize=[-1.0, 'a'],
                      max_factor=[-1.0, 0.5, 'a'], min_factor=[-1.0, 2.0, 'a'], safety_factor=[-1.0, 2.0, 'a'], factor_recovery=[-1, 'a'],
                      check_vN=['x'], ).items():
        for x in xs:
            t = copy.deepcopy(s)
            t['tfkw'] = dict(t.get('tfkw', {}), **{k: x})
            yield 'timeframe ' + k, '%s=%r' % (k, x), t
    t = copy.deepcopy(s)
    t['tfkw'] = dict(t.get('tfkw', {}), min_stepsize=5.0, max_stepsize=1.0)
    yield 'timeframe step sizes', 'min_stepsize > max_stepsize', t
    t = copy.deepcopy(s)
    t['adaptive'] = 'yes'
    yield 'timeframe adaptive', 'adaptive_steps="yes"', t
    t = copy.deepcopy(s)
    t['impl'] = 'x'
    yield 'solver', 'allow_implicit="x"', t


def run(c):
    from .. import scen
    v, r = lib.V(), lib.rng(c['seed'])
    s = spec(c, r)
    keys, n = set(), 0
    late = {}

    def attempt(t):
        e = None
        try:
            with scen.quiet():
                e = scen.build(t)
                scen.init(e, t)
        except Exception as x:
            return 'rejected', type(x).__name__
        try:
            with scen.quiet():
                e.start_sim()
        except Exception as x:
            return 'late', '%s: %s' % (type(x).__name__, str(x)[:80])
        return 'accepted', ''
    base = attempt(s)
    v.chk(base[0] == 'accepted', 'base', lambda: 'well-formed description (%s) %s: %s' % (c['fam'], *base))
    muts = list(structure(s, r, c['fam'])) + list(kw_mutations(s))
    r.shuffle(muts)
    # every kind of mutation at least once per element type, spread over the cases of the family
    if c['frac'] < 1:
        muts = [m for i, m in enumerate(muts) if i % 4 == c['part'] or r.random() < 0.15]
    for key, txt, t in muts:
        o = attempt(t)
        n += 1
        keys.add('%s: %s' % (c['fam'], key))
        v.chk(o[0] == 'rejected', key, lambda: '%s (%s): %s %s' % (txt, c['fam'], 'accepted and simulated' if o[0] == 'accepted' else 'error only after the start:', o[1]))
        if o[0] != 'rejected':
            late[key] = o[0]
    base = attempt(s)
    v.chk(base[0] == 'accepted', 'base', lambda: 'well-formed description (%s) %s after rejected ones: %s' % (c['fam'], *base))
    return dict(viol=v, keys=sorted(keys), stats=dict(mutations=n), sample=dict(c, mutations=n))
