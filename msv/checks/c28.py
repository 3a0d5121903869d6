"""C28: plants made of the ready-made suppliers and consumers."""
import numpy as np

from .. import ctrl, lib, nets
from . import c03, c08, c29

RULE = ('one evaluation = one plant assembled by the building block functions of multisim (gas boiler, space heating, drinking water stations, CHP) '
        'around a storage: every flow, cell balance and controller output of every step was replayed; distinct = (blocks, how they are '
        'connected, scaled pipes, elements which acted)')
ASSUMPTIONS = ['interpreted kernels (numba disabled)',
               'the building blocks are called with a recorder in place of the environment; the recorded calls are then made in the same '
               'order on a real environment',
               'wanted values (powers, set points, sensors, demands, temperatures) are those of the arguments of the blocks',
               'the outlets of heat exchangers of the NTU type are taken from the record (decided by C13), as is the state of a CHP plant (C15)']


def gen(tier, seed):
    n = 36 if tier == 'quick' else 400
    fams = ['heating', 'heating', 'drinking', 'heating', 'cogen', 'drinking']
    pipes = [dict(fam='pipes', seed='c28p_%d_%d' % (seed, i), w=0.2) for i in range(12 if tier == 'quick' else 100)]
    return [dict(fam=fams[i % 6], seed='c28_%d_%d' % (seed, i), ports=[0.5, 3, 1, 2][i // 6 % 4], tf=lib.rng('c28', seed, i).choice([10.0, 30.0, 60.0] if i % 6 != 4 else [60.0, 150.0]), i=i, w=4, timeout=600,
                 kmax=100 if tier == 'quick' else 400) for i in range(n)] + pipes


def limits(p):
    kw = p['kw']
    if p['t'] == 'PipeWithPump':
        return dict(kind='pump', part=p['n'], lower_limit=kw['lower_limit'], upper_limit=kw['upper_limit'],
                    maximum_flow=kw['maximum_flow'], start=kw['start_massflow'])
    if p['t'] == 'PipeWith3wValve':
        return dict(kind='valve', part=p['n'], lower_limit=kw['lower_limit'], upper_limit=kw['upper_limit'], start=kw['start_portA_opening'])
    return dict(kind='heat', part=p['n'], lower_limit=kw['lower_limit'], upper_limit=kw['upper_limit'], start=0.0)


def share(tr, p):
    """recorded share of port A of a valve; nan without flow"""
    x = tr[p['n']]['res_dm'].reshape(len(tr['t']), -1)
    i = p['kw']['valve_location']
    with np.errstate(all='ignore'):
        return np.where(np.abs(x[:, -2]) > 1e-12, x[:, i - 1] / x[:, -2], np.nan)


def laws(v, s, tr, P):
    """controllers of the plant which can be replayed from the record"""
    names = {c['n']: i for i, c in enumerate(s['ctrls'])}
    out = []
    for c in s['ctrls']:
        kw = c['kw']
        a = limits(P[kw['actuator']]) if P[kw['actuator']]['t'] != 'CHPPlant' else None
        x = dict(c=c, a=a, part=kw['controlled_part'], sp=lambda k, kw=kw: kw['setpoint'])
        x['cell'] = kw['controlled_port']
        if 'on_sensor_part' in kw:
            x['on'] = (kw['on_sensor_part'], kw['on_sensor_port'])
        if kw['sub_controller']:
            if kw['master_type'] == 'controller':
                x['master'] = names[kw['master_controller']]
            else:
                x['master'] = ('part', kw['master_part'], kw.get('master_variable'), kw.get('master_variable_index', 0))
        out.append(x)
    return out


def wanted(n):
    """what the arguments of the building blocks ask for: (part, port or controller, argument) -> value"""
    m, w = n.meta, {}
    if m.get('house'):
        w['ph_sh_gasb_1', 'upper_limit'] = m['gb_pth']
        w['ph_sh_gasb_1', 'lower_limit'] = 0.0
        w['c_sh_gasb_pth_1', 'setpoint'] = 75.0
        w['c_sh_3v_tesgb_1', 'setpoint'] = m['df']['theta_ff'].iloc[0]
        w['pwp_sh_ff_1', 'time_series'] = m['df']['sh_dmd'].values
        w['BC_sh_theta_rf_1', 'T'] = m['df']['theta_rf'].values
    if m.get('boiler'):
        w['ph_gasb_1', 'upper_limit'] = m['pth']
        w['ph_gasb_1', 'lower_limit'] = 0.0
        for k, x in dict(on_sensor_part='tes', on_sensor_port=m['a'], activation_value=m['on'], controlled_part='tes', controlled_port=m['b'],
                         setpoint=m['off'], actuator='ph_gasb_1').items():
            w['c_gasb_pth_1', k] = x
        w['c_gasb_pump_1', 'setpoint'] = m['ff']
        w['c_gasb_pump_1', 'controlled_part'] = 'ph_gasb_1'
        # full power at the wanted flow temperature and a return temperature of 60 degrees
        w['pwp_gasb_ff_1', 'maximum_flow'] = w['pwp_gasb_ff_1', 'upper_limit'] = m['pth'] / 4180 / (m['ff'] - 60)
    if 'kind' in m:
        q = '' if m['kind'] == 'lowex' else 'sps_'
        w[q + 'pwp_cw_1', 'time_series'] = m['phw'].values
        w[q + 'pwp_rc_1', 'const_val'] = float(m['rc'])
        if m['kind'] == 'lowex':  # pumps are scaled with the mean demands, outlets are kept at 60 degrees
            w['pwp_phw_ff_1', 'maximum_flow'] = w['pwp_phw_ff_1', 'upper_limit'] = 0.5 * m['phw'].mean() / 0.020426520552047665
            w['pwp_rc_ff_1', 'maximum_flow'] = w['pwp_rc_ff_1', 'upper_limit'] = 0.2 * m['rc'] / 0.11555245060523046
            w['c_pump_phw_1', 'setpoint'] = w['c_pump_rc1', 'setpoint'] = 60.0
            w['c_pump_phw_1', 'controlled_part'], w['c_pump_rc1', 'controlled_part'] = 'pb_phwrc_dmd_1', 'p_rc_dmd_1'
        else:
            w['sps_c_3v_hex_ff_1', 'setpoint'] = 67.5
            w['sps_c_pump_store_1', 'controlled_part'] = 'sps_store_phw_1'
    if 'ctl' in m:
        x, k = m['ctl'], m['kw']
        w['c_chp_pump_1', 'setpoint'] = k['theta_ff']
        w['c_chp_pump_1', 'controlled_part'] = 'CHP1'
        w['c_chp_pel_1', 'on_sensor_part'] = x['ctrld_part']
        w['c_chp_pel_1', 'on_sensor_port'] = x['on_sensor_port']
        w['c_chp_pel_1', 'activation_value'] = x['setpoint']
        w['c_chp_pel_1', 'setpoint'] = x['off_val']
        w['CHP1', 'power_electrical'] = k['power_electrical']
        w['CHP1', 'modulation_range'] = k['modulation_range']
        if m['ports'] in (2, 3):
            w['c_chp_3v_hex_fg_1', 'setpoint'] = m['sp'][0]
        if m['ports'] == 3:
            w['c_chp_3v_htrf_1', 'setpoint'] = m['sp'][1]
        if m['ports'] != 0.5:
            w['CHP1', 'fg_hex_name'] = 'hex_chp_fg_1'
            w['CHP1', 'connect_fluegas_hex'] = True
            w['hex_chp_fg_1', 'max_gas_Nm3h'] = m['gmax'] * 3600
    for p in n.s['parts']:
        if 'T_amb' in p['kw']:
            w[p['n'], 'T_amb'] = n.Tamb
    return w


def args(v, n, st):
    s = n.s
    d = {x['n']: x.get('kw', x) for x in s['parts'] + s['ctrls'] + s['bcs']}
    for (q, k), x in wanted(n).items():
        y = d.get(q, {}).get(k)
        if isinstance(y, dict):
            y = y['__tup__'] if '__tup__' in y else y['__ts__']['v']
        st['args'] += 1
        try:
            ok = y == x if isinstance(x, str) else np.shape(y) == np.shape(x) and np.allclose(np.asarray(y, dtype=float), x, rtol=1e-9, atol=1e-12)
        except (TypeError, ValueError):
            ok = False
        if not ok and k == 'maximum_flow' and y is None:
            continue
        v.chk(ok, 'args', lambda: '%s of %s is %r instead of %r' % (k, q, y, x))


    for q, o in (('c_gasb_pump_1', 'ph_gasb_1'), ('c_chp_pump_1', 'CHP1')):  # sensors behind the heated cells
        if q in d:
            g, y = d[o]['grid_points'], d[q].get('controlled_port')
            st['args'] += 1
            v.chk(y in (g - 2, g - 1, -1, -2), 'args', lambda: '%s measures at cell %r of %s, which is not its outlet' % (q, y, o))


def pipes(c):
    """scaled pipes: the inner area is the multiple which was asked for, the wall is consistent and lies between those of the neighbours"""
    from multisim import utility_functions as ut
    v, r = lib.V(), lib.rng(c['seed'])
    import multisim as ms
    tb = ms.SimEnv(suppress_printing=True)._pipe_specs['EN10255_medium']
    st, keys = dict(pipes=0), []
    dns = list(tb.columns)
    q = {}
    for i in range(r.randint(1, 6)):
        dn = r.choice(dns)
        f = r.choice([1.0, 1, r.uniform(0.5, 2.0), 10 ** r.uniform(-1, 1), 2])
        if 1.2e-5 < tb[dn]['A_i'] * f < 0.09:
            q['p%d' % i] = ({'all': {'pipe_type': 'EN10255_medium', 'DN': dn}}, f)
    if not q:
        return dict(viol=v, keys=[], stats=st, sample=dict(pipes=0))
    got = ut.adjust_pipes(q)
    v.chk(list(got) == list(q), 'pipes', lambda: 'pipes %r instead of %r' % (list(got), list(q)))
    for k, (p, f) in q.items():
        g, t = got[k]['all'], tb[p['all']['DN']]
        st['pipes'] += 1
        keys.append('pipe %s %s' % (p['all']['DN'], 'same' if f == 1 else 'smaller' if f < 1 else 'larger'))
        what = '%s scaled by %r' % (p['all']['DN'], f)
        a, o = t['A_i'] * f, g['d_o']
        v.chk(abs(g['A_i'] - a) <= 1e-9 * a, 'pipes', lambda: '%s: inner area %r instead of %r' % (what, g['A_i'], a))
        v.chk(abs(g['d_i'] - np.sqrt(4 * a / np.pi)) <= 1e-9 + 1e-6 * o, 'pipes', lambda: '%s: inner diameter %r does not fit the area' % (what, g['d_i']))
        v.chk(abs(g['s'] - (o - g['d_i']) / 2) <= 1e-9 + 1e-6 * o and g['s'] > 0, 'pipes', lambda: '%s: wall thickness %r' % (what, g['s']))
        v.chk(abs(g['A_wall'] - (np.pi / 4 * o ** 2 - a)) <= 1e-6 * o ** 2, 'pipes', lambda: '%s: wall area %r' % (what, g['A_wall']))
        if f == 1:
            for z in ('d_i', 'd_o', 's'):
                v.chk(abs(g[z] - t[z]) <= 1e-3 * t[z], 'pipes', lambda: '%s: %s %r instead of %r of the table' % (what, z, g[z], t[z]))
        lo, hi = tb.loc['d_o'][tb.loc['A_i'] <= a * (1 + 1e-9)], tb.loc['d_o'][tb.loc['A_i'] >= a * (1 - 1e-9)]
        v.chk((not len(lo) or o >= lo.max() * (1 - 1e-3)) and (not len(hi) or o <= hi.min() * (1 + 1e-3)), 'pipes',
              lambda: '%s: outer diameter %r is not between those of the neighbouring pipes' % (what, o))
    return dict(viol=v, keys=keys, stats=st, sample=dict(pipes=st['pipes']))


def run(c):
    from .. import plants, ref, scen
    if c['fam'] == 'pipes':
        return pipes(c)
    v, r = lib.V(), lib.rng(c['seed'])
    n = plants.ALL[c['fam']](lib.rng(c['fam'], c['seed']), tf=c['tf'], **({'ports': c['ports']} if c['fam'] == 'cogen' else {}))
    s = n.s
    s['tfkw'] = dict(max_stepsize=r.choice([100.0, 1.0]))
    P = {p['n']: p for p in s['parts']}
    tr = scen.trace(scen.run(s))
    t = tr['t']
    K = len(t)
    st = dict(steps=K - 1, flows=0, cells=0, args=0, law=0, moved=0)
    args(v, n, st)
    # flows
    fr = ref.FlowRef(s)
    geo = {k: ref.Part(p) for k, p in P.items() if p['t'] in ('PipeBranched', 'Tes', 'PipeWith3wValve')}
    first = {k: tr[k]['res_dm'].reshape(K, -1)[:, 0] for k in P if 'res_dm' in tr[k]}
    sh = {k: share(tr, p) for k, p in P.items() if p['t'] == 'PipeWith3wValve'}
    for k in range(1, K):
        fl = fr.solve({p: first[p][k] for p in fr.pumps}, {q: sh[q][k] if np.isfinite(sh[q][k]) else 0.5 for q in fr.valves})
        if fr.rank_def or fr.inconsistency > 1e-9:
            v.add('flow', 'the flows of step %d contradict the mass balance (residual %.3g)' % (k, fr.inconsistency))
            break
        sc = 1e-9 + 1e-6 * max(abs(first[p][k]) for p in fr.pumps)
        for q, p in P.items():
            if p['t'] in ('HeatExchanger', 'HexNum', 'HEXCondPoly'):
                continue
            a = tr[q]['res_dm'].reshape(K, -1)[k]
            if q in geo:
                f = fr.faces(q, fl, geo[q].n, geo[q].ports)
                e = np.abs(a[:-1] - f).max() if len(a) == len(f) + 1 else np.inf
            else:
                e = abs(a[0] - fl[q, 'in'])
            st['flows'] += len(a)
            v.chk(e <= sc, 'flow', lambda: 'flow of %s (%s) in step %d differs by %.3g from the mass balance' % (q, p['t'], k, e))
    # what is drawn is what was asked for, actuators keep their limits
    ts = {}
    for q, p in P.items():
        kw = p['kw']
        if p['t'] == 'PipeWithPump' and 'time_series' in kw:
            w = kw['time_series']['__ts__']
            want = np.interp(t[:-1], np.arange(len(w['v'])) * w['dt'], w['v'])
            ts[q] = 1
            v.chk(np.abs(first[q][1:] - want).max() <= 1e-9 + 2e-6 * max(w['v']), 'demand',
                  lambda: '%s carries %r instead of the demanded %r' % (q, first[q][1:][:8].tolist(), want[:8].tolist()))
        elif p['t'] == 'PipeWithPump' and 'const_val' in kw:
            v.chk((first[q][1:] == kw['const_val']).all(), 'const', lambda: '%s does not carry its constant %r' % (q, kw['const_val']))
        elif p['t'] in ('PipeWithPump', 'PipeWith3wValve', 'HeatedPipe'):
            a = limits(p)
            x = first[q] if a['kind'] == 'pump' else sh[q] if a['kind'] == 'valve' else tr[q]['res_dQ'].reshape(K, -1)[:, 0]
            x = x[2:][np.isfinite(x[2:])]
            tol = 1e-9 * max(1.0, abs(a['upper_limit']))
            v.chk(((x >= a['lower_limit'] - tol) & (x <= a['upper_limit'] + tol)).all(), 'limit',
                  lambda: '%s leaves its limits %r: %.9g..%.9g' % (q, (a['lower_limit'], a['upper_limit']), x.min(), x.max()))
    # controllers
    free = K - 1
    hp = [q for q, p in P.items() if p['t'] == 'HeatedPipe']
    for q in hp:  # the emergency shut-down interferes with the control (C14)
        hot = tr[q]['res'].reshape(K, -1).max(axis=1) > 100.0
        free = min(free, int(np.argmax(hot)) - 1) if hot.any() else free
    seen, states = follow(v, s, tr, laws(v, s, tr, P), sh, max(free, 0))
    st.update(law=seen['cmp'], moved=seen['moved'])
    if n.meta.get('mdl'):  # flue gas exchanger
        m = n.meta
        d = c29.judge(dict(mode='plant%d' % m['ports']), v, s, tr, dict(
            mdl=m['mdl'], gmax=m['gmax'], wmax=m['wmax'], g=(0.5, 1.05), w=(0.0, 1.05), spec=P['CHP1']['kw']['fluegas_flow'], hex='hex_chp_fg_1',
            chp='CHP1', wsrc='p_chp_rf_lt_1', gsrc='BC_fg_in_1', gin=next(b['T'] for b in s['bcs'] if b['n'] == 'BC_fg_in_1')))
        st.update(gas_outlets=d['stats']['outlets'], gas_burning=d['stats']['burning'])
        # the water leaving the exchanger is measured in front of the valve, the mix of the warm returns behind it
        for q, o, f in (('c_chp_3v_hex_fg_1', 'p3v_chp_rf_1', lambda a, b: a < b), ('c_chp_3v_htrf_1', 'p3v_chp_rf_htA_1', lambda a, b: a >= b)):
            kw = next((x['kw'] for x in s['ctrls'] if x['n'] == q), None)
            if kw:
                v.chk(kw['controlled_part'] == o == kw['actuator'] and f(kw['controlled_port'], P[o]['kw']['valve_location']), 'args',
                      lambda: '%s measures at cell %r of %s' % (q, kw['controlled_port'], kw['controlled_part']))
        con = {frozenset([(a, ap), (b, bp)]) for a, ap, b, bp in s['conns']}
        for x in [('pwp_chp_ff_1', 'out', m['ends'][0]), ('p_chp_rf_lt_1', 'in', m['ends'][1])] + [('p3v_chp_rf_htA_1', 'A', 'hA')] * (
                m['ports'] == 3) + [('p_chp_rf_htB_1', 'in', 'hB')] * (m['ports'] == 3):
            v.chk(frozenset([x[:2], ('tes', x[2])]) in con, 'conn', lambda: '%s;%s is not connected to tes;%s' % x)
    # heat balance
    bcs = {}
    for b in s['bcs']:
        bcs[b['n']] = b['T']

    def bc(k):
        x = {}
        for m, T in bcs.items():
            x[m] = c08.val(T['__ts__']['v'], T['__ts__']['dt'], t[k - 1]) if isinstance(T, dict) else T
        return x, x
    heat = {}
    for q, p in P.items():
        if p['t'] in ('HeatedPipe', 'CHPPlant'):
            lo, hi = p['kw']['heated_cells']['__tup__'] if isinstance(p['kw']['heated_cells'], dict) else p['kw']['heated_cells']

            def f(k, q=q, lo=lo, hi=hi, g=p['kw']['grid_points']):
                x = np.zeros(g)
                x[lo:hi] = tr[q]['res_dQ'].reshape(K, -1)[k, 0] / (hi - lo)
                return x
            heat[q] = f
    rep = ref.Replay(s, bcs=bc, opening=lambda k: {q: float(sh[q][k]) if np.isfinite(sh[q][k]) else 0.5 for q in sh}, heat=heat)
    near = {rep.net.link[g, p][0] for g, d in rep.net.given.items() for p in d} | {'CHP1'}
    d = c03.judge(dict(c, pk='', vk='', kmax=min(c['kmax'], max(free, 2)), skip=near), v, s, tr, rep, None)
    st.update(cells=d['stats']['cells'], part_steps_exact=d['stats']['part_steps_exact'], part_steps=d['stats']['part_steps'])
    acted = sorted({x[0] for x in states})
    key = '%s %s %s acted%s' % (c['fam'], '+'.join(sorted({p['t'] for p in s['parts']})), len(s['parts']), acted)
    return dict(viol=v, keys=[key + ' %d%d%d%d' % x[1:5] for x in states] or [key], stats=st, sample=dict(fam=c['fam'], **st))


def follow(v, s, tr, ctrls, sh, last):
    t = tr['t']
    n = len(t)
    col = lambda q, f: tr[q][f].reshape(n, -1)[:, 0]  # noqa: E731
    obs = []
    for x in ctrls:
        a = x['a']
        obs.append(None if a is None else col(a['part'], 'res_dm') if a['kind'] == 'pump' else sh[a['part']] if a['kind'] == 'valve'
                   else col(a['part'], 'res_dQ'))
    refs = [None if x['a'] is None else ctrl.Ref(x['c'], x['a']) for x in ctrls]
    seen, states = dict(cmp=0, moved=0), set()
    for k in range(1, last):
        dt = t[k] - t[k - 1]
        for i, (x, rf) in enumerate(zip(ctrls, refs)):
            if rf is None:
                continue
            pv = float(tr[x['part']]['res'][k].ravel()[x['cell']])
            on = float(tr[x['on'][0]]['res'][k].ravel()[x['on'][1]]) if x.get('on') else None
            mo = None
            m = x.get('master')
            if isinstance(m, int):
                mo = refs[m].apply(refs[m].cv) == ctrls[m]['c']['kw']['off_state']
            elif m:
                z = col(m[1], 'res_dQ' if 'dQ' in str(m[2]) else 'res_dm')
                mo = z[k + ('dQ' in str(m[2]))] == 0.0  # the heat is set by a controller which acts before
            opts = rf.step(t[k], dt, pv, x['sp'](k), on, mo)
            got = obs[i][k + 1]
            if not np.isfinite(got):
                rf.cv = opts[0]  # no flow through the valve
                continue
            best = min(opts, key=lambda u: abs(rf.apply(u) - got))
            w = rf.apply(best)
            if not abs(w - got) <= 1e-6 * max(1.0, abs(w)):
                v.add('law', '%s %s: after step %d (t=%.6g, dt=%.6g, process value %.9g, master off: %s) %s is set to %.9g, the control law gives %.9g'
                      % (x['c']['t'], x['c']['n'], k, t[k], dt, pv, mo, x['a']['part'], got, w))
                return seen, states
            rf.cv = best
            seen['cmp'] += 1
            seen['moved'] += abs(got - obs[i][k]) > 1e-9
            states.add((i, w <= x['a']['lower_limit'], w >= x['a']['upper_limit'], best > 0, bool(mo)))
    return seen, states


def finish(results, by_id, stats):
    bad = [k for k in ('args', 'flows', 'cells', 'law', 'moved', 'pipes') if not stats.get(k)]
    return [dict(key='reach', msg='no %s observed: %s' % (bad, stats))] if len(results) >= 48 and bad else []
