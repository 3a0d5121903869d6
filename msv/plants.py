"""Plants assembled from the ready-made suppliers and consumers of multisim.

The building block functions are called with a recorder in place of the environment, so that their networks become plain descriptions
like those of nets.py, which every monitor of a network can use."""
import importlib
import json

import numpy as np
import pandas as pd

from . import nets

START = pd.Timestamp('2020-01-01')


def enc(x):
    if isinstance(x, (pd.Series, pd.DataFrame)):
        dt = (x.index[1] - x.index[0]).total_seconds()
        return {'__ts__': dict(v=[float(i) for i in np.asarray(x).ravel()], dt=dt)}
    if isinstance(x, np.ndarray):
        return {'__nd__': x.astype(float).tolist()}
    if callable(x):
        return {'__pf__': x.__name__}
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, tuple):
        return {'__tup__': [enc(i) for i in x]}
    if isinstance(x, list):
        return [enc(i) for i in x]
    if isinstance(x, dict):
        return {k: enc(v) for k, v in x.items()}
    return x


class Recorder:
    """stand-in for the environment which records the calls"""

    def __init__(self, s):
        self.s = s

    def add_part(self, part, name, store_results=None, **kw):
        kw = {k: v for k, v in enc(kw).items() if not (isinstance(v, float) and v != v)}
        d = dict(t=part.__name__, n=name, kw=kw)
        if store_results is not None:
            d['store'] = enc(store_results)
        self.s['parts'].append(d)

    def add_open_port(self, name, constant, temperature):
        self.s['bcs'].append(dict(n=name, T=enc(temperature), const=bool(constant)))

    def connect_ports(self, *a):
        assert len(a) == 4
        self.s['conns'].append(list(a))

    def add_control(self, cls, name, **kw):
        self.s['ctrls'].append(dict(t=cls.__name__, n=name, kw=enc(kw)))


def module(mod, fn):
    return getattr(importlib.import_module('multisim.parts.part_modules.' + mod), fn)


def series(v, dt, name=None):
    return pd.Series(np.asarray(v, dtype=float), index=pd.date_range(START, periods=len(v), freq='%dms' % round(dt * 1000)), name=name)


def heating(r, tf=60.0, boiler=None, house=None, env=None, **tfkw):
    """storage with a gas boiler and/or space heating"""
    n = nets.Net(r, tf, **tfkw)
    n.Tamb = round(r.uniform(5, 30), 1)
    boiler = r.random() < 0.75 if boiler is None else boiler
    house = (not boiler or r.random() < 0.75) if house is None else house
    g = r.randint(10, 16)
    hot, cold = r.uniform(60, 85), r.uniform(25, 50)
    m = r.randint(1, g - 1)
    T = sorted((r.uniform(hot - 5, hot) if i < m else r.uniform(cold, cold + 5)) for i in range(g))[::-1]
    ports = {}
    ends = r.choice(['main'] * (not house) + ['gb'] * boiler + ['sh'] * house)  # who is connected to the ends of the storage
    if boiler and ends != 'gb':
        ports.update(gb_ff=[r.randint(0, 2), 'index'], gb_rf=[g - 1 - r.randint(0, 2), 'index'])
    if house and ends != 'sh':
        ports.update(sh_ff=[r.randint(0, 2), 'index'], sh_rf=[g - 1 - r.randint(0, 2), 'index'])
    n.part('Tes', 'tes', volume=round(r.uniform(0.3, 2.0), 2), grid_points=g, outer_diameter=round(r.uniform(0.6, 1.0), 2),
           shell_thickness=5e-3, new_ports=ports or None, **n.gs(g, T=nets.nd(T)))
    if ends == 'main':
        n.pump('pu', n.dnflow())
        n.chain(n.bc('i'), ('pu', 'in', 'out'), *[('tes', 'in', 'out') if r.random() < 0.5 else ('tes', 'out', 'in')], n.bc('o'))
    sh = ('in', 'out') if ends == 'sh' else ('sh_ff', 'sh_rf')
    gb = ('in', 'out') if ends == 'gb' else ('gb_ff', 'gb_rf')
    rec = Recorder(n.s) if env is None else env
    n.meta = dict(boiler=boiler, house=house)
    if house:
        k, dt = r.randint(4, 12), tf / 3
        v = r.uniform(0.1, 1.0)
        dmd = [v * r.uniform(0.5, 1.0) for _ in range(k)]
        ff, rf = r.uniform(45, 60), r.uniform(25, 38)
        df = pd.DataFrame(dict(sh_dmd=series(dmd, dt), theta_ff=series([ff + r.uniform(-1, 1) for _ in range(k)], dt),
                               theta_rf=series([rf + r.uniform(-2, 2) for _ in range(k)], dt)))
        gp = round(v * 4180 * (75 - rf) * r.uniform(0.4, 1.2), 0)
        n.meta.update(df=df, gb_pth=gp)
        module('consumers', 'space_heating')(
            rec, lhs=None, space_heating=df, aux_gasboiler_pth=gp, aux_gasboiler_theta_ff=75.0, segment_name='1',
            adjust_pipes=r.random() < 0.5, tes_ff_connector={'tes': sh[0]}, tes_rf_connector={'tes': sh[1]}, Tamb=n.Tamb)
    if boiler:
        p = round(10 ** r.uniform(4, 5.2), 0)
        a, b = sorted([r.randint(0, g - 1), r.randint(0, g - 1)])
        on = r.uniform(50, 72)
        n.meta.update(pth=p, on=on, off=on + r.uniform(0, 5), a=a, b=b, ff=round(r.uniform(72, 82), 1))
        module('suppliers', 'gasboiler')(
            rec, gasb_pth=p, lhs=None, rc_flow=None, phw_dmd=None, segment_name='1', adjust_pipes=r.random() < 0.5,
            ff_connector={'tes': gb[0]}, ltrf_connector={'tes': gb[1]}, Tamb=n.Tamb,
            gasboiler_ctrl=dict(on_sens_part='tes', on_sens_port=a, setpoint=on, off_sens_part='tes', off_sens_port=b,
                                off_val=n.meta['off'], theta_ff_gasb=n.meta['ff']))
    n.s['fam'] = 'heating'
    return n


class Obj:
    def __init__(self, **k):
        self.__dict__.update(k)


def drinking(r, tf=60.0, kind=None, env=None, **tfkw):
    """storage with a drinking water station: instantaneous heating ('lowex') or charging of a second storage ('lade')"""
    n = nets.Net(r, tf, **tfkw)
    n.Tamb = round(r.uniform(5, 30), 1)
    kind = kind or r.choice(['lowex', 'lade'])
    g = r.randint(10, 16)
    T = sorted((r.uniform(66, 85) if i < 2 * g // 3 else r.uniform(25, 60)) for i in range(g))[::-1]
    ends = r.random() < 0.5
    ports = {} if ends else dict(ff=[r.randint(0, 2), 'index'], rf=[g - 1 - r.randint(0, 2), 'index'])
    if kind == 'lowex':
        ports['rc'] = [r.randint(g // 2, g - 2), 'index']
    n.part('Tes', 'tes', volume=round(r.uniform(0.3, 2.0), 2), grid_points=g, outer_diameter=round(r.uniform(0.6, 1.0), 2),
           shell_thickness=5e-3, new_ports=ports or None, **n.gs(g, T=nets.nd(T)))
    ff, rf = ('in', 'out') if ends else ('ff', 'rf')
    if not ends:
        n.pump('pu', n.dnflow())
        n.chain(n.bc('i'), ('pu', 'in', 'out'), *[('tes', 'in', 'out') if r.random() < 0.5 else ('tes', 'out', 'in')], n.bc('o'))
    rec = Recorder(n.s) if env is None else env
    k, dt = r.randint(4, 12), tf / 3
    phw = series([r.choice([0.0, r.uniform(0.01, 0.05)]) if i else 0.02 for i in range(k)], dt)
    rc = np.float64(round(r.uniform(0.08, 0.15), 3)) 
    kw = dict(lhs=Obj(wfl=r.randint(1000, 2000), v_stor_phw=round(r.uniform(0.3, 1.0), 2), theta_ff=round(r.uniform(65, 72), 1)), phw_dmd=phw, rc_flow=rc, segment_name='1', adjust_pipes=r.random() < 0.5,
              ff_connector={'tes': ff}, rf_connector={'tes': rf}, Tamb=n.Tamb)
    n.meta = dict(kind=kind, phw=phw, rc=rc)
    if kind == 'lowex':
        module('consumers', 'lowex_phwrc')(rec, rc_connector={'tes': 'rc'}, **kw)
    else:
        gp = r.choice([20, 30, 40])
        o = {} if gp == 40 else dict(store_gp=gp, store_ports={'ff_tes': [0.0, 'volume'], 'rc': [round(0.4 * gp), 'index'], 'cw': [gp - 2, 'index']})
        module('consumers', 'speicherladesys')(rec, store_dia=round(r.uniform(0.6, 1.0), 2), store_init=round(r.uniform(50, 64), 1), **o, **kw)
    n.s['impl'] = True
    n.s['fam'] = 'drinking'
    return n


def cogen(r, tf=60.0, ports=0.5, env=None, **tfkw):
    """storage which is charged by a CHP plant"""
    n = nets.Net(r, tf, **tfkw)
    n.Tamb = round(r.uniform(5, 30), 1)
    g = r.randint(16, 20)
    m = r.randint(0, g)
    T = sorted((r.uniform(66, 85) if i < m else r.uniform(25, 65)) for i in range(g))[::-1]
    ends = r.random() < 0.5
    tp = {} if ends else dict(ff=[r.randint(0, 2), 'index'], rf=[g - 1 - r.randint(0, 2), 'index'])
    if ports in (2, 3):
        tp.update(hA=[g // 2 + r.randint(-2, 2), 'index'])
    if ports == 3:
        tp.update(hB=[g // 2 - r.randint(3, 5), 'index'])
    n.part('Tes', 'tes', volume=round(r.uniform(0.3, 2.0), 2), grid_points=g, outer_diameter=round(r.uniform(0.6, 1.0), 2),
           shell_thickness=5e-3, new_ports=tp or None, **n.gs(g, T=nets.nd(T)))
    if not ends:
        n.pump('pu', n.dnflow())
        n.chain(n.bc('i'), ('pu', 'in', 'out'), *[('tes', 'in', 'out') if r.random() < 0.5 else ('tes', 'out', 'in')], n.bc('o'))
    on = r.uniform(60, 74)
    ctl = dict(ctrld_part='tes', on_sensor_port=r.randint(0, g - 1), setpoint=on, off_val=on + r.uniform(1, 6), chp_mode='heat')
    ps = {} if r.random() < 0.3 else dict(pipe_specs={'all': {'pipe_type': 'EN10255_medium', 'DN': 'DN80'}})
    kw = dict(power_electrical=round(10 ** r.uniform(3.8, 4.7)), eta_el=0.33, p2h_ratio=round(0.33 / r.uniform(0.45, 0.62), 3),
              modulation_range=(r.choice([0.3, 0.5, 0.6]), 1), theta_ff=round(r.uniform(82, 86), 1), heat_spread='range', heated_cells=(1, 5),
              no_control=False, lower_limit=0.0, upper_limit=1.0, fluegas_flow=70 / 61.1, **ps)
    n.meta = dict(kw=dict(kw), ctl=ctl, ports=ports)
    rec = Recorder(n.s) if env is None else env
    more = {}
    if ports != 0.5:  # with a flue gas exchanger
        Vg = kw['power_electrical'] / kw['eta_el'] / 1e3 * 70 / 61.1
        mdl = dict(seed=r.randint(0, 10 ** 6), degree=r.choice([1, 2, 2, 3]))
        more = dict(fluegas_hex_kwds=dict(regression_pipeline={'__hexmdl__': mdl}, max_gas_Nm3h=Vg, max_water_kgs=r.choice([0.5, 1, 2]) / 700),
                    fluegashex_theta_out_water=round(r.uniform(45, 58), 1), ht_rf_theta_mix=round(r.uniform(58, 66), 1))
        n.meta.update(mdl=mdl, gmax=Vg / 3600, wmax=more['fluegas_hex_kwds']['max_water_kgs'] * Vg,
                      sp=(more['fluegashex_theta_out_water'], more['ht_rf_theta_mix']),
                      ends=('in' if ends else 'ff', 'out' if ends else 'rf'))
    module('suppliers', 'chp_with_fghex')(
        rec, databases=None, number_rf_ports=ports, chp_ff_connection=('tes', 'in' if ends else 'ff'),
        chp_ntrf_connection=('tes', 'out' if ends else 'rf'), chp_htrfA_connection=('tes', 'hA'), chp_htrfB_connection=('tes', 'hB'),
        segment_name='1', **more,
        chp_kwds=kw, chp_ctrl=ctl, adjust_pipes=r.random() < 0.5, Tamb=n.Tamb)
    n.s['fam'] = 'cogen'
    return n


ALL = dict(heating=heating, drinking=drinking, cogen=cogen)
