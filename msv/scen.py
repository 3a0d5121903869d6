"""Scenario specs (JSON-able) -> multisim simulation environments built through
the public API, and recorded traces of a finished run."""
import contextlib
import io
import os
import sys
import warnings

import numpy as np

REPO = os.environ.get('MSV_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.filterwarnings('ignore')
import multisim as ms  # noqa: E402
import pandas as pd  # noqa: E402

assert os.path.abspath(ms.__file__).startswith(os.path.abspath(REPO)), ms.__file__
B = 'BoundaryCondition'
START = '2019-09-01 00:00:00'


def dec(o):
    """Decode numpy arrays / tuples / series / functions in a JSON spec."""
    if isinstance(o, dict):
        if '__nd__' in o:
            return np.array(o['__nd__'], dtype=float)
        if '__tup__' in o:
            return tuple(dec(x) for x in o['__tup__'])
        if '__slice__' in o:
            return slice(*o['__slice__'])
        if '__ts__' in o:
            t = o['__ts__']
            return pd.Series(
                np.array(t['v'], dtype=float),
                index=pd.date_range(
                    t.get('start', START),
                    periods=len(t['v']),
                    freq=pd.Timedelta(seconds=t['dt']),
                ),
            )
        if '__hexmdl__' in o:
            return hexmodel(**o['__hexmdl__'])
        if '__pf__' in o:
            return getattr(ms.pf, o['__pf__'])
        return {k: dec(v) for k, v in o.items()}
    if isinstance(o, list):
        return [dec(x) for x in o]
    return o


def hexmodel(seed, degree=2, interaction_only=False, include_bias=True, comps=None):
    """regression model of a condensing flue gas heat exchanger, fitted to made up data"""
    from sklearn.decomposition import PCA
    from sklearn.linear_model import LinearRegression
    from sklearn.pipeline import make_pipeline
    from sklearn.preprocessing import PolynomialFeatures
    g = np.random.RandomState(seed)
    X = np.column_stack([g.uniform(15, 85, 600), g.uniform(60, 150, 600), g.uniform(0.1, 1.1, 600), g.uniform(0.3, 1.1, 600)])
    a, b, c = g.uniform(0.15, 0.3), g.uniform(0.5, 1.5), g.uniform(1.0, 3.0)
    d = X[:, 1] - X[:, 0]
    Y = np.column_stack([X[:, 0] + a * d * X[:, 3] / (b + X[:, 2]), X[:, 0] + d * np.exp(-c * (0.3 + X[:, 2]) / (0.5 + X[:, 3]))])
    m = make_pipeline(PolynomialFeatures(degree, interaction_only=interaction_only, include_bias=include_bias),
                      PCA(n_components=comps, svd_solver='full'), LinearRegression())
    return m.fit(X, Y)


def nd(a):
    return {'__nd__': np.asarray(a, dtype=float).tolist()}


def tup(*a):
    return {'__tup__': list(a)}


def ts(v, dt, **k):
    return {'__ts__': dict(v=[float(x) for x in v], dt=float(dt), **k)}


def pspec(dn='DN25', typ='EN10255_medium'):
    return {'all': {'pipe_type': typ, 'DN': dn}}


def gs(T=20.0, Tamb=20.0, s_ins=0.01, lam_ins=0.035, dn='DN25', mat='carbon_steel'):
    return dict(
        insulation_thickness=s_ins, insulation_lambda=lam_ins, T_init=T,
        T_amb=Tamb, material=mat, pipe_specs=pspec(dn),
    )


class _HexDB(dict):
    def __missing__(self, k):
        db = pd.read_pickle(os.path.join(REPO, 'multisim', 'data_tables', 'heat_exchangers.pkl'))
        self[k] = dict(getattr(db.Plate.SWEP, k))
        return self[k]


HEXDB = _HexDB()


def build(spec):
    s = ms.SimEnv(suppress_printing=spec.get('quiet', True))
    d = spec.get('disk')
    if d is None:
        s.set_disksaving(save=False, start_date=spec.get('start', START))
    else:
        s.set_disksaving(**dec(d))
    s.set_timeframe(
        timeframe=spec['tf'], adaptive_steps=spec.get('adaptive', True),
        **dec(spec.get('tfkw', {}))
    )
    s.set_solver(solver='heun', allow_implicit=spec.get('impl', False))
    steps = spec.get('order')
    jobs = []
    for p in spec['parts']:
        jobs.append(('part', p))
    for b in spec['bcs']:
        jobs.append(('bc', b))
    for c in spec['conns']:
        jobs.append(('conn', c))
    for c in spec.get('ctrls', []):
        jobs.append(('ctrl', c))
    if steps is not None:
        jobs = [jobs[i] for i in steps]
    for kind, j in jobs:
        if kind == 'part':
            kw = dec(j['kw'])
            if 'hexdb' in kw:
                kw.update(HEXDB[kw.pop('hexdb')])
            if 'store' in j:
                kw['store_results'] = dec(j['store'])
            s.add_part(getattr(ms.ap, j['t']), j['n'], **kw)
        elif kind == 'bc':
            s.add_open_port(
                j['n'], constant=j.get('const', True), temperature=dec(j['T'])
            )
        elif kind == 'conn':
            s.connect_ports(*j)
        else:
            s.add_control(getattr(ms.ap, j['t']), name=j['n'], **dec(j['kw']))
    return s


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as f:
        yield f


def init(s, spec):
    s.initialize_sim()
    for d in spec.get('dyn', []):
        d = dec(d)
        s.assign_boundary_cond(**d)


def run(spec):
    """Build, initialise and run a spec; returns the finished environment."""
    with quiet():
        s = build(spec)
        init(s, spec)
        s.start_sim()
    return s


def trace(s):
    """Plain copy of everything recorded by a finished run."""
    out = {'t': np.array(s.time_vec, dtype=float), 'dtv': np.array(s.time_step_vec)}
    for n, p in s.parts.items():
        out[n] = {
            k: np.array(getattr(p, k), dtype=float)
            for k in ('res', 'res_dm', 'res_dQ', 'res_Pel', 'res_Pgas', '_chp_state')
            if hasattr(p, k) and isinstance(getattr(p, k), np.ndarray)
        }
    return out
