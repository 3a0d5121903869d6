"""Small helpers for the demonstrations (run with cwd = repository root)."""
import os, sys, io, contextlib, warnings
warnings.filterwarnings('ignore')
sys.path.insert(0, os.getcwd())
import numpy as np
import pandas as pd
import multisim as ms
START = '2020-01-01'


def env(tf, impl=False, disk=None, **kw):
    s = ms.SimEnv(suppress_printing=True)
    if disk:
        s.set_disksaving(start_date=START, **disk)
    else:
        s.set_disksaving(save=False, start_date=START)
    s.set_timeframe(timeframe=tf, adaptive_steps=True, **kw)
    s.set_solver('heun', allow_implicit=impl)
    return s


def gs(T=20.0, Tamb=20.0, ins=0.05, dn='DN25'):
    return dict(insulation_thickness=ins, insulation_lambda=0.035, T_init=T, T_amb=Tamb, material='carbon_steel',
                pipe_specs={'all': {'pipe_type': 'EN10255_medium', 'DN': dn}})


def pipe(s, n, L=2.0, gp=5, **k):
    s.add_part(ms.ap.Pipe, n, length=L, grid_points=gp, **gs(**k))


def pump(s, n, dm, L=1.0, gp=3, **k):
    s.add_part(ms.ap.PipeWithPump, n, length=L, grid_points=gp, start_massflow=float(dm), ctrl_required=False,
               const_val=float(dm), **gs(**k))


def go(s, dyn=()):
    with contextlib.redirect_stdout(io.StringIO()):
        s.initialize_sim()
        for d in dyn:
            s.assign_boundary_cond(**d)
        s.start_sim()
    return s


def series(v, dt):
    return pd.Series(np.array(v, float), index=pd.date_range(START, periods=len(v), freq=pd.Timedelta(seconds=dt)))


def check(ok, msg):
    if not ok:
        print('FAIL:', msg)
        sys.exit(1)


def ctl(s, cls, n, **kw):
    d = dict(process_CV_mode='direct', CV_saturation=(0.0, 1.0), reference_part='none', setpoint=50.0,
             sub_controller=False, off_state=0.0, time_domain='discrete', deadtime=0.0, slope=(0, 0), invert=False)
    d.update(kw)
    s.add_control(getattr(ms.ap, cls), name=n, **d)


def ctlnet(tf=60.0, dyn=None, **kw):
    """warm water pumped through 'p' by the controlled pump 'pu'"""
    s = env(tf, **kw)
    pipe(s, 'p', T=20.0)
    s.add_part(ms.ap.PipeWithPump, 'pu', length=1.0, grid_points=3, start_massflow=0.1, lower_limit=0.0,
               upper_limit=0.5, maximum_flow=0.5, **gs())
    s.add_open_port('BC_i', constant=dyn is None, temperature=70.0)
    s.add_open_port('BC_o', constant=True, temperature=20.0)
    s.connect_ports('BoundaryCondition', 'BC_i', 'p', 'in')
    s.connect_ports('p', 'out', 'pu', 'in')
    s.connect_ports('pu', 'out', 'BoundaryCondition', 'BC_o')
    return s


def logctl(s):
    """run the simulation and log (controller, dt, pv, sp, cv) of every call"""
    out = []
    with contextlib.redirect_stdout(io.StringIO()):
        s.initialize_sim()
        for c in s.ctrl_l:
            def f(dt, c=c, g=c.ctrl):
                g(dt)
                out.append((c, dt, float(np.ravel(c.pv)[0]), float(np.ravel(c.sp)[0]), float(c.cv)))
            c.ctrl = f
        s.start_sim()
    return out
