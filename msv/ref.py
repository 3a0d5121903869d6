"""Independent reference model of the finite-volume network (numpy only; works
from the JSON spec, not from multisim objects)."""
import os

import numpy as np
import pandas as pd

REPO = os.environ.get('MSV_REPO', '/repo')
_tab = {}


def table(n):
    if n not in _tab:
        _tab[n] = pd.read_pickle(os.path.join(REPO, 'multisim', 'data_tables', n + '.pkl'))
    return _tab[n]


# ---------------------------------------------------------------- properties
def poly(c):
    c = np.array(c[::-1])
    return lambda T: np.polyval(c, T)


rho_w = poly([999.8878571313621, 0.0496044549905296, -0.007472266645346072,
              4.1094484438154484e-05, -1.2915789546323614e-07])
lam_w = poly([0.5698791285322954, 0.0017878370402545738, -5.9998217273879795e-06,
              -8.69645771150934e-09])
cp_w = poly([4215.402357417999, -2.8853943283519348, 0.07490580684801168,
             -0.0007780714344170032, 3.2109328970410432e-06])
ny_w = poly([1.7764473380494155e-06, -5.5640275781265404e-08, 1.0243072887494426e-09,
             -9.795446013698117e-12, 3.6460468745062724e-14])
Pr_w = poly([12.578010819937905, -0.3512468057176751, 0.0043225480444706085,
             -1.9174193923188898e-05])
beta_w = poly([-5.87985364766666e-05, 1.5641955219950547e-05, -1.3587684743777981e-07,
               6.122050330814909e-10])
lam_a = poly([0.02435867099567099, 7.653398268398256e-05, -4.20995670995722e-08])
ny_a = poly([1.3500069264069257e-05, 8.881038961038946e-08, 1.0974025974025443e-10])


# ------------------------------------------------------ convection (VDI atlas)
def f_pr(Pr, a, e):
    return (1 + (a / Pr) ** e) ** (-1 / e if e != 11 / 20 else -20 / 11)


def alpha_pipe(dm, T, A, d, x):
    """inner coefficient per cell, dm: per-cell flow (signed)"""
    dm = np.broadcast_to(np.asarray(dm, float), T.shape)
    Re = np.abs(dm) / (rho_w(T) * A) * d / ny_w(T)
    Pr = Pr_w(T)
    Pe = Re * Pr
    xi = x[::-1] if dm[0] < 0 else x
    with np.errstate(all='ignore'):
        # (x)**3 of a possibly negative bracket is fine, the cube root of the
        # positive sum as well
        lam = (49.371 + (1.077 * np.cbrt(Pe * d / xi) - 0.7) ** 3) ** (1 / 3)
        f = (1.8 * np.log10(np.where(Re > 0, Re, 1.0)) - 1.5) ** -2
        tur = f / 8 * Pe / (1 + 12.7 * (Pr ** (2 / 3) - 1) * (f / 8) ** 0.5) * (
            1 + (d / xi) ** (2 / 3) / 3)
    Nu = np.where(Re > 2300, tur, lam)
    return Nu * lam_w(T) / d


def rayleigh(Ts, Ta, L):
    Tm = (Ts + Ta) / 2
    return np.abs(Ts - Ta) * 9.81 * L ** 3 * 0.708 / ((Ta + 273.15) * ny_a(Tm) ** 2)


def alpha_cyl(Ts, Ta, L, vertical, r):
    Ra = rayleigh(Ts, Ta, L)
    Tm = (Ts + Ta) / 2
    if vertical:
        fp = (1 + (0.492 / 0.708) ** (9 / 16)) ** (-16 / 9)
        Nu = (0.825 + 0.387 * (Ra * fp) ** (1 / 6)) ** 2 + 0.435 * L / (2 * r)
    else:
        fp = (1 + (0.559 / 0.708) ** (9 / 16)) ** (-16 / 9)
        Nu = (0.752 + 0.387 * (Ra * fp) ** (1 / 6)) ** 2
    return Nu * lam_a(Tm) / L


def alpha_vplane(Ts, Ta, L):
    fp = (1 + (0.492 / 0.708) ** (9 / 16)) ** (-16 / 9)
    Nu = (0.825 + 0.387 * (rayleigh(Ts, Ta, L) * fp) ** (1 / 6)) ** 2
    return Nu * lam_a((Ts + Ta) / 2) / L


def alpha_hplane(Ts, Ta, L, top):
    Ra = rayleigh(Ts, Ta, L)
    up = (top & (Ts >= Ta)) | (~top & (Ts < Ta))
    fu = (1 + (0.322 / 0.708) ** (11 / 20)) ** (-20 / 11)
    fd = (1 + (0.492 / 0.708) ** (9 / 16)) ** (-16 / 9)
    Nu_u = np.where(Ra * fu <= 7e4, 0.766 * (Ra * fu) ** 0.2, 0.15 * np.cbrt(Ra * fu))
    Nu_d = 0.6 * (Ra * fd) ** 0.2
    return np.where(up, Nu_u, Nu_d) * lam_a((Ts + Ta) / 2) / L


# ------------------------------------------------------------------- geometry
def arr(x, n):
    if isinstance(x, dict):
        x = x['__nd__']
    a = np.zeros(n)
    a[:] = x
    return a


def prow(psp, port='all'):
    """pipe dimensions: from the table or given directly, for all ports or for one"""
    ps = psp['all'] if 'all' in psp else psp.get(port)
    if ps is None:
        return None
    if 'DN' in ps:
        return table('pipe_specs')[ps['pipe_type'], ps['DN']]
    return pd.Series(ps, dtype=object)


def port_areas(q, port):
    r = prow(q.psp, port)
    return float(r.A_i), float(r.A_wall)


class Part:
    """geometry and balance of one numeric part"""

    def __init__(self, p):
        kw = p['kw']
        self.name, self.t = p['n'], p['t']
        n = self.n = kw['grid_points']
        row = prow(kw['pipe_specs'])
        m = table('material_props')
        mat = m[kw['material']]
        self.lam_wll, rho_wll, cp_wll = float(mat['lambda']), float(mat.rho), float(mat.c_p)
        self.psp = kw['pipe_specs']
        self.s_ins = kw['s_ins'] if 's_ins' in kw else kw['insulation_thickness']
        self.lam_ins = kw['lambda_ins'] if 'lambda_ins' in kw else kw['insulation_lambda']
        self.Ta = float(kw['T_amb'])
        self.T0 = arr(kw['T_init'], n)
        self.tes = self.t == 'Tes'
        if self.tes:
            do = kw['outer_diameter']
            di = do - 2 * kw['shell_thickness']
            self.A = np.pi / 4 * di ** 2
            L = kw['volume'] / self.A
            self.V = kw['volume'] / n
        else:
            di, do = float(row.d_i), float(row.d_o)
            self.A = float(row.A_i)
            L = float(kw['length'])
            self.V = self.A * L / n
        self.di = di
        self.gsp = g = L / n
        self.ri, self.ro = di / 2, do / 2
        self.rt = self.ro + self.s_ins
        self.Acs = np.pi / 4 * (do ** 2 - di ** 2)
        self.mcp_wll = cp_wll * rho_wll * self.Acs * g
        self.Ai = np.pi * di * g
        self.At = 2 * np.pi * self.rt * g
        self.x = np.full(n, L * (1.077 / 1.615) ** 3) if self.tes else (np.arange(n) + 0.5) * g
        self.vert = self.tes
        self.Lf = g if self.tes else np.pi * self.rt  # horizontal cylinder: pi*d/2
        self.Llid = (2 * self.rt) ** 2 / (2 * 4 * self.rt)
        self.s_wll = self.ro - self.ri
        # ports
        if self.t == 'PipeWith3wValve':
            self.ports = {'A': 0, 'B': kw['valve_location'], 'AB': n - 1}
        else:
            self.ports = {'in': 0, 'out': n - 1}
            for k, v in (kw.get('new_ports') or {}).items():
                if v[1] == 'index':
                    c = v[0] if v[0] >= 0 else n - 1
                elif v[1] == 'volume':
                    c = min(n - 1, max(0, int(np.ceil(v[0] / self.V - 1e-9)) - 1))
                else:
                    c = min(n - 1, max(0, int(np.floor(v[0] / L * n - 1e-9))))
                self.ports[k] = c
        self.invar = self.t in ('Pipe', 'PipeWithPump', 'HeatedPipe', 'CHPPlant')
        self.UAp = {}
        # outer film state used by the code lags one evaluation behind
        self.Ts = np.zeros(n)
        self.a_inf = np.full(n, 3.122)
        self.UAs = np.zeros(n)

    # -- losses
    def UA_shell(self, alpha_i, a_inf):
        return self.Ai / (1 / alpha_i + self.ri * np.log(self.ro / self.ri) / self.lam_wll
                          + self.ri * np.log(self.rt / self.ro) / self.lam_ins
                          + self.ri / self.rt / a_inf)

    def loss_lag(self, T, dm, commit=True):
        """ambient heat flow with the one-evaluation lag of the surface state"""
        ai = alpha_pipe(dm, T, self.A, self.di, self.x)
        Ts = self.Ta + (T - self.Ta) * self.UAs / (self.a_inf * self.At)
        a_inf = alpha_cyl(Ts, self.Ta, self.Lf, self.vert, self.rt)
        UA = self.UA_shell(ai, a_inf)
        q = UA * (self.Ta - T)
        if self.tes:
            q = q + self.lid(T, ai, Ts)
        if commit:
            self.Ts, self.a_inf, self.UAs = Ts, a_inf, UA
        return q

    def loss_fix(self, T, dm):
        ai = alpha_pipe(dm, T, self.A, self.di, self.x)
        a_inf, UA = self.a_inf, self.UAs
        if not UA.any():
            UA = self.UA_shell(ai, a_inf)
        for _ in range(8):
            Ts = self.Ta + (T - self.Ta) * UA / (a_inf * self.At)
            a_inf = alpha_cyl(Ts, self.Ta, self.Lf, self.vert, self.rt)
            UA = self.UA_shell(ai, a_inf)
        q = UA * (self.Ta - T)
        if self.tes:
            q = q + self.lid(T, ai, Ts)
        return q

    def lid(self, T, ai, Ts):
        q = np.zeros_like(T)
        top = np.array([True, False])
        with np.errstate(divide='ignore'):
            al = alpha_hplane(Ts[[0, -1]], self.Ta, self.Llid, top)
            UA = self.A / (1 / ai[[0, -1]] + self.s_wll / self.lam_wll + self.s_ins / self.lam_ins
                           + 1 / al)
        q[0] += UA[0] * (self.Ta - T[0])
        q[-1] += UA[1] * (self.Ta - T[-1])
        return q

    # -- inner exchange
    def lam_face(self, T):
        l = lam_w(T)
        lm = 2 * l[:-1] * l[1:] / (l[:-1] + l[1:])
        if self.tes:
            dT = np.maximum(T[1:] - T[:-1], 0)
            Pr = Pr_w(T[1:])
            Ra = Pr * 9.81 * (self.di / 4) ** 3 * np.abs(beta_w(T[1:])) * dT / ny_w(T[1:]) ** 2
            Rf = Ra * (1 + (0.322 / Pr) ** (11 / 20)) ** (-20 / 11)
            Nu = np.where(Rf > 7e4, 0.15 * np.cbrt(Rf), 0.766 * Rf ** 0.2)
            lm = np.where(Nu >= 1, lm * Nu * 20, lm)
        return lm

    def mcp(self, T):
        return self.V * rho_w(T) * cp_w(T) + self.mcp_wll

    def UA_port(self, port, Tp, Tc):
        u = self.UAp[port]
        if u is None:
            return 0.0
        g, Am, UAw = u
        return Am / (g / (2 * lam_w(Tp)) + self.gsp / (2 * lam_w(Tc))) + UAw

    def inner(self, T, Tp, dmf, pin):
        """conduction+advection heat flows per cell [W].
        Tp: {port: T}, dmf: flow cell i -> i+1 (n-1), pin: {port: inflow>=0}"""
        n = self.n
        q = np.zeros(n)
        UA = self.A / self.gsp * self.lam_face(T) + self.Acs / self.gsp * self.lam_wll
        f = UA * (T[:-1] - T[1:])
        q[:-1] -= f
        q[1:] += f
        h = cp_w(T) * T
        up, dn = np.maximum(dmf, 0), np.maximum(-dmf, 0)
        q[1:] += up * (h[:-1] - h[1:])
        q[:-1] += dn * (h[1:] - h[:-1])
        for p, c in self.ports.items():
            q[c] += self.UA_port(p, Tp[p], T[c]) * (Tp[p] - T[c])
            q[c] += pin[p] * (cp_w(Tp[p]) * Tp[p] - h[c])
        return q


def alpha_plate(dm, T, A, dh, x, corr):
    """plate channel (VDI heat atlas, parallel plates / Gnielinski)"""
    Re = np.abs(dm) / (rho_w(T) * A) * dh / ny_w(T) + corr
    Pr = Pr_w(T)
    g = Re * Pr * dh / x
    lam = np.cbrt(49.371 + (1.615 * np.cbrt(g) - 0.7) ** 3 + ((2 / (1 + 22 * Pr)) ** (1 / 6) * np.sqrt(g)) ** 3)
    with np.errstate(divide='ignore', invalid='ignore'):
        f = (1.8 * np.log10(Re) - 1.5) ** -2.0 / 8
        tur = f * Re * Pr / (1 + 12.7 * np.sqrt(f) * (Pr ** (2 / 3) - 1)) * (1 + (dh / x) ** (2 / 3))
    return np.where(Re > 2300, tur, lam) * lam_w(T) / dh, Re


def hexdb(name):
    import pandas as pd
    db = pd.read_pickle(os.path.join(REPO, 'multisim', 'data_tables', 'heat_exchangers.pkl'))
    return dict(getattr(db.Plate.SWEP, name))


class HexGeo:
    """channels, areas and masses of a plate heat exchanger"""

    def __init__(self, kw):
        kw = dict(kw)
        if 'hexdb' in kw:
            kw.update(hexdb(kw['hexdb']))
        pl, ps = kw['plates'], kw.get('passes', 1)
        if ps == 1:
            a, b = pl // 2, pl // 2 - 1
            self.ns, self.nd = (a, b) if kw.get('max_channels') == 'supply' else (b, a)
        else:
            self.ns = self.nd = int((pl - 1) / ps / 2)
        self.N = int((pl - 2) / ps)
        mat = table('material_props')[kw['material']]
        self.lam_wll, self.cp_wll, rho = float(mat['lambda']), float(mat.c_p), float(mat.rho)
        L, W, rc = kw['length'], kw['width'], kw['corner_radius']
        self.L = L
        cut = (4 - np.pi) * rc ** 2
        self.A_plate = kw.get('A_plate', L * W - np.pi * kw['port_diameter'] ** 2 - cut)
        self.A_eff = self.A_plate * ps
        self.m_plate = kw['mass_per_plate']
        if 'channel_width' in kw:
            self.s_ch = kw['channel_width']
            self.s_pl = kw.get('plate_thickness', kw.get('depth_per_plate', 0) - self.s_ch)
            vdef = self.s_ch * self.A_plate
        else:
            U = 2 * (L + W) - 8 * rc + 2 * np.pi * rc
            self.s_pl = kw.get('plate_thickness', self.m_plate / rho / (self.A_plate + kw['depth_per_plate'] * U))
            self.s_ch = kw['depth_per_plate'] - self.s_pl
            vdef = (L * W - cut - np.pi / 2 * kw['port_diameter'] ** 2) * self.s_ch
        self.V_ch = kw.get('V_channel', vdef)
        self.A_ch = kw.get('channel_area', self.s_ch * W)
        self.W = W
        self.dh = 2 * self.s_ch


class Hex:
    """numeric counter flow plate heat exchanger; the state is the flattened
    array of (supply, wall, demand) temperatures; all channels and plates are
    summed up"""

    invar = False
    tes, At, A, Ta = False, 0.0, 0.0, 25.0

    def __init__(self, p):
        kw = p['kw']
        self.name, self.t = p['n'], p['t']
        self.g = g = kw['grid_points']
        self.n = 3 * g
        self.geo = G = HexGeo(kw)
        self.psp = kw['pipe_specs']
        self.lam_wll = G.lam_wll
        self.gsp = G.L / g
        self.x = (np.arange(g) + 0.5) * self.gsp
        self.corr = kw.get('reynolds_correction', 1e-6)
        self.ports = dict(sup_in=0, sup_out=3 * g - 3, dmd_out=2, dmd_in=3 * g - 1)
        self.UAp = {}
        self.mw = G.m_plate * G.cp_wll / g * G.N
        self.Re = [np.inf, 0.0]
        self.near = False  # a channel is close to the laminar/turbulent transition
        self.impl = bool(kw.get('solve_implicit'))

    UA_port = Part.UA_port

    def loss_lag(self, T, dm):
        return np.zeros(self.n)

    def loss_fix(self, T, dm):
        return np.zeros(self.n)

    def mcp(self, T):
        T = T.reshape(-1, 3)
        G = self.geo
        m = np.empty_like(T)
        m[:, 1] = self.mw
        for c, k in ((0, G.ns), (2, G.nd)):
            m[:, c] = k * G.V_ch / self.g * rho_w(T[:, c]) * cp_w(T[:, c])
        return m.ravel()

    def inner(self, T, Tp, fl, pin):
        G = self.geo
        T = T.reshape(-1, 3)
        q = np.zeros_like(T)
        for c, k, i, o in ((0, G.ns, 'sup_in', 'sup_out'), (2, G.nd, 'dmd_out', 'dmd_in')):
            m = fl[i]  # flow from the first to the last row
            x = T[:, c]
            a, Re = alpha_plate(m / k, x, G.A_ch, G.dh, self.x, self.corr)
            self.Re = [min(self.Re[0], Re.min()), max(self.Re[1], Re.max())]
            self.near |= bool((abs(Re / 2300 - 1) < 0.03).any())
            w = G.N * G.A_eff / self.g / (1 / a + G.s_pl / 2 / G.lam_wll) * (T[:, 1] - x)
            q[:, c] += w
            q[:, 1] -= w
            l = lam_w(x)
            f = k * G.A_ch / self.gsp * 2 * l[:-1] * l[1:] / (l[:-1] + l[1:]) * (x[:-1] - x[1:])
            q[:-1, c] -= f
            q[1:, c] += f
            h = cp_w(x) * x
            if m >= 0:
                q[1:, c] += m * (h[:-1] - h[1:])
            else:
                q[:-1, c] -= m * (h[1:] - h[:-1])
        f = G.N * G.s_pl * G.W / self.gsp * G.lam_wll * (T[:-1, 1] - T[1:, 1])
        q[:-1, 1] -= f
        q[1:, 1] += f
        q = q.ravel()
        Tf = T.ravel()
        for p, c in self.ports.items():
            q[c] += self.UA_port(p, Tp[p], Tf[c]) * (Tp[p] - Tf[c])
            q[c] += pin[p] * (cp_w(Tp[p]) * Tp[p] - cp_w(Tf[c]) * Tf[c])
        return q


def implicit(q, T0, h, Tp, fl, pin):
    """backward Euler step of a numeric exchanger"""
    from scipy.optimize import root

    def f(y):
        return y - T0 - h * q.inner(y, Tp, fl, pin) / q.mcp(y)

    r = root(f, T0, method='hybr')
    q.conv = bool(r.success) or float(np.abs(r.fun).max()) < 1e-7
    return r.x


class Net:
    """reference network: numeric parts, junctions, boundary ports"""

    def __init__(self, spec):
        self.spec = spec
        self.parts, self.junc = {}, {}
        self.given = {}  # parts whose port temperatures are taken from the record
        for p in spec['parts']:
            if p['t'] in ('Pipe', 'PipeWithPump', 'PipeWith3wValve', 'PipeBranched', 'HeatedPipe', 'CHPPlant', 'Tes'):
                self.parts[p['n']] = Part(p)
            elif p['t'] == 'HexNum':
                self.parts[p['n']] = Hex(p)
            elif p['t'] == 'HeatExchanger':
                self.given[p['n']] = dict(sup_in=0, sup_out=1, dmd_in=2, dmd_out=3)
            elif p['t'] == 'HEXCondPoly':
                self.given[p['n']] = dict(water_in=0, fluegas_in=1, water_out=2, fluegas_out=3)
            elif p['t'] == 'Connector3w':
                self.junc[p['n']] = dict(ports=['A', 'B', 'C'], spec=p)
            else:
                raise ValueError('no reference for ' + p['t'])
        self.bc = {b['n']: b['T'] for b in spec['bcs']}
        self.link = {}
        for a, ap, b, bp in spec['conns']:
            self.link[a, ap] = (b, bp)
            self.link[b, bp] = (a, ap)
        # conduction over ports
        jp = {}
        for j, d in self.junc.items():
            vals = {}
            for p in d['ports']:
                o, op = self.link[j, p]
                if o in self.parts:
                    q = self.parts[o]
                    vals[p] = (*port_areas(q, op), q.gsp, q.lam_wll)
            jp[j] = vals
        for n, q in self.parts.items():
            for p in q.ports:
                o, op = self.link[n, p]
                if o == 'BoundaryCondition' or o in self.given:
                    v = (*port_areas(q, p), q.gsp, q.lam_wll)
                elif o in self.parts:
                    r = self.parts[o]
                    v = (*port_areas(r, op), r.gsp, r.lam_wll)
                else:
                    # a junction has no extent of its own: the mean of what is
                    # connected on its other ports
                    oth = [jp[o].get(x) for x in self.junc[o]['ports'] if x != op]
                    if any(x is None for x in oth):
                        v = None
                    else:
                        v = tuple(np.mean([x[k] for x in oth]) for k in range(4))
                if v is None:
                    q.UAp[p] = None
                    continue
                Ao, Awo = port_areas(q, p)
                Am, Awm = (Ao + v[0]) / 2, (Awo + v[1]) / 2
                q.UAp[p] = (v[2], Am, Awm / (v[2] / (2 * v[3]) + q.gsp / (2 * q.lam_wll)))
        self.unknown_cond = {n: [p for p in q.ports if q.UAp[p] is None]
                             for n, q in self.parts.items()}

    def port_T(self, part, port, state, jT, bc):
        """temperature a part sees at its port"""
        o, op = self.link[part, port]
        if o == 'BoundaryCondition':
            return bc[op]
        if o in self.parts:
            q = self.parts[o]
            return state[o][q.ports[op]]
        if o in self.given:
            return state[o][self.given[o][op]]
        return jT[o][op]


def junction(Tp, dm):
    """junction temperatures by port from neighbour temperatures Tp and inflows
    dm (>0 into the junction), both dicts over the three ports"""
    ins = [p for p in Tp if dm[p] > 0]
    outs = [p for p in Tp if dm[p] < 0]
    r = {}
    if len(ins) == 2:
        o = outs[0]
        H = sum(dm[p] * cp_w(Tp[p]) * Tp[p] for p in ins)
        cpo = cp_w(sum(dm[p] * Tp[p] for p in ins) / sum(dm[p] for p in ins))
        r[o] = H / (cpo * sum(dm[p] for p in ins))
        for p in ins:
            r[p] = Tp[o]
    elif len(outs) == 2:
        i = ins[0]
        for p in outs:
            r[p] = Tp[i]
        r[i] = sum(Tp[p] for p in outs) / 2
    elif len(ins) == 1:
        i, o = ins[0], outs[0]
        z = [p for p in Tp if p not in (i, o)][0]
        r[z] = (Tp[i] + Tp[o]) / 2
        r[o] = Tp[i]
        r[i] = (r[o] + r[z]) / 2
    else:
        for p in Tp:
            x = [q for q in Tp if q != p]
            r[p] = (Tp[x[0]] + Tp[x[1]]) / 2
    return r


# ---------------------------------------------------------------- mass flows
class FlowRef:
    """flow of every connection from pump flows and valve openings, by nodal
    balances over the connection list only"""

    def __init__(self, spec):
        self.spec = spec
        # flue gas which is sent by a CHP plant is no part of the water network
        self.edges = [tuple(c) for c in spec['conns'] if not ('BoundaryCondition' in (c[0], c[2]) and 'fluegas' in c[1] + c[3])]
        self.types = {p['n']: p for p in spec['parts']}
        self.pumps = [p['n'] for p in spec['parts'] if p['t'] in ('PipeWithPump', 'Pump')]
        self.valves = [p['n'] for p in spec['parts'] if p['t'] in ('PipeWith3wValve', 'MixingValve')]
        self.eidx = {}
        for i, (a, ap, b, bp) in enumerate(self.edges):
            # + : flow from a to b
            self.eidx[a, ap] = (i, -1.0)  # inflow into a = -x
            self.eidx[b, bp] = (i, +1.0)

    def groups(self, p):
        t = p['t']
        if t in ('HexNum', 'HeatExchanger'):
            return [('sup_in', 'sup_out'), ('dmd_in', 'dmd_out')]
        if t == 'HEXCondPoly':
            return [g for g in (('water_in', 'water_out'), ('fluegas_in', 'fluegas_out')) if (p['n'], g[0]) in self.eidx]
        ports = [k[1] for k in self.eidx if k[0] == p['n']]
        return [tuple(ports)]

    def solve(self, pump, opening=None):
        """pump: {name: flow in->out}, opening: {valve: share of A}.
        returns {(part, port): inflow}"""
        opening = opening or {}
        n = len(self.edges)
        rows, rhs = [], []

        def row(terms, b):
            r = np.zeros(n)
            for k, f in terms:
                i, s = self.eidx[k]
                r[i] += f * s
            rows.append(r)
            rhs.append(b)

        for p in self.spec['parts']:
            for g in self.groups(p):
                row([((p['n'], q), 1.0) for q in g], 0.0)
        for k in self.pumps:
            row([((k, 'in'), 1.0)], pump[k])
        for v in self.valves:
            op = opening[v]
            # inflow A = op * -(inflow AB)
            row([((v, 'A'), 1.0), ((v, 'AB'), op)], 0.0)
        M, b = np.array(rows), np.array(rhs)
        x, _, rank, _ = np.linalg.lstsq(M, b, rcond=None)
        self.rank_def = n - rank
        self.inconsistency = float(np.abs(M @ x - b).max())
        return {k: float(s * x[i]) for k, (i, s) in self.eidx.items()
                if k[0] != 'BoundaryCondition'}

    def faces(self, part, inflow, n, ports):
        """flow from cell i to cell i+1 from port inflows"""
        c = np.zeros(n)
        for p, cell in ports.items():
            c[cell] += inflow[part, p]
        return np.cumsum(c)[:-1]


def cells_of(p):
    return Part(p).ports if p['t'] not in ('Connector3w', 'HexNum', 'HeatExchanger') else None


# -------------------------------------------------------------------- replay
def openings(spec):
    return {p['n']: p['kw']['const_val'] for p in spec['parts']
            if p['t'] in ('PipeWith3wValve', 'MixingValve') and 'const_val' in p['kw']}


class Replay:
    """re-computes every recorded step of a finished run from the recorded
    state at the beginning of the step"""

    def __init__(self, spec, bcs=None, opening=None, heat=None):
        self.net = Net(spec)
        self.flow = FlowRef(spec)
        self.spec = spec
        self.op = opening  # callable step -> dict, or None for constants
        self.bcs = bcs     # callable step -> dict
        self.pre = None    # callable(step, net) before each step
        self.heat = heat or {}  # part -> per-cell heat flow function(step) [W]

    def eval(self, state, jT, bc, flows, faces, k, lag):
        """heat flow per part at a state; returns dict part -> (q_inner, q_loss)"""
        out = {}
        for n, q in self.net.parts.items():
            Tp = {p: self.net.port_T(n, p, state, jT, bc) for p in q.ports}
            pin = {p: max(flows[n, p], 0.0) for p in q.ports}
            if isinstance(q, Hex):
                qi = q.inner(state[n], Tp, {p: flows[n, p] for p in q.ports}, pin)
                out[n] = (qi, 0.0 * qi, 0.0 * qi)
                continue
            qi = q.inner(state[n], Tp, faces[n], pin)
            if q.invar:
                dm = np.full(q.n, flows[n, 'in'])
            else:
                dm = np.append(faces[n], faces[n][-1])
            ql = q.loss_lag(state[n], dm)
            qf = q.loss_fix(state[n], dm) if lag else ql
            if n in self.heat:
                qi = qi + self.heat[n](k)
            # heat conduction into a junction is only known to its magnitude
            qj = np.zeros(q.n)
            for p, c in q.ports.items():
                if self.net.link[n, p][0] in self.net.junc:
                    x = abs(q.UA_port(p, Tp[p], state[n][c])) * self.jspread(n, p, state, bc)
                    qj[c] += x
                    qj[max(c - 1, 0)] += 0.2 * x
                    qj[min(c + 1, q.n - 1)] += 0.2 * x
            out[n] = (qi, ql, np.abs(qf - ql) + qj)
        return out

    def jspread(self, n, p, state, bc):
        """temperature spread around the junction at a port"""
        o = self.net.link[n, p][0]
        Ts = []
        for x in self.net.junc[o]['ports']:
            a, ap = self.net.link[o, x]
            if a in self.net.parts:
                Ts.append(state[a][self.net.parts[a].ports[ap]])
            elif a == 'BoundaryCondition':
                Ts.append(bc[ap])
        return max(Ts) - min(Ts)

    def steps(self, tr, lag=True, kmax=None, every=1):
        """yields (k, part, T_ref, T_rec, tol, scale)"""
        net, spec = self.net, self.spec
        t = tr['t']
        jT = {j: {p: tr[j]['res'][0][i] for i, p in enumerate(d['ports'])}
              for j, d in net.junc.items()}
        bc0 = dict(net.bc)
        cache = {}
        K = len(t) if kmax is None else min(len(t), kmax)
        for k in range(1, K):
            h = t[k] - t[k - 1]
            pump = {p: float(np.ravel(tr[p]['res_dm'][k])[0]) for p in self.flow.pumps}
            op = self.op(k) if self.op else openings(spec)
            ck = (tuple(pump.items()), tuple(sorted(op.items())))
            if ck not in cache:
                if len(cache) > 50:
                    cache.clear()
                cache[ck] = self.flow.solve(pump, op)
            fl = cache[ck]
            faces = {n: self.flow.faces(n, fl, q.n, q.ports) for n, q in net.parts.items() if not isinstance(q, Hex)}
            if self.pre is not None:
                self.pre(k, net)
            bca, bcb = (bc0, bc0) if self.bcs is None else self.bcs(k)
            s0 = {n: tr[n]['res'][k - 1].ravel() for n in (*net.parts, *net.given)}
            jT = {j: {p: tr[j]['res'][k - 1][i] for i, p in enumerate(d['ports'])}
                  for j, d in net.junc.items()}
            f0 = self.eval(s0, jT, bca, fl, faces, k, lag)
            mc0 = {n: q.mcp(s0[n]) for n, q in net.parts.items()}
            d0 = {n: (f0[n][0] + f0[n][1]) / mc0[n] for n in f0}
            s1 = {n: s0[n] + h * d0[n] if n in d0 else s0[n] for n in s0}
            imp = [n for n, q in net.parts.items() if isinstance(q, Hex) and q.impl]

            def half(n, T0, st, jt, bc):
                q = net.parts[n]
                Tp = {p: net.port_T(n, p, st, jt, bc) for p in q.ports}
                return implicit(q, T0, h / 2, Tp, {p: fl[n, p] for p in q.ports},
                                {p: max(fl[n, p], 0.0) for p in q.ports})
            for n in imp:
                net.parts[n].near = False
                s1[n] = half(n, s0[n], s0, jT, bca)
            # junctions are solved from the port values of the step's start
            jT1 = {}
            for j, d in net.junc.items():
                Tp = {p: net.port_T(j, p, s0, jT, bca) for p in d['ports']}
                jT1[j] = junction(Tp, {p: fl[j, p] for p in d['ports']})
            f1 = self.eval(s1, jT1, bcb, fl, faces, k, lag)
            for n, q in net.parts.items():
                if n in imp:
                    Tn = half(n, s1[n], s1, jT1, bcb)
                    z = np.zeros(q.n)
                    yield k, n, Tn, tr[n]['res'][k].ravel(), z, z, s1[n]
                    continue
                mc1 = q.mcp(s1[n])
                d1 = (f1[n][0] + f1[n][1]) / mc1
                Tn = s0[n] + h / 2 * (d0[n] + d1)
                tol = h / 2 * (f0[n][2] / mc0[n] + f1[n][2] / mc1)
                sc = h / 2 * (np.abs(f0[n][1]) / mc0[n] + np.abs(f1[n][1]) / mc1)
                yield k, n, Tn, tr[n]['res'][k].ravel(), tol, sc, s1[n]
