"""Random simulation scenarios (pure JSON specs; no multisim import)."""
import random

DNS = ['DN15', 'DN20', 'DN25', 'DN32', 'DN40', 'DN50', 'DN65', 'DN80']
MATS = ['carbon_steel', 'stainless_steel']
B = 'BoundaryCondition'


def R(seed):
    return random.Random(seed)


def nd(a):
    return {'__nd__': [float(x) for x in a]}


def tup(*a):
    return {'__tup__': list(a)}


def ts(v, dt, **k):
    return {'__ts__': dict(v=[float(x) for x in v], dt=float(dt), **k)}


def pspec(dn='DN25', typ='EN10255_medium'):
    return {'all': {'pipe_type': typ, 'DN': dn}}


def own(r):
    """pipe dimensions given by the user instead of a nominal diameter"""
    d = round(r.uniform(0.018, 0.08), 5)
    w = round(r.uniform(0.0015, 0.006), 5)
    o = d + 2 * w
    q = 3.141592653589793 / 4
    return dict(pipe_type='EN10255_medium', d_i=d, d_o=o, A_i=q * d * d, A_wall=q * (o * o - d * d), A_o=q * o * o, s=w)


def dims(s, r, alias=False):
    """give some parts self-defined pipes, storages one pipe per port, and use the other names of the insulation arguments"""
    for p in s['parts']:
        kw = p['kw']
        if 'pipe_specs' not in kw or p['t'] in ('HeatExchanger', 'HexNum', 'Connector3w', 'ConnectorXw'):
            continue
        x = lambda: own(r) if r.random() < 0.5 else pspec(r.choice(DNS), r.choice(['EN10255_medium', 'EN10255_heavy']))['all']  # noqa: E731
        if p['t'] == 'Tes':
            if r.random() < 0.6:
                kw['pipe_specs'] = {q: x() for q in ['in', 'out'] + list(kw.get('new_ports') or {})}
        elif r.random() < 0.5:
            kw['pipe_specs'] = {'all': x()}
        if alias and p['t'] in ('Pipe', 'PipeWithPump', 'PipeBranched', 'PipeWith3wValve', 'Tes') and r.random() < 0.5:
            for a, b in (('insulation_thickness', 's_ins'), ('insulation_lambda', 'lambda_ins')):
                if r.random() < 0.7 and a in kw:
                    kw[b] = kw.pop(a)
    return s


class Net:
    """Small helper which collects a spec."""

    def __init__(self, r, tf=60.0, tlo=5.0, thi=90.0, **tfkw):
        self.r = r
        self.s = dict(tf=float(tf), tfkw=tfkw, parts=[], bcs=[], conns=[], ctrls=[])
        self.tlo, self.thi = tlo, thi
        self.dn = r.choice(DNS)
        self.n = 0
        self.Tamb = round(r.uniform(-5, 35), 1)

    def T(self):
        return round(self.r.uniform(self.tlo, self.thi), 2)

    def gs(self, n_cells=None, T=None, dn=None, uniform=None, **o):
        r = self.r
        if T is None:
            if n_cells and not uniform and r.random() < 0.5:
                T = nd([self.T() for _ in range(n_cells)])
            else:
                T = self.T()
        d = dict(
            insulation_thickness=r.choice([0.0, 0.005, 0.01, 0.03, 0.1]),
            insulation_lambda=round(r.uniform(0.02, 0.08), 4),
            T_init=T, T_amb=self.Tamb, material=r.choice(MATS),
            pipe_specs=pspec(dn or self.dn),
        )
        if d['insulation_thickness'] == 0.0 and r.random() < 0.7:
            d['insulation_thickness'] = 0.002
        d.update(o)
        return d

    def bc(self, name, T=None):
        self.s['bcs'].append(dict(n='BC_' + name, T=self.T() if T is None else T))
        return (B, 'BC_' + name)

    def part(self, t, n, **kw):
        store = kw.pop('store', None)
        d = dict(t=t, n=n, kw=kw)
        if store is not None:
            d['store'] = store
        self.s['parts'].append(d)
        return d

    def gp(self, lo=3, hi=10):
        return self.r.randint(lo, hi)

    def pipe(self, n, gp=None, length=None, **o):
        g = gp or self.gp()
        L = length or round(g * self.r.uniform(0.15, 0.6), 3)
        self.part('Pipe', n, length=L, grid_points=g, **self.gs(g, **o))
        return n

    def pump(self, n, dm, gp=None, **o):
        g = gp or self.gp(3, 6)
        kw = dict(length=round(g * self.r.uniform(0.15, 0.6), 3), grid_points=g)
        if isinstance(dm, dict) and '__ts__' in dm:
            kw.update(start_massflow=dm['__ts__']['v'][0], ctrl_required=False, time_series=dm)
        elif isinstance(dm, dict):
            kw.update(dm)
        else:
            kw.update(start_massflow=float(dm), ctrl_required=False, const_val=float(dm))
        kw.update(self.gs(g, **o))
        self.part('PipeWithPump', n, **kw)
        return n

    def C(self, *a):
        a = list(a)
        if self.r.random() < 0.5 and not (a[0] == B and a[2] == B):
            a = a[2:] + a[:2]
        self.s['conns'].append(a)

    def chain(self, *nodes):
        """nodes: (part, inport, outport) or 2-tuples at the ends."""
        for x, y in zip(nodes, nodes[1:]):
            self.C(x[0], x[-1], y[0], y[1])

    def io(self, p=0.4):
        return ('out', 'in') if self.r.random() < p else ('in', 'out')

    def flow(self):
        return round(self.r.choice([0.02, 0.05, 0.1, 0.2, 0.4]) * self.r.uniform(0.5, 1.5), 4)

    def dnflow(self, lo=0.1, hi=1.0):
        """flow with a plausible velocity for the net's diameter"""
        A = {'DN15': 2.0e-4, 'DN20': 3.7e-4, 'DN25': 5.8e-4, 'DN32': 1.0e-3,
             'DN40': 1.4e-3, 'DN50': 2.2e-3, 'DN65': 3.7e-3, 'DN80': 5.1e-3}[self.dn]
        return round(A * 1000 * self.r.uniform(lo, hi), 5)


# --------------------------------------------------------------------- nets
def chain(r, tf=60.0, sign=1, nseg=None, pumpdm=None, **tfkw):
    n = Net(r, tf, **tfkw)
    i, o = n.bc('i'), n.bc('o')
    k = nseg or r.randint(2, 4)
    pos = r.randrange(k)
    seq = []
    for j in range(k):
        if j == pos:
            n.pump('pu', pumpdm if pumpdm is not None else sign * n.dnflow())
            seq.append(('pu',) + n.io(0.25))
        else:
            n.pipe('p%d' % j, dn=r.choice(DNS) if r.random() < 0.3 else None)
            seq.append(('p%d' % j,) + n.io())
    n.chain(i, *seq, o)
    n.s['fam'] = 'chain'
    return n


def branched(r, tf=60.0, **tfkw):
    n = Net(r, tf, **tfkw)
    i, o = n.bc('i'), n.bc('o')
    g = r.randint(6, 10)
    k = r.randint(1, 2)
    cells = sorted(r.sample(range(1, g - 1), k))
    n.part('PipeBranched', 'b', length=g * 0.3, grid_points=g,
           new_ports={'s%d' % j: [c, 'index'] for j, c in enumerate(cells)}, **n.gs(g))
    dm = n.dnflow(0.3, 1.0)
    n.pump('pu', dm)
    n.chain(i, ('b', 'in', 'out'), ('pu', 'in', 'out'), o)
    for j in range(k):
        x = n.bc('s%d' % j)
        # side stream drawn out of (pump 'in' at the branch) or fed into the pipe
        n.pump('ps%d' % j, round(dm * r.uniform(0.1, 0.4), 5))
        if r.random() < 0.5:
            n.C('b', 's%d' % j, 'ps%d' % j, 'in')
            n.C('ps%d' % j, 'out', *x)
        else:
            n.C(*x, 'ps%d' % j, 'in')
            n.C('ps%d' % j, 'out', 'b', 's%d' % j)
    n.s['fam'] = 'branched'
    return n


def tes(r, tf=200.0, nside=None, Tprof=None, **tfkw):
    n = Net(r, tf, **tfkw)
    i, o = n.bc('i'), n.bc('o')
    g = r.randint(6, 12)
    k = r.randint(0, 2) if nside is None else nside
    cells = sorted(r.sample(range(1, g - 1), 2 * k))
    r.shuffle(cells)
    if Tprof is None:
        Tprof = r.choice(['rand', 'strat', 'inv', 'uni'])
    if Tprof == 'rand':
        T = nd([n.T() for _ in range(g)])
    elif Tprof == 'strat':
        T = nd(sorted([n.T() for _ in range(g)], reverse=True))
    elif Tprof == 'inv':
        T = nd(sorted([n.T() for _ in range(g)]))
    else:
        T = n.T()
    ports = {}
    for j in range(k):
        ports['i%d' % j] = [cells[2 * j], 'index']
        ports['o%d' % j] = [cells[2 * j + 1], 'index']
    V = round(r.uniform(0.1, 1.0), 3)
    n.part('Tes', 'tes', volume=V, grid_points=g, outer_diameter=round(r.uniform(0.4, 0.9), 2),
           shell_thickness=round(r.uniform(2e-3, 8e-3), 4), new_ports=ports or None,
           **n.gs(g, T=T))
    sgn = r.choice([1, 1, -1])
    n.pump('pu', n.dnflow())
    if sgn > 0:
        n.chain(i, ('pu', 'in', 'out'), ('tes', 'in', 'out'), o)
    else:
        n.chain(i, ('pu', 'in', 'out'), ('tes', 'out', 'in'), o)
    for j in range(k):
        if r.random() < 0.5:  # closed secondary circuit
            n.pump('ps%d' % j, n.dnflow())
            n.C('tes', 'o%d' % j, 'ps%d' % j, 'in')
            if r.random() < 0.5:
                n.pipe('pp%d' % j)
                x = ('in', 'out') if r.random() < 0.5 else ('out', 'in')
                n.C('ps%d' % j, 'out', 'pp%d' % j, x[0])
                n.C('pp%d' % j, x[1], 'tes', 'i%d' % j)
            else:
                n.C('ps%d' % j, 'out', 'tes', 'i%d' % j)
        else:  # independent pumped feed and draw
            a, b = n.bc('a%d' % j), n.bc('b%d' % j)
            n.pump('ps%d' % j, n.dnflow())
            n.pump('pd%d' % j, n.dnflow())
            n.C(*a, 'ps%d' % j, 'in')
            n.C('ps%d' % j, 'out', 'tes', 'i%d' % j)
            n.C('tes', 'o%d' % j, 'pd%d' % j, 'in')
            n.C('pd%d' % j, 'out', *b)
    n.s['fam'] = 'tes'
    return n


def valve(r, tf=60.0, mode=None, opening=None, **tfkw):
    n = Net(r, tf, **tfkw)
    mode = mode or r.choice(['mix', 'split'])
    g = r.randint(5, 10)
    loc = r.randint(1, g - 2)
    if mode in ('mixa', 'splitb'):
        n.s['vrange'] = (0.1, 1.0) if mode == 'mixa' else (0.0, 0.9)
    op = round(r.uniform(*n.s.get('vrange', (0, 1))), 3) if opening is None else opening
    n.part('PipeWith3wValve', 'v', length=g * 0.25, grid_points=g, valve_location=loc,
           start_portA_opening=op, lower_limit=0.0, upper_limit=1.0,
           ctrl_required=False, const_val=op, **n.gs(g))
    a, b, c = n.bc('a'), n.bc('b'), n.bc('c')
    n.pipe('pa')
    n.pipe('pb')
    n.pump('pu', n.dnflow())
    if mode == 'mixa':  # pump in a branch: the other flows follow from the opening
        n.chain(a, ('pa',) + n.io(), ('pu', 'in', 'out'), ('v', 'A', 'AB'), c)
        n.chain(b, ('pb',) + n.io(), ('v', 'B'))
    elif mode == 'splitb':
        n.chain(c, ('v', 'AB', 'B'), ('pu', 'in', 'out'), ('pb',) + n.io(), b)
        n.chain(('v', 'A'), ('pa',) + n.io(), a)
    elif mode == 'mix':
        n.chain(a, ('pa',) + n.io(), ('v', 'A', 'AB'), ('pu', 'in', 'out'), c)
        n.chain(b, ('pb',) + n.io(), ('v', 'B'))
    else:
        n.chain(c, ('pu', 'in', 'out'), ('v', 'AB', 'A'), ('pa',) + n.io(), a)
        n.chain(('v', 'B'), ('pb',) + n.io(), b)
    n.s['fam'] = 'valve_' + mode
    return n


def conn3(r, tf=60.0, mode=None, **tfkw):
    n = Net(r, tf, **tfkw)
    mode = mode or r.choice(['split', 'merge'])
    n.part('Connector3w', 'c', material='carbon_steel', pipe_specs=pspec(n.dn))
    a, b, c = n.bc('a'), n.bc('b'), n.bc('c')
    n.pipe('p')
    n.pump('pu', n.dnflow(0.1, 0.5))
    n.pump('pv', n.dnflow(0.1, 0.5))
    ports = ['A', 'B', 'C']
    r.shuffle(ports)
    if mode == 'split':
        n.chain(a, ('p',) + n.io(), ('c', ports[0]))
        n.chain(('c', ports[1]), ('pu', 'in', 'out'), b)
        n.chain(('c', ports[2]), ('pv', 'in', 'out'), c)
    else:
        n.chain(('c', ports[0]), ('p',) + n.io(), a)
        n.chain(b, ('pu', 'in', 'out'), ('c', ports[1]))
        n.chain(c, ('pv', 'in', 'out'), ('c', ports[2]))
    n.s['fam'] = 'conn3_' + mode
    return n


def loop(r, tf=120.0, **tfkw):
    """closed circuit: storage -> pipe -> pump -> storage"""
    n = Net(r, tf, **tfkw)
    g = r.randint(5, 10)
    n.part('Tes', 'tes', volume=round(r.uniform(0.05, 0.4), 3), grid_points=g,
           outer_diameter=round(r.uniform(0.4, 0.9), 2), shell_thickness=5e-3,
           new_ports=None, **n.gs(g))
    n.pipe('p')
    n.pump('pu', n.dnflow())
    n.chain(('tes', 'out'), ('p',) + n.io(), ('pu',) + n.io(0.5), ('tes', 'in'))
    n.s['fam'] = 'loop'
    return n


def mixloop(r, tf=120.0, opening=None, **tfkw):
    """heating circuit: storage + mixing valve + return bypass"""
    n = Net(r, tf, **tfkw)
    g = r.randint(5, 10)
    n.part('Tes', 'tes', volume=round(r.uniform(0.1, 0.4), 3), grid_points=g,
           outer_diameter=round(r.uniform(0.4, 0.9), 2), shell_thickness=5e-3,
           new_ports=None, **n.gs(g))
    gv = r.randint(5, 8)
    op = round(r.uniform(0.1, 0.9), 3) if opening is None else opening
    n.part('PipeWith3wValve', 'v', length=gv * 0.25, grid_points=gv,
           valve_location=r.randint(1, gv - 2), start_portA_opening=op, lower_limit=0.0,
           upper_limit=1.0, ctrl_required=False, const_val=op, **n.gs(gv))
    n.pump('pu', n.dnflow())
    n.pipe('ret')
    n.pipe('byp')
    n.part('Connector3w', 'c', material='carbon_steel', pipe_specs=pspec(n.dn))
    n.chain(('tes', 'in'), ('v', 'A', 'AB'), ('pu', 'in', 'out'), ('ret',) + n.io(), ('c', 'A'))
    n.chain(('c', 'B'), ('byp',) + n.io(), ('v', 'B'))
    n.C('c', 'C', 'tes', 'out')
    n.s['fam'] = 'mixloop'
    return n


def heated(r, tf=100.0, ctrl=None, **tfkw):
    n = Net(r, tf, **tfkw)
    i, o = n.bc('i', round(r.uniform(10, 40), 1)), n.bc('o')
    g = r.randint(4, 9)
    n.s['fam'] = 'heated'
    up = float(r.choice([2e3, 5e3, 1e4]))
    kw = dict(heat_spread='all')
    if r.random() < 0.5:
        a = r.randint(0, g - 3)
        b = r.randint(a + 1, g - 1)
        kw = dict(heat_spread='range', heated_cells=tup(a, b))
    n.part('HeatedPipe', 'h', length=g * 0.4, grid_points=g, lower_limit=0.0, upper_limit=up,
           **kw, **n.gs(g, T=round(r.uniform(15, 40), 1)))
    n.pump('pu', n.dnflow(0.1, 0.6))
    n.chain(i, ('h', 'in', 'out'), ('pu', 'in', 'out'), o)
    sp = round(r.uniform(30, 60), 1)
    n.s['ctrls'].append(dict(t='BangBang', n='bb', kw=dict(
        actuator='h', process_CV_mode='direct', CV_saturation=tup(0.0, up),
        controlled_part='h', controlled_port=-1, reference_part='none', setpoint=sp,
        sub_controller=False, off_state=0.0, time_domain='discrete', deadtime=0.0,
        slope=tup(0, 0), invert=False, hysteresis=round(r.uniform(0.5, 4), 2))))
    return n


FAM = dict(chain=chain, branched=branched, tes=tes, valve=valve, conn3=conn3, loop=loop,
           mixloop=mixloop, heated=heated)


def _hexpart(n, kind, T):
    r = n.r
    kw = dict(HEx_type='plate_hex', passes=1, plates=r.choice([10, 20, 30]),
              max_channels=r.choice(['supply', 'demand']),
              insulation_thickness=r.choice([0.01, 0.1]), insulation_lambda=0.035,
              pipe_specs=pspec(n.dn), T_init=T, T_amb=n.Tamb)
    if kind == 'ntu':
        kw.update(hexdb='BX8T', Reynolds_correction=7750)
        n.part('HeatExchanger', 'h', **kw)
    else:
        kw.update(hexdb='B25T', Reynolds_correction=1000, flow_type='counter',
                  grid_points=r.choice([5, 8, 10]), solve_implicit=kind == 'impl',
                  implicit_root_diff={'__pf__': 'hexnum_imp_root_diff'})
        n.part('HexNum', 'h', **kw)


def hexnet(r, tf=30.0, kind='ntu', dms=None, dmd=None, Ts=None, Td=None, Ti=None, **tfkw):
    """heat exchanger between two pumped circuits"""
    n = Net(r, tf, **tfkw)
    n.dn = r.choice(['DN25', 'DN32', 'DN40'])
    ts_ = n.T() if Ts is None else Ts
    td = n.T() if Td is None else Td
    i, o = n.bc('i', ts_), n.bc('o', n.T())
    i2, o2 = n.bc('i2', td), n.bc('o2', n.T())
    lo, hi = min(ts_, td), max(ts_, td)
    _hexpart(n, kind, round(r.uniform(lo, hi), 2) if Ti is None else Ti)
    n.s['impl'] = kind == 'impl'
    n.pump('pp', n.dnflow(0.1, 0.4) if dms is None else dms)
    n.pump('pq', n.dnflow(0.1, 0.4) if dmd is None else dmd)
    n.pipe('a')
    n.pipe('b')
    n.chain(i, ('pp', 'in', 'out'), ('h', 'sup_in', 'sup_out'), ('a',) + n.io(), o)
    n.chain(i2, ('pq', 'in', 'out'), ('h', 'dmd_in', 'dmd_out'), ('b',) + n.io(), o2)
    n.s['fam'] = 'hex_' + kind
    return n


def hexi(r, tf=30.0, **k):
    return hexnet(r, tf, kind='impl', **k)


def hexe(r, tf=30.0, **k):
    return hexnet(r, tf, kind='expl', **k)


def hexu(r, tf=30.0, **k):
    return hexnet(r, tf, kind='ntu', **k)


HEX = dict(hexi=hexi, hexe=hexe, hexu=hexu)


# ------------------------------------------------------- composed random nets
class Comp:
    """Composes a larger, hydraulically determined network by appending
    segments to the open end of a path."""

    def __init__(self, r, tf, **tfkw):
        self.n = Net(r, tf, **tfkw)
        self.r = r
        self.k = 0
        self.ops = {}

    def name(self, p):
        self.k += 1
        return '%s%d' % (p, self.k)

    def pipe(self, end, dn=None):
        n = self.name('p')
        self.n.pipe(n, gp=self.r.randint(2, 6) + 1, dn=dn)
        a, b = self.n.io()
        self.n.C(*end, n, a)
        return (n, b)

    def pump(self, end, dm, forward=True):
        n = self.name('u')
        self.n.pump(n, dm)
        a, b = ('in', 'out') if forward else ('out', 'in')
        self.n.C(*end, n, a)
        return (n, b)

    def conn(self):
        n = self.name('c')
        self.n.part('Connector3w', n, material='carbon_steel', pipe_specs=pspec(self.n.dn))
        ps = ['A', 'B', 'C']
        self.r.shuffle(ps)
        return n, ps

    def valve(self):
        n = self.name('v')
        g = self.r.randint(5, 8)
        op = round(self.r.uniform(0.05, 0.95), 3)
        self.n.part('PipeWith3wValve', n, length=g * 0.25, grid_points=g,
                    valve_location=self.r.randint(1, g - 2), start_portA_opening=op,
                    lower_limit=0.0, upper_limit=1.0, ctrl_required=False, const_val=op,
                    **self.n.gs(g))
        return n

    def side(self, end, main):
        """pumped draw or feed at a junction (never more than the main flow)"""
        n, ps = self.conn()
        self.n.C(*end, n, ps[0])
        x = self.n.bc(self.name('x'))
        dm = round(main * self.r.uniform(0.05, 0.4), 5)
        u = self.name('u')
        self.n.pump(u, dm)
        draw = self.r.random() < 0.5
        if draw:
            self.n.C(n, ps[2], u, 'in')
            self.n.C(u, 'out', *x)
        else:
            self.n.C(*x, u, 'in')
            self.n.C(u, 'out', n, ps[2])
        return (n, ps[1]), main - dm if draw else main + dm

    def branched(self, end, main):
        n = self.name('b')
        g = self.r.randint(5, 9)
        k = self.r.randint(1, 2)
        cells = self.r.sample(range(1, g - 1), k)
        self.n.part('PipeBranched', n, length=g * 0.3, grid_points=g,
                    new_ports={'s%d' % j: [c, 'index'] for j, c in enumerate(cells)},
                    **self.n.gs(g))
        a, b = self.n.io()
        self.n.C(*end, n, a)
        for j in range(k):
            x = self.n.bc(self.name('x'))
            dm = round(main * self.r.uniform(0.05, 0.3), 5)
            u = self.name('u')
            self.n.pump(u, dm)
            if self.r.random() < 0.5:
                self.n.C(n, 's%d' % j, u, 'in')
                self.n.C(u, 'out', *x)
                main -= dm
            else:
                self.n.C(*x, u, 'in')
                self.n.C(u, 'out', n, 's%d' % j)
                main += dm
        return (n, b), main

    def bypass(self, end, main):
        """junction - pumped branch / free branch - junction"""
        a, pa = self.conn()
        b, pb = self.conn()
        self.n.C(*end, a, pa[0])
        e = (a, pa[1])
        if self.r.random() < 0.5:
            e = self.pipe(e)
        e = self.pump(e, round(main * self.r.uniform(0.2, 0.8), 5))
        self.n.C(*e, b, pb[1])
        e = self.pipe((a, pa[2]))
        self.n.C(*e, b, pb[2])
        return (b, pb[0]), main

    def vsplit(self, end, main):
        """splitting valve, both legs joined again"""
        v = self.valve()
        c, pc = self.conn()
        self.n.C(*end, v, 'AB')
        e = self.pipe((v, 'A'))
        self.n.C(*e, c, pc[1])
        e = self.pipe((v, 'B'))
        self.n.C(*e, c, pc[2])
        return (c, pc[0]), main

    def tes(self, end, main):
        n = self.name('t')
        g = self.r.randint(4, 8)
        ports = None
        if self.r.random() < 0.6:
            x, y = self.r.sample(range(1, g - 1), 2)
            ports = {'i': [x, 'index'], 'o': [y, 'index']}
        self.n.part('Tes', n, volume=round(self.r.uniform(0.05, 0.3), 3), grid_points=g,
                    outer_diameter=round(self.r.uniform(0.4, 0.7), 2), shell_thickness=5e-3,
                    new_ports=ports, **self.n.gs(g))
        a, b = self.n.io()
        self.n.C(*end, n, a)
        if ports:
            e = self.pump((n, 'o'), self.n.dnflow(0.1, 0.5))
            if self.r.random() < 0.5:
                e = self.pipe(e)
            self.n.C(*e, n, 'i')
        return (n, b), main


def rnet(r, tf=30.0, nseg=None, kinds=None, sep=False, **tfkw):
    c = Comp(r, tf, **tfkw)
    main = c.n.dnflow(0.3, 0.8)
    end = c.n.bc('i')
    closed = None
    k = nseg or r.randint(2, 5)
    kinds = kinds or ['pipe', 'side', 'branched', 'bypass', 'vsplit', 'tes']
    seq = [r.choice(kinds) for _ in range(k)]
    pos = r.randrange(k + 1)
    if 'vsplit' in seq:
        # a splitting valve is only solved downstream of its pump
        pos = r.randrange(seq.index('vsplit') + 1)
    # the main pump fixes the flow at its place; everything else follows
    flow = main
    def isep(end):
        if sep and (end[0] == B or end[0].startswith('c')):
            return c.pipe(end)
        return end
    for j in range(k + 1):
        if j == pos:
            end = c.pump(end, round(flow, 5))
            flow = round(flow, 5)
        if j < k:
            kind = seq[j]
            if kind == 'pipe':
                end = c.pipe(end)
            else:
                if kind in ('side', 'bypass'):
                    end = isep(end)
                end, flow = getattr(c, kind)(end, flow)
    end = isep(end)
    c.n.C(*end, *c.n.bc('o'))
    c.n.s['fam'] = 'rnet'
    c.n.s['seq'] = seq
    return c.n


FAM['rnet'] = rnet


ALL = dict(FAM, **HEX)


def thin(r, tf=100.0, **tfkw):
    """storage of many thin layers, hot above cold: streams enter above, leave below"""
    n = Net(r, tf, **tfkw)
    g = r.randint(30, 70)
    k, m = r.randint(1, 3), r.randint(1, 3)
    up = [0] + sorted(r.sample(range(1, 6), k - 1))
    low = sorted(r.sample(range(g - 6, g - 1), m - 1)) + [g - 1]
    lo = n.T()
    hi = round(r.uniform(lo, 95), 2)
    n.Tamb = round(r.uniform(lo, hi), 1)
    ports = {}
    for j in range(1, k):
        ports['a%d' % j] = [up[j], 'index']
    for j in range(m - 1):
        ports['b%d' % j] = [low[j], 'index']
    h = up[-1] + 1
    gs = n.gs(g, T=nd([hi] * h + [lo] * (g - h)))
    gs['insulation_thickness'] = 0.1
    n.part('Tes', 'tes', volume=round(r.uniform(0.2, 0.6), 3), grid_points=g,
           outer_diameter=round(r.uniform(0.5, 0.8), 2), shell_thickness=5e-3, new_ports=ports or None, **gs)
    flows = [round(r.uniform(0.5, 1.5), 4) for _ in range(k)]
    fat = dict(dn='DN150', T=hi)
    for j in range(k):
        n.pump('pi%d' % j, flows[j], **fat)
        n.s['parts'][-1]['kw']['length'] = 10.0
        n.chain(n.bc('i%d' % j, hi), ('pi%d' % j, 'in', 'out'), ('tes', 'in' if j == 0 else 'a%d' % j))
    rest = sum(flows)
    for j in range(m - 1):
        q = round(rest * r.uniform(0.3, 0.6), 4)
        rest -= q
        n.pump('po%d' % j, q, dn='DN150', T=lo)
        n.s['parts'][-1]['kw']['length'] = 10.0
        n.chain(('tes', 'b%d' % j), ('po%d' % j, 'in', 'out'), n.bc('o%d' % j, lo))
    n.chain(('tes', 'out'), n.bc('o', lo))
    return n


def hexc(r, tf=10.0, **tfkw):
    """condensing flue gas heat exchanger between a water and a gas pump"""
    n = Net(r, tf, **tfkw)
    n.dn = 'DN50'
    mx = r.uniform(0.1, 0.5)
    gm = mx / 1.4285714285714285e-3
    n.part('HEXCondPoly', 'h', regression_pipeline={'__hexmdl__': dict(seed=r.randint(0, 10 ** 6), degree=r.choice([1, 2, 3]))},
           max_gas_Nm3h=gm, fluegas_flow_range=tup(0.0, 1.05), water_flow_range=tup(0.0, 1.05), material='carbon_steel',
           pipe_specs=pspec('DN40'), T_init=round(r.uniform(25, 60), 1), T_amb=n.Tamb)
    for q, m, T in (('w', mx, r.uniform(20, 70)), ('g', gm / 3600, r.uniform(75, 98))):
        n.pump('p' + q, round(m * r.choice([0.05, 0.3, 0.7, 1.0, 1.0 + 0.5 * (q == 'w')]), 6))
        n.s['parts'][-1]['kw'].update(length=1.0, T_init=round(T - r.uniform(0, 30), 1) if q == 'g' else round(r.uniform(20, 70), 1), grid_points=3)
        io = dict(w=('water_in', 'water_out'), g=('fluegas_in', 'fluegas_out'))[q]
        n.chain(n.bc('i' + q, round(T, 2)), ('p' + q, 'in', 'out'), ('h',) + io, n.bc('o' + q, 40.0))
    return n


EXTRA = dict(thin=thin, hexc=hexc)
