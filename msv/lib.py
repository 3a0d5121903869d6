"""Helpers shared by the checks."""
import os
import random
import tempfile

import numpy as np

from . import nets

START = '2019-09-01 00:00:00'


def rng(*a):
    return random.Random('|'.join(str(x) for x in a))


def fam_spec(case):
    """spec of a family case {'fam','seed','tf','tfkw', ...extra net args}"""
    f = nets.ALL.get(case['fam']) or nets.EXTRA.get(case['fam'])
    if f is None:  # plants made of the building blocks of multisim
        from . import plants
        f = plants.ALL[case['fam']]
    n = f(rng(case['fam'], case['seed']), tf=float(case.get('tf', 60.0)),
                              **case.get('net', {}))
    n.s['tfkw'] = dict(case.get('tfkw', {}))
    if case.get('dims'):
        nets.dims(n.s, rng('dims', case['seed']), alias=case['dims'] == 2)
    return n.s


def disk(scratch=None, **kw):
    d = tempfile.mkdtemp(prefix='dsk_', dir=scratch or os.environ.get('MSV_SCRATCH'))
    o = dict(save=True, save_every_n_steps=10000, sim_name='s', path=d + os.sep, start_date=START,
             resample_final=False, resample_freq='1s', create_new_folder=False, overwrite=True,
             complevel=0, complib='zlib')
    o.update(kw)
    return o, d


class V(list):
    """violation collector"""

    def add(self, key, msg, **kw):
        if len(self) < 20:
            self.append(dict(key=key, msg=msg, **kw))

    def chk(self, ok, key, msg):
        if not ok:
            self.add(key, msg() if callable(msg) else msg)
        return ok


def sig(x, n=3):
    """coarse signature of a float for distinct-state counting"""
    return '%.*g' % (n, float(x))


def maxabs(a):
    a = np.asarray(a, dtype=float)
    return float(np.abs(a).max()) if a.size else 0.0


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def diff_traces(a, b, tol=0.0, skip=()):
    """first difference between two traces (or None)"""
    for p in a:
        if p in skip:
            continue
        if p not in b:
            return '%s missing' % p
        x, y = a[p], b[p]
        if not isinstance(x, dict):
            x, y = {'': x}, {'': y}
        for k in x:
            if k not in y:
                return '%s.%s missing' % (p, k)
            if x[k].shape != y[k].shape:
                return '%s.%s shape %s vs %s' % (p, k, x[k].shape, y[k].shape)
            if tol == 0.0:
                if not np.array_equal(x[k], y[k], equal_nan=True):
                    d = np.abs(x[k] - y[k])
                    i = np.unravel_index(np.nanargmax(d), d.shape)
                    return '%s.%s differs at %s: %r vs %r' % (p, k, i, x[k][i], y[k][i])
            elif x[k].size and not np.all(np.abs(x[k] - y[k]) <= tol * (1 + np.abs(x[k]))):
                d = np.abs(x[k] - y[k])
                i = np.unravel_index(np.nanargmax(d), d.shape)
                return '%s.%s differs at %s: %r vs %r' % (p, k, i, x[k][i], y[k][i])
    return None
