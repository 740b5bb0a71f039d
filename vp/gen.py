"""Workload generators and the reference model the monitors compare executions of gerabaldi with.

Everything goes through gerabaldi's public interface. The reference model knows, for every generated mechanism, an
analytic expression of the degradation and of its inverse in time, so it never needs the simulator's numerical search.
"""
import itertools
from datetime import timedelta

import numpy as np
import pandas as pd

import gerabaldi
from gerabaldi.models import (
    LatentVar, InitValMdl, CondShiftMdl, DegMechMdl, FailMechMdl, DegPrmMdl, CircPrmMdl, DeviceMdl,
    MeasSpec, StrsSpec, TestSpec, PhysTestEnv, MeasInstrument, EnvVrtnMdl,
    Normal, Uniform, Gamma, Deterministic, RandomVar, SimReport, SimState,
)
from vp.core import Violation

UNITS = {'d': 24.0, 'days': 24.0, 'h': 1.0, 'hours': 1.0, 's': 1 / 3600, 'seconds': 1 / 3600, 'ms': 1 / 3.6e6,
         'milliseconds': 1 / 3.6e6, 'us': 1 / 3.6e9, 'microseconds': 1 / 3.6e9, None: 1.0}
# The equivalent time search is documented to be precise to 1e-5 in log10(time), so to 2.3e-5 relative. Margin of ~4.
REL_T = 1e-4
# ... and never returns less than 1e-3 of the mechanism's time unit, for a fresh device as well
FLOOR_T = 1.02e-3
# Beyond this many hours the simulator documents conditions to be treated as non-degrading
MAX_H = 1e9


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def loguni(rng, lo, hi):
    return float(10 ** rng.uniform(np.log10(lo), np.log10(hi)))


def seed(rng):
    return int(rng.integers(1, 1 << 31))


def mk_latent(rng, centre, spread=0.05):
    """A latent variable around a positive centre with a random selection of variation layers."""
    def nrm(c, s):
        return Normal(c, s, test_seed=seed(rng))

    def uni(c, s):
        return Uniform(c - s, c + s, test_seed=seed(rng))

    kind = int(rng.integers(7))
    d = pick(rng, [nrm, uni])
    if kind == 0:
        return LatentVar(deter_val=int(centre) if centre == int(centre) else centre)
    if kind == 6:
        return LatentVar(deter_val=centre, chp_vrtn_mdl=d(1, spread * 0.5))
    if kind == 1:
        return LatentVar(d(centre, centre * spread * 0.5))
    if kind == 2:
        return LatentVar(d(1, spread * 0.5), deter_val=centre)
    if kind == 3:
        return LatentVar(d(centre, centre * spread * 0.5), chp_vrtn_mdl=d(1, spread * 0.5), lot_vrtn_mdl=d(1, spread * 0.5))
    if kind == 4:
        return LatentVar(d(0, centre * spread * 0.3), chp_vrtn_mdl=d(0, centre * spread * 0.3), deter_val=centre, vrtn_type='offset')
    return LatentVar(d(centre, centre * spread * 0.3), lot_vrtn_mdl=d(0, centre * spread * 0.3), vrtn_type='offset')


class Mech:
    """f(time) = base + sign * rate(conditions, latents) * h(time): monotone in time, analytically invertible."""

    CONDS = {'power_temp': ('temp',), 'power_vdd': ('vdd',), 'linear': ('rate',), 'log': ('temp',), 'thresh': ('vdd',),
             'plain': (), 'mixed': ('temp', 'vdd')}

    def __init__(self, rng, fam=None, unit=None, eff_unit=None, base=0.0, sign=1.0, scale=1e-3):
        self.fam = fam or pick(rng, list(self.CONDS))
        self.unit = unit                 # as given to the mechanism model
        self.eff_unit = unit if unit else eff_unit   # as inherited
        self.base, self.sign = float(base), float(sign)
        # Numbers are often given as integers
        self.unitary = int(base) if base == int(base) and rng.random() < 0.5 else self.base
        n = 1.0 if self.fam == 'linear' else float(rng.uniform(0.15, 1.0))
        self.lat = {'a': mk_latent(rng, loguni(rng, scale * 0.3, scale * 3))}
        if self.fam == 'log':
            self.lat['tau'] = mk_latent(rng, loguni(rng, 0.1, 100))
        elif self.fam != 'linear':
            self.lat['n'] = mk_latent(rng, n, 0.02)
        if self.fam == 'thresh':
            self.lat['thr'] = mk_latent(rng, 1.0, 0.3)

    def rate(self, c, l):
        f = self.fam
        if f == 'power_temp':
            return l['a'] * np.exp((c['temp'] - 350) / 60)
        if f == 'power_vdd':
            return l['a'] * c['vdd'] ** 2
        if f == 'linear':
            return l['a'] * c['rate']
        if f == 'log':
            return l['a'] * (c['temp'] / 300)
        if f == 'thresh':
            return l['a'] * np.maximum(c['vdd'] - l['thr'], 0)
        if f == 'mixed':
            return l['a'] * c['vdd'] * np.exp((c['temp'] - 350) / 80)
        return l['a'] * 1.0

    def h(self, t, l):
        if self.fam == 'log':
            return np.log1p(t / l['tau'])
        return t if self.fam == 'linear' else t ** l['n']

    def hinv(self, q, l):
        if self.fam == 'log':
            return l['tau'] * np.expm1(q)
        return q if self.fam == 'linear' else q ** (1 / l['n'])

    def eqn(self):
        base, sign, uh, me = self.base, self.sign, UNITS[self.eff_unit], self

        def go(time, c, l):
            return base + sign * me.rate(c, l) * me.h(time * uh, l)

        f = self.fam
        if f == 'power_temp':
            return lambda time, temp, a, n: go(time, {'temp': temp}, {'a': a, 'n': n})
        if f == 'power_vdd':
            return lambda a, n, vdd, time: go(time, {'vdd': vdd}, {'a': a, 'n': n})
        if f == 'linear':
            return lambda rate, time, a: go(time, {'rate': rate}, {'a': a})
        if f == 'log':
            return lambda time, a, tau, temp: go(time, {'temp': temp}, {'a': a, 'tau': tau})
        if f == 'thresh':
            return lambda time, vdd, thr, a, n: go(time, {'vdd': vdd}, {'a': a, 'n': n, 'thr': thr})
        if f == 'mixed':
            return lambda temp, vdd, a, n, time: go(time, {'temp': temp, 'vdd': vdd}, {'a': a, 'n': n})
        return lambda time, a, n: go(time, {}, {'a': a, 'n': n})

    def model(self):
        return DegMechMdl(self.eqn(), unitary_val=self.unitary, time_unit=self.unit, **self.lat)

    # ---- reference: intervals of the degradation magnitude |f - base| ------------------------------------------
    def advance(self, ylo, yhi, c, l, dur_h, ctx=None):
        R = np.broadcast_to(self.rate(c, l), ylo.shape)
        fl = FLOOR_T * UNITS[self.eff_unit]
        with np.errstate(all='ignore'):
            qlo, qhi = np.where(R > 0, ylo / R, 0), np.where(R > 0, yhi / R, 0)
            tlo = self.hinv(qlo, l) * (1 - REL_T)
            thi = np.maximum(self.hinv(qhi, l), fl) * (1 + REL_T)
            nlo, nhi = R * self.h(tlo + dur_h, l) * (1 - 1e-9), R * self.h(thi + dur_h, l) * (1 + 1e-9)
        # No degradation without a rate: the previous degradation is preserved
        dead = ~(R > 0)
        # Neither claimed nor refuted where the equivalent time approaches the documented representable maximum
        far = (~dead) & ~(thi + dur_h < MAX_H)
        if ctx is not None:
            ctx.count('device_steps', int(R.size))
            ctx.count('device_steps_without_rate', int(dead.sum()))
            ctx.count('device_steps_ambiguous', int(far.sum()))
        nlo = np.where(dead, ylo, np.where(far, 0, nlo))
        nhi = np.where(dead, yhi, np.where(far, np.inf, nhi))
        return nlo, nhi

    def vals(self, ylo, yhi):
        a, b = self.base + self.sign * ylo, self.base + self.sign * yhi
        return (a, b) if self.sign > 0 else (b, a)


class Prm:
    """A degrading parameter: initial value, mechanisms, conditional shift and how they are combined."""

    def __init__(self, rng, fams=None, n_mechs=None, combine=None, unit=None, dev_unit=None, shift=None, mech_units=False, names=None):
        self.unit, self.dev_unit = unit, dev_unit
        n_mechs = n_mechs or (int(rng.integers(3, 6)) if names is None and rng.random() < 0.06 else int(rng.integers(1, 3)))
        self.combine = combine or pick(rng, ['sum', 'sum', 'prod', 'weighted'] + ['mixed'] * (n_mechs > 1))
        eff = unit if unit else (dev_unit if dev_unit else 'h')
        self.mechs = {}
        names = names or ['m1', 'bti', 'hci', 'em', 'tddb']
        scaling = int(rng.integers(n_mechs)) if self.combine == 'mixed' else None
        for i in range(n_mechs):
            base = 1.0 if self.combine == 'prod' or i == scaling else 0.0
            sgn = pick(rng, [1.0, 1.0, -1.0]) if not base else 1.0
            mu = pick(rng, [None, 'h', 'd', 's', 'ms', 'us']) if mech_units else None
            self.mechs[names[i]] = Mech(rng, pick(rng, fams) if fams else None, mu, eff, base, sgn)
        self.init_lat = mk_latent(rng, float(rng.uniform(0.5, 5)), 0.2)
        self.has_shift = bool(rng.integers(2)) if shift is None else shift
        self.tc = mk_latent(rng, loguni(rng, 1e-4, 1e-3))
        self.k = mk_latent(rng, float(rng.uniform(0.5, 2))) if self.combine == 'weighted' else None

    def cond_unit(self):
        return 1.0 if self.combine == 'prod' else 0.0

    def shift_val(self, c, l):
        if not self.has_shift:
            return self.cond_unit()
        return self.cond_unit() + l['tc'] * (c['temp'] - 300)

    def comb(self, init, cond, mechs, k):
        if self.combine == 'sum':
            return init + cond + sum(mechs)
        if self.combine == 'prod':
            for m in mechs:
                init = init * m
            return init * cond
        if self.combine == 'mixed':
            for m, sp in zip(mechs, self.mechs.values()):
                init = init * m if sp.base else init
            return init + cond + sum(m for m, sp in zip(mechs, self.mechs.values()) if not sp.base)
        return init + cond + k * sum(mechs)

    def model(self, **kw):
        mechs = {m: s.model() for m, s in self.mechs.items()}
        names = list(self.mechs)
        eqn = None
        lat = {}
        if self.combine == 'prod':
            eqn = eval(f'lambda init, {"".join(n + ", " for n in names[1:])}cond, {names[0]}: comb(init, cond, [{", ".join(names)}], None)', {'comb': self.comb})
        elif self.combine == 'mixed':
            eqn = eval(f'lambda {names[1]}, cond, init, {"".join(n + ", " for n in names[2:])}{names[0]}: comb(init, cond, [{", ".join(names)}], None)', {'comb': self.comb})
        elif self.combine == 'weighted':
            eqn = eval(f'lambda k, init, cond, {", ".join(names)}: comb(init, cond, [{", ".join(names)}], k)', {'comb': self.comb})
            lat['k'] = self.k
        shift = None
        if self.has_shift:
            u = self.cond_unit()
            shift = CondShiftMdl(lambda temp, tc: u + tc * (temp - 300), unitary_val=u, tc=self.tc)
        elif self.cond_unit():
            shift = CondShiftMdl(unitary_val=1.0)
        return DegPrmMdl(mechs, InitValMdl(init_val=self.init_lat), shift, eqn, time_unit=self.unit, **lat, **kw)


def mk_conds(rng, extra=True):
    c = {'temp': float(rng.uniform(290, 420)), 'vdd': float(rng.uniform(0.5, 1.6)), 'rate': float(rng.uniform(0.2, 3))}
    if extra:
        # Conditions nothing depends on; names that resemble those of other conditions
        for k in ('humidity', 'temp_amb', 'vdd2', 't', 'rat'):
            if rng.random() < 0.2:
                c[k] = pick(rng, [float(rng.uniform(0, 100)), 0, 0.0, -3.5, int(rng.integers(1, 99))])
    for k in ('temp', 'rate', 'vdd'):
        if rng.random() < 0.25:
            c[k] = max(1, round(c[k]))
    keys = list(c)
    rng.shuffle(keys)
    return {k: c[k] for k in keys}


def mk_dur(rng, lo=0.01, hi=2000):
    """A duration as a timedelta with microsecond resolution."""
    return timedelta(microseconds=max(1, int(loguni(rng, lo, hi) * 3.6e9)))


def hours(td):
    return td.total_seconds() / 3600


class RefPrm:
    """Reference state of one parameter: interval of every mechanism's degradation for every device."""

    def __init__(self, spec, state, name):
        self.spec = spec
        self.init = np.array(state.init_prm_vals[name], dtype=float)
        self.lat = state.latent_var_vals[name]
        self.y = {m: (np.zeros(self.init.shape), np.zeros(self.init.shape)) for m in spec.mechs}
        self.stressed = False

    def stress(self, conds, dur_h, ctx=None):
        self.stressed = True
        for m, s in self.spec.mechs.items():
            self.y[m] = s.advance(*self.y[m], conds, self.lat[m], dur_h, ctx)

    def measure(self, conds, n):
        """Interval of the measured values of the first n devices."""
        sp, sl = self.spec, (slice(None), slice(None), slice(0, n))
        k = self.lat['k'][sl] if sp.combine == 'weighted' else None
        cond = sp.shift_val(conds, {v: a[sl] for v, a in self.lat['cond'].items()})
        outs = []
        units = [s.base for s in sp.mechs.values()]
        for corner in itertools.product((0, 1), repeat=len(sp.mechs)):
            mv = [s.vals(*self.y[m])[i][sl] for i, (m, s) in zip(corner, sp.mechs.items())]
            p = sp.comb(self.init[sl], sp.cond_unit(), mv, k) if self.stressed else self.init[sl]
            outs.append(np.broadcast_to(sp.comb(p, cond, units, k), self.init[sl].shape))
        lo, hi = np.min(outs, axis=0), np.max(outs, axis=0)
        # Ambiguous mechanisms may have no upper bound, their sums and differences then have no bounds at all
        unknown = np.any(np.isnan(outs), axis=0)
        lo, hi = np.where(unknown, -np.inf, lo), np.where(unknown, np.inf, hi)
        pad = 1e-9 * np.maximum(np.where(np.isfinite(lo), np.abs(lo), 0), np.where(np.isfinite(hi), np.abs(hi), 0)) + 1e-300
        return lo - pad, hi + pad


# ------------------------------------------------------------------------------------------------ reading reports
MEAS_COLS = ['param', 'step #', 'device #', 'chip #', 'lot #', 'time', 'measured']
SUM_COLS = ['step name', 'step type', 'step number', 'duration', 'start time', 'end time']


def table(df, cols):
    if not isinstance(df, pd.DataFrame):
        raise Violation('report table is not a DataFrame', got=type(df))
    miss = [c for c in cols if c not in df.columns]
    if miss:
        raise Violation('report table misses columns', missing=miss, columns=list(df.columns))
    return df


def rows(report, prm, step):
    df = table(report.measurements, MEAS_COLS)
    return df[(df['param'] == prm) & (df['step #'] == step)]


def meas_array(ctx, report, prm, step, dims):
    """The measured values by (lot, chip, device); every one of them has to be reported exactly once."""
    df = rows(report, prm, step)
    ctx.count('rows_read', len(df))
    out = np.full(dims, np.nan)
    seen = np.zeros(dims, dtype=int)
    try:
        idx = [tuple(int(x) for x in t) for t in zip(df['lot #'], df['chip #'], df['device #'])]
    except (TypeError, ValueError):
        raise Violation('measurement rows without lot, chip and device labels', param=prm, step=step)
    for (i, j, k), v in zip(idx, df['measured']):
        if not (0 <= i < dims[0] and 0 <= j < dims[1] and 0 <= k < dims[2]):
            raise Violation('measurement of a device that does not exist', label=(i, j, k), dims=dims, param=prm, step=step)
        out[i, j, k] = v
        seen[i, j, k] += 1
    if not (seen == 1).all():
        bad = tuple(int(x[0]) for x in np.nonzero(seen != 1))
        raise Violation('device not reported exactly once', label=bad, times=int(seen[bad]), param=prm, step=step, dims=dims)
    return out


def mk_dims(rng, hi=(3, 3, 4)):
    """Lots, chips: preferably of distinct sizes so mixed up axes show."""
    if rng.random() < 0.01:
        d = [int(rng.integers(20, 60)), int(rng.integers(1, 3))]
        rng.shuffle(d)
        return int(d[0]), int(d[1])
    return int(rng.integers(1, hi[0] + 1)), int(rng.integers(1, hi[1] + 1))


def large_dims(rng, lo=257, hi=700):
    """A population with one large axis (numbers beyond a byte)."""
    d = [int(rng.integers(lo, hi)), int(rng.integers(1, 3)), int(rng.integers(1, 3))]
    k = int(rng.integers(3))
    return tuple(d[k:] + d[:k])


def steps_repr(steps):
    return [('S', s.name, str(s.duration), s.conditions) if isinstance(s, StrsSpec) else ('M', s.name, s.measurements, s.conditions) for s in steps]
