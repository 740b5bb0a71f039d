"""C09: an instrument adds its error, then rounds to its significant figures, then saturates at its range."""
import math
import numbers
import numpy as np
import pandas as pd
from datetime import timedelta
from vp.gen import *
from vp.coded import Coded, distinct

RULE = ('Hostile values (ties, powers of ten, signs, zeros, infinities, NaN, magnitudes from 1e-280 to 1e280) in every documented container '
        'through instruments with all combinations of error, precision and range; a decimal oracle decides each reading. Whole simulations '
        'with instruments per parameter are compared with the ideal readings of the same devices. Distinct by instrument and values.')
ASSUMPTIONS = ['Readings exactly between two representable neighbours may round either way.', 'Whole numbers (int) are measured with limits in steps of 0.001 (pandas clips them no finer than 1e-8).']


def rounded_ok(x, r, p):
    """r is x rounded to p significant figures, whichever neighbour for ties."""
    if x == 0 or not np.isfinite(x):
        return r == x or (np.isnan(x) and np.isnan(r))
    if not np.isfinite(r):
        return False
    e = math.floor(math.log10(abs(x)))
    for ee in (e, e + 1, e - 1):     # log10 may be off by one right at powers of ten
        if ee != e and abs(math.log10(abs(x)) - round(math.log10(abs(x)))) > 1e-12:
            continue
        # In units of the last figure; scaled in two moves so extreme magnitudes do not overflow
        def scale(v):
            d = p - 1 - ee
            h = d // 2
            return v * 10.0 ** h * 10.0 ** (d - h)
        u, w = scale(r), scale(x)
        eps = 1e-9 + 4e-15 * abs(w)
        if abs(u - round(u)) <= eps and abs(u - w) <= 0.5 + eps:
            return True
    return False


def mk_vals(rng, n):
    vals = []
    for _ in range(n):
        k = int(rng.integers(9))
        if k == 0:
            v = 0.0
        elif k == 1:
            v = pick(rng, [1, -1]) * 10.0 ** int(rng.integers(-12, 13))
        elif k == 2:
            v = float(rng.integers(-10**6, 10**6)) / 8          # many exact ties
        elif k == 3:
            v = pick(rng, [1, -1]) * loguni(rng, 1e-280, 1e280)
        elif k == 4:
            v = pick(rng, [1, -1]) * (10.0 ** int(rng.integers(-5, 6)) * (1 - loguni(rng, 1e-12, 1e-2)))   # 999.9...
        elif k == 5:
            v = float(rng.integers(-1000, 1000))
        else:
            v = pick(rng, [1, -1]) * loguni(rng, 1e-9, 1e9)
        vals.append(float(v))
    return vals


def container(rng, vals):
    k = pick(rng, ['series', 'series', 'array', 'float', 'int', 'list', 'whole'])
    if k == 'whole':        # whole numbers are measured like any others
        xs = [int(rng.integers(-10 ** int(rng.integers(1, 10)), 10 ** int(rng.integers(1, 10)))) for _ in vals]
        return ('array', np.array(xs)) if rng.random() < 0.6 else ('series', pd.Series(xs))
    if k == 'series':
        idx = pick(rng, ['range', 'shift', 'str', 'rev'])
        n = len(vals)
        index = {'range': range(n), 'shift': range(7, 7 + n), 'str': [f'r{i}' for i in range(n)], 'rev': range(n)[::-1]}[idx]
        return k, pd.Series(vals, index=index, dtype=float)
    if k == 'array':
        return k, np.array(vals, dtype=float)
    if k == 'list':
        return k, list(vals)
    if k == 'float':
        return k, vals[0]
    return k, int(rng.integers(-10**9, 10**9))


def readings(ctx, kind, src, out):
    if kind == 'series':
        ctx.check(isinstance(out, pd.Series), 'a Series is not measured as a Series', got=type(out))
        ctx.equal(list(out.index), list(src.index), 'the measured Series has a different index')
        return [float(x) for x in out.values]
    if kind == 'array':
        ctx.check(isinstance(out, np.ndarray), 'an array is not measured as an array', got=type(out))
        ctx.equal(out.shape, src.shape, 'measured array has a different shape')
        return [float(x) for x in out]
    if kind == 'list':
        ctx.check(np.ndim(out) == 1, 'a list is not measured as a sequence', got=type(out))
        return [float(x) for x in out]
    ctx.check(isinstance(out, numbers.Number) and np.ndim(out) == 0, 'a single value is not measured as a single value', got=type(out))
    return [float(out)]


def measure(ctx, rng):
    vals = mk_vals(rng, int(rng.integers(1, 40)) if rng.random() > 0.005 else int(rng.integers(1000, 6000)))
    kind, src = container(rng, vals)
    has = [rng.random() < 0.5 for _ in range(3)]
    p = int(rng.integers(1, 13)) if has[1] else None
    whole = kind in ('series', 'array') and src.dtype.kind == 'i'
    if rng.random() < 0.3 and kind in ('series', 'array') and not whole:
        src[src.index[0] if kind == 'series' else 0] = pick(rng, [np.inf, -np.inf, np.nan])
    lims = None
    if has[2]:
        a = pick(rng, [1, -1, 0]) * loguni(rng, 1e-9, 1e9)
        lims = (a, a + loguni(rng, 1e-9, 1e9))
        if rng.random() < 0.2:
            lims = (-1e300, 1e300)
        elif rng.random() < 0.2:
            lims = (0, 12)
        elif rng.random() < 0.25:      # limited on one side only
            lims = pick(rng, [(lims[0], np.inf), (-np.inf, lims[0])])
    if lims and (kind == 'int' or whole) and np.isfinite(lims).all():      # pandas itself clips whole numbers no finer than 1e-8
        lims = (round(lims[0], 3), round(lims[0], 3) + max(round(lims[1] - lims[0], 3), 0.001))
    elif lims and (kind == 'int' or whole):
        lims = tuple(round(x, 3) if np.isfinite(x) else x for x in lims)
    err = None
    if has[0]:
        err = Coded('int', start=int(rng.integers(-50, 50)), step=pick(rng, [1, 3, 0.125]))
    before = repr(src if kind != 'series' else (list(src.index), list(src.values)))
    xs = [float(x) for x in (src.values if kind == 'series' else src if kind in ('array', 'list') else [src])]
    ctx.describe(precision=p, range=lims, error=err and (err.start, err.step), container=kind, values=xs[:40])
    ctx.sig(p, lims, kind, xs[:5], err and (err.start, err.step))
    inst = MeasInstrument('x', p, err, lims)
    out = readings(ctx, kind, src, inst.measure(src))
    ctx.equal(repr(src if kind != 'series' else (list(src.index), list(src.values))), before, 'measuring changed the measured values')
    ctx.equal(len(out), len(xs), 'different number of readings')
    if err:
        ctx.equal(err.n, len(xs), 'the error was not drawn once per reading')
    for i, (x, r) in enumerate(zip(xs, out)):
        ctx.count('readings')
        y = x + (err.start + err.step * i) if err else x
        d = dict(value=x, with_error=y, reading=r, precision=p, range=lims)
        lo, hi = lims if lims else (-np.inf, np.inf)
        if np.isnan(y):
            ctx.check(np.isnan(r), 'NaN is not reported as NaN', **d)
            continue
        ctx.check(lo <= r <= hi, 'reading outside the range of the instrument', **d)
        if p is None or not np.isfinite(y):
            ctx.count('readings_unrounded')
            want = min(max(y, lo), hi)
            ctx.check(r == want or abs(r - want) <= 4e-16 * abs(want), 'reading differs from the value plus the error, limited to the range', **d)
            continue
        if r in (lo, hi) and lims:
            # Saturated: the rounded value (never further than one unit of the last figure) has to reach the limit
            ctx.count('readings_saturated')
            e = math.floor(math.log10(abs(y))) if y else -300
            slack = 0.51 * 10.0 ** (e - p + 1) if y else 0.0
            ctx.check((y + slack >= hi if r == hi else False) or (y - slack <= lo if r == lo else False), 'reading saturated though the value is inside the range', **d)
            continue
        ctx.count('readings_rounded')
        ctx.check(rounded_ok(y, r, p), f'reading is not the value rounded to {p} significant figures', **d)
    if err and rng.random() < 0.5:
        # Measured again: the error of each reading is its own
        out = readings(ctx, kind, src, MeasInstrument('y', None, err).measure(src))
        inst.measure(src)
        last = readings(ctx, kind, src, MeasInstrument('y', None, err).measure(src))
        for k, o in ((1, out), (3, last)):
            for i, (x, r) in enumerate(zip(xs, o)):
                y = x + (err.start + err.step * (i + k * len(xs)))
                ctx.check((np.isnan(y) and np.isnan(r)) or y == r or abs(r - y) <= 4e-16 * abs(y), 'measuring again does not draw new errors', value=x, reading=r, expected=y)
        inst2 = MeasInstrument('z', None, err)
        for k in range(int(rng.integers(1, 4))):
            o = readings(ctx, kind, src, inst2.measure(src))
            for i, (x, r) in enumerate(zip(xs, o)):
                y = x + (err.start + err.step * (i + (4 + k) * len(xs)))
                ctx.check((np.isnan(y) and np.isnan(r)) or y == r or abs(r - y) <= 4e-16 * abs(y), 'measuring again does not draw new errors', value=x, reading=r, expected=y)
        ctx.count('measured_again')
    # The instrument itself is unchanged: ideal repeats give the same reading
    if not err:
        again = readings(ctx, kind, src, inst.measure(src))
        ctx.check(all(a == b or (np.isnan(a) and np.isnan(b)) for a, b in zip(out, again)), 'measuring the same values again reads differently')


def in_test(ctx, rng):
    """Each parameter of a test is read by its own instrument, everything else is read exactly."""
    prms = {}
    for p in ['vth', 'ids', 'vth2', pick(rng, ['VTH', 'vth_2', 'vt', '_vth', 'th'])]:     # alike, but different names
        prms[p] = DegPrmMdl(DegMechMdl(lambda time, temp, a: a * time * temp, mdl_name='m', time_unit='h', a=mk_latent(rng, 1e-4)),
                            InitValMdl(init_val=mk_latent(rng, loguni(rng, 0.1, 50))))
    prms['osc'] = CircPrmMdl(lambda vth, ids, temp: vth * 3 + ids + temp / 100)
    mdl = DeviceMdl(prms)
    lots, chps = mk_dims(rng)
    cnt = {p: int(rng.integers(1, 4)) for p in prms}
    for p in ('vth', 'ids'):
        cnt[p] = max(cnt[p], cnt['osc'])
    state = gerabaldi.gen_init_state(mdl, dict(cnt), chps, lots)
    alike = pick(rng, ['Temp', 'temp_2', 'vdd_io', 'v', 'emp'])
    allp = list(prms) + ['temp', 'vdd', alike]
    insts, spec = {}, {}
    for p in allp:
        k = int(rng.integers(5))
        if k == 0:
            continue
        off = float(rng.uniform(-1, 1)) if k in (1, 4) else 0.0
        prec = int(rng.integers(2, 6)) if k in (2, 4) else None
        lims = tuple(sorted(rng.uniform(0, 20, 2))) if k in (3, 4) else None
        spec[p] = (off, prec, lims)
        insts[p] = MeasInstrument(p, prec, Deterministic(off) if off else None, lims)
    if len(insts) >= 2 and rng.random() < 0.3:
        a, b = list(insts)[:2]
        insts[b], spec[b] = insts[a], spec[a]
        form = dict(insts)
    else:
        form = dict(insts) if rng.random() < 0.5 else list(insts.values())
    steps = []
    for i in range(int(rng.integers(1, 4))):
        sel = [p for p in allp if rng.random() < 0.7] or ['vth']
        rng.shuffle(sel)
        m = {p: (int(rng.integers(1, cnt[p] + 1)) if p in cnt else int(rng.integers(1, 4))) for p in sel}
        steps.append(MeasSpec(m, {'temp': float(rng.uniform(250, 400)), 'vdd': float(rng.uniform(0.1, 30)), alike: float(rng.uniform(1, 30))}, f'm{i}'))
        steps.append(StrsSpec({'temp': 350.0, 'vdd': 1.0}, mk_dur(rng, 1, 100)))
    ctx.describe(instruments=spec, form=type(form).__name__, steps=steps_repr(steps), counts=cnt, dims=(lots, chps))
    ctx.sig(sorted(spec.items()), type(form).__name__, cnt, lots, chps, len(steps))
    test = TestSpec(steps, chps, lots)
    ideal = gerabaldi.simulate(test, mdl, PhysTestEnv(), state).measurements
    real = gerabaldi.simulate(test, mdl, PhysTestEnv(meas_instms=form), state).measurements
    table(ideal, MEAS_COLS), table(real, MEAS_COLS)
    ctx.equal(len(real), len(ideal), 'instruments change the number of measurements')
    key = ['param', 'step #']
    for (p, st), g in ideal.groupby(key, sort=False):
        h = real[(real['param'] == p) & (real['step #'] == st)]
        lab = lambda f: [tuple(r) for r in f[['lot #', 'chip #', 'device #']].astype(float).fillna(-1).values]
        ctx.equal(lab(h), lab(g), 'instruments change which devices are measured', param=p, step=st)
        off, prec, lims = spec.get(p, (0.0, None, None))
        for x, r in zip(g['measured'], h['measured']):
            ctx.count('readings_in_tests')
            d = dict(param=p, step=st, value=x, reading=r, instrument=spec.get(p))
            y = x + off
            if lims and (r == lims[0] or r == lims[1]):
                s = 0.51 * 10.0 ** (math.floor(math.log10(abs(y))) - prec + 1) if prec and y else 0.0
                ctx.check((r == lims[0] and y - s <= lims[0]) or (r == lims[1] and y + s >= lims[1]), 'reading saturated though the value is inside the range', **d)
            elif prec:
                ctx.check(rounded_ok(y, r, prec), 'reading is not the value rounded by its instrument', **d)
                ctx.check(not lims or lims[0] <= r <= lims[1], 'reading outside the range of its instrument', **d)
            else:
                ctx.check(abs(r - y) <= 1e-12 * (abs(x) + abs(off)), 'reading differs from the value as seen by its instrument', **d)
                ctx.check(not lims or lims[0] <= r <= lims[1], 'reading outside the range of its instrument', **d)


def noise(ctx, rng):
    """Repeated measurements of one test: every reading has an error of its own."""
    prms = {p: DegPrmMdl(DegMechMdl(lambda time, temp: 0 * time * temp, mdl_name='m', time_unit='h'), InitValMdl(init_val=LatentVar(deter_val=0.25))) for p in ('vth', 'ids')}
    prms['osc'] = CircPrmMdl(lambda vth, temp: 0.5 + 0 * vth * temp)
    mdl = DeviceMdl(prms)
    lots, chps = mk_dims(rng)
    base = {'vth': 0.25, 'ids': 0.25, 'osc': 0.5, 'temp': 0.75}
    errs = {p: Coded('int', 1) for p in base}
    if rng.random() < 0.3:
        errs['ids'] = errs['vth']
    one = MeasInstrument('q', error=errs['vth'])
    insts = {p: MeasInstrument(p, error=e) for p, e in errs.items()}
    if errs['ids'] is errs['vth'] and rng.random() < 0.5:
        insts['vth'] = insts['ids'] = one
    n = int(rng.integers(1, 4))
    m = {p: n for p in base if rng.random() < 0.8} or {'vth': n}
    spec = MeasSpec(m, {'temp': 0.75})
    steps = []
    for i in range(int(rng.integers(2, 6))):
        steps.append(spec if rng.random() < 0.5 else MeasSpec(dict(m), {'temp': 0.75}, f'm{i}'))
        if rng.random() < 0.3:
            steps.append(StrsSpec({'temp': 0.75}, mk_dur(rng, 1, 100)))
    ctx.describe(measured=m, steps=len(steps), dims=(lots, chps), shared=errs['ids'] is errs['vth'])
    ctx.sig(m, len(steps), lots, chps, errs['ids'] is errs['vth'])
    rep = gerabaldi.simulate(TestSpec(steps, chps, lots), mdl, PhysTestEnv(meas_instms=insts))
    tot = {}
    for p, g in rep.measurements.groupby('param'):
        e = np.asarray(g['measured'], dtype=float) - base[p]
        ctx.check((np.abs(e - np.round(e)) < 1e-9).all(), 'reading is not the value plus an error', param=p)
        tot.setdefault(id(errs[p]), []).extend(np.round(e).astype(int).tolist())
    for v in tot.values():
        ctx.equal(sorted(v), list(range(1, len(v) + 1)), 'readings do not have an error of their own each')
        ctx.count('errors_decoded', len(v))


KINDS = [('noise', noise, 30, 1000), ('measure', measure, 1500, 40000), ('in_test', in_test, 80, 2000)]
MIN_OBSERVED = {'measured_again': 100, 'errors_decoded': 500, 'readings_rounded': 2000, 'readings_saturated': 200, 'readings_unrounded': 1000, 'readings_in_tests': 1000}
