"""C13: reports survive export and reload unchanged, and converting times never changes the instants they denote."""
import json
import os
import shutil
import tempfile
import numpy as np
import pandas as pd
from datetime import timedelta
from vp.gen import *

RULE = ('Reports of random simulations and of synthetic data (tiny, huge, non-finite and integer values; hostile step, parameter and test names; '
        'up to hundreds of rows; conditions present only in some steps) through random histories of export (every unit and spelling, every kind of '
        'path), load, time conversion and re-export. All tables are compared value by value with the original. Distinct by contents and history.')
ASSUMPTIONS = ['Times are compared to a microsecond (the resolution of the time type) plus float rounding of the exported unit.']

NAMES = ['vth', '1', '1.50', 'nan', 'None', 'true', '2024-01-01', '1e5', 'ünï ☃', 'a"b\\c', ' lead', 'Infinity', 'NaN', 'null', 'gNaNo', '-Infinity', '0x10', '', '00012', 'x' * 300]
OPS_UNITS = ['d', 'days', 'h', 'hours', 's', 'seconds', 'ms', 'milliseconds', 'us', 'microseconds']


def snapshot(rep, names=True):
    m, t = table(rep.measurements, MEAS_COLS), table(rep.test_summary, SUM_COLS)
    return {'m': m.copy(deep=True), 't': t.copy(deep=True), 'name': rep.test_name, 'desc': rep.test_description}


def secs(x, unit=None):
    if isinstance(x, timedelta):
        return x.total_seconds()
    return float(x) * UNITS[unit] * 3600


def cmp_col(ctx, got, want, col, what):
    ctx.counts['values_compared'] += len(want)
    for i, (g, w) in enumerate(zip(got, want)):
        gn, wn = g is None or g != g, w is None or w != w
        if gn and wn:
            continue
        if gn or wn or (float(g) != float(w) if not isinstance(w, str) else str(g) != w):
            raise Violation(f'{what}: value of column {col!r} differs', row=i, got=g, want=w)


def cmp_times(ctx, got, want, col, what, unit=None, want_unit=None):
    ctx.counts['values_compared'] += len(want)
    for i, (g, w) in enumerate(zip(got, want)):
        a, b = secs(g, unit), secs(w, want_unit)
        if not abs(a - b) <= 1.1e-6 + 1e-14 * abs(b):
            raise Violation(f'{what}: time in column {col!r} denotes another instant', row=i, got_s=a, want_s=b)


def compare(ctx, rep, ref, what, unit=None):
    """rep (meas times possibly raw in the given unit) against a snapshot with timedeltas."""
    m, t = table(rep.measurements, MEAS_COLS), table(rep.test_summary, SUM_COLS)
    ctx.equal(rep.test_name, ref['name'], f'{what}: test name differs')
    ctx.equal(rep.test_description, ref['desc'], f'{what}: description differs')
    ctx.equal(len(m), len(ref['m']), f'{what}: number of measurements differs')
    ctx.equal(len(t), len(ref['t']), f'{what}: number of steps differs')
    ctx.equal(sorted(map(str, t.columns)), sorted(map(str, ref['t'].columns)), f'{what}: columns of the summary differ')
    for c in MEAS_COLS:
        if c == 'time':
            cmp_times(ctx, m[c], ref['m'][c], c, what, unit)
        else:
            cmp_col(ctx, m[c], ref['m'][c], c, what)
    for c in ref['t'].columns:
        if c in ('duration', 'start time', 'end time'):
            cmp_times(ctx, t[c], ref['t'][c], c, what)
        else:
            cmp_col(ctx, t[c], ref['t'][c], c, what)
    ctx.count('reports_compared')


def val(rng):
    k = int(rng.integers(8))
    if k == 0:
        return float(rng.integers(-5, 6))
    if k == 1:
        return pick(rng, [1, -1]) * loguni(rng, 1e-300, 1e300)
    if k == 2:
        return pick(rng, [1, -1]) * loguni(rng, 1e-18, 1e-9)
    if k == 3:
        return float(np.nextafter(1.0, 2.0)) * float(rng.random())
    if k == 4 and rng.random() < 0.3:
        return pick(rng, [float('nan'), float('inf'), float('-inf')])
    if k == 5:
        return 1e9 + float(rng.random())      # looks like an epoch
    return float(rng.normal())


def synthetic(rng):
    steps = []
    conds = ['temp', 'vdd', 'date', 'timestamp', 'modified', 'rate_at', 'x']
    if rng.random() < 0.06:
        conds = conds + [f'c{i}' for i in range(int(rng.integers(10, 45)))]
    spec = TestSpec([], int(rng.integers(1, 4)), int(rng.integers(1, 3)), pick(rng, NAMES), pick(rng, NAMES + ['none provided', 'a\nb']))
    rep = SimReport(spec)
    if rng.random() < 0.2:
        rep = SimReport(spec, name=pick(rng, ['own name', '7']), description=pick(rng, ['own', '{}']))
    # As simulations report them: falsy names are kept
    t = timedelta()
    prm_names = [n for n in NAMES if n]
    for i in range(int(rng.integers(1, 14))):
        c = {k: val(rng) for k in conds if rng.random() < 0.5}
        if rng.random() < 0.5:
            d = timedelta(microseconds=int(loguni(rng, 1, 1e16)))
            rep.add_summary_report(pd.DataFrame({'step name': pick(rng, NAMES), 'step type': 'stress', 'step number': i, 'duration': d, 'start time': t, 'end time': t + d, **c}, index=[0]))
            t += d
        else:
            shape = (spec.num_lots, spec.num_chps, int(rng.integers(1, 6)) if rng.random() > 0.002 else int(rng.integers(2000, 6000)))
            for _ in range(int(rng.integers(1, 4))):
                vals = np.array([val(rng) for _ in range(int(np.prod(shape)))]).reshape(shape)
                if rng.random() < 0.2:
                    vals = np.round(np.clip(np.nan_to_num(vals), -1e6, 1e6)).astype(int)
                rep.add_measurements(SimReport.format_measurements(vals, pick(rng, prm_names), t, i, pick(rng, ['parameter', 'condition'])))
            rep.add_summary_report(pd.DataFrame({'step name': pick(rng, NAMES), 'step type': 'measure', 'step number': i, 'duration': timedelta(), 'start time': t, 'end time': t, **c}, index=[0]))
    if len(rep.measurements) == 0:
        rep.add_measurements(SimReport.format_measurements(np.array([[[val(rng)]]]), 'vth', t, 0))
    if len(rep.test_summary) == 0:
        rep.add_summary_report(pd.DataFrame({'step name': 's', 'step type': 'measure', 'step number': 0, 'duration': timedelta(), 'start time': t, 'end time': t}, index=[0]))
    return rep


def simulated(rng):
    mdl = DeviceMdl({'vth': Prm(rng, fams=['linear', 'plain'], n_mechs=1, combine='sum').model(), 'osc': CircPrmMdl(lambda vth: 1e-9 / vth)})
    lots, chps = mk_dims(rng)
    steps = []
    for i in range(int(rng.integers(1, 5))):
        steps.append(MeasSpec({k: int(rng.integers(1, 4)) for k in ['vth', 'osc', 'temp'] if rng.random() < 0.7} or {'vth': 1}, mk_conds(rng), pick(rng, NAMES)))
        steps.append(StrsSpec(mk_conds(rng), mk_dur(rng, 1e-6, 1e5), pick(rng, NAMES)))
    return gerabaldi.simulate(TestSpec(steps, chps, lots, pick(rng, NAMES), 'd'), mdl, PhysTestEnv())


def trip(ctx, rng):
    rep = (synthetic if rng.random() < 0.7 else simulated)(rng)
    ref = snapshot(rep)
    hist = []
    top = tempfile.mkdtemp(prefix='vp_c13_')
    old = os.getcwd()
    try:
        os.chdir(top)
        unit = None             # unit of raw measurement times in the current report object
        cur = rep
        n = 0
        for _ in range(int(rng.integers(2, 7))):
            op = pick(rng, ['trip', 'trip', 'convert', 'export', 'export_nofile'])
            u = pick(rng, OPS_UNITS)
            hist.append((op, u))
            if op == 'convert':
                cur.convert_report_time(u)
                unit = u
                for x in cur.measurements['time']:
                    ctx.check(not isinstance(x, timedelta), 'converted time is not a plain number', got=type(x))
                compare(ctx, cur, ref, f'after converting times to {u}', unit)
                continue
            n += 1
            path = {0: f'r{n}.json', 1: f'sub/r{n}.json', 2: f'a/b/c{n}/r.json', 3: f'{top}/abs{n}/x/r.json', 4: f'./r{n}.json', 5: 'again.json', 6: f'v1.{n}/run', 7: f'a.b/c.d{n}/r', 8: f'd{n}.json/sub/r.x.json', 9: f'{top}/w x{n}/ü.json', 10: f' lead{n} /r.json'}[int(rng.integers(11))]
            if path == 'again.json' or rng.random() < 0.2 and not os.path.dirname(path):
                # An older and much longer export is already there: it is replaced
                with open(path, 'w') as f:
                    f.write(pick(rng, ['x', '{"Test Name": "old"}\n', ' ']) * 200000)
            give = None if op == 'export' and rng.random() < 0.3 else u
            out = cur.export_to_json(path if op != 'export_nofile' else None, give)
            compare(ctx, cur, ref, 'exporting changed the report', unit)
            if op == 'export_nofile':
                ctx.check(isinstance(out, dict), 'export without a file')
                ctx.check(json.loads(json.dumps(out)) == out, 'the returned export is not JSON')
                with open('own.json', 'w') as f:
                    json.dump(out, f)
                path = 'own.json'
            ctx.check(os.path.isfile(path), 'no file was exported', path=path)
            if give:
                ctx.equal(UNITS.get(json.load(open(path))['Time Units'].lower()), UNITS[u], 'the export names another time unit')
            new = SimReport(file=path)
            compare(ctx, new, ref, f'after loading an export in {give}')
            for c in ('time',):
                ctx.check(all(isinstance(x, timedelta) for x in new.measurements[c]), 'loaded times are not time spans')
            if op == 'trip':
                cur, unit = new, None
    finally:
        os.chdir(old)
        shutil.rmtree(top, ignore_errors=True)
    ctx.describe(history=hist, rows=len(ref['m']), name=ref['name'], columns=list(ref['t'].columns))
    ctx.sig(hist, len(ref['m']), len(ref['t']), ref['name'])


def conversion(ctx, rng):
    """The raw number of a converted time is the span divided by the unit."""
    rep = SimReport(TestSpec([], 1, 1))
    ts = [timedelta(microseconds=int(loguni(rng, 1, 1e17))) for _ in range(8)] + [timedelta()]
    for i, t in enumerate(ts):
        rep.add_measurements(SimReport.format_measurements(np.array([[[1.0]]]), 'p', t, i))
    us = [pick(rng, OPS_UNITS) for _ in range(int(rng.integers(1, 5)))]
    ctx.describe(units=us, times=ts)
    ctx.sig(us, ts)
    if rng.random() < 0.2:
        us.append('h')
    for u in us:
        if u == 'h' and rng.random() < 0.5:
            rep.convert_report_time()       # hours, as documented
        else:
            rep.convert_report_time(u)
        for x, t in zip(rep.measurements['time'], ts):
            ctx.count('conversions')
            w = t.total_seconds() / (UNITS[u] * 3600)
            # each conversion goes through a time span of microsecond resolution
            ctx.check(abs(float(x) - w) <= 1e-12 * w + 2e-6 * len(us) / (UNITS[u] * 3600), 'converted time is not the span in the requested unit', unit=u, got=x, want=w)


KINDS = [('trip', trip, 160, 4000), ('conversion', conversion, 120, 3000)]
MIN_OBSERVED = {'reports_compared': 400, 'conversions': 1000}
