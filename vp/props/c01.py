"""C01: the test specification is executed and reported as one faithful timeline."""
import numpy as np
from datetime import timedelta
from vp.gen import *

RULE = ('Random test specifications (stress and measurement steps in any order, repeated step objects, durations given as timedelta '
        'or numbers in every unit down to microseconds, prior elapsed time) simulated; every row of the test summary and of the '
        'measurements is compared with the timeline computed from the specification, and probes inside the device equations record '
        'which steps were really executed, in which order and with which conditions. Non-trivial: >= 2 steps of both types; '
        'distinct by the sequence of step types, names, durations.')
ASSUMPTIONS = ['Ideal environment, so the probes see the exact conditions of the specification.']


def timeline(ctx, rng, long=False):
    log = []

    def mech(time, sid):
        log.append(('S', tuple(np.unique(np.asarray(sid)))))
        return time * 1e-3

    def shift(sid):
        log.append(('M', tuple(np.unique(np.asarray(sid)))))
        return sid * 0.0

    unit = pick(rng, ['h', 's', 'd', None, 'ms'])
    prm = DegPrmMdl({'wear': DegMechMdl(mech, time_unit=unit)}, cond_shift_mdl=CondShiftMdl(shift))
    prms = {'vth': prm}
    if rng.random() < 0.5:
        prms['freq'] = CircPrmMdl(lambda vth, sid: 1 / (1 + vth) + 0 * sid)
    mdl = DeviceMdl(prms)
    lots, chps = mk_dims(rng) if not long else (1, 1)
    n = int(rng.integers(2, 14)) if not long else int(rng.integers(260, 300))
    steps, want_log = [], []
    has_meas = False
    for i in range(n):
        if steps and rng.random() < 0.25:
            s = pick(rng, steps)  # the very same step object again
        elif rng.random() < 0.55:
            conds = {'sid': float(i + 1)}
            if rng.random() < 0.5:
                conds[pick(rng, ['temp', 'temp', 'TEMP', 'rel. hum', ' x '])] = pick(rng, [300, 125.5, -40, 0])
            if rng.random() < 0.5:
                d = mk_dur(rng, 1e-6, 5000)
                if rng.random() < 0.1:
                    d = timedelta(days=int(loguni(rng, 100, 20000)), seconds=int(rng.integers(86400)), microseconds=int(rng.integers(1000000)))
                s = StrsSpec(conds, d, pick(rng, ['bake', 'cycle', '7', ' edge ', 'Ünï code']))
            else:
                u = pick(rng, ['d', 'h', 's', 'ms', 'us', 'days', 'hours', 'seconds', 'milliseconds', 'microseconds', None])
                num = pick(rng, [1, 3, 2.5, 1000, 17, 7.125])
                if rng.random() < 0.5:
                    # any number of digits, up to a century
                    num = loguni(rng, max(2e-6 / 3600, 1e-3 * UNITS[u]), 5e5) / UNITS[u]
                    num = float(f'{num:.{int(rng.integers(1, 15))}e}') if rng.random() < 0.6 else int(num) + 1
                s = StrsSpec(conds, num, pick(rng, ['bake', 'unspecified']), u)
                ctx.check(abs(hours(s.duration) - num * UNITS[u]) <= 1.01 / 3.6e9 + 4e-16 * num * UNITS[u], 'duration differs from the number of units given', number=num, unit=u, got=s.duration)
        else:
            ms = {'vth': int(rng.integers(1, 4))}
            if 'freq' in prms and rng.random() < 0.5:
                ms['freq'] = int(rng.integers(1, 4))
            conds = {'sid': float(i + 1)}
            if rng.random() < 0.5:
                conds['vdd'] = float(rng.uniform(0.8, 1.3))
                if rng.random() < 0.5:
                    ms['vdd'] = int(rng.integers(1, 3))
            s = MeasSpec(ms, conds, pick(rng, ['room', 'hot', 'bake', ' edge ', 'HOT']))
        steps.append(s)
    if not any(isinstance(s, MeasSpec) for s in steps):
        steps.insert(int(rng.integers(len(steps) + 1)), MeasSpec({'vth': 2}, {'sid': 99.0}, 'extra'))
    desc = pick(rng, ['none provided', 'some test', ''])
    spec = TestSpec(list(steps), chps, lots, name='T%d' % rng.integers(99), description=desc)
    start = timedelta()
    state = None
    if rng.random() < 0.4:
        start = pick(rng, [timedelta(days=3), timedelta(microseconds=5), timedelta(hours=1.5), 0, 12, 2.5])
        state = gerabaldi.gen_init_state(mdl, spec.calc_samples_needed(), chps, lots, elapsed_time=start)
        if not isinstance(start, timedelta):
            start = timedelta(hours=start)
    ctx.describe(steps=steps_repr(steps), start=str(start), dims=(lots, chps))
    ctx.sig([(type(s).__name__, s.name, str(getattr(s, 'duration', ''))) for s in steps], lots, chps)
    log.clear()
    rep = gerabaldi.simulate(spec, mdl, PhysTestEnv(), state)

    # ---- the summary: one row per step, in order, contiguous
    sm = table(rep.test_summary, SUM_COLS)
    ctx.equal(len(sm), len(steps), 'number of summary rows differs from number of steps')
    ctx.equal((rep.test_name, rep.test_description), (spec.name, spec.description), 'report does not identify the test')
    ctx.equal((rep.num_chps, rep.num_lots), (chps, lots), 'report does not give the population')
    t = start
    total_h = 0.0
    for i, s in enumerate(steps):
        row = sm.iloc[i]
        stress = isinstance(s, StrsSpec)
        ctx.equal((row['step name'], row['step type'], int(row['step number'])), (s.name, 'stress' if stress else 'measure', i), 'summary row does not describe the step', step=i)
        d = s.duration if stress else timedelta()
        ctx.equal((pd.Timedelta(row['start time']), pd.Timedelta(row['duration']), pd.Timedelta(row['end time'])), (pd.Timedelta(t), pd.Timedelta(d), pd.Timedelta(t + d)), 'summary row has the wrong times', step=i)
        for c, v in s.conditions.items():
            ctx.check(c in sm.columns and row[c] == v, 'summary row does not give the condition of the step', step=i, cond=c, want=v, got=row.get(c))
        other = [c for c in sm.columns if c not in SUM_COLS and c not in s.conditions and row[c] == row[c] and row[c] is not None]
        ctx.check(not other, 'summary row gives a condition the step does not have', step=i, conds=other)
        t += d
        if stress:
            total_h += hours(d)
            want_log.append(('S', (s.conditions['sid'],)))
        else:
            # ---- every measurement of the step carries its number and its instant
            df = table(rep.measurements, MEAS_COLS)
            mine = df[df['step #'] == i]
            ctx.check(len(mine) > 0, 'no measurements reported for the step', step=i)
            ctx.equal(set(mine['param']), set(s.measurements), 'measured parameters differ from the requested ones', step=i)
            ctx.check((pd.to_timedelta(mine['time']) == pd.Timedelta(t)).all(), 'measurement reported at the wrong time', step=i, want=t, got=list(mine['time'].unique()))
            ctx.count('measurement_rows', len(mine))
            # The linear mechanism tells how much stress time was really simulated
            got = meas_array(ctx, rep, 'vth', i, (lots, chps, s.measurements['vth']))
            u = UNITS[unit]
            want = total_h / u * 1e-3
            ctx.close(got, np.full(got.shape, want), 'stress time simulated differs from the sum of the durations so far', rel=2e-3 + 1e-4 * i, abs_=2e-6 * (i + 1), step=i)
            want_log.append(('M', (s.conditions['sid'],)))
        ctx.count('summary_rows')
    ctx.check(set(table(rep.measurements, MEAS_COLS)['step #']) == {i for i, s in enumerate(steps) if isinstance(s, MeasSpec)}, 'measurements of steps that are not measurement steps')
    # Reported in the order of execution
    ctx.check(rep.measurements['step #'].is_monotonic_increasing, 'measurements not reported in order of execution')
    # ---- what the equations saw, runs of the same step merged
    got_log = [e for k, e in enumerate(log) if k == 0 or log[k - 1] != e]
    exp = [e for k, e in enumerate(want_log) if k == 0 or want_log[k - 1] != e]
    ctx.equal(got_log, exp, 'steps executed by the simulator differ from the specification')
    ctx.count('equation_calls', len(log))


def bare(ctx, rng):
    """Steps without any conditions are steps like all others."""
    mdl = DeviceMdl({'vth': DegPrmMdl({'wear': DegMechMdl(lambda time: time * 1e-3, time_unit='h')})})
    lots, chps = mk_dims(rng)
    steps = []
    for i in range(int(rng.integers(2, 8))):
        c = {} if rng.random() < 0.8 else {'temp': 300.0}
        steps.append(StrsSpec(c, mk_dur(rng, 1, 1000), f's{i}') if rng.random() < 0.5 else MeasSpec({'vth': int(rng.integers(1, 4))}, c, f'm{i}'))
    steps.append(MeasSpec({'vth': 2}, {}, 'end'))
    ctx.describe(steps=steps_repr(steps), dims=(lots, chps))
    ctx.sig(steps_repr(steps), lots, chps)
    rep = gerabaldi.simulate(TestSpec(steps, chps, lots), mdl, PhysTestEnv())
    sm = table(rep.test_summary, SUM_COLS)
    ctx.equal([(n, k, int(i)) for n, k, i in zip(sm['step name'], sm['step type'], sm['step number'])],
              [(s.name, 'stress' if isinstance(s, StrsSpec) else 'measure', i) for i, s in enumerate(steps)], 'the summary does not list the steps')
    t = timedelta()
    for i, s in enumerate(steps):
        d = getattr(s, 'duration', timedelta())
        ctx.equal((pd.Timedelta(sm.iloc[i]['start time']), pd.Timedelta(sm.iloc[i]['end time'])), (pd.Timedelta(t), pd.Timedelta(t + d)), 'summary row has the wrong times', step=i)
        t += d
        if isinstance(s, MeasSpec):
            got = meas_array(ctx, rep, 'vth', i, (lots, chps, s.measurements['vth']))
            ctx.close(got, np.full(got.shape, hours(t) * 1e-3), 'stress time simulated differs from the sum of the durations so far', rel=2e-3, abs_=2e-6 * (i + 1), step=i)
        ctx.count('steps_without_conditions', int(not s.conditions))


def long(ctx, rng):
    """Tests of hundreds of steps."""
    timeline(ctx, rng, True)
    ctx.count('long_tests')


KINDS = [('bare', bare, 50, 1000), ('long', long, 2, 40), ('timeline', timeline, 400, 12000)]
MIN_OBSERVED = {'summary_rows': 1000, 'measurement_rows': 3000, 'equation_calls': 5000, 'long_tests': 2, 'steps_without_conditions': 100}
