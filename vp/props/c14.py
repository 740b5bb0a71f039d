"""C14: test specifications hold exactly the steps the user composed, loops cover exactly the requested stress time."""
import numpy as np
from datetime import timedelta
from vp.gen import *

RULE = ('Random histories of constructing and extending test specifications (single steps, lists, loops by duration in every unit and as time '
        'spans, dividing and not dividing the requested time, lists reused and modified by the caller afterwards), compared with a list kept by the monitor; '
        'then read back through iteration (once, repeatedly, abandoned half way), the required sample counts and an executed simulation. '
        'Distinct by history.')
ASSUMPTIONS = ['One iteration over a test specification is in progress at a time.']


def span(rng, n, unit):
    return {'d': timedelta(days=n), 'days': timedelta(days=n), 'h': timedelta(hours=n), 'hours': timedelta(hours=n), None: timedelta(hours=n),
            's': timedelta(seconds=n), 'seconds': timedelta(seconds=n), 'ms': timedelta(milliseconds=n), 'milliseconds': timedelta(milliseconds=n),
            'us': timedelta(microseconds=n), 'microseconds': timedelta(microseconds=n)}[unit]


def strs(ctx, rng, small=False):
    unit = pick(rng, list(UNITS))
    n = int(rng.integers(1, 50))
    k = int(rng.integers(3))
    name = pick(rng, [None, 'stress', 's2'])
    kw = {'name': name} if name else {}
    cond = {'temp': float(rng.integers(300, 400))}
    if k == 0:
        s = StrsSpec(cond, span(rng, n, unit), **kw)
    elif k == 1:
        s = StrsSpec(cond, n, time_unit=unit, **kw)
    else:
        s = StrsSpec(cond, float(n), time_unit=unit, **kw)
    ctx.equal(s.duration, span(rng, n, unit), 'duration of a stress phase differs from what was specified', unit=unit, n=n)
    ctx.equal(s.conditions, cond, 'conditions of a stress phase differ')
    ctx.equal(s.name, name or 'unspecified', 'name of a stress phase differs')
    return s


def meas(rng):
    return MeasSpec({p: int(rng.integers(1, 9)) for p in ['vth', 'ids', 'osc', 'temp'] if rng.random() < 0.6} or {'vth': 1}, {'temp': 300.0}, pick(rng, ['m', 'room']))


def block(ctx, rng):
    b = [strs(ctx, rng) if rng.random() < 0.5 else meas(rng) for _ in range(int(rng.integers(1, 5)))]
    if rng.random() < 0.2:
        b.append(b[0])
    return b


def compose(ctx, rng):
    hist = []
    start = None if rng.random() < 0.3 else block(ctx, rng)
    lots, chps = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    test = TestSpec(list(start) if start is not None else None, chps, lots, 'nm', 'ds') if start is not None or rng.random() < 0.5 else TestSpec(num_chps=chps, num_lots=lots, name='nm', description='ds')
    other = TestSpec()
    want = list(start or [])
    mine = []
    hist.append(('new', len(want)))
    for _ in range(int(rng.integers(1, 7))):
        op = pick(rng, ['one', 'list', 'loop', 'loop', 'loop1', 'over', 'vandal', 'reuse'])
        if op == 'one':
            s = strs(ctx, rng) if rng.random() < 0.5 else meas(rng)
            test.append_steps(s)
            want.append(s)
        elif op == 'list':
            b = block(ctx, rng) if rng.random() < 0.9 else []
            test.append_steps(b)
            want += b
            mine.append((b, list(b)))
        elif op == 'reuse' and mine:
            b = pick(rng, mine)[0]
            test.append_steps(b)
            want += b
        elif op in ('loop', 'over', 'loop1'):
            b = block(ctx, rng)
            if not any(isinstance(s, StrsSpec) for s in b):
                b.insert(int(rng.integers(len(b) + 1)), strs(ctx, rng))
            single = op == 'loop1'
            if single:
                b = [strs(ctx, rng)]
            arg = b[0] if single else b
            tot = sum((s.duration for s in b if isinstance(s, StrsSpec)), timedelta())
            reps = int(rng.integers(1, 8))
            if op == 'over' and tot > timedelta(microseconds=1) and rng.random() < 0.2:
                reps = 0
            dur = tot * reps
            extra = timedelta()
            if op == 'over' and tot > timedelta(microseconds=1):
                if reps == 0 and rng.random() < 0.5 and not tot.total_seconds() * 1e6 % 2:
                    extra = tot / 2
                else:
                    extra = max(timedelta(microseconds=1), min(tot - timedelta(microseconds=1), tot * float(rng.uniform(0, 1))))
                dur += extra
            give, kw = dur, {}
            if not extra and rng.random() < 0.5:
                for u in ('d', 'h', 's', 'ms', 'us'):
                    q = dur / span(rng, 1, u)
                    if q == int(q) and rng.random() < 0.5:
                        give, kw = pick(rng, [int(q), float(q)]), {'time_unit': u}
                        if u == 'h' and rng.random() < 0.5:
                            kw = {}
                        break
            over = False
            try:
                test.append_steps(arg, give, **kw)
            except UserWarning:
                over = True
            n = reps + (1 if extra else 0)
            want += b * n
            if not over and reps == 0 and extra and not tot % dur:
                ctx.known_finding('loop-multiple', '')
            else:
                ctx.check(over == bool(extra), 'a loop that exceeds the requested time must be warned of, one that fits must not', requested=str(dur), block=str(tot), warned=over)
            ctx.count('loops_over' if extra else 'loops_exact')
            mine.append((b, list(b)))
        elif op == 'vandal' and mine:
            b, cp = pick(rng, mine)
            if rng.random() < 0.5:
                b.append(meas(rng))
            elif b:
                b.pop()
            cp[:] = b
            other.append_steps(meas(rng))
        hist.append((op, len(want)))
        ctx.equal([id(s) for s in test.steps], [id(s) for s in want], 'the steps of the test differ from what was composed', history=hist)
        for b, cp in mine:
            ctx.equal([id(s) for s in b], [id(s) for s in cp], 'composing a test modified the list of steps of the caller', history=hist)
        ctx.count('compositions')
    ctx.describe(history=hist, steps=steps_repr(want)[:20])
    ctx.sig(hist, [str(getattr(s, 'duration', None)) for s in want][:30])
    ctx.equal((test.num_chps, test.num_lots, test.name, test.description), (chps, lots, 'nm', 'ds'), 'test attributes differ')
    for mode in range(3):
        if mode == 1 and want:
            for s in test:
                break
        got = list(test) if mode != 2 else [s for s in test]
        ctx.equal([id(s) for s in got], [id(s) for s in want], 'iterating a test gives other steps', iteration=mode)
    need = {}
    for s in want:
        for p, n in getattr(s, 'measurements', {}).items():
            need[p] = max(need.get(p, 0), n)
    ctx.equal({k: int(v) for k, v in test.calc_samples_needed().items()}, need, 'the required sample counts are not the maxima over all measurements')
    rep = SimReport(test)
    ctx.equal({k: int(v) for k, v in rep.dev_counts.items()}, need, 'the report of the test counts other devices')
    ctx.equal((rep.num_chps, rep.num_lots, rep.test_name, rep.test_description), (chps, lots, 'nm', 'ds'), 'the report describes another test')


def shared(ctx, rng):
    """The list given at construction stays the caller's. Known finding: it is the test's own list."""
    lst = block(ctx, rng)
    given = list(lst)
    test = TestSpec(lst)
    extra = block(ctx, rng)
    test.append_steps(extra)
    want = given + extra
    ids = lambda x: [id(s) for s in x]
    ctx.equal(ids(test.steps), ids(want), 'the steps of the test differ from what was composed')
    if ids(lst) == ids(given):
        lst.append(meas(rng))
        ctx.equal(ids(test.steps), ids(want), 'the test changes with the list it was constructed from')
    else:
        ctx.equal(ids(lst), ids(want), 'composing a test modified the list of steps of the caller')
        ctx.known_finding('shared-list', '')
    ctx.count('lists_given')
    ctx.sig(len(given), len(extra), ctx.index)


def executed(ctx, rng):
    """What was composed is what is executed."""
    b = block(ctx, rng)
    if not any(isinstance(s, StrsSpec) for s in b):
        b.append(strs(ctx, rng))
    b = [s for s in b if isinstance(s, StrsSpec)] + [MeasSpec({'vth': int(rng.integers(1, 4))}, {'temp': 300.0}, 'm')]
    tot = sum((s.duration for s in b if isinstance(s, StrsSpec)), timedelta())
    reps = int(rng.integers(1, 6))
    test = TestSpec([MeasSpec({'vth': 1}, {'temp': 300.0}, 'first')], 1, 1)
    test.append_steps(b, tot * reps)
    mdl = DeviceMdl({'vth': DegPrmMdl({'d': DegMechMdl()}, InitValMdl(init_val=LatentVar(deter_val=1.0)))})
    rep = gerabaldi.simulate(test, mdl, PhysTestEnv())
    sm = table(rep.test_summary, SUM_COLS)
    want = [('first', 'measure', timedelta())] + [(s.name, 'stress', s.duration) if isinstance(s, StrsSpec) else (s.name, 'measure', timedelta()) for s in b] * reps
    got = [(r['step name'], r['step type'], r['duration'].to_pytimedelta()) for _, r in sm.iterrows()]
    ctx.describe(block=steps_repr(b), reps=reps)
    ctx.sig(reps, [str(getattr(s, 'duration', None)) for s in b])
    ctx.equal(got, want, 'executed steps differ from the composed test')
    ctx.equal(sm['end time'].iloc[-1].to_pytimedelta(), tot * reps, 'executed stress time differs from the requested loop duration')
    ctx.count('executed_tests')


KINDS = [('compose', compose, 500, 15000), ('executed', executed, 40, 1000), ('shared', shared, 40, 400)]
MIN_OBSERVED = {'compositions': 1000, 'loops_exact': 200, 'loops_over': 50, 'executed_tests': 30}
