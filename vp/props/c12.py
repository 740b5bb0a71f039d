"""C12: simulating is free of side effects and repeatable, also after a simulation that was aborted half way."""
import copy
import logging
import os
import random
import sys
import threading
import warnings
import numpy as np
import pandas as pd
from vp.gen import *
from vp.core import InjectedFault

RULE = ('Random complete simulations (test, device, environment, state). Every public input is fingerprinted before and compared after; '
        'repeated simulations of one state, equally seeded rebuilds, unrelated simulations in between and vandalised reports must not change '
        'a single reported number. For the fault kind every callback invocation of the simulation (equations, distributions, of all kinds) is an '
        'abort point: an exception is injected at it, has to reach the caller unchanged and must leave all inputs usable as before. '
        'Distinct by configuration and abort point.')
ASSUMPTIONS = ['A distribution advances its own random stream when sampled; that is not a side effect of the simulation.',
               'The report passed to gen_init_state as quantity_info is documented to be updated.']
LEVEL = 'fault_enumeration'


class Abort(BaseException):
    """Like KeyboardInterrupt: not an Exception."""


OTHERS = [ArithmeticError, ZeroDivisionError, OverflowError, FloatingPointError, KeyError, IndexError, RuntimeError, NotImplementedError, RecursionError, OSError, StopIteration,
          AttributeError, NameError, MemoryError, AssertionError, Warning, ImportError, EOFError, KeyboardInterrupt, SystemExit, GeneratorExit]


class Tap:
    """Counts the callback invocations of a simulation, raises at a chosen one."""

    def __init__(self):
        self.n, self.at, self.exc, self.sites, self.from_on, self.raised = 0, None, None, [], None, 0

    def hit(self, site):
        self.n += 1
        self.sites.append(site)
        if self.at is not None and (self.n == self.at if self.from_on is None else self.n >= self.at and (site == self.from_on or {site, self.from_on} == {'single', 'scalar'})):
            self.raised += 1
            raise self.exc


class TapVar(RandomVar):
    def __init__(self, tap, inner):
        self._dist_type = 'uniform'
        super().__init__()
        self.tap, self.inner = tap, inner

    def sample(self, quantity=1):
        self.tap.hit('sample')
        return self.inner.sample(quantity)


def build(rng, tap, variation=True, unit=None):
    """Everything deterministic given rng (all distributions are seeded)."""
    def t(site, f):
        return f if tap is None else f

    hit = (lambda s: None) if tap is None else tap.hit

    def mech(time, temp, a, n):
        hit('mech')
        return a * time ** n * temp / 300

    def fail(time, vdd, lim):
        hit('fail')
        return np.where(time * vdd > lim, 1.5, 0.0)

    def shift(temp, tc):
        hit('shift')
        return tc * (temp - 300)

    def prm(init, cond, bti, brk):
        hit('prm')
        return init + cond + bti + brk

    def init(v0, dv):
        hit('init')
        return v0 + dv

    def circ(vth, ids, g, temp):
        hit('circ')
        return g * ids / vth * temp

    def rv(d):
        return TapVar(tap, d) if tap is not None and rng.random() < 0.3 else d

    def scal(time, temp, a):
        hit('scalar' if np.ndim(time) else 'single')
        return a * time if temp > 290 else 0.0

    prms = {
        'vth': DegPrmMdl({'bti': DegMechMdl(mech, time_unit=unit, a=mk_latent(rng, 1e-3), n=mk_latent(rng, 0.5, 0.02)),
                          'brk': FailMechMdl(fail, time_unit='h', lim=mk_latent(rng, 300.0, 0.5))},
                         InitValMdl(init, v0=mk_latent(rng, 1.0), dv=LatentVar(rv(Normal(0, 0.01, test_seed=seed(rng))))),
                         CondShiftMdl(shift, tc=mk_latent(rng, 1e-3)), prm),
        'ids': DegPrmMdl({'d': DegMechMdl(scal, time_unit='h', a=mk_latent(rng, 1e-3)) if rng.random() < 0.4 else
                          DegMechMdl(lambda time, a: a * time, time_unit='s', a=mk_latent(rng, 1e-7))},
                         InitValMdl(init_val=mk_latent(rng, 2.0))),
        'osc': CircPrmMdl(circ, g=LatentVar(rv(Uniform(1, 2, test_seed=seed(rng))))),
    }
    mdl = DeviceMdl(prms, time_unit=pick(rng, [None, 'h', 'd']))
    lots, chps = mk_dims(rng, (2, 2, 3))
    steps = []
    for i in range(int(rng.integers(1, 4))):
        m = {p: int(rng.integers(1, 3)) for p in ['vth', 'ids', 'osc', 'temp'] if rng.random() < 0.7} or {'vth': 1}
        steps.append(MeasSpec(m, mk_conds(rng), f'm{i}'))
        steps.append(StrsSpec(mk_conds(rng), mk_dur(rng, 1, 400), f's{i}'))
    steps.append(MeasSpec({'vth': 2, 'osc': 1} if rng.random() < 0.7 else {'vth': 2}, mk_conds(rng), 'end'))
    # The same spec objects may appear several times
    if rng.random() < 0.4:
        steps += steps[:2]
        steps.append(steps[0])
    test = TestSpec(steps, chps, lots, 'test', 'some test')
    if variation:
        env = PhysTestEnv({'temp': EnvVrtnMdl(rv(Normal(0, 0.5, test_seed=seed(rng))), rv(Normal(0, 1, test_seed=seed(rng))), Normal(0, 1, test_seed=seed(rng))),
                           'vdd': EnvVrtnMdl(Uniform(-0.01, 0.01, test_seed=seed(rng)))},
                          {'vth': MeasInstrument(precision=5, error=rv(Normal(0, 1e-3, test_seed=seed(rng))), meas_lims=(-5, 9))})
    else:
        o = float(rng.uniform(-2, 2))
        env = PhysTestEnv({'temp': EnvVrtnMdl(rv(Deterministic(o)))}, {'vth': MeasInstrument(precision=5, error=rv(Deterministic(0.01)), meas_lims=(-5, 9))})
    return test, mdl, env


def frame(df):
    """All reported rows and columns, NaN and missing values made comparable."""
    return [tuple(df.columns)] + [tuple('-' if (x is None or (isinstance(x, float) and x != x)) else repr(x) for x in row) for row in df.astype(object).values.tolist()]


def results(rep):
    return {'measurements': frame(rep.measurements), 'summary': frame(rep.test_summary)}


def data(x):
    if isinstance(x, dict):
        return {k: data(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return (x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, (list, tuple)):
        return [data(v) for v in x]
    return repr(x)


STATE = ('elapsed', 'curr_prm_vals', 'init_prm_vals', 'curr_deg_mech_vals', 'init_deg_mech_vals', 'latent_var_vals')


def fingerprint(test, mdl, env, state):
    out = {
        'steps': [id(s) for s in test.steps], 'test': (test.num_chps, test.num_lots, test.name, test.description),
        'specs': [(s.name, data(s.conditions), list(s.conditions), data(getattr(s, 'measurements', None)), list(getattr(s, 'measurements', {})), str(getattr(s, 'duration', None))) for s in test.steps],
        'env': env.name,
        'device': (mdl.name, list(mdl.prm_mdl_list), mdl.time_unit, [mdl.prm_mdl(p).name for p in mdl.prm_mdl_list]),
        'units': [(p, m, mdl.prm_mdl(p).mech_mdl(m).time_unit, mdl.prm_mdl(p).mech_mdl(m).unitary) for p in mdl.prm_mdl_list if isinstance(mdl.prm_mdl(p), DegPrmMdl) for m in mdl.prm_mdl(p).mech_mdl_list],
    }
    if state is not None:
        out['state'] = {a: data(getattr(state, a)) for a in STATE}
    return out


def same(ctx, a, b, msg, **kw):
    for k in a:
        ctx.counts['assertions'] += 1
        if a[k] != b[k]:
            diff = next(((x, y) for x, y in zip(a[k], b[k]) if x != y), None) if isinstance(a[k], list) else None
            raise Violation(msg, part=k, first_difference=diff or (a[k], b[k]), **kw)
    ctx.count('fingerprints_compared')


def counts_of(test):
    c = {}
    for s in test.steps:
        for p, n in getattr(s, 'measurements', {}).items():
            if p in ('vth', 'ids', 'osc'):
                c[p] = max(c.get(p, 0), n)
    return {'vth': max(c.values()), 'ids': max(c.values()), 'osc': max(c.values())}


def settings():
    lg = logging.getLogger('gerabaldi')
    return {'numpy errors': np.geterr(), 'numpy printing': repr(np.get_printoptions()), 'warning filters': [repr(f) for f in warnings.filters], 'directory': os.getcwd(), 'environment': dict(os.environ),
            'level': lg.level, 'handlers': [id(h) for h in lg.handlers], 'recursion': sys.getrecursionlimit(), 'threads': threading.active_count(),
            'pandas': [pd.get_option(o) for o in ('display.max_rows', 'display.precision', 'mode.chained_assignment', 'display.float_format')]}


def pure(ctx, rng):
    s = seed(rng)
    test, mdl, env = build(np.random.default_rng(s), None, variation=False)
    cnt = counts_of(test)
    given = dict(cnt)
    state = gerabaldi.gen_init_state(mdl, given, test.num_chps, test.num_lots)
    ctx.equal(given, cnt, 'gen_init_state changed the device counts it was given')
    ctx.describe(steps=steps_repr(test.steps), dims=(test.num_lots, test.num_chps))
    ctx.sig(s)
    fp = fingerprint(test, mdl, env, state)
    legacy = np.random.get_state()[1].tobytes(), random.getstate()
    process = settings()
    rep = gerabaldi.simulate(test, mdl, env, state)
    first = results(rep)
    same(ctx, fp, fingerprint(test, mdl, env, state), 'simulate changed one of its inputs')
    ctx.check((np.random.get_state()[1].tobytes(), random.getstate()) == legacy, 'simulate consumed a global random stream')
    ctx.equal(settings(), process, 'simulate changed settings of the process')
    kind = int(rng.integers(4))
    if kind == 0:       # unrelated work in between
        t2, m2, e2 = build(np.random.default_rng(seed(rng)), None)
        gerabaldi.simulate(t2, m2, e2)
        gerabaldi.gen_init_state(mdl, {'vth': 3, 'ids': 1, 'osc': 2}, 3, 1)
    elif kind == 1:     # the caller owns the returned report
        rep.measurements['measured'] = np.nan
        rep.measurements['time'] = None
        rep.test_summary['duration'] = None
        rep.dev_counts.clear()
    elif kind == 2:     # other uses of the same objects
        list(test)
        test.calc_samples_needed().clear()
        env.gen_env_cond_vals({'temp': 300.0}, {'temp': 2})
        rep.export_to_json(time_unit='h')
    again = results(gerabaldi.simulate(test, mdl, env, state))
    same(ctx, first, again, 'simulating the same state again gives different results', between=kind)
    if kind != 1:
        same(ctx, first, results(rep), 'a report changed when its test was simulated again')
    cp = copy.deepcopy(state)
    same(ctx, first, results(gerabaldi.simulate(test, mdl, env, cp)), 'a copy of the state gives different results')
    # Reports do not alias the state
    rep3 = gerabaldi.simulate(test, mdl, env, cp)
    for p in cp.curr_prm_vals:
        cp.curr_prm_vals[p] += 7
    same(ctx, first, results(rep3), 'a report changed when the state it started from was modified')
    same(ctx, fp, fingerprint(test, mdl, env, state), 'simulate changed one of its inputs')


def modify(rng, test, env):
    """What users do between two simulations, through public attributes and methods."""
    done = []
    for _ in range(int(rng.integers(1, 4))):
        k = pick(rng, ['append', 'append', 'condition', 'count', 'duration', 'dims', 'instrument', 'variation', 'remove', 'newprm'])
        meas, strs = [s for s in test.steps if isinstance(s, MeasSpec)], [s for s in test.steps if isinstance(s, StrsSpec)]
        done.append(k)
        if k == 'append':
            test.append_steps([StrsSpec(mk_conds(rng), mk_dur(rng, 1, 100), 'more'), MeasSpec({'vth': int(rng.integers(1, 5)), 'osc': int(rng.integers(1, 5))}, mk_conds(rng), 'more')])
        elif k == 'condition':
            pick(rng, test.steps).conditions['temp'] = float(rng.uniform(280, 400))
        elif k == 'count':
            s = pick(rng, meas)
            s.measurements[pick(rng, list(s.measurements))] = int(rng.integers(1, 6))
        elif k == 'newprm':
            pick(rng, meas).measurements[pick(rng, ['ids', 'osc', 'vth', 'temp'])] = int(rng.integers(1, 6))
        elif k == 'duration':
            pick(rng, strs).duration = mk_dur(rng, 1, 400)
        elif k == 'dims':
            test.num_chps, test.num_lots = int(rng.integers(1, 4)), int(rng.integers(1, 3))
        elif k == 'instrument':
            setattr(env, pick(rng, ['vth', 'osc', 'temp']) + '_instm', MeasInstrument('new', int(rng.integers(2, 5))))
        elif k == 'variation':
            setattr(env, pick(rng, ['temp', 'vdd']) + '_var', EnvVrtnMdl(Deterministic(float(rng.uniform(-0.1, 0.1)))))
        elif k == 'remove' and len(test.steps) > 3:
            test.steps.pop(0)
    if not any(isinstance(s, MeasSpec) for s in test.steps):
        test.append_steps(MeasSpec({'vth': 1}, mk_conds(rng), 'extra'))
    return done


def evolving(ctx, rng):
    """Objects that were simulated, then modified by their owner, behave like objects that were never simulated before."""
    s, ms = seed(rng), seed(rng)
    test, mdl, env = build(np.random.default_rng(s), None, variation=False)
    n = int(rng.integers(1, 3))
    for _ in range(n):
        gerabaldi.simulate(test, mdl, env)
    t2, m2, e2 = build(np.random.default_rng(s), None, variation=False)
    done = modify(np.random.default_rng(ms), test, env)
    modify(np.random.default_rng(ms), t2, e2)
    ctx.describe(simulations_before=n, modified=done, steps=steps_repr(test.steps), dims=(test.num_lots, test.num_chps))
    ctx.sig(s, ms)
    state = gerabaldi.gen_init_state(mdl, counts_of(test), test.num_chps, test.num_lots)
    a = results(gerabaldi.simulate(test, mdl, env, state))
    same(ctx, results(gerabaldi.simulate(t2, m2, e2, state)), a, 'an earlier simulation changes the results of modified objects', modified=done)
    # The same population, left to the simulator to generate
    auto, fresh = gerabaldi.simulate(test, mdl, env), gerabaldi.simulate(t2, m2, e2)
    for r in (auto, fresh):
        r.measurements = r.measurements.drop(columns='measured')
    same(ctx, results(fresh), results(auto), 'an earlier simulation changes what is measured of modified objects', modified=done)
    ctx.count('modified_tests')


def seeded(ctx, rng):
    """Equal seeds, equal results: nothing but the distributions' own streams is random."""
    s = seed(rng)
    auto = rng.random() < 0.6
    ctx.sig(s, auto)

    def run():
        test, mdl, env = build(np.random.default_rng(s), None)
        st = None if auto else gerabaldi.gen_init_state(mdl, counts_of(test), test.num_chps, test.num_lots)
        fp = fingerprint(test, mdl, env, st)
        r = results(gerabaldi.simulate(test, mdl, env, st))
        same(ctx, fp, fingerprint(test, mdl, env, st), 'simulate changed one of its inputs')
        ctx.describe(steps=steps_repr(test.steps), automatic=auto)
        return r

    a = run()
    np.random.seed(int(rng.integers(1 << 31)))
    random.seed(int(rng.integers(1 << 31)))
    if rng.random() < 0.5:
        t2, m2, e2 = build(np.random.default_rng(seed(rng)), None)
        gerabaldi.simulate(t2, m2, e2)
    same(ctx, a, run(), 'equally seeded simulations differ')


def faults(ctx, rng):
    s = seed(rng)
    tap = Tap()
    test, mdl, env = build(np.random.default_rng(s), tap, variation=False)
    auto = rng.random() < 0.3
    state = gerabaldi.gen_init_state(mdl, counts_of(test), test.num_chps, test.num_lots)
    fp = fingerprint(test, mdl, env, state)
    tap.n, tap.sites = 0, []
    ref = results(gerabaldi.simulate(test, mdl, env, state))
    total, sites = tap.n, list(tap.sites)
    if auto:            # abort points of a simulation that also generates its own state
        tap.n, tap.sites = 0, []
        gerabaldi.simulate(test, mdl, env)
        total, sites = tap.n, list(tap.sites)
    ctx.describe(steps=steps_repr(test.steps), callbacks=total, automatic=auto)
    ctx.count('abort_points', total)
    # All the first and last invocations, and a random choice of the others; each kind of callback at least once
    cap = 12 if ctx.tier == 'quick' else 60
    pts = {1, total} | {sites.index(k) + 1 for k in set(sites)}
    pts |= {int(x) for x in rng.integers(1, total + 1, cap)}
    for n in sorted(pts):
        exc = pick(rng, [Abort, InjectedFault] + [pick(rng, OTHERS)] * 3)(f'abort at callback {n}')
        tap.from_on = None
        if rng.random() < 0.3:      # an equation that cannot be evaluated any more, also not value by value
            exc, tap.from_on = pick(rng, [ValueError, TypeError, pick(rng, OTHERS)])(f'no value from callback {n} on'), sites[n - 1]
            ctx.count('persistent_errors')
        elif sites[n - 1] == 'single' and not auto and rng.random() < 0.6:      # nothing else is left to be tried for a single value
            exc = pick(rng, [ValueError, TypeError])(f'no value at callback {n}')
            ctx.count('single_value_errors')
        tap.n, tap.at, tap.exc, tap.sites, tap.raised = 0, n, exc, [], 0
        try:
            gerabaldi.simulate(test, mdl, env, None if auto else state)
            if not tap.raised:  # a newly generated state may need fewer callbacks
                ctx.count('abort_points_not_reached')
                continue
            raise Violation('an exception raised by a user callback was swallowed', callback=n, site=sites[n - 1])
        except Violation:
            raise
        except BaseException as e:
            ctx.check(tap.raised > 0, 'a simulation failed by itself', error=repr(e)[:200])
            ctx.check(e is exc, 'an exception raised by a user callback was replaced', callback=n, site=sites[n - 1])
        finally:
            tap.at = tap.from_on = None
        ctx.count('aborts_injected')
        ctx.count(f'aborts:{sites[n - 1]}')
        same(ctx, fp, fingerprint(test, mdl, env, state), 'an aborted simulation changed one of its inputs', callback=n, site=sites[n - 1])
        if rng.random() < 0.25 or n == max(pts):
            same(ctx, ref, results(gerabaldi.simulate(test, mdl, env, state)), 'results differ after an aborted simulation', callback=n, site=sites[n - 1])
    ctx.sig(s, sorted(pts))


QUICK = 4
KINDS = [('pure', pure, 60, 1500), ('evolving', evolving, 30, 1000), ('seeded', seeded, 40, 1000), ('faults', faults, 30, 300)]
MIN_OBSERVED = {'modified_tests': 60, 'fingerprints_compared': 400, 'aborts_injected': 200}
