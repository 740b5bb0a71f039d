"""C15: equations written for single values give the same results as equations written for arrays, for any population."""
import math
import numpy as np
from datetime import timedelta
from vp.gen import *

RULE = ('Random devices in two renditions of the same equations, once for arrays, once usable with single values only (branches, math module, '
        'int/float/max, comparisons chained), independently chosen for initial values, mechanisms, failures, shifts, parameters and circuits, with the same '
        'seeds, on populations from a single device upwards and with partial measurements. All results are compared. Parameters declared as not array computable '
        'must only ever see single values. Distinct by rendition, population and steps.')
ASSUMPTIONS = ['Single-value equations fail on arrays with TypeError or ValueError, as Python and NumPy raise.']


def clip0(x):
    return np.maximum(x, 0)


# name -> (array rendition, single-value renditions)
INIT = (lambda v, w: np.where(v > 1, v, 1) + np.exp(-w),
        [lambda v, w: (v if v > 1 else 1) + math.exp(-w), lambda v, w: max(v, 1) + np.exp(-w), lambda w, v: float(v if 1 < v < 1e9 else 1) + math.e ** -float(w), lambda v, w: math.exp(-w) + (v if v > 1 else 1)])
MECH = (lambda time, temp, a, n: a * np.exp((temp - 350) / 60) * time ** n,
        [lambda time, temp, a, n: a * math.exp((temp - 350) / 60) * time ** n, lambda n, time, a, temp: float(a) * math.pow(time, n) * math.exp((temp - 350) / 60),
         lambda temp, a, n, time: a * np.exp((temp - 350) / 60) * time ** n if time > 0 else 0.0])
THR = (lambda time, vdd, a, thr: a * clip0(vdd - thr) * time ** 0.5,
       [lambda time, vdd, a, thr: a * max(vdd - thr, 0) * math.sqrt(time), lambda time, vdd, a, thr: 0 if vdd <= thr else a * (vdd - thr) * time ** 0.5])
FAIL = (lambda time, vdd, lim: np.where(time * vdd > lim, 0.25, 0.0),
        [lambda time, vdd, lim: 0.25 if time * vdd > lim else 0, lambda time, lim, vdd: 0.25 * int(math.copysign(0.5, time * vdd - lim) + 0.5)])
COND = (lambda temp, tc: np.where(temp > 300, tc * (temp - 300), 0.0),
        [lambda temp, tc: tc * (temp - 300) if temp > 300 else 0, lambda tc, temp: tc * max(temp - 300, 0), lambda tc, temp: math.fabs(float(tc)) * max(float(temp) - 300, 0.0)])
PRM = (lambda init, cond, m, t, f, k: init + cond + (m + t) * k + f,
       [lambda init, cond, m, t, f, k: init + cond + math.fsum([m, t]) * k + f, lambda init, cond, m, t, f, k: (init + cond + (m + t) * k + f) if k > 0 else 0,
        lambda f, k, init, t, m, cond: float(init) + float(cond) + (m + t) * k + f])
CIRC = (lambda p, temp, g: np.where(p > 2, g * p, p / g) * temp / 300,
        [lambda p, temp, g: (g * p if p > 2 else p / g) * temp / 300, lambda g, temp, p: (math.prod([g, p]) if p > 2 else p / g) * (temp / 300),
         lambda p, temp, g: (0 * math.fabs(g) + (g * p if p > 2 else p / g)) * temp / 300])


class Seen:
    def __init__(self):
        self.n, self.array = 0, 0

    def wrap(self, f):
        # Keeps the signature, which the equation's inputs are found by
        import functools

        @functools.wraps(f)
        def g(**kw):
            self.n += 1
            if any(np.ndim(v) for v in kw.values()):
                self.array += 1
            return f(**kw)
        return g


def build(rng, scalar, picks, seen, not_array):
    def eq(name, pair):
        return pair[1][picks[name] % len(pair[1])] if name in scalar else pair[0]

    prm = eq('prm', PRM)
    if not_array:
        prm = seen.wrap(prm)
    mechs = {'m': DegMechMdl(eq('mech', MECH), time_unit='h', a=mk_latent(rng, 1e-3), n=mk_latent(rng, 0.5, 0.02)),
             't': DegMechMdl(eq('thr', THR), time_unit='s', a=mk_latent(rng, 1e-5), thr=mk_latent(rng, 1.0, 0.3)),
             'f': FailMechMdl(eq('fail', FAIL), time_unit='h', lim=mk_latent(rng, 100.0, 0.5))}
    return DeviceMdl({
        'p': DegPrmMdl(mechs, InitValMdl(eq('init', INIT), v=mk_latent(rng, 1.0, 0.5), w=mk_latent(rng, 0.7)), CondShiftMdl(eq('cond', COND), tc=mk_latent(rng, 1e-3)),
                       prm, array_computable=not not_array, k=mk_latent(rng, 1.3)),
        'c': CircPrmMdl(eq('circ', CIRC), g=mk_latent(rng, 1.5)),
    })


def equivalent(ctx, rng):
    sites = ['init', 'mech', 'thr', 'fail', 'cond', 'prm', 'circ']
    scalar = [s for s in sites if rng.random() < 0.4] or [pick(rng, sites)]
    picks = {s: int(rng.integers(6)) for s in sites}
    not_array = rng.random() < 0.4
    s = seed(rng)
    seen = Seen()
    m1 = build(np.random.default_rng(s), [], picks, Seen(), False)
    m2 = build(np.random.default_rng(s), scalar, picks, seen, not_array)
    lots, chps, n = pick(rng, [(1, 1, 1), (1, 1, 2), (2, 1, 1), (1, 3, 1), (int(rng.integers(1, 3)), int(rng.integers(1, 3)), int(rng.integers(1, 4)))])
    if rng.random() < 0.015:
        lots, chps, n = pick(rng, [(1, 1, int(rng.integers(50, 150))), (1, int(rng.integers(30, 70)), 2), (int(rng.integers(30, 70)), 1, 1)])
    cnt = {'p': n, 'c': int(rng.integers(1, n + 1))}
    st1 = gerabaldi.gen_init_state(m1, dict(cnt), chps, lots)
    st2 = gerabaldi.gen_init_state(m2, dict(cnt), chps, lots)
    ctx.equal(np.shape(st2.init_prm_vals['p']), (lots, chps, n), 'initial values have another shape')
    ctx.close(st2.init_prm_vals['p'], st1.init_prm_vals['p'], 'initial values differ', rel=1e-12)
    steps = []
    for i in range(int(rng.integers(1, 4))):
        temp = lambda: pick(rng, [290.0, 300, 310, 353, float(rng.uniform(295, 400))])
        steps.append(MeasSpec({'p': int(rng.integers(1, n + 1)), 'c': int(rng.integers(1, cnt['c'] + 1))}, {'temp': temp(), 'vdd': 1.0}))
        steps.append(StrsSpec({'temp': temp(), 'vdd': pick(rng, [1, 2, float(rng.uniform(0.7, 1.6)), float(rng.uniform(0.7, 1.6))])}, mk_dur(rng, 1, 150)))
    steps.append(MeasSpec(dict(cnt), {'temp': 350.0, 'vdd': 1.0}))
    ctx.describe(single_value=scalar, renditions=picks, not_array=not_array, dims=(lots, chps, cnt), steps=steps_repr(steps))
    ctx.sig(scalar, picks, not_array, lots, chps, cnt, len(steps))
    test = TestSpec(steps, chps, lots)
    varied = rng.random() < 0.5
    es = [seed(rng) for _ in range(5)]

    def env():
        if not varied:
            return PhysTestEnv()
        return PhysTestEnv({'temp': EnvVrtnMdl(Normal(0, 2, test_seed=es[0]), Normal(0, 2, test_seed=es[1]), Normal(0, 1, test_seed=es[2])),
                            'vdd': EnvVrtnMdl(Uniform(0.98, 1.02, test_seed=es[3]), Uniform(0.98, 1.02, test_seed=es[4]), vrtn_type='scaling')})

    r1 = gerabaldi.simulate(test, m1, env(), st1)
    r2 = gerabaldi.simulate(test, m2, env(), st2)
    fresh = True
    for i, sp in enumerate(steps):
        if isinstance(sp, StrsSpec):
            fresh = False
            continue
        for q, k in sp.measurements.items():
            a, b = meas_array(ctx, r1, q, i, (lots, chps, k)), meas_array(ctx, r2, q, i, (lots, chps, k))
            # The equivalent time search magnifies the last digits of an equation, within its documented precision
            ctx.close(b, a, 'single-value equations give other results than array equations', rel=1e-12 if fresh else 1e-6, abs_=0 if fresh else 5e-4 * 0.1, param=q, step=i, single_value=scalar)
            ctx.count('values_of_single_value_equations', a.size)
    if lots * chps * n == 1:
        ctx.count('single_device_populations')
    if not_array:
        ctx.check(seen.n > 0, 'harness: the parameter equation was never used')
        ctx.equal(seen.array, 0, 'an equation declared not array computable was given arrays')
        ctx.count('single_value_calls', seen.n)


def constants(ctx, rng):
    """Equations may return one and the same value for all devices."""
    lots, chps = mk_dims(rng)
    n = int(rng.integers(1, 4))
    # Any form of a number
    num = pick(rng, [float, np.float64, np.float32, int, np.int64, np.int8, np.array, lambda x: np.array(int(x)), lambda x: np.bool_(x > 1)])
    v0, sh, cc, pc = (num(float(rng.integers(2, 9)) / 4 if rng.random() < 0.5 else float(rng.integers(1, 5))) for _ in range(4))
    which = pick(rng, ['init', 'cond', 'prm', 'circ'])
    mech = DegMechMdl(time_unit='h')
    init = InitValMdl((lambda: v0) if which == 'init' else (lambda v: v), **({} if which == 'init' else {'v': LatentVar(Uniform(1, 2, test_seed=seed(rng)))}))
    cond = CondShiftMdl(pick(rng, [lambda temp: sh, lambda: sh]) if which == 'cond' else None)
    prm = (lambda init, cond, d: pc) if which == 'prm' else None
    mdl = DeviceMdl({'p': DegPrmMdl({'d': mech}, init, cond, prm), 'c': CircPrmMdl((lambda p: cc) if which == 'circ' else (lambda p: p + 1))})
    state = gerabaldi.gen_init_state(mdl, {'p': n, 'c': n}, chps, lots)
    steps = [MeasSpec({'p': n, 'c': n}, {'temp': 300.0}), StrsSpec({'temp': 350.0}, mk_dur(rng, 1, 100)), MeasSpec({'p': n, 'c': n}, {'temp': 300.0})]
    ctx.describe(constant=which, values=[repr(x) for x in (v0, sh, cc, pc)], dims=(lots, chps, n))
    ctx.sig(which, lots, chps, n, repr((v0, sh, cc, pc)[['init', 'cond', 'circ', 'prm'].index(which)]))
    rep = gerabaldi.simulate(TestSpec(steps, chps, lots), mdl, PhysTestEnv(), state)
    i0 = np.broadcast_to(np.asarray(state.init_prm_vals['p'], dtype=float), (lots, chps, n))
    if which == 'init':
        ctx.close(i0, np.full(i0.shape, float(v0)), 'constant initial value differs')
    for i in (0, 2):
        true = i0
        if which == 'prm' and i == 2:
            true = np.full(i0.shape, float(pc))
        want = np.full(i0.shape, float(pc)) if which == 'prm' else true + (float(sh) if which == 'cond' else 0)
        ctx.close(meas_array(ctx, rep, 'p', i, (lots, chps, n)), want, 'a constant equation is not applied to all devices', rel=1e-12, step=i, constant=which)
        ctx.close(meas_array(ctx, rep, 'c', i, (lots, chps, n)), np.full(i0.shape, float(cc)) if which == 'circ' else true + 1, 'a constant equation is not applied to all devices', rel=1e-12, step=i, constant=which)
        ctx.count('constant_results', 2 * i0.size)


def integers(ctx, rng):
    """Single-value equations of integers: latent variables, conditions and neutral values without any fraction."""
    li = lambda *vals: LatentVar(deter_val=int(pick(rng, vals)))
    a, b, w, u = li(2, 3, 5), li(2, 3, 7), li(3, 11), li(2, 3)
    lots, chps = mk_dims(rng)
    n = int(rng.integers(1, 4))
    cu = int(pick(rng, [0, 1]))
    mdl = DeviceMdl({'p': DegPrmMdl({'m': DegMechMdl(lambda time, temp, b: math.sqrt(b * temp) * time / 1000 if b > 0 else 0, unitary_val=0, time_unit='h', b=b)},
                                    InitValMdl(lambda a: math.sqrt(a) if a > 1 else 1, a=a), CondShiftMdl(lambda temp, w: cu + math.log(temp / 300) / w if w > 0 else 0, unitary_val=cu, w=w),
                                    lambda init, cond, m: math.fsum([init, cond - cu, m])),
                     'c': CircPrmMdl(lambda p, temp, u: math.exp(-p / u) * temp if u > 1 else 0, u=u)})
    st = gerabaldi.gen_init_state(mdl, {'p': n, 'c': n}, chps, lots)
    t0, t1, h = (int(x) for x in (rng.integers(290, 400), rng.integers(290, 400), rng.integers(1, 500)))
    k = int(rng.integers(1, n + 1))
    steps = [MeasSpec({'p': k, 'c': k}, {'temp': t0}), StrsSpec({'temp': t1}, timedelta(hours=h)), MeasSpec({'p': n, 'c': k}, {'temp': t0})]
    ctx.describe(dims=(lots, chps, n, k), temps=(t0, t1), h=h, latents=[v.deter_val for v in (a, b, w, u)], neutral=cu)
    ctx.sig(lots, chps, n, k, t0, t1, h)
    rep = gerabaldi.simulate(TestSpec(steps, chps, lots), mdl, PhysTestEnv(), st)
    sh = math.log(t0 / 300) / w.deter_val
    for i, m, d in ((0, k, 0.0), (2, n, math.sqrt(b.deter_val * t1) * h / 1000)):
        p = math.sqrt(a.deter_val) + d
        tol = 0 if i == 0 else 2e-3 * d / h + 1e-12
        ctx.close(meas_array(ctx, rep, 'p', i, (lots, chps, m)), np.full((lots, chps, m), p + sh), 'an equation of integers gives another result', rel=1e-12, abs_=tol, step=i)
        ctx.close(meas_array(ctx, rep, 'c', i, (lots, chps, k)), np.full((lots, chps, k), math.exp(-p / u.deter_val) * t0), 'an equation of integers gives another result', rel=1e-12, abs_=tol * t0, step=i)
        ctx.count('integer_results', lots * chps * (m + k))


KINDS = [('integers', integers, 60, 1000), ('equivalent', equivalent, 70, 1500), ('constants', constants, 100, 1500)]
MIN_OBSERVED = {'values_of_single_value_equations': 500, 'single_device_populations': 8, 'single_value_calls': 100, 'constant_results': 500}
