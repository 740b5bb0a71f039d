"""C20: cookbook recipes build what they document, for every choice of their options, each call independently."""
import importlib
import numpy as np
from datetime import timedelta
from scipy import stats
from vp.gen import *
from gerabaldi.cookbook import htol, ideal_env, volt_and_temp_env, jedec_nbti_mdl
from gerabaldi.exceptions import UserConfigError

RULE = ('HTOL tests for random options (measurements, voltages, intervals that divide and do not divide, lengths, sizes, temperatures) checked step by step against the documented '
        'structure and executed on small populations; the NBTI model on random inputs and, statistically, on its latent variables; the prebuilt environments by what '
        'they do to conditions and readings. Distinct by options.')
ASSUMPTIONS = ['The NBTI equation is the one the repository\'s own test pins. Statistical monitors run on seeded streams with p > 1e-9.']
K_EV = 8.617e-5


def htol_spec(ctx, rng):
    kw = {}
    meas = {p: int(rng.integers(1, 6)) for p in ['vth', 'ring_osc', 'temp', 'vdd'] if rng.random() < 0.6} or {'ring_osc': 1}
    vdd, mult, dur, temp, chps, lots = 1.0, 1.2, 1000, 125, 77, 3
    if rng.random() < 0.7:
        kw['vdd_nom'] = vdd = float(rng.uniform(0.5, 3))
    if rng.random() < 0.7:
        kw['vdd_strs_mult'] = mult = float(rng.uniform(1, 2))
    if rng.random() < 0.7:
        kw['duration_override'] = dur = int(rng.integers(1, 5000)) if rng.random() < 0.5 else int(pick(rng, [1, 2, 10, 24, 168, 500, 2000]))
    if rng.random() < 0.7:
        kw['temp_override'] = temp = int(rng.integers(-40, 200))
    if rng.random() < 0.8:
        kw['num_chps_override'] = chps = int(rng.integers(1, 5))
    if rng.random() < 0.8:
        kw['num_lots_override'] = lots = int(rng.integers(1, 4))
    intr = 1000
    if rng.random() < 0.8:
        divs = [d for d in range(1, dur + 1) if dur % d == 0 and dur // d <= 60]
        intr = int(pick(rng, divs)) if rng.random() < 0.7 else int(rng.integers(1, 2 * dur + 1))
        kw['strs_meas_intrvl'] = intr
    ctx.describe(measure=meas, options=kw)
    ctx.sig(sorted(meas.items()), sorted(kw.items()))
    before = dict(meas)
    if intr < dur and dur % intr:
        try:
            htol(meas, **kw)
        except UserConfigError:
            ctx.count('rejected_intervals')
            return
        raise Violation('an interval that does not divide the test duration was accepted', interval=intr, duration=dur)
    test = htol(meas, **kw)
    ctx.equal(meas, before, 'the recipe changed the requested measurements')
    room = ('M', {'temp': 25 + 273.15, 'vdd': vdd})
    hot = ('M', {'temp': temp + 273.15, 'vdd': vdd * mult})
    if intr >= dur:
        want = [room, ('S', hot[1], timedelta(hours=dur)), room]
    else:
        want = [room, hot] + [('S', hot[1], timedelta(hours=intr)), hot] * (dur // intr) + [room]
    got = []
    for s in test.steps:
        if isinstance(s, StrsSpec):
            got.append(('S', s.conditions, s.duration))
        else:
            ctx.equal(dict(s.measurements), meas, 'a measurement of the test takes other samples than requested')
            got.append(('M', s.conditions))
    ctx.equal(len(got), len(want), 'number of steps differs from the documented structure', options=kw)
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.equal((g[0], g[2:]), (w[0], w[2:]), 'step differs from the documented structure', step=i)
        ctx.equal(sorted(g[1]), sorted(w[1]), 'conditions differ from the documented structure', step=i)
        for c in w[1]:
            ctx.close(g[1][c], w[1][c], 'condition differs from the documented structure', rel=1e-12, step=i, condition=c)
    ctx.equal((test.num_chps, test.num_lots), (chps, lots), 'number of chips and lots')
    ctx.check(bool(test.name) and bool(test.description), 'the test has no name or description')
    ctx.count('htol_steps', len(got))
    # A second test is not affected by the first one
    other = htol({'vth': 1}, duration_override=7, strs_meas_intrvl=7)
    ctx.equal([id(s) for s in test.steps], [id(s) for s in list(test)], 'another test changed this one')
    ctx.equal(len(other.steps), 3, 'another test has other steps')
    if len(got) <= 15 and chps * lots <= 12 and set(meas) <= {'vth', 'temp', 'vdd'}:
        mdl = DeviceMdl({'vth': DegPrmMdl({'nbti': jedec_nbti_mdl()}, InitValMdl(init_val=LatentVar(deter_val=0.3)))}, time_unit='h')
        rep = gerabaldi.simulate(test, mdl, ideal_env())
        ctx.equal(len(rep.test_summary), len(want), 'executed steps')
        ctx.equal(rep.test_summary['end time'].iloc[-1].to_pytimedelta(), timedelta(hours=dur), 'executed duration')
        ctx.count('executed_tests')


def nbti(ctx, rng):
    m = jedec_nbti_mdl()
    n = int(rng.integers(1, 6))
    a = {'a_0': rng.uniform(0.001, 0.01, n), 'e_aa': rng.uniform(-0.1, 0.1, n), 'alpha': rng.uniform(0.5, 4, n), 'n': rng.uniform(0.1, 0.4, n),
         'temp': rng.uniform(250, 450, n), 'vdd': rng.uniform(0.5, 2, n), 'time': 10 ** rng.uniform(-3, 7, n)}
    want = a['a_0'] * np.exp(a['e_aa'] / (K_EV * a['temp'])) * a['vdd'] ** a['alpha'] * a['time'] ** a['n']
    ctx.describe(inputs=a)
    ctx.sig(a['time'].tolist())
    ctx.close(m.compute(**a), want, 'the NBTI shift differs from its documented equation', rel=1e-9)
    for i in range(n):
        ctx.close(m.compute(**{k: float(v[i]) for k, v in a.items()}), want[i], 'the NBTI shift of a single device differs', rel=1e-9)
    ctx.equal(m.unitary, 0, 'an unstressed device has a shift')
    ctx.count('nbti_values', n)
    if ctx.index % 10 == 0:
        dims = (10, 15, 20)
        vals = m.gen_latent_vals(dims[2], dims[1], dims[0])
        dist = {'a_0': (0.006, 0.0002), 'e_aa': (0.05, 0.0002), 'alpha': (3.4, 0.004), 'n': (0.21, 0.005)}
        ctx.equal(sorted(vals), sorted(dist), 'latent variables of the NBTI model')
        for v, (mu, sg) in dist.items():
            p = stats.kstest(vals[v].ravel(), stats.norm(mu, sg).cdf).pvalue
            ctx.check(p > 1e-9, 'a latent variable of the NBTI model follows another distribution', variable=v, p=p, mean=vals[v].mean(), sd=vals[v].std())
            ctx.count('latent_distributions')
        m2 = jedec_nbti_mdl()
        v2 = m2.gen_latent_vals(5, 5, 5)
        ctx.check(all(not np.isin(v2[v].ravel(), vals[v].ravel()).any() for v in dist), 'two NBTI models share their latent variables')
        m2.latent_var('a_0').dev_vrtn_mdl.mu = 99
        ctx.equal(m.latent_var('a_0').dev_vrtn_mdl.mu, 0.006, 'two NBTI models share a distribution')


def parts(x, seen=None, path=''):
    """All mutable parts of a built object: instances of gerabaldi's classes, containers, generators."""
    seen = {} if seen is None else seen
    if id(x) in seen or isinstance(x, (str, int, float, type(None), timedelta, type, bool)) or callable(x) and not hasattr(x, '__dict__'):
        return seen
    own = type(x).__module__.partition('.')[0] == 'gerabaldi'
    if own or isinstance(x, (dict, list, np.ndarray, np.random.Generator)):
        seen[id(x)] = (path or type(x).__name__, x)
    if isinstance(x, dict):
        for k, v in x.items():
            parts(v, seen, f'{path}[{k!r}]')
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            parts(v, seen, f'{path}[{i}]')
    elif own or type(x).__name__ == 'SimpleNamespace':
        slots = [n for t in type(x).__mro__ for n in getattr(t, '__slots__', ())]
        for k in {*slots, *getattr(x, '__dict__', {})}:
            if hasattr(x, k):
                parts(getattr(x, k), seen, f'{path}.{k}')
    return seen


def independent(ctx, rng):
    """What two calls of a recipe build has no part in common that a user could change."""
    meas = {'vth': 2}
    recipes = {'jedec_nbti_mdl': jedec_nbti_mdl, 'ideal_env': ideal_env, 'volt_and_temp_env': volt_and_temp_env,
               'htol': lambda: htol(dict(meas), duration_override=10, strs_meas_intrvl=5)}
    name = list(recipes)[ctx.index % 4]
    a, b = parts(recipes[name]()), parts(recipes[name]())
    both = sorted(a[i][0] for i in set(a) & set(b))
    ctx.check(not both, 'two calls of a recipe share a part', recipe=name, parts=both[:5])
    ctx.count('parts', len(a) + len(b))
    ctx.describe(recipe=name)
    ctx.sig(name)


def envs(ctx, rng):
    e = ideal_env()
    conds = {'temp': float(rng.uniform(200, 500)), 'vdd': float(rng.uniform(0.1, 11)), 'x': float(rng.normal())}
    for c, v in conds.items():
        out = e.gen_env_cond_vals(conds, {c: 3})
        ctx.check((np.asarray(out[c][c]) == v).all(), 'an ideal environment varies a condition', condition=c)
        ctx.equal(e.meas_instm(c).measure(v), v, 'an ideal environment misreads a value')
    ctx.describe(conditions=conds)
    ctx.sig(conds['temp'])
    e = volt_and_temp_env()
    # Conditions: batch, chip and device variation by their documented magnitudes; temperature varies, other conditions are exact
    lots, chps, devs = 3, 40, 40
    vt, vv, vx = e.vrtn_mdl('temp'), e.vrtn_mdl('vdd'), e.vrtn_mdl('x')
    ctx.check((vx.gen_env_vrtns(conds['x'], devs, chps, lots) == conds['x']).all(), 'a condition without variation model varies')
    for mdl, base, (sd, sc) in ((vt, conds['temp'], (0.05, 0.2)), (vv, conds['vdd'], (0.0003, 0.0005))):
        v = mdl.gen_env_vrtns(base, devs, chps, lots)
        ctx.equal(np.shape(v), (lots, chps, devs), 'shape of the varied conditions')
        within = v - v.mean(axis=2, keepdims=True)
        p = stats.chi2.sf((within ** 2).sum() / sd ** 2, lots * chps * (devs - 1))
        ctx.check(1e-9 < p < 1 - 1e-9, 'device to device variation differs from its documented magnitude', p=p, sd=sd)
        m = v.mean(axis=2).ravel()
        p = stats.chi2.sf(((m - m.mean()) ** 2).sum() / (sc ** 2 + sd ** 2 / devs), m.size - 1)
        ctx.check(1e-9 < p < 1 - 1e-9, 'chip to chip variation differs from its documented magnitude', p=p, sd=sc)
        ctx.count('variation_tests', 2)
    b = np.array([float(np.ravel(vt.gen_batch_vrtn(300.0))[0]) for _ in range(300)])
    p = stats.kstest(b, stats.norm(300, 0.5).cdf).pvalue
    ctx.check(p > 1e-9, 'batch variation of the temperature differs from its documented magnitude', p=p)
    ctx.check(all(float(np.ravel(vv.gen_batch_vrtn(1.5))[0]) == 1.5 for _ in range(5)), 'the supply voltage varies between batches')
    # Instruments: Celsius thermometer with 0.2 K noise, voltmeter with 0.2 mV noise, both limited to their range
    t = rng.uniform(200, 500, 200)
    r = e.meas_instm('temp').measure(t)
    true = np.clip(t - 273.15, -40, 180)
    ctx.check(((r >= -40) & (r <= 180)).all(), 'temperature reading outside the range of the sensor')
    ctx.check((np.abs(r - true) <= 5 + 1.6).all(), 'temperature readings are not in Celsius', worst=float(np.max(np.abs(r - true))))
    v = rng.uniform(-1, 14, 200)
    r = e.meas_instm('vdd').measure(v)
    ctx.check(((r >= 0) & (r <= 12)).all(), 'voltage reading outside the range of the meter')
    ctx.check((np.abs(r - np.clip(v, 0, 12)) <= 0.05 + 0.0016).all(), 'voltage readings are off')
    ctx.equal(e.meas_instm('other').measure(0.123456789), 0.123456789, 'a parameter without instrument is misread')
    ctx.count('readings', 400)


MODULES = {
    'gerabaldi.models.test_specs': ['MeasSpec', 'StrsSpec', 'TestSpec'],
    'gerabaldi.models.devices': ['LatentVar', 'InitValMdl', 'CondShiftMdl', 'DegMechMdl', 'FailMechMdl', 'DegPrmMdl', 'CircPrmMdl', 'DeviceMdl'],
    'gerabaldi.models.phys_envs': ['MeasInstrument', 'EnvVrtnMdl', 'PhysTestEnv'],
    'gerabaldi.models.random_vars': ['Deterministic', 'Normal', 'Gamma', 'Uniform'],
    'gerabaldi.models.reports': ['SimReport'], 'gerabaldi.models.states': ['SimState'],
    'gerabaldi.cookbook.test_specs': ['htol'], 'gerabaldi.cookbook.test_envs': ['ideal_env', 'volt_and_temp_env'], 'gerabaldi.cookbook.mech_mdls': ['jedec_nbti_mdl'],
}


def interface(ctx, rng):
    """Star imports of the package and all its modules in random order bind the documented names to the same objects."""
    mods = list(MODULES) + ['gerabaldi.models', 'gerabaldi.cookbook', 'gerabaldi']
    order = [mods[i] for i in rng.permutation(len(mods))]
    ctx.describe(order=order)
    ctx.sig(order)
    for m in order:
        ns = {}
        try:
            exec(f'from {m} import *', ns)
        except (AttributeError, ImportError) as e:
            raise Violation('the names a module offers cannot be imported from it', module=m, error=repr(e))
        for sub, names in MODULES.items():
            if sub == m or m in (sub.rpartition('.')[0], 'gerabaldi'):
                own = importlib.import_module(sub)
                for n in names:
                    ctx.check(ns.get(n) is getattr(own, n), 'a documented name is not exported', module=m, name=n)
        ctx.count('star_imports')


KINDS = [('interface', interface, 3, 30), ('independent', independent, 4, 20), ('htol', htol_spec, 300, 8000), ('nbti', nbti, 100, 2000), ('envs', envs, 40, 800)]
MIN_OBSERVED = {'htol_steps': 1000, 'executed_tests': 5, 'rejected_intervals': 20, 'nbti_values': 200, 'latent_distributions': 30, 'variation_tests': 100}
