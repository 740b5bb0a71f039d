"""C10: a measured value is the device's true value shifted, for that instant only, by the actual measurement conditions."""
import numpy as np
from vp.gen import *
from vp.coded import Coded, Varied

RULE = ('Random parameters with conditional shift models (several conditions, several latents, custom neutral values, additive and '
        'multiplicative combination), histories of stress and measurements under hot, cold and neutral conditions, with and without systematic '
        'environment offsets. Every reading is compared with the shift model evaluated on the device\'s own latents and the actual '
        'conditions. Non-trivial: the shift is not neutral; distinct by model, dims and conditions.')
ASSUMPTIONS = ['Parameter equations return their initial value when all else is neutral (as the documented unitary values require).']


class Shift:
    def __init__(self, rng):
        self.form = pick(rng, ['add1', 'add2', 'mul1', 'mul2', 'exp', 'weighted', 'add3', 'none'])
        self.u = {'add1': 0, 'add2': pick(rng, [0, 0.0, 3.5]), 'mul1': 1, 'mul2': pick(rng, [1.0, 2.0]), 'exp': 1.0, 'weighted': 0, 'add3': 0, 'none': pick(rng, [0, 1])}[self.form]
        self.lat = {'tc': mk_latent(rng, loguni(rng, 1e-4, 1e-2))}
        if self.form in ('add2', 'mul2', 'add3'):
            self.lat['vc'] = mk_latent(rng, float(rng.uniform(0.01, 0.3)))
        if self.form == 'none':
            self.lat = {}
        if self.form == 'add3':
            self.lat |= {'wc': mk_latent(rng, float(rng.uniform(0.01, 0.3))), 'xc': mk_latent(rng, float(rng.uniform(0.01, 0.3)))}
        self.prm_lat = {'k': mk_latent(rng, 1.5)} if self.form == 'weighted' else {}

    def val(self, temp, vdd, tc=None, vc=None, wc=None, xc=None):
        f, u = self.form, self.u
        if f == 'add3':
            return tc * (temp - 300) + (vc - wc * (temp - 300) / 100) * (vdd - 1) + xc * (vdd - 1) ** 2
        if f in ('add1', 'weighted'):
            return u + tc * (temp - 300)
        if f == 'add2':
            return u + tc * (temp - 300) + vc * (vdd - 1) ** 2
        if f == 'mul1':
            return u * (1 + tc * (temp - 300))
        if f == 'mul2':
            return u * (1 + tc * (temp - 300)) * (1 + vc * (vdd - 1))
        if f == 'exp':
            return np.exp(-tc * (temp - 300))
        return u

    def shift_model(self):
        f, v, u = self.form, self.val, self.u
        if f == 'none':
            return CondShiftMdl(unitary_val=u)
        if f in ('add1', 'weighted', 'mul1'):
            return CondShiftMdl(lambda temp, tc: v(temp, None, tc), unitary_val=u, **self.lat)
        if f == 'exp':
            return CondShiftMdl(lambda tc, temp: v(temp, None, tc), unitary_val=u, **self.lat)
        if f == 'add3':
            return CondShiftMdl(lambda vc, vdd, temp, xc, tc, wc: v(temp, vdd, tc, vc, wc, xc), unitary_val=u, **self.lat)
        return CondShiftMdl(lambda vc, vdd, temp, tc: v(temp, vdd, tc, vc), unitary_val=u, **self.lat)

    def comb(self, init, cond, mech, k=None):
        f, u = self.form, self.u
        if f in ('mul1', 'mul2', 'exp') or (f == 'none' and u == 1):
            return init * (cond / u) + mech
        if f == 'weighted':
            return init + k * cond + mech
        return init + (cond - u) + mech

    def prm(self, rng, mech):
        c = self.comb
        if self.form == 'weighted':
            eqn = lambda init, cond, mech, k: c(init, cond, mech, k)
        elif self.form in ('add1',) and rng.random() < 0.5:
            eqn = None
        else:
            eqn = lambda mech, init, cond: c(init, cond, mech)
        mechs = {'mech': mech}
        if rng.random() < 0.25:
            # Another mechanism, with another neutral value, that does not progress
            o = pick(rng, [1, 1.0, 2.5])
            old, other = eqn, DegMechMdl(unitary_val=o, time_unit='h')
            mechs = {'mech': mech, 'other': other} if rng.random() < 0.5 else {'other': other, 'mech': mech}
            if self.form == 'weighted':
                eqn = lambda init, cond, mech, k, other: c(init * other / o, cond, mech, k)
            else:
                eqn = lambda other, mech, init, cond: c(init * other / o, cond, mech)
        return DegPrmMdl(mechs, InitValMdl(pick(rng, [None, None, None, lambda init_val: -init_val]), init_val=mk_latent(rng, float(rng.uniform(0.5, 5)), 0.2)), self.shift_model(), eqn, **self.prm_lat)


def build(rng, ctx, mech):
    specs = {p: Shift(rng) for p in ['vth', 'ids'][:int(rng.integers(1, 3))]}
    mdl = DeviceMdl({p: s.prm(rng, mech()) for p, s in specs.items()})
    lots, chps = mk_dims(rng)
    many = rng.random() < 0.05
    cnt = {p: int(rng.integers(1, 5)) if not many else int(rng.integers(8, 300)) for p in specs}
    state = gerabaldi.gen_init_state(mdl, dict(cnt), chps, lots)
    off = {c: float(rng.uniform(-5, 5)) * s if rng.random() < 0.4 else 0.0 for c, s in (('temp', 1), ('vdd', 0.02))}
    env = PhysTestEnv({c: EnvVrtnMdl(Deterministic(o)) for c, o in off.items() if o})
    return specs, mdl, lots, chps, cnt, state, off, env


def expected(s, state, p, true, conds, off, n):
    sl = (slice(None), slice(None), slice(0, n))
    lat = state.latent_var_vals[p]
    cond = s.val(conds['temp'] + off['temp'], conds['vdd'] + off['vdd'], **{v: a[sl] for v, a in lat['cond'].items()})
    return np.broadcast_to(s.comb(true[sl], cond, 0.0, lat['k'][sl] if s.form == 'weighted' else None), true[sl].shape)


def fresh(ctx, rng):
    """Unstressed devices: the reading follows from the initial value, measured under any sequence of conditions."""
    specs, mdl, lots, chps, cnt, state, off, env = build(rng, ctx, lambda: DegMechMdl(lambda time, temp: 1e-3 * time * temp / 300, time_unit='h'))
    steps, want = [], []
    for i in range(int(rng.integers(2, 7))):
        c = {'temp': pick(rng, [300.0, float(rng.uniform(230, 450))]), 'vdd': pick(rng, [1.0, float(rng.uniform(0.3, 2))]), 'rate': 1.0}
        m = {p: int(rng.integers(1, cnt[p] + 1)) for p in cnt if rng.random() < 0.8} or dict(cnt)
        if rng.random() < 0.1:
            c = {**c, pick(rng, ['tc', 'vc']): 99.5}    # a condition with the name of a latent variable is another thing
        steps.append(MeasSpec(m, c, f'm{i}'))
        want.append((m, c))
    ctx.describe(forms={p: (s.form, s.u) for p, s in specs.items()}, dims=(lots, chps, cnt), offsets=off, steps=steps_repr(steps))
    ctx.sig([(s.form, s.u) for s in specs.values()], lots, chps, cnt, [c for _, c in want])
    rep = gerabaldi.simulate(TestSpec(steps, chps, lots), mdl, env, state)
    for i, (m, c) in enumerate(want):
        for p, n in m.items():
            ctx.close(meas_array(ctx, rep, p, i, (lots, chps, n)), expected(specs[p], state, p, np.asarray(state.init_prm_vals[p], dtype=float), c, off, n),
                      'reading differs from the true value shifted by the conditions', rel=1e-12, param=p, step=i, conditions=c)
            ctx.count('fresh_readings', lots * chps * n)


def stressed(ctx, rng):
    """Stressed devices: readings under different conditions imply the same true value, before and after more stress."""
    a = float(loguni(rng, 1e-4, 1e-2))
    specs, mdl, lots, chps, cnt, state, off, env = build(rng, ctx, lambda: DegMechMdl(lambda time, temp: a * time ** 0.5 * temp / 300, time_unit='h'))
    if rng.random() < 0.5:
        off = {'temp': 0.0, 'vdd': 0.0}
        env = PhysTestEnv()
    ref = {'temp': 300.0 - off['temp'], 'vdd': 1.0 - off['vdd']}
    steps, marks = [], []
    for i in range(int(rng.integers(1, 4))):
        steps.append(StrsSpec({'temp': float(rng.uniform(300, 400)), 'vdd': 1.2}, mk_dur(rng, 1, 500), f's{i}'))
        ms = [ref] + [{'temp': float(rng.uniform(230, 450)), 'vdd': float(rng.uniform(0.3, 2))} for _ in range(int(rng.integers(1, 4)))] + ([ref] if rng.random() < 0.5 else [])
        base = len(steps)
        counts = [dict(cnt)] + [{p: int(rng.integers(1, cnt[p] + 1)) for p in cnt} for _ in ms[1:]]
        marks.append((base, ms, counts))
        steps += [MeasSpec(k, c) for k, c in zip(counts, ms)]
    ctx.describe(forms={p: (s.form, s.u) for p, s in specs.items()}, dims=(lots, chps, cnt), offsets=off, steps=steps_repr(steps))
    ctx.sig([(s.form, s.u) for s in specs.values()], lots, chps, cnt, [c for _, ms, _ in marks for c in ms])
    rep = gerabaldi.simulate(TestSpec(steps, chps, lots), mdl, env, state)
    # The same test with readings at neutral conditions only: what is measured never changes what happens to the device
    plain = [s for s in steps if isinstance(s, StrsSpec)]
    for base, ms, counts in marks:
        for p, s in specs.items():
            true = meas_array(ctx, rep, p, base, (lots, chps, cnt[p]))
            ctx.check((true > np.asarray(state.init_prm_vals[p], dtype=float)).all(), 'stress left no degradation to observe', param=p)
            for i, c in enumerate(ms):
                n = counts[i][p]
                ctx.close(meas_array(ctx, rep, p, base + i, (lots, chps, n)), expected(s, state, p, true, c, off, n),
                          'readings of one instant under different conditions imply different true values', rel=1e-9, param=p, step=base + i, conditions=c)
                ctx.count('stressed_readings', lots * chps * n)
    ref_steps = []
    for st, (base, ms, counts) in zip(plain, marks):
        ref_steps += [st, MeasSpec(dict(cnt), ref)]
    rep2 = gerabaldi.simulate(TestSpec(ref_steps, chps, lots), mdl, env, state)
    for i, (base, ms, counts) in enumerate(marks):
        for p in specs:
            ctx.close(meas_array(ctx, rep, p, base, (lots, chps, cnt[p])), meas_array(ctx, rep2, p, 2 * i + 1, (lots, chps, cnt[p])),
                      'the conditions of a measurement change later readings', rel=1e-9, param=p)


def varied(ctx, rng):
    """Every device is read under its own actual conditions."""
    lots, chps = mk_dims(rng)
    v = Varied(rng, lots, chps)
    n = int(rng.integers(1, 5))
    single = rng.random() < 0.4
    shift = (lambda temp, z: temp + z if temp > 0 else None) if single else (lambda temp, z: temp + z)
    mdl = DeviceMdl({'p': DegPrmMdl({'m': DegMechMdl(lambda time, q: 0 * time * q, time_unit='h')}, InitValMdl(lambda c: 1000 * c, c=LatentVar(Coded('int', 1))),
                                    CondShiftMdl(shift, unitary_val=0, z=LatentVar(deter_val=0.0)))})
    st = gerabaldi.gen_init_state(mdl, {'p': n}, chps, lots)
    code = np.asarray(st.init_prm_vals['p']) / 1000
    steps = []
    for i in range(int(rng.integers(1, 4))):
        steps.append(MeasSpec({'p': int(rng.integers(1, n + 1))}, {'temp': float(rng.uniform(290, 310)), 'q': 1.0}))
        if rng.random() < 0.4:
            steps.append(StrsSpec({'q': 1.0, 'temp': 500.0}, mk_dur(rng, 1, 100)))
    ctx.describe(layers=v.used, dims=(lots, chps, n), single_value=single, steps=steps_repr(steps))
    ctx.sig(v.used, lots, chps, n, single, len(steps))
    rep = gerabaldi.simulate(TestSpec(steps, chps, lots), mdl, v.env, st)
    for i, s in enumerate(steps):
        if isinstance(s, MeasSpec):
            k = s.measurements['p']
            v.verify(ctx, meas_array(ctx, rep, 'p', i, (lots, chps, k)), code[:, :, :k], s.conditions['temp'], i, 'p')


def several(ctx, rng):
    """Readings composed, digit by digit, of every condition the device was read under: each is the device's own."""
    lots, chps = mk_dims(rng, (2, 3))
    n = int(rng.integers(1, 5))
    k = int(rng.integers(1, 5))
    names = ['ca', 'cb', 'cc', 'cd'][:k]
    layer = {c: pick(rng, ['dev', 'dev', 'chp', 'batch', 'none']) for c in names}
    env = PhysTestEnv({c: EnvVrtnMdl(**{f'{v}_vrtn_mdl': Coded('int', 1)}) for c, v in layer.items() if v != 'none'})
    single = rng.random() < 0.3
    s = [1000.0 ** i for i in range(5)]
    shift = [(lambda z, ca: s[0] * ca + z), (lambda cb, z, ca: s[0] * ca + s[1] * cb + z), (lambda cc, ca, cb, z: s[0] * ca + s[1] * cb + s[2] * cc + z),
             (lambda cd, cc, ca, z, cb: s[0] * ca + s[1] * cb + s[2] * cc + s[3] * cd + z)][k - 1]
    if single:
        shift = [(lambda z, ca: s[0] * ca + z if ca >= 0 else None), (lambda cb, z, ca: s[0] * ca + s[1] * cb + z if cb >= 0 else None),
                 (lambda cc, ca, cb, z: s[0] * ca + s[1] * cb + s[2] * cc + z if cc >= 0 else None),
                 (lambda cd, cc, ca, z, cb: s[0] * ca + s[1] * cb + s[2] * cc + s[3] * cd + z if cd >= 0 else None)][k - 1]
    mdl = DeviceMdl({'p': DegPrmMdl({'m': DegMechMdl(lambda time, q: 0 * time * q, time_unit='h')}, InitValMdl(lambda c: s[4] * c, c=LatentVar(Coded('int', 1))),
                                    CondShiftMdl(shift, unitary_val=0, z=LatentVar(deter_val=0.0)))})
    st = gerabaldi.gen_init_state(mdl, {'p': n}, chps, lots)
    code = np.round(np.asarray(st.init_prm_vals['p']) / s[4])
    steps = []
    for i in range(int(rng.integers(1, 4))):
        base = {c: 0 if layer[c] != 'none' else int(rng.integers(0, 900)) for c in names}
        order = list(names) + ['q']
        rng.shuffle(order)
        steps.append(MeasSpec({'p': int(rng.integers(1, n + 1))}, {c: {**base, 'q': 1.0}[c] for c in order}))
        if rng.random() < 0.3:
            steps.append(StrsSpec({'q': 1.0}, mk_dur(rng, 1, 100)))
    ctx.describe(layers=layer, dims=(lots, chps, n), single_value=single, steps=steps_repr(steps))
    ctx.sig(layer, lots, chps, n, single, len(steps))
    rep = gerabaldi.simulate(TestSpec(steps, chps, lots), mdl, env, st)
    used = {c: [] for c in names}
    for i, stp in enumerate(steps):
        if not isinstance(stp, MeasSpec):
            continue
        m = stp.measurements['p']
        rest = meas_array(ctx, rep, 'p', i, (lots, chps, m))
        ctx.check((rest == np.round(rest)).all(), 'a reading is not composed of the conditions', step=i, reading=rest)
        for c in names:
            got = rest % 1000
            rest = np.floor(rest / 1000)
            d = dict(step=i, condition=c, layer=layer[c], got=got)
            if layer[c] == 'none':
                ctx.check((got == stp.conditions[c]).all(), 'the exact condition of a reading is not the specified one', **d)
                continue
            ctx.check((got >= 1).all(), 'a device was read under a condition without its variation', **d)
            g = got if layer[c] == 'dev' else got[:, :, :1] if layer[c] == 'chp' else got[:1, :1, :1]
            ctx.check((got == g).all(), 'devices that share a variation were read under different conditions', **d)
            used[c].extend(g.ravel().tolist())
        for _ in range(4 - k):
            rest = np.floor(rest / 1000)
        ctx.equal(rest.tolist(), code[:, :, :m].tolist(), 'a reading belongs to another device', step=i)
        ctx.count('composed_readings', rest.size)
    for c, u in used.items():
        ctx.check(len(set(u)) == len(u), 'readings that have a variation of their own were read under the same one', condition=c, layer=layer[c])


KINDS = [('several', several, 80, 2500), ('varied', varied, 100, 3000), ('fresh', fresh, 250, 8000), ('stressed', stressed, 80, 2500)]
MIN_OBSERVED = {'composed_readings': 1000, 'fresh_readings': 4000, 'stressed_readings': 1500, 'varied_readings': 1000}
