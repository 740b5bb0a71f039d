"""C03: degradation accumulates over changing stress via the equivalent stress time."""
import numpy as np
from datetime import timedelta
from vp.gen import *

RULE = ('Random devices (1-3 parameters, 1-2 mechanisms each from 7 analytically invertible families, all time units, latent '
        'variation at device/chip/lot level) taken through random sequences of stress phases; after every phase every device is '
        'measured and compared with the interval of an analytic equivalent-time reference. Non-trivial: at least two phases with '
        'different conditions, or a split phase; distinct by families, combination, dims and number of phases.')
ASSUMPTIONS = ['Latent and initial values of each device are read from the public SimState (their distribution is C07/C18).',
               'Equivalent times are granted a relative error of 1e-4 and a floor of 1.02e-3 of the mechanism time unit.']


def build(rng, ctx, **kw):
    dev_unit = pick(rng, [None, None, 'h', 's', 'd', 'ms'])
    names = ['vth', 'idsat', 'ioff'][: int(rng.integers(1, 4))]
    prms = {}
    for p in names:
        prms[p] = Prm(rng, unit=pick(rng, [None, None, 'h', 's']), dev_unit=dev_unit, mech_units=rng.random() < 0.4, **kw)
    mdl = DeviceMdl({p: s.model() for p, s in prms.items()}, time_unit=dev_unit)
    lots, chps = mk_dims(rng)
    counts = {p: int(rng.integers(1, 5)) for p in names}
    return prms, mdl, lots, chps, counts


def ref_run(ctx, prms, state, steps):
    """Reference intervals of each measured parameter by step number."""
    ref = {p: RefPrm(s, state, p) for p, s in prms.items()}
    out = {}
    for i, s in enumerate(steps):
        if isinstance(s, StrsSpec):
            for r in ref.values():
                r.stress(s.conditions, hours(s.duration), ctx)
        else:
            for p in s.measurements:
                if p in ref:
                    out[i, p] = ref[p].measure(s.conditions, s.measurements[p])
    return out


def compare(ctx, rep, steps, out, lots, chps, what):
    for (i, p), (lo, hi) in out.items():
        got = meas_array(ctx, rep, p, i, (lots, chps, steps[i].measurements[p]))
        ctx.count('measurements_checked', int(got.size))
        ctx.within(got, lo, hi, what, param=p, step=i)


def sequences(ctx, rng):
    prms, mdl, lots, chps, counts = build(rng, ctx)
    state = gerabaldi.gen_init_state(mdl, dict(counts), chps, lots)
    pool = [mk_conds(rng) for _ in range(int(rng.integers(1, 4)))]
    steps = []
    n = int(rng.integers(2, 9))
    for i in range(n):
        c = pick(rng, pool) if rng.random() < 0.5 else mk_conds(rng)
        if rng.random() < 0.1:
            # a condition that happens to have the name of a latent variable is another thing
            c = {**c, pick(rng, ['a', 'n', 'tau']): 55.5}
        steps.append(StrsSpec(c, mk_dur(rng), f's{i}'))
        if rng.random() < 0.75 or i == n - 1:
            steps.append(MeasSpec({p: int(rng.integers(1, counts[p] + 1)) for p in counts}, mk_conds(rng), f'm{i}'))
    ctx.describe(prms={p: (s.combine, {m: (q.fam, q.eff_unit, q.sign) for m, q in s.mechs.items()}) for p, s in prms.items()}, dims=(lots, chps, counts), steps=steps_repr(steps))
    ctx.sig([(s.combine, [(q.fam, q.eff_unit, q.sign) for q in s.mechs.values()]) for s in prms.values()], lots, chps, counts, n)
    rep = gerabaldi.simulate(TestSpec(steps, chps, lots), mdl, PhysTestEnv(), state)
    ctx.count('stress_phases', n)
    compare(ctx, rep, steps, ref_run(ctx, prms, state, steps), lots, chps, 'degradation outside of what the stress history implies')


def splitting(ctx, rng):
    """A phase split into parts under the same conditions is the same as the whole phase."""
    prms, mdl, lots, chps, counts = build(rng, ctx)
    state = gerabaldi.gen_init_state(mdl, dict(counts), chps, lots)
    pre = [StrsSpec(mk_conds(rng), mk_dur(rng), 'pre')] if rng.random() < 0.6 else []
    c = mk_conds(rng)
    total = mk_dur(rng, 1, 3000)
    k = int(rng.integers(2, 12))
    cuts = sorted(int(x) for x in rng.integers(1, max(2, total // timedelta(microseconds=1)), k - 1))
    us = [0] + cuts + [total // timedelta(microseconds=1)]
    parts = [timedelta(microseconds=b - a) for a, b in zip(us, us[1:]) if b > a]
    meas = MeasSpec(dict(counts), mk_conds(rng), 'm')
    split = pre + [StrsSpec(c, d, f'part{i}') for i, d in enumerate(parts)] + [meas]
    whole = pre + [StrsSpec(c, total, 'whole'), meas]
    ctx.describe(split=steps_repr(split), prms={p: (s.combine, {m: (q.fam, q.eff_unit, q.sign) for m, q in s.mechs.items()}) for p, s in prms.items()})
    ctx.sig([(s.combine, [(q.fam, q.eff_unit) for q in s.mechs.values()]) for s in prms.values()], len(parts), len(pre), counts)
    for steps in (split, whole):
        rep = gerabaldi.simulate(TestSpec(steps, chps, lots), mdl, PhysTestEnv(), state)
        compare(ctx, rep, steps, ref_run(ctx, prms, state, steps), lots, chps, 'split stress phases differ from the whole')
    ctx.count('split_phases', len(parts))


def returning(ctx, rng):
    """A - B - A: after time under other conditions the earlier conditions continue from the degradation reached."""
    prms, mdl, lots, chps, counts = build(rng, ctx, n_mechs=int(rng.integers(1, 3)))
    state = gerabaldi.gen_init_state(mdl, dict(counts), chps, lots)
    a, b = mk_conds(rng), mk_conds(rng)
    meas = MeasSpec(dict(counts), a, 'm')
    steps = []
    for i in range(int(rng.integers(3, 16))):
        steps += [StrsSpec(a if i % 2 == 0 else b, mk_dur(rng, 0.5, 200), f's{i}'), meas]
    ctx.describe(steps=steps_repr(steps))
    ctx.sig([(s.combine, [(q.fam, q.eff_unit) for q in s.mechs.values()]) for s in prms.values()], len(steps), counts)
    rep = gerabaldi.simulate(TestSpec(steps, chps, lots), mdl, PhysTestEnv(), state)
    ctx.count('stress_phases', len(steps) // 2)
    compare(ctx, rep, steps, ref_run(ctx, prms, state, steps), lots, chps, 'cycled conditions give a wrong degradation')


def saturating(ctx, rng):
    """Mechanisms that saturate, at a level that depends on the conditions: the level reached is never lost, and the
    remainder to the present level shrinks exponentially with the time spent."""
    amp, tau = float(rng.uniform(0.5, 2)) * pick(rng, [1, 1, 1e-9, 1e-5, 1e7]), loguni(rng, 0.5, 500)
    sgn = pick(rng, [1.0, -1.0])
    unit = pick(rng, ['h', 's', 'd', 'us'])
    uh = UNITS[unit]
    base = pick(rng, [0.0, 0.0, 0.0, 1.0, -2.5]) if 1e-3 < amp < 10 else 0.0
    trap = DegMechMdl(lambda time, temp, g, e: base + sgn * g * 10**e * (temp / 300) * (1 - np.exp(-time * uh / tau)), unitary_val=base, time_unit=unit, g=mk_latent(rng, amp, 0.2),
                      # Some populations differ by orders of magnitude between devices
                      e=LatentVar(Uniform(-4, 0, test_seed=seed(rng))) if not base and rng.random() < 0.4 else LatentVar(deter_val=0))
    mechs, quiet = {'trap': trap}, {f'q{i}': float(pick(rng, [0, 1, 5, -3])) for i in range(int(rng.integers(0, 4)))}
    if base:
        # next to mechanisms with other neutral values that do not progress
        mechs.update({q: DegMechMdl(eval(f'lambda time, temp: {b} + 0 * time'), unitary_val=b, time_unit='h') for q, b in quiet.items()})
        mechs = {m: mechs[m] for m in rng.permutation(list(mechs))}
    off = sum(m.unitary for m in mechs.values())
    eqn = eval(f'lambda init, cond, {", ".join(mechs)}: init + cond + {" + ".join(mechs)} - off', {'off': off}) if base else None
    mdl = DeviceMdl(DegPrmMdl(mechs, compute_eqn=eqn, prm_name='vth'))
    lots, chps = mk_dims(rng)
    n = int(rng.integers(1, 4))
    state = gerabaldi.gen_init_state(mdl, {'vth': n}, chps, lots)
    g = np.asarray(state.latent_var_vals['vth']['trap']['g']) * 10.0 ** np.asarray(state.latent_var_vals['vth']['trap']['e'])
    k = int(rng.integers(2, 9))
    temps = [300.0] * k if rng.random() < 0.4 else [float(rng.uniform(200, 450)) for _ in range(k)]
    durs = [tau * loguni(rng, 0.05, 5) for _ in range(k)]
    steps = []
    for t, d in zip(temps, durs):
        steps += [StrsSpec({'temp': t}, timedelta(hours=d)), MeasSpec({'vth': n}, {'temp': 300.0})]
    ctx.describe(amp=amp, tau=tau, unit=unit, temps=temps, durs=durs)
    ctx.sig(unit, sgn, [round(d / tau, 2) for d in durs])
    rep = gerabaldi.simulate(TestSpec(steps, chps, lots), mdl, PhysTestEnv(), state)
    y = np.zeros(g.shape)
    for i, (t, d) in enumerate(zip(temps, durs)):
        lvl = g * t / 300
        y = np.where(y < lvl, lvl - (lvl - y) * np.exp(-d / tau), y)
        got = sgn * meas_array(ctx, rep, 'vth', 2 * i + 1, g.shape)
        # 1e-3 of the level reached is the documented acceptance of the search, plus the floor of the equivalent time
        ctx.close(got, y, 'saturating mechanism accumulates wrongly', rel=3e-3 * (i + 1), abs_=lvl * FLOOR_T * uh / tau * 1.1, phase=i)
        ctx.count('saturating_phases', got.size)


def fast(ctx, rng):
    """Mechanisms that are over (or out of all bounds) in a small part of the range of the search, from the first phase of fresh devices on."""
    form = pick(rng, ['trap', 'clamp', 'grow', 'trap2'])
    tau = loguni(rng, 0.02, 3000)
    sgn = pick(rng, [1.0, -1.0])
    unit = pick(rng, ['h', 's', 'd', 'us', None])
    uh = UNITS[unit or 'h']
    with np.errstate(over='ignore'):
        f = {'trap': lambda x: -np.expm1(-x), 'clamp': lambda x: np.minimum(x, 1.0), 'grow': np.expm1, 'trap2': lambda x: x / (1 + x)}[form]
    inv = {'trap': lambda y: -np.log1p(-y), 'clamp': lambda y: y, 'grow': np.log1p, 'trap2': lambda y: y / (1 - y)}[form]
    single = form == 'clamp' and rng.random() < 0.5

    def eqn(time, temp, g):
        if single:
            return sgn * g * (temp / 300) * min(time * uh / tau, 1.0)
        with np.errstate(over='ignore', invalid='ignore'):
            return sgn * g * (temp / 300) * f(time * uh / tau)

    mdl = DeviceMdl(DegPrmMdl(DegMechMdl(eqn, mdl_name='q', time_unit=unit, g=mk_latent(rng, pick(rng, [1.0, 1e-6, 50.0]), 0.3)), prm_name='vth'))
    lots, chps = mk_dims(rng)
    n = int(rng.integers(1, 4))
    state = gerabaldi.gen_init_state(mdl, {'vth': n}, chps, lots)
    g = np.asarray(state.latent_var_vals['vth']['q']['g'])
    k = int(rng.integers(1, 5))
    temps = [300.0] * k if rng.random() < 0.5 else [float(rng.uniform(250, 400)) for _ in range(k)]
    durs = [tau * loguni(rng, 0.02, 0.6) for _ in range(k)]
    steps = []
    for t, d in zip(temps, durs):
        steps += [StrsSpec({'temp': t}, timedelta(hours=d)), MeasSpec({'vth': n}, {'temp': 300.0})]
    durs = [hours(s.duration) for s in steps[::2]]
    ctx.describe(form=form, tau=tau, unit=unit, temps=temps, durs=durs, sign=sgn)
    ctx.sig(form, unit, sgn, [round(d / tau, 2) for d in durs])
    with np.errstate(all='ignore'):
        rep = gerabaldi.simulate(TestSpec(steps, chps, lots), mdl, PhysTestEnv(), state)
        lo = hi = np.zeros(g.shape)
        fl = FLOOR_T * uh / tau * 1.1
        for i, (t, d) in enumerate(zip(temps, durs)):
            lvl = g * t / 300
            got = sgn * meas_array(ctx, rep, 'vth', 2 * i + 1, g.shape)
            b = []
            for y, e, pad in ((lo, 1 - 1.5e-3, 0), (hi, 1 + 1.5e-3, fl)):
                r = y * e / lvl
                b.append(np.where((form != 'grow') & (r >= 1), y, np.maximum(lvl * f(np.maximum(inv(np.minimum(r, np.inf if form == 'grow' else 1 - 1e-12)), pad) + d / tau), y * e)))
            lo, hi = b
            ctx.within(got, lo * (1 - 1e-3), hi * (1 + 1e-3), 'a mechanism that ends or explodes within the range of the search accumulates wrongly', phase=i, form=form)
            ctx.count('fast_phases', got.size)


def given(ctx, rng):
    """Devices that are already degraded in the state given: stress continues from there, the first measurement shows it."""
    prms, mdl, lots, chps, counts = build(rng, ctx)
    state = gerabaldi.gen_init_state(mdl, dict(counts), chps, lots, elapsed_time=pick(rng, [0, 100, timedelta(hours=3)]))
    ref = {p: RefPrm(s, state, p) for p, s in prms.items()}
    for p, r in ref.items():
        for m, q in prms[p].mechs.items():
            # as degraded as some hours under some conditions would leave them, different for every device
            y = np.asarray(q.advance(*r.y[m], mk_conds(rng), r.lat[m], 1.0)[0]) * rng.uniform(0.5, 20, r.init.shape)
            r.y[m] = (y, y)
            state.curr_deg_mech_vals[p][m] = q.base + q.sign * y
        r.stressed = True
        sp = r.spec
        k = r.lat['k'] if sp.combine == 'weighted' else None
        state.curr_prm_vals[p] = np.broadcast_to(sp.comb(r.init, sp.cond_unit(), [state.curr_deg_mech_vals[p][m] for m in sp.mechs], k), r.init.shape).copy()
    steps, out = [MeasSpec(dict(counts), mk_conds(rng), 'first')], {}
    for p, r in ref.items():
        out[0, p] = r.measure(steps[0].conditions, counts[p])
    for i in range(int(rng.integers(1, 4))):
        s = StrsSpec(mk_conds(rng), mk_dur(rng, 0.1, 500), f's{i}')
        steps += [s, MeasSpec(dict(counts), mk_conds(rng), f'm{i}')]
        for p, r in ref.items():
            r.stress(s.conditions, hours(s.duration), ctx)
            out[len(steps) - 1, p] = r.measure(steps[-1].conditions, counts[p])
    ctx.describe(prms={p: (s.combine, {m: (q.fam, q.eff_unit, q.sign) for m, q in s.mechs.items()}) for p, s in prms.items()}, dims=(lots, chps, counts), steps=steps_repr(steps))
    ctx.sig([(s.combine, [(q.fam, q.eff_unit, q.sign) for q in s.mechs.values()]) for s in prms.values()], lots, chps, counts, len(steps))
    rep = gerabaldi.simulate(TestSpec(steps, chps, lots), mdl, PhysTestEnv(), state)
    compare(ctx, rep, steps, out, lots, chps, 'degradation does not continue from that of the state given')
    ctx.count('aged_states')


QUICK = 4
KINDS = [('sequences', sequences, 220, 6000), ('splitting', splitting, 90, 2500), ('returning', returning, 60, 1500), ('saturating', saturating, 40, 400), ('fast', fast, 60, 1500), ('given', given, 60, 1500)]
MIN_OBSERVED = {'measurements_checked': 2000, 'stress_phases': 500, 'split_phases': 100, 'device_steps_without_rate': 50, 'saturating_phases': 50, 'fast_phases': 200, 'aged_states': 50}
