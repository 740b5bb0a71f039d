"""C04: stress never heals, stress below a mechanism's threshold preserves, measuring does not perturb."""
import numpy as np
from datetime import timedelta
from vp.gen import *
from vp.props import c03

RULE = ('Random devices with monotone mechanisms (power laws, logarithmic, threshold, saturating with condition-limited amplitude) '
        'taken through random phases; monitors watch the degradation of every device between phases: magnitude never shrinks, is '
        'exactly preserved while the mechanism is below threshold and continues from there, and is the same with and without extra '
        'measurement steps. Non-trivial: >= 2 phases after the first degradation; distinct by families, dims and steps.')
ASSUMPTIONS = ['A shrinking within 2e-4 of the degradation (1.2e-3 for mechanisms that saturate) is numerical precision of the equivalent time search, not healing.']


def mono_eqn(rng, fam, scale):
    """Mechanisms that are monotone in time for any condition, without an analytic inverse being needed."""
    a, n = scale * loguni(rng, 1e-3, 1e-1), float(rng.uniform(0.15, 0.9))
    tau = loguni(rng, 1, 300)
    sgn = pick(rng, [1.0, -1.0])
    if fam == 'satlim':
        return sgn, lambda time, temp, g: sgn * g * a * np.maximum(temp - 320, 0) * (1 - np.exp(-time / tau))
    if fam == 'sum':
        return sgn, lambda time, temp, g: sgn * g * a * np.exp((temp - 350) / 50) * (time ** n + np.log1p(time / tau))
    if fam == 'hard':
        return sgn, lambda time, temp, g: sgn * np.where(temp > 350, g * a * time ** n, 0.0)
    return sgn, lambda time, temp, g: sgn * g * a * np.maximum(temp - 345, 0) ** 2 * time ** n


def never_heals(ctx, rng):
    fams = [pick(rng, ['satlim', 'sum', 'hard', 'quad']) for _ in range(int(rng.integers(1, 3)))]
    prms, sgns = {}, {}
    scale = pick(rng, [1.0, 1.0, 1.0, 1e-6, 1e-9, 1e-14, 1e6])
    for i, f in enumerate(fams):
        sgns[f'p{i}'], eqn = mono_eqn(rng, f, scale)
        prms[f'p{i}'] = DegPrmMdl({'m': DegMechMdl(eqn, time_unit=pick(rng, ['h', 's', 'd']), g=mk_latent(rng, 1.0, 0.3))},
                                  InitValMdl(init_val=mk_latent(rng, 0.5) if scale >= 1 else LatentVar(deter_val=0.0)))
    mdl = DeviceMdl(prms)
    lots, chps = mk_dims(rng)
    cnt = {p: int(rng.integers(1, 4)) for p in prms}
    state = gerabaldi.gen_init_state(mdl, dict(cnt), chps, lots)
    steps, n = [], int(rng.integers(3, 10))
    for i in range(n):
        steps += [StrsSpec({'temp': float(rng.uniform(290, 420))}, mk_dur(rng, 0.05, 2000)), MeasSpec(dict(cnt), {'temp': 300.0})]
    ctx.describe(fams=fams, steps=steps_repr(steps))
    ctx.sig(fams, lots, chps, cnt, n)
    rep = gerabaldi.simulate(TestSpec(steps, chps, lots), mdl, PhysTestEnv(), state)
    for p in prms:
        init = np.asarray(state.init_prm_vals[p], dtype=float)
        prev = np.zeros(init.shape)
        for i in range(n):
            y = sgns[p] * (meas_array(ctx, rep, p, 2 * i + 1, init.shape) - init)
            sat = fams[int(p[1:])] == 'satlim'
            slack = (1.2e-3 if sat else 2e-4) * np.abs(prev) + 1e-12 * scale
            ctx.check(np.isfinite(y).all(), 'degradation is not a number', param=p, phase=i)
            if (y < prev - slack).any():
                k = tuple(int(x[0]) for x in np.nonzero(y < prev - slack))
                raise Violation('device healed during stress', param=p, phase=i, device=k, before=prev[k], after=y[k], fam=fams[int(p[1:])])
            ctx.count('assertions')
            ctx.count('device_phases', y.size)
            ctx.count('device_phases_flat', int((y == prev).sum()))
            prev = y if sat else np.maximum(prev, y)


def preserved(ctx, rng):
    """Below the threshold nothing changes, above it the degradation continues from where it was."""
    thr = float(rng.uniform(0.9, 1.1))
    prm = Prm(rng, fams=['thresh'], n_mechs=int(rng.integers(1, 3)), combine=pick(rng, ['sum', 'prod', 'weighted']), shift=False,
              mech_units=rng.random() < 0.5)
    mdl = DeviceMdl({'vth': prm.model()})
    lots, chps = mk_dims(rng)
    cnt = {'vth': int(rng.integers(1, 5))}
    state = gerabaldi.gen_init_state(mdl, dict(cnt), chps, lots)
    meas = MeasSpec(dict(cnt), {'temp': 300.0, 'vdd': 2.0})
    steps = []
    n = int(rng.integers(3, 9))
    # Quiet: below every device's threshold; partial: only some of the devices degrade
    kinds = [pick(rng, ['quiet', 'active', 'partial', 'quiet']) for _ in range(n)]
    for k in kinds:
        v = {'quiet': rng.uniform(0.0, 0.3), 'active': rng.uniform(1.8, 2.5), 'partial': thr}[k]
        steps += [StrsSpec({'vdd': float(v), 'temp': float(rng.uniform(300, 400))}, mk_dur(rng, 0.05, 3000), k), meas]
    ctx.describe(kinds=kinds, combine=prm.combine, steps=steps_repr(steps))
    ctx.sig(kinds, prm.combine, lots, chps, cnt)
    rep = gerabaldi.simulate(TestSpec(steps, chps, lots), mdl, PhysTestEnv(), state)
    out = c03.ref_run(ctx, {'vth': prm}, state, steps)
    prev = np.asarray(state.init_prm_vals['vth'], dtype=float)
    for i, k in enumerate(kinds):
        got = meas_array(ctx, rep, 'vth', 2 * i + 1, (lots, chps, cnt['vth']))
        if k == 'quiet':
            ctx.close(got, prev, 'stress below the threshold changed the device', rel=1e-12, abs_=1e-15, phase=i)
            ctx.count('quiet_device_phases', got.size)
        ctx.within(got, *out[2 * i + 1, 'vth'], 'wrong degradation around phases below the threshold', phase=i)
        prev = got


def observing(ctx, rng):
    """Extra measurement steps, of anything and at any conditions, leave all other results as they were."""
    prms, mdl, lots, chps, counts = c03.build(rng, ctx)
    if rng.random() < 0.5:
        p0 = list(prms)[0]
        prms2 = {p: s.model() for p, s in prms.items()}
        prms2['circ'] = CircPrmMdl(eval(f'lambda {p0}, temp: {p0} * temp'))
        mdl = DeviceMdl(prms2, time_unit=prms[p0].dev_unit)
        counts = dict(counts, circ=int(rng.integers(1, 3)))
    state = gerabaldi.gen_init_state(mdl, dict(counts), chps, lots)
    base, extra, where = [], [], []
    for i in range(int(rng.integers(2, 6))):
        s = StrsSpec(mk_conds(rng), mk_dur(rng), f's{i}')
        m = MeasSpec(dict(counts), mk_conds(rng), f'm{i}')
        for _ in range(int(rng.integers(0, 3))):
            x = MeasSpec({p: int(rng.integers(1, c + 1)) for p, c in counts.items()}, mk_conds(rng), 'extra')
            if rng.random() < 0.4:
                x.measurements['temp'] = 2
            extra.append(x)
        base += [s, m]
        extra.append(s)
        for _ in range(int(rng.integers(0, 3))):
            extra.append(MeasSpec({p: int(rng.integers(1, c + 1)) for p, c in counts.items()}, mk_conds(rng), 'extra'))
        where.append(len(extra))
        extra.append(m)
    ctx.describe(base=steps_repr(base), extra=len(extra))
    ctx.sig(len(base), len(extra), where, counts, lots, chps)
    a = gerabaldi.simulate(TestSpec(base, chps, lots), mdl, PhysTestEnv(), state)
    b = gerabaldi.simulate(TestSpec(extra, chps, lots), mdl, PhysTestEnv(), state)
    for i, w in enumerate(where):
        for p, c in counts.items():
            va, vb = meas_array(ctx, a, p, 2 * i + 1, (lots, chps, c)), meas_array(ctx, b, p, w, (lots, chps, c))
            ctx.close(vb, va, 'extra measurement steps changed the results', rel=1e-12, param=p, phase=i)
            ctx.count('observed_pairs', va.size)


QUICK = 4
KINDS = [('never_heals', never_heals, 150, 5000), ('preserved', preserved, 120, 3500), ('observing', observing, 80, 2000)]
MIN_OBSERVED = {'device_phases': 1500, 'quiet_device_phases': 300, 'observed_pairs': 1000, 'device_phases_flat': 100}
