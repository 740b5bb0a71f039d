"""C06: time units never change the physics; they are inherited mechanism > parameter > device > hours."""
import numpy as np
from datetime import timedelta
from vp.gen import *
from vp.props import c03

RULE = ('All combinations of time units given (or not) to mechanism, parameter and device: the time a failure mechanism is called '
        'with, and the degradation after phases of random length, are compared with the inherited unit; plus random devices whose '
        'mechanisms are expressed in different units, through the same history. Distinct by the combination of units and durations.')
ASSUMPTIONS = ['Equivalent times are granted a relative error of 1e-4 and a floor of 1.02e-3 of the mechanism time unit.']
U = [None, 'd', 'h', 's', 'ms', 'us']
LONG = {'d': 'days', 'h': 'hours', 's': 'seconds', 'ms': 'milliseconds', 'us': 'microseconds', None: None}
COMBOS = [(a, b, c) for a in U for b in U for c in U]


def inherit(ctx, rng):
    # Enumerate the combinations, case after case; the RNG only picks durations and spelling
    i = ctx.index
    um, up, ud = (LONG[x] if rng.random() < 0.3 else x for x in COMBOS[i % len(COMBOS)])
    um2 = pick(rng, U)
    eff = um or up or ud or 'h'
    eff2 = um2 or up or ud or 'h'
    uh, uh2 = UNITS[eff], UNITS[eff2]
    times = []

    def fail(time, lim):
        times.append(np.asarray(time, dtype=float))
        return np.where(time * uh > lim, 1.0, 0.0)

    mechs = {'f': FailMechMdl(fail, time_unit=um, lim=LatentVar(deter_val=100.0)),
             'g': DegMechMdl(lambda time, rate: 10 + rate * (time * uh2) ** 0.5, unitary_val=10, time_unit=um2)}
    single = rng.random() < 0.3
    prm = DegPrmMdl(mechs, compute_eqn=lambda init, cond, f, g: init + cond + 1e6 * f + (g - 10), prm_name='q', time_unit=up)
    mdl = DeviceMdl(prm if single else {'q': prm}, time_unit=ud)
    ctx.describe(units=(um, up, ud), second=um2)
    durs = [mk_dur(rng, 0.3, 20000) for _ in range(int(rng.integers(1, 4)))]
    ctx.sig(um, up, ud, um2, [str(d) for d in durs])
    c = {'rate': 2.0}
    steps = []
    for d in durs:
        steps += [StrsSpec(c, d), MeasSpec({'q': 2}, c)]
    rep = gerabaldi.simulate(TestSpec(steps), mdl, PhysTestEnv())
    # The failure mechanism is called with exactly the phase's duration, in the inherited unit
    want = {hours(d) / uh for d in durs}
    for t in times:
        ctx.count('times_seen', t.size)
        ok = [np.all(np.abs(t - w) <= 1e-9 * w) for w in want]
        ctx.check(any(ok), 'mechanism called with a time that is no phase duration in its unit', units=(um, up, ud), got=t.ravel()[:3], want=want)
    ctx.check(len(times) > 0, 'failure mechanism was never evaluated')
    failed, tot_lo, tot_hi = 0.0, 0.0, 0.0
    for k, d in enumerate(durs):
        failed = max(failed, 1.0 if hours(d) > 100.0 else 0.0)
        fl = FLOOR_T * uh2
        tot_lo = tot_lo * (1 - REL_T) + hours(d)
        tot_hi = max(tot_hi, fl) * (1 + REL_T) + hours(d)
        got = meas_array(ctx, rep, 'q', 2 * k + 1, (1, 1, 2))
        one = np.ones((1, 1, 2))
        pad = 1e-6
        ctx.within(got, one * (1e6 * failed + 2 * tot_lo ** 0.5 - pad), one * (1e6 * failed + 2 * tot_hi ** 0.5 + pad), 'degradation depends on the time unit', units=(um, up, ud), second=um2, phase=k)


def rescaled(ctx, rng):
    """The same physics written down in several units."""
    rs = int(rng.integers(1 << 31))
    lots, chps = mk_dims(rng)
    n = int(rng.integers(1, 4))
    durs = [mk_dur(rng, 1, 20000) for _ in range(int(rng.integers(2, 6)))]
    conds = [mk_conds(rng) for _ in durs]
    meas_c = mk_conds(rng)
    forms = []
    for _ in range(3):
        r2 = np.random.default_rng(rs)
        where = pick(rng, ['mech', 'prm', 'dev'])
        u = pick(rng, ['d', 'h', 's', 'ms', 'us'])
        dev_unit = u if where == 'dev' else pick(rng, [None, 'd', 's'])
        prm_unit = u if where == 'prm' else None if where == 'dev' else pick(rng, [None, 'ms'])
        prm = Prm(r2, unit=prm_unit, dev_unit=dev_unit, shift=False)
        if where == 'mech':
            for m in prm.mechs.values():
                m.unit = m.eff_unit = u
        mdl = DeviceMdl({'x': prm.model()}, time_unit=dev_unit)
        steps = []
        for d, c in zip(durs, conds):
            # ... and durations written down in different ways
            us = d // timedelta(microseconds=1)
            form = pick(rng, ['td', 's', 'us', 'ms', 'h'])
            s = StrsSpec(c, d) if form == 'td' else StrsSpec(c, us / {'s': 1e6, 'us': 1, 'ms': 1e3, 'h': 3.6e9}[form], time_unit=form)
            ctx.check(abs(s.duration - d) <= timedelta(microseconds=1), 'duration depends on how it is written', form=form, got=s.duration, want=d)
            steps += [s, MeasSpec({'x': n}, meas_c)]
        state = gerabaldi.gen_init_state(mdl, {'x': n}, chps, lots)
        rep = gerabaldi.simulate(TestSpec(steps, chps, lots), mdl, PhysTestEnv(), state)
        c03.compare(ctx, rep, steps, c03.ref_run(ctx, {'x': prm}, state, steps), lots, chps, f'degradation depends on the time unit ({where} in {u})')
        forms.append((where, u, dev_unit, prm_unit))
    ctx.describe(forms=forms, durs=[str(d) for d in durs])
    ctx.sig(forms, [str(d) for d in durs])


KINDS = [('inherit', inherit, 400, 8000), ('rescaled', rescaled, 80, 2000)]
MIN_OBSERVED = {'times_seen': 500, 'measurements_checked': 1000}
