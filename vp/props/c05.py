"""C05: hard failures are permanent and memoryless."""
import math
import numpy as np
from datetime import timedelta
from vp.gen import *

RULE = ('Random populations with failure mechanisms whose per-device limits, severities and failed values vary by device and step, '
        'through sequences of phases; an exact state machine per device (not failed -> failed with the value of the failing phase) '
        'is compared after each phase. Non-trivial: some device fails and some phase follows; distinct by limits, dims and phases.')
ASSUMPTIONS = ['Conditions within 1e-6 of a device\'s limit are not generated.']


class Values(RandomVar):
    """The given values in turn."""

    def __init__(self, vals):
        super().__init__('uniform')
        self.vals, self.n = vals, 0

    def sample(self, quantity=1):
        n = int(np.prod(quantity))
        self.n += n
        return np.array([self.vals[(self.n - n + i) % len(self.vals)] for i in range(n)], dtype=float).reshape(quantity)


def machine(ctx, rng):
    unit = pick(rng, ['h', 's', 'd', 'ms', None])
    uh = UNITS[unit]
    unitary = pick(rng, [0, 0, 1, 1.0, -2.5])
    style = pick(rng, ['array', 'scalar', 'math'])
    log = []

    if style == 'array':
        def fail(time, sev, lim, mark):
            log.append(np.max(time))
            return np.where(time * uh * sev > lim, unitary + mark * sev, unitary)
    elif style == 'scalar':
        def fail(time, sev, lim, mark):
            if time * uh * sev > lim:
                return unitary + mark * sev
            return unitary
    else:
        def fail(lim, mark, sev, time):
            return unitary + mark * sev if math.floor(time * uh * sev / lim) >= 1 else unitary

    # Failed values above and below the neutral value, in particular a complete loss (0 times the initial value)
    mk_mark = pick(rng, [mk_latent(rng, 2.0, 0.3), LatentVar(Normal(-1.5, 0.2, test_seed=seed(rng))), LatentVar(deter_val=-1), LatentVar(Uniform(-3, 3, test_seed=seed(rng)))])
    tiny = rng.random() < 0.12
    if tiny:
        # Failures count however small their effect is
        mk_mark = LatentVar(deter_val=pick(rng, [1, -1]) * loguni(rng, 2e-9, 1e-6))
    elif rng.random() < 0.12:
        # A failed device may have no finite value any more (open circuit)
        mk_mark = LatentVar(Values(pick(rng, [[np.inf], [-np.inf], [np.nan], [np.inf, 2.0, -np.inf, 0.5]])))
    mult = unitary == 1 and rng.random() < 0.5
    prms = {}
    fm = FailMechMdl(fail, unitary_val=unitary, time_unit=unit, lim=mk_latent(rng, 100.0, 0.5), mark=mk_mark)
    with_deg = rng.random() < 0.4 and not tiny
    mechs = {'brk': fm}
    if with_deg:
        mechs['drift'] = DegMechMdl(lambda time, temp: 1e-9 * time * temp, time_unit='h')
        if rng.random() < 0.5:
            mechs = dict(reversed(list(mechs.items())))

    def comb(init, cond, drift, brk):
        return (init * brk if mult else init + (brk - unitary)) + drift + cond

    if with_deg:
        eqn = lambda init, brk, drift, cond: comb(init, cond, drift, brk)
    else:
        eqn = lambda init, brk, cond: comb(init, cond, 0.0, brk)
    prms['leak'] = DegPrmMdl(mechs, InitValMdl(init_val=mk_latent(rng, 3.0)), compute_eqn=eqn)
    if rng.random() < 0.4:
        prms['alarm'] = CircPrmMdl(lambda leak: leak * 2 + 1)
    mdl = DeviceMdl(prms)
    lots, chps = mk_dims(rng)
    cnt = {p: int(rng.integers(1, 5)) for p in prms}
    cnt['leak'] = max(cnt.values())
    state = gerabaldi.gen_init_state(mdl, dict(cnt), chps, lots)
    lim, mark = state.latent_var_vals['leak']['brk']['lim'], state.latent_var_vals['leak']['brk']['mark']
    init = np.asarray(state.init_prm_vals['leak'], dtype=float)
    lim, mark = np.broadcast_to(lim, init.shape), np.broadcast_to(mark, init.shape)
    n = int(rng.integers(2, 10))
    steps, want = [], []
    st = np.full(init.shape, float(unitary))
    total = np.zeros(init.shape)
    drift = 0.0
    for i in range(n):
        sev = pick(rng, [1.0, 0.5, 2.0, 0.1])
        r = rng.random()
        if r < 0.45:
            h = float(rng.uniform(5, 60))          # never enough on its own at sev 1, but several of them are in sum
        elif r < 0.8:
            h = float(np.median(lim)) / sev * float(rng.uniform(0.9, 1.1))
        else:
            h = float(rng.uniform(200, 5000))
        d = timedelta(seconds=round(h * 3600))
        if (np.abs(hours(d) * sev / lim - 1) < 1e-6).any():
            d += timedelta(seconds=7)
        temp = float(rng.uniform(250, 400))
        hit = hours(d) * sev > lim
        new = np.where(st != unitary, st, np.where(hit, unitary + mark * sev, unitary))
        ctx.count('failures', int(((st == unitary) & (new != unitary)).sum()))
        ctx.count('failed_device_phases', int((st != unitary).sum()))
        total = total + hours(d) * sev
        ctx.count('memoryless_device_phases', int(((new == unitary) & (total > lim)).sum()))
        st = new
        drift += 1e-9 * hours(d) * temp
        steps.append(StrsSpec({'sev': sev, 'temp': temp}, d, f's{i}'))
        if rng.random() < 0.8 or i == n - 1:
            m = {p: int(rng.integers(1, cnt[p] + 1)) for p in cnt}
            want.append((len(steps), m, st.copy(), drift))
            steps.append(MeasSpec(m, {'sev': 100.0, 'temp': 300.0}, f'm{i}'))
    ctx.describe(unit=unit, unitary=unitary, style=style, mult=mult, dims=(lots, chps, cnt), steps=steps_repr(steps))
    ctx.sig(unit, unitary, style, mult, with_deg, lots, chps, cnt, [str(s.duration) for s in steps if isinstance(s, StrsSpec)])
    rep = gerabaldi.simulate(TestSpec(steps, chps, lots), mdl, PhysTestEnv(), state)
    for i, m, s, dr in want:
        sl = (slice(None), slice(None), slice(0, m['leak']))
        p = comb(init, 0.0, dr if with_deg else 0.0, s)
        tol = 1e-3 * dr + 2e-9 if with_deg else 1e-12
        ctx.close(meas_array(ctx, rep, 'leak', i, (lots, chps, m['leak'])), p[sl], 'failure state differs from the history of the device', rel=1e-12, abs_=tol, step=i)
        if 'alarm' in m:
            ctx.close(meas_array(ctx, rep, 'alarm', i, (lots, chps, m['alarm'])), 2 * p[:, :, :m['alarm']] + 1, 'failure state seen by a circuit differs', rel=1e-12, abs_=2 * tol, step=i)


def several(ctx, rng):
    """Parameters with several failure mechanisms: each of them is an automaton of its own."""
    n = int(rng.integers(2, 4))
    names = ['open', 'short', 'leaky'][:n]
    units = [pick(rng, ['h', 's', 'd', None]) for _ in names]
    neutral = [pick(rng, [0, 0, 1, -2.5]) for _ in names]
    same = rng.random() < 0.3           # the same limits: they fail in the same phase
    lim0 = mk_latent(rng, 100.0, 0.5)

    def mech(u, base, arr):
        if arr:
            return lambda time, sev, lim, mark: np.where(time * u * sev > lim, base + mark * sev, base)
        return lambda time, sev, lim, mark: base + mark * sev if time * u * sev > lim else base

    mechs = {m: FailMechMdl(mech(UNITS[u], b, rng.random() < 0.6), unitary_val=b, time_unit=u, lim=lim0 if same else mk_latent(rng, 100.0, 0.5),
                            mark=LatentVar(Uniform(*pick(rng, [(0.5, 3), (-3, -0.5)]), test_seed=seed(rng)))) for m, u, b in zip(names, units, neutral)}
    off = sum(neutral)
    if rng.random() < 0.5:
        eqn = eval(f'lambda init, cond, {", ".join(names)}: init + cond + {" + ".join(names)} - off', {'off': off})
    else:
        eqn = eval(f'lambda cond, {", ".join(names[::-1])}, init: init + cond + {" + ".join(names)} - off', {'off': off})
    mdl = DeviceMdl({'leak': DegPrmMdl(mechs, InitValMdl(init_val=mk_latent(rng, 3.0)), compute_eqn=eqn), 'other': DegPrmMdl({'open': mechs['open']}, InitValMdl(init_val=mk_latent(rng, 1.0)), compute_eqn=lambda init, cond, open: init + cond + open - neutral[0])})
    lots, chps = mk_dims(rng)
    cnt = int(rng.integers(1, 5))
    state = gerabaldi.gen_init_state(mdl, {'leak': cnt}, chps, lots)
    ref = {(p, m): np.full(state.init_prm_vals[p].shape, float(b)) for p, ms in (('leak', names), ('other', ['open'])) for m, b in zip(ms, neutral)}
    steps, want = [], []
    for i in range(int(rng.integers(2, 9))):
        sev = pick(rng, [1.0, 0.5, 2.0, 0.1])
        d = timedelta(seconds=round(float(pick(rng, [rng.uniform(5, 90), 100 / sev * rng.uniform(0.8, 1.2), 100 / sev * rng.uniform(0.8, 1.2), rng.uniform(200, 2000)])) * 3600))
        lims = {k: state.latent_var_vals[k[0]][k[1]]['lim'] for k in ref}
        while any((np.abs(hours(d) * sev / x - 1) < 1e-6).any() for x in lims.values()):
            d += timedelta(seconds=7)
        for (p, m), st in ref.items():
            b = neutral[names.index(m)]
            new = np.where(st != b, st, np.where(hours(d) * sev > lims[p, m], b + state.latent_var_vals[p][m]['mark'] * sev, b))
            ctx.count('failures', int(((st == b) & (new != b)).sum()))
            ctx.count('second_failures', int(((st == b) & (new != b) & np.any([ref[p, o] != neutral[names.index(o)] for q, o in ref if q == p and o != m] or [np.zeros(st.shape, bool)], axis=0)).sum()))
            ref[p, m] = new
        steps.append(StrsSpec({'sev': sev}, d))
        want.append((len(steps), {k: v.copy() for k, v in ref.items()}))
        steps.append(MeasSpec({'leak': cnt, 'other': cnt}, {'sev': 50.0}))
    ctx.describe(units=units, neutral=neutral, dims=(lots, chps, cnt), steps=steps_repr(steps))
    ctx.sig(units, neutral, same, lots, chps, cnt, [str(s.duration) for s in steps if isinstance(s, StrsSpec)])
    rep = gerabaldi.simulate(TestSpec(steps, chps, lots), mdl, PhysTestEnv(), state)
    for i, r in want:
        for p, o in (('leak', off), ('other', neutral[0])):
            v = state.init_prm_vals[p] + sum(x for (q, _), x in r.items() if q == p) - o
            ctx.close(meas_array(ctx, rep, p, i, (lots, chps, cnt)), v, 'the failures of a parameter with several failure mechanisms differ from their histories', rel=1e-12, abs_=1e-12, step=i, param=p)


KINDS = [('machine', machine, 300, 9000), ('several', several, 60, 1500)]
MIN_OBSERVED = {'second_failures': 100, 'failures': 500, 'failed_device_phases': 500, 'memoryless_device_phases': 200}
