"""C11: a circuit parameter is its equation of the same device's degraded parameters, own latents and actual conditions."""
import numpy as np
from vp.gen import *
from vp.coded import Coded, Varied, distinct

RULE = ('Random devices with several degrading and several circuit parameters of different requirements, equation argument orders, latents '
        'and conditions; measured in random combinations and partial counts, in different steps, before and after stress, with provided and automatically '
        'generated states. The degraded values are read back in the same step and the equation is evaluated on them device by device. Distinct '
        'by requirements, counts, dims and steps.')
ASSUMPTIONS = ['Circuit equations depend on degrading parameters (and latents, conditions), not on other circuit parameters.']

EQNS = {
    'a': (('vth',), (), (), lambda vth: 1 / vth),
    'ab': (('ids', 'vth'), (), (), lambda ids, vth: ids / vth ** 2),
    'abc': (('vth', 'ids', 'cap'), ('g',), (), lambda cap, vth, g, ids: g * cap * vth / ids),
    'aT': (('vth',), (), ('temp',), lambda temp, vth: vth * temp / 300),
    'bcTV': (('ids', 'cap'), ('g', 'h'), ('temp', 'vdd'), lambda ids, temp, h, vdd, cap, g: g * ids * (temp / 300) + h * cap * vdd),
    'L': ((), ('g', 'h'), ('vdd',), lambda g, vdd, h: g * vdd + h),
    'aL': (('vth',), ('g',), (), lambda g, vth: g + 10 * vth),
}


def device(rng, shift=True):
    prms = {}
    for p in ['vth', 'ids', 'cap']:
        mech = DegMechMdl(lambda time, temp, a: a * time ** 0.5 * temp / 300, time_unit='h', a=mk_latent(rng, loguni(rng, 1e-3, 1e-2), 0.4))
        sh = CondShiftMdl(lambda temp, tc: tc * (temp - 300), tc=mk_latent(rng, 1e-3)) if shift and rng.random() < 0.5 else None
        prms[p] = DegPrmMdl({'m': mech}, InitValMdl(init_val=LatentVar(Uniform(*pick(rng, [(1, 3)] * 5 + [(-30, -28)]), test_seed=seed(rng)))), sh)
    circ = {}
    for i in range(int(rng.integers(1, 4))):
        k = pick(rng, list(EQNS))
        req, lat, cond, f = EQNS[k]
        prms[f'circ{i}'] = CircPrmMdl(f, **{v: LatentVar(Uniform(0.5, 2, test_seed=seed(rng))) for v in lat})
        circ[f'circ{i}'] = k
    order = list(prms)
    if rng.random() < 0.5:
        rng.shuffle(order)
    return DeviceMdl({p: prms[p] for p in order}), circ


def given(ctx, rng):
    mdl, circ = device(rng)
    lots, chps = mk_dims(rng)
    full = int(rng.integers(1, 6)) if rng.random() > 0.06 else int(rng.integers(8, 300))
    cnt = {p: full for p in mdl.prm_mdl_list}
    for c in circ:
        cnt[c] = int(rng.integers(1, full + 1))
    for p in ('vth', 'ids', 'cap'):
        need = [cnt[c] for c, k in circ.items() if p in EQNS[k][0]] + [1]
        cnt[p] = int(rng.integers(max(need), full + 1))
    state = gerabaldi.gen_init_state(mdl, dict(cnt), chps, lots)
    if rng.random() < 0.15:
        # Devices that are already degraded, at any time the owner says it is
        for p in state.curr_prm_vals:
            state.curr_prm_vals[p] = state.curr_prm_vals[p] + 0.25
        state.elapsed = pick(rng, [timedelta(), timedelta(hours=5)])
    offs = {'temp': float(rng.uniform(-3, 3)) if rng.random() < 0.3 else 0.0, 'vdd': float(rng.uniform(-.1, .1)) if rng.random() < 0.3 else 0.0}
    env = PhysTestEnv({c: EnvVrtnMdl(Deterministic(o)) for c, o in offs.items() if o})
    neutral = {'temp': 300.0 - offs['temp'], 'vdd': 1.0}
    steps, marks = [], []
    for i in range(int(rng.integers(1, 4))):
        ref = len(steps)
        steps.append(MeasSpec({p: cnt[p] for p in ('vth', 'ids', 'cap')}, neutral, 'ref'))
        for _ in range(int(rng.integers(1, 3))):
            sel = [p for p in mdl.prm_mdl_list if rng.random() < (0.8 if p in circ else 0.4)] or [list(circ)[0]]
            rng.shuffle(sel)
            m = {p: int(rng.integers(1, cnt[p] + 1)) for p in sel}
            c = {'temp': float(rng.uniform(250, 420)), 'vdd': float(rng.uniform(0.5, 1.5))}
            if rng.random() < 0.1:
                c[pick(rng, ['g', 'h'])] = 99.5    # a condition with the name of a latent variable is another thing
            marks.append((ref, len(steps), m, c))
            steps.append(MeasSpec(m, c, 'circ'))
        steps.append(StrsSpec({'temp': float(rng.uniform(300, 400)), 'vdd': 1.0}, mk_dur(rng, 1, 500)))
    ctx.describe(circuits=circ, counts=cnt, dims=(lots, chps), offsets=offs, steps=steps_repr(steps))
    ctx.sig(sorted(circ.items()), cnt, lots, chps, [m for _, _, m, _ in marks])
    rep = gerabaldi.simulate(TestSpec(steps, chps, lots), mdl, env, state)
    for ref, st, m, c in marks:
        true = {p: meas_array(ctx, rep, p, ref, (lots, chps, cnt[p])) for p in ('vth', 'ids', 'cap')}
        for q, n in m.items():
            if q not in circ:
                continue
            req, lat, conds, f = EQNS[circ[q]]
            sl = (slice(None), slice(None), slice(0, n))
            args = {p: true[p][sl] for p in req} | {v: state.latent_var_vals[q][v][sl] for v in lat} | {x: c[x] + offs[x] for x in conds}
            ctx.close(meas_array(ctx, rep, q, st, (lots, chps, n)), np.broadcast_to(f(**args), (lots, chps, n)),
                      'circuit parameter differs from its equation of the same device\'s degraded parameters', rel=1e-9, param=q, circuit=circ[q], step=st, conditions=c)
            ctx.count('circuit_values', lots * chps * n)


def wide(ctx, rng):
    """Circuits of many parameters, of which only the circuits themselves need to be requested."""
    k = int(rng.integers(4, 11))
    names = [f'p{i}' for i in range(k)]
    rate = {p: float(rng.integers(0, 4)) / 64 for p in names}
    prms = {p: DegPrmMdl({'m': DegMechMdl(eval(f'lambda time, temp: {rate[p]} * time'), time_unit='h')}, InitValMdl(init_val=LatentVar(Uniform(1, 3, test_seed=seed(rng))))) for p in names}
    circ = {}
    for i in range(int(rng.integers(1, 4))):
        req = [str(p) for p in rng.permutation(names)[:int(rng.integers(1, k + 1))]]
        w = {p: float(rng.integers(1, 9)) / 8 * pick(rng, [1, -1]) for p in req}
        prms[f'c{i}'] = CircPrmMdl(eval(f"lambda {', '.join(req)}, temp: ({' + '.join(f'{p} * {w[p]}' for p in req)}) * temp"))
        circ[f'c{i}'] = w
    order = list(prms)
    rng.shuffle(order)
    mdl = DeviceMdl({p: prms[p] for p in order})
    lots, chps = mk_dims(rng)
    cnt = {c: int(rng.integers(1, 6)) for c in circ} | {p: int(rng.integers(1, 6)) for p in names if rng.random() < 0.3}
    cnt = {p: cnt[p] for p in rng.permutation(list(cnt)).tolist()}
    state = gerabaldi.gen_init_state(mdl, dict(cnt), chps, lots) if rng.random() < 0.8 else None
    steps = []
    for _ in range(int(rng.integers(1, 4))):
        steps.append(MeasSpec({p: int(rng.integers(1, n + 1)) if state is not None else n for p, n in cnt.items()}, {'temp': float(rng.integers(1, 9))}))
        steps.append(StrsSpec({'temp': 2.0}, timedelta_h(rng)))
    ctx.describe(weights=circ, counts=cnt, dims=(lots, chps), given=state is not None, steps=steps_repr(steps))
    ctx.sig(k, [sorted(w) for w in circ.values()], cnt, lots, chps)
    rep = gerabaldi.simulate(TestSpec(steps, chps, lots), mdl, PhysTestEnv(), state)
    hrs, tol, base = 0.0, 1e-12, {}
    for i, s in enumerate(steps):
        if isinstance(s, StrsSpec):
            hrs += hours(s.duration)
            tol = 1e-4 * hrs + 2e-3
            continue
        for q, n in s.measurements.items():
            if q not in circ:
                continue
            got = meas_array(ctx, rep, q, i, (lots, chps, n)) / s.conditions['temp']
            moved = sum(v * rate[p] for p, v in circ[q].items()) * hrs
            if state is not None:
                true = sum(v * np.asarray(state.init_prm_vals[p])[:, :, :n] for p, v in circ[q].items())
            else:
                true = base.setdefault(q, got)      # the population is unknown, but stays the same
            ctx.close(got, true + moved, 'circuit parameter differs from its equation of the same device\'s degraded parameters', rel=1e-12, abs_=tol * sum(abs(v * rate[p]) for p, v in circ[q].items()) + 1e-12, param=q, step=i)
            ctx.count('wide_circuit_values', lots * chps * n)


def automatic(ctx, rng):
    """Simulations that generate their own state make enough instances of whatever the circuit parameters require."""
    codes = {p: Coded('int', start=s, step=1) for p, s in (('vth', 10 ** 4), ('ids', 2 * 10 ** 4), ('cap', 3 * 10 ** 4))}
    grow = rng.random() < 0.5
    prms = {p: DegPrmMdl({'m': DegMechMdl(lambda time, temp: 1e-3 * time * temp, time_unit='h') if grow else DegMechMdl()}, InitValMdl(init_val=LatentVar(c))) for p, c in codes.items()}
    circ = {}
    for i in range(int(rng.integers(1, 4))):
        req = [p for p in codes if rng.random() < 0.6] or [pick(rng, list(codes))]
        w = {'vth': 1.0, 'ids': 1e-5, 'cap': 1e5}
        src = f"lambda {', '.join(req)}, temp: {' + '.join(f'{p} * {w[p]}' for p in req)} + 0 * temp"
        circ[f'c{i}'] = req
        prms[f'c{i}'] = CircPrmMdl(eval(src))
        circ[f'c{i}'] = req
    order = list(prms)
    rng.shuffle(order)
    mdl = DeviceMdl({p: prms[p] for p in order})
    lots, chps = mk_dims(rng)
    steps, meas = [], []
    for i in range(int(rng.integers(1, 4))):
        sel = [p for p in order if rng.random() < (0.8 if p in circ else 0.5)] or [list(circ)[0]]
        rng.shuffle(sel)
        m = {p: int(rng.integers(1, 6)) for p in sel}
        meas.append((len(steps), m))
        steps.append(MeasSpec(m, {'temp': 300.0}))
        if rng.random() < 0.5:
            steps.append(StrsSpec({'temp': 300.0}, timedelta_h(rng)))
    ctx.describe(requirements=circ, dims=(lots, chps), steps=steps_repr(steps), order=order)
    ctx.sig(circ, lots, chps, [m for _, m in meas])
    rep = gerabaldi.simulate(TestSpec(steps, chps, lots), mdl, PhysTestEnv())
    seen = {}       # (param, label) -> code, over all steps: the same device always is the same device

    def note(p, lab, code):
        ctx.check(10 ** 4 <= code % (10 ** 5) and code in codes[p].issued, 'circuit parameter of a device that was never manufactured', param=p, label=lab, code=code)
        if seen.setdefault((p, lab), code) != code:
            raise Violation('circuit parameter is computed from another device\'s parameter', param=p, label=lab, code=code, before=seen[(p, lab)])

    hrs = 0.0
    k = 0
    for i, s in enumerate(steps):
        if isinstance(s, StrsSpec):
            hrs += hours(s.duration)
            continue
        drift = 0.3 * hrs if grow else 0.0
        ctx.check(drift < 0.2, 'harness: drift must stay decodable')
        for q, n in s.measurements.items():
            v = meas_array(ctx, rep, q, i, (lots, chps, n))
            for lab, x in np.ndenumerate(v):
                ctx.count('labelled_values')
                if q in codes:
                    note(q, lab, round(x - drift))
                    continue
                req = circ[q]
                y = x - drift * sum({'vth': 1.0, 'ids': 1e-5, 'cap': 1e5}[p] for p in req)
                if 'cap' in req:
                    c = round((y - (1e4 if 'vth' in req else 0)) / 1e5)
                    # drift tolerance of cap times its weight would swamp the rest: decode the rest only without growth
                    note('cap', lab, c)
                    y -= c * 1e5
                    if grow and len(req) > 1:
                        continue
                if 'vth' in req:
                    c = round(y - (0.3 if 'ids' in req else 0))
                    note('vth', lab, c)
                    y -= c
                    if grow:
                        continue
                if 'ids' in req:
                    c = y / 1e-5
                    ctx.check(abs(c - round(c)) < (0.3 if len(req) == 1 else 0.49), 'circuit parameter mixes up its requirements', param=q, label=lab, got=c)
                    note('ids', lab, round(c))
    for p in codes:
        ctx.check(distinct(c for (q, lab), c in seen.items() if q == p), 'two devices share one instance of a parameter', param=p)


def timedelta_h(rng):
    from datetime import timedelta
    return timedelta(seconds=int(rng.integers(60, 600)))


def varied(ctx, rng):
    """Every circuit is read under its own actual conditions."""
    lots, chps = mk_dims(rng)
    v = Varied(rng, lots, chps)
    n, nc = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    single = rng.random() < 0.4
    f = (lambda p, temp, z: p + temp + z if temp > 0 else None) if single else (lambda temp, z, p: p + temp + z)
    mdl = DeviceMdl({'p': DegPrmMdl({'m': DegMechMdl(lambda time, q: 0 * time * q, time_unit='h')}, InitValMdl(lambda c: 1000 * c, c=LatentVar(Coded('int', 1)))),
                     'circ': CircPrmMdl(f, z=LatentVar(deter_val=0.0))})
    st = gerabaldi.gen_init_state(mdl, {'p': n, 'circ': nc}, chps, lots)
    code = np.asarray(st.init_prm_vals['p']) / 1000
    steps = []
    for i in range(int(rng.integers(1, 4))):
        steps.append(MeasSpec({'circ': int(rng.integers(1, nc + 1)), 'p': int(rng.integers(1, n + 1))} if rng.random() < 0.6 else {'circ': nc}, {'temp': float(rng.uniform(290, 310)), 'q': 1.0}))
        if rng.random() < 0.4:
            steps.append(StrsSpec({'q': 1.0, 'temp': 500.0}, mk_dur(rng, 1, 100)))
    ctx.describe(layers=v.used, dims=(lots, chps, n, nc), single_value=single, steps=steps_repr(steps))
    ctx.sig(v.used, lots, chps, n, nc, single, len(steps))
    rep = gerabaldi.simulate(TestSpec(steps, chps, lots), mdl, v.env, st)
    for i, s in enumerate(steps):
        if isinstance(s, MeasSpec):
            k = s.measurements['circ']
            v.verify(ctx, meas_array(ctx, rep, 'circ', i, (lots, chps, k)), code[:, :, :k], s.conditions['temp'], i, 'circ')


KINDS = [('varied', varied, 100, 3000), ('given', given, 150, 5000), ('automatic', automatic, 120, 4000), ('wide', wide, 60, 1500)]
MIN_OBSERVED = {'circuit_values': 2000, 'labelled_values': 2000, 'varied_readings': 1000, 'wide_circuit_values': 500}
