"""C08: environmental variation is hierarchical (test batch, chip, device), drawn anew each step; ideal means exact."""
import numpy as np
from datetime import timedelta
from vp.gen import *
from vp.coded import Coded, Layers, distinct

RULE = ('Conditions with uniquely coded variation at every subset of the batch/chip/device layers, offset and scaling, in tests with '
        'several parameters; probes in the mechanism, conditional shift and circuit equations record the conditions each device saw, '
        'which are decoded into the draws they were composed of. Distinct by layers, operation, dims and steps.')
ASSUMPTIONS = ['Custom RandomVar subclasses implementing sample() are accepted, as in the repository\'s own tests.']


def mk(rng, name=None, mode=None):
    mode = mode or pick(rng, ['offset', 'scaling'])
    used = [bool(rng.integers(2)) for _ in range(3)]
    ly = Layers(mode, used, pick(rng, [None, 0.37, 0.625]), rng.random() < 0.2)
    if rng.random() < 0.6:
        ev = EnvVrtnMdl(dev_vrtn_mdl=ly.rv[2], chp_vrtn_mdl=ly.rv[1], batch_vrtn_mdl=ly.rv[0], vrtn_type=mode, name=name)
    else:
        ev = EnvVrtnMdl(dev_vrtn_mdl=pick(rng, [None, Normal(1, 1, test_seed=1)]), chp_vrtn_mdl=pick(rng, [None, Normal(1, 1, test_seed=1)]),
                        batch_vrtn_mdl=pick(rng, [None, Normal(1, 1, test_seed=1)]), vrtn_type=pick(rng, ['offset', 'scaling']), name=name)
        todo = [('dev_vrtn_mdl', ly.rv[2]), ('chp_vrtn_mdl', ly.rv[1]), ('batch_vrtn_mdl', ly.rv[0]), ('vrtn_type', mode)]
        rng.shuffle(todo)
        for k, v in todo:
            setattr(ev, k, v)
    return ev, ly, (mode, tuple(used))


def base_for(rng, ly):
    return pick(rng, [0.25, 0.5, 0.125, 0, 0.0, 7, -40, -0.5, 398.5]) if ly.mode == 'offset' else pick(rng, [0.5, 2.0, 8.0, 4, -1, -0.25])


def direct(ctx, rng):
    large = rng.random() < 0.02
    ev, ly, sig = mk(rng, mode='offset' if large else None)
    base = base_for(rng, ly)
    L, C, D = (int(x) for x in rng.integers(1, 6, 3))
    if large:
        L, C, D = large_dims(rng)
        ctx.count('large_populations')
    ctx.describe(config=sig, dims=(L, C, D))
    ctx.sig(sig, L, C, D)
    arr = np.asarray(ev.gen_env_vrtns(base, num_devs=D, num_chps=C, num_lots=L))
    ctx.equal(arr.shape, (L, C, D), 'shape of the generated conditions')
    b, c, d = ly.decode_all(arr, base)
    ctx.count('values_decoded', arr.size)
    if ly.used[0]:
        ctx.check(len(set(b.ravel())) == 1, 'devices of one batch have different batch variations')
    if ly.used[1]:
        ctx.check(all(len(set(c[i, j])) == 1 for i in range(L) for j in range(C)), 'devices of one chip have different chip variations')
        ctx.check(distinct(c[i, j, 0] for i in range(L) for j in range(C)), 'two chips share a chip variation')
    if ly.used[2]:
        ctx.check(distinct(d.ravel()), 'two devices share a device variation')


def in_test(ctx, rng):
    lots, chps = mk_dims(rng, (3, 4))
    conds = ['temp', 'vdd']
    E = {c: mk(rng, c, 'offset' if lots * chps > 20 else None) for c in conds}
    shared = rng.random() < 0.15
    if shared:
        E['vdd'] = E['temp']
    if rng.random() < 0.2:
        ideal = pick(rng, conds)
    else:
        ideal = None
    models = {c: E[c][0] for c in conds if c != ideal}
    env = PhysTestEnv(models if (shared or rng.random() < 0.6) else list(models.values()))
    for c in conds:
        if c == ideal:
            E[c] = (None, Layers('offset', (False,) * 3), 'ideal')
    log = {}

    def rec(tag, sid, **cv):
        s = int(np.asarray(sid).ravel()[0])
        for c, v in cv.items():
            log.setdefault((s, tag, c), {})[np.asarray(v, dtype=float).tobytes()] = np.array(v, dtype=float)

    def m1(time, temp, sid):
        rec('x', sid, temp=temp)
        return 1e-6 * time + 0 * temp

    def m2(time, vdd, temp, sid):
        rec('x', sid, temp=temp, vdd=vdd)
        return 1e-6 * time ** 0.5 + 0 * vdd

    def my(time, sid, vdd, temp):
        rec('y', sid, temp=temp, vdd=vdd)
        return 1e-6 * time + 0 * vdd

    def sx(temp, vdd, sid):
        rec('x', sid, temp=temp, vdd=vdd)
        return 0 * temp

    def sy(temp, sid):
        rec('y', sid, temp=temp)
        return 0 * temp

    def cz(x, vdd, temp, sid):
        rec('z', sid, vdd=vdd, temp=temp)
        return x + 0 * vdd

    mdl = DeviceMdl({'x': DegPrmMdl({'m1': DegMechMdl(m1, time_unit='h'), 'm2': DegMechMdl(m2, time_unit='s')}, cond_shift_mdl=CondShiftMdl(sx)),
                     'y': DegPrmMdl({'m': DegMechMdl(my, time_unit='h')}, cond_shift_mdl=CondShiftMdl(sy)), 'z': CircPrmMdl(cz)})
    steps, info = [], []
    for i in range(int(rng.integers(2, 6))):
        cv = {c: base_for(rng, E[c][1]) if not (shared and c == 'vdd') else 0.0 for c in conds}
        if shared:
            cv['temp'] = cv['vdd'] = base_for(rng, next((E[c][1] for c in conds if E[c][1].mode == 'scaling'), E['temp'][1]))
        full = dict(cv, sid=float(i), unused=7.0)
        if i == 0 or rng.random() < 0.5:
            ms = {p: int(rng.integers(1, 5)) for p in ('x', 'y', 'z', 'temp', 'vdd') if rng.random() < 0.7}
            ms.setdefault('x', 2)
            steps.append(MeasSpec(ms, full, f'm{i}'))
        else:
            steps.append(StrsSpec(full, timedelta(hours=float(rng.uniform(1, 9))), f's{i}'))
        info.append(cv)
    ctx.describe(configs={c: E[c][2] for c in conds}, dims=(lots, chps), steps=steps_repr(steps))
    ctx.sig({c: E[c][2] for c in conds}, lots, chps, [sorted(getattr(s, 'measurements', {}).items()) for s in steps], shared)
    need = {}
    for s in steps:
        for p, k in getattr(s, 'measurements', {}).items():
            need[p] = max(need.get(p, 0), k)
    state = gerabaldi.gen_init_state(mdl, dict(need), chps, lots)
    rep = gerabaldi.simulate(TestSpec(steps, chps, lots), mdl, env, state)
    drawn = {c: ([], [], []) for c in conds}
    for i, s in enumerate(steps):
        stress = isinstance(s, StrsSpec)
        batch, chip, devs = {}, {}, {}
        for (st, prm, c), arrs in log.items():
            if st != i:
                continue
            ly, base = E[c][1], info[i][c]
            # Any evaluation of the equations during the step, of any mechanism, sees the same conditions
            ctx.equal(len(arrs), 1, 'one device saw different conditions within one step', step=i, param=prm, cond=c)
            arr = next(iter(arrs.values()))
            n = state.curr_prm_vals[prm].shape[2] if stress else s.measurements[prm]
            ctx.equal(arr.shape, (lots, chps, n), 'conditions do not have the shape of the population', step=i, param=prm, cond=c)
            b, ch, d = ly.decode_all(arr, base)
            ctx.count('values_decoded', arr.size)
            if ly.used[0]:
                ctx.check(len(set(b.ravel())) == 1, 'batch variation differs within a step', step=i, cond=c)
                ctx.equal(batch.setdefault(c, b.ravel()[0]), b.ravel()[0], 'batch variation differs between parameters of one step', step=i, cond=c)
            if ly.used[1]:
                for l in range(lots):
                    for k in range(chps):
                        ctx.check(len(set(ch[l, k])) == 1, 'chip variation differs within a chip', step=i, cond=c)
                        ctx.equal(chip.setdefault((c, l, k), ch[l, k, 0]), ch[l, k, 0], 'parameters on one chip saw different chip variations', step=i, cond=c, chip=(l, k))
            if ly.used[2]:
                devs.setdefault(c, []).extend(d.ravel())
            if not any(ly.used):
                ctx.close(arr, np.full(arr.shape, base), 'ideal condition differs from the specified value', rel=0, step=i, cond=c)
            ctx.count('condition_arrays')
        exp = {(p, c) for p, cs in ({'x': conds, 'y': conds}.items() if stress else
               {p: {'x': conds, 'y': ['temp'], 'z': conds}[p] for p in s.measurements if p in 'xyz'}.items()) for c in cs}
        ctx.equal({(p, c) for (st, p, c) in log if st == i}, exp, 'equations evaluated during the step', step=i)
        if not stress:
            for c in conds:
                if c not in s.measurements:
                    continue
                ly, base = E[c][1], info[i][c]
                vals = np.asarray(rows(rep, c, i)['measured'], dtype=float)
                ctx.equal(len(vals), s.measurements[c], 'number of sensor readings', step=i, cond=c)
                b, ch, d = ly.decode_all(vals, base)
                ctx.count('sensor_readings', len(vals))
                if ly.used[0]:
                    ctx.check(set(b) == {batch.setdefault(c, b[0])}, 'sensor does not share the batch variation of the step', step=i, cond=c)
                if ly.used[1]:
                    ctx.check(distinct(ch), 'two sensors share a chip variation', step=i, cond=c)
                    ctx.check(not (set(ch) & {v for (cc, _, _), v in chip.items() if cc == c}), 'sensor shares the variation of a chip', step=i, cond=c)
                if ly.used[2]:
                    devs.setdefault(c, []).extend(d)
        for c in conds:
            if c in batch:
                drawn[c][0].append(batch[c])
            cs = [v for (cc, _, _), v in chip.items() if cc == c]
            ctx.check(distinct(cs), 'two chips share a chip variation', step=i, cond=c)
            drawn[c][1].extend(cs)
            ctx.check(distinct(devs.get(c, [])), 'two devices share a device variation', step=i, cond=c)
            drawn[c][2].extend(devs.get(c, []))
    for c in conds:
        for k in range(3):
            ctx.check(distinct(drawn[c][k]), 'variation reused in a later step', cond=c, layer=k)
    if shared:
        for k in range(3):
            ctx.check(not (set(drawn['temp'][k]) & set(drawn['vdd'][k])), 'two conditions share a draw', layer=k)


def repeated(ctx, rng):
    """The same steps executed again and again under the same specified conditions: the actual conditions are drawn anew each time."""
    lots, chps = mk_dims(rng, (2, 3))
    n = int(rng.integers(1, 4))
    ly = None
    while ly is None or not any(ly.used):
        ev, ly, sig = mk(rng, 'temp', 'offset')
    other, lo, sig2 = mk(rng, 'vdd', 'offset')
    env = PhysTestEnv([ev, other])
    seen = {}

    def rec(tag, v):
        seen.setdefault(tag, {})[np.asarray(v, dtype=float).tobytes()] = np.array(v, dtype=float)

    def mech(time, temp, vdd):
        rec('x', temp)
        return 1e-6 * time + 0 * temp * vdd

    def mech2(time, temp):
        rec('y', temp)
        return 1e-6 * time + 0 * temp

    def shift(temp):
        rec('x meas', temp)
        return 0 * temp

    mdl = DeviceMdl({'x': DegPrmMdl(DegMechMdl(mech, mdl_name='m', time_unit='h'), cond_shift_mdl=CondShiftMdl(shift)),
                     'y': DegPrmMdl(DegMechMdl(mech2, mdl_name='m', time_unit='h')),
                     'z': CircPrmMdl(lambda x, temp: temp + 0 * x)})
    cv = {'temp': base_for(rng, ly), 'vdd': 0.5}
    sensors = int(rng.integers(1, 4))
    objs = {'S': StrsSpec(dict(cv), timedelta(hours=float(rng.uniform(1, 9))), 's'), 'M': MeasSpec({'x': n, 'z': n, 'temp': sensors}, dict(cv), 'm'),
            'T': StrsSpec(dict(cv), timedelta(hours=float(rng.uniform(1, 9))), 's2'), 'N': MeasSpec({'z': n, 'x': n}, dict(cv), 'm2')}
    word = 'M' + ''.join(pick(rng, 'SSMMTN') for _ in range(int(rng.integers(2, 9))))
    ctx.describe(layers=(sig, sig2), dims=(lots, chps, n), steps=word, conditions=cv)
    ctx.sig(sig, sig2, lots, chps, n, word)
    test = TestSpec([objs[k] for k in word], chps, lots)
    runs = int(rng.integers(1, 3))
    sens, circ = [], []
    for _ in range(runs):
        rep = gerabaldi.simulate(test, mdl, env)
        for i, k in enumerate(word):
            if k in 'MN':
                circ.append(meas_array(ctx, rep, 'z', i, (lots, chps, n)))
                if k == 'M':
                    sens.append(np.asarray(rows(rep, 'temp', i)['measured'], dtype=float))
    ns, nm = runs * sum(k in 'ST' for k in word), runs * sum(k in 'MN' for k in word)
    for tag, want in (('x', ns), ('y', ns), ('x meas', nm)):
        ctx.equal(len(seen.get(tag, {})), want, 'executing a step again did not draw its conditions anew, once', where=tag)
    for tag, arrs in list((t, list(a.values())) for t, a in seen.items()) + [('z', circ), ('sensor', sens)]:
        parts = [ly.decode_all(a, cv['temp']) for a in arrs]
        for k in range(3):
            if ly.used[k]:
                ctx.check(distinct_sets([set(p[k].ravel()) for p in parts]), 'variation reused when a step is executed again', where=tag, layer=k)
        ctx.count('repeated_draws', len(parts))


def optional(ctx, rng):
    """Conditions that only some steps specify, for equations that do without: each step gives those it has."""
    lots, chps = mk_dims(rng, (2, 3))
    n = int(rng.integers(1, 4))
    names = ['temp', 'vdd', 'hum', 'rad']
    offs = {c: float(rng.integers(-3, 4)) / 4 for c in names if rng.random() < 0.5}
    env = PhysTestEnv({c: EnvVrtnMdl(Deterministic(o)) for c, o in offs.items()})
    log = {}

    def rec(tag, **cv):
        log.setdefault((int(np.ravel(cv.pop('sid'))[0]), tag), []).append({c: (np.shape(v), sorted(set(np.ravel(v).tolist()))) for c, v in cv.items()})

    def m1(time, sid, temp=-1.0, hum=-1.0):
        rec('x', sid=sid, temp=temp, hum=hum)
        return 1e-6 * time

    def m2(time, sid, vdd=-1.0, rad=-1.0):
        rec('x2', sid=sid, vdd=vdd, rad=rad)
        return 1e-6 * time

    def sh(sid, rad=-1.0, temp=-1.0):
        rec('xs', sid=sid, rad=rad, temp=temp)
        return 0.0 * sid

    def cz(x, sid, hum=-1.0, vdd=-1.0):
        rec('z', sid=sid, hum=hum, vdd=vdd)
        return x

    mdl = DeviceMdl({'x': DegPrmMdl({'m1': DegMechMdl(m1, time_unit='h'), 'm2': DegMechMdl(m2, time_unit='h')}, cond_shift_mdl=CondShiftMdl(sh)), 'z': CircPrmMdl(cz)})
    steps = []
    for i in range(int(rng.integers(2, 8))):
        cv = {c: float(rng.integers(1, 400)) for c in rng.permutation(names)[:int(rng.integers(0, 5))]}
        cv = {c: (v if rng.random() < 0.9 else 0.0) for c, v in cv.items()} | {'sid': float(i)}
        steps.append(MeasSpec({'x': n, 'z': n}, cv, f'm{i}') if i == 0 or rng.random() < 0.5 else StrsSpec(cv, timedelta(hours=2), f's{i}'))
    ctx.describe(steps=steps_repr(steps), offsets=offs, dims=(lots, chps, n))
    ctx.sig([sorted(s.conditions) for s in steps], sorted(offs), lots, chps, n)
    gerabaldi.simulate(TestSpec(steps, chps, lots), mdl, env)
    for i, s in enumerate(steps):
        for tag in ('x', 'x2') if isinstance(s, StrsSpec) else ('xs', 'z'):
            ctx.check((i, tag) in log, 'an equation was not evaluated in a step', step=i, equation=tag)
            for seen in log[i, tag]:
                for c, (shape, vals) in seen.items():
                    want = s.conditions[c] + offs.get(c, 0.0) if c in s.conditions else -1.0
                    ctx.check(vals == [want], 'an equation was not given exactly the conditions of the step', step=i, equation=tag, cond=c, got=vals[:4], expected=want)
                    ctx.check(shape == ((lots, chps, n) if c in s.conditions else ()), 'a condition does not have the shape of the population', step=i, equation=tag, cond=c, got=shape)
                    ctx.count('optional_conditions')


def generate(ctx, rng):
    """Conditions generated for given parameters, populations and sensors, without a simulation."""
    lots, chps = mk_dims(rng, (3, 3))
    E = {c: mk(rng, c, 'offset') for c in ('temp', 'vdd')}
    env = PhysTestEnv({c: E[c][0] for c in E})
    mdl = DeviceMdl({'x': DegPrmMdl(DegMechMdl(lambda time, temp, vdd: 0 * time, mdl_name='m', time_unit='h'), cond_shift_mdl=CondShiftMdl(lambda vdd: vdd)),
                     'y': DegPrmMdl(DegMechMdl(lambda vdd, time: 0 * time, mdl_name='m', time_unit='h'), cond_shift_mdl=CondShiftMdl(lambda vdd, temp: vdd + temp)),
                     'z': CircPrmMdl(lambda x, temp: x + temp)})
    target = pick(rng, ['stress', 'measure'])
    needs = {'x': ('temp', 'vdd') if target == 'stress' else ('vdd',), 'y': ('vdd',) if target == 'stress' else ('temp', 'vdd'), 'z': ('temp',)}
    prms = [p for p in ('x', 'y', 'z', 'temp', 'vdd') if rng.random() < 0.7] or ['x']
    rng.shuffle(prms)
    counts = {p: int(rng.integers(1, 5)) for p in prms}
    base = {c: base_for(rng, E[c][1]) for c in ('vdd', 'temp')}
    other = pick(rng, ['other', 'temp_2', 'Temp', 'vdd2', '_temp', 'vd', 'dd'])     # alike, but another name
    base[other] = 5.0
    if rng.random() < 0.5:
        prms.append(other)
        counts[other] = int(rng.integers(1, 5))
    form = pick(rng, ['dict', 'report', 'list'])
    args = dict(dev_mdl=mdl, target=target)
    if form == 'dict':
        args.update(num_chps=chps, num_lots=lots)
        what = dict(counts)
    else:
        rep = SimReport(TestSpec([MeasSpec(dict(counts), {'temp': 1.0, 'vdd': 1.0, other: 1.0})], chps, lots))
        args['test_info'] = rep
        what = dict(counts) if form == 'report' else list(prms)
        if form == 'list' and rng.random() < 0.5:
            args.update(num_chps=chps + 1, num_lots=lots + 2)   # the report decides
    ctx.describe(layers={c: E[c][2] for c in E}, dims=(lots, chps, counts), target=target, form=form)
    ctx.sig({c: E[c][2] for c in E}, lots, chps, sorted(counts.items()), target, form)
    given = (dict(base), dict(counts))
    got = env.gen_env_cond_vals(base, what, **args)
    ctx.equal((base, what if type(what) is dict else counts), given, 'generating conditions changed the values or counts given')
    ctx.equal(sorted(got), sorted(prms), 'conditions are not generated for exactly the requested parameters')
    batch, chip, devs = {}, {}, {}
    for p in prms:
        ctx.equal(sorted(got[p]), sorted(needs.get(p, (p,))), 'a parameter is given other conditions than it depends on', param=p, target=target)
        for c, arr in got[p].items():
            if c == other:
                ctx.equal(np.ravel(arr).tolist(), [5.0] * counts[p], 'a condition without variation model is not exact', cond=c)
                continue
            ly, arr = E[c][1], np.asarray(arr, dtype=float)
            if p in needs:
                ctx.equal(arr.shape, (lots, chps, counts[p]), 'conditions do not have the shape of the population', param=p, cond=c)
            else:
                ctx.equal(arr.size, counts[p], 'number of sensor values', cond=c)
            b, ch, d = ly.decode_all(arr, base[c])
            if ly.used[0]:
                ctx.equal(set(b.ravel()), {batch.setdefault(c, b.ravel()[0])}, 'batch variation differs within a step', cond=c)
            if ly.used[1] and p in needs:
                for i in np.ndindex(lots, chps):
                    ctx.equal(set(ch[i]), {chip.setdefault((c, *i), ch[i][0])}, 'parameters on one chip saw different chip variations', cond=c, chip=i)
            elif ly.used[1]:
                ctx.check(distinct(ch.ravel()), 'two sensors share a chip variation', cond=c)
            if ly.used[2]:
                devs.setdefault(c, []).extend(d.ravel())
            ctx.count('generated_values', arr.size)
    for c in E:
        ctx.check(distinct(devs.get(c, [])), 'two devices share a device variation', cond=c)
        ctx.check(distinct(v for (cc, *_), v in chip.items() if cc == c), 'two chips share a chip variation', cond=c)
    # One layer at a time
    c = pick(rng, ['temp', 'vdd'])
    ev, ly, _ = E[c]
    n = int(rng.integers(1, 5))
    single = pick(rng, [float, np.float64, np.int64 if float(base[c]).is_integer() else np.float64])(base[c])
    one = np.asarray(ev.gen_dev_vrtns(single, n), dtype=float)
    ctx.equal(one.shape, (1, 1, n), 'shape of conditions generated for the devices of one chip', base=type(single).__name__)
    if ly.used[0] or ly.used[1]:
        pass
    elif ly.used[2]:
        devs.setdefault(c, []).extend(np.asarray(ly.decode_all(one, base[c])[2]).ravel())
        ctx.check(distinct(devs[c]), 'two devices share a device variation', cond=c)
    else:
        ctx.check((one == base[c]).all(), 'a layer without variation changes the value', cond=c)
    b0 = ev.gen_batch_vrtn(base[c])
    arr = np.asarray(ev.gen_dev_vrtns(ev.gen_chp_vrtns(b0, chps, lots), n), dtype=float)
    ctx.equal(arr.shape, (lots, chps, n), 'shape of conditions generated layer by layer')
    b, ch, d = ly.decode_all(arr, base[c])
    if ly.used[0]:
        ctx.check(len(set(b.ravel())) == 1, 'devices of one batch have different batch variations')
    if ly.used[1]:
        ctx.check(all(len(set(ch[i])) == 1 for i in np.ndindex(lots, chps)) and distinct(ch[i][0] for i in np.ndindex(lots, chps)), 'chips do not have a variation of their own each')
    if ly.used[2]:
        ctx.check(distinct(d.ravel()), 'two devices share a device variation')


def distinct_sets(sets):
    return len(set().union(*sets)) == sum(len(s) for s in sets) if sets else True


KINDS = [('direct', direct, 300, 8000), ('in_test', in_test, 200, 6000), ('repeated', repeated, 40, 2000), ('optional', optional, 60, 1500), ('generate', generate, 100, 3000)]
MIN_OBSERVED = {'optional_conditions': 1000, 'generated_values': 3000, 'repeated_draws': 300, 'values_decoded': 10000, 'condition_arrays': 1000, 'sensor_readings': 300}
