"""C23: the initial state is a complete, unaged population of the requested size that no other object shares."""
import numpy as np
from datetime import timedelta
from vp.gen import *
from vp.coded import Coded, distinct
from vp.props.c12 import data, STATE

RULE = ('Random device models (degrading parameters with any number of mechanisms, latents and initial value equations, circuit parameters depending on some of them) and random quantities '
        '(per parameter, some parameters unlisted, conditions listed as well, given directly or by a report, any elapsed time). Every array of the generated state is compared with the declared shape, '
        'unitary value and initial value equation; latents are coded so each value identifies its draw. Generated states are then mutated, simulated and measured. '
        'Distinct by model structure and quantities.')
ASSUMPTIONS = ['Parameters that are not listed may have more instances than a listed circuit parameter needs, or, if none needs them, than the largest number requested.']
MIN_OBSERVED = {'states': 300, 'arrays': 2000}


class Dev:
    def __init__(self, rng):
        self.rng = rng
        self.deg, self.circ, prms = {}, {}, {}
        names = ['vth', 'ids', 'leak', 'rds'] + [f'q{i}' for i in range(int(rng.integers(5, 12)) if rng.random() < 0.05 else 0)]
        rng.shuffle(names)
        for p in names[:int(rng.integers(1, 4)) if len(names) == 4 else len(names)]:
            mechs, units = {}, {}
            for m in (['bti', 'hci', 'em'][:int(rng.integers(0, 4))] if rng.random() > 0.03 else ['bti', 'hci', 'em', 'tddb', 'nc', 'sm', 'x7']):
                u = pick(rng, [None, 0, 1, 1.0, 2.5, -3])
                lat = {l: LatentVar(Coded('int', 1 + 1000 * i)) for i, l in enumerate(['a', 'b'][:int(rng.integers(1, 3))])}
                if len(lat) == 2 and rng.random() < 0.15:
                    lat['b'] = lat['a']      # one variable object in two places
                units[m] = (0 if u is None else u, list(lat))
                kw = {} if u is None else {'unitary_val': u}
                u0 = units[m][0]
                if len(lat) == 1:
                    f = (lambda u0: lambda time, a: u0 + a * time * 1e-6)(u0)
                else:
                    f = (lambda u0: lambda time, b, a: u0 + (a + b) * time * 1e-6)(u0)
                mechs[m] = DegMechMdl(f, time_unit='h', **kw, **lat)
            form = pick(rng, ['default', 'val', 'two', 'scalar', 'number'])
            v, w = Coded('int', 7), Coded('int', 3)
            if form == 'val' and rng.random() < 0.3:
                v = Coded('int', -7, -1)
            if form == 'default':
                init = None
            elif form == 'val':
                init = InitValMdl(init_val=LatentVar(v))
            elif form == 'two':
                init = InitValMdl(lambda w, v: v + 1e8 * w, v=LatentVar(v), w=LatentVar(w))
            elif form == 'scalar':
                init = InitValMdl(lambda v: 2 * v if v >= 0 else None, v=LatentVar(v))
            else:
                init = InitValMdl(init_val=LatentVar(deter_val=4.25))
            cond = CondShiftMdl(lambda temp, tc: tc * (temp - 300), tc=LatentVar(Coded('int', 5))) if rng.random() < 0.5 else None
            kw = {'k': LatentVar(Coded('int', 9))} if mechs and rng.random() < 0.3 else {}
            eqn = None
            if kw:
                eqn = eval(f'lambda init, cond, k, {", ".join(mechs)}: init + cond + 0 * k')
            self.deg[p] = (form, v, w, units, cond is not None, bool(kw))
            prms[p] = DegPrmMdl(mechs if mechs else DegMechMdl(time_unit='h', mdl_name='bare'), init, cond, eqn, **kw)
        for c in (['osc', 'gain'][:int(rng.integers(0, 3))] if len(names) == 4 else [f'osc{i}' for i in range(int(rng.integers(0, 6)))]):
            req = [p for p in self.deg if rng.random() < 0.6] or [next(iter(self.deg))]
            self.circ[c] = req
            prms[c] = CircPrmMdl(eval(f'lambda g, {", ".join(req)}: g + 0 * ({" + ".join(req)})'), g=LatentVar(Coded('int', 11)))
        keys = list(prms)
        rng.shuffle(keys)
        self.mdl = DeviceMdl({k: prms[k] for k in keys}, time_unit=pick(rng, ['h', 'h', 's', 'd', None]))

    def needed(self, cnt):
        """Instances needed of every parameter, exactly for those listed."""
        need = dict(cnt)
        for c, req in self.circ.items():
            for p in req:
                if c in cnt:
                    need[p] = max(need.get(p, 1), cnt[c])
        return need


def arrays(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from arrays(v, path + (k,))
    else:
        yield path, x


def verify(ctx, d, st, cnt, chps, lots, elapsed):
    need = d.needed({p: n for p, n in cnt.items() if p in d.deg or p in d.circ})
    ctx.check(isinstance(st, SimState), 'not a state')
    ctx.equal(st.elapsed, elapsed, 'the initial state starts at another time')
    ctx.equal(set(st.init_prm_vals), set(d.deg), 'the state does not hold the degrading parameters')
    ctx.equal(set(st.curr_prm_vals), set(d.deg), 'the state does not hold the degrading parameters')
    ctx.equal(set(st.init_deg_mech_vals), set(d.deg), 'the state does not hold the mechanisms of all parameters')
    ctx.equal(set(st.latent_var_vals), set(d.deg) | set(d.circ), 'the state does not hold the latents of all parameters')
    for p, (form, v, w, units, shift, k) in d.deg.items():
        init = np.asarray(st.init_prm_vals[p])
        ctx.check(init.ndim == 3 and init.shape[:2] == (lots, chps), 'the population is not lots x chips x devices', param=p, got=init.shape, lots=lots, chips=chps)
        n = init.shape[2]
        if p in cnt:
            ctx.equal(n, need[p], 'number of instances differs from the requested one', param=p, counts=cnt)
        else:
            ctx.check(n >= need.get(p, max(need.values(), default=1)), 'too few instances of an unlisted parameter', param=p, got=n, counts=cnt)
        ctx.equal(np.asarray(st.curr_prm_vals[p]).tolist(), init.tolist(), 'a new device is already aged', param=p)
        # initial values
        vals = [float(x) for x in init.ravel()]
        if form in ('default', 'number'):
            ctx.equal(set(vals), {0.0 if form == 'default' else 4.25}, 'initial values differ from the initial value model', param=p, form=form)
        else:
            parts = {'val': lambda x: (x, None), 'scalar': lambda x: (x / 2, None), 'two': lambda x: (x % 1e8, x // 1e8)}[form]
            vs, ws = zip(*[parts(x) for x in vals])
            ctx.check(set(vs) <= v.issued and distinct(vs), 'initial values are not the equation of one draw per device', param=p, form=form, got=sorted(vs)[:5])
            if form == 'two':
                ctx.check(set(ws) <= w.issued and distinct(ws), 'initial values are not the equation of one draw per device', param=p, form=form, got=sorted(ws)[:5])
        # mechanisms at their neutral value
        got = st.init_deg_mech_vals[p]
        if units:
            ctx.equal(set(got), set(units), 'the state does not hold the mechanisms of the parameter', param=p)
        for m, arr in got.items():
            u = units[m][0] if m in units else np.asarray(arr).ravel()[0]
            ctx.close(arr, np.full((lots, chps, n), u), 'a mechanism does not start at its neutral value', param=p, mech=m)
            ctx.close(st.curr_deg_mech_vals[p][m], np.full((lots, chps, n), u), 'a mechanism does not start at its neutral value', param=p, mech=m)
        # latents
        lat = st.latent_var_vals[p]
        for m, (_, ls) in units.items():
            ctx.equal(set(lat[m]), set(ls), 'latents of a mechanism missing', param=p, mech=m)
            for l in ls:
                coded(ctx, lat[m][l], (lots, chps, n), d.mdl.prm_mdl(p).mech_mdl(m).latent_var(l).dev_vrtn_mdl, (p, m, l))
        if shift:
            coded(ctx, lat['cond']['tc'], (lots, chps, n), d.mdl.prm_mdl(p).cond_mdl.latent_var('tc').dev_vrtn_mdl, (p, 'cond'))
        if k:
            coded(ctx, lat['k'], (lots, chps, n), d.mdl.prm_mdl(p).latent_var('k').dev_vrtn_mdl, (p, 'k'))
        ctx.count('arrays', 3 + len(units))
    for c in d.circ:
        g = np.asarray(st.latent_var_vals[c]['g'])
        if c in cnt:
            ctx.equal(g.shape, (lots, chps, cnt[c]), 'latents of a circuit parameter have the wrong shape', param=c)
        coded(ctx, g, (lots, chps, g.shape[2]), d.mdl.prm_mdl(c).latent_var('g').dev_vrtn_mdl, (c, 'g'))
    ctx.count('states')


def coded(ctx, arr, shape, rv, what):
    arr = np.asarray(arr, dtype=float)
    ctx.equal(arr.shape, shape, 'latent values have the wrong shape', what=what)
    vals = arr.ravel().tolist()
    ctx.check(set(vals) <= rv.issued and distinct(vals), 'latent values are not one draw per device', what=what)
    ctx.count('arrays')


def mk_counts(rng, d):
    cnt = {}
    for p in list(d.deg) + list(d.circ):
        if rng.random() < 0.65:
            cnt[p] = int(rng.integers(1, 6)) if rng.random() > 0.01 else int(rng.integers(300, 1500))
    if not cnt:
        cnt[pick(rng, list(d.deg))] = 2
    if rng.random() < 0.3:
        cnt['temp'] = int(rng.integers(1, 4))
    keys = list(cnt)
    rng.shuffle(keys)
    return {k: cnt[k] for k in keys}


def no_alias(ctx, st, others):
    """All arrays of a state are its own."""
    mine = [(a, p, x) for a in STATE if a != 'elapsed' for p, x in arrays(getattr(st, a))]
    for i, (a, p, x) in enumerate(mine):
        for b, q, y in mine[i + 1:]:
            ctx.check(not np.shares_memory(x, y), 'two parts of a state share their memory', parts=((a, p), (b, q)))
    for o in others:
        for a, p, x in mine:
            for b in STATE[1:]:
                for q, y in arrays(getattr(o, b)):
                    ctx.check(not np.shares_memory(x, y), 'two states share their memory', parts=((a, p), (b, q)))


def direct(ctx, rng):
    d = Dev(rng)
    lots, chps = mk_dims(rng, (3, 4, 0))
    cnt = mk_counts(rng, d)
    el, kw = timedelta(), {}
    if rng.random() < 0.6:
        el = pick(rng, [0, timedelta(), 5, 2.5, 1, 1.0, timedelta(days=3, microseconds=7), timedelta(hours=0.25), 1e-3, 0.0, 20000])
        kw = {'elapsed_time': el}
        if not isinstance(el, timedelta):
            el = timedelta(hours=el)
    given = dict(cnt)
    omit = []
    if rng.random() < 0.25:
        omit = pick(rng, [['num_chps'], ['num_lots'], ['num_chps', 'num_lots']])
        chps, lots = 1 if 'num_chps' in omit else chps, 1 if 'num_lots' in omit else lots
    ctx.describe(counts=cnt, dims=(lots, chps), elapsed=str(el), params={p: (v[0], v[3]) for p, v in d.deg.items()}, circuits=d.circ)
    if omit:
        st = gerabaldi.gen_init_state(d.mdl, cnt, **{k: v for k, v in (('num_chps', chps), ('num_lots', lots)) if k not in omit}, **kw)
    elif rng.random() < 0.5:
        st = gerabaldi.gen_init_state(d.mdl, cnt, chps, lots, **kw)
    else:
        st = gerabaldi.gen_init_state(dev_mdl=d.mdl, dev_counts=cnt, num_lots=lots, num_chps=chps, **kw)
    ctx.equal(cnt, given, 'generating a state changes the requested quantities')
    verify(ctx, d, st, cnt, chps, lots, el)
    # a second state of the same device: other draws, nothing shared, untouched by changes of the first
    st2 = gerabaldi.gen_init_state(d.mdl, cnt, chps, lots)
    verify(ctx, d, st2, cnt, chps, lots, timedelta())
    no_alias(ctx, st, [st2])
    for p, (form, *_) in d.deg.items():
        if form in ('val', 'two', 'scalar'):
            ctx.check(not set(st.init_prm_vals[p].ravel()) & set(st2.init_prm_vals[p].ravel()), 'two populations share draws', param=p)
    snap = {a: data(getattr(st2, a)) for a in STATE}
    for a in STATE[1:]:
        for _, x in arrays(getattr(st, a)):
            if x.size and x.flags.writeable:
                x[...] = -1
    ctx.equal({a: data(getattr(st2, a)) for a in STATE}, snap, 'a state changes with another one')
    ctx.sig(cnt, lots, chps, [(p, v[0], list(v[3]), v[4], v[5]) for p, v in d.deg.items()], d.circ)


def by_report(ctx, rng):
    """The state of a test: as needed by its measurements; the first neutral measurement gives the initial values."""
    d = Dev(rng)
    lots, chps = mk_dims(rng, (3, 4, 0))
    steps, cnt = [], {}
    for i in range(int(rng.integers(1, 4))):
        c = {p: n for p, n in mk_counts(rng, d).items()}
        for p, n in c.items():
            cnt[p] = max(cnt.get(p, 0), n)
        steps.append(MeasSpec(c, {'temp': 300}, f'm{i}'))
    test = TestSpec(steps, chps, lots)
    rep = SimReport(test)
    ctx.describe(counts=cnt, dims=(lots, chps), params={p: (v[0], v[3]) for p, v in d.deg.items()}, circuits=d.circ)
    ctx.equal({p: n for p, n in rep.dev_counts.items()}, cnt, 'the report of a test does not start with the quantities of its measurements')
    el = pick(rng, [timedelta(), timedelta(hours=3), 4])
    st = gerabaldi.gen_init_state(d.mdl, quantity_info=rep, elapsed_time=el)
    verify(ctx, d, st, cnt, chps, lots, el if isinstance(el, timedelta) else timedelta(hours=el))
    for p in d.deg:
        ctx.equal(rep.dev_counts.get(p), st.init_prm_vals[p].shape[2], 'the report does not tell how many instances are simulated', param=p)
    res = gerabaldi.simulate(test, d.mdl, PhysTestEnv(), st)
    for i, s in enumerate(steps):
        for p, n in s.measurements.items():
            if p in d.deg and not (d.deg[p][3] and any(u for u, _ in d.deg[p][3].values())):
                got = meas_array(ctx, res, p, i, (lots, chps, n))
                ctx.close(got, st.init_prm_vals[p][:, :, :n], 'the first measurement of new devices differs from their initial values', param=p, step=i)
                ctx.count('neutral_measurements')
            elif p in d.circ:
                got = meas_array(ctx, res, p, i, (lots, chps, n))
                ctx.close(got, st.latent_var_vals[p]['g'][:, :, :n], 'measured circuit values are not those of the devices of the state', param=p, step=i)
    ctx.sig(cnt, lots, chps, len(steps), [(p, v[0], list(v[3])) for p, v in d.deg.items()], d.circ)


def omitted(ctx, rng):
    """Sizes left out are 1 for every part of a device model, those given are kept."""
    d = Dev(rng)
    given = {k: int(rng.integers(1, 5)) for k in ('num_devs', 'num_chps', 'num_lots') if rng.random() < 0.5}
    want = tuple(given.get(k, 1) for k in ('num_lots', 'num_chps', 'num_devs'))

    def look(x, what):
        for path, a in arrays(x):
            ctx.equal(np.shape(a), want, 'a size that is left out is not 1', what=(what,) + path, given=given)
            ctx.count('arrays')
    for p in list(d.deg) + list(d.circ):
        m = d.mdl.prm_mdl(p)
        look(m.gen_latent_vals(**given), (p, 'latents'))
        if p in d.deg:
            look(m.gen_init_mech_vals(**given), (p, 'mechanisms'))
            look(m.init_mdl.gen_init_vals(**given), (p, 'initial values'))
            look(m.init_mdl.gen_latent_vals(**given), (p, 'latents of the initial values'))
            for n in m.mech_mdl_list:
                look(m.mech_mdl(n).gen_latent_vals(**given), (p, n, 'latents'))
    sizes = {k: v for k, v in given.items() if k != 'num_devs'}
    st = d.mdl.gen_init_state({p: given.get('num_devs', 1) for p in list(d.deg) + list(d.circ)}, **sizes)
    for a in STATE:
        if a != 'elapsed':
            look(getattr(st, a), a)
    ctx.describe(sizes=given, params={p: (v[0], v[3]) for p, v in d.deg.items()}, circuits=d.circ)
    ctx.sig(sorted(given.items()), [(p, v[0], list(v[3]), v[4], v[5]) for p, v in d.deg.items()], d.circ)


KINDS = [('omitted', omitted, 60, 1000), ('direct', direct, 300, 12000), ('by_report', by_report, 150, 6000)]
