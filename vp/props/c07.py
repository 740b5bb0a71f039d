"""C07: latent variation is hierarchical: lots, chips and devices each have their own, persistent draw."""
import numpy as np
from datetime import timedelta
from vp.gen import *
from vp.coded import Coded, Layers, distinct

RULE = ('Latent variables with uniquely coded distributions at every subset of the lot/chip/device layers, offset and scaling, with and '
        'without deterministic base, reconfigured after construction or not, sampled directly and as part of full device models. '
        'Every value is decoded into the draws it was composed of. Distinct by layers, operation, dims and where it is used.')
ASSUMPTIONS = ['Custom RandomVar subclasses implementing sample() are accepted, as in the repository\'s own tests.']


def mk(rng, force_dev=False):
    mode = pick(rng, ['offset', 'scaling'])
    used = [bool(rng.integers(2)) for _ in range(3)]
    if force_dev:
        used[2] = True
    base = pick(rng, [0.25, 0.5, 2.0, 4.0, 3, -2, -0.5]) if (not used[2] or rng.random() < 0.5) else None
    if mode == 'offset' and base is not None and abs(base) >= 1:
        base = pick(rng, [0.25, -0.5, 0.0, 7, -300.5, np.float64(1.5)])
    ly = Layers(mode, used, pick(rng, [None, 0.37, 0.625]), rng.random() < 0.2)
    neutral = 0.0 if mode == 'offset' else 1.0
    lv = None
    if rng.random() < 0.5:
        lv = LatentVar(ly.rv[2], ly.rv[1], ly.rv[0], base, pick(rng, [None, 'k']), mode)
    else:
        # Reconfigured after construction, in any order
        other = LatentVar(Normal(5, 1, test_seed=1), pick(rng, [None, Normal(7, 1, test_seed=2)]), pick(rng, [None, Normal(9, 1, test_seed=3)]),
                          pick(rng, [None, 3.3]), None, pick(rng, ['offset', 'scaling']))
        todo = [('dev_vrtn_mdl', ly.rv[2]), ('chp_vrtn_mdl', ly.rv[1]), ('lot_vrtn_mdl', ly.rv[0]), ('deter_val', base), ('vrtn_type', mode)]
        rng.shuffle(todo)
        for k, v in todo:
            setattr(other, k, v)
        lv = other
    return lv, ly, neutral if base is None else base, (mode, tuple(used), base)


def check_hier(ctx, arr, ly, base, dims, where):
    arr = np.asarray(arr)
    ctx.equal(arr.shape, dims, 'sampled values do not have the shape of the population (lots, chips, devices)', where=where)
    lot, chp, dev = ly.decode_all(arr, base)
    ctx.count('values_decoded', arr.size)
    if ly.used[0]:
        ctx.check(all(len(set(lot[i].ravel())) == 1 for i in range(dims[0])), 'devices of one lot have different lot variations', where=where)
        ctx.check(distinct(lot[i, 0, 0] for i in range(dims[0])), 'two lots share a lot variation', where=where)
    if ly.used[1]:
        ctx.check(all(len(set(chp[i, j])) == 1 for i in range(dims[0]) for j in range(dims[1])), 'devices of one chip have different chip variations', where=where)
        ctx.check(distinct(chp[i, j, 0] for i in range(dims[0]) for j in range(dims[1])), 'two chips share a chip variation', where=where)
    if ly.used[2]:
        ctx.check(distinct(dev.ravel()), 'two devices share a device variation', where=where)
    ctx.count('layers_checked', sum(ly.used))


def direct(ctx, rng):
    lv, ly, base, sig = mk(rng)
    dims = tuple(int(x) for x in rng.integers(1, 6, 3))
    ctx.describe(config=sig, dims=dims)
    ctx.sig(sig, dims)
    for rep in range(int(rng.integers(1, 3))):
        args = dict(num_devs=dims[2], num_chps=dims[1], num_lots=dims[0])
        if rng.random() < 0.3:
            got = lv.gen_latent_vals(dims[2], dims[1], dims[0])
        else:
            got = lv.gen_latent_vals(**args)
        check_hier(ctx, got, ly, base, dims, 'direct')
    if rng.random() < 0.3:
        check_hier(ctx, lv.gen_latent_vals(), ly, base, (1, 1, 1), 'defaults')


def zero_base(ctx, rng):
    """A deterministic base of 0 counts as given: scaled it stays 0, offset it is the sum of the draws."""
    ly = Layers('offset', [bool(rng.integers(2)) for _ in range(3)])
    dims = tuple(int(x) for x in rng.integers(1, 5, 3))
    zero = pick(rng, [0, 0.0, -0.0, np.float64(0)])
    ctx.describe(layers=ly.used, dims=dims, zero=repr(zero))
    ctx.sig(ly.used, dims, repr(zero))
    check_hier(ctx, LatentVar(ly.rv[2], ly.rv[1], ly.rv[0], zero, None, 'offset').gen_latent_vals(dims[2], dims[1], dims[0]), ly, 0.0, dims, 'zero base')
    d = [Normal(1, 0.1, test_seed=seed(rng)) if u else None for u in ly.used]
    got = LatentVar(d[2], d[1], d[0], zero, None, 'scaling').gen_latent_vals(dims[2], dims[1], dims[0])
    ctx.close(got, np.zeros(dims), 'a scaled base of 0 is not 0', rel=0)
    ctx.count('zero_bases', 2)


def large(ctx, rng):
    """Populations with hundreds of lots, chips or devices."""
    used = [bool(rng.integers(2)) for _ in range(3)]
    ly = Layers('offset', used)
    dims = large_dims(rng)
    base = pick(rng, [0.25, 0.5])
    ctx.describe(layers=used, dims=dims)
    ctx.sig(used, dims)
    check_hier(ctx, LatentVar(ly.rv[2], ly.rv[1], ly.rv[0], base, None, 'offset').gen_latent_vals(dims[2], dims[1], dims[0]), ly, base, dims, 'large')


def in_state(ctx, rng):
    """All latent variables of a full device model, in the state generated for it."""
    lots, chps = mk_dims(rng, (4, 4))
    L = {}
    for k in ('init', 'mech_a', 'mech_b', 'cond', 'prm', 'circ', 'mech2', 'init2'):
        L[k] = mk(rng)
    p1 = DegPrmMdl({'m1': DegMechMdl(lambda time, a: time * 0 * a, a=L['mech_a'][0]), 'm2': FailMechMdl(lambda time, a, b: 0 * a, a=L['mech_b'][0], b=LatentVar(deter_val=1))},
                   InitValMdl(lambda a: a, a=L['init'][0]), CondShiftMdl(lambda a: 0 * a, a=L['cond'][0]), lambda init, cond, m1, m2, w: init + cond + m1 + m2 + 0 * w, w=L['prm'][0])
    p2 = DegPrmMdl({'m1': DegMechMdl(lambda time, a: time * 0 * a, a=L['mech2'][0])}, InitValMdl(init_val=L['init2'][0]))
    mdl = DeviceMdl({'x': p1, 'y': p2, 'z': CircPrmMdl(lambda x, y, a: x + y + 0 * a, a=L['circ'][0])})
    n = {'x': int(rng.integers(1, 5)), 'y': int(rng.integers(1, 5))}
    nz = int(rng.integers(1, 5))
    n['z'] = nz
    ctx.describe(dims=(lots, chps, n), configs={k: v[3] for k, v in L.items()})
    ctx.sig(lots, chps, n, [v[3] for v in L.values()])
    st = gerabaldi.gen_init_state(mdl, dict(n), chps, lots)
    nx, ny = max(n['x'], nz), max(n['y'], nz)
    lat = st.latent_var_vals

    def chk(k, arr, cnt):
        check_hier(ctx, arr, L[k][1], L[k][2], (lots, chps, cnt), k)

    chk('mech_a', lat['x']['m1']['a'], nx)
    chk('mech_b', lat['x']['m2']['a'], nx)
    chk('cond', lat['x']['cond']['a'], nx)
    chk('prm', lat['x']['w'], nx)
    chk('init', st.init_prm_vals['x'], nx)
    chk('mech2', lat['y']['m1']['a'], ny)
    chk('init2', st.init_prm_vals['y'], ny)
    chk('circ', lat['z']['a'], nz)


def shared(ctx, rng):
    """One distribution, or one latent variable, used in several places: every use draws for itself."""
    lots, chps = mk_dims(rng, (3, 3))
    n = int(rng.integers(1, 4))
    code = Coded('int', 1)
    kind = pick(rng, ['distribution', 'variable'])
    one = LatentVar(code)

    def lv():
        return one if kind == 'variable' else LatentVar(code)

    p1 = DegPrmMdl({'m1': DegMechMdl(lambda time, a, b: 0 * time * a * b, a=lv(), b=lv()), 'm2': DegMechMdl(lambda time, a: 0 * time * a, a=lv())},
                   InitValMdl(init_val=lv()), CondShiftMdl(lambda a: 0 * a, a=lv()), lambda init, cond, m1, m2, w, u: init + 0 * w * u, w=lv(), u=lv())
    p2 = DegPrmMdl({'m1': DegMechMdl(lambda time, a: 0 * time * a, a=lv())}, InitValMdl(init_val=lv()))
    mdl = DeviceMdl({'x': p1, 'y': p2, 'z': CircPrmMdl(lambda x, a, b: x + 0 * a * b, a=lv(), b=lv())})
    ctx.describe(kind=kind, dims=(lots, chps, n))
    ctx.sig(kind, lots, chps, n)
    st = gerabaldi.gen_init_state(mdl, {'x': n, 'y': n, 'z': n}, chps, lots)
    lat = st.latent_var_vals
    every = [lat['x']['m1']['a'], lat['x']['m1']['b'], lat['x']['m2']['a'], lat['x']['cond']['a'], lat['x']['w'], lat['x']['u'], st.init_prm_vals['x'],
             lat['y']['m1']['a'], st.init_prm_vals['y'], lat['z']['a'], lat['z']['b']]
    for a in every:
        ctx.equal(np.shape(a), (lots, chps, n), 'sampled values do not have the shape of the population (lots, chips, devices)')
    vals = [float(v) for a in every for v in np.ravel(a)]
    ctx.check(set(vals) <= code.issued, 'a latent value was never drawn')
    ctx.check(distinct(vals), 'two uses of a distribution share a draw', kind=kind)
    ctx.count('shared_uses', len(every))


class Bits(RandomVar):
    """Every draw is another power of two, so a sum shows which draws it was made of."""

    def __init__(self):
        self._dist_type = 'uniform'
        super().__init__()
        self.n = 0

    def sample(self, quantity=1):
        size = int(np.prod(quantity))
        out = 2.0 ** np.arange(self.n, self.n + size)
        self.n += size
        return out.reshape(quantity)


def one_source(ctx, rng):
    """One distribution object as several layers of a variable: every layer draws for itself."""
    lots, chps, n = int(rng.integers(1, 3)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    used = pick(rng, [(1, 1, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1)])
    b = Bits()
    rv = [b if u else None for u in used]
    lv = LatentVar(rv[2], rv[1], rv[0], None if used[2] else 0, vrtn_type='offset')
    ctx.describe(layers=used, dims=(lots, chps, n))
    ctx.sig(used, lots, chps, n)
    if rng.random() < 0.5:
        arr = lv.gen_latent_vals(n, chps, lots)
    else:
        mdl = DeviceMdl({'x': DegPrmMdl({'m': DegMechMdl(lambda time, a: 0 * time * a, a=lv)})})
        arr = gerabaldi.gen_init_state(mdl, {'x': n}, chps, lots).latent_var_vals['x']['m']['a']
    arr = np.asarray(arr, dtype=float)
    ctx.equal(arr.shape, (lots, chps, n), 'sampled values do not have the shape of the population (lots, chips, devices)')
    ctx.check((arr == np.round(arr)).all() and (arr < 2.0 ** b.n).all(), 'a latent value is not made of draws', values=arr.tolist())
    bits = lambda a: {i for v in np.ravel(a) for i in range(53) if int(v) >> i & 1}
    k = sum(used)
    ctx.check(all(len(bits(v)) == k for v in arr.ravel()), 'a latent value is not one draw per layer', got=arr, layers=used)
    ctx.equal(len(bits(arr)), lots * used[0] + lots * chps * used[1] + lots * chps * n * used[2], 'draws of different lots, chips or devices are the same draw', layers=used, values=arr.tolist())
    for i in range(lots):
        ctx.equal(len(bits(arr[i])), used[0] + chps * used[1] + chps * n * used[2], 'draws of different lots, chips or devices are the same draw', layers=used, values=arr.tolist())
        for j in range(chps):
            ctx.equal(len(bits(arr[i, j])), used[0] + used[1] + n * used[2], 'draws of different lots, chips or devices are the same draw', layers=used, values=arr.tolist())
    ctx.count('one_source_values', arr.size)


def persistent(ctx, rng):
    """What was drawn for a device stays with it through all steps of the test."""
    lots, chps = mk_dims(rng, (3, 4))
    n = int(rng.integers(1, 5))
    lv, ly, base, sig = mk(rng)
    lv2, ly2, base2, sig2 = mk(rng)
    lv3, ly3, base3, sig3 = mk(rng)
    seen = []

    def mech(time, temp, a):
        seen.append(np.array(a))
        return 0.0 * time * a

    mdl = DeviceMdl({'x': DegPrmMdl({'m': DegMechMdl(mech, time_unit='h', a=lv)}, InitValMdl(init_val=LatentVar(deter_val=0.0)), CondShiftMdl(lambda c, temp: c + 0 * temp, c=lv2)),
                     'z': CircPrmMdl(lambda x, c, temp: c + 0 * x, c=lv3)})
    steps = []
    for i in range(int(rng.integers(1, 4)) if rng.random() < 0.85 else int(rng.integers(8, 40))):
        steps += [MeasSpec({'x': n, 'z': int(rng.integers(1, n + 1))}, {'temp': 300.0 + i}), StrsSpec({'temp': 350.0 + i}, timedelta(hours=3 + i))]
    steps.append(MeasSpec({'x': n, 'z': n}, {'temp': 1.0}))
    ctx.describe(configs=(sig, sig2, sig3), dims=(lots, chps, n))
    ctx.sig(sig, sig2, sig3, lots, chps, n, len(steps))
    rep = gerabaldi.simulate(TestSpec(steps, chps, lots), mdl, PhysTestEnv())
    last = len(steps) - 1
    x, z = meas_array(ctx, rep, 'x', last, (lots, chps, n)), meas_array(ctx, rep, 'z', last, (lots, chps, n))
    check_hier(ctx, x, ly2, base2, x.shape, 'conditional shift')
    check_hier(ctx, z, ly3, base3, z.shape, 'circuit')
    for i, s in enumerate(steps):
        if isinstance(s, MeasSpec):
            ctx.close(meas_array(ctx, rep, 'x', i, x.shape), x, 'latent value of a device changed during the test', rel=0, step=i)
            k = s.measurements['z']
            ctx.close(meas_array(ctx, rep, 'z', i, (lots, chps, k)), z[:, :, :k], 'latent value of a circuit changed during the test', rel=0, step=i)
            ctx.count('persistence_checks')
    full = [a for a in seen if a.shape == x.shape]
    ctx.check(len(full) > 0, 'mechanism never saw the latent values of the population')
    for a in full:
        ctx.close(a, full[0], 'latent value of a mechanism changed during the test', rel=0)
    check_hier(ctx, full[0], ly, base, x.shape, 'mechanism')


KINDS = [('direct', direct, 500, 12000), ('zero_base', zero_base, 60, 1000), ('large', large, 10, 200), ('in_state', in_state, 150, 4000), ('shared', shared, 40, 800), ('one_source', one_source, 60, 1000), ('persistent', persistent, 100, 3000)]
MIN_OBSERVED = {'one_source_values': 300, 'shared_uses': 300, 'values_decoded': 20000, 'layers_checked': 1500, 'persistence_checks': 100}
