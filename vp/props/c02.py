"""C02: every requested measurement is reported exactly once, under the label of the device it belongs to."""
import numpy as np
from datetime import timedelta
from vp.gen import *
from vp.coded import Coded

RULE = ('Random populations (distinct numbers of lots, chips, devices), several parameters (degrading, circuit) and conditions, with '
        'counts that vary between steps, in one report. Every device carries unique coded identities in its initial value and in '
        'its circuit latent, so each reported row is traced back to the very device it came from. Non-trivial: more than one device '
        'in total; distinct by dims, counts and steps.')
ASSUMPTIONS = ['Initial values read from the public SimState.']


def labels(ctx, rng, large=False):
    lots, chps = mk_dims(rng, (4, 4))
    most = 5
    if large:
        lots, chps, most = large_dims(rng)
    names = ['vth', pick(rng, ['gm', 'VTH', 'Gm (mS)']), pick(rng, ['ron', 'r on', 'ron.2', 'Vth'])][: int(rng.integers(1, 4))]
    codes = {p: Coded('int', start=1000 * (i + 1)) for i, p in enumerate(names)}
    prms = {}
    for p in names:
        prms[p] = DegPrmMdl({'wear': DegMechMdl(lambda time, temp: 0 * time * temp, time_unit='h')}, InitValMdl(init_val=LatentVar(codes[p])))
    circ = rng.random() < 0.6
    ccode = Coded('int', start=500000)
    if circ:
        prms['freq'] = CircPrmMdl(lambda vth, tag: vth + 1e6 * tag, tag=LatentVar(ccode))
    order = list(prms)
    rng.shuffle(order)
    mdl = DeviceMdl({p: prms[p] for p in order})
    steps = []
    hum = pick(rng, ['hum', 'rel. hum', 'Temp'])
    conds_pool = ['temp', 'vdd', hum]
    for i in range(int(rng.integers(1, 6 if not large else 2))):
        ms = {}
        want = [p for p in order + conds_pool if rng.random() < 0.6]
        rng.shuffle(want)
        for p in want:
            ms[p] = int(rng.integers(1, 6)) if not large else most
        if not ms:
            ms = {'vth': max(2, most - 5)}
        bare = not any(c in ms for c in conds_pool) and rng.random() < 0.5
        steps.append(MeasSpec(ms, {} if bare else {'temp': 300.0 + i, 'vdd': 1.0 + i / 8, hum: 50 + i}, f'm{i}'))
        if rng.random() < 0.15:
            steps.append(pick(rng, [s for s in steps if isinstance(s, MeasSpec)]))      # measured again
        if rng.random() < 0.5:
            steps.append(StrsSpec({'temp': 400.0}, timedelta(hours=3)))
    if not any(p in prms for s in steps if isinstance(s, MeasSpec) for p in s.measurements):
        steps.append(MeasSpec({'vth': 2}, {'temp': 1.0}))
    spec = TestSpec(steps, chps, lots)
    need = {}
    for s in steps:
        if isinstance(s, MeasSpec):
            for p, n in s.measurements.items():
                need[p] = max(n, need.get(p, 0))
    ctx.equal(spec.calc_samples_needed(), need, 'samples needed are not the maximum over the measurement steps')
    state = gerabaldi.gen_init_state(mdl, spec.calc_samples_needed(), chps, lots) if rng.random() < 0.7 else None
    ctx.describe(steps=steps_repr(steps), dims=(lots, chps), order=order)
    ctx.sig(lots, chps, order, [sorted(getattr(s, 'measurements', {}).items()) for s in steps])
    rep = gerabaldi.simulate(spec, mdl, PhysTestEnv(), state)
    df = table(rep.measurements, MEAS_COLS)
    total = 0
    seen = {}
    for i, s in enumerate(steps):
        if not isinstance(s, MeasSpec):
            continue
        for p, n in s.measurements.items():
            if p in prms:
                got = meas_array(ctx, rep, p, i, (lots, chps, n))
                total += got.size
                ctx.count('parameter_rows', int(got.size))
                # Same device, same identity, at any time and whatever the number of measured devices
                for (l, c, d), v in np.ndenumerate(got):
                    ctx.check(seen.setdefault((p, l, c, d), v) == v, 'label names different devices in different steps', param=p, label=(l, c, d), step=i, got=v, before=seen[p, l, c, d])
                if p == 'freq':
                    # Composed of the parameter and the latent of the same device
                    tag = np.floor(got / 1e6)
                    ctx.check(all(int(x) in ccode.issued for x in tag.ravel()), 'circuit parameter with a latent value that was never drawn', step=i)
                    vth = got - tag * 1e6
                    ctx.check(all(int(x) in codes['vth'].issued for x in vth.ravel()), 'circuit parameter with a parameter value that does not exist', step=i)
                    if state is not None:
                        ctx.close(vth, state.init_prm_vals['vth'][:, :, :n], 'circuit parameter of another device', rel=0, step=i)
                    for (l, c, d), v in np.ndenumerate(vth):
                        ctx.check(seen.setdefault(('vth', l, c, d), v) == v, 'circuit parameter combines different devices', label=(l, c, d), step=i)
                else:
                    ctx.check(all(int(x) in codes[p].issued for x in got.ravel()), 'measured value belongs to no device of this parameter', param=p, step=i)
                    if state is not None:
                        ctx.close(got, state.init_prm_vals[p][:, :, :n], 'value reported under the label of another device', rel=0, param=p, step=i)
            else:
                mine = rows(rep, p, i)
                total += n
                ctx.equal(len(mine), n, 'number of condition readings differs from the number of sensors', cond=p, step=i)
                ctx.check((mine['measured'] == s.conditions[p]).all(), 'condition reading of an ideal environment differs from the specification', cond=p, step=i)
                ctx.check(mine[['lot #', 'chip #', 'device #']].isna().all().all(), 'condition readings do not belong to any device', cond=p, step=i)
                ctx.count('condition_rows', n)
    ctx.equal(len(df), total, 'rows beyond the requested measurements')
    for p in list(prms):
        vals = [v for k, v in seen.items() if k[0] == p]
        ctx.equal(len(set(vals)), len(vals), 'two labels share one device', param=p)


def large(ctx, rng):
    """Populations with hundreds of lots, chips, devices or sensors."""
    labels(ctx, rng, True)
    ctx.count('large_populations')


class Odd(RandomVar):
    """Values that look like none, repeat, or are no numbers."""

    def __init__(self, rng):
        super().__init__('uniform')
        self.rng = rng

    def sample(self, quantity=1):
        pool = [np.nan, np.inf, -np.inf, 0.0, -0.0, 1.0, 1.0, -1.0, 5e-324, 1e308]
        return np.array([pool[i] for i in self.rng.integers(len(pool), size=int(np.prod(quantity)))]).reshape(quantity)


def odd(ctx, rng):
    """Every device is reported whatever its value: missing, infinite, zero or equal to that of others."""
    lots, chps = mk_dims(rng, (4, 4))
    mdl = DeviceMdl({'vth': DegPrmMdl({'w': DegMechMdl(lambda time: 0 * time, time_unit='h')}, InitValMdl(init_val=LatentVar(Odd(rng)))), 'f': CircPrmMdl(lambda vth: -vth)})
    n, k = int(rng.integers(1, 6)), int(rng.integers(1, 4))
    steps = [MeasSpec({'vth': int(rng.integers(1, n + 1)), 'temp': k, 'f': int(rng.integers(1, n + 1))}, {'temp': pick(rng, [0, 0.0, -1, float('inf')])}, 'm') for _ in range(int(rng.integers(1, 4)))]
    state = gerabaldi.gen_init_state(mdl, {'vth': n, 'f': n}, chps, lots)
    ctx.describe(dims=(lots, chps, n), steps=steps_repr(steps))
    ctx.sig(lots, chps, n, [sorted(s.measurements.items()) for s in steps])
    rep = gerabaldi.simulate(TestSpec(steps, chps, lots), mdl, PhysTestEnv(), state)
    v = np.asarray(state.init_prm_vals['vth'])
    for i, s in enumerate(steps):
        for p, sg in (('vth', 1), ('f', -1)):
            m = s.measurements[p]
            got = meas_array(ctx, rep, p, i, (lots, chps, m))
            ctx.close(got, sg * v[:, :, :m], 'value reported under the label of another device', rel=0, param=p, step=i)
            ctx.count('odd_values', got.size)
        mine = rows(rep, 'temp', i)['measured'].tolist()
        ctx.equal(mine, [s.conditions['temp']] * k, 'condition readings differ from one per sensor', step=i)
    ctx.equal(len(rep.measurements), sum(lots * chps * (s.measurements['vth'] + s.measurements['f']) + k for s in steps), 'rows beyond the requested measurements')


def formatting(ctx, rng):
    """The formatter on its own, for 3D, 2D and 1D data."""
    nd = int(rng.integers(1, 4))
    shape = tuple(int(x) for x in rng.integers(1, 6, nd)) if rng.random() < 0.95 else large_dims(rng)[:nd]
    st0 = 50 if rng.random() < 0.9 else 5000
    vals = rng.permutation(int(np.prod(shape))).reshape(shape) * 10.0 ** int(rng.integers(-12, 13)) / 7 + pick(rng, [0.0, 1.0, 1e3])
    full = (1,) * (3 - nd) + shape
    arg = pick(rng, [vals, vals.tolist()])
    t = mk_dur(rng)
    st = int(rng.integers(st0))
    df = table(SimReport.format_measurements(arg, 'q', t, st), MEAS_COLS)
    ctx.sig(nd, shape)
    ctx.describe(shape=shape)
    ctx.equal(len(df), vals.size, 'number of formatted rows')
    got = np.full(full, np.nan)
    for l, c, d, v in zip(df['lot #'], df['chip #'], df['device #'], df['measured']):
        got[int(l), int(c), int(d)] = v
    ctx.close(got, vals.reshape(full), 'formatted under wrong labels', rel=0)
    ctx.check((df['param'] == 'q').all() and (df['step #'] == st).all() and (pd.to_timedelta(df['time']) == pd.Timedelta(t)).all(), 'formatted rows misdescribe the measurement')


KINDS = [('labels', labels, 400, 12000), ('large', large, 8, 100), ('odd', odd, 100, 2000), ('formatting', formatting, 200, 2000)]
MIN_OBSERVED = {'parameter_rows': 5000, 'condition_rows': 500, 'large_populations': 8, 'odd_values': 1000}
