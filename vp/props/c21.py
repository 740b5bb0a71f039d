"""C21: invalid configurations are rejected with the documented error, before anything is changed."""
import os
import tempfile
import numpy as np
from datetime import timedelta
from vp.gen import *
from gerabaldi.exceptions import UserConfigError, InvalidTypeError, MissingParamError
from gerabaldi.cookbook import htol

RULE = ('Every documented rejection provoked with random surroundings: the documented type of error has to be raised, at the documented moment, and the objects involved must '
        'work afterwards as if the rejected call had never been made. Distinct by rejection and surroundings.')
ASSUMPTIONS = ['Only misuse for which the code base documents or raises a dedicated error is claimed.']


def rejects(ctx, exc, what, f, *a, **kw):
    try:
        f(*a, **kw)
    except exc as e:
        ctx.check(bool(str(e).strip()), f'{what}: rejected without a message')
        ctx.count('rejections')
        ctx.count(f'rejected:{what}')
        return e
    except Exception as e:
        raise Violation(f'{what}: rejected with {type(e).__name__} instead of {exc.__name__}', error=str(e)[:300])
    raise Violation(f'{what}: accepted', args=a, kwargs=kw)


BAD_UNITS = ['minutes', 'hrs', 'H', 'Hours', 'weeks', 'min', 'sec', '', 'ns', 'us ', 'year', 5]


def bad_span(rng):
    return pick(rng, [timedelta(), timedelta(0), timedelta(hours=1) - timedelta(minutes=60)])


def bad_num(rng):
    return pick(rng, [0, 0.0, -0.0])


def negative(ctx, key, what, f, *a):
    """Known finding: only a duration of exactly 0 is rejected."""
    try:
        f(*a)
    except UserConfigError:
        ctx.count('rejections')
    else:
        ctx.known_finding(key, '')


def specs(ctx, rng):
    ctx.sig(ctx.index)
    for u in (None, 'h', 'd', 'us'):
        negative(ctx, 'negative-stress', 'stress phase', StrsSpec, {'temp': 300}, -int(rng.integers(1, 99)), 'x', u)
    negative(ctx, 'negative-stress', 'stress phase', StrsSpec, {'temp': 300}, timedelta(hours=-int(rng.integers(1, 99))))
    rejects(ctx, UserConfigError, 'stress phase without positive duration', StrsSpec, {'temp': 300}, bad_span(rng))
    rejects(ctx, UserConfigError, 'stress phase without positive duration', StrsSpec, {'temp': 300}, bad_num(rng), 'x', pick(rng, [None, 'h', 's', 'd', 'us', 'milliseconds']))
    rejects(ctx, UserConfigError, 'stress phase in unknown unit', StrsSpec, {'temp': 300}, 5, 'x', pick(rng, BAD_UNITS))
    s, m = StrsSpec({'temp': 300}, timedelta(hours=2)), MeasSpec({'p': 1}, {'temp': 300})
    test = TestSpec([pick(rng, [s, m]) for _ in range(int(rng.integers(0, 4)))])
    before = list(test.steps)
    blk = [m, s] if rng.random() < 0.5 else s
    rejects(ctx, UserConfigError, 'loop without positive duration', test.append_steps, blk, bad_span(rng))
    rejects(ctx, UserConfigError, 'loop without positive duration', test.append_steps, blk, bad_num(rng), pick(rng, [None, 'h', 's']))
    negative(ctx, 'negative-loop', 'loop', test.append_steps, blk, -int(rng.integers(1, 99)), pick(rng, [None, 'h', 's']))
    negative(ctx, 'negative-loop', 'loop', test.append_steps, blk, -timedelta(hours=int(rng.integers(1, 99))))
    rejects(ctx, UserConfigError, 'loop in unknown unit', test.append_steps, blk, 4, pick(rng, BAD_UNITS))
    rejects(ctx, UserConfigError, 'loop without stress phase', test.append_steps, pick(rng, [m, [m], [m, m, m]]), pick(rng, [timedelta(hours=4), 4]))
    ctx.equal([id(x) for x in test.steps], [id(x) for x in before], 'rejected steps were added to the test')
    d = int(rng.integers(3, 500))
    i = int(rng.integers(2, d))
    if d % i:
        rejects(ctx, UserConfigError, 'HTOL interval that does not divide the duration', htol, {'p': 1}, strs_meas_intrvl=i, duration_override=d)
    rejects(ctx, FileNotFoundError, 'report file that does not exist', SimReport, file=f'/nonexistent/{int(rng.integers(1 << 40))}.json')


def variables(ctx, rng):
    ctx.sig(ctx.index)
    bad = pick(rng, ['scale', 'Offset', 'SCALING', '', None, 'add', 1])
    rejects(ctx, UserConfigError, 'latent variable without value', LatentVar, **pick(rng, [{}, {'name': 'x'}, {'chp_vrtn_mdl': Normal(1, 1)}, {'lot_vrtn_mdl': Normal(1, 1), 'vrtn_type': 'offset'}]))
    rejects(ctx, InvalidTypeError, 'unknown variation type', LatentVar, Normal(5, 1), vrtn_type=bad)
    rejects(ctx, InvalidTypeError, 'unknown variation type', EnvVrtnMdl, Normal(0, 1), vrtn_type=bad)
    vt = pick(rng, ['scaling', 'offset'])
    lv = LatentVar(Deterministic(3.0), chp_vrtn_mdl=Deterministic(2.0), deter_val=5.0, vrtn_type=vt)
    ev = EnvVrtnMdl(Deterministic(2.0), chp_vrtn_mdl=Deterministic(3.0), vrtn_type=vt)
    for o in (lv, ev):
        rejects(ctx, InvalidTypeError, 'unknown variation type', setattr, o, 'vrtn_type', bad)
        ctx.equal(o.vrtn_type, vt, 'a rejected variation type was kept')
    ctx.close(lv.gen_latent_vals(2, 2, 2), np.full((2, 2, 2), 30.0 if vt == 'scaling' else 10.0), 'a rejected assignment changed the latent variable')
    ctx.close(ev.gen_env_vrtns(7.0, 2, 2, 2), np.full((2, 2, 2), 42.0 if vt == 'scaling' else 12.0), 'a rejected assignment changed the environment variation')
    for rv in (Gamma(), Uniform(), Deterministic(1)):
        rejects(ctx, NotImplementedError, 'centre of a distribution without one', rv.get_centre)
        rejects(ctx, NotImplementedError, 'centre of a distribution without one', rv.set_centre, 5)
    fw = pick(rng, ['stan', 'PyMC', 'tfp', '', None])
    rejects(ctx, NotImplementedError, 'unknown inference framework', pick(rng, [Normal(), Gamma(), Uniform()]).get_cbi_form, fw)
    rejects(ctx, NotImplementedError, 'unknown inference framework', LatentVar(Normal(5, 1), name='x').cbi_export, fw)
    rejects(ctx, UserConfigError, 'inference on a deterministic variable', LatentVar(deter_val=2.0, name='x').cbi_export, pick(rng, ['pymc', 'pyro']))
    # The optional inference libraries are absent in this process: only their use fails, and says what to install
    e = rejects(ctx, ImportError, 'missing optional library', Normal(name='x').get_cbi_form, 'pymc')
    ctx.check('pymc' in str(e), 'the error does not name the missing library')
    e = rejects(ctx, ImportError, 'missing optional library', Normal(name='x').get_cbi_form, 'pyro')
    ctx.check('pyro-ppl' in str(e), 'the error does not name the package to install', message=str(e))


def devices(ctx, rng):
    mech = lambda **k: DegMechMdl(lambda time, a: a * time, a=LatentVar(deter_val=1e-3), **k)
    rejects(ctx, UserConfigError, 'mechanism without a name', DegPrmMdl, pick(rng, [mech(), mech(mdl_name=''), FailMechMdl(lambda time: 0 * time)]))
    rejects(ctx, UserConfigError, 'parameter without a name', DeviceMdl, pick(rng, [DegPrmMdl(mech(mdl_name='m')), CircPrmMdl(lambda vth: vth), DegPrmMdl(mech(mdl_name='m'), prm_name=''), CircPrmMdl(lambda vth: vth, '')]))
    prms = {p: DegPrmMdl({'m': mech(time_unit='h')}, InitValMdl(init_val=LatentVar(deter_val=2.0))) for p in ['vth', 'ids'][:int(rng.integers(1, 3))]}
    if rng.random() < 0.5:
        prms['osc'] = CircPrmMdl(lambda vth: vth * 2)
    mdl = DeviceMdl(prms)
    ctx.sig(sorted(prms), ctx.index)
    rejects(ctx, UserConfigError, 'state without device counts', gerabaldi.gen_init_state, mdl, **pick(rng, [{}, {'num_chps': 3}, {'dev_counts': {}}, {'num_lots': 2, 'dev_counts': None}]))
    state = gerabaldi.gen_init_state(mdl, {p: 3 for p in prms}, 2, 2)
    # A measurement of something that neither the device nor the step defines
    typo = pick(rng, ['vht', 'Vth', 'humid', 'ids2', 'rate', 'cond', 'm'])
    n = int(rng.integers(0, 3))
    good = [MeasSpec({'vth': 2}, {'temp': 300.0}), StrsSpec({'temp': 300.0}, timedelta(hours=1))] * n
    ms = {'vth': 1, typo: 2} if rng.random() < 0.7 else {typo: 1}
    test = TestSpec(good + [MeasSpec(ms, {'temp': 300.0}, 'bad')], 2, 2)
    auto = rng.random() < 0.5
    if auto and typo == 'm' and list(ms) == ['m']:
        auto = False
    # also if the environment knows that name
    env = PhysTestEnv(pick(rng, [None, {typo: EnvVrtnMdl(Normal(0, 1))}]), pick(rng, [None, {typo: MeasInstrument(typo, 3)}]))
    rejects(ctx, MissingParamError, 'measurement of an undefined parameter', gerabaldi.simulate, test, mdl, env, None if auto else state)
    ok = TestSpec([MeasSpec({'vth': 3}, {'temp': 300.0})], 2, 2)
    rep = gerabaldi.simulate(ok, mdl, env, state)
    ctx.close(meas_array(ctx, rep, 'vth', 0, (2, 2, 3)), np.full((2, 2, 3), 2.0), 'a rejected measurement changed the device')
    # Unknown time units of a model are rejected, at the latest when they are needed, never ignored
    u = pick(rng, [x for x in BAD_UNITS if x])
    where = pick(rng, ['mech', 'prm', 'dev'])

    def run():
        p = DegPrmMdl({'m': mech(time_unit=u if where == 'mech' else None)}, time_unit=u if where == 'prm' else None)
        d = DeviceMdl({'vth': p}, time_unit=u if where == 'dev' else None)
        return gerabaldi.simulate(TestSpec([StrsSpec({}, timedelta(hours=1)), MeasSpec({'vth': 1}, {})]), d, env)

    rejects(ctx, UserConfigError, 'model in an unknown time unit', run)
    rejects(ctx, UserConfigError, 'conditions without device counts', env.gen_env_cond_vals, {'temp': 300.0}, ['vth'])
    # Reports
    bu = pick(rng, [x for x in BAD_UNITS])
    before = rep.measurements.copy(deep=True)
    path = os.path.join(tempfile.gettempdir(), f'vp_c21_{os.getpid()}.json')
    try:
        rejects(ctx, UserConfigError, 'export in an unknown unit', rep.export_to_json, path, bu)
        ctx.check(not os.path.exists(path), 'a rejected export wrote a file')
    finally:
        if os.path.exists(path):
            os.remove(path)
    rejects(ctx, UserConfigError, 'conversion to an unknown unit', rep.convert_report_time, bu)
    ctx.check(rep.measurements.equals(before), 'a rejected conversion changed the report')
    rep.convert_report_time('s')
    ctx.equal([float(x) for x in rep.measurements['time']], [0.0] * len(before), 'a rejected conversion changed the report')


KINDS = [('specs', specs, 150, 3000), ('variables', variables, 150, 3000), ('devices', devices, 150, 3000)]
MIN_OBSERVED = {'rejections': 3000}
