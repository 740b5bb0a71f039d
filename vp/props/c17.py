"""C17: the transpiled (PyMC, Pyro) form of a variable or model is the same random variable the simulator samples."""
import numpy as np
import pymc
import pyro
import torch
from scipy import stats
from gerabaldi.exceptions import UserConfigError
from vp.gen import *

torch.set_num_threads(1)

RULE = ('Latent variables with every combination of device, chip and lot layer, scaling and offset, with and without a deterministic value, integer and float parameters, and mechanism, '
        'shift and initial value models around them are exported to PyMC and Pyro. The joint program is recorded (PyMC: the model\'s variables, Pyro: an execution trace), log densities of every site are '
        'compared with SciPy\'s for the distribution the simulator samples from, the combination of the sites with NumPy. Distinct by structure and framework.')
ASSUMPTIONS = ['PyMC, Pyro and SciPy implement the log densities of the normal, gamma and uniform distribution correctly.']
MIN_OBSERVED = {'sites_compared': 50}
KEY = 'scaling-deter-sigma'


def rv(rng, kind=None, centre=None, ints=False):
    """A random variable and SciPy's form of it."""
    k = kind or pick(rng, ['normal', 'gamma', 'uniform'])
    if ints:
        a, b = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        if k == 'uniform':
            b += a
    elif k == 'normal':
        a, b = float(rng.uniform(-3, 3)) if centre is None else centre, loguni(rng, 0.05, 3)
    elif k == 'gamma':
        a, b = float(rng.uniform(0.7, 9)) if rng.random() < 0.8 else loguni(rng, 0.1, 300), loguni(rng, 0.1, 10)
    else:
        a = float(rng.uniform(-3, 3))
        b = a + loguni(rng, 0.1, 5)
    s = seed(rng)
    cls = {'normal': Normal, 'gamma': Gamma, 'uniform': Uniform}[k]
    return (lambda: cls(a, b, test_seed=s)), (k, a, b)


def sci(p):
    k, a, b = p
    return {'normal': lambda: stats.norm(a, b), 'gamma': lambda: stats.gamma(a, scale=1 / b), 'uniform': lambda: stats.uniform(a, b - a)}[k]()


def points(d):
    return np.concatenate([d.ppf([0.02, 0.3, 0.6, 0.97]), [d.ppf(0.001) - 0.5 * d.std()]])


class Program:
    """What an export produced: the random sites and the value of the variable as a function of theirs."""

    def __init__(self, fw, build):
        self.fw = fw
        if fw == 'pymc':
            with pymc.Model() as self.m:
                self.out = build()
            self.sites = {v.name: v for v in self.m.free_RVs}
            self.observed = {v.name: v for v in self.m.observed_RVs}
            self.derived = {v.name for v in self.m.deterministics}
        else:
            pyro.clear_param_store()
            self.build = build
            self.tr = pyro.poutine.trace(build).get_trace()
            nodes = {n: s for n, s in self.tr.nodes.items() if s['type'] == 'sample'}
            self.sites = {n: s for n, s in nodes.items() if not s['is_observed']}
            self.observed = {n: s for n, s in nodes.items() if s['is_observed']}

    def logp(self, name, x):
        site = {**self.sites, **self.observed}[name]
        if self.fw == 'pymc':
            return np.asarray(pymc.logp(site, np.asarray(x)).eval(), dtype=float)
        fn = site['fn']
        out = []
        for v in np.ravel(x):
            t = torch.tensor(float(v), dtype=torch.float64)
            try:
                out.append(float(fn.log_prob(t)))
            except ValueError:  # outside of the support
                out.append(-np.inf)
        return np.array(out).reshape(np.shape(x))

    def value(self, vals):
        """The exported variable for given values of the sites."""
        if self.fw == 'pymc':
            return float(self.out.eval({self.sites[n]: v for n, v in vals.items()}, on_unused_input='ignore'))
        t = {n: torch.tensor(float(v), dtype=torch.float64) for n, v in vals.items()}
        return float(pyro.poutine.condition(self.build, data=t)())


def same_dist(ctx, prog, name, d, what, **kw):
    x = points(d)
    got, want = prog.logp(name, x), d.logpdf(x)
    rel = 1e-7 if prog.fw == 'pymc' else 2e-4
    ctx.close(got, want, what, rel=rel, abs_=rel, site=name, framework=prog.fw, **kw)
    ctx.count('sites_compared')


def fits(prog, name, d):
    x = points(d)
    got, want = prog.logp(name, x), d.logpdf(x)
    rel = 1e-7 if prog.fw == 'pymc' else 2e-4
    return np.all((np.abs(got - want) <= rel * (1 + np.abs(want))) | (got == want))


def make(rng, named=True):
    ints = rng.random() < 0.2
    vt = pick(rng, ['scaling', 'offset'])
    det = None
    if rng.random() < 0.4:
        det = int(rng.integers(1, 6)) if ints else float(rng.uniform(0.3, 4) * pick(rng, [1, 1, -1]))
        if vt == 'offset' and rng.random() < 0.2:
            det = pick(rng, [0, 0.0])
    dev, pd_ = rv(rng, 'normal' if det is not None else None, pick(rng, [0.0, 1.0, None]) if det is not None else None, ints)
    lay = {'dev': (dev, pd_)}
    for l in ('chp', 'lot'):
        if rng.random() < 0.5:
            lay[l] = rv(rng, ints=ints)
    name = pick(rng, ['x', 'vth', 'a_0']) if named else None

    # Layers that have a name of their own, variables that are named later or renamed
    own = {l: pick(rng, ['mine', l, 'q']) for l in lay if rng.random() < 0.3}
    first = pick(rng, [name, name, None, 'before']) if named else None

    def build():
        rvs = {l: lay[l][0]() for l in lay}
        for l, nm in own.items():
            rvs[l].name = nm
        v = LatentVar(rvs['dev'], rvs.get('chp'), rvs.get('lot'), deter_val=det, name=first, vrtn_type=vt)
        if name != first:
            v.name = name
        return v
    return build, {l: p for l, (_, p) in lay.items()}, vt, det, name


def expect_sites(lay, name):
    if set(lay) == {'dev'}:
        return {'dev': name}
    return {l: f'{name}_{l}' for l in lay}


def dev_dists(lay, vt, det):
    """The correct distribution of the device site and the one the known finding exports."""
    k, a, b = lay['dev']
    if det is None:
        return sci(lay['dev']), None
    if vt == 'offset':
        return stats.norm(a + det, b), None
    return stats.norm(a * det, b * abs(det)), stats.norm(a * det, b)


def check_latent(ctx, prog, lay, vt, det, name, rng):
    want = expect_sites(lay, name)
    ctx.check(set(want.values()) <= set(prog.sites), 'an exported variable misses one of its variation layers', want=sorted(want.values()), got=sorted(prog.sites), framework=prog.fw)
    for l in lay:
        if l != 'dev':
            same_dist(ctx, prog, want[l], sci(lay[l]), f'the {l} layer of an exported variable has another distribution')
    right, known = dev_dists(lay, vt, det)
    if known is not None and not fits(prog, want['dev'], right) and fits(prog, want['dev'], known):
        ctx.known_finding(KEY, '')
        ctx.count('known_finding_seen')
        ctx.count('sites_compared')
    else:
        same_dist(ctx, prog, want['dev'], right, 'an exported variable has another distribution than the simulator samples', deterministic=det, vrtn=vt)
    return want


def latent(ctx, rng):
    build, lay, vt, det, name = make(rng)
    fw = pick(rng, ['pymc', 'pyro'])
    v, twin = build(), build()
    ctx.describe(layers=lay, vrtn=vt, deterministic=det, framework=fw)
    prog = Program(fw, lambda: v.cbi_export(fw) if fw != 'pymc' or rng.random() < 0.5 else v.cbi_export())
    ctx.equal(sorted(prog.sites), sorted(expect_sites(lay, name).values()), 'the random sites of an exported variable are not its variation layers', framework=fw)
    want = check_latent(ctx, prog, lay, vt, det, name, rng)
    ctx.check(not prog.observed, 'a latent variable is exported as observed')
    if fw == 'pymc' and len(lay) > 1:
        ctx.check(name in prog.derived, 'the exported variable is not registered under its name', got=prog.m.named_vars.keys())
    for _ in range(2):
        vals = {want[l]: float(sci(lay[l]).ppf(rng.uniform(0.05, 0.95))) for l in lay}
        x = list(vals.values())
        ctx.close(prog.value(vals), np.prod(x) if vt == 'scaling' else np.sum(x), 'the layers of an exported variable are not combined as declared', rel=1e-6, abs_=1e-9, framework=fw, vrtn=vt)
    # No side effects: the same stream of values as a variable that was not exported, a second export is the same
    ctx.equal(v.gen_latent_vals(3, 2, 2).tolist(), twin.gen_latent_vals(3, 2, 2).tolist(), 'exporting a variable changes what it samples', framework=fw)
    fw2 = pick(rng, ['pymc', 'pyro'])
    prog2 = Program(fw2, lambda: v.cbi_export(fw2))
    check_latent(ctx, prog2, lay, vt, det, name, rng)
    ctx.count('exports', 2)
    ctx.sig(tuple(sorted(lay)), [p[0] for p in lay.values()], vt, det is None, fw, fw2)


def plain(ctx, rng):
    """A random variable by itself, without and with observed values."""
    b, p = rv(rng, ints=rng.random() < 0.3)
    r, twin = b(), b()
    fw = pick(rng, ['pymc', 'pyro'])
    obs = None
    if rng.random() < 0.6:
        obs = sci(p).rvs(int(rng.integers(1, 6)), random_state=int(rng.integers(1 << 30)))
        if str(p[0]).lower() == 'normal' and rng.random() < 0.3:
            obs = pick(rng, [np.zeros(int(rng.integers(1, 4))), np.array([0.0, -1.0, 2.0]), np.array([-3.0])])
    r.name = 'q'
    ctx.describe(variable=p, framework=fw, observed=obs)
    prog = Program(fw, lambda: r.get_cbi_form(fw, observed=obs))
    ctx.equal(sorted({**prog.sites, **prog.observed}), ['q'], 'a random variable is not exported as one site of its name')
    ctx.equal(sorted(prog.observed), ['q'] if obs is not None else [], 'observed values are not part of the exported random variable', framework=fw)
    same_dist(ctx, prog, 'q', sci(p), 'an exported random variable has another distribution', variable=p)
    if obs is not None:
        got = prog.m.rvs_to_values[prog.observed['q']].eval() if fw == 'pymc' else prog.observed['q']['value'].numpy()
        ctx.close(got, obs, 'an exported random variable observes other values', rel=1e-6, framework=fw)
        ctx.count('observed_sites')
    ctx.equal(r.sample(4).tolist(), twin.sample(4).tolist(), 'exporting a random variable changes what it samples')
    ctx.sig(p[0], fw, obs is None, isinstance(p[1], int))


def model(ctx, rng):
    """A whole latent model: its output is centred on its equation of the exported latents and observed conditions."""
    fw = pick(rng, ['pymc', 'pyro'])
    n = int(rng.integers(1, 5))
    lats, specs = {}, {}
    for a in ('a', 'b')[:int(rng.integers(1, 3))]:
        for _ in range(50):
            build, lay, vt, det, _n = make(rng, named=False)
            # a factor of the equation, and the known finding is not looked at here
            if det is None or vt == 'offset':
                break
        else:
            continue
        lats[a], specs[a] = build(), (lay, vt, det)
    if not lats:
        return
    own = rng.random() < 0.3
    if own:
        nm = {a: 'my_' + a for a in lats}
        for a in lats:
            lats[a].name = nm[a]
    else:
        nm = {a: a for a in lats}
    # names that contain one another are still different names
    out_name, cn = pick(rng, [('out', 'temp'), ('out', 'out_temp'), ('out', 'out2'), ('out', 'ou'), ('v', 'v_dd'), ('temp_shift', 'temp'), ('x', 'a_temp'), ('x', 'aa')])
    args = list(lats) + ['time', cn]
    rng.shuffle(args)
    body = f'time * 0.5 + {cn} * 2 + ' + ' + '.join(f'{i + 2} * {a}' for i, a in enumerate(lats))
    eqn = eval(f'lambda {", ".join(args)}: {body}')
    kind = pick(rng, ['mech', 'shift', 'init'])
    if kind == 'mech':
        m = DegMechMdl(eqn, mdl_name=out_name, **lats)
    elif kind == 'shift':
        m = CondShiftMdl(eqn, mdl_name=out_name, **lats)
    else:
        m = InitValMdl(eqn, mdl_name=out_name, **lats)
    time, temp, out = rng.uniform(1, 9, n), float(rng.uniform(1, 5)), rng.normal(size=n)
    obs = {'time': time, cn: temp, out_name: out}
    if fw == 'pyro':
        obs = {k: torch.as_tensor(v, dtype=torch.float64) for k, v in obs.items()}
    keys = list(obs)
    rng.shuffle(keys)
    obs = {k: obs[k] for k in keys}
    ctx.describe(latents=specs, framework=fw, kind=kind, times=time, temp=temp)
    prog = Program(fw, lambda: m.export_to_cbi(fw, observed=obs))
    allsites = {}
    for a, (lay, vt, det) in specs.items():
        w = expect_sites(lay, nm[a])
        allsites.update({w[l]: (lay[l], vt, det) for l in lay})
    ctx.equal(sorted(prog.sites), sorted(allsites), 'the random sites of an exported model are not the layers of its latent variables', framework=fw)
    ctx.equal(sorted(prog.observed), [out_name], 'the output of an exported model is not observed', framework=fw)
    for a, (lay, vt, det) in specs.items():
        check_latent(ctx, prog, lay, vt, det, nm[a], rng)
    vals = {}
    for a, (lay, vt, det) in specs.items():
        w = expect_sites(lay, nm[a])
        for l in lay:
            vals[w[l]] = float(sci(lay[l]).ppf(rng.uniform(0.1, 0.9)))
    lat_vals = {}
    for a, (lay, vt, det) in specs.items():
        x = [vals[k] for k in expect_sites(lay, nm[a]).values()]
        lat_vals[a] = np.prod(x) if vt == 'scaling' else np.sum(x)
    mean = np.broadcast_to(eqn(**lat_vals, **{'time': time, cn: temp}), (n,))
    if fw == 'pymc':
        o = prog.observed[out_name]
        got_obs = prog.m.rvs_to_values[o].eval()
        got_mean = np.broadcast_to(o.owner.op.dist_params(o.owner)[0].eval({prog.sites[k]: v for k, v in vals.items()}, on_unused_input='ignore'), (n,))
    else:
        t = {k: torch.tensor(v, dtype=torch.float64) for k, v in vals.items()}
        tr = pyro.poutine.trace(pyro.poutine.condition(prog.build, data=t)).get_trace()
        got_obs = tr.nodes[out_name]['value'].numpy()
        got_mean = tr.nodes[out_name]['fn'].mean.numpy()
    ctx.close(got_obs, out, 'the exported model observes other values', rel=1e-6, framework=fw)
    ctx.close(got_mean, mean, 'the exported model is not centred on its equation', rel=1e-5, abs_=1e-6, framework=fw)
    ctx.count('models')
    ctx.sig(fw, kind, out_name, cn, [(tuple(sorted(l)), vt, d is None) for l, vt, d in specs.values()], n, own)


def refuse(ctx, rng):
    """What cannot be exported is refused rather than exported as something else."""
    fw = pick(rng, ['pymc', 'pyro'])
    which = ctx.index % 6

    def refused(f, excs, what):
        try:
            Program(fw, f)
        except excs:
            ctx.count('refusals')
            return
        raise Violation(f'exported although {what}', framework=fw)

    if which == 0:
        v = LatentVar(deter_val=2.0, name='x', chp_vrtn_mdl=Normal(1, 0.1) if rng.random() < 0.5 else None)
        refused(lambda: v.cbi_export(fw), UserConfigError, 'the device level of the variable is deterministic')
    elif which == 1:
        v = LatentVar(Normal(1, 2), name='x')
        refused(lambda: v.cbi_export('stan'), NotImplementedError, 'the framework is not supported')
    elif which == 2:
        v = Normal(1, 2, name='x')
        refused(lambda: v.get_cbi_form('stan'), NotImplementedError, 'the framework is not supported')
    elif which == 3:
        v = LatentVar(Uniform(1, 2) if rng.random() < 0.5 else Gamma(2, 3), deter_val=3.0, name='x', vrtn_type=pick(rng, ['offset', 'scaling']))
        refused(lambda: v.cbi_export(fw), NotImplementedError, 'the distribution has no centre to shift by the deterministic value')
    elif which == 5:
        def build():
            lay = {'chp_vrtn_mdl': pick(rng2, [Normal(1, 0.1, test_seed=3), None]), 'lot_vrtn_mdl': Normal(1, 0.2, test_seed=4)}
            lay[pick(rng2, list(lay))] = Deterministic(1.5)
            return LatentVar(Normal(1.25, 0.5, test_seed=2), **lay, deter_val=4.0, name='x', vrtn_type=pick(rng2, ['offset', 'scaling']))
        s = seed(rng)
        rng2 = np.random.default_rng(s)
        v = build()
        rng2 = np.random.default_rng(s)
        twin = build()
        refused(lambda: v.cbi_export(fw), NotImplementedError, 'one of its layers has no equivalent')
        ctx.equal(v.gen_latent_vals(3, 2, 2).tolist(), twin.gen_latent_vals(3, 2, 2).tolist(), 'an export that was refused changes what the variable samples', framework=fw)
        v.chp_vrtn_mdl = v.lot_vrtn_mdl = None
        det, vt = 4.0, v.vrtn_type
        v.name = 'x'        # named after the layers it has now
        check_latent(ctx, Program(fw, lambda: v.cbi_export(fw)), {'dev': ('normal', 1.25, 0.5)}, vt, det, 'x', rng)
    else:
        v = Deterministic(3, name='x')
        refused(lambda: v.get_cbi_form(fw), NotImplementedError, 'deterministic values have no distribution')
    ctx.sig(fw, which)


QUICK = 5
KINDS = [('latent', latent, 70, 1500), ('plain', plain, 40, 800), ('model', model, 40, 800), ('refuse', refuse, 24, 96)]
