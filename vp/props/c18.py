"""C18: random variables follow their declared distribution, are seedable, and independent of each other."""
import random
import numpy as np
from scipy import stats
from vp.gen import *

RULE = ('Random variables of every kind with random parameters (also integers, extreme scales, parameters changed after construction), sampled in random batches; '
        'Kolmogorov-Smirnov tests against SciPy\'s independent implementations with fixed seeds (p > 1e-9), serial correlation, cross correlation between variables, '
        'seeded streams repeated under interference by other variables and the global generators. Distinct by kind, parameters and batches.')
ASSUMPTIONS = ['Statistical monitors run on streams seeded by VERIF_SEED: a verdict repeats. A correct sampler fails one of them with probability below 1e-6 per run.']
P_MIN = 1e-9


def mk(rng, kw, ints=False):
    k = pick(rng, ['normal', 'gamma', 'uniform'])
    if k == 'normal':
        mu, sg = float(rng.normal() * loguni(rng, 1e-3, 1e4)), loguni(rng, 1e-12, 1e12) if rng.random() < 0.3 else loguni(rng, 1e-6, 1e4)
        sg = max(sg, 1e-8 * abs(mu))        # finer than that the numbers themselves are the limit
        if ints:
            mu, sg = int(rng.integers(-5, 6)), int(rng.integers(1, 5))
        return k, Normal(mu, sg, **kw), stats.norm(mu, sg), {'mu': mu, 'sigma': sg}
    if k == 'gamma':
        a, b = loguni(rng, 0.05, 1000), loguni(rng, 1e-4, 1e4) if rng.random() < 0.7 else loguni(rng, 1e-12, 1e12)
        if ints:
            a, b = int(rng.integers(1, 6)), int(rng.integers(1, 6))
        return k, Gamma(a, b, **kw), stats.gamma(a, scale=1 / b), {'alpha': a, 'beta': b}
    a = float(rng.normal() * loguni(rng, 1e-3, 1e4))
    b = a + (loguni(rng, 1e-3, 1e4) if rng.random() < 0.7 else abs(a) * loguni(rng, 1e-9, 1e9))
    if ints:
        a = int(rng.integers(-5, 5))
        b = a + int(rng.integers(1, 5))
    return k, Uniform(a, b, **kw), stats.uniform(a, b - a), {'start': a, 'stop': b}


def draw(ctx, rv, n):
    v = rv.sample(n)
    ctx.check(isinstance(v, np.ndarray) and v.shape == (n,), 'a sample is not a one-dimensional array of the requested length', got=np.shape(v), want=n)
    ctx.count('samples', n)
    return v.astype(float)


def fits(ctx, x, d, what, **kw):
    ctx.check(np.isfinite(x).all(), 'non-finite sample', **kw)
    lo, hi = d.support()
    ctx.check((x >= lo).all() and (x <= hi).all(), f'{what}: sample outside the support of the distribution', **kw)
    p = stats.kstest(x, d.cdf).pvalue
    ctx.check(p > P_MIN, f'{what}: samples do not follow the declared distribution', p=p, mean=x.mean(), sd=x.std(), want_mean=d.mean(), want_sd=d.std(), **kw)
    ctx.count('distribution_tests')


def shape(ctx, rng):
    ints = rng.random() < 0.2
    kw = {'test_seed': pick(rng, [0, 1, seed(rng)])} if rng.random() < 0.6 else {}
    k, rv, d, par = mk(rng, kw, ints)
    n = 2500
    xs = []
    while sum(map(len, xs)) < n:
        xs.append(draw(ctx, rv, int(pick(rng, [1, 2, 17, 500, 1500]) if rng.random() > 0.03 else rng.integers(5000, 20000))) if rng.random() < 0.9 else rv.sample())
        ctx.check(len(xs[-1]) > 0, 'empty sample')
    x = np.concatenate(xs)
    ctx.describe(kind=k, parameters=par, seeded=kw)
    ctx.sig(k, sorted(par.items()), sorted(kw.items()))
    fits(ctx, x, d, 'construction', kind=k, parameters=par)
    ctx.check(len(np.unique(x)) > 0.99 * len(x), 'samples repeat', kind=k)
    u = d.cdf(x)
    r = np.corrcoef(u[:-1], u[1:])[0, 1]
    ctx.check(abs(r) < 7 / np.sqrt(len(x)), 'consecutive samples are correlated', r=r)
    # Parameters are public attributes: changing them changes what is sampled from then on
    k2, rv2, d2, par2 = k, None, None, None
    while par2 is None or list(par2) != list(par):
        k2, rv2, d2, par2 = mk(rng, {})
    for a, v in par.items():
        ctx.equal(getattr(rv, a), v, 'a parameter differs from the construction', parameter=a)
    for a, v in par2.items():
        setattr(rv, a, v)
    fits(ctx, draw(ctx, rv, 1500), d2, 'after changing the parameters', kind=k, parameters=par2)
    if k == 'normal':
        ctx.equal(rv.get_centre(), par2['mu'], 'the centre of a normal distribution is not its mean')
        c = float(rng.normal())
        rv.set_centre(c)
        ctx.equal((rv.get_centre(), rv.mu, rv.sigma), (c, c, par2['sigma']), 'setting the centre')
        op = pick(rng, [np.add, np.subtract, np.multiply, np.divide, lambda a, b: 2 * a - b])      # the value given is the first operand
        rv.set_centre(2.5, op)
        c2 = float(op(2.5, c))
        ctx.close(rv.get_centre(), c2, 'setting the centre with an operation')
        fits(ctx, draw(ctx, rv, 1000), stats.norm(c2, par2['sigma']), 'after setting the centre', kind=k)


def streams(ctx, rng):
    """Equal seeds, equal streams, whatever else happens; otherwise unrelated streams."""
    s = pick(rng, [0, 0, 1, 7, seed(rng), 1 << 40])
    sub = seed(rng)
    batches = [int(pick(rng, [1, 2, 5, 40])) for _ in range(6)]
    k, a, d, par = mk(np.random.default_rng(sub), {'test_seed': s})
    _, b, _, _ = mk(np.random.default_rng(sub), {'test_seed': s})
    _, c, _, _ = mk(np.random.default_rng(sub), {'test_seed': s + pick(rng, [1, 1, 2, 1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 63, 1 << 64])})
    # Unseeded variables are unrelated even where the program seeds the global generators
    glob = int(rng.integers(1 << 31))
    np.random.seed(glob)
    random.seed(glob)
    named = pick(rng, [{}, {'name': 'k'}])
    _, e, _, _ = mk(np.random.default_rng(sub), dict(named))
    np.random.seed(glob)
    random.seed(glob)
    _, f, _, _ = mk(np.random.default_rng(sub), dict(named))
    ctx.describe(kind=k, parameters=par, seed=s, batches=batches)
    ctx.sig(k, s, batches, sorted(par.items()))
    xs = [draw(ctx, a, n) for n in batches]
    ys = []
    for n in batches:
        np.random.seed(int(rng.integers(1 << 31)))
        random.seed(1)
        draw(ctx, pick(rng, [c, e, f]), int(rng.integers(1, 9)))
        Normal(0, 1, test_seed=int(rng.integers(100))).sample(3)
        ys.append(draw(ctx, b, n))
    for x, y in zip(xs, ys):
        ctx.check(np.array_equal(x, y), 'equally seeded variables sample differently', seed=s, kind=k)
    ctx.count('streams_compared')
    # One after the other, each where the last one was
    once = []
    for _ in range(5):
        v = Normal(0, 1)
        once.append(tuple(draw(ctx, v, 5)))
        del v
    ctx.check(len(set(once)) == len(once), 'unseeded variables share one stream', once=once)
    n = 400
    xa, xc = draw(ctx, a, n), draw(ctx, c, n)
    np.random.seed(glob)
    random.seed(glob)
    xe = draw(ctx, e, n)
    np.random.seed(glob)
    random.seed(glob)
    xf = draw(ctx, f, n)
    for u, v, w in ((xa, xc, 'differently seeded'), (xe, xf, 'unseeded'), (xa, xe, 'seeded and unseeded')):
        ctx.check(not np.array_equal(u, v), f'{w} variables share one stream', kind=k, seed=s)
        r = np.corrcoef(d.cdf(u), d.cdf(v))[0, 1]
        ctx.check(abs(r) < 7 / np.sqrt(n), f'{w} variables are correlated', r=r)


def exact(ctx, rng):
    v = pick(rng, [0, 1, -2, 3.5, loguni(rng, 1e-20, 1e20), float(rng.normal())])
    if rng.random() < 0.2:
        w = pick(rng, [np.inf, -np.inf, np.nan, 1e308, -1e-320])
        ctx.check(np.array_equal(draw(ctx, Deterministic(w), 3), [w] * 3, equal_nan=True), 'a deterministic variable varies', value=w)
    rv = Deterministic(v) if rng.random() < 0.8 or v != 0 else Deterministic()
    n = int(rng.integers(1, 50))
    ctx.describe(value=v, n=n)
    ctx.sig(v, n)
    ctx.check((draw(ctx, rv, n) == v).all(), 'a deterministic variable varies', value=v)
    rv.value = v + 1.5
    ctx.check((draw(ctx, rv, n) == v + 1.5).all(), 'a deterministic variable ignores its value')
    ctx.equal(len(rv.sample()), 1, 'the default is one sample')
    nd = Normal(v, 0, test_seed=seed(rng))
    ctx.check((draw(ctx, nd, n) == v).all(), 'a normal distribution without deviation varies')
    ctx.count('deterministic_samples', 3 * n)


def defaults(ctx, rng):
    for rv, d in ((Normal(test_seed=seed(rng)), stats.norm(0, 1)), (Gamma(test_seed=seed(rng)), stats.gamma(2, scale=0.5)), (Uniform(test_seed=seed(rng)), stats.uniform(0, 1))):
        fits(ctx, draw(ctx, rv, 1500), d, 'documented default parameters', kind=type(rv).__name__)
    ctx.sig(ctx.index)


KINDS = [('shape', shape, 220, 8000), ('streams', streams, 200, 5000), ('exact', exact, 60, 500), ('defaults', defaults, 10, 100)]
MIN_OBSERVED = {'distribution_tests': 400, 'streams_compared': 100, 'samples': 500000, 'deterministic_samples': 1000}
