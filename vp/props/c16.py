"""C16: the vectorised minimum search finds every element's own minimum within the bounds, to the requested precision."""
import logging
import math
import numpy as np
from vp.gen import *
from gerabaldi.math import minimize

RULE = ('Arrays of unimodal functions of very different shapes (parabolas, kinks, asymmetric, flat-bottomed by saturation, monotone with the minimum on a bound, infinite beyond some distance) '
        'with one minimum per element placed anywhere including next to the bounds, in linear and logarithmic search, any array shape, bounds and precision. A monitor '
        'records every evaluation: points inside the bounds, arguments complete and by name, the result is the best point seen and within tolerance '
        'of the analytic minimum, and equal for an element searched alone. Distinct by functions, bounds, shape and precision.')
ASSUMPTIONS = ['Accuracy is claimed for strictly unimodal functions with enough iterations allowed, to the requested precision plus the float resolution of the function.']


def family(rng):
    return pick(rng, ['square', 'abs', 'skew', 'quart', 'root', 'residue'])


def value(fam, z, w, width):
    """Unimodal in z with the minimum 0 at z = 0."""
    if fam == 'square':
        return w * z ** 2
    if fam == 'abs':
        return w * np.abs(z)
    if fam == 'skew':
        return np.where(z < 0, -3 * w * z, 0.2 * w * z)
    if fam == 'quart':
        return w * (np.abs(z) ** 1.5)
    if fam == 'root':
        return w * np.sqrt(np.abs(z))
    return w * np.abs(np.expm1(z * (10 / width)))     # the residue of an exponential law


class Monitor:
    def __init__(self, ctx, fam, lo, hi, log, kwargs):
        self.ctx, self.fam, self.lo, self.hi, self.log = ctx, fam, lo, hi, log
        self.kwargs = kwargs
        self.width = np.log10(hi / lo) if log else hi - lo
        self.best = None
        self.calls = 0

    def __call__(self, x, **kw):
        self.calls += 1
        self.ctx.equal(sorted(kw), sorted(self.kwargs), 'the function is not given its arguments by name')
        for k, v in kw.items():
            self.ctx.check(np.array_equal(v, self.kwargs[k]), 'the function is given other arguments', name=k)
        x = np.asarray(x)
        slack = 1e-9 * max(abs(self.lo), abs(self.hi)) if not self.log else 0
        self.ctx.check(((x >= self.lo * (1 - 1e-9) - slack) & (x <= self.hi * (1 + 1e-9) + slack)).all() if self.log else ((x >= self.lo - slack) & (x <= self.hi + slack)).all(),
                       'evaluated outside the bounds', x=x, bounds=(self.lo, self.hi))
        z = np.log10(x) - kw['c'] if self.log else x - kw['c']
        f = value(self.fam, z, kw['w'], self.width)
        if 'left' in kw:
            f = np.where((z < -kw['left']) | (z > kw['right']), np.inf, f)
        self.best = f if self.best is None else np.minimum(self.best, f)
        return f


def search(ctx, rng):
    fam = family(rng)
    log = rng.random() < 0.5
    shape = pick(rng, [(), (1,), (7,), (2, 3), (1, 1, 1), (2, 3, 4), (3, 1, 5)])
    if rng.random() < 0.03:
        shape = pick(rng, [(5000,), (1, 40, 70), (300, 1, 5)])      # a few slow elements among many
    if log:
        a = float(rng.uniform(-6, 3))
        b = a + float(rng.uniform(0.5, 13))
        lo, hi = 10 ** a, 10 ** b
    else:
        a = float(pick(rng, [0.0, rng.uniform(-100, 100)]))
        b = a + loguni(rng, 0.1, 1e4)
        lo, hi = a, b
    prec = pick(rng, [1e-5, 1e-3, 1e-4, 1e-6])
    where = rng.random(shape)
    edge = rng.random(shape)
    where = np.where(edge < 0.1, 0.0, np.where(edge > 0.9, 1.0, where))
    where = np.where((edge > 0.4) & (edge < 0.45), where * 1e-3, where)
    if np.size(where) > 2 and rng.random() < 0.25:
        # Nearly all elements alike, so they finish together long before or after the others
        k = rng.integers(np.size(where), size=int(rng.integers(1, 4)))
        keep = np.zeros(np.size(where), dtype=bool)
        keep[k] = True
        where = np.where(keep.reshape(shape), where, pick(rng, [0.0, 1.0, 0.381966, float(rng.random())]))
        edge = np.where(keep.reshape(shape), edge, 0.5)
    beyond = np.where(edge < 0.05, -0.3, np.where(edge > 0.95, 0.3, 0))
    c = a + (where + beyond) * (b - a)
    w = 10 ** rng.uniform(-3, 3, shape) if rng.random() < 0.7 else np.ones(shape)
    scalar_w = rng.random() < 0.2
    if rng.random() < 0.15 and np.ceil(a) <= np.floor(b):
        c = np.clip(np.round(c), np.ceil(a), np.floor(b)).astype(int)     # whole numbers are arguments as good as any
        if rng.random() < 0.3 and c.ndim == 0:
            c = int(c)
    kw = {'c': c, 'w': float(np.max(w)) if scalar_w else w}
    if rng.random() < 0.3:
        kw['extra'] = 'unused'
    maxiter = 300 if rng.random() < 0.7 else (50 if log else 200)
    walled = rng.random() < 0.15
    if walled:
        # Infinite beyond some distance on either side, like the residue of a law that overflows
        start = a + (3 - 5 ** 0.5) / 2 * (b - a) - c
        kw['left'] = np.maximum(-start, 0) + (b - a) * np.where(rng.random(shape) < 0.3, 2.0, rng.random(shape) ** 3 + 1e-6)
        kw['right'] = np.maximum(start, 0) + (b - a) * np.where(rng.random(shape) < 0.3, 2.0, rng.random(shape) ** 3 + 1e-6)
        maxiter = 300
        ctx.count('functions_with_infinite_values')
    mon = Monitor(ctx, fam, lo, hi, log, kw)
    ctx.describe(family=fam, log=log, bounds=(lo, hi), precision=prec, shape=shape, minima=np.ravel(c)[:30], maxiter=maxiter)
    ctx.sig(fam, log, round(a, 6), round(b, 6), prec, shape, maxiter)
    with np.errstate(all='ignore'):
        res = minimize(mon, kw, (lo, hi), precision=prec, maxiter=maxiter, log_gold=log)
    ctx.equal(np.shape(res), shape, 'the result has another shape')
    ctx.check(mon.calls <= 2 * maxiter + 10, 'the search exceeds the allowed iterations', calls=mon.calls, maxiter=maxiter)
    x = np.log10(res) if log else np.asarray(res)
    ctx.check(((x >= a - 1e-9 * max(1, abs(a), abs(b))) & (x <= b + 1e-9 * max(1, abs(a), abs(b)))).all(), 'the result is outside the bounds', result=res)
    best = np.clip(c, a, b)
    if maxiter >= 50:
        tol = 1.02 * prec + 1e-7 * (1 + np.abs(best))
        ctx.close(x, best, 'the result is not the minimum', rel=0, abs_=tol, family=fam, calls=mon.calls)
        ctx.count('minima_found', int(np.size(best)))
    f = value(fam, (np.log10(res) if log else res) - c, kw['w'], b - a)
    ctx.check((f <= mon.best * (1 + 1e-9) + 1e-9 * np.max(kw['w'])).all(), 'a better point had been evaluated than the one returned')
    ctx.count('evaluations', mon.calls)
    # Elements are independent of their neighbours
    if np.size(c) > 1:
        i = tuple(int(rng.integers(n)) for n in shape)
        k1 = {'c': np.array([c[i]]), 'w': kw['w'] if scalar_w else np.array([w[i]])}
        if 'extra' in kw:
            k1['extra'] = 'unused'
        if walled:
            k1 |= {x: np.array([kw[x][i]]) for x in ('left', 'right')}
        with np.errstate(all='ignore'):
            alone = minimize(Monitor(ctx, fam, lo, hi, log, k1), k1, (lo, hi), precision=prec, maxiter=maxiter, log_gold=log)
        ctx.close(np.log10(alone) if log else alone, [best[i]], 'the minimum of an element searched alone differs', rel=0, abs_=1.02 * prec + 1e-7 * (1 + abs(best[i])))


class Records(logging.Handler):
    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, record):
        self.got.append(record)


def cut_short(ctx, rng):
    """With too few iterations the search still ends, inside the bounds, with the best point it saw."""
    fam = family(rng)
    c = rng.uniform(0, 10, 5)
    w = np.ones(5)
    kw = {'c': c, 'w': w}
    n = int(rng.integers(0, 12)) if rng.random() < 0.8 else int(rng.integers(60, 90))
    mon = Monitor(ctx, fam, 0.0, 10.0, False, kw)
    ctx.sig(fam, n, c.tolist())
    ctx.describe(family=fam, maxiter=n, minima=c)
    lg, rec = logging.getLogger('gerabaldi'), Records()
    old = lg.level
    lg.setLevel(logging.DEBUG)
    lg.addHandler(rec)
    quiet = [(h, h.level) for h in lg.handlers if h is not rec]
    for h, _ in quiet:
        h.setLevel(logging.CRITICAL + 1)
    try:
        res = minimize(mon, kw, (0.0, 10.0), maxiter=n)
    finally:
        lg.removeHandler(rec)
        lg.setLevel(old)
        for h, v in quiet:
            h.setLevel(v)
    warned = any(r.levelno >= logging.WARNING for r in rec.got)
    if (np.abs(res - np.clip(c, 0, 10)) > 2e-5).any():
        ctx.check(warned, 'the search was cut short without a warning', maxiter=n, minima=c, result=res)
        ctx.count('warnings_due')
    elif mon.calls < n:
        ctx.check(not warned, 'warned of reduced precision although the search was not cut short', maxiter=n, calls=mon.calls)
    ctx.check(mon.calls <= 2 * n + 10, 'the search exceeds the allowed iterations', calls=mon.calls, maxiter=n)
    ctx.check(((res >= 0) & (res <= 10)).all(), 'the result is outside the bounds', result=res)
    ctx.check((value(fam, res - c, w, 10.0) <= mon.best + 1e-12).all(), 'a better point had been evaluated than the one returned')
    ctx.count('searches_cut_short')


SMOOTH = {'square': lambda z, w: z ** 2, 'cosh': lambda z, w: np.cosh(2 * z / w), 'mix': lambda z, w: (z / w) ** 2 + np.abs(z / w) ** 3}


def smooth(ctx, rng):
    """On smooth functions the default settings are enough: the interpolation makes most searches end well before the allowed iterations."""
    fam = pick(rng, list(SMOOTH))
    log = rng.random() < 0.4
    n, exact, calls = 40, 0, []
    ctx.sig(fam, log, ctx.index)
    ctx.describe(family=fam, log=log)
    lg = logging.getLogger('gerabaldi')
    lg.disabled = True
    try:
        for _ in range(n):
            a = float(rng.uniform(-6, 3)) if log else float(pick(rng, [0.0, rng.uniform(-100, 100)]))
            width = float(rng.uniform(0.5, 13)) if log else loguni(rng, 0.1, 1e3)
            c = a + width * rng.random(int(rng.integers(1, 6)))
            cnt = [0]

            def f(x, c):
                cnt[0] += 1
                return SMOOTH[fam]((np.log10(x) if log else x) - c, width)

            res = minimize(f, {'c': c}, (10 ** a, 10 ** (a + width)) if log else (a, a + width), log_gold=log)
            exact += bool((np.abs((np.log10(res) if log else res) - c) <= 2e-5).all())
            calls.append(cnt[0])
    finally:
        lg.disabled = False
    ctx.check(exact >= 0.7 * n, 'most searches of smooth functions with the default settings miss the minimum', found=exact, of=n, evaluations=calls)
    ctx.check(np.median(calls) <= 18, 'the search of smooth functions does not end before the allowed iterations', evaluations=calls)
    ctx.count('smooth_searches', n)


GOLD = (3 - 5 ** 0.5) / 2


def brent(f, a, b, prec, maxiter):
    """Brent's method as published (Algorithms for Minimization without Derivatives, 1973, 'localmin'), for one function."""
    x = w = v = a + GOLD * (b - a)
    fx = fw = fv = f(x)
    d = e = 0.0
    n = 0
    while n < maxiter:
        m, tol = (a + b) / 2, 1.49e-8 * abs(x) + prec / 3
        if abs(x - m) < 2 * tol - (b - a) / 2:
            break
        gold = True
        if abs(e) > tol:
            r, q = (x - w) * (fx - fv), (x - v) * (fx - fw)
            p, q = (x - v) * q - (x - w) * r, 2 * (q - r)
            p, q = -p if q > 0 else p, abs(q)
            if abs(p) < abs(0.5 * q * e) and q * (a - x) < p < q * (b - x):
                e, d, gold = d, p / q, False
                if x + d - a < 2 * tol or b - x - d < 2 * tol:
                    d = math.copysign(tol, m - x)
        if gold:
            e = (a if x >= m else b) - x
            d = GOLD * e
        u = x + (d if abs(d) >= tol else math.copysign(tol, d))
        fu, n = f(u), n + 1
        if fu <= fx:
            a, b = (a, x) if u < x else (x, b)
            v, fv, w, fw, x, fx = w, fw, x, fx, u, fu
        else:
            a, b = (u, b) if u < x else (a, u)
            if fu <= fw or w == x:
                v, fv, w, fw = w, fw, u, fu
            elif fu <= fv or v == x or v == w:
                v, fv = u, fu
    return n


MIX = dict(SMOOTH, abs=lambda z, w: np.abs(z), skew=lambda z, w: np.where(z < 0, -3 * z, 0.2 * z), exp=lambda z, w: np.abs(np.expm1(10 * z / w)),
           log=lambda z, w: np.log1p(z * z), root=lambda z, w: np.abs(z) ** 1.5, tilt=lambda z, w: np.exp(3 * z / w) - 3 * z / w)


def effort(ctx, rng):
    """The search is Brent's: over a mix of functions it takes as many evaluations as the published method, up to a small margin."""
    mine = ref = 0
    ctx.sig(ctx.index)
    log = rng.random() < 0.5
    ctx.describe(log=log)
    for fam, g in MIX.items():
        for _ in range(8):
            a, width = float(rng.uniform(-6, 3)), float(rng.uniform(0.5, 13))
            c = a + width * float(rng.random())
            cnt = [0]

            def f(x, c):
                cnt[0] += 1
                return g((np.log10(x) if log else x) - c, width)

            minimize(f, {'c': np.array([c])}, (10 ** a, 10 ** (a + width)) if log else (a, a + width), maxiter=200, log_gold=log)
            mine += cnt[0] - 1
            ref += brent(lambda x: float(g(x - c, width)), a, a + width, 1e-5, 200)
    ctx.check(mine <= 1.1 * ref, "the search needs many more evaluations than Brent's method", evaluations=mine, reference=ref)
    ctx.count('efforts_compared')


def fine(ctx, rng):
    """Minima next to zero, where much finer precisions than usual can be requested."""
    shape = pick(rng, [(1,), (6,), (2, 3)])
    fam = pick(rng, ['abs', 'skew'])
    prec = pick(rng, [1e-7, 1e-8, 1e-9, 3e-10])
    lo, hi = pick(rng, [0.0, -1.0, -1e-3]), float(pick(rng, [1.0, 0.1, 10.0]))
    c = loguni(rng, 1e-6, 1e-2) * np.where(rng.random(shape) < 0.8, 10 ** rng.uniform(-2, 0, shape), 0.0)
    kw = {'c': c, 'w': 10 ** rng.uniform(-2, 2, shape)}
    mon = Monitor(ctx, fam, lo, hi, False, kw)
    ctx.describe(family=fam, bounds=(lo, hi), precision=prec, minima=np.ravel(c))
    ctx.sig(fam, lo, hi, prec, np.ravel(c).tolist())
    res = minimize(mon, kw, (lo, hi), precision=prec, maxiter=1000)
    ctx.close(np.asarray(res), c, 'the result is not the minimum to the requested precision', rel=0, abs_=1.05 * prec + 1e-7 * np.abs(c), family=fam, calls=mon.calls)
    ctx.count('fine_minima', int(np.size(c)))


KINDS = [('fine', fine, 40, 1000), ('effort', effort, 24, 600), ('search', search, 600, 20000), ('cut_short', cut_short, 200, 3000), ('smooth', smooth, 30, 600)]
MIN_OBSERVED = {'fine_minima': 300, 'functions_with_infinite_values': 200, 'minima_found': 2000, 'evaluations': 5000, 'searches_cut_short': 100, 'warnings_due': 50, 'smooth_searches': 500, 'efforts_compared': 20}
