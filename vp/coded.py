"""Random variables that hand out unique, decodable values, so an observed value identifies the draws it came from."""
import numpy as np
from gerabaldi.models import RandomVar, Uniform, EnvVrtnMdl, PhysTestEnv
from vp.core import Violation

_PRIMES = [p for p in range(2, 60000) if all(p % q for q in range(2, int(p ** 0.5) + 1))]


class Coded(RandomVar):
    """Unique values drawn one after another, however many values are requested per call.

    mode 'int': start, start + step, ...       (for sums: the layers use disjoint ranges of digits)
    mode 'prime': distinct primes of a pool     (for products: unique factorisation)
    """

    def __init__(self, mode='int', start=1, step=1, pool=(0, 1), frac=None, neg=False):
        self._dist_type = 'uniform'
        super().__init__()
        self.mode, self.start, self.step = mode, start, step
        self.pool = _PRIMES[pool[0]::pool[1]] if mode == 'prime' else None
        self.n = 0
        self.issued = set()
        self.calls = 0
        self.neg = neg          # values are handed out with the opposite sign
        self.frac = frac        # values are made fractional: increased by, or multiplied with it

    def sample(self, quantity=1):
        self.calls += 1
        size = int(np.prod(quantity))
        if self.mode == 'int':
            v = [self.start + self.step * (self.n + i) for i in range(size)]
        else:
            v = [self.pool[self.n + i] for i in range(size)]
        self.n += size
        self.issued |= set(v)
        out = np.array(v, dtype=float)
        if self.frac is not None:
            out = out + self.frac if self.mode == 'int' else out * self.frac
        return (-out if self.neg else out).reshape(quantity)


class Layers:
    """The three variation layers of a hierarchy (outermost first) with decodable codes, some of them undefined."""

    W = (10 ** 10, 10 ** 5, 1)

    def __init__(self, mode, used, frac=None, neg=False):
        self.mode, self.used = mode, used
        fr = [frac if u and (mode == 'scaling' or not any(used[i + 1:])) else None for i, u in enumerate(used)]
        self.rv = [None if not u else (Coded('int', start=w, step=w, frac=f, neg=neg) if mode == 'offset' else Coded('prime', pool=(i, 3), frac=f, neg=neg))
                   for i, (u, w, f) in enumerate(zip(used, self.W, fr))]
        self.fracs = [f for f in fr if f is not None]
        self.sign = 1 if not neg else -1 if mode == 'offset' else (-1) ** sum(map(bool, used))

    def decode(self, v, base):
        """The codes (outermost first, None where undefined) which base was combined with to give v."""
        if self.mode == 'offset':
            x = self.sign * (float(v) - base) - sum(self.fracs)
            r = round(x)
            if abs(x - r) > 1e-3 or r < 0:
                raise Violation('value is not its base plus its variations', value=v, base=base)
            parts = [r // 10 ** 10 * 10 ** 10, r % 10 ** 10 // 10 ** 5 * 10 ** 5, r % 10 ** 5]
        else:
            x = self.sign * float(v) / base / float(np.prod(self.fracs))
            r = round(x)
            if abs(x - r) > 1e-6 * max(1, r) or r < 1:
                raise Violation('value is not its base times its variations', value=v, base=base)
            parts = [None, None, None]
            for i, rv in enumerate(self.rv):
                if rv is None:
                    continue
                f = [p for p in rv.issued if r % p == 0]
                if len(f) != 1:
                    raise Violation('value does not contain exactly one draw of a variation layer', value=v, base=base, layer=i, found=f)
                parts[i] = f[0]
                r //= f[0]
            if r != 1:
                raise Violation('value contains more than one draw per variation layer', value=v, base=base, rest=r)
        for i, (p, rv) in enumerate(zip(parts, self.rv)):
            if rv is None:
                if p not in (0, None):
                    raise Violation('variation of an undefined layer', value=v, layer=i, part=p)
                parts[i] = None
            elif p not in rv.issued:
                raise Violation('variation was never drawn from the distribution of its layer', value=v, base=base, layer=i, part=p)
        return tuple(parts)

    def decode_all(self, arr, base):
        arr = np.asarray(arr, dtype=float)
        out = [np.empty(arr.shape, dtype=object) for _ in range(3)]
        for i, v in np.ndenumerate(arr):
            for k, p in enumerate(self.decode(v, base)):
                out[k][i] = p
        return out


def distinct(xs):
    xs = list(xs)
    return len(set(xs)) == len(xs)


class Varied:
    """Readings of the form 1000 * (code of the device) + (condition of about 300): both parts of every reading are observable."""

    def __init__(self, rng, lots, chps):
        self.used = [bool(rng.integers(2)) for _ in range(3)]           # batch, chip, device layer
        u = [Uniform(-20, 20, test_seed=int(rng.integers(1, 1 << 31))) if x else None for x in self.used]
        self.env = PhysTestEnv({'temp': EnvVrtnMdl(u[2], u[1], u[0])})
        self.dims = (lots, chps)

    def verify(self, ctx, arr, want_code, temp, step, param):
        code = np.round((arr - 300) / 1000)
        ctx.equal(code.tolist(), want_code.tolist(), 'a reading belongs to another device', step=step, param=param)
        t = arr - 1000 * code
        ctx.check((np.abs(t - temp) <= 20 * sum(self.used) + 1e-6).all(), 'the conditions of a reading are not those of the measurement', step=step, param=param, temp=temp, got=t)
        if self.used[2]:
            ctx.check(len(set(np.round(t, 9).ravel())) == t.size, 'two devices were read under the same draw of the device variation', step=step, param=param, conditions=t)
        else:
            ctx.check((np.ptp(t, axis=2) < 1e-6).all(), 'devices of one chip were read under different conditions', step=step, param=param, conditions=t)
            if self.used[1]:
                ctx.check(len(set(np.round(t[:, :, 0], 6).ravel())) == t[:, :, 0].size, 'two chips were read under the same draw of the chip variation', step=step, param=param)
            else:
                ctx.check(np.ptp(t) < 1e-6, 'chips were read under different conditions', step=step, param=param)
        ctx.count('varied_readings', int(t.size))
