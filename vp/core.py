"""Runner of the runtime monitors: drives the workload of one property, collects what the monitors observed, decides.

Verdicts are three-valued: exit 0 (held on everything observed), exit 1 with a VIOLATION line (a monitor saw a
violation), exit 2 (inconclusive: the harness itself failed, or a monitor saw too few events to decide anything).
"""
import sys

# The optional inference libraries take 10 s to import and only the CBI export needs them. gerabaldi tolerates their
# absence by design; the one property module about the CBI export (C17) declares NEEDS_CBI.
FAST = not any(a == 'C17' for a in sys.argv[1:])
_CBI = ('pymc', 'pyro', 'pyro.distributions', 'torch')
if FAST:
    for _m in _CBI:
        sys.modules[_m] = None
else:
    import os as _os
    import tempfile as _tempfile

    # PyTensor: no C compiler and no cache outside of a scratch directory
    SCRATCH = _tempfile.mkdtemp(prefix='vp_')
    _os.environ['PYTENSOR_FLAGS'] = f'cxx=,mode=FAST_COMPILE,base_compiledir={SCRATCH}'

import atexit
import collections
import importlib
import json
import logging
import multiprocessing as mp
import os
import random
import shutil
import time
import traceback
import warnings
import zlib

warnings.simplefilter('ignore')

import numpy as np

if not FAST:
    _PID = os.getpid()
    atexit.register(lambda: os.getpid() == _PID and shutil.rmtree(SCRATCH, ignore_errors=True))

REPO = '/repo/gerabaldi/'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JUMP_BUDGET = 3_000_000


class Violation(Exception):
    """A monitor observed behaviour that refutes the property."""

    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg, self.detail = msg, detail


class StepBudget(BaseException):
    """The code under test looped far beyond the logical step budget of one case (never wall-clock time)."""


class InjectedFault(Exception):
    """Raised by the harness inside user callbacks, must pass through the code under test unchanged."""


# --------------------------------------------------------------------------------------------------------------------
# Instrumentation: line coverage of the code under test (each line reported once) and a logical step budget
class Instrument:
    TOOL = 3

    def __init__(self):
        self.lines = set()
        self.jumps = 0
        self.limit = None

    def start(self):
        mon = sys.monitoring
        ev = mon.events
        mon.use_tool_id(self.TOOL, 'vp')

        def py_start(code, offset):
            if code.co_filename.startswith(REPO):
                if code.co_flags & 1:  # functions only, neither modules nor class bodies
                    mon.set_local_events(self.TOOL, code, ev.LINE | ev.JUMP)
            return mon.DISABLE

        def line(code, no):
            self.lines.add((code.co_filename[len(REPO):], no))
            return mon.DISABLE

        def jump(code, src, dst):
            if dst < src:
                self.jumps += 1
                if self.limit is not None and self.jumps > self.limit:
                    self.limit = None
                    raise StepBudget()

        mon.register_callback(self.TOOL, ev.PY_START, py_start)
        mon.register_callback(self.TOOL, ev.LINE, line)
        mon.register_callback(self.TOOL, ev.JUMP, jump)
        mon.set_events(self.TOOL, ev.PY_START)


INSTR = Instrument()


def seed_entropy(rng):
    """Objects that draw their RNG seed from the OS would make runs unrepeatable: hand out seeds from the case RNG.

    Only the *unseeded* construction is redirected, seeded construction is passed through untouched."""
    real = seed_entropy.real
    sub = np.random.default_rng(int(rng.integers(1 << 62)))

    def default_rng(seed=None):
        return real(int(sub.integers(1 << 62))) if seed is None else real(seed)

    np.random.default_rng = default_rng


seed_entropy.real = np.random.default_rng


class Ctx:
    """What one case (and, merged, a whole run) observed."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.counts = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.known = {}
        self.case_sig = None
        self.desc = {}

    def count(self, name, n=1):
        self.counts[name] += n

    def sig(self, *what):
        """Identity of a non-trivial case, by what it exercised."""
        self.case_sig = zlib.crc32(repr(what).encode())

    def describe(self, **kw):
        self.desc.update(kw)

    def known_finding(self, key, text):
        self.known[key] = text

    # ---- oracles -----------------------------------------------------------------------------------------------
    def check(self, ok, msg, **detail):
        self.counts['assertions'] += 1
        if not ok:
            raise Violation(msg, **detail)

    def equal(self, got, want, msg, **detail):
        self.counts['assertions'] += 1
        if got != want:
            raise Violation(msg, got=got, want=want, **detail)

    def close(self, got, want, msg, rel=1e-9, abs_=0.0, **detail):
        got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        self.counts['assertions'] += 1
        if got.shape != want.shape:
            raise Violation(msg + ' (shape)', got=str(got.shape), want=str(want.shape), **detail)
        self.counts['values_compared'] += int(got.size)
        with np.errstate(all='ignore'):
            tol = abs_ + rel * np.abs(want)
            bad = ~((np.abs(got - want) <= tol) | (got == want) | (np.isnan(got) & np.isnan(want)))
        if bad.any():
            i = tuple(int(x[0]) for x in np.nonzero(bad)) if got.ndim else ()
            raise Violation(msg, index=i, got=float(got[i]), want=float(want[i]), tolerance=float(np.broadcast_to(tol, got.shape)[i]), **detail)

    def within(self, got, lo, hi, msg, **detail):
        got, lo, hi = (np.asarray(v, dtype=float) for v in (got, lo, hi))
        self.counts['assertions'] += 1
        if got.shape != lo.shape:
            raise Violation(msg + ' (shape)', got=str(got.shape), want=str(lo.shape), **detail)
        self.counts['values_compared'] += int(got.size)
        bad = ~((got >= lo) & (got <= hi))
        if bad.any():
            i = tuple(int(x[0]) for x in np.nonzero(bad)) if got.ndim else ()
            raise Violation(msg, index=i, got=float(got[i]), lo=float(lo[i]), hi=float(hi[i]), **detail)


def through_repo(tb):
    return any(f.filename.startswith(REPO) for f in traceback.extract_tb(tb))


def case_rng(prop, seed, kind, idx):
    return np.random.default_rng([seed, zlib.crc32(prop.encode()), zlib.crc32(kind.encode()), idx])


def run_case(mod, prop, tier, seed, kind, idx):
    """Returns (ctx, None) or (ctx, violation dict). Harness errors propagate."""
    fn = {k: f for k, f, *_ in mod.KINDS}[kind]
    ctx = Ctx(prop, tier, seed)
    ctx.index = idx
    rng = case_rng(prop, seed, kind, idx)
    random.seed(int(rng.integers(1 << 62)))
    np.random.seed(int(rng.integers(1 << 31)))
    seed_entropy(rng)
    INSTR.jumps, INSTR.limit = 0, JUMP_BUDGET
    bad = None
    try:
        fn(ctx, rng)
    except Violation as e:
        bad = {'message': e.msg, 'detail': {k: repr(v)[:2000] for k, v in e.detail.items()}}
    except StepBudget:
        bad = {'message': f'no termination within {JUMP_BUDGET} loop iterations of the code under test', 'detail': {}}
    except Exception as e:
        if through_repo(e.__traceback__):
            what = f'unexpected {type(e).__name__} on a valid use: {e}'
        elif isinstance(e, (TypeError, ValueError, LookupError, AttributeError, ArithmeticError)):
            # The monitors understand everything that conforming code returns: what they cannot read is no valid result
            what = f'the outcome has another form than it should ({type(e).__name__}: {e})'
        else:
            raise
        bad = {'message': what[:600], 'detail': {'traceback': traceback.format_exc()[-3000:]}}
    finally:
        INSTR.limit = None
        np.random.default_rng = seed_entropy.real
    if bad:
        bad.update(property=prop, tier=tier, seed=seed, kind=kind, index=idx, case={k: repr(v)[:3000] for k, v in ctx.desc.items()})
    ctx.counts[f'cases:{kind}'] += 1
    return ctx, bad


def work(args):
    mod, prop, tier, seed, jobs = args
    counts, sigs, samples, known, bads, err = collections.Counter(), set(), {}, {}, [], None
    for kind, idx in jobs:
        try:
            ctx, bad = run_case(mod, prop, tier, seed, kind, idx)
        except BaseException:
            err = f'{kind}#{idx}: ' + traceback.format_exc()
            break
        counts.update(ctx.counts)
        if ctx.case_sig is not None:
            sigs.add((kind, ctx.case_sig))
        if ctx.desc and kind not in samples:
            samples[kind] = {'kind': kind, 'index': idx, **{k: repr(v)[:600] for k, v in ctx.desc.items()}}
        known.update(ctx.known)
        if bad:
            bads.append(bad)
            break
    return counts, sigs, samples, known, bads, err, INSTR.lines


def code_lines():
    """Number of executable lines below REPO, for the coverage figure of the evidence file."""
    n = 0
    for root, _, files in os.walk(REPO):
        for f in files:
            if not f.endswith('.py'):
                continue
            p = os.path.join(root, f)
            todo = [compile(open(p).read(), p, 'exec')]
            while todo:
                c = todo.pop()
                if c.co_flags & 1:
                    n += len({ln for _, _, ln in c.co_lines() if ln} - {c.co_firstlineno})
                todo += [k for k in c.co_consts if hasattr(k, 'co_lines')]
    return n


def load_known():
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    for ln in open(p):
        ln = ln.strip()
        if ln.startswith('known:'):
            f = dict(x.split('=', 1) for x in ln.split(' ')[1:3])
            out[(f['property'], f['key'])] = ln.split(' ', 3)[3]
    return out


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    logging.getLogger('gerabaldi')
    INSTR.start()
    import gerabaldi

    if FAST:
        for m in _CBI:
            del sys.modules[m]
    mod = importlib.import_module(f'vp.props.{prop.lower()}')

    assert os.path.dirname(gerabaldi.__file__) + '/' == REPO, gerabaldi.__file__
    if not getattr(mod, 'KEEP_LOGGING', False):
        lg = logging.getLogger('gerabaldi')
        lg.setLevel(logging.CRITICAL)

    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        r = json.load(open(sys.argv[3]))
        ctx, bad = run_case(mod, prop, r['tier'], r['seed'], r['kind'], r['index'])
        print(json.dumps(bad, indent=1) if bad else 'the recorded case passes')
        sys.exit(1 if bad else 0)

    jobs = []
    for kind, fn, nq, nt, *_ in mod.KINDS:
        n = nq * getattr(mod, 'QUICK', 8) if tier == 'quick' else nt
        jobs += [(kind, i) for i in range(n)]
    nproc = getattr(mod, 'PROCS', 8)
    nproc = max(1, min(nproc, len(jobs)))
    # Interleave the kinds over the workers, each worker takes its cases in order
    chunks = [jobs[i::nproc] for i in range(nproc)]
    if nproc == 1:
        results = [work((mod, prop, tier, seed, chunks[0]))]
    else:
        global _ARGS
        _ARGS = [(mod, prop, tier, seed, c) for c in chunks]
        with mp.get_context('fork').Pool(nproc) as pool:
            results = pool.map(_work_i, range(nproc), chunksize=1)

    counts, sigs, samples, known, bads, errs, lines = collections.Counter(), set(), {}, {}, [], [], set()
    for c, s, sm, k, b, e, ln in results:
        counts.update(c)
        sigs |= s
        for kk, v in sm.items():
            samples.setdefault(kk, v)
        known.update(k)
        bads += b
        errs += [e] if e else []
        lines |= ln

    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    listed = load_known()
    for key in list(known):
        if (prop, key) not in listed:
            bads.append({'property': prop, 'message': f'finding {key} is not listed: {known[key]}', 'tier': tier, 'seed': seed, 'kind': '', 'index': 0, 'detail': {}, 'case': {}})
    total = sum(v for k, v in counts.items() if k.startswith('cases:'))
    cov = {
        'evaluations': int(total),
        'distinct_nontrivial': len(sigs),
        'rule': mod.RULE,
        'samples': list(samples.values())[:8],
        'observed': {k: int(v) for k, v in sorted(counts.items())},
        'lines_of_gerabaldi_executed': len(lines),
        'lines_of_gerabaldi': code_lines(),
    }
    json.dump(
        {
            'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'), 'coverage': cov,
            'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(bads),
        },
        open(os.path.join(evdir, f'{prop}.json'), 'w'), indent=1,
    )
    for key in sorted(known):
        if (prop, key) in listed:
            print(f'KNOWN-FINDING: property={prop} {listed[(prop, key)]}')
    if bads:
        for n, b in enumerate(sorted(bads, key=lambda b: (b['kind'], b['index']))[:5]):
            path = os.path.join(evdir, f'{prop}.replay{n}.json')
            json.dump(b, open(path, 'w'), indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {b['kind']}#{b['index']}: {b['message']}")
            for k, v in b['detail'].items():
                print(f'    {k}: {v}')
        sys.exit(1)
    if errs:
        print('INCONCLUSIVE: the harness failed\n' + '\n'.join(errs), file=sys.stderr)
        sys.exit(2)
    for name, least in getattr(mod, 'MIN_OBSERVED', {}).items():
        if counts[name] < least:
            print(f'INCONCLUSIVE: monitor {name} saw {counts[name]} events, needs {least}', file=sys.stderr)
            sys.exit(2)
    print(f'{prop} held: {total} executions, {len(sigs)} distinct, {counts["assertions"]} assertions, {counts["values_compared"]} values compared, {time.time() - t0:.1f} s')
    sys.exit(0)


_ARGS = []


def _work_i(i):
    return work(_ARGS[i])


if __name__ == '__main__':
    # Make "vp.core" the one and only instance of this module
    sys.modules['vp.core'] = sys.modules['__main__']
    main()
