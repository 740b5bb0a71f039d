"""C22: simulations that share their test, device, environment and state objects do not influence each other, however they interleave."""
import sys
import threading
import time as _time
import numpy as np
from vp.gen import *
from vp.core import REPO
from vp.props.c12 import build, results, fingerprint, same, counts_of

RULE = ('Two to four simulations run on shared test, device, environment and state objects: under a cooperative scheduler that hands over between threads at seeded points '
        '(any executed line of gerabaldi, or any call of a user equation), nested inside an equation of another simulation, and as free-running threads with a switch interval of 1 us. '
        'Every report has to be identical, number by number, to the one of the same simulation run alone. Distinct by the recorded schedule (sequence of switches and the lines they happened at).')
ASSUMPTIONS = ['Without random draws from shared generators during the simulations: the state is provided, shared environments are deterministic, stochastic environments belong to one simulation each.']
MIN_OBSERVED = {'switches': 1000, 'simulations_interleaved': 200, 'nested_simulations': 50, 'free_simulations': 50}


class Sched:
    """Only one thread runs at a time; at a yield point the seeded scheduler may hand over to another one."""

    def __init__(self, rng, p):
        self.rng, self.p = rng, p
        self.sems, self.alive, self.ids = [], [], {}
        self.trace, self.switches, self.free = [], 0, False
        self.points = 0
        self.done = threading.Event()

    def me(self):
        return self.ids.get(threading.get_ident())

    def point(self, where):
        t = self.me()
        if t is None or self.free:
            return
        self.points += 1
        if self.rng.random() >= self.p:
            return
        others = [x for x in self.alive if x != t]
        if not others:
            return
        self.hand_over(t, pick(self.rng, others), where)

    def hand_over(self, t, nxt, where):
        self.switches += 1
        self.trace.append((t, nxt, where))
        self.sems[nxt].release()
        self.sems[t].acquire()

    def run(self, fns, tracer=False):
        n = len(fns)
        out = [None] * n
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = list(range(n))

        def local(frame, event, arg):
            if event == 'line':
                self.point((frame.f_code.co_name, frame.f_lineno))
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(REPO) else None

        def body(t):
            self.ids[threading.get_ident()] = t
            self.sems[t].acquire()
            try:
                if tracer:
                    sys.settrace(glob)
                out[t] = ('ok', fns[t]())
            except BaseException as e:
                out[t] = ('raised', e)
            finally:
                sys.settrace(None)
                self.ids.pop(threading.get_ident(), None)
                self.alive.remove(t)
                if self.alive and not self.free:
                    self.sems[pick(self.rng, self.alive)].release()
                elif not self.alive:
                    self.done.set()

        ths = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(n)]
        for t in ths:
            t.start()
        self.sems[int(self.rng.integers(n))].release()
        last = -1
        while not self.done.wait(10):
            if self.points == last and not self.free:
                # A lock of the code under test is held by a thread that waits for its turn: let them run freely
                self.free = True
                for s in self.sems:
                    for _ in range(n):
                        s.release()
            last = self.points
        for t in ths:
            t.join()
        return out


class Tap:
    """Takes the place of C12's fault injector: called by every equation and instrumented distribution."""

    def __init__(self):
        self.hook = None

    def hit(self, site):
        if self.hook is not None:
            self.hook(site)


def own_env(s):
    return lambda: PhysTestEnv({'temp': EnvVrtnMdl(Normal(0, 1, test_seed=s), Normal(0, 1, test_seed=s + 1), Normal(0, 1, test_seed=s + 2))},
                               {'vth': MeasInstrument(precision=6, error=Normal(0, 1e-3, test_seed=s + 3))})


def setting(ctx, rng, tap, n, short=False):
    """The shared objects and n simulations of them, as functions that can be run repeatedly."""
    test, mdl, env = build(rng, tap, variation=False)
    if short:
        test = TestSpec(test.steps[:3], test.num_chps, test.num_lots, 'test')
    tests = [test]
    if rng.random() < 0.5:
        # another test of the same device, made of the same step objects
        tests.append(TestSpec([test.steps[int(i)] for i in rng.permutation(len(test.steps))], test.num_chps, test.num_lots, 'other'))
    state = gerabaldi.gen_init_state(mdl, counts_of(test), test.num_chps, test.num_lots)
    states = {id(t): state for t in tests}
    if rng.random() < 0.5:
        # a test of the same device model on another population, with a state of its own
        steps = [MeasSpec({p: n + int(rng.integers(0, 3)) for p, n in s.measurements.items()}, s.conditions, s.name) if isinstance(s, MeasSpec) else s for s in test.steps]
        big = TestSpec(steps, test.num_chps + 1, pick(rng, [1, 2]), 'population')
        tests.append(big)
        states[id(big)] = gerabaldi.gen_init_state(mdl, counts_of(big), big.num_chps, big.num_lots)
    env2 = own_env(seed(rng))
    jobs, plan = [], []
    for k in range(n):
        t = pick(rng, tests)
        priv = rng.random() < 0.3
        plan.append((t.name, 'own' if priv else 'shared'))

        def job(t=t, priv=priv):
            return results(gerabaldi.simulate(t, mdl, env2() if priv else env, states[id(t)]))
        jobs.append(job)
    ctx.describe(steps=steps_repr(test.steps), dims=(test.num_lots, test.num_chps), plan=plan)
    return jobs, plan, (lambda: fingerprint(test, mdl, env, state))


def compare(ctx, out, alone, kind, plan, sched=None):
    for k, (o, want) in enumerate(zip(out, alone)):
        kw = {'simulation': k, 'plan': plan}
        if sched is not None:
            kw['schedule'] = sched.trace[-12:]
        if o is None or o[0] == 'raised':
            raise Violation(f'a simulation fails when {kind} with others on the same objects: {type(o[1]).__name__ if o else None} {o[1] if o else ""}'[:300], **kw)
        same(ctx, want, o[1], f'a simulation reports something else when {kind} with others on the same objects', **kw)


def lines(ctx, rng):
    n = int(rng.integers(2, 4))
    tap = Tap()
    jobs, plan, fp = setting(ctx, rng, tap, n, short=True)
    before = fp()
    alone = [j() for j in jobs]
    sched = Sched(rng, loguni(rng, 0.002, 0.2))
    out = sched.run(jobs, tracer=True)
    compare(ctx, out, alone, 'interleaved line by line', plan, sched)
    same(ctx, before, fp(), 'interleaved simulations change their inputs')
    done(ctx, sched, n)


def calls(ctx, rng):
    n = int(rng.integers(2, 5))
    tap = Tap()
    jobs, plan, fp = setting(ctx, rng, tap, n)
    before = fp()
    alone = [j() for j in jobs]
    sched = Sched(rng, loguni(rng, 0.02, 1))
    tap.hook = sched.point
    out = sched.run(jobs)
    tap.hook = None
    compare(ctx, out, alone, 'interleaved', plan, sched)
    same(ctx, before, fp(), 'interleaved simulations change their inputs')
    done(ctx, sched, n)


def done(ctx, sched, n):
    ctx.count('switches', sched.switches)
    ctx.count('yield_points', sched.points)
    ctx.count('simulations_interleaved', n)
    ctx.count('schedules_given_up', int(sched.free))
    ctx.describe(switches=sched.switches, schedule=sched.trace[:10])
    ctx.sig(sched.trace)


def nested(ctx, rng):
    """An equation of one simulation runs another simulation of the same objects."""
    tap = Tap()
    jobs, plan, fp = setting(ctx, rng, tap, 2)
    n = [0]

    def count(site):
        n[0] += 1
    tap.hook = count
    alone = [jobs[0]()]
    total = n[0]
    tap.hook = None
    alone.append(jobs[1]())
    at = {int(x) for x in rng.integers(total, size=int(rng.integers(1, 4)))}
    n[0] = -1
    inner = []
    busy = [False]

    def hook(site):
        if busy[0]:
            return
        n[0] += 1
        if n[0] in at:
            busy[0] = True
            try:
                inner.append(jobs[1]())
            finally:
                busy[0] = False
    tap.hook = hook
    out = jobs[0]()
    tap.hook = None
    compare(ctx, [('ok', out)] + [('ok', i) for i in inner], [alone[0]] + [alone[1]] * len(inner), 'nested', plan)
    ctx.count('nested_simulations', len(inner))
    ctx.sig(total, sorted(at), plan)


def free(ctx, rng):
    n = int(rng.integers(3, 7))
    tap = Tap()
    jobs, plan, fp = setting(ctx, rng, tap, n)
    alone = [j() for j in jobs]
    out = [None] * n
    gate = threading.Barrier(n)
    if rng.random() < 0.5:
        tap.hook = lambda site: _time.sleep(0)

    def body(k):
        gate.wait()
        try:
            out[k] = ('ok', jobs[k]())
        except BaseException as e:
            out[k] = ('raised', e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ths = [threading.Thread(target=body, args=(k,)) for k in range(n)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    finally:
        sys.setswitchinterval(old)
    tap.hook = None
    compare(ctx, out, alone, 'run in parallel', plan)
    ctx.count('free_simulations', n)
    ctx.sig(n, plan)


QUICK = 2
KINDS = [('lines', lines, 80, 2400), ('calls', calls, 80, 2400), ('nested', nested, 80, 1600), ('free', free, 30, 600)]
