"""C19: log messages reach exactly the configured outputs, each exactly once."""
import io
import logging
import logging.handlers
import os
import shutil
import sys
import tempfile
import numpy as np
from gerabaldi.helpers import configure_logger, logger as pkg_logger
from vp.gen import *

RULE = ('Random histories of logger configurations (levels, custom stream handlers, custom file handlers of several kinds, repeated and alternating, own handler levels) '
        'interleaved with messages of every level and with whole simulations; every handler ever configured records what it is given. A reference automaton knows which '
        'outputs are active. Distinct by history.')
ASSUMPTIONS = ['Handlers are only added through configure_logger (it documents to assume one stream and one file handler at most).']
KEEP_LOGGING = True
LEVELS = [logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL]


class Out(logging.StreamHandler):
    def __init__(self, level):
        super().__init__(io.StringIO())
        self.setLevel(level)
        self.own = level        # as set by its owner
        self.got = []

    def emit(self, record):
        self.got.append(record.getMessage())
        super().emit(record)


def history(ctx, rng):
    lg = logging.getLogger('gerabaldi')
    saved = (list(lg.handlers), lg.level, lg.propagate, sys.stderr)
    top = tempfile.mkdtemp(prefix='vp_c19_')
    opened = []
    sys.stderr = cap = io.StringIO()
    lg.propagate = False        # what the root logger of the harness does is not at issue
    try:
        ctx.check(pkg_logger is lg, 'the package logs elsewhere')
        level = lg.level
        default, stream, file = True, None, None
        streams, files = [], []
        hist = []
        serial = 0
        seen = {}                # output -> messages expected
        for _ in range(int(rng.integers(2, 12))):
            op = pick(rng, ['level', 'stream', 'file', 'both', 'all', 'again', 'file again', 'none', 'log', 'log', 'sim'])
            kw = {}
            if op in ('level', 'all'):
                kw['logging_level'] = int(pick(rng, LEVELS))
            if op in ('stream', 'both', 'all'):
                h = Out(int(pick(rng, [logging.NOTSET, *LEVELS])))
                streams.append(h)
                kw['stream_handler'] = h
            if op == 'again' and streams:
                kw['stream_handler'] = pick(rng, streams)
            if op == 'file again' and files:
                kw['file_handler'] = pick(rng, files)[0]
            if op in ('file', 'both', 'all'):
                # A new handler may well write to the file of an earlier one
                appended = [f for f in files if f[0].mode == 'a']
                mode = 'a'
                if appended and rng.random() < 0.25:
                    path = pick(rng, appended)[1]
                else:
                    path, mode = f'{top}/f{len(files)}.log', pick(rng, ['a', 'a', 'w'])
                h = pick(rng, [logging.FileHandler, logging.handlers.RotatingFileHandler])(path, mode=mode)
                h.own = int(pick(rng, [logging.NOTSET, *LEVELS]))
                h.setLevel(h.own)
                opened.append(h)
                files.append((h, path))
                kw['file_handler'] = h
            hist.append((op, kw.get('logging_level'), 'stream_handler' in kw, 'file_handler' in kw))
            if op not in ('log', 'sim'):
                r = configure_logger(**kw)
                ctx.check(r is None, 'configure_logger returns something')
                level = kw.get('logging_level', level)
                if 'stream_handler' in kw:
                    default, stream = False, kw['stream_handler']
                if 'file_handler' in kw:
                    file = kw['file_handler']
                ctx.count('configurations')
            ctx.equal(lg.level, level, 'the logging level differs from what was configured', history=hist)
            msgs = []
            if op == 'sim':
                mdl = DeviceMdl({'p': DegPrmMdl({'d': DegMechMdl(lambda time: 1e-3 * time, time_unit='h')})})
                more = [MeasSpec({'p': 1}, {'t': 1.0}, 'x'), StrsSpec({'t': 1.0}, timedelta(hours=1), 'y')] * (int(rng.integers(1, 15)) if rng.random() < 0.15 else 0)
                test = TestSpec([*more, MeasSpec({'p': 1}, {'t': 1.0}, f'meas{serial}'), StrsSpec({'t': 1.0}, mk_dur(rng, 1, 2), f'strs{serial}')], name=f'test{serial}')
                msgs = None
                marks = [f'meas{serial}', f'strs{serial}', f'test{serial}']
                serial += 1
                n0 = {id(h): len(h.got) for h in streams}
                c0 = len(cap.getvalue())
                gerabaldi.simulate(test, mdl, PhysTestEnv())
                ctx.equal(lg.level, level, 'a simulation changed the logging level', history=hist)
                for h in streams:
                    new = h.got[n0[id(h)]:]
                    want = 1 if h is stream and level <= logging.INFO and h.own <= logging.INFO else 0
                    for m in marks:
                        ctx.equal(sum(m in x for x in new), want, 'a simulation\'s progress is not reported once by the configured output only', mark=m, active=h is stream, history=hist)
                    h.got = h.got[:n0[id(h)]] + [x for x in new if False]
                    ctx.count('progress_messages', 3)
                new = cap.getvalue()[c0:]
                for m in marks:
                    ctx.equal(new.count(m), 1 if default and level <= logging.INFO else 0, 'default output of a simulation\'s progress', mark=m, history=hist)
                continue
            for _ in range(int(rng.integers(1, 4))):
                lv = int(pick(rng, LEVELS))
                m = f'<message {serial}>'
                serial += 1
                pkg_logger.log(lv, m)
                on = lv >= level
                for h in streams:
                    seen.setdefault(id(h), []).extend([m] * (on and h is stream and lv >= h.own))
                for path in {p for _, p in files}:
                    seen.setdefault(path, []).extend([m] * any(on and h is file and lv >= h.own for h, p in files if p == path))
                seen.setdefault('default', []).extend([m] * (on and default and lv >= logging.INFO))
                ctx.count('messages')
            for h in streams:
                ctx.equal(h.got, seen.get(id(h), []), 'a stream output did not get exactly its messages once each', active=h is stream, history=hist)
            for h, path in files:
                h.flush()
                got = [x for x in open(path).read().split('\n') if x.startswith('<message')] if os.path.exists(path) else []
                got = [x for x in got]
                ctx.equal(got, seen.get(path, []), 'a log file did not get exactly its messages once each', active=h is file, history=hist)
            err = cap.getvalue()
            for m in [f'<message {i}>' for i in range(serial)]:
                ctx.equal(err.count(m), seen.get('default', []).count(m), 'the default output did not get exactly its messages once each', message=m, history=hist)
            ctx.count('outputs_compared', len(streams) + len(files) + 1)
        ctx.describe(history=hist)
        ctx.sig(hist)
    finally:
        sys.stderr = saved[3]
        for h in list(lg.handlers):
            lg.removeHandler(h)
        for h in saved[0]:
            lg.addHandler(h)
        lg.setLevel(saved[1])
        lg.propagate = saved[2]
        for h in opened:
            h.close()
        shutil.rmtree(top, ignore_errors=True)


KINDS = [('history', history, 250, 6000)]
MIN_OBSERVED = {'configurations': 500, 'messages': 1000, 'outputs_compared': 2000, 'progress_messages': 300}
