"""Runs inside the venv, in a scratch directory: exercises the code under test and records a trace."""
import importlib
import io
import json
import os
import random
import signal
import sys
import time
import traceback
from fractions import Fraction

REPO = '/repo'
sys.path.insert(0, REPO)
BAD = 987654321       # stands for "not representable": never equal to a legal value


class Hang(BaseException):
    pass


class Enough(BaseException):
    """there is no time left for more scenarios"""


HANGS = 0


def _alarm(sig, frm):
    raise Hang('timeout')


def num(v, scale=1):
    """exact integer value of v*scale, or BAD"""
    if type(v) is int:
        v *= scale
        return v if -900000000 < v < 900000000 else BAD
    if type(v) is float and -9e8 < v < 9e8:
        w = v * scale            # exact: scales are small powers of two and the like
        i = int(w)
        if i == w and i / scale == v:
            return i if abs(i) < 900000000 else BAD
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        try:
            v = float(v) if not isinstance(v, bool) else None
        except Exception:
            v = None
        if v is None:
            return BAD
    try:
        f = Fraction(v) * scale
    except Exception:
        return BAD
    if f.denominator != 1 or abs(f.numerator) >= 900000000:
        return BAD
    return int(f.numerator)


def vec(v, scale=1):
    try:
        c = [v[0], v[1], v[2]] if not hasattr(v, 'x') else [v.x, v.y, v.z]
    except Exception:
        return [BAD, BAD, BAD]
    return [num(x, scale) for x in c]


def call(fn, *a, limit=20, **k):
    """('ok', value) / ('raise', exception name) / ('hang', '')"""
    global HANGS
    if HANGS >= 5:               # these are findings already
        limit = min(limit, 2)
    signal.signal(signal.SIGALRM, _alarm)
    left = signal.setitimer(signal.ITIMER_REAL, limit)[0]
    t0 = time.time()
    try:
        r = ('ok', fn(*a, **k))
    except Hang:
        HANGS += 1
        r = ('hang', '')
    except (KeyboardInterrupt, Enough):
        raise
    except BaseException as e:
        r = ('raise', type(e).__name__)
    finally:
        signal.setitimer(signal.ITIMER_REAL, max(0.01, left - (time.time() - t0)) if left else 0)
    return r


class Ctx:
    def __init__(self, pid, tier, seed, gens):
        self.pid, self.tier, self.seed, self.gens = pid, tier, seed, gens
        self.quick = tier == 'quick'
        self.rnd = random.Random('%s/%s' % (pid, seed))
        self.out = []
        self.n = 0
        self.end = time.time() + (300 if self.quick else 2400)

    def scen(self, kind, name, ev, **cfg):
        self.n += 1
        d = {'id': '%s#%d' % (name, self.n), 'kind': kind}
        d.update(cfg)
        for e in ev:
            e.setdefault('key', name)
        d['ev'] = ev
        self.out.append(d)
        if time.time() > self.end:
            raise Enough()

    def guard(self, name, fn, *a, limit=150):
        """Run one scenario builder; an exception raised inside the code under test is a finding."""
        if time.time() > self.end:
            raise Enough()
        signal.signal(signal.SIGALRM, _alarm)
        outer = signal.setitimer(signal.ITIMER_REAL, limit)[0]
        try:
            fn(*a)
        except (Hang, Exception, SystemExit) as e:
            frames = traceback.extract_tb(e.__traceback__)
            ours = not any(f.filename.startswith(REPO + '/redeclipse') for f in frames)
            if not (ours and isinstance(e, Hang)):
                # raised by the code under test, or the driver cannot read what it returned
                self.n += 1
                self.out.append({'id': '%s#%d' % (name, self.n), 'kind': 'crash', 'key': name,
                                 'what': '%s%s: %s' % ('unreadable result, ' if ours else '', type(e).__name__, str(e)[:200]),
                                 'tb': traceback.format_exc()[-2000:]})
            else:
                raise
        finally:
            signal.setitimer(signal.ITIMER_REAL, outer)


def main():
    area, pid, tier, seed, gpath, opath = sys.argv[1:]
    import logging
    logging.disable(logging.CRITICAL)
    real_stdout = sys.stdout
    sys.stdout = io.StringIO()      # the code under test prints
    ctx = Ctx(pid, tier, int(seed), json.load(open(gpath)))
    mod = importlib.import_module('harness.area_' + area)
    try:
        ctx.guard('driver', mod.drive, ctx, limit=500 if ctx.quick else 2500)
    except Enough:
        pass
    with open(opath, 'w') as f:
        for s in ctx.out:
            f.write(json.dumps(s) + '\n')
    sys.stdout = real_stdout


if __name__ == '__main__':
    main()
