"""Recording of calls to the real code as trace events (one JSON object per event).

Nothing is judged here: results, exceptions and states are encoded, and the TLA+ conformance
specifications decide.  Numbers are rounded to 16 decimals and written as base-10^4 limbs (spec/Fx.tla).
"""
import hashlib
import json
import signal
import sys
import traceback
import warnings
from fractions import Fraction

import numpy as np

SCALE = 10**16
CALL_LIMIT_S = 60


def num(x):
    """A finite real number as <<sign, limbs>>."""
    if isinstance(x, (bool, np.bool_, int, np.integer)):
        n = int(x) * SCALE
    else:
        n = round(Fraction(float(x)) * SCALE)
    if n == 0:
        return [0]
    out = [1 if n > 0 else -1]
    n = abs(n)
    while n:
        n, r = divmod(n, 10000)
        out.append(r)
    return out


def arr(x):
    """An array of any shape; anything that is not an array of finite real numbers is not ok."""
    try:
        a = np.asarray(x)
        if a.dtype.kind == 'f':
            finite = bool(np.isfinite(a).all())
        else:
            finite = a.dtype.kind in 'iub'
        if not finite:
            return {'ok': False, 'sh': [int(s) for s in a.shape], 'd': []}
        return {'ok': True, 'sh': [int(s) for s in a.shape], 'd': [num(v) for v in a.ravel(order='C').tolist()]}
    except Exception:
        return {'ok': False, 'sh': [], 'd': []}


def arrs(xs):
    try:
        return [arr(x) for x in xs]
    except TypeError:
        return [arr(None)]


def ints(xs):
    return [int(x) for x in xs]


def exact(x):
    """Text that identifies dtype kind, shape and every bit of an array."""
    try:
        a = np.asarray(x)
        if a.dtype == object:
            return 'object:' + repr(x)
        h = hashlib.sha256(np.ascontiguousarray(a).tobytes()).hexdigest()[:32]
        return f'{a.dtype.kind}{a.dtype.itemsize}:{list(a.shape)}:{h}'
    except Exception as e:
        return 'unreadable:' + type(e).__name__


class CallTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CallTimeout()


class Recorder:
    def __init__(self, path, tier, seed):
        self.file = open(path, 'w')
        self.tier = tier
        self.seed = seed
        self.session = 0
        self.n = 0
        self.label = ''
        self.last_error = ""
        signal.signal(signal.SIGALRM, _alarm)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def begin(self, label):
        """Start a new session: events of one session are validated in order, from the initial state."""
        self.session += 1
        self.label = label
        self.last_error = ""

    def emit(self, op, **fields):
        fields['op'] = op
        fields.setdefault('exc', '')
        fields['sid'] = self.session
        fields['label'] = self.label
        self.file.write(json.dumps(fields, separators=(',', ':')) + '\n')
        self.n += 1

    def call(self, fn, *args, **kwargs):
        """Run fn; returns (result, name of the exception or '')."""
        signal.alarm(CALL_LIMIT_S)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return fn(*args, **kwargs), ''
        except CallTimeout:
            return None, 'Timeout'
        except Exception as e:
            self.last_error = ''.join(traceback.format_exception_only(e)).strip()[:300]
            return None, type(e).__name__
        finally:
            signal.alarm(0)

    def scenario(self, label, fn, *args, **kwargs):
        """Run one scenario.  The scenario itself never fails on a correct library, so an exception that
        reaches this point is an observation (the library returned something of the wrong kind)."""
        self.begin(label)
        signal.alarm(CALL_LIMIT_S * 4)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                fn(self, *args, **kwargs)
        except CallTimeout:
            self.emit('crash', what='Timeout', where=label)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            self.emit('crash', what=type(e).__name__ + ': ' + str(e)[:200],
                      where=' < '.join(f'{f.filename.split("/")[-1]}:{f.lineno}' for f in tb[-4:]))
        finally:
            signal.alarm(0)

    def close(self):
        self.file.close()


def rng_for(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], 'little'))


def grid(rng, shape, hi=3, scale=1.0):
    """Integer valued array (exactly representable)."""
    return rng.integers(-hi, hi + 1, size=shape).astype(float) * scale


def seed_global(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    np.random.seed(int.from_bytes(h[:4], 'little'))
