"""Shared parts of the drivers that execute scripts on the real code."""
import json
import random
import signal

TIMEOUTS = [10, 5, 2, 1]    # getting impatient
timeouts = 0


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


signal.signal(signal.SIGALRM, _alarm)


def call(f, *args, **kw):
    """('ok', result) or ('exc', name of the exception)."""
    global timeouts
    signal.setitimer(signal.ITIMER_REAL, TIMEOUTS[min(timeouts, 3)])
    try:
        try:
            return 'ok', f(*args, **kw)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Timeout:
        timeouts += 1
        return 'exc', 'Timeout'
    except BaseException as e:
        return 'exc', type(e).__name__


def canon(x):
    return json.dumps(x, sort_keys=True)


def R(k, v=0):
    return {'k': k, 'v': v}


def rnone(res):
    """Result of an update (whatever it returns)."""
    return R('none') if res[0] == 'ok' else R('exc', res[1])


def rint(res):
    if res[0] == 'exc':
        return R('exc', res[1])
    v = res[1]
    if isinstance(v, int) and abs(v) < 2**31:
        return R('int', int(v))
    return R('weird', repr(v)[:80])


def rbool(res):
    if res[0] == 'exc':
        return R('exc', res[1])
    v = res[1]
    return R('bool', bool(v)) if v in (0, 1) else R('weird', repr(v)[:80])


class Stop(Exception):
    """Ends a script (after a call whose effect has no model)."""


class IdMap:
    """Order-preserving renaming of the docids in use to small integers."""

    def __init__(self, real):
        self.real = sorted(real)
        self.back = {r: i for i, r in enumerate(self.real)}

    def __getitem__(self, i):
        return self.real[i]

    def seq(self, res, sort=True):
        """R('ids'/'list', abstract ids) of a result collection."""
        if res[0] == 'exc':
            return R('exc', res[1])
        r = call(lambda: [self.back[x] for x in res[1]])
        if r[0] == 'exc':
            return R('weird', repr(res[1])[:80])
        return R('ids', sorted(r[1])) if sort else R('list', r[1])


EXTRA_IDS = 8   # ids 0.. of a map not in any index, used by sort


def docids(kind, n, family):
    """n real docids of a kind that fit the family."""
    lo, hi = ((-2**31, 2**31 - 1) if family == 32 else (-2**63, 2**63 - 1))
    if kind == 'pos':
        return list(range(1, n + 1))
    if kind == 'small':
        return list(range(n))
    if kind == 'neg':
        return list(range(-(n // 2), n - n // 2))
    if kind == 'limits':
        a = [lo + i for i in range((n + 2) // 3)]
        b = [hi - i for i in range((n + 2) // 3)]
        c = list(range(-1, n))
        return (a + b + c)[:n] if n > 2 else [lo, hi][:n]
    if kind == 'spread':
        r = random.Random(n)
        out = set()
        while len(out) < n:
            out.add(r.randint(lo, hi))
        return sorted(out)
    raise ValueError(kind)


ID_KINDS = ['small', 'neg', 'limits', 'spread']


def mapping_items(res):
    return list(res.items())
