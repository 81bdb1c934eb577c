"""Driver of NBest, the weighted set operations, and the word id and Rice
codes."""
import itertools
import pickle
import random

from common import R, IdMap, Stop, call, canon, docids, rint, rnone


class Item:
    """Items are arbitrary objects, here neither hashable nor orderable."""
    __hash__ = None

    def __init__(self, n):
        self.n = n

    def __lt__(self, other):
        raise AssertionError('items compared')
    __gt__ = __le__ = __ge__ = __eq__ = __lt__


def rlist(r, f=lambda x: x):
    if r[0] == 'exc':
        return R('exc', r[1])
    try:
        return R('list', f(r[1]))
    except Exception:
        return R('weird', repr(r[1])[:80])


def ints(xs):
    out = list(xs)
    for x in out:
        if type(x) is not int:
            raise TypeError(x)
    return out


class Exec:
    def __init__(self, cfg, family):
        import BTrees
        self.fam = getattr(BTrees, 'family%d' % family)
        self.family_n = family
        self.cfg = cfg
        self.ids = IdMap(docids(cfg['idkind'], cfg['nd'], family))
        self.ev = []
        self.n = 0

    def emit(self, **e):
        self.ev.append(e)

    def run(self, script):
        for op in script:
            self.n += 1
            getattr(self, 'op_' + op[0])(*op[1:])

    # nbest
    def score(self, x):
        k = self.cfg['scores']
        return (x if k == 'int' else x / 8 if k == 'float' else
                (x // 3, x % 3) if k == 'tuple' else '%04d' % (x + 500))

    def unscore(self, v):
        k = self.cfg['scores']
        return (v if k == 'int' else int(v * 8) if k == 'float' else
                v[0] * 3 + v[1] if k == 'tuple' else int(v) - 500)

    def pair(self, p):
        item, sc = p
        assert isinstance(item, Item)
        return [item.n, self.unscore(sc)]

    def op_nbnew(self, n):
        from zope.index.nbest import NBest
        r = call(NBest, n)
        if r[0] == 'ok':
            self.nb = r[1]
        self.emit(op='nbnew', n=n, r=rnone(r))
        if r[0] != 'ok' and n > 0:
            raise Stop()

    def op_nbadd(self, ps, form):
        xs = [(Item(i), self.score(x)) for i, x in ps]
        if form == 'single':
            r = ('ok', None)
            for i, x in xs:
                r = call(self.nb.add, i, x)
        else:
            r = call(self.nb.addmany, {'list': list, 'iter': iter,
                                       'tuple': tuple}[form](xs))
        self.emit(op='nbadd', ps=ps, r=rnone(r))

    def op_nbpop(self):
        r = call(self.nb.pop_smallest)
        self.emit(op='nbpop', r=rlist(r, self.pair))

    def op_nbget(self):
        r = call(self.nb.getbest)
        res = rlist(r, lambda xs: [self.pair(p) for p in xs])
        if r[0] == 'ok':    # the answer is the caller's
            call(r[1].clear)
        self.emit(op='nbget', r=res, n=rint(call(len, self.nb)),
                  cap=rint(call(self.nb.capacity)))

    # set operations
    def mapping(self, kind, m):
        IF = self.fam.IF
        x = IF.BTree() if kind == 'tree' else IF.Bucket()
        for k, v in m:
            x[self.ids[k]] = v
        return x

    def items(self, x):
        return [[self.ids.back[k], v] for k, v in x.items()]

    def setop(self, op, f, lst):
        ms = [None if x['none'] else self.mapping(x['kind'], x['m'])
              for x in lst]
        L = [(m, x['w'] / self.cfg['wscale']) for m, x in zip(ms, lst)]
        L0 = list(L)
        before = [m is not None and list(m.items()) for m in ms]
        if self.family_n == 32 and self.n % 2:
            r = call(f, L)
        else:
            r = call(f, L, self.fam)

        def conv(res):
            out = []
            for k, v in res.items():
                v = v * self.cfg['wscale']
                if v != int(v):
                    raise ValueError(v)
                out.append([self.ids.back[k], int(v)])
            return out
        args = before == [m is not None and list(m.items()) for m in ms] and \
            len(L) == len(L0) and all(
                a[0] is b[0] and a[1] == b[1] for a, b in zip(L, L0))
        if r[0] == 'exc':
            res = R('exc', r[1])
        else:
            c = call(conv, r[1])
            res = R('map', c[1]) if c[0] == 'ok' else R(
                'weird', repr(r[1])[:80])
        self.emit(op=op, l=lst, r=res, args=args)

    def op_union(self, lst):
        from zope.index.text.setops import mass_weightedUnion as f
        self.setop('union', f, lst)

    def op_inter(self, lst):
        from zope.index.text.setops import mass_weightedIntersection as f
        self.setop('inter', f, lst)

    # word id codes
    def op_wenc(self, ws):
        from zope.index.text import widcode
        xs = tuple(ws) if self.n % 2 else list(ws)
        c = call(widcode.encode, xs)
        r = call(widcode.decode, c[1]) if c[0] == 'ok' else c
        self.emit(op='wenc', ws=ws, r=rlist(r, ints),
                  c=rlist(c, lambda s: [ord(x) for x in s]))

    # rice codes
    def op_rnew(self, m):
        from zope.index.text.ricecode import RiceCode
        r = call(RiceCode, m)
        if r[0] == 'ok':
            self.rc = r[1]
        self.emit(op='rnew', m=m, r=rnone(r))
        if r[0] != 'ok' and 0 <= m <= 16:
            raise Stop()

    def op_radd(self, v):
        self.emit(op='radd', v=v, r=rnone(call(self.rc.append, v)))

    def op_rget(self):
        self.emit(op='rget', r=rlist(call(self.rc.tolist), ints),
                  n=rint(call(len, self.rc)))

    def op_rbits(self):
        self.emit(op='rbits', r=rlist(
            call(self.rc.tostring),
            lambda b: [x >> i & 1 for x in b for i in range(8)]))

    def op_renc(self, m, l_):
        from zope.index.text import ricecode
        xs = list(l_)
        c = call(ricecode.encode, m, xs)
        r = call(c[1].tolist) if c[0] == 'ok' else c
        n = rint(call(len, c[1])) if c[0] == 'ok' else R('exc', c[1])
        self.emit(op='renc', m=m, l=l_, r=rlist(r, ints), n=n,
                  args=xs == list(l_))

    def op_delta(self, l_):
        from zope.index.text import ricecode
        xs = list(l_)
        c = call(ricecode.encode_deltas, xs)
        r = call(lambda: ricecode.decode_deltas(*c[1])) \
            if c[0] == 'ok' else c
        self.emit(op='delta', l=l_, r=rlist(r, ints), args=xs == list(l_))

    # bit arrays
    def op_bnew(self):
        from zope.index.text.ricecode import BitArray
        self.ba = BitArray()
        self.emit(op='bnew', r=R('none'))

    def op_badd(self, v):
        x = v if self.n % 2 else (4 if v else '')
        self.emit(op='badd', v=v, r=rnone(call(self.ba.append, x)))

    def op_bset(self, i, v):
        self.emit(op='bset', i=i, v=v,
                  r=rnone(call(self.ba.__setitem__, i, v)))

    def op_bget(self):
        n = call(len, self.ba)
        if self.n % 3 == 0:
            c = call(lambda: pickle.loads(pickle.dumps(self.ba, self.n % 4)))
            if c[0] == 'ok':
                self.ba = c[1]
        self.emit(op='bget', n=rint(n), r=rlist(
            call(lambda: [self.ba[i] for i in range(n[1])])))


def config(nd=12, idkind='small', scores='int', wscale=1):
    return dict(nd=nd, idkind=idkind, scores=scores, wscale=wscale)


WIDS = sorted({w for b in (0, 128, 128**2, 128**3, 128**4, 256, 2**13)
               for w in range(b - 4, b + 4) if 0 <= w < 2**28})


def digits(ds):
    return [((a * 128 + b) * 128 + c) * 128 + d for a, b, c, d in
            itertools.product(ds, repeat=4)]


def wid_chunks(part, parts, thorough):
    """All ids of up to three symbols by their digits, etc. (exhaustive)."""
    if thorough:
        xs = list(range(0, 2**18)) + list(range(2**21 - 2000, 2**21 + 2000))
        xs += digits([0, 1, 2, 3, 31, 32, 36, 42, 63, 64, 92, 126, 127])
    else:
        xs = list(range(0, 2**14 + 600)) + digits(
            [0, 1, 2, 36, 64, 92, 126, 127])
    xs = sorted(set(xs))[part::parts]
    return dict(cfg=config(), script=[
        ['wenc', xs[i:i + 40]] for i in range(0, len(xs), 40)])


def rice_small(part, parts, n):
    """All lists of up to n items from 1..9 with small parameters, all short
    sequences as deltas."""
    s = []
    for k in range(n + 1):
        for xs in itertools.product([1, 2, 3, 4, 5, 8, 9], repeat=k):
            s.append(['renc', len(s) % 5, list(xs)])
    for k in range(1, n + 1):
        for xs in itertools.product([-70, -1, 0, 1, 2, 65, 130], repeat=k):
            s.append(['delta', list(xs)])
    return dict(cfg=config(), script=s[part::parts])


def gen(seed, focus=''):
    rng = random.Random('util %s' % seed)
    s = []
    if focus == 'nbest':
        cfg = config(scores=rng.choice(['int', 'float', 'tuple', 'str']))
        for _ in range(4):
            if rng.random() < .15:
                s.append(['nbnew', rng.choice([0, -1, -100])])
            s.append(['nbnew', rng.choice([1, 1, 2, 3, 4, 5, 8, 20, 1000])])
            top = rng.choice([0, 1, 3, 10, 400])
            k = 0
            s.append(['nbget'])
            for _ in range(rng.choice([5, 20, 60])):
                y = rng.random()
                if y < .7:
                    n = rng.choice([0, 1, 1, 1, 2, 3, 7])
                    if rng.random() < .01:
                        n = rng.choice([60, 300])
                    ps = []
                    for _ in range(n):
                        k += 1
                        ps.append([k, rng.randint(-top, top)])
                    z = rng.random()
                    if z < .1:
                        ps.sort(key=lambda p: p[1])
                    elif z < .2:
                        ps.sort(key=lambda p: -p[1])
                    s.append(['nbadd', ps, rng.choice(
                        ['single', 'list', 'iter', 'tuple'])])
                else:
                    s.append(['nbpop'])
                    if rng.random() < .2:
                        s += [['nbpop']] * rng.randint(1, 8)
                s.append(['nbget'])
    elif focus == 'setops':
        cfg = config(nd=rng.choice([1, 3, 8, 30]),
                     idkind=rng.choice(['small', 'neg', 'limits', 'spread']),
                     wscale=rng.choice([1, 1, 2, 4]))
        sc = cfg['wscale']
        many = rng.random() < .07
        for _ in range(3 if many else 14):
            n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 8, 12])
            dens = rng.choice([.2, .5, .8, 1])
            if many:
                n = rng.choice([26, 40, 101, 130])
                dens = rng.choice([.1, .3])
            lst = []
            for _ in range(n):
                d = rng.choice([0, dens, dens, dens, 1])
                if many:
                    d = dens
                lst.append(dict(
                    none=False, kind=rng.choice(['bucket', 'tree']),
                    w=rng.choice([1, 1, 1, 2, 3, 0, -1, 7]) * (
                        sc if rng.random() < .5 else 1),
                    m=[[k, rng.choice([1, 2, 3, 5, 100, -1, -4, 0])]
                       for k in range(cfg['nd']) if rng.random() < d]))
            s.append(['union', lst])
            lst = [dict(x, m=[[k, rng.randint(-3, 9)] for k, v in x['m']])
                   for x in lst]
            for _ in range(rng.choice([0, 0, 1, 2])):
                lst.insert(rng.randint(0, len(lst)), dict(
                    none=True, kind='bucket', w=1, m=[]))
            s.append(['inter', lst])
    elif focus == 'wid':
        cfg = config()
        for _ in range(60):
            n = rng.choice([0, 1, 2, 3, 5, 20, 60])
            hi = rng.choice([127, 2**14 - 1, 2**21 - 1, 2**28 - 1, None])
            if rng.random() < .03:
                n = rng.choice([200, 700, 1500])
            s.append(['wenc', [
                rng.choice(WIDS) if hi is None or rng.random() < .2
                else rng.randint(0, hi) for _ in range(n)]])
    elif focus == 'rice':
        cfg = config()
        for _ in range(12):
            if rng.random() < .3:
                s.append(['rnew', rng.choice([-1, 17, -5, 100, 18])])
            m = rng.randint(0, 16)
            s.append(['rnew', m])
            if m < 6 and rng.random() < .2:      # a long unary part
                s.append(['radd', rng.choice(
                    [60, 250, 257, 700, 1100]) * 2**m + rng.randint(0, 3)])
                s.append(['radd', rng.randint(1, 5)])
            top = rng.choice([1, 2, 2**m, 2**m + 1, 4 * 2**m, 30 * 2**m])
            s.append(['rget'])
            for _ in range(rng.choice([1, 5, 12])):
                s.append(['radd', rng.choice(
                    [rng.randint(1, top), top, 1, 2**m, 2**m + 1,
                     rng.choice([0, -1, -70])
                     if rng.random() < .4 else 1])])
                s.append(['rget'])
            s.append(['rbits'])
        for _ in range(25):
            m = rng.randint(0, 16)
            n = rng.choice([0, 1, 2, 5, 30])
            if m < 8 and rng.random() < .05:
                n = 300
            top = rng.choice([1, 3, 2**m, 5 * 2**m])
            l_ = [rng.randint(1, top) for _ in range(n)]
            if l_ and rng.random() < .1:
                l_[rng.randrange(n)] = rng.choice([0, -1])
            s.append(['renc', m if rng.random() < .95 else
                      rng.choice([-1, 17]), l_])
            n = rng.choice([1, 2, 2, 3, 8, 40])
            if rng.random() < .04:
                n = 400
            step = rng.choice([1, 2, 64, 65, 200, 5000])
            x = rng.randint(-1000, 1000)
            l_ = [x]
            for _ in range(n - 1):
                l_.append(l_[-1] + rng.choice(
                    [1, rng.randint(1, step), step, 64]))
            if n > 1 and rng.random() < .08:
                i = rng.randrange(1, n)
                l_[i] = l_[i - 1] - rng.choice([0, 0, 5])
            s.append(['delta', l_])
        for _ in range(3):
            s.append(['bnew'])
            n = 0
            for _ in range(rng.choice([3, 9, 40])):
                if n and rng.random() < .4:
                    s.append(['bset', rng.randrange(n), rng.randint(0, 1)])
                else:
                    s.append(['badd', rng.randint(0, 1)])
                    n += 1
                if rng.random() < .3:
                    s.append(['bget'])
            s.append(['bget'])
    return dict(cfg=cfg, script=s)


def run(item, family):
    x = Exec(item['cfg'], family)
    try:
        x.run(item['script'])
    except Stop:
        pass
    return x.ev
