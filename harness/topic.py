"""Driver of the topic index."""
import random

from common import ID_KINDS, IdMap, Stop, call, canon, docids, rnone

# Expressions over the context, and whether objects 0..5 satisfy them.


class Ob:
    def __init__(self, n):
        self.n = n
        self.even = n % 2 == 0
        self.items = [n] * n
        if n == 3:
            self.extra = 1

    def boom(self):
        if self.n == 1:
            raise SystemExit
        return self.n == 2

    @property
    def nobool(self):
        class X:
            def __bool__(s):
                raise ValueError
        return X() if self.n in (0, 4) else self.n


EXPRS = ['True', 'False', 'context.even', 'context.n > 2', 'context.extra',
         'context.items', 'context.boom()', '1 // 0', 'context.(', '',
         'context.nobool', 'not context.even', 'context is None',
         'context.n in (1, 4)', 'len(str(context.n)) == 1',
         'not context', "context == ''", 'context', 'len(context) == 0',
         'context["n"]', '[c for c in (1, 2) if c == context.n]']


def context(n):
    """The objects which are indexed."""
    if n < 6:
        return Ob(n)
    return [None, '', 0, Falsy(), {'n': 1}, 'text'][n - 6]


class Falsy:
    n = 9

    def __bool__(self):
        return False


OBJECTS = 12


def evaluate(x, n):
    o = context(n)
    try:
        ok = eval(x, {}, {'context': o})
        return 'T' if ok else 'F'
    except BaseException:
        return 'E'


SAT = [[evaluate(x, n) for n in range(OBJECTS)] for x in EXPRS]
NAMES = ['f0', 'f1', 'f2', 'f10', '', 'F0', 'nope', 'f'] + [
    'g%d' % i for i in range(70)]


def number(ob):
    """The number of an object."""
    for n in range(6, OBJECTS):
        if type(ob) is type(context(n)):
            if type(ob) is not str or ob == context(n):
                return n
    return ob.n


def custom(name, x, family):
    """A filter of another kind, which does not use expressions."""
    from zope.index.topic.filter import FilteredSetBase

    class Filter(FilteredSetBase):
        def clear(self):
            self.members = self.family.IF.TreeSet()

        def index_doc(self, docid, context):
            if SAT[self.getExpression()][number(context)] == 'T':
                self.members.insert(docid)
            else:
                self.unindex_doc(docid)

        def unindex_doc(self, docid):
            if docid in self.members:
                self.members.remove(docid)

        def getId(self):
            return name

        def getIds(self):
            return self.members

    return Filter('unused', x, family)


class Exec:
    def __init__(self, cfg, family):
        import BTrees
        self.fam = getattr(BTrees, 'family%d' % family)
        self.family_n = family
        self.cfg = cfg
        self.ids = IdMap(docids(cfg['idkind'], cfg['nd'], family))
        self.held = {}
        self.flts = {}
        self.ev = []
        self.ix = self.new()
        # what each filter in the index should contain: twin building
        self.where = {}      # name -> filter
        self.cont = {}       # filter -> {d: (object, expr)}
        self.exprs = {}

    def new(self):
        from zope.index.topic import TopicIndex
        if self.family_n == 32 and self.cfg.get('deffam'):
            return TopicIndex()
        return TopicIndex(family=self.fam)

    def expr(self, name, x):
        return x if name in self.cfg.get('custom', ()) else EXPRS[x]

    def newfilter(self, name, x):
        if name in self.cfg.get('custom', ()):
            return custom(NAMES[name], x, self.fam)
        from zope.index.topic.filter import PythonFilteredSet
        if self.family_n == 32 and self.cfg.get('deffam'):
            return PythonFilteredSet(NAMES[name], EXPRS[x])
        return PythonFilteredSet(NAMES[name], EXPRS[x], family=self.fam)

    def emit(self, **e):
        self.ev.append(e)

    def run(self, script):
        for op in script:
            getattr(self, 'op_' + op[0])(*op[1:])
        return self.ev

    def obs(self, ix):
        out = []
        for n in NAMES:
            out.append(self.ids.seq(call(ix.search, [n])))
        for a, b in zip(NAMES, NAMES[1:]):
            for o in ('and', 'or'):
                out.append(self.ids.seq(call(ix.search, [a, b], o)))
        out.append(self.ids.seq(call(ix.search, NAMES)))
        return out

    # updates
    def op_new(self, f, name, x):
        r = call(self.newfilter, name, x)
        if r[0] == 'ok':
            self.flts[f] = r[1], name
            self.cont[f] = {}
            self.exprs[f] = x
        self.emit(op='new', f=f, x=x, r=rnone(r))

    def op_add(self, f):
        if f not in self.flts:
            return
        flt, name = self.flts[f]
        self.where[name] = f
        self.emit(op='add', f=f, name=name, r=rnone(call(self.ix.addFilter, flt)))

    def op_del(self, name):
        self.where.pop(name, None)
        self.emit(op='del', name=name,
                  r=rnone(call(self.ix.delFilter, NAMES[name])))

    def op_setexpr(self, f, x):
        if f not in self.flts:
            return
        self.exprs[f] = x
        self.emit(op='setexpr', f=f, x=x,
                  r=rnone(call(self.flts[f][0].setExpression,
                             self.expr(self.flts[f][1], x))))

    def op_index(self, d, o):
        ob = context(o)
        before = repr(getattr(ob, '__dict__', ob))
        for f in self.where.values():
            self.cont[f][d] = (o, self.exprs[f])
        r = call(self.ix.index_doc, self.ids[d], ob)
        self.emit(op='index', d=d, o=o, r=rnone(r),
                  args=repr(getattr(ob, '__dict__', ob)) == before)

    def op_unindex(self, d):
        for f in self.where.values():
            self.cont[f].pop(d, None)
        self.emit(op='unindex', d=d,
                  r=rnone(call(self.ix.unindex_doc, self.ids[d])))

    def op_clearfilters(self):
        for f in self.where.values():
            self.cont[f].clear()
        self.emit(op='clearfilters', r=rnone(call(self.ix.clearFilters)))

    def op_clear(self):
        self.where.clear()
        self.emit(op='clear', r=rnone(call(self.ix.clear)))

    # queries
    def query(self, q, opr, form):
        xs = [NAMES[n] for n in q]
        wrap, _, f = form.rpartition('/')
        if f == 'str' and len(xs) != 1:
            f = 'list'
        a = xs[0] if f == 'str' else (tuple(xs) if f == 'tuple' else xs)
        if wrap == 'dict':
            a = {'query': a}
            if opr == 'or' or len(q) % 2:
                a['operator'] = opr
            return (lambda: self.ix.apply(a)), a
        if wrap == 'apply' and opr == 'and':
            return (lambda: self.ix.apply(a)), a
        if opr == 'and' and len(q) % 2:
            return (lambda: self.ix.search(a)), a
        return (lambda: self.ix.search(a, opr)), a

    def op_search(self, q, opr, form='list', twice=False):
        f, a = self.query(q, opr, form)
        for _ in range(1 + bool(twice)):
            before = repr(a)
            r = self.ids.seq(call(f))
            self.emit(op='search', q=q, opr=opr, r=r, args=repr(a) == before,
                      form=form)

    def op_searchbad(self, kind, opr='and'):
        q = {'int': 5, 'set': {'f0'}, 'none': None, 'gen': (x for x in 'ab'),
             'bytes': b'f0', 'opr': ['f0'], 'opr0': [],
             'dictset': {'query': frozenset(['f0'])},
             'dictopr': {'query': ['f0'], 'operator': 'xor'}}[kind]
        if kind.startswith('dict'):
            r = call(self.ix.apply, q)
        elif kind.startswith('opr'):
            r = call(self.ix.search, q,
                     {'none': None}.get(opr, opr) if opr != 'and' else 'AND')
        else:
            r = call(self.ix.search, q, opr)
        self.emit(op='searchbad', kind=kind, r=self.ids.seq(r))

    def op_getids(self, f):
        if f in self.flts:
            self.emit(op='getids', f=f,
                      r=self.ids.seq(call(self.flts[f][0].getIds)))

    def op_hold(self, h, q, opr, form):
        r = call(self.query(q, opr, form)[0])
        if r[0] == 'ok':
            self.held[h] = r[1]
            self.emit(op='hold', h=h, r=canon(self.ids.seq(r)))

    def op_mutate(self, h, d):
        if h in self.held:
            s = self.held[h]

            def f():
                if d < 0:
                    s.clear()
                elif self.ids[d] in s:
                    s.remove(self.ids[d])
                else:
                    s.insert(self.ids[d])
            call(f)
            self.emit(op='mutate', h=h, r=canon(self.ids.seq(('ok', s))))

    def op_reread(self, h):
        if h in self.held:
            self.emit(op='reread', h=h,
                      r=canon(self.ids.seq(('ok', self.held[h]))))

    def op_pure(self, q, opr, form):
        a = canon(self.obs(self.ix))
        rs = [canon(self.ids.seq(call(self.query(q, opr, form)[0])))
              for _ in range(2)]
        self.emit(op='pure', a=a, b=canon(self.obs(self.ix)),
                  r1=rs[0], r2=rs[1])

    def op_twin(self, seed, kind='all'):
        """A new index with the same filters and contents."""
        from zope.index.topic.filter import PythonFilteredSet  # noqa: F401
        new = self.new()
        rng = random.Random(seed)
        fs = list(self.where.items())
        rng.shuffle(fs)
        for name, f in fs:
            g = self.newfilter(name, self.exprs[f])
            ds = list(self.cont[f].items())
            rng.shuffle(ds)
            for d, (o, x) in ds:
                g.setExpression(self.expr(name, x))
                call(g.index_doc, self.ids[d], context(o))
            g.setExpression(self.expr(name, self.exprs[f]))
            call(new.addFilter, g)
        self.emit(op='twin', kind=kind, b=canon(self.obs(new)),
                  a=canon(self.obs(self.ix)), **{'as': [], 'bs': []})


QFORMS = ['list', 'tuple', 'str', 'apply/list', 'apply/str', 'apply/tuple',
          'dict/list', 'dict/str', 'dict/tuple']


def probes(cfg, nf=3):
    out = [['getids', f] for f in range(nf)]
    for o in ('and', 'or'):
        out.append(['search', [], o, 'list'])
        for q in ([0], [1], [0, 1], [1, 6], [6]):
            out.append(['search', q, o,
                        QFORMS[(len(out) * 5) % len(QFORMS)], len(out) % 3 == 0])
    return out


def gen(seed, focus=''):
    rng = random.Random('topic %s' % seed)
    big = rng.random() < .08
    nd = rng.choice([70, 130, 130, 400]) if big else rng.randint(2, 8)
    nf = rng.randint(1, 6)
    cfg = dict(nd=nd, idkind=rng.choice(ID_KINDS), sat=SAT,
               deffam=rng.random() < .5)
    if rng.random() < .2:
        cfg['custom'] = rng.sample(range(6), rng.randint(1, 4))
    s = []
    hs = [0]
    fs = []
    many = not big and rng.random() < .08
    if many:
        nf = rng.choice([20, 40, 70])
    wide = rng.random() < .4
    for f in range(nf):
        name = f + 8 if many else rng.randrange(6)
        x = rng.randrange(len(EXPRS)) if rng.random() < .5 else rng.choice(
            [0, 2, 3, 5, 6, 10, 11])
        if wide and rng.random() < .8:
            x = rng.choice([0, 0, 3, 5, 10, 13, 14])
            name = f % 6 if not many else name
        s.append(['new', f, name, x])
        fs.append((f, name))
        if rng.random() < .8:
            s.append(['add', f])

    def query():
        k = rng.choice([0, 1, 1, 1, 2, 2, 3, 4])
        q = rng.sample(range(8), k)
        y = rng.random()
        if y < .3:
            q = [name for _, name in fs if rng.random() < .8]
            rng.shuffle(q)
        elif y < .4:
            q = [name for _, name in rng.sample(fs, min(5, len(fs)))]
        if q and rng.random() < .6:
            q[0] = rng.choice(fs)[1]
        if len(q) > 1 and rng.random() < .6:
            q[1] = rng.choice(fs)[1]
        if rng.random() < .8:
            q = sorted(set(q), key=q.index)
        return [q, rng.choice(['and', 'or']), rng.choice(QFORMS)]

    def some(n):
        for _ in range(n):
            x = rng.random()
            if x < .15:
                s.append(['getids', rng.randrange(nf)])
            elif x < .22:
                s.append(['searchbad', rng.choice(
                    ['int', 'set', 'none', 'gen', 'bytes', 'opr', 'opr0',
                     'dictset', 'dictopr']),
                    rng.choice(['and', 'or', 'xor', 'OR', '', 'none'])])
                if s[-1][2] not in ('and', 'or') and \
                        s[-1][1] in ('set', 'gen', 'bytes', 'int', 'none'):
                    s[-1][2] = 'and'
                if s[-1][1].startswith('opr') and s[-1][2] == 'or':
                    s[-1][2] = 'xor'
            else:
                s.append(['search'] + query() + [rng.random() < .3])

    def extras():
        x = rng.random()
        if (focus == 'twin' and x < .4) or x < .1:
            s.append(['twin', rng.randrange(1000)])
        elif (focus == 'hold' and x < .8) or x < .2:
            y = rng.random()
            if y < .15:
                s.append(['pure'] + query())
            elif y < .4 or not hs[0]:
                hs[0] += 1
                s.append(['hold', hs[0]] + query())
            elif y < .6:
                s.append(['mutate', rng.randint(1, hs[0]),
                          rng.randint(-1, nd - 1)])
                some(1)
                s.append(['twin', 0, 'mutate'])
            else:
                s.append(['reread', rng.randint(1, hs[0])])

    if nd == 400:
        for d in rng.sample(range(nd), nd - rng.choice([0, 5, 60])):
            s.append(['index', d, rng.randrange(OBJECTS)])
    for _ in range(250 if big else 45):
        x = rng.random()
        if x < .55:
            s.append(['index', rng.randrange(nd), rng.randrange(OBJECTS)])
        elif x < .75:
            s.append(['unindex', rng.randrange(nd)])
        elif x < .82:
            s.append(['add', rng.randrange(nf)])
        elif x < .86:
            if not many or rng.random() < .3:
                s.append(['del', rng.choice([rng.choice(fs)[1],
                                             rng.randrange(6)])])
        elif x < .94:
            s.append(['setexpr', rng.randrange(nf), rng.randrange(len(EXPRS))])
        elif x < .97:
            s.append(['clearfilters'])
        elif x < .98:
            s.append(['clear'])
        if not big or rng.random() < .2:
            some(2)
        extras()
    for h in range(1, hs[0] + 1):
        s.append(['reread', h])
    return dict(cfg=cfg, script=s)


def run(item, family):
    x = Exec(item['cfg'], family)
    try:
        x.run(item['script'])
    except Stop:
        pass
    return x.ev
