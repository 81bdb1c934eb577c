"""Driver of the text indexes."""
import random

from common import (ID_KINDS, IdMap, R, Stop, call, canon, docids, rbool,
                    rint, rnone)

BASE = ['foo', 'fooo', 'bar', 'foobar', 'fob', 'baz', 'élan', 'x1', 'f',
        'zebra', 'fo', 'oof', 'a1b', 'ba', 'éla', 'straße']
GLOBS = ['fo*', 'f*', 'f?o', 'ba?', 'b*r', 'foo?', 'é*', 'x*', 'fo*r', 'z*a',
         'fo??', 'w1*', 'w*', 'q*', 'foobar*', '*foo', '?x', 'bar', 'f*o*']
STOPS = ['the', 'Of', 'AND THE', '...', 'a']


def codes(s):
    return [ord(c) for c in s]


def vocabulary(n):
    return (BASE + ['w%d' % i for i in range(n)])[:n]


def tokens(vocab, rng):
    """The table of tokens: dicts with s (as written), k, words ..."""
    out = []

    def atom(s, ws, **kw):
        out.append(dict(dict(s=s, k='ATOM', words=ws, glob=False, neg=False,
                             src=[len(out)]), **kw))
    n = len(vocab)
    for i, w in enumerate(vocab):
        atom(w, [i])
    for i in range(min(n, 12)):
        w = vocab[i]
        atom(w.capitalize() if i % 2 or 'ß' in w else w.upper(), [i])
    for s in STOPS:
        if ' ' not in s:
            atom(s, [])
    for _ in range(8):
        k = rng.choice([2, 2, 3])
        ws = [rng.randrange(n) for _ in range(k)]
        sep = rng.choice(['-', '.', '/', "'", '--', ','])
        atom(sep.join(vocab[i] for i in ws), ws)
    atom('"%s the"' % vocab[0], [0])
    atom('"%s"' % vocab[n // 2], [n // 2])
    atom('"of the"', [])
    atom('""', [])
    for _ in range(6):
        k = rng.choice([2, 2, 3, 4])
        ws = [rng.randrange(n) for _ in range(k)]
        atom('"%s"' % rng.choice([' ', ' ', ' (', ' the ', ' AND ']).join(
            vocab[i] for i in ws), ws)
    text_tokens = len(out)
    # only in queries
    for _ in range(4):
        i, j = rng.randrange(n), rng.randrange(n)
        atom('-' + vocab[i], [i], neg=True)
        atom('-"%s %s"' % (vocab[i], vocab[j]), [i, j], neg=True)
        atom('-%s-%s' % (vocab[j], vocab[i]), [j, i], neg=True)
    atom('-the', [], neg=True)
    for g in GLOBS:
        if g[0] not in '*?' and ('*' in g or '?' in g):
            atom(g, [codes(g)], glob=True)
            if len(g) % 2:
                atom(g.upper(), [codes(g)], glob=True)
            if len(g) % 3 == 0:
                atom('-' + g, [codes(g)], glob=True, neg=True)
    ops = {}
    for k in ('AND', 'OR', 'NOT'):
        for s in (k, k.lower(), k.capitalize()):
            ops.setdefault(k, []).append(len(out))
            out.append(dict(s=s, k=k))
    for k in '()':
        ops[k] = [len(out)]
        out.append(dict(s=k, k=k))
    return out, text_tokens, ops


class Wide:
    """A lexicon whose word ids are those of another, renamed."""

    def __init__(self, lex, seed):
        self.lex = lex
        rng = random.Random(seed)
        xs = set()
        if seed % 3 == 0:   # codes that continue each other
            more = [0, 0, 1, 127]
            xs = {1, 2}
            while len(xs) < 60:
                x = rng.choice(sorted(xs))
                if x < 2**21:
                    xs.add(x * 128 + rng.choice(more))
                else:
                    xs.add(rng.choice([1, 2, 64, 126, 127]))
            xs = sorted(xs)
            xs = xs[:12] + rng.sample(xs[12:], len(xs) - 12)
            first = xs[:16]
            rng.shuffle(first)
            xs[:16] = first
            self.to = xs
            self.back = {x: i for i, x in enumerate(xs)}
            return
        small = [1, 2, 5, 10, 127, 36, 92, 40]
        while len(xs) < 90:
            k = rng.choice([1, 2, 2, 3, 3, 4])
            v = 0
            for i in range(k):
                v = v * 128 + rng.choice(small if i == 0 else small + [0, 0])
            xs.add(v)
        xs |= {127, 128, 129, 16383, 16384, 2**21 - 1, 2**21, 2**28 - 1}
        xs = sorted(xs)
        rng.shuffle(xs)
        self.to = xs
        self.back = {x: i for i, x in enumerate(xs)}

    def f(self, w):
        if not w:
            return 0
        return self.to[w - 1] if w <= len(self.to) else 2**27 + w

    def g(self, x):
        return self.back[x] + 1 if x in self.back else x - 2**27

    def sourceToWordIds(self, text):
        return [self.f(w) for w in self.lex.sourceToWordIds(text)]

    def termToWordIds(self, text):
        return [self.f(w) for w in self.lex.termToWordIds(text)]

    def globToWordIds(self, p):
        return [self.f(w) for w in self.lex.globToWordIds(p)]

    def parseTerms(self, text):
        return self.lex.parseTerms(text)

    def isGlob(self, w):
        return self.lex.isGlob(w)

    def get_word(self, wid):
        return self.lex.get_word(self.g(wid))

    def get_wid(self, w):
        return self.f(self.lex.get_wid(w))

    def wordCount(self):
        return self.lex.wordCount()


def bad_docids(family):
    return ['x', 1.5, (1,), b'1', 2**31 if family == 32 else 2**63,
            -2**31 - 1 if family == 32 else -2**63 - 1, 2**70, None]


class Exec:
    def __init__(self, cfg, family):
        import BTrees
        self.fam = getattr(BTrees, 'family%d' % family)
        self.family_n = family
        self.cfg = cfg
        self.ids = IdMap(docids(cfg['idkind'], cfg['nd'], family))
        self.vocab = vocabulary(cfg['nw'])
        self.word = {w: i for i, w in enumerate(self.vocab)}
        self.toks = cfg['toks']
        self.held = {}
        self.docs = {}
        self.ev = []
        self.ti = self.new()
        self.ix = self.ti.index
        self.n = 0

    def new(self, lexicon=None):
        from zope.index.text import htmlsplitter, lexicon as lm
        from zope.index.text.cosineindex import CosineIndex
        from zope.index.text.okapiindex import OkapiIndex
        from zope.index.text.textindex import TextIndex
        kind, lx = self.cfg['kind'], self.cfg['lex']
        if kind == 'okapi' and lx == 'default' and self.family_n == 32:
            return TextIndex()
        if lexicon is None:
            sp = htmlsplitter.HTMLWordSplitter if lx == 'html' else lm.Splitter
            lexicon = lm.Lexicon(sp(), lm.CaseNormalizer(),
                                 lm.StopWordRemover())
            if lx == 'prefilled':
                lexicon.sourceToWordIds(
                    ['v%d' % i for i in range(self.cfg['pre'])])
            if lx == 'wide':
                lexicon = Wide(lexicon, self.cfg['pre'])
        cls = OkapiIndex if kind == 'okapi' else CosineIndex
        if self.family_n == 32 and self.cfg.get('deffam'):
            ix = cls(lexicon)
        else:
            ix = cls(lexicon, family=self.fam)
        if lx == 'shared':
            other = cls(lexicon, family=self.fam)
            other.index_doc(1, ' '.join(reversed(self.vocab)))
        if self.cfg.get('nolex'):
            return TextIndex(index=ix)
        return TextIndex(lexicon, ix)

    def emit(self, **e):
        self.ev.append(e)

    def run(self, script):
        for op in script:
            self.n += 1
            getattr(self, 'op_' + op[0])(*op[1:])
        return self.ev

    def text(self, ts, form='str'):
        xs = [self.toks[t]['s'] for t in ts]
        if form == 'list':
            return xs
        if form == 'lists':
            return [' '.join(xs[:len(xs) // 2]), ' '.join(xs[len(xs) // 2:])]
        return (', ' if form == 'comma' else ' ').join(xs)

    # results
    def res(self, r):
        """(R, all positive?, [[d, score as text]])"""
        if r[0] == 'exc':
            return R('exc', r[1]), True, []
        if r[1] is None:
            return R('none'), True, []
        m = call(lambda: [(self.ids.back[k], float(v))
                          for k, v in r[1].items()])
        if m[0] == 'exc':
            return R('weird', repr(r[1])[:80]), True, []
        m = sorted(m[1])
        return (R('ids', [k for k, _ in m]), all(v > 0 for _, v in m),
                [[k, '%.9g' % v] for k, v in m])

    def canon(self, r):
        k, p, sc = self.res(r)
        return canon([k, [[d, '%.5g' % float(s)] for d, s in sc]])

    def rwords(self, ix, d):
        def f():
            return [self.word[ix.lexicon.get_word(w)]
                    for w in ix.get_words(self.ids[d])]
        r = call(f)
        return R('exc', r[1]) if r[0] == 'exc' else R('list', r[1])

    def obs(self, ti):
        ix = ti.index
        out = [rint(call(ti.documentCount)), rint(call(ti.wordCount))]
        scores = []

        def add(r):
            k, p, sc = self.res(r)
            out.append(k)
            scores.extend(int(round(float(s) * 1e6)) for _, s in sc)
        nd = len(self.ids.real)
        for d in range(nd) if nd < 20 else range(0, nd, 7):
            out.append(rbool(call(ix.has_doc, self.ids[d])))
            if out[-1]['v'] is True:
                out.append(self.rwords(ix, d))
        vs = self.vocab if len(self.vocab) < 14 else self.vocab[::4]
        for v in vs:
            add(call(ix.search, v))
        for v, w in zip(vs, vs[1:]):
            add(call(ix.search_phrase, v + ' ' + w))
            add(call(ti.apply, '%s OR %s' % (v, w)))
            add(call(ti.apply, '%s NOT %s' % (w, v)))
        for g in ('f*', 'b?r', 'w1*'):
            add(call(ix.search_glob, g))
        out.append(len(scores))
        return out, scores

    # updates
    def op_index(self, d, ts, form='str'):
        t = self.text(ts, form)
        before = repr(t)
        if self.n % 2:
            r = call(self.ix.index_doc, self.ids[d], t)
            res = rint(r)
        else:
            res = rnone(call(self.ti.index_doc, self.ids[d], t))
        same = repr(t) == before
        if isinstance(t, list):
            del t[:]
        self.docs[d] = list(ts)
        self.emit(op='index', d=d, t=ts, r=res, args=same)

    def op_unindex(self, d):
        self.docs.pop(d, None)
        x = self.ix if self.n % 2 else self.ti
        self.emit(op='unindex', d=d,
                  r=rnone(call(x.unindex_doc, self.ids[d])))

    def op_clear(self):
        self.docs.clear()
        x = self.ix if self.n % 2 else self.ti
        self.emit(op='clear', r=rnone(call(x.clear)))

    def op_bulk(self, lo, hi, step, ts):
        """Many documents with the same text (unindexed if it is None)."""
        rs = []
        for d in range(lo, hi, step):
            if ts is None:
                self.docs.pop(d, None)
                rs.append(rnone(call(self.ix.unindex_doc, self.ids[d])))
            else:
                self.docs[d] = list(ts)
                rs.append(rint(call(self.ix.index_doc, self.ids[d],
                                    self.text(ts))))
        self.emit(op='bulk', ds=[lo, hi, step], t=ts or [],
                  un=ts is None, r=rs[0] if all(r == rs[0] for r in rs)
                  else R('weird', repr(rs)[:80]))

    # queries
    def op_counts(self):
        x = self.ix if self.n % 2 else self.ti
        self.emit(op='counts', n=rint(call(x.documentCount)),
                  w=rint(call(x.wordCount)))

    def op_has(self, d):
        self.emit(op='has', d=d, r=rbool(call(self.ix.has_doc, self.ids[d])))

    def op_words(self, d):
        self.emit(op='words', d=d, r=self.rwords(self.ix, d))

    def ask(self, q):
        k, a = q[0], q[1]
        if k == 'search':
            return call(self.ix.search, self.text(a, q[2]))
        if k == 'glob':
            return call(self.ix.search_glob, a)
        if k == 'phrase':
            return call(self.ix.search_phrase, self.text(a, q[2]))
        return call(self.ti.apply, self.text(a))

    def op_search(self, ts, form='str'):
        r, pos, sc = self.res(self.ask(['search', ts, form]))
        self.emit(op='search', t=ts, r=r, pos=pos, sc=sc, qw='')

    def op_glob(self, p):
        r, pos, sc = self.res(self.ask(['glob', p]))
        self.emit(op='glob', p=codes(p), r=r, pos=pos, sc=sc, qw='')

    def op_phrase(self, ts, form='str'):
        r, pos, sc = self.res(self.ask(['phrase', ts, form]))
        self.emit(op='phrase', t=ts, r=r, pos=pos, sc=sc, qw='')

    def op_apply(self, ts, how='apply'):
        """how: the normalized answer, or the raw one of the tree."""
        from zope.index.text.queryparser import QueryParser
        q = self.text(ts)
        qw = ''
        glob = any(self.toks[t].get('glob') for t in ts)
        if how == 'apply':
            r = call(self.ti.apply, q)
            if not glob:
                w = call(lambda: self.ix.query_weight(
                    QueryParser(self.ti.lexicon).parseQuery(q).terms()))
                qw = '%.9g' % w[1] if w[0] == 'ok' else w[1]
        else:
            r = call(lambda: QueryParser(self.ti.lexicon).parseQuery(
                q).executeQuery(self.ix))
        r, pos, sc = self.res(r)
        e = dict(op='apply', q=ts, r=r, pos=pos, qw=qw)
        if how != 'apply' or not glob:
            e['sc'] = sc
        self.emit(**e)

    def tree(self, t):
        from zope.index.text import parsetree as pt
        k, v = t
        if k in ('AND', 'OR'):
            return (pt.AndNode if k == 'AND' else pt.OrNode)(
                [self.tree(x) for x in v])
        if k == 'NOT':
            return pt.NotNode(self.tree(v))
        if k == 'GLOB':
            return pt.GlobNode(''.join(map(chr, v)))
        return (pt.AtomNode if k == 'ATOM' else pt.PhraseNode)(
            self.text(v, FORMS[len(v) % len(FORMS)]))

    def op_tree(self, t):
        """A tree as an application may build it, parsers may not."""
        r = call(lambda: self.tree(t).executeQuery(self.ix))
        r, pos, sc = self.res(r)
        self.emit(op='tree', q=t, r=r, pos=pos, sc=sc, qw='')

    def op_legacy(self, d, t, how):
        """The state as versions without length objects stored it."""
        from BTrees.Length import Length
        ix = self.ix
        x = vars(ix).get('_totaldoclen')
        if isinstance(x, Length) and how != 1:
            ix._totaldoclen = [x(), int(x())][how % 2]
            self.emit(op='legacy')
        if how:
            vars(ix).pop('wordCount', None)
            vars(ix).pop('documentCount', None)
            ix._p_changed = True
            self.emit(op='legacy')
            # the next document brings the counters back
            if d in self.docs:
                self.op_unindex(d)
            self.op_index(d, t)

    # common events
    def op_reject(self, d, bad, k):
        did = self.ids[d]
        t = self.text([0, 1])
        if bad == 'docid':
            did = bad_docids(self.family_n)[k % 8]
        elif bad == 'text':
            t = [5, object(), ['foo', 5], [None], 7.5, ['bar', b'x'],
                 ['foo bar', 'fresh', object()], [['x']]][k % 8]
        before = canon(self.obs(self.ti))
        x = self.ix if k % 2 else self.ti
        r = call(x.index_doc, did, t)
        if r[0] == 'ok':
            self.emit(op='accepted', what=bad,
                      must=bad in ('docid', 'string'))
            raise Stop()
        self.emit(op='rejected', what=bad, exc=r[1], before=before,
                  after=canon(self.obs(self.ti)))

    def op_hold(self, h, q):
        r = self.ask(q)
        if r[0] == 'ok' and r[1] is not None:
            self.held[h] = r[1]
            self.emit(op='hold', h=h, r=self.canon(r))

    def op_mutate(self, h, d):
        if h in self.held:
            s = self.held[h]

            def f():
                if d < 0:
                    s.clear()
                elif self.ids[d] in s:
                    del s[self.ids[d]]
                else:
                    s[self.ids[d]] = 1.5
            call(f)
            self.emit(op='mutate', h=h, r=self.canon(('ok', s)))

    def op_reread(self, h):
        if h in self.held:
            self.emit(op='reread', h=h, r=self.canon(('ok', self.held[h])))

    def lexicon(self):
        lx = self.ti.lexicon
        lx = getattr(lx, 'lex', lx)
        return [repr(call(lx.wordCount)),
                repr(call(lambda: list(lx.items())))]

    def op_pure(self, q):
        a = canon([self.lexicon(), self.obs(self.ti)])
        rs = [self.canon(self.ask(q)) for _ in range(2)]
        self.emit(op='pure', a=a,
                  b=canon([self.lexicon(), self.obs(self.ti)]),
                  r1=rs[0], r2=rs[1])

    def op_twin(self, seed, kind='all'):
        new = self.new()
        ds = sorted(self.docs)
        random.Random(seed).shuffle(ds)
        for d in ds:
            call(new.index_doc, self.ids[d], self.text(self.docs[d]))
        a, sa = self.obs(self.ti)
        b, sb = self.obs(new)
        self.emit(op='twin', kind=kind, a=canon(a), b=canon(b),
                  **{'as': sa, 'bs': sb})


def config(rng, nd, nw, **kw):
    vocab = vocabulary(nw)
    toks, nt, ops = tokens(vocab, rng)
    cfg = dict(nd=nd, nw=nw, toks=toks, nt=nt, ops=ops,
               chars=[codes(w) for w in vocab])
    cfg.update(kw)
    return cfg


def probes(cfg):
    nw = cfg['nw']
    out = [['counts']]
    for d in range(cfg['nd']):
        out += [['has', d], ['words', d]]
    for w in range(nw):
        out.append(['search', [w], 'str'])
        for v in range(nw):
            out.append(['phrase', [w, v], 'str'])
    o = cfg['ops']
    out.append(['apply', [0, o['OR'][0], 1]])
    out.append(['apply', [0, o['NOT'][0], 1]])
    out.append(['apply', [0, 1], 'raw'])
    out.append(['glob', 'fo*'])
    return out


FORMS = ['str', 'str', 'str', 'list', 'lists', 'comma']


def gen(seed, focus=''):
    rng = random.Random('text %s' % seed)
    x = rng.random()
    if x < (.5 if focus == 'small' else .12):
        nd, nw = rng.randint(1, 4), rng.randint(1, 3)
    elif x < .8:
        nd, nw = rng.randint(3, 14), rng.randint(3, 16)
    elif x < .89:
        nd, nw = rng.choice([30, 60]), rng.choice([4, 16, 25])
    elif x < .93:
        nd, nw = rng.choice([12, 30]), rng.choice([50, 90])
    elif x < .945:
        nd, nw = 400, 3
    else:
        nd, nw = 150, rng.choice([2, 5])
    if focus == 'big':
        nd, nw = rng.choice([600, 1300, 2500]), rng.choice([2, 3, 6])
    lex = rng.choice(['default', 'plain', 'html', 'prefilled', 'wide', 'wide',
                      'shared'])
    if focus == 'phrase':
        lex = rng.choice(['wide', 'wide', 'prefilled', 'plain'])
    cfg = config(rng, nd, nw, lex=lex, idkind=rng.choice(ID_KINDS),
                 kind=rng.choice(['okapi', 'cosine']),
                 deffam=rng.random() < .5, nolex=rng.random() < .3,
                 pre=rng.choice([120, 126, 127, 130, 250, 16380, 16390]
                                if lex == 'prefilled' and rng.random() < .5
                                else [120, 127, 250, rng.randrange(1000)]))
    if focus in ('okapi', 'cosine'):
        cfg['kind'] = focus
    toks, nt, ops = cfg['toks'], cfg['nt'], cfg['ops']
    words = list(range(nw))
    common = rng.sample(words, min(nw, rng.choice([1, 2, 4, nw])))
    atoms = [i for i, t in enumerate(toks) if t['k'] == 'ATOM']
    globs = [i for i in atoms if toks[i]['glob']]
    # texts of long documents repeat words a lot
    s = []
    hs = [0]
    last = {}

    def text():
        n = rng.choice([0, 1, 1, 2, 3, 4, 5, 8] if nd < 20 else [1, 1, 2, 3])
        if sparse and rng.random() < .7:
            n = 0
        elif rng.random() < .04:
            n = rng.choice([30, 140])
        out = []
        for _ in range(n):
            y = rng.random()
            if y < .5:
                out.append(rng.choice(common))
            elif y < .75:
                out.append(rng.choice(words))
            else:
                out.append(rng.randrange(nt))
        if out and rng.random() < .3:
            out += [rng.choice(out)] * rng.choice([1, 2, 5])
        if heavy and rng.random() < .15:
            out += [rng.choice(common)] * rng.choice([60, 130, 260, 520])
        return out

    heavy = nd < 20 and rng.random() < .06
    sparse = not heavy and rng.random() < .1

    def variation(d):
        """A new text for d close to its old one."""
        t = list(last.get(d) or text())
        for _ in range(rng.choice([1, 1, 2])):
            y = rng.random()
            if y < .3 and t:
                t.pop(rng.randrange(len(t)))
            elif y < .6:
                t.insert(rng.randint(0, len(t)), rng.choice(words))
            elif y < .8 and t:
                t.append(rng.choice(t))
            elif t:
                rng.shuffle(t)
        return t

    def piece(n):
        """Consecutive tokens of some document."""
        t = rng.choice(list(last.values())) if last else []
        if len(t) >= 1 and rng.random() < .7:
            i = rng.randrange(len(t))
            return t[i:i + n]
        return [rng.choice(words) for _ in range(n)]

    def atom():
        y = rng.random()
        if y < .5:
            return rng.choice(common)
        if y < .7:
            return rng.choice(words)
        if globs and y < .78:
            return rng.choice(globs)
        return rng.choice(atoms)

    def kw(k):
        return rng.choice(ops[k])

    def expr(depth):
        def t():
            if depth > 0 and rng.random() < .4:
                return ops['('] + expr(depth - 1) + ops[')']
            return [atom() for _ in range(rng.choice([1, 1, 1, 2, 3]))]

        def a():
            out = t()
            while rng.random() < .45:
                out += rng.choice([[kw('AND')], [kw('AND'), kw('NOT')],
                                   [kw('NOT')]]) + t()
            return out
        out = a()
        while rng.random() < .45:
            out += [kw('OR')] + a()
        if depth > 1 and rng.random() < (.5 if nw > 40 else .1):
            # a long one
            sep = rng.choice([[], [kw('OR')], [kw('AND')]])
            for _ in range(rng.choice([6, 12, 20, nw])):
                out += sep + [rng.choice(words if nw > 40 else common)]
            for _ in range(rng.choice([0, 0, 5])):
                out += [kw('NOT'), atom()]
        return out

    def query():
        y = rng.random()
        if focus == 'phrase':
            y = y * .6 if y < .7 else y
        elif focus == 'apply':
            y = .5 + y / 2
        if y < .2:
            return ['phrase', piece(rng.choice([1, 2, 2, 3, 4, 7])),
                    rng.choice(FORMS)]
        if y < .3:
            t = piece(rng.choice([2, 3, 3, 7]))
            rng.shuffle(t)
            if rng.random() < .3 and len(words) > 2:
                t += rng.choices(words, k=5)
            return ['phrase', t + ([rng.randrange(nt)]
                                   if rng.random() < .3 else []), 'str']
        if y < .5:
            return ['search', [rng.choice(words)] if rng.random() < .6 else
                    piece(rng.choice([0, 1, 2, 3])) + (
                        [rng.randrange(nt)] if rng.random() < .4 else []),
                    rng.choice(FORMS)]
        if y < .6:
            return ['glob', rng.choice(GLOBS)]
        if y < .65:
            return ['apply', [rng.randrange(len(toks))
                              for _ in range(rng.randint(1, 5))]]
        return ['apply', expr(rng.choice([0, 1, 2]))]

    def some(n):
        for _ in range(n):
            if rng.random() < (.12 if focus == 'apply' else .03):
                s.append(['tree', tree(rng.choice([1, 2, 3]))])
                continue
            y = rng.random()
            if y < .08:
                s.append(['counts'])
            elif y < .14:
                s.append(['has', rng.randrange(nd)])
            elif y < .2:
                s.append(['words', rng.randrange(nd)])
            else:
                q = query()
                if q[0] == 'apply':
                    q = q + [rng.choice(['apply', 'apply', 'raw'])]
                s.append(q)

    def update():
        y = rng.random()
        d = rng.randrange(nd)
        if y < .45:
            last[d] = text()
            s.append(['index', d, last[d], rng.choice(FORMS)])
        elif y < .7:
            if last and rng.random() < .8:
                d = rng.choice(sorted(last))
            last[d] = variation(d)
            s.append(['index', d, last[d], rng.choice(FORMS)])
        elif y < .93:
            if last and rng.random() < .8:
                d = rng.choice(sorted(last))
            last.pop(d, None)
            s.append(['unindex', d])
        elif y < .95:
            last.clear()
            s.append(['clear'])
        if focus == 'reject' and rng.random() < .4:
            s.append(['reject', rng.randrange(nd),
                      rng.choice(['docid', 'text', 'text']),
                      rng.randrange(8)])

    def tree(depth):
        y = rng.random()
        if depth == 0 or y < .3:
            y = rng.random()
            if y < .5:
                return ['ATOM', [rng.choice(words)]]
            if y < .6:
                return ['ATOM', [rng.randrange(nt)
                                 for _ in range(rng.randint(0, 2))]]
            if y < .75:
                return ['GLOB', codes(rng.choice(GLOBS))]
            return ['PHRASE', piece(rng.choice([1, 2, 3]))]
        kids = [tree(depth - 1) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))]
        if y < .65:
            return ['AND', [['NOT', k] if rng.random() < .35 else k
                            for k in kids]]
        if y > .97:
            return ['NOT', tree(depth - 1)]
        return ['OR', kids]

    def extras():
        y = rng.random()
        if rng.random() < .04:
            s.append(['legacy', rng.randrange(nd), text(), rng.randrange(4)])
            last[s[-1][1]] = s[-1][2]
            some(2)
        if (focus == 'twin' and y < .3) or y < .03:
            s.append(['twin', rng.randrange(1000)])
        elif focus == 'hold' and y < .8 or y < .1:
            y = rng.random()
            if y < .15:
                s.append(['pure', query()])
            elif y < .4 or not hs[0]:
                hs[0] += 1
                s.append(['hold', hs[0], query()])
            elif y < .6:
                s.append(['mutate', rng.randint(1, hs[0]),
                          rng.randint(-1, nd - 1)])
                s.append(['twin', 0, 'mutate'])
            else:
                s.append(['reread', rng.randint(1, hs[0])])

    if nd >= 600:
        step = rng.choice([1, 2, 3, 7])
        t = text()
        s.append(['bulk', 0, nd, 1, t])
        for d in range(nd):
            last[d] = t
        if rng.random() < .7:
            t = text() + rng.choices(words, k=rng.choice([1, 20, 200]))
            s.append(['bulk', 0, nd, step, t])
            for d in range(0, nd, step):
                last[d] = t
        for _ in range(4):
            d = rng.randrange(nd)
            w = rng.choice(words)
            last[d] = [w] * rng.choice([1, 5, 60, 500]) + rng.choices(
                words, k=rng.choice([0, 0, 3, 600]))
            rng.shuffle(last[d])
            s.append(['index', d, last[d], 'str'])
            s.append(['search', [w], 'str'])
            s.append(['apply', [w], 'apply'])
            update()
            some(1)
        lo = rng.randint(0, 20)
        s.append(['bulk', lo, nd, step, None])
        some(2)
        s.append(['bulk', lo + 15, nd, 1, None])
        some(3)
        return dict(cfg=cfg, script=s)
    if nd >= 30:
        for d in range(nd):
            last[d] = text()
            s.append(['index', d, last[d], 'str'])
        some(4)
        if rng.random() < .4:
            for d in rng.sample(range(nd), nd - rng.randint(0, 12)):
                last.pop(d)
                s.append(['unindex', d])
            some(3)
    for _ in range(30):
        update()
        some(rng.choice([1, 2, 3]) if nd < 20 else 1)
        extras()
    if rng.random() < .3:
        ds = sorted(last)
        rng.shuffle(ds)
        for d in ds:
            s.append(['unindex', d])
        some(2)
        s.append(['twin', 3])
        for d in ds[:6]:
            s.append(['index', d, text(), 'str'])
        some(3)
    for h in range(1, hs[0] + 1):
        s.append(['reread', h])
    return dict(cfg=cfg, script=s)


def run(item, family):
    x = Exec(item['cfg'], family)
    try:
        x.run(item['script'])
    except Stop:
        pass
    return x.ev
