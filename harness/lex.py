"""Driver of the lexicon, the pipeline elements and the query parser.

Strings are recorded as lists of code points."""
import itertools
import random
import re

from common import R, Stop, call, rbool, rint

# The documented stop words.
STOP = ("a and are as at be but by for if in into is it no not of on or such "
        "that the their then there these they this to was will with").split()


def codes(s):
    return [ord(c) for c in s]


def table(chars):
    todo, out = set(chars) | set(' xX*?'), {}
    while todo:
        c = todo.pop()
        out[c] = dict(c=ord(c), w=bool(re.match(r'\w', c)),
                      sp=bool(re.match(r'\s', c)), lo=codes(c.lower()))
        todo |= {x for x in c.lower() if x not in out}
    return sorted(out.values(), key=lambda r: r['c'])


class Dup:
    def process(self, lst):
        return [w for w in lst for _ in 'ab']


class Rev:
    def process(self, lst):
        return list(reversed(list(lst)))


class Tag:
    def process(self, lst):
        return [w + 'x' for w in lst]


def element(name):
    from zope.index.text import htmlsplitter, lexicon
    return {'split': lexicon.Splitter, 'html': htmlsplitter.HTMLWordSplitter,
            'lower': lexicon.CaseNormalizer, 'stop': lexicon.StopWordRemover,
            'stop1': lexicon.StopWordAndSingleCharRemover,
            'dup': Dup, 'rev': Rev, 'tag': Tag}[name]()


def rwids(res):
    if res[0] == 'exc':
        return R('exc', res[1])
    try:
        v = [int(x) for x in res[1]]
        if all(abs(x) < 2**31 for x in v):
            return R('list', v)
    except (TypeError, ValueError):
        pass
    return R('weird', repr(res[1])[:80])


def rwords(res, kind='words'):
    if res[0] == 'exc':
        return R('exc', res[1])
    try:
        return R(kind, [codes(w) for w in res[1]])
    except TypeError:
        return R('weird', repr(res[1])[:80])


def tree(t):
    k, v = t.nodeType(), t.getValue()
    if k in ('AND', 'OR'):
        return [k, [tree(x) for x in v]]
    if k == 'NOT':
        return [k, tree(v)]
    if k == 'PHRASE':
        if isinstance(v, str):
            raise TypeError(v)
        return [k, [codes(w) for w in v]]
    return [k, codes(v)]


def term(t):
    return ['W', codes(t)] if isinstance(t, str) else [
        'P', [codes(w) for w in t]]


class Exec:
    def __init__(self, cfg, family=32):
        from zope.index.text.lexicon import Lexicon
        self.cfg = cfg
        self.ix = Lexicon(*map(element, cfg['pipe']))
        self.ev = []

    @property
    def ix(self):
        return self.lex

    @ix.setter
    def ix(self, lex):
        from zope.index.text.queryparser import QueryParser
        self.lex = lex
        self.parser = QueryParser(lex)

    def obs(self, lex):
        return [rint(call(lex.wordCount)),
                rwids(call(lambda: sorted(lex.wids()))),
                rwords(call(lambda: sorted(lex.words()))),
                R(*call(lambda: sorted([codes(w), i]
                                       for w, i in lex.items())))] + [
            rwids(call(lex.termToWordIds, w)) for w in lex.words()] + [
            rwids(call(lambda: sorted(lex.globToWordIds(p))))
            for p in ('a*', 'w?')]

    def emit(self, **e):
        self.ev.append(e)

    def run(self, script):
        for op in script:
            getattr(self, 'op_' + op[0])(*op[1:])
        return self.ev

    def text(self, t, form):
        if form == 'str' and len(t) == 1:
            return t[0]
        if form == 'none' and t == ['']:
            return None
        return tuple(t) if form == 'tuple' else list(t)

    def op_source(self, t, form='list'):
        r = rwids(call(self.lex.sourceToWordIds, self.text(t, form)))
        ws = []
        if r['k'] == 'list':
            ws = [call(self.lex.get_word, i) for i in r['v']]
            ws = [codes(w[1]) if w[0] == 'ok' else [0] for w in ws]
        self.emit(op='source', t=[codes(x) for x in t], r=r, ws=ws)

    def op_term(self, t, form='list'):
        r = rwids(call(self.lex.termToWordIds, self.text(t, form)))
        self.emit(op='term', t=[codes(x) for x in t], r=r)

    def op_parse(self, t, form='list'):
        r = rwords(call(self.lex.parseTerms, self.text(t, form)))
        self.emit(op='parse', t=[codes(x) for x in t], r=r)

    def op_element(self, el, glob, t):
        e = element(el)
        f = getattr(e, 'processGlob', e.process) if glob else e.process
        self.emit(op='element', el=el, glob=glob, t=[codes(x) for x in t],
                  r=rwords(call(f, list(t))))

    def op_getwid(self, w):
        self.emit(op='getwid', w=codes(w), r=rint(call(self.lex.get_wid, w)))

    def op_getword(self, n, pick=None):
        if pick is not None:
            ws = sorted(self.lex.wids())
            if ws:
                n = ws[pick % len(ws)]
        r = call(self.lex.get_word, n)
        self.emit(op='getword', n=n, r=R('exc', r[1]) if r[0] == 'exc'
                  else R('word', codes(r[1])))

    def op_counts(self):
        self.emit(op='counts', r=rint(call(self.lex.wordCount)))

    def op_lag(self, n):
        c = getattr(self.lex, 'wordCount', None)
        if hasattr(c, 'set'):
            c.set(max(0, min(c(), len(self.lex.wids()) - n)))
            self.emit(op='lag')

    def op_legacy(self):
        self.lex.__dict__.pop('wordCount', None)
        self.emit(op='legacy')

    def op_items(self):
        lex = self.lex
        items = call(lambda: [[codes(w), i] for w, i in lex.items()])
        self.emit(op='items', items=R(*items) if items[0] == 'exc'
                  else R('list', items[1]),
                  words=rwords(call(lambda: list(lex.words())), 'list'),
                  wids=rwids(call(lambda: list(lex.wids()))))

    def op_glob(self, p):
        r = rwids(call(self.lex.globToWordIds, p))
        self.emit(op='glob', p=codes(p), r=r)

    def op_isglob(self, w):
        self.emit(op='isglob', w=codes(w), r=rbool(call(self.lex.isGlob, w)))

    def op_query(self, q, ex=False):
        def f():
            if ex:
                t, ig = self.parser.parseQueryEx(q)
            else:
                t = self.parser.parseQuery(q)
                ig = self.parser.getIgnored()
            return tree(t), [codes(x) for x in ig], [
                term(x) for x in t.terms()]
        r = call(f)
        if r[0] == 'exc':
            self.emit(op='query', q=codes(q), r=R('exc', r[1]), ig=[],
                      terms=[])
        else:
            self.emit(op='query', q=codes(q), r=R('tree', r[1][0]),
                      ig=r[1][1], terms=r[1][2])


PIPES = [[], ['split'], ['split', 'lower'], ['split', 'lower', 'stop'],
         ['split', 'lower', 'stop'], ['html', 'stop'], ['html', 'lower', 'stop1'],
         ['lower', 'split', 'stop1'], ['split', 'dup', 'lower'],
         ['split', 'rev', 'stop'], ['split', 'lower', 'tag'],
         ['split', 'tag', 'tag', 'stop'], ['lower'],
         ['split', 'stop', 'lower'], ['rev', 'split', 'stop1']]
SEPS = [' ', ' ', ' ', '-', '.', ', ', '\n', '\t', '  ', '\xa0', '/', "'",
        '<b>', '</p >', '<', '>', '&amp;', '&', ';', '&nbsp;', '<a href="x">',
        '&frac12;', '&#x41;', '&a1;', '& amp;', '&éa;', '&ampx', '&;', '&_a;',
        '<!-- -->', '<br/>', '</', '/>', '&Aa;', '&lt', '&b-;', '\x00', '\x1c',
        '\u2028', '(', ')', '"', '$', '&#39;', '<<', '*', '?', '']
SPACES = [' '] * 6 + ['\n', '\t', '\r', '\x0b', '\x0c', '\x1c', '\x1f', '\x85',
                     '\xa0', '\u2003', '\u2028', '\u3000', '\u200b']
CHARS = list('abABxyz019_éÉßñαωΩжЖ中') + ['\u0130', '\u0301', '\u00aa', '\u0661']
EDGES = ['\xff', '\xfe', '\u0178', '\u0100', '\xb5', '\u03bc', '\x7f', '0',
         '_', '\xde', '\xaa', '\xff\xff', '\U0001d538']
REGEX = list('.+^$|[](){}\\*?-\n')


def gen(seed, focus=''):
    rng = random.Random('lex %s' % seed)
    pipe = rng.choice(PIPES)
    if focus == 'glob' and rng.random() < .6:
        pipe = rng.choice([[], ['lower']])
    if focus == 'parser':
        pipe = rng.choice([[], ['split', 'lower', 'stop'],
                           ['split', 'lower', 'stop'], ['html', 'stop1'],
                           ['split', 'stop'], ['split', 'tag', 'stop']])
    special = focus == 'glob' or rng.random() < .3
    alpha = CHARS[:3] if rng.random() < .3 else CHARS
    if special and not pipe:
        alpha = alpha[:8] + REGEX

    def word():
        x = rng.random()
        if x < .2:
            w = rng.choice(STOP)
            return rng.choice([w, w, w.upper(), w.capitalize(), w + 'x', w[:-1]])
        return ''.join(rng.choice(alpha) for _ in range(
            rng.choice([1, 1, 2, 2, 3, 3, 4, 6])))

    vocab = [word() for _ in range(rng.choice([3, 8, 20]))]
    if rng.random() < .12:
        vocab += ['w%d' % i for i in range(rng.choice([80, 200]))]

    if focus == 'glob' and rng.random() < .25 or (
            rng.random() < .05 and focus != 'parser'):
        vocab += [rng.choice(vocab) + rng.choice(alpha) * rng.choice(
            [10, 40, 80, 150]) + rng.choice(alpha) for _ in range(3)]

    if 'split' not in pipe and 'html' not in pipe and rng.random() < .5:
        # there the words are as they are in the source
        vocab += ['', ' ', 'a b', ' a', 'a ', '\ta\n', rng.choice(vocab) + ' ',
                  ' ' + rng.choice(vocab)]
    if 'stop1' in pipe or focus == 'analysis':
        vocab += rng.sample(EDGES, 3)

    def text():
        return ''.join(rng.choice(vocab) + (
            rng.choice(SEPS) if rng.random() < .5 else ' ')
            for _ in range(rng.choice([0, 1, 1, 2, 3, 5])))

    def texts():
        if not pipe:
            return [rng.choice(vocab) for _ in range(rng.choice([0, 1, 1, 3]))]
        return [text() for _ in range(rng.choice([1, 1, 1, 2, 3, 0]))]

    def pattern():
        w = list(rng.choice(vocab))
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            i = rng.randint(0 if rng.random() < .1 else min(1, len(w)), len(w))
            x = rng.random()
            if x < .5:
                w.insert(i, '*')
            elif x < .8:
                w[i:i + 1] = ['?']
            elif x < .9:
                w[i:i + rng.randint(1, 3)] = ['*']
            else:
                w.insert(i, rng.choice(alpha))
        return ''.join(w)

    def query():
        return query1()[:700]

    def query1():
        x = rng.random()
        kws = ['and', 'AND', 'or', 'Or', 'OR', 'not', 'NOT', 'nOt', 'AND NOT']
        if x < .02:
            return deep()
        if x < .04:
            return long()
        if x < .15:
            return ''.join(rng.choice(list('ab()"-*?  \t') + kws + ['"', sp()])
                           for _ in range(rng.randint(0, 12)))
        if x < .5:
            out = []
            for _ in range(rng.randint(1, 9)):
                out.append(rng.choice(
                    [rng.choice(kws), '(', ')', atom(), atom(), atom()]))
                out.append(rng.choice([sp(), sp(), sp(), '', '\n']))
            return ''.join(out)
        return expr(rng.choice([1, 2, 3]))

    def sp():
        return rng.choice(SPACES) if odd else ' '
    odd = rng.random() < .4

    def atom():
        x = rng.random()
        w = rng.choice(vocab)
        if x < .2:
            w = rng.choice(STOP)
        elif x < .35:
            w = '"%s"' % text().replace('"', '')
        elif x < .5:
            w = pattern()
        elif x < .6:
            w = w + rng.choice('-./') + rng.choice(vocab)
        if rng.random() < .15:
            w = rng.choice(['-', '-', '--']) + w
        return w

    def kw(k):
        return rng.choice([k, k.lower(), k.capitalize()])

    def expr(depth):
        def t():
            if depth > 0 and rng.random() < .4:
                return '(' + expr(depth - 1) + ')'
            return sp().join(atom() for _ in range(rng.choice([1, 1, 2, 3])))

        def a():
            s = t()
            while rng.random() < .5:
                s += sp() + rng.choice([kw('AND'), kw('AND') + sp() + kw('NOT'),
                                        kw('NOT')]) + sp() + t()
            return s
        s = a()
        while rng.random() < .4:
            s += sp() + kw('OR') + sp() + a()
        return s

    base = text

    def text():
        if rng.random() < .01:
            return ' '.join(base() for _ in range(rng.choice([10, 40])))
        return base()

    def deep():
        n = rng.choice([5, 12, 30])
        o, c = rng.choice([('(', ')'), ('( ', ') '), ('NOT (', ')'),
                           ('a AND (', ')'), ('(', ' OR b)')])
        if o[0] == 'N':
            return 'x ' + o * n + atom() + c * n
        return o * n + rng.choice([atom(), atom() + ' ' + atom()]) + c * (
            n - (rng.random() < .1))

    def long():
        return rng.choice([' ', ' AND ', ' or ', ' AND NOT ', ' NOT ', '-',
                           ' -', '" "']).join(
            atom() for _ in range(rng.choice([12, 30, 70])))

    s = []
    if focus == 'glob' or rng.random() < .3:
        s.append(['source', vocab[:], 'list'])

    def one():
        x = rng.random()
        if focus == 'parser' and x < .8:
            s.append(['query', query(), rng.random() < .5])
        elif focus == 'glob' and x < .6:
            s.append(['glob', pattern()])
        elif focus == 'analysis' and x < .4:
            s.append(['element', rng.choice(['split', 'html', 'lower', 'stop',
                                             'stop1', 'html', 'split']),
                      rng.random() < .5,
                      [text() for _ in range(rng.choice([0, 1, 2]))]
                      if rng.random() < .6 else
                      [rng.choice([word, lambda: rng.choice(EDGES)])()
                       for _ in range(rng.choice([1, 3]))]])
        else:
            other(rng.random())

    def other(x):
        if x < .3:
            t = texts()
            s.append(['source', t, rng.choice(['str', 'list', 'tuple', 'none'])])
        elif x < .45:
            t = texts()
            s.append([rng.choice(['term', 'parse']), t,
                      rng.choice(['str', 'list', 'tuple'])])
        elif x < .6:
            s.append(['glob', pattern()])
        elif x < .65:
            s.append(['isglob', pattern()])
        elif x < .75:
            w = rng.choice(vocab)
            s.append(['getwid', rng.choice(
                [w, w, w, w.upper(), w.lower(), ' ' + w, w + ' ', w.strip(),
                 w[1:], w + '*', ''])])
        elif x < .77 and focus != 'parser':
            s.append(rng.choice([['lag', rng.choice([1, 2, 3, 7, 1000])],
                                 ['legacy']]))
        elif x < .85:
            s.append(['getword', rng.choice([0, -1, 1, 2, 10**6]),
                      rng.choice([None, 0, 1, 5, 17])])
        elif x < .9:
            s.append(['counts'])
        elif x < .95:
            s.append(['items'])
        else:
            s.append(['query', query(), rng.random() < .5])

    for _ in range(60):
        one()
    s.append(['items'])
    s.append(['counts'])
    strings = []
    for op in s:
        for a in op[1:]:
            if isinstance(a, str):
                strings.append(a)
            elif isinstance(a, list):
                strings.extend(a)
    cfg = dict(pipe=pipe, stop=[codes(w) for w in STOP],
               tab=table(''.join(strings)))
    return dict(cfg=cfg, script=s)


def exhaustive(kind, alphabet, n, part, parts, pipe):
    """A script with every string of length <= n over an alphabet."""
    s = []
    for k in range(n + 1):
        for i, t in enumerate(itertools.product(alphabet, repeat=k)):
            if i % parts != part:
                continue
            x = (' ' if kind == 'tokens' else '').join(t)
            if kind in ('query', 'tokens'):
                s.append(['query', x])
            else:
                for el in ('split', 'html'):
                    for g in (False, True):
                        s.append(['element', el, g, [x]])
    cfg = dict(pipe=pipe, stop=[codes(w) for w in STOP],
               tab=table(''.join(alphabet) + ' '))
    return dict(cfg=cfg, script=s)


def run(item, family):
    x = Exec(item['cfg'])
    try:
        x.run(item['script'])
    except Stop:
        pass
    return x.ev
