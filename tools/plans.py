"""What the check of each property runs."""
import json
import os
import random
import re
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'harness'))
import field  # noqa: E402
import kwd  # noqa: E402
import lex  # noqa: E402
import text  # noqa: E402
import topic  # noqa: E402
import util  # noqa: E402
from walks import walks  # noqa: E402

PLANS = {}


def plan(*props):
    def deco(f):
        for p in props:
            PLANS[p] = f
        return f
    return deco


def prefix(*names):
    """Clauses called or starting with one of names."""
    return lambda clause, t, l_: any(
        clause == n or clause.startswith(n + '.') for n in names)


def after_reject(ch):
    def f(clause, t, l_):
        return clause == 'rejected' or any(
            e['op'] == 'rejected' for e in t['ev'][:l_])
    return f


VARIANTS = [(32, False), (64, False), (32, True), (64, True)]


def items(ch, tag, n, focus='', variants=VARIANTS, weights=(5, 5, 1, 1)):
    """n random scripts spread over the variants."""
    out = []
    order = [v for v, w in zip(variants, weights) for _ in range(w)]
    for i in range(n):
        fam, pure = order[i % len(order)]
        out.append(dict(id=i, seed='%s:%s:%d' % (ch.seed, tag, i),
                        focus=focus, family=fam, pure=pure))
    return out


def randoms(ch, comp, wanted, n, focus='', budget=360, tag=None, post=None):
    """Random scripts, in the thorough tier as many batches as fit."""
    batch = 0
    while True:
        its = items(ch, '%s:%s:%d' % (tag or comp, focus, batch), n, focus)
        traces = ch.drive(comp, its)
        bads = ch.validate(comp, traces)
        if post:
            bads += post(ch, traces)
        if batch == 0:
            for t in traces[:2]:
                ch.sample_trace(t)
        ch.report(comp, bads, wanted, its)
        batch += 1
        if ch.quick or ch.violations or time.time() - ch.t0 > budget:
            return


def replay_graph(ch, comp, r, init, cfgs, to_script, wanted, variants=VARIANTS,
                 maxlen=60, post=None):
    """Replay every transition of a printed state graph on the real code."""
    ws, n = walks(r.get('T'), init, maxlen)
    its = []
    for ci, cfg in enumerate(cfgs):
        for wi, w in enumerate(ws):
            fam, pure = variants[(ci + wi) % len(variants)]
            its.append(dict(id=len(its), cfg=cfg, family=fam, pure=pure,
                            script=to_script(cfg, w)))
    traces = ch.drive(comp, its)
    bads = ch.validate(comp, traces)
    if post:
        bads += post(ch, traces)
    ch.walked += n * len(cfgs)
    ch.notes.append('%s: %d walks cover all %d transitions of the state '
                    'graph, on %d configurations' % (
                        comp, len(ws), n, len(cfgs)))
    ch.report(comp, bads, wanted, its)


# --- field index -----------------------------------------------------------

def field_mc(ch):
    r = ch.mc('MCField', dict(Ids=ch.pick('{0,1,2}', '{0,1,2,3}'),
                              Vals='{0,1,2}', Emit='TRUE'),
              ['Consistent', 'ApplyExact', 'CountsExact', 'SortExact',
               'Forgetful'], view='View', action_constraint='EmitT')
    return r


def field_full(ch, wanted, n=(1000, 1500), focus='', walk=True):
    f = ch.pool.submit(field_mc, ch)
    randoms(ch, 'field', wanted, ch.pick(*n), focus)
    r = f.result()
    if walk:
        nd = 3 if ch.quick else 4
        cfgs = [dict(nd=nd + 1, nv=3, pool=p, pseed=1, idkind=k, deffam=d)
                for p, k, d in [('int', 'small', True), ('str', 'neg', False),
                                ('none', 'limits', False),
                                ('mixed', 'spread', False)]]

        def script(cfg, w):
            out = []
            for a, new in w:
                out.append(a + ([0] if a[0] == 'index' else []))
                if new:
                    out.extend(field.probes(cfg))
            return out
        replay_graph(ch, 'field', r, [], cfgs, script, wanted)


@plan('C01')
def c01(ch):
    field_full(ch, prefix('apply', 'update'))


@plan('C02')
def c02(ch):
    field_full(ch, prefix('count', 'update'))


@plan('C03')
def c03(ch):
    field_full(ch, prefix('sort', 'update'))


# --- keyword index ---------------------------------------------------------

def kwd_mc(ch):
    return ch.mc('MCKeyword', dict(Ids=ch.pick('{0,1,2}', '{0,1,2}'),
                                   Kws=ch.pick('{0,1}', '{0,1,2}'),
                                   Ths='{2,3}', Emit='TRUE'),
                 ['Consistent', 'SearchExact', 'CountsExact',
                  'RepresentationFree', 'KindMeansSize', 'Forgetful'],
                 view='View', action_constraint='EmitT')


def kwd_walk(ch, r, wanted):
    nk = 3
    cfgs = [dict(nd=4, nk=nk, pool=p, ci=c, idkind=k, deffam=d)
            for p, c, k, d in [('str', True, 'small', True),
                               ('int', False, 'limits', False),
                               ('none', False, 'neg', False),
                               ('tuple', False, 'spread', True)]]
    if not ch.quick:
        cfgs = cfgs[:2]

    def script(cfg, w):
        out = [['thresh', 2]]
        for n, (a, new) in enumerate(w):
            if a[0] == 'index':
                # spellings vary along the walk
                ks = [100 * k + (n + k) % 2 for k in a[2]]
                form = kwd.FORMS[n % len(kwd.FORMS)]
                out.append(['index', a[1], ks, form])
            else:
                out.append(a)
            if new:
                out.extend(kwd.probes(cfg))
        return out
    replay_graph(ch, 'kwd', r, [[], [], 2], cfgs, script, wanted)


def kwd_full(ch, wanted, n=(900, 1200), focus='', walk=True):
    f = ch.pool.submit(kwd_mc, ch)
    randoms(ch, 'kwd', wanted, ch.pick(*n), focus)
    r = f.result()
    if walk:
        kwd_walk(ch, r, wanted)


@plan('C04')
def c04(ch):
    kwd_full(ch, prefix('search', 'update'))


@plan('C05')
def c05(ch):
    kwd_full(ch, prefix('count', 'update'))


def ci_only(f):
    return lambda clause, t, l_: t['cfg'].get('ci') and f(clause, t, l_)


@plan('C06')
def c06(ch):
    kwd_full(ch, ci_only(prefix('search', 'count', 'update')), focus='case')


@plan('C07')
def c07(ch):
    # every answer of a history with threshold changes and optimize() is
    # compared with the specification, whose answers ignore both
    def wanted(clause, t, l_):
        return prefix('optimize', 'search', 'count', 'update', 'twin')(
            clause, t, l_) and any(
                e['op'] in ('optimize', 'thresh') for e in t['ev'][:l_])
    kwd_full(ch, wanted, focus='thresh')


# --- topic index -----------------------------------------------------------

TOPIC_X = [2, 6, 10]    # expressions used in the model: satisfied by objects
TOPIC_O = [0, 1, 2, 5]  # in different ways, incl. failing and interrupted


def topic_mc(ch):
    assert [[topic.SAT[x][o] for o in TOPIC_O] for x in TOPIC_X] == [
        list('TFTF'), list('FETF'), list('ETTT')]   # SatDef of MCTopic
    return ch.mc('MCTopic', dict(
        Ids=ch.pick('{0,1}', '{0,1}'), Objs=ch.pick('{0,1,2}', '{0,1,2,3}'),
        Exprs='{0,1,2}', Flts='{0,1}' if ch.quick else '{0,1,2}',
        Emit='TRUE'), ['Membership', 'SearchLaws'], view='View',
        action_constraint='EmitT', subst=dict(Sat='SatDef'))


def topic_full(ch, wanted, n=(800, 1200), focus='', walk=True):
    f = ch.pool.submit(topic_mc, ch)
    randoms(ch, 'topic', wanted, ch.pick(*n), focus)
    r = f.result()
    if not walk:
        return
    nf = 2 if ch.quick else 3
    cfgs = [dict(nd=3, idkind=k, sat=topic.SAT, deffam=d)
            for k, d in [('small', True), ('limits', False)]]

    def script(cfg, w):
        out = [['new', f, f % 2, TOPIC_X[f % 3]] for f in range(nf)]
        for a, new in w:
            if a[0] == 'add':
                out.append(['add', a[2]])
            elif a[0] == 'index':
                out.append(['index', a[1], TOPIC_O[a[2]]])
            elif a[0] == 'setexpr':
                out.append(['setexpr', a[1], TOPIC_X[a[2]]])
            else:
                out.append(a)
            if new:
                out.extend(topic.probes(cfg, nf))
        return out
    init = [[[f, dict(expr=f % 3, ids=[])] for f in range(nf)], []]
    replay_graph(ch, 'topic', r, init, cfgs, script, wanted)


@plan('C08')
def c08(ch):
    topic_full(ch, prefix('filter', 'search', 'update'))


@plan('C09')
def c09(ch):
    topic_full(ch, prefix('search', 'update', 'args'))


# --- lexicon, analysis, parser ---------------------------------------------

def exhaustive(ch, kind, alphabet, n, pipe, wanted, parts=24, variants=None):
    """All strings up to a length, on the real code."""
    its = []
    for j in range(parts):
        x = lex.exhaustive(kind, alphabet, n, j, parts, pipe)
        its.append(dict(id=j, family=32, pure=j % 4 == 3, **x))
    traces = ch.drive('lex', its)
    bads = ch.validate('lex', traces)
    ch.notes.append('lex: all %d %s of up to %d elements over %s' % (
        sum(len(alphabet) ** k for k in range(n + 1)), kind, n, alphabet))
    ch.report('lex', bads, wanted, its)


def lex_store(ch):
    return ch.pool.submit(ch.mc, 'MCLexStore', dict(
        Ws=ch.pick('{1,2}', '{1,2,3}'), Wids='{1,2,3}', MaxOps=2,
        Sessions='{1,2}'),
        ['Committed', 'Views', 'Kept', 'NoSpurious'])


@plan('C10')
def c10(ch):
    f = ch.pool.submit(ch.mc, 'MCLexicon', dict(
        Ws='{1,2,3}', Wids=ch.pick('{1,2,3}', '{1,2,3,4}'),
        MaxText=ch.pick(2, 3)), ['NumberingOk', 'Repeatable'],
        props=['Stable'])
    g = lex_store(ch)
    wanted = prefix('wid', 'term', 'glob')
    randoms(ch, 'lex', wanted, ch.pick(800, 1000))
    wanted = prefix('wid', 'term', 'glob', 'txn.lexicon')
    for focus, n in (('solo', (120, 500)), ('multi', (100, 400))):
        randoms(ch, 'txn:lex', wanted, ch.pick(*n), focus, budget=200)
    f.result()
    g.result()


@plan('C11')
def c11(ch):
    f = ch.pool.submit(ch.mc, 'MCAnalysis', dict(
        MaxLen=ch.pick(4, 5), Alphabet='{97, 66, 42, 32, 60, 62, 38, 59}'),
        ['SplitExact', 'Idempotent', 'GlobFree', 'MarkupLaws'])
    wanted = prefix('analysis', 'term')
    exhaustive(ch, 'texts', ['a', 'B', '*', ' ', '<', '>', '&', ';'],
               ch.pick(4, 5), [], wanted)
    exhaustive(ch, 'texts', ['&', '1', 'x', '#', ';'], ch.pick(5, 6), [],
               wanted)
    exhaustive(ch, 'texts', ['<', '>', '/', '"', 'x', ' '], ch.pick(5, 6), [],
               wanted)
    randoms(ch, 'lex', wanted, ch.pick(600, 1000), 'analysis')
    randoms(ch, 'lex', wanted, ch.pick(300, 600), budget=500)
    f.result()


@plan('C12')
def c12(ch):
    f = ch.pool.submit(ch.mc, 'MCAnalysis', dict(
        MaxLen=ch.pick(3, 4), Alphabet='{97, 98, 66, 42, 63, 46}'),
        ['GlobExact'])
    randoms(ch, 'lex', prefix('glob'), ch.pick(900, 1000), 'glob')
    f.result()


@plan('C16')
def c16(ch):
    f = ch.pool.submit(ch.mc, 'MCParser', dict(MaxLen=ch.pick(4, 6)),
                       ['Grammar', 'WellFormed', 'RoundTrip', 'TermsExact'])
    pipe = ['split', 'lower', 'stop']
    wanted = prefix('parser')
    exhaustive(ch, 'tokens', ['AND', 'or', 'Not', '(', ')', 'foo', 'foo-bar',
                              'the', '-b'], ch.pick(4, 5), pipe, wanted)
    exhaustive(ch, 'query', ['a', '(', ')', '"', '-', ' ', '*'],
               ch.pick(4, 5), pipe, wanted)
    randoms(ch, 'lex', wanted, ch.pick(150, 400), 'parser')
    f.result()


# --- text index -----------------------------------------------------------

def scores(ch, traces):
    """Evaluates the symbolic scores TLC printed (numbers of documents and
    words, frequencies, lengths) and compares the recorded scores."""
    from math import log, sqrt
    bads = []
    n = 0
    for t in traces:
        okapi = t['cfg']['kind'] == 'okapi'
        for x in t.get('x', ()):
            l_, x = x['l'], x['x']
            of = x['of']
            N, T = of['N'], of['T']
            got = {d: float(s) for d, s in x['sc']}
            bad = set()
            for d, length, contrib, words in of['res']:
                want = 0.
                if okapi:
                    mean = T / N
                    for nw, f in contrib:
                        want += log(1 + N / nw) * f * 2.2 / (
                            f + 1.2 * (.25 + .75 * length / mean))
                else:
                    W = sqrt(sum((1 + log(f)) ** 2 for _, f in words))
                    for nw, f in contrib:
                        want += log(1 + N / nw) * (1 + log(f)) / W
                n += 1
                s = got[d]
                if x['q'] == '':
                    if abs(s - want) > 2e-5 * want:
                        bad.add('score')
                    continue
                try:
                    q = float(x['q'])
                except ValueError:
                    bad.add('weight')       # query_weight raised
                    continue
                if not want <= q * (1 + 2e-5):
                    bad.add('weight')
                if not 0 < s <= 1 + 1e-5:
                    bad.add('unit')
                if abs(s * q - want) > 3e-5 * want:
                    bad.add('ratio')
            bads += [(t, l_, 'score.' + c) for c in sorted(bad)]
    ch.scores = getattr(ch, 'scores', 0) + n
    return bads


def text_mc(ch, emit=True):
    return ch.mc('MCText', dict(
        Ids=ch.pick('{0,1}', '{0,1}'), Wds=ch.pick('{0,1}', '{0,1,2}'),
        MaxText=2, Cut=1, Emit='TRUE'),
        ['Consistent', 'Forgetful', 'PhraseCoded', 'BooleanLaws'],
        view='View', action_constraint='EmitT')


def text_walk(ch, r, wanted, post=None, kinds=('okapi', 'cosine')):
    nw = ch.pick(2, 3)
    cfgs = [text.config(random.Random(7), 2, nw, kind=k, lex=x, idkind=i,
                        deffam=d, nolex=False, pre=120)
            for k, x, i, d in [(kinds[0], 'plain', 'small', True),
                               (kinds[-1], 'wide', 'limits', False)]]

    def script(cfg, w):
        out = []
        for n, (a, new) in enumerate(w):
            if a[0] == 'index':
                out.append(a + [text.FORMS[n % len(text.FORMS)]])
            else:
                out.append(a)
            if new:
                out.extend(text.probes(cfg))
        return out
    replay_graph(ch, 'text', r, [[], []], cfgs, script, wanted, post=post)


def text_full(ch, wanted, n=(700, 1000), focus='', walk=True, post=None,
              kinds=('okapi', 'cosine'), big=8):
    f = ch.pool.submit(text_mc, ch)
    randoms(ch, 'text', wanted, ch.pick(*n), focus, post=post)
    if big:
        randoms(ch, 'text', wanted, ch.pick(big, 60), 'big', budget=200,
                post=post)
    r = f.result()
    if walk:
        text_walk(ch, r, wanted, post, kinds)
    if post:
        ch.notes.append('%d scores compared' % ch.scores)


@plan('C13')
def c13(ch):
    text_full(ch, prefix('search.term', 'search.glob', 'positive', 'update'))


@plan('C14')
def c14(ch):
    text_full(ch, prefix('search.phrase', 'update'), focus='phrase')


@plan('C15')
def c15(ch):
    text_full(ch, prefix('apply', 'tree', 'pure'), focus='apply')


@plan('C17')
def c17(ch):
    text_full(ch, prefix('count', 'update'))


@plan('C18')
def c18(ch):
    text_full(ch, prefix('score.score', 'score.ratio'), focus='okapi',
              post=scores, kinds=('okapi',), big=24)


@plan('C19')
def c19(ch):
    text_full(ch, prefix('score.score', 'score.ratio'), focus='cosine',
              post=scores, kinds=('cosine',), big=24)


@plan('C20')
def c20(ch):
    text_full(ch, prefix('score.weight', 'score.unit', 'score.ratio'),
              focus='apply', post=scores, big=24)


# --- helpers of the text index --------------------------------------------

def scripts(ch, comp, its, wanted, note=None):
    """Given scripts, on the real code."""
    traces = ch.drive(comp, its)
    bads = ch.validate(comp, traces)
    if comp == 'txn:text':
        bads += scores(ch, traces)
    ch.report(comp, bads, wanted, its)
    if note:
        ch.notes.append(note)


@plan('C21')
def c21(ch):
    f = ch.pool.submit(ch.mc, 'MCNBest', dict(
        Caps='{1,2,3}', Scores='{1,2,3}', MaxOps=ch.pick(6, 8), Emit='TRUE'),
        ['Refines', 'NBestOfAll', 'Ordered'], action_constraint='EmitT')
    wanted = prefix('nbest')
    randoms(ch, 'util', wanted, ch.pick(1200, 1500), 'nbest')
    its = []
    hs = f.result().get('S')
    per = 100
    for j in range(0, len(hs), per):
        s = []
        for cap, h in hs[j:j + per]:
            s.append(['nbnew', cap])
            for k, x in enumerate(h):
                s.append(['nbpop'] if x < 0 else
                         ['nbadd', [[k, x]], 'single' if k % 2 else 'list'])
            s.append(['nbget'])
        its.append(dict(id=j, family=32, script=s, cfg=util.config(
            scores=['int', 'float', 'tuple', 'str'][j // per % 4])))
    scripts(ch, 'util', its, wanted, 'all %d histories of the model replayed'
            % len(hs))
    ch.walked += len(hs)


@plan('C22')
def c22(ch):
    f = ch.pool.submit(ch.mc, 'MCSetOps', dict(
        Keys='{0,1}', Values='{1,2}', Weights='{1,2}',
        MaxLen=ch.pick(3, 4)), ['UnionExact', 'InterExact', 'OrderFree'])
    g = ch.pool.submit(ch.mc, 'MCSetOps', dict(
        Keys='{0,1,2}', Values='{1}', Weights='{0,1}',
        MaxLen=ch.pick(3, 4)), ['UnionExact', 'InterExact', 'OrderFree'])
    randoms(ch, 'util', prefix('setops'), ch.pick(1500, 2000), 'setops')
    f.result()
    g.result()


def codes_mc(ch):
    return [ch.pool.submit(ch.mc, 'MCCodes', dict(
        B=b, MaxLen=n, MaxVal=v, MaxRice=9, Ms='{0,1,2,3}'),
        ['WidRoundTrip', 'WidConcat', 'WidAligned', 'WidMonotone', 'WidFind',
         'RiceRoundTrip', 'DeltaRoundTrip'])
        for b, n, v in [(2, 4, ch.pick(8, 11)), (3, 3, ch.pick(12, 28)),
                        (2, 3, 15)]]


@plan('C23')
def c23(ch):
    fs = codes_mc(ch)
    wanted = prefix('wid')
    randoms(ch, 'util', wanted, ch.pick(700, 1000), 'wid')
    parts = ch.pick(12, 60)
    scripts(ch, 'util', [dict(id=j, family=32, **util.wid_chunks(
        j, parts, not ch.quick)) for j in range(parts)], wanted)
    for f in fs:
        f.result()


@plan('C24')
def c24(ch):
    fs = codes_mc(ch)
    wanted = prefix('rice', 'bits')
    randoms(ch, 'util', wanted, ch.pick(900, 1200), 'rice')
    parts = ch.pick(12, 30)
    scripts(ch, 'util', [dict(id=j, family=32, **util.rice_small(
        j, parts, ch.pick(4, 5))) for j in range(parts)], wanted)
    for f in fs:
        f.result()


# --- properties of all indexes --------------------------------------------

COMPS = ('field', 'kwd', 'topic', 'text')


def models(ch, comps=COMPS):
    fs = dict(field=field_mc, kwd=kwd_mc, topic=topic_mc, text=text_mc)
    return {c: ch.pool.submit(fs[c], ch) for c in comps}


@plan('C27')
def c27(ch):
    """Every kind of rejected call in every state of the model graphs."""
    wanted = after_reject
    ms = models(ch, ('field', 'kwd', 'text'))
    for comp, n in (('field', (160, 500)), ('kwd', (120, 400)),
                    ('text', (70, 250))):
        randoms(ch, comp, wanted(ch), ch.pick(*n), 'reject', budget=100)
    count = [0]

    def rejects(comp, cfg):
        kinds = dict(field=['docid', 'value'], text=['docid', 'text', 'text'],
                     kwd=['docid', 'string', 'boom', 'mixed', 'alien'])[comp]
        out = []
        for _ in range(2):
            c = count[0] = count[0] + 1
            out.append(['reject', c % min(3, cfg['nd']),
                        kinds[c % len(kinds)], c % 59])
        return out

    def conv(comp, cfg, w):
        out = [['thresh', 2]] if comp == 'kwd' else []
        for n, (a, new) in enumerate(w):
            if a[0] == 'index':
                a = a + [0] if comp == 'field' else \
                    a + ['str'] if comp == 'text' else \
                    ['index', a[1], [100 * k for k in a[2]], 'list']
            out.append(a)
            if new:
                out += rejects(comp, cfg)
        p = dict(field=field, kwd=kwd, text=text)[comp].probes(cfg)
        return out + p
    cfgs = dict(
        field=[dict(nd=4, nv=3, pool=p, pseed=1, idkind=k, deffam=False)
               for p, k in [('int', 'small'), ('none', 'limits')]],
        kwd=[dict(nd=3, nk=3, pool=p, ci=c, idkind=k, deffam=False)
             for p, c, k in [('str', True, 'small'), ('int', False, 'neg')]],
        text=[text.config(random.Random(3), 2, 3, kind=k, lex=x,
                          idkind='small', deffam=False, nolex=False, pre=120)
              for k, x in [('okapi', 'plain'), ('cosine', 'wide')]])
    init = dict(field=[], kwd=[[], [], 2], text=[[], []])
    for comp in ('field', 'kwd', 'text'):
        replay_graph(ch, comp, ms[comp].result(), init[comp], cfgs[comp],
                     lambda cfg, w, comp=comp: conv(comp, cfg, w), wanted(ch))


@plan('C28')
def c28(ch):
    wanted = prefix('args', 'isolation', 'pure', 'twin.mutate', 'setops.args')
    f = ch.pool.submit(ch.mc, 'MCIsolation', dict(
        Ids='{0,1}', Handles=ch.pick('{1}', '{1,2}'), Aliasing='FALSE',
        Emit='TRUE'), ['Isolated'], view='View', action_constraint='EmitT')
    for comp, n in zip(COMPS, ((150, 500), (150, 400), (150, 400), (80, 250))):
        randoms(ch, comp, wanted, ch.pick(*n), 'hold', budget=100)
    randoms(ch, 'util', wanted, ch.pick(60, 200), 'setops', budget=60)
    randoms(ch, 'lex', prefix('wid.count', 'wid.items', 'wid.get'),
            ch.pick(60, 200), budget=60)
    for comp in COMPS:
        randoms(ch, 'txn:' + comp, prefix('txn.readonly'), ch.pick(24, 150),
                'multi', budget=60)
    r = f.result()
    X = topic.SAT.index(max(topic.SAT, key=lambda s: s.count('T')))
    O = [i for i, v in enumerate(topic.SAT[X]) if v == 'T'][0]
    fq = [[[1, 0], [1, 0]], [[0, 0], [0, 0]], [[1, 0], [0, 1]],
          [[0, 0], [1, 0]]]
    kq = [[[0], 'and', 'list'], [[0], 'or', 'str'], [[0, 100], 'or', 'tuple'],
          [[0, 100], 'and', 'dict/list'], [[0], 'and', 'apply/str'],
          [[0], 'or', 'dict/tuple'], [[0, 0], 'or', 'list']]
    tq = [[[0], 'and', 'list'], [[0], 'or', 'str'], [[0, 1], 'or', 'tuple'],
          [[0, 1], 'and', 'dict/list'], [[0, 0], 'and', 'list'],
          [[0], 'and', 'apply/str'], [[0, 5], 'or', 'list']]

    def queries(comp, cfg):
        if comp != 'text':
            return dict(field=fq, kwd=kq, topic=tq)[comp]
        o = cfg['ops']
        return [[q] for q in (
            ['search', [0], 'str'], ['phrase', [0, 1], 'str'],
            ['glob', 'fo*'], ['apply', [0]], ['search', [0, 0], 'list'],
            ['apply', [0, o['OR'][0], 1]], ['apply', [0, o['AND'][0], 1]],
            ['apply', [0, o['NOT'][0], 2]], ['phrase', [0], 'str'])]

    def conv(comp, cfg, w):
        out = []
        if comp == 'topic':
            for g in (0, 1):
                out += [['new', g, g, X], ['add', g]]
        qs = queries(comp, cfg)
        held = set()
        for n, (a, new) in enumerate(w):
            n += 3 * w[0][1] + len(w)
            if a[0] == 'index':
                out.append(['index', a[1]] + dict(
                    field=[0, 0], kwd=[[0, 100], 'list'], topic=[O],
                    text=[[0, 1, 0], 'str'])[comp])
            elif a[0] == 'hold':
                out.append(['hold', a[1]] + qs[n % len(qs)])
                held.add(a[1])
            else:
                out.append(a)
                if a[0] == 'mutate':
                    out.append(['twin', 0, 'mutate'])
            if new:
                out += [['reread', h] for h in sorted(held)]
        return out
    cfgs = dict(
        field=[dict(nd=2, nv=2, pool=p, pseed=1, idkind='small', deffam=True)
               for p in ('int', 'str', 'none')],
        kwd=[dict(nd=2, nk=2, pool=p, ci=c, idkind='small', deffam=True)
             for p, c in (('str', True), ('int', False), ('tuple', False))],
        topic=[dict(nd=2, idkind=k, sat=topic.SAT, deffam=True)
               for k in ('small', 'neg', 'limits')],
        text=[text.config(random.Random(3), 2, 3, kind=k, lex=x,
                          idkind='small', deffam=True, nolex=False, pre=120)
              for k, x in [('okapi', 'plain'), ('cosine', 'wide'),
                           ('okapi', 'html')]])
    for comp in COMPS:
        replay_graph(ch, comp, r, [[], []], cfgs[comp],
                     lambda cfg, w, comp=comp: conv(comp, cfg, w), wanted)


@plan('C29')
def c29(ch):
    wanted = prefix('twin')
    ms = models(ch)
    for comp, n in zip(COMPS, ((200, 500), (160, 400), (160, 400),
                               (110, 250))):
        randoms(ch, comp, wanted, ch.pick(*n), 'twin', budget=100)
    for f in ms.values():
        f.result()


# --- transactions ----------------------------------------------------------

# The documents of the models, on the real indexes: value x of a document
STORE = dict(
    field=lambda d, x: ['index', d, x, 0],
    kwd=lambda d, x: ['index', d, [[0], [0, 100], [100]][x - 1], 'list'],
    topic=lambda d, x: ['index', d, [0, 4, 3][x - 1]],
    text=lambda d, x: ['index', d, [[0], [0, 1], [1, 1]][x - 1], 'str'])


def store_cfgs(comp):
    """Configurations: alone, and among other documents: (cfg, setup)."""
    out = []
    for pre in (0, 1):
        nd = 3 + (8 if pre else 0)
        cfg = dict(
            field=dict(nd=nd, nv=5, pool=('str', 'none')[pre], pseed=1),
            kwd=dict(nd=nd, nk=3, pool=('int', 'str')[pre], ci=bool(pre)),
            topic=dict(nd=nd, sat=topic.SAT),
            text=text.config(random.Random(7), nd, 3, pre=120, nolex=False,
                             kind=('okapi', 'cosine')[pre],
                             lex=('wide', 'plain')[pre]))[comp]
        cfg.update(comp=comp, n=1, calm=False, cache=(400, 5)[pre], storage='demo',
                   idkind=('small', 'limits')[pre], deffam=not pre)
        setup = []
        if comp == 'kwd':
            setup.append(['thresh', (2, 6)[pre]])
        if comp == 'topic':
            for f, x in ((0, 2), (1, 3)):
                setup += [['new', f, f, x], ['add', f]]
        for d in range(3, nd):
            setup.append(STORE[comp](d, 1 + d % 3))
        if comp == 'text' and pre:
            # documents 0 to 2 take the postings of word 0 past the cutoff
            setup += [STORE[comp](d, 1 + d % 2) for d in range(3, nd)]
        out.append((cfg, setup))
    return out


def store_probes(comp, cfg):
    if comp == 'field':
        return [['counts'], ['apply', [1, 0], [1, 0]],
                ['apply', [0, 1], [0, 1]], ['apply', [0, 2], [0, 2]],
                ['sort', [0, 1, 2], False, None, 'list'],
                ['apply', [0, 2], [1, 0]], ['sort', [0, 1, 2], True, 2, 'set']]
    if comp == 'kwd':
        return [['counts'], ['search', [0], 'and', 'list'], ['has', 0],
                ['search', [100], 'or', 'str'], ['has', 1],
                ['search', [0, 100], 'and', 'list'],
                ['search', [0, 100], 'or', 'tuple']]
    if comp == 'topic':
        return [['search', q, o, 'list'] for q in ([0], [1], [0, 1])
                for o in ('and', 'or')]
    return [['counts'], ['search', [0], 'str'], ['words', 0], ['has', 1],
            ['search', [1], 'str'], ['phrase', [0, 1], 'str'], ['words', 1],
            ['apply', [0, 1]], ['apply', [0, cfg['ops']['NOT'][0], 1], 'raw'], ['has', 0]]


def store_items(comp, n, session):
    """items of n sessions scripts; session(i, cfg, ix) is the script after
    the setup, ix makes operations of the index."""
    cfgs = store_cfgs(comp)
    its = []
    for i in range(n):
        cfg, setup = cfgs[i % len(cfgs)]

        def ix(s, ops):
            return [[s, 'ix', 0] + o for o in ops]
        s = [[0, 'begin']] + ix(0, setup) + [[0, 'commit']]
        s += session(i, cfg, ix)
        fam, pure = VARIANTS[i // 2 % 4] if i % 7 == 0 else VARIANTS[i % 2]
        its.append(dict(id=i, cfg=cfg, family=fam, pure=pure, script=s))
    return its


def anything(clause, t, l_):
    return True


@plan('C25')
def c25(ch):
    """Every transition of the one-session model, and random histories."""
    f = ch.pool.submit(ch.mc, 'MCSave', dict(
        Ids='{0,1}', Vals='{1,2}', Emit='TRUE'), [],
        props=['Durable', 'Atomic', 'Rolled', 'Evicted'], view='View',
        action_constraint='EmitT')
    for comp, n in zip(COMPS, ((120, 500), (120, 500), (120, 500), (80, 300))):
        randoms(ch, 'txn:' + comp, anything, ch.pick(*n), 'solo', budget=120,
                post=scores if comp == 'text' else None)
    randoms(ch, 'txn:lex', anything, ch.pick(50, 300), 'solo', budget=60)
    ws, n = walks(f.result().get('T'), [[0, 0], [0, 0], []], 80)
    random.Random(ch.seed).shuffle(ws)
    ws = ws[:ch.pick(70, len(ws))]

    def session(comp):
        def f(i, cfg, ix):
            ps = store_probes(comp, cfg)
            s = [[0, 'begin']]
            for n, (a, new) in enumerate(ws[i]):
                if a[0] == 'index':
                    s += ix(0, [STORE[comp](a[1], a[2])])
                elif a[0] == 'unindex':
                    s += ix(0, [a])
                elif a[0] in ('savepoint', 'rollback'):
                    s.append([0, a[0], 1])
                elif a[0] == 'evict':
                    s.append([0, 'evict'])
                else:
                    how = dict(commitfail=['', '~'][n % 2:n % 2 + 1]).get(
                        a[0], [])
                    s.append([0, 'abort' if a[0] == 'reconnect' else a[0]]
                             + how)
                    if a[0] == 'reconnect':
                        s.append([0, 'reconnect'])
                    s.append([0, 'begin'])
                if new:
                    k = 2 if a[0] in ('index', 'unindex', 'savepoint') else 4
                    s += ix(0, (ps + ps)[n % len(ps):][:k])
            return s
        return f
    for comp in COMPS:
        scripts(ch, 'txn:' + comp, store_items(comp, len(ws), session(comp)),
                anything)
    m = sum(sum(new for _, new in w) for w in ws)
    ch.walked += 4 * m
    ch.notes.append('%d of the %d transitions of the session model replayed '
                    'on each kind of index' % (m, n))


@plan('C26')
def c26(ch):
    """Schedules of the store model, and random ones."""
    inv = ['Committed', 'Views', 'NoSpurious', 'NoNeedless']

    def mc(comp, ids, vals, maxops, sessions='{1,2}', emit=False):
        return ch.pool.submit(ch.mc, 'MCStore', dict(
            Kind='"%s"' % comp, Ids=ids, Vals=vals, Th=2, Fix='TRUE',
            Sessions=sessions, Emit='TRUE' if emit else 'FALSE'), inv,
            action_constraint='EmitT', workers=2,
            subst=dict(Inits='InitsDef', MaxOps=maxops))
    emits = {c: mc(c, '{0,1}', '{1,2}', 'Max12', emit=True) for c in COMPS}
    emit3 = {c: mc(c, '{0,1}', '{1,2}', 'Max111', '{1,2,3}', emit=True)
             for c in COMPS}
    fs = []
    for c in COMPS:
        fs.append(mc(c, '{0,1,2}', '{1,2,3}', ch.pick('Max12', 'Max22')))
        fs.append(mc(c, '{0,1}', ch.pick('{1,2}', '{1,2,3}'), 'Max111',
                     '{1,2,3}'))
    for comp, n in zip(COMPS, ((140, 500), (160, 500), (120, 500), (90, 300))):
        randoms(ch, 'txn:' + comp, anything, ch.pick(*n), 'multi', budget=120,
                post=scores if comp == 'text' else None)
    g = lex_store(ch)
    randoms(ch, 'txn:lex', anything, ch.pick(60, 300), 'multi', budget=60)
    fs.append(g)
    inits = [[], [[0, 1]], [[0, 2], [1, 1]], [[0, 1], [1, 1]]]
    per = 12
    for comp in COMPS:
        rng = random.Random('%s %s' % (ch.seed, comp))
        hs = sorted(emits[comp].result().get('S'))
        h3 = sorted(emit3[comp].result().get('S'))
        total = len(hs) + len(h3)
        hs = rng.sample(hs, min(len(hs), ch.pick(500, 6000))) + \
            rng.sample(h3, min(len(h3), ch.pick(300, 4000)))
        rng.shuffle(hs)

        def session(i, cfg, ix):
            # some schedules one after another, on a cleared index
            ps = store_probes(comp, cfg)
            s = []
            for init, h in hs[i * per:(i + 1) * per]:
                s.append([0, 'begin'])
                s += ix(0, [['unindex', d] for d in (0, 1, 2)])
                s += ix(0, [STORE[comp](d, x) for d, x in inits[init - 1]])
                s.append([0, 'commit'])
                for a in h:
                    if a[0] in ('index', 'unindex', 'optimize'):
                        s += ix(a[1], [STORE[comp](*a[2:])
                                       if a[0] == 'index' else
                                       [a[0]] + a[2:]])
                    else:
                        s.append([a[1], a[0]])
                    if a[0] == 'commit':
                        k = len(s) % len(ps)
                        s.append([9, 'begin'])
                        s += ix(9, (ps + ps)[k:k + 4])
                        s.append([9, 'abort'])
                s.append([9, 'begin'])
                s += ix(9, ps)
                s.append([9, 'abort'])
            return s
        scripts(ch, 'txn:' + comp, store_items(
            comp, -(-len(hs) // per), session), anything,
            '%s: %d of %d schedules of the store model replayed' % (
                comp, len(hs), total))
        ch.walked += len(hs)
    for f in fs:
        f.result()


@plan('C31')
def c31(ch):
    """Sessions that only add documents to a populated index."""
    comps = ('field', 'kwd', 'topic')
    fs = [ch.pool.submit(ch.mc, 'MCStore', dict(
        Kind='"%s"' % c, Ids='{0,1,2,3,4}', Vals='{1,2,3}', Th=2, Fix='TRUE',
        Sessions='{1,2}' if n == 2 else '{1,2,3}', Emit='FALSE'),
        ['Committed', 'Views', 'NoSpurious', 'NoNeedless'], workers=2,
        subst=dict(Inits='InitsPop', MaxOps=m))
        for c in comps for n, m in ((2, ch.pick('Max11', 'Max12')),)]
    for comp in comps:
        randoms(ch, 'txn:' + comp, prefix('txn.needless', 'txn.failure'),
                ch.pick(160, 600), 'adds', budget=200)
    for f in fs:
        f.result()


def variant_trace(ts):
    """Runs of one script on the variants -> a trace of VariantTrace."""
    evs = []
    for i in range(max(len(t['ev']) for t in ts)):
        a, s = [], []
        for t in ts:
            e = dict(t['ev'][i]) if i < len(t['ev']) else {'op': 'missing'}
            sc = [x for _, x in e.pop('sc', ())]
            q = e.pop('qw', '')
            if q:
                sc.append(q)
            e.pop('exc', None)
            if e['op'] == 'accepted':
                # what a BTree accepts as a key is its own affair
                return dict(id=ts[0]['id'], cfg=ts[0]['cfg'], ev=evs)
            if e['op'] in ('rejected', 'twin', 'pure', 'hold', 'reread',
                           'mutate'):
                e = dict(op=e['op'])    # judged by other properties
            if e['op'] == 'sort' and e['r']['k'] == 'list':
                # the order of equal values is not promised
                e['r'] = dict(n=len(e['r']['v']), v=sorted(e['r']['v']))
            nums = []
            c = json.dumps(e, sort_keys=True)
            c = re.sub(r'"k": "exc", "v": "[A-Za-z_]*"', 'exc', c)
            for x in sc:
                try:
                    x = int(round(float(x) * 1e6))
                    c += ' %d' % (x > 0)
                except (ValueError, OverflowError):
                    x, c = 0, c + ' exc'
                nums.append(x)
            a.append(c)
            s.append(nums)
        evs.append(dict(op=e['op'], a=a, s=s))
    return dict(id=ts[0]['id'], cfg=ts[0]['cfg'], ev=evs)


@plan('C30')
def c30(ch):
    """The variants answer alike (and as the model whose graphs are checked
    here says, see the other properties)."""
    fs = models(ch)
    variants = [(32, False, 'pos'), (64, False, 'limits'), (32, True, 'neg'),
                (64, True, 'spread'), (64, False, 'small')]
    nv = len(variants)
    for comp, n, foci in (
            ('field', (120, 500), ('',)), ('kwd', (120, 400), ('', 'wordy')),
            ('topic', (90, 200), ('',)), ('text', (120, 400), ('', 'okapi')),
            ('text', (4, 20), ('big',)), ('util', (120, 400), ('setops', 'nbest', 'wid')),
            ('lex', (60, 200), ('',))):
        its = []
        for i in range(ch.pick(*n)):
            for v, (fam, pure, idk) in enumerate(variants):
                its.append(dict(
                    id=i * nv + v, seed='%s:var:%s:%d' % (ch.seed, comp, i),
                    focus=foci[i % len(foci)],
                    family=fam, pure=pure, idkind=idk))
        runs = {}
        for t in sorted(ch.drive(comp, its), key=lambda t: t['id']):
            runs.setdefault(t['id'] // nv, []).append(t)
        vt = [variant_trace(ts) for ts in runs.values()]
        ch.report('variant', ch.validate('variant', vt), prefix('variant'),
                  its)
    for f in fs.values():
        f.result()


DEFAULT_NOTE = (
    'Exhaustive over the small constants of the model; executions of the '
    'code: every transition of that graph replayed, and randomized histories '
    'whose every answer TLC compares with the specification. Not a proof for '
    'unbounded inputs.')
NOTES = {}
