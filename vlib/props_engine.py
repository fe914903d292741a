"""C26: patterns are decided by the engine the user chose."""
import itertools

from . import core, gen, run, rx, sem
from .enc import num
from .gen import Gen
from .props_sem import TWO, WEIGHTS, enum_batches, maker

# texts that mean something else, or nothing, as ECMAScript
WORDS = ['a', 'ab', 'b', 'x1', 'zz', 'A', '', 'abc', 'ba', '.', '[', '(', '*', '\\', '^a', 'a$', '\u00e9', '\u20ac5', 'a\u0000b', '[a-c]', '\u0000']
PATTERNS = [op + w for op in ('', '=', '<', '>', '~', '@') for w in ('', 'a', 'b', 'ab', '1', 'x1', '(', '[', '\u00e9')] + \
           ['(', '[', '*', '+a', '\\', '{', 'a{', '(?<n>a)', '^a', 'b$', '.', 'a|b', '=^a', '=a\u0000b', '~\u0000', '<a\u0000', '@ab\u0000', '>\u0000b',
            '\u20ac', '=\u20ac5', '@\u00e9\u20ac5'][:-1]
THROWERS = ['!', '!a', '?', '?a', '?(', '!(']


def case(schema, docs, draft=7, throws=False, **kw):
    if throws:
        kw['throws'] = True
    return sem.case(schema, docs, draft, pat=rx.ENGINE, shared=kw.pop('shared', True), **kw)


def shapes(p, q):
    """The places a pattern can stand."""
    st, nu = {'type': 'string'}, {'type': 'number'}
    yield {'pattern': p}
    yield {'items': {'pattern': p}}
    yield {'items': [{'pattern': p}, {'pattern': q}], 'additionalItems': {'pattern': p}}
    yield {'properties': {'a': {'pattern': p}, 'b': {'pattern': q}}}
    yield {'additionalProperties': {'pattern': p}}
    yield {'patternProperties': {p: nu}}
    yield {'patternProperties': {p: nu, q: st}, 'additionalProperties': False}
    yield {'properties': {'a': nu}, 'patternProperties': {p: nu}, 'additionalProperties': st}
    yield {'propertyNames': {'pattern': p}}
    yield {'patternProperties': {p: {'pattern': q}}}
    yield {'contains': {'pattern': p}}
    yield {'not': {'pattern': p}}
    for k in ('allOf', 'anyOf', 'oneOf'):
        yield {k: [{'pattern': p}, {'pattern': q}]}
    yield {'anyOf': [nu, {'pattern': p}]}
    yield {'if': {'pattern': p}, 'then': {'pattern': q}, 'else': {'maxLength': num(1)}}
    yield {'if': nu, 'then': {'pattern': p}, 'else': True}
    yield {'dependencies': {'a': {'propertyNames': {'pattern': p}}, 'b': {'patternProperties': {q: st}}}}
    yield {'definitions': {'d': {'pattern': p}}, 'items': {'$ref': '#/definitions/d'}, 'properties': {'a': {'$ref': '#/definitions/d'}}}


def documents():
    words = ['a', 'ab', 'b', 'x1', '', '(', 'a\u0000b', '\u00e9']
    docs = list(words) + [num(1), None, True, [], {}]
    docs += [['a', 'b'], ['ab', num(1), '('], ['b', '[', 'x1'], [num(2)], [['a']]]
    docs += [{w: num(1)} for w in words[:6]] + [{'a': 'a', 'b': 'b'}, {'a': 'b', 'b': num(1)}, {'a': 'x1', '(': 'a', 'zz': num(1)}, {'a\u0000b': 'a'},
             {'\u00e9': num(1), 'ab': 'ab'}, {'b': 'ab', 'a': num(2)}, {'a': ['b'], 'x1': {'a': 'a'}}]
    return docs


def c26(ctx):
    exe = run.build(ctx.work, ['rapidjson', 'nlohmann'], defs=['DRV_ENGINE'])
    ctx.rule.append('A validator instantiated with an engine of its own pattern language (VEngine). Enumerated: every pattern of a list under twenty '
                    'schema shapes over documents of strings, arrays and objects, one validator for all documents of a case; engines that refuse a '
                    'pattern or give up on a text in each shape, alone and next to patterns that work. Random: schemas of all keywords with such '
                    'patterns. The default engine built on boost::regex: patterns over all short strings, formats, random schemas. Non-trivial: '
                    'accepts some and rejects some documents.')
    ctx.assumptions.append('under boost::regex documents contain no line breaks: Perl syntax gives ^ $ and . another meaning there')
    r = ctx.rng
    docs = documents()

    def plain():
        for p in PATTERNS:
            some = list(shapes(p, r.choice(PATTERNS)))
            for s in some if ctx.thorough else some[:1] + r.sample(some[1:], 9):
                yield case(s, docs, 7)
            yield case({'pattern': p}, WORDS, r.choice([3, 4]), combos=TWO)
            yield case({'patternProperties': {p: {'type': 'string'}}}, [{w: v} for w in WORDS for v in ('x', num(1))], r.choice([3, 4]),
                       combos=TWO, shared=False)
    enum_batches(ctx, exe, plain(), ('load', 'verdict', 'count'))

    def throwing():
        good = ['a', '=a', '', '<zz']
        for t in THROWERS:
            for g in good:
                for s in itertools.chain(shapes(t, g), shapes(g, t)):
                    yield case(s, docs, 7, True)
            for s in shapes(t, r.choice(THROWERS)):
                yield case(s, docs, 7, True)
    cs = list(throwing())
    for k in range(0, len(cs), 400):
        core.sv_batch(ctx, exe, cs[k:k + 400], (), module='TEngine', inv='CheckE')
    ctx.add('throwing_cases', len(cs))

    w = dict(gen.DEFAULT_WEIGHTS, pattern=4, patprops=4, propertyNames=2)

    def rand(throws):
        def make():
            d = r.choice((3, 4, 7, 7))
            pool = r.sample(PATTERNS, 6) + ['a', '<a', '>b', '@ab'] + (r.sample(THROWERS, 3) if throws else [])
            g = Gen(r, d, w, unicode_ok=r.random() < .3, depth=r.choice([1, 2, 3]), patterns=pool)
            s = g.root()
            ds = g.docs(s, 6)
            if not gen.valid_numbers([s] + ds):
                return None
            if throws:
                return case(s, ds, d, True)
            return case(s, ds, d, combos=TWO, shared=r.random() < .5, modes=((1, 1), (0, 1)) if r.random() < .2 else ((1, 1),))
        return make
    core.sv_campaign(ctx, exe, rand(False), ('load', 'verdict', 'count'), ctx.budget(12, 300), batch=1000)
    mk = rand(True)
    cs = [c for c in (mk() for _ in range(ctx.budget(1000, 12000))) if c is not None]
    for k in range(0, len(cs), 1000):
        core.sv_batch(ctx, exe, cs[k:k + 1000], (), module='TEngine', inv='CheckE')

    boost(ctx)


def boost(ctx):
    """The default engine on boost::regex."""
    from . import strings
    exe = run.build(ctx.work, ['rapidjson', 'nlohmann'], name='bdrv', defs=['VALIJSON_USE_BOOST_REGEX=1'])
    r = ctx.rng
    words = [''.join(p) for n in range(ctx.budget(4, 6)) for p in itertools.product('ab1x', repeat=n)] + ['a.b', 'A', '_', '-']
    cs = [sem.case({'pattern': p}, words, 7) for p in gen.PATTERNS + ['^(?:ab|ba)*$', '[a-x]{2,}', '^[^0-9]+$', 'a|b|1', '(a(b)?)+$', '^a?b?1?$']]
    cs += [sem.case({'patternProperties': {p: False}}, [{w: num(1)} for w in words[:60]], 7) for p in gen.PATTERNS]
    modes = ((1, 1), (1, 0))
    for f in ('date', 'time', 'date-time', 'ipv4'):
        ss = strings.enumerate_format(f, False)
        ss = r.sample(ss, min(len(ss), ctx.budget(1500, 20000))) + strings.format_strings(r, f, ctx.budget(1500, 20000))
        cs += [sem.case({'format': f}, ss[i:i + 50], 7, modes=modes) for i in range(0, len(ss), 50)]
    for k in range(0, len(cs), 300):
        core.sv_batch(ctx, exe, cs[k:k + 300], ('load', 'verdict'))
    mk = maker(ctx, dict(WEIGHTS['C04'], patprops=3, format=2, propertyNames=1), combos=TWO)
    core.sv_campaign(ctx, exe, mk, ('load', 'verdict', 'count'), ctx.budget(8, 200), batch=800)
