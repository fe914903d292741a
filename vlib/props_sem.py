"""C01-C05, C08-C10, C16, C23: what loaded schemas say about documents."""
import itertools

from . import big, core, gen, run, sem, twins
from .enc import Lit, num
from .gen import Gen

RAP = (('rapidjson', 'rapidjson'),)
TWO = (('rapidjson', 'rapidjson'), ('nlohmann', 'rapidjson'))
BASE = {'type': 1.2, 'enum': .4, 'const': .4, 'numeric': .6, 'lengths': .4}

WEIGHTS = {
    'C01': dict(BASE, allOf=3, anyOf=3, oneOf=3, extends=1, boolean=1.5, required=.5, properties=.8, items=.6,
                contains=.3, **{'not': 3, 'if': 4}),
    'C02': dict(BASE, properties=5, patprops=3.5, addprops=4, required=2.5, psizes=2, deps=3, depstring=1,
                propertyNames=2.5, allOf=.5, boolean=.5, items=.5, anyOf=.4),
    'C03': dict(BASE, items=6, contains=3, sizes=2.5, unique=3, properties=.7, allOf=.5, anyOf=.3, boolean=.6),
    'C04': {'type': 4, 'numeric': 4, 'multiple': 3, 'lengths': 4, 'pattern': 4, 'enum': .2, 'properties': .5,
            'items': .5, 'allOf': .4, 'typeschema': .5},
}


def maker(ctx, weights, drafts=(3, 4, 7, 7), modes=((1, 1),), weak=False, ndocs=6, combos=RAP, uni=0.0, depth=3,
          **kw):
    def make():
        r = ctx.rng
        d = r.choice(drafts)
        g = Gen(r, d, weights, weak=weak, unicode_ok=r.random() < uni, depth=r.choice([1, 2, depth]))
        s = g.root()
        docs = g.docs(s, ndocs)
        if not gen.valid_numbers([s] + docs):
            return None
        return sem.case(s, docs, draft=d, modes=modes, combos=combos, **kw)
    return make


def enum_batches(ctx, exe, cases, asp, batch=4000):
    """All cases of an enumeration."""
    cases = list(cases)
    for i in range(0, len(cases), batch):
        if len(ctx.violations) < 24:
            core.sv_batch(ctx, exe, cases[i:i + batch], asp)
    ctx.add('enumerated_cases', len(cases))


VERD = ('load', 'verdict')


def c01(ctx):
    exe = run.build(ctx.work, ['rapidjson', 'nlohmann'])
    ctx.rule.append('Enumerated: every list of up to 3 (thorough 4) children from 4 leaf schemas under allOf, anyOf, '
                    'oneOf, in not, every present/absent combination of if/then/else over 4 leaves, two levels of '
                    'nesting. Random: schemas of the applicators over small leaves. Non-trivial: the schema accepts '
                    'some and rejects some of its documents.')
    leaves7 = [True, False, {'type': 'number'}, {'maximum': num(2)}]
    leaves4 = [{}, {'not': {}}, {'type': 'number'}, {'maximum': num(2)}]
    docs = [num(1), num(5), 'a', None]

    def cases():
        for d, leaves in ((7, leaves7), (4, leaves4)):
            lists = [list(p) for n in range(1, ctx.budget(4, 5)) for p in itertools.product(leaves, repeat=n)]
            for l in lists:
                for k in ('allOf', 'anyOf', 'oneOf'):
                    yield sem.case({k: l}, docs, d)
                    if len(l) <= 2:
                        yield sem.case({'not': {k: l}}, docs, d)
                        for k2 in ('allOf', 'anyOf', 'oneOf'):
                            yield sem.case({k: [{k2: l}] + l[:1]}, docs, d)
                        yield sem.case({'properties': {'a': {k: l}}}, [{'a': x} for x in docs], d)
                        yield sem.case({'items': {k: l}}, [[x] for x in docs], d)
        opt = [None] + leaves7
        for i, t, e in itertools.product(opt, repeat=3):
            s = {k: v for k, v in (('if', i), ('then', t), ('else', e)) if v is not None}
            yield sem.case(s, docs, 7)
            yield sem.case({'allOf': [s]}, docs, 7)
            yield sem.case({'if': s, 'then': {'const': num(1)}, 'else': {'type': 'string'}}, docs, 7)
        for s in (True, False):
            yield sem.case(s, docs, 7)
            for k in ('items', 'not', 'additionalProperties', 'contains', 'propertyNames', 'if'):
                yield sem.case({k: s}, docs + [[], [num(1)], {}, {'a': num(1)}], 7)
            for k in ('allOf', 'anyOf', 'oneOf'):
                yield sem.case({k: [s]}, docs, 7)
            yield sem.case({'items': [True, s]}, [[], [num(1)], [num(1), num(2)]], 7)
            yield sem.case({'items': [True], 'additionalItems': s}, [[], [num(1)], [num(1), num(2)]], 7)
            for p in ('properties', 'patternProperties', 'dependencies'):
                yield sem.case({p: {'a': s}}, [{}, {'a': num(1)}, {'b': num(1)}, num(1)], 7)
        for a, b in itertools.permutations(['allOf', 'anyOf', 'oneOf', 'not', 'type', 'maximum'], 2):
            def piece(k):
                return {'not': {'const': num(1)}, 'type': 'integer', 'maximum': num(3)}.get(
                    k, [{'minimum': num(0)}, {'type': 'string'}])
            yield sem.case({a: piece(a), b: piece(b)}, docs, 7, combos=TWO)
    enum_batches(ctx, exe, itertools.chain(cases(), big.c01(), twins.shared(4), twins.shared(7), twins.extends_shared()), VERD)
    core.sv_campaign(ctx, exe, maker(ctx, WEIGHTS['C01'], combos=TWO), VERD, ctx.budget(25, 500))


def c02(ctx):
    exe = run.build(ctx.work, ['rapidjson', 'nlohmann'])
    ctx.rule.append('Enumerated: every combination of properties, patternProperties and additionalProperties from small '
                    'sets of subschemas against every object over three names; required, dependencies, sizes and '
                    'propertyNames over the same objects; each at the root and nested. Random: schemas of the object '
                    'keywords. Non-trivial: accepts some and rejects some documents.')
    vals = [num(1), 'x']
    names = ['a', 'ab', 'b']
    objs = [dict(zip(ns, vs)) for n in range(4) for ns in itertools.combinations(names, n)
            for vs in itertools.product(vals, repeat=n)]
    non = [num(3), 'a', None, [], [num(1)], True]

    def cases():
        st, nu = {'type': 'string'}, {'type': 'number'}
        props = [None, {}, {'a': st}, {'a': nu, 'b': st}]
        pats = [None, {'^a': st}, {'a': nu, 'b$': st}]
        adds = [None, True, False, st, {'type': 'number'}]
        for p, q, a in itertools.product(props, pats, adds):
            s = {k: v for k, v in (('properties', p), ('patternProperties', q), ('additionalProperties', a)) if v is not None}
            yield sem.case(s, objs + non, 7, combos=TWO)
            yield sem.case({'items': s}, [[o] for o in objs], 4)
            yield sem.case({'properties': {'n': s}}, [{'n': o} for o in objs], 3)
        for req in [[], ['a'], ['b', 'a'], ['zz'], ['a', 'ab', 'b']]:
            yield sem.case({'required': req}, objs + non, 7)
            yield sem.case({'required': req}, objs + non, 4)
            yield sem.case({'properties': {'n': {'required': req}}}, [{'n': o} for o in objs + non], 7)
        for m in range(4):
            for k in ('minProperties', 'maxProperties'):
                for d in (4, 7):
                    yield sem.case({k: num(m)}, objs + non, d)
        for dep in [['b'], [], ['b', 'ab'], {'required': ['b']}, {'maxProperties': num(1)}, True, False,
                    {'additionalProperties': {'type': 'string'}}]:
            yield sem.case({'dependencies': {'a': dep}}, objs + non, 7)
            yield sem.case({'dependencies': {'a': dep, 'ab': ['a']}}, objs + non, 7)
            if not isinstance(dep, bool):
                yield sem.case({'dependencies': {'a': dep}}, objs + non, 4)
        for dep in ('b', 'zz'):
            yield sem.case({'dependencies': {'a': dep}}, objs + non, 3)
        for r1, r2 in itertools.product((None, True, False), repeat=2):
            s = {'properties': {n: ({} if r is None else {'required': r}) for n, r in (('a', r1), ('b', r2))}}
            yield sem.case(s, objs + non, 3)
            yield sem.case({'properties': {'n': s}}, [{'n': o} for o in objs], 3)
        for pn in [{'maxLength': num(1)}, {'pattern': '^a'}, {'enum': ['a', 'b']}, True, False, {'const': 'ab'},
                   {'not': {'minLength': num(2)}}, {'type': 'string'}, {'type': 'number'}]:
            yield sem.case({'propertyNames': pn}, objs + non, 7)
            yield sem.case({'propertyNames': pn, 'properties': {'a': st}}, objs + non, 7)
            yield sem.case({'items': {'propertyNames': pn}}, [[o] for o in objs], 7)
        for n in gen.ODD_NAMES + gen.UNI_WORDS:
            s = {'properties': {n: st}, 'additionalProperties': False}
            ds = [{n: 'x'}, {n: num(1)}, {'a': 'x'}, {n + 'x': 'x'}]
            yield sem.case(s, ds, 7, combos=TWO)
            yield sem.case({'required': [n]}, ds, 7, combos=TWO)
            yield sem.case({'dependencies': {n: ['a']}}, ds + [{n: num(1), 'a': num(1)}], 7, combos=TWO)
            yield sem.case({'properties': {n: {'properties': {n: nu}}}}, [{n: {n: 'x'}}, {n: {n: num(2)}}], 4)
    enum_batches(ctx, exe, itertools.chain(cases(), big.c02(), twins.nul_names(), *(twins.equal_names(d) for d in (3, 4, 7))), VERD)
    core.sv_campaign(ctx, exe, maker(ctx, WEIGHTS['C02'], combos=TWO, uni=.2), VERD, ctx.budget(25, 500))


def c03(ctx):
    exe = run.build(ctx.work, ['rapidjson', 'nlohmann'])
    ctx.rule.append('Enumerated: items (single, list of 0-3) x additionalItems x arrays of length 0-4; contains, sizes '
                    'and uniqueItems over all arrays of length up to 3 from seven values. Random: schemas of the array '
                    'keywords. Non-trivial: accepts some and rejects some documents.')
    st, nu = {'type': 'string'}, {'type': 'number'}
    arrs = [list(p) for n in range(5) for p in itertools.product([num(1), 'x'], repeat=n)]
    non = [num(3), 'a', None, {}, {'a': num(1)}, True]
    pool = [num(1), num('1.0'), 'a', [], {}, [num(1)], None, True]
    arrs2 = [list(p) for n in range(4) for p in itertools.product(pool, repeat=n)]

    def cases():
        for it in [None, st, nu, {}, [], [st], [st, nu], [nu, st, nu], [{}, st]]:
            for ad in [None, True, False, st, nu, {}]:
                s = {k: v for k, v in (('items', it), ('additionalItems', ad)) if v is not None}
                for d in (3, 4, 7):
                    yield sem.case(s, arrs + non, d, combos=TWO)
                yield sem.case({'properties': {'p': s}}, [{'p': a} for a in arrs], 7)
                yield sem.case({'allOf': [s]}, arrs, 7)
        for c in [st, nu, {}, True, False, {'const': num(1)}, {'type': 'array'}]:
            yield sem.case({'contains': c}, arrs2[:80] + non, 7)
        for m in range(4):
            for k in ('minItems', 'maxItems'):
                yield sem.case({k: num(m)}, arrs2[:80] + non, 4)
        yield sem.case({'uniqueItems': True}, arrs2 + non, 7, combos=TWO)
        yield sem.case({'uniqueItems': False}, arrs2[:80] + non, 7)
        deep = [{'a': num(1), 'b': num(2)}, {'b': num(2), 'a': num(1)}, {'b': num('2.0'), 'a': num(1)},
                {'a': num(1)}, [{'a': num(1)}], [[{'a': num('1.0')}]], [[{'a': num(1)}]], {'a': {'b': num(1)}},
                {'a': {'b': '1'}}, '1', num(1), False, num(0), None, '', [[]], [None], {'': None}]
        pairs = [[x, y] for x in deep for y in deep] + [[x, 'z', y] for x in deep for y in deep]
        yield sem.case({'uniqueItems': True}, pairs, 7, combos=TWO)
        yield sem.case({'items': {'uniqueItems': True}}, [[p] for p in pairs[:150]], 4)
    enum_batches(ctx, exe, itertools.chain(cases(), big.c03()), VERD)
    core.sv_campaign(ctx, exe, maker(ctx, WEIGHTS['C03'], combos=TWO), VERD, ctx.budget(25, 500))


NUMS = ['0', '1', '-1', '2', '3', '5', '10', '1.0', '1.5', '-1.5', '2.0', '0.5', '0.1', '0.3', '1e2', '100', '1e-2',
        '0.01', '99999', '2147483647', '2147483648', '-2147483648', '-2147483649', '4294967296', '9007199254740991',
        '-9007199254740991', '4611686018427387904', '-9223372036854775808', '1e15', '1e18', '1e19', '1e300', '-1e300',
        '1e-300', '123456.75', '0.0']


def c04(ctx):
    exe = run.build(ctx.work, ['rapidjson', 'nlohmann'])
    ctx.rule.append('Enumerated: every type name (and pairs) over values of every type including 64-bit boundaries; '
                    'every ordered pair of numbers from a boundary list under minimum, maximum and the exclusive forms '
                    'of each draft, and divisor x value for multipleOf; string lengths 0-4 over 1-4 byte characters '
                    'against bounds 0-5; each pattern of a list over all strings of length up to 4 (thorough 6) from a '
                    'small alphabet. Random: schemas of the scalar keywords. Non-trivial: accepts some and rejects '
                    'some documents.')
    nums = [num(x) for x in NUMS]
    others = ['', 'a', '1', 'true', None, True, False, [], [num(1)], {}, {'a': num(1)}]
    small = [num(x) for x in NUMS if abs(float(x)) < 2e4 and x not in ('1e-300',)]
    fair = [x for x in nums if abs(float(x)) <= 9007199254740991]

    def cases():
        ex_int = [x for x in nums if x not in ('1e19', '1e300', '-1e300')]
        for d in (3, 4, 7):
            for t in gen.TYPES + (['any'] if d == 3 else []):
                yield sem.case({'type': t}, nums + others, d, combos=TWO)
            for a, b in itertools.combinations(gen.TYPES, 2):
                yield sem.case({'type': [a, b]}, nums + others, d)
        for lim in fair:
            for k in ('minimum', 'maximum'):
                yield sem.case({k: lim}, fair + others, 7)
                yield sem.case({'exclusiveM' + k[1:]: lim}, fair + others, 7)
                yield sem.case({k: lim, 'exclusiveM' + k[1:]: num(3)}, fair + others, 7)
                for x in (True, False):
                    yield sem.case({k: lim, 'exclusiveM' + k[1:]: x}, fair + others, 4)
                yield sem.case({k: lim}, fair + others, 3)
            yield sem.case({'minimum': lim, 'maximum': lim}, fair + others, 4)
        for m in ['1', '2', '3', '7', '10', '0.5', '0.25', '1.5', '0.1', '0.01', '1e1', '1.0', '65536', '16777213']:
            for d, k in ((3, 'divisibleBy'), (4, 'multipleOf'), (7, 'multipleOf')):
                vs = [x for x in small if '.' not in m or abs(float(x)) < 200000]
                if '.' not in m and 'e' not in m:
                    vs = fair
                yield sem.case({k: num(m)}, vs + others, d)
        chars = ['a', '\u00e9', '\u20ac', '\U0001f600', '\u0000']
        strs = [''.join(p) for n in range(4) for p in itertools.product(chars, repeat=n)] + \
               ['\U0001f600' * 4, 'a' * 5, '\u20aca' * 2, 'x' * 300]
        for n in range(6):
            for k in ('minLength', 'maxLength'):
                yield sem.case({k: num(n)}, strs + others + nums[:3], 7)
            yield sem.case({'minLength': num(n), 'maxLength': num(n)}, strs[:80], 4)
        words = [''.join(p) for n in range(ctx.budget(5, 6)) for p in itertools.product('ab1x', repeat=n)]
        for p in gen.PATTERNS + ['^(?:ab|ba)*$', '[a-x]{2,}', '^[^0-9]+$', 'a|b|1', '(a(b)?)+$', '^a?b?1?$', 'x{0}a']:
            yield sem.case({'pattern': p}, words + ['a.b', 'zz\u000ab', 'A', '_', '-'] + others[3:], 7)
        yield sem.case({'pattern': 'a', 'minLength': num(2), 'maxLength': num(3)}, words[:90], 3)
    enum_batches(ctx, exe, itertools.chain(cases(), big.c04()), VERD, batch=500)
    core.sv_campaign(ctx, exe, maker(ctx, WEIGHTS['C04'], combos=TWO, uni=.3), VERD, ctx.budget(22, 500))


def c08(ctx):
    exe = run.build(ctx.work, ['rapidjson', 'nlohmann'])
    ctx.rule.append('Every schema (all keywords, all drafts) is validated without and with a results object in the '
                    'four mode combinations; TLC checks that verdicts agree, errors are present exactly for invalid '
                    'documents, and nothing throws. Non-trivial: accepts some and rejects some documents.')
    modes = ((1, 1), (0, 1), (1, 0), (0, 0))
    asp = ('load', 'agree')
    mk = [maker(ctx, None, modes=modes, ndocs=5), maker(ctx, None, modes=modes, weak=True, ndocs=5),
          maker(ctx, None, modes=modes, uni=1, ndocs=5), ref_maker(ctx, modes)]
    formats(ctx, exe, asp, 800, modes)
    bigs = list(itertools.chain(big.c01(), big.c02(), big.c03(), big.c04()))
    some = bigs if ctx.thorough else ctx.rng.sample(bigs, len(bigs) // 3)
    core.sv_batch(ctx, exe, [dict(c, modes=[list(m) for m in (modes if len(c['docs']) < 9 else ((0, 1), (1, 1)))]) for c in some], asp)
    core.sv_campaign(ctx, exe, lambda: ctx.rng.choice(mk)(), asp, ctx.budget(28, 600))


def ref_maker(ctx, modes):
    from .refs import RefGen

    def make():
        g = RefGen(ctx.rng, ctx.rng.choice([4, 7, 7]))
        return g.case(modes=modes)
    return make


def formats(ctx, exe, asp, n, modes):
    from .strings import format_strings
    for f in ('date', 'time', 'date-time', 'ipv4'):
        ss = format_strings(ctx.rng, f, n)
        cs = [sem.case({'format': f}, ss[i:i + 40], 7, modes=modes) for i in range(0, len(ss), 40)]
        core.sv_batch(ctx, exe, cs, asp)


def c05(ctx):
    from . import strings
    exe = run.build(ctx.work, ['rapidjson'])
    ctx.rule.append('Enumerated: every year of a boundary list x months 0-13 x days 0-32, every hour/minute/second '
                    'boundary, leap seconds under offsets, octets 0-260 with leading zeros; then mutations (insert, '
                    'delete, replace, duplicate a character, control and non-ASCII characters, NUL, newline) of '
                    'accepted strings; strict and permissive. Non-trivial: a group of strings with accepted and '
                    'rejected members.')
    modes = ((1, 1), (1, 0))
    for f in ('date', 'time', 'date-time', 'ipv4'):
        ss = strings.enumerate_format(f, ctx.thorough) + strings.format_strings(ctx.rng, f, ctx.budget(6000, 120000))
        ctx.rng.shuffle(ss)
        cs = [sem.case({'format': f}, ss[i:i + 50], ctx.rng.choice([3, 4, 7]), modes=modes) for i in range(0, len(ss), 50)]
        for i in range(0, len(cs), 300):
            core.sv_batch(ctx, exe, cs[i:i + 300], VERD)
        ctx.add('strings_' + f, len(ss))
    others = [num(1), None, True, [], {}, ['2020-01-01'], {'a': '1'}, num('20200101')]
    cs = [sem.case({'format': f}, others + ['x', '', '2020-13-01'], d, modes=modes)
          for f in gen.FORMATS + ['email', 'regex', 'Date', 'ipv6', 'a' * 50] for d in (3, 4, 7)]
    # long strings: no exception whatever the text
    longs = ['1' * n for n in (100, 2000)] + ['2020-01-01' * 200, '10:00:00.' + '1' * 3000 + 'Z', '1.' * 1500,
             '2020-01-01T10:00:00.' + '9' * 3000 + '+00:00', '\u00e9' * 500, '10:00:00.' + '1' * 3000]
    cs += [sem.case({'format': f}, longs, 7, modes=modes) for f in ('date', 'time', 'date-time', 'ipv4')]
    core.sv_batch(ctx, exe, cs, VERD)
    mixed = {'properties': {'d': {'format': 'date', 'minLength': num(10)}, 'i': {'format': 'ipv4', 'pattern': '^1'}},
             'items': {'format': 'time'}}
    core.sv_batch(ctx, exe, [sem.case(mixed, [{'d': '2020-02-30'}, {'d': '2020-02-29', 'i': '127.0.0.1'}, {'i': '1.2.3'},
                                              ['10:00:00Z', '10:00:60Z'], ['23:59:60Z']], 7, modes=modes)], VERD)


def c10(ctx):
    exe = run.build(ctx.work, ['rapidjson', 'nlohmann'])
    ctx.rule.append('Enumerated: every scalar keyword against every string of a literal list (numbers in many spellings, '
                    'booleans, empty, near misses) and every empty or non-empty container, weak and strong. Random: '
                    'schemas with textual scalars in the documents, weak and strong. Non-trivial: accepts some and '
                    'rejects some documents.')
    modes = ((0, 1), (1, 1))
    lits = ['0', '1', '-1', '12', '007', '1.5', '-0.5', '2.0', '1e2', '1E2', '1e+2', '1e-2', '.5', '5.', '1.5e1', '-', '+1',
            '', '1a', 'a1', '1 ', '0x10', 'true', 'false', 'True', 'TRUE', 'null', 'none', '1,5', '--1', '1e', 'e1', '.',
            '-.5', '1.2.3', '12345678901', '-12345678901', '9223372036854775807', '9223372036854775808', '1_0', 'yes', '[]',
            '{}', '10', '100']
    drop = {'+1', '1 ', '9223372036854775808', '9223372036854775807'}
    vals = [s for s in lits if s not in drop] + [None, True, False, num(0), num(1), num('1.5'), num('2.0'), num(12), [], {},
                                                 [num(1)], ['1'], [''], {'a': num(1)}, {'a': '1'}, [[]], [{}]]

    def cases():
        for d in (3, 4, 7):
            for t in gen.TYPES:
                yield sem.case({'type': t}, vals + ['9223372036854775807'], d, modes=modes, combos=TWO)
                yield sem.case({'items': {'type': t}}, [[v] for v in vals], d, modes=modes)
            for a, b in itertools.combinations(gen.TYPES, 2):
                yield sem.case({'type': [a, b]}, vals, d, modes=modes)
            for n in ('0', '1', '1.5', '2', '12', '100', '-1'):
                for k in ('minimum', 'maximum'):
                    yield sem.case({k: num(n)}, vals, d, modes=modes)
                    if d != 7:
                        yield sem.case({k: num(n), 'exclusiveM' + k[1:]: True}, vals, d, modes=modes)
                    else:
                        yield sem.case({'exclusiveM' + k[1:]: num(n)}, vals, d, modes=modes)
            for n in ('1', '2', '3', '0.5', '1.5', '5'):
                yield sem.case({'divisibleBy' if d == 3 else 'multipleOf': num(n)}, vals, d, modes=modes)
            for n in range(5):
                for k in ('minLength', 'maxLength'):
                    yield sem.case({k: num(n)}, vals, d, modes=modes)
                for k in ('minItems', 'maxItems') + (('minProperties', 'maxProperties') if d != 3 else ()):
                    yield sem.case({k: num(n)}, vals, d, modes=modes)
            for p in ('^$', '1', '^[0-9]+$', '\\.', '^t', 'e$', '^.$'):
                yield sem.case({'pattern': p}, vals, d, modes=modes)
            yield sem.case({'uniqueItems': True}, [[x, y] for x in vals[::3] for y in vals[::4]] + vals, d, modes=modes)
            yield sem.case({'properties': {'a': {'type': 'integer'}}, 'additionalProperties': False}, vals, d, modes=modes)
            yield sem.case({'patternProperties': {'a': {'type': 'integer'}}}, vals, d, modes=modes)
            yield sem.case({'items': [{'type': 'integer'}], 'additionalItems': False}, vals, d, modes=modes)
            yield sem.case({'items': {'type': 'integer'}}, vals, d, modes=modes)
            yield sem.case({'dependencies': {'a': ['b']}}, vals, d, modes=modes)
            yield sem.case({'format': 'ipv4'}, vals + ['1.2.3.4'], d, modes=modes)
            if d != 3:
                yield sem.case({'required': ['a']}, vals, d, modes=modes)
                yield sem.case({'contains': {'type': 'integer'}}, vals, d, modes=modes)
        # const and enum: conversions, leaving out the empty-against-empty cases
        eqv = [v for v in vals if v not in ('', [], {}, [''], [[]], [{}])]
        for v in eqv:
            yield sem.case({'enum': [v]}, eqv, 4, modes=modes, combos=TWO)
            yield sem.case({'const': v}, eqv, 7, modes=modes)
            yield sem.case({'enum': ['zzz', [v]]}, [[x] for x in eqv], 7, modes=modes)
            yield sem.case({'const': {'k': v}}, [{'k': x} for x in eqv], 7, modes=modes)
        # property names are strings, too
        names = [s for s in lits if s not in drop]
        subs = [{'type': t} for t in gen.TYPES] + [{k: num(n)} for k in ('minimum', 'maximum', 'exclusiveMinimum', 'multipleOf') for n in ('1', '2', '0.5', '12')]
        subs += [{k: num(n)} for k in ('minLength', 'maxLength', 'minProperties', 'maxProperties', 'minItems', 'maxItems') for n in (0, 1, 3)]
        subs += [{'const': v} for v in eqv] + [{'enum': [v, 'a1']} for v in eqv] + [{'uniqueItems': True}, {'required': ['a']}, {'additionalProperties': False},
                 {'contains': {}}, {'items': False}, {'items': [False], 'additionalItems': False}, {'propertyNames': False}, {'dependencies': {'': ['a']}},
                 {'format': 'date'}, {'pattern': '^$'}, {'properties': {'a': False}}, {'patternProperties': {'': False}}]
        for s in subs:
            yield sem.case({'propertyNames': s}, [{n: num(1)} for n in names if n or ('const' not in s and 'enum' not in s)], 7, modes=modes)
    enum_batches(ctx, exe, cases(), VERD)
    mk = maker(ctx, {k: v for k, v in gen.DEFAULT_WEIGHTS.items() if k not in ('const', 'enum')},
               modes=modes, weak=True, ndocs=7)
    core.sv_campaign(ctx, exe, mk, VERD, ctx.budget(25, 500))


def c09_sv(ctx, exe):
    """Reported locations."""
    modes = ((1, 1),)
    asp = ('load', 'errs', 'count')
    mk = [maker(ctx, None, modes=modes, ndocs=6, combos=TWO), maker(ctx, WEIGHTS['C02'], modes=modes, uni=.3, ndocs=6),
          maker(ctx, WEIGHTS['C03'], modes=modes, ndocs=6), maker(ctx, WEIGHTS['C01'], modes=modes, ndocs=6),
          maker(ctx, None, modes=((0, 1),), weak=True, ndocs=5)]

    def many():
        # several failing members and elements at once, under odd names
        r = ctx.rng
        g = Gen(r, 7, None, odd=.6, depth=2, unicode_ok=r.random() < .2)
        leaf = [{'type': 'string'}, {'minimum': num(5)}, {'const': 'q'}, {'type': 'array', 'items': {'type': 'null'}},
                {'type': 'object', 'additionalProperties': {'type': 'null'}}, {'required': ['z9']}, False,
                {'allOf': [{'type': 'string'}, {'minimum': num(5)}]}, {'anyOf': [{'type': 'string'}, {'const': None}]},
                {'items': [{'type': 'null'}], 'additionalItems': {'type': 'string'}}]
        names = gen.uniq(g.name() for _ in range(4))
        s = {'properties': {n: r.choice(leaf) for n in names[:3]}}
        if r.random() < .5:
            s['additionalProperties'] = r.choice(leaf)
        if r.random() < .4 and not g.uni:
            s['patternProperties'] = {r.choice(gen.PATTERNS): r.choice(leaf) for _ in range(2)}
        if r.random() < .4:
            s['required'] = ['m1', 'm2']
        docs = []
        for _ in range(5):
            o = {n: g.value(2) for n in names if r.random() < .85}
            docs.append(o if r.random() < .5 else [o, [o]])
        sc = s if r.random() < .5 else {'items': {'anyOf': [{'items': s}, s]}, **s}
        if not gen.valid_numbers([sc] + docs):
            return None
        return sem.case(sc, docs, 7, modes=modes)
    mk += [many, many]
    core.sv_batch(ctx, exe, list(big.c09()), asp)
    core.sv_campaign(ctx, exe, lambda: ctx.rng.choice(mk)(), asp, ctx.budget(25, 500))


def c23(ctx):
    exe = run.build(ctx.work, ['rapidjson', 'nlohmann'])
    ctx.rule.append('Enumerated: every keyword whose meaning or presence differs between the drafts, in well-formed and '
                    'foreign forms, loaded under drafts 3, 4 and 7. Random: schemas over the keywords common to all '
                    'drafts under each draft, and schemas generated for one draft loaded under the others. '
                    'Non-trivial: accepts some and rejects some documents, or is not loaded.')
    vals = [num(1), num(2), num(3), num('2.5'), 'a', 'ab', None, True, [], [num(1)], {}, {'a': num(1)}, {'b': 'x'},
            {'a': num(1), 'b': num(2)}]
    st = {'type': 'string'}
    forms = []
    for k in ('inimum', 'aximum'):
        for ex in (True, False, num(2), 'x', 'true', None):
            forms += [{'m' + k: num(2), 'exclusiveM' + k: ex}, {'exclusiveM' + k: ex}]
    for rq in (True, False, ['a'], [], 'a', ['a', 'b'], 'true'):
        forms += [{'required': rq}, {'properties': {'a': {'required': rq}}}, {'properties': {'a': {'required': rq, 'type': 'number'}}},
                  {'items': {'required': rq}}, {'patternProperties': {'a': {'required': rq}}} if rq not in (True, 'true') else {'x': rq},
                  {'allOf': [{'required': rq}]}]
    for m in (num(2), num('0.5'), num(0), num(-1), 'x'):
        forms += [{'divisibleBy': m}, {'multipleOf': m}, {'properties': {'a': {'divisibleBy': m}}}, {'items': {'multipleOf': m}}]
    for e in ([{'type': 'number'}], {'type': 'number'}, [], [{'minimum': num(2)}, {'maximum': num(2)}], 'x', [num(1)], True):
        forms += [{'extends': e}]
    for t in ([st], ['number', st], ['any'], 'any', {'minimum': num(2)}, ['null', {'minimum': num(2)}], [True], ['string', num(1)]):
        forms += [{'type': t}, {'items': {'type': t}}]
    for dep in ('b', ['b'], {'required': ['b']} , {'properties': {'b': st}}, True, False, num(1)):
        forms += [{'dependencies': {'a': dep}}]
    for b in (True, False):
        forms += [b, {'not': b}, {'items': b}, {'properties': {'a': b}}, {'allOf': [b]}, {'anyOf': [b]}, {'oneOf': [b]},
                  {'additionalProperties': b}, {'items': [b]}, {'items': [{}], 'additionalItems': b}, {'contains': b},
                  {'patternProperties': {'a': b}}, {'propertyNames': b}, {'if': b}, {'if': {}, 'then': b}]
    forms += [{'if': st}, {'if': st, 'then': {'maxLength': num(1)}}, {'then': {'type': 'null'}}, {'else': {'type': 'null'}},
              {'if': {'type': 'number'}, 'else': st}, {'propertyNames': {'maxLength': num(1)}}, {'propertyNames': {'pattern': 'b'}},
              {'then': num(1)}, {'else': [num(1)]}]
    for i in ('id', '$id'):
        forms += [{i: 'http://x.org/r', 'definitions': {'s': {i: '#nm', 'type': 'string'}}, 'properties': {'a': {'$ref': '#nm'}}},
                  {i: 'http://x.org/r', 'definitions': {'s': {i: 'leaf', 'type': 'string'}}, 'properties': {'b': {'$ref': 'leaf'}}},
                  {i: num(1), 'type': 'string'}]
    cs = [sem.case(f, vals, d, combos=TWO) for f in forms for d in (3, 4, 7)]
    # two inputs that are known to fail (known_findings.jsonl)
    cs += [sem.case({'patternProperties': {'^a': {'required': True}}}, [{}, {'a': num(1)}, {'^a': num(1)}], 3),
           sem.case({'definitions': {'x': {'required': True}}, 'properties': {'a': {'$ref': '#/definitions/x'},
                                                                              'b': {'$ref': '#/definitions/x'}}},
                    [{}, {'a': num(1)}, {'b': num(1)}, {'a': num(1), 'b': num(1)}], 3)]
    enum_batches(ctx, exe, cs, VERD)
    common = {k: 1 for k in ('type', 'enum', 'numeric', 'lengths', 'pattern', 'sizes', 'unique', 'items', 'properties',
                             'patprops', 'addprops', 'format', 'deps')}

    def shared():
        # the same schema and documents under all three drafts
        r = ctx.rng
        g = Gen(r, 4, common)
        g.draft = 4
        s = strip_ex(g.root())
        docs = g.docs(s, 5)
        if not gen.valid_numbers([s] + docs):
            return None
        pend.extend(sem.case(s, docs, d) for d in (3, 4))
        return sem.case(s, docs, 7)
    pend = []

    def make():
        if pend:
            return pend.pop()
        if ctx.rng.random() < .5:
            return shared()
        r = ctx.rng
        d0 = r.choice([3, 4, 7])
        g = Gen(r, d0)
        s = g.root()
        docs = g.docs(s, 4)
        if not gen.valid_numbers([s] + docs) or bad_d3(s):
            return None
        pend.extend(sem.case(s, docs, d) for d in (3, 4, 7) if d != d0)
        return sem.case(s, docs, d0)
    core.sv_campaign(ctx, exe, make, VERD, ctx.budget(25, 500))


def strip_ex(s):
    if isinstance(s, list):
        return [strip_ex(x) for x in s]
    if isinstance(s, dict):
        return {k: strip_ex(v) for k, v in s.items() if k not in ('exclusiveMinimum', 'exclusiveMaximum')}
    return s


def bad_d3(s):
    """Draft 3 reads required below patternProperties and references its own way."""
    if isinstance(s, list):
        return any(bad_d3(x) for x in s)
    if isinstance(s, dict):
        if any(isinstance(x, dict) and 'required' in x for x in (s.get('patternProperties') or {}).values()
               if isinstance(s.get('patternProperties'), dict)):
            return True
        return any(bad_d3(x) for x in s.values())
    return False
