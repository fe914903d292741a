"""Inputs of unusual size: many children, members, elements, patterns, long names and strings, deep nesting.

The other generators stay small so that combinations are covered; here one dimension grows at a time, and what
decides sits at the first, the last or some middle place."""
from . import sem
from .enc import num

SIZES = (5, 8, 9, 12, 16, 17, 31, 33, 65)
ST, NU = {'type': 'string'}, {'type': 'number'}
LONG = ['n' * k for k in (7, 8, 15, 16, 22, 23, 24, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 1000)]


def places(n):
    return sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n)))


def names(n):
    return ['m%d' % i for i in range(n)]


def prefixes(n):
    return ['p' * (i + 1) for i in range(n)]


def c01():
    for n in SIZES:
        # child i accepts i only: exactly one, none, or (with a twin) two
        kids = [{'const': num(i)} for i in range(n)]
        docs = [num(i) for i in places(n)] + [num(n), 'x']
        yield sem.case({'anyOf': kids}, docs, 7)
        yield sem.case({'oneOf': kids}, docs, 7)
        yield sem.case({'anyOf': [{'enum': k['const'] and [k['const']]} for k in kids]}, docs, 4)
        for i in places(n):
            for j in places(n):
                if i < j:
                    yield sem.case({'oneOf': kids[:j] + [{'enum': [num(i), num(j)]}] + kids[j + 1:]}, docs, 7)
        # child i rejects i only
        yield sem.case({'allOf': [{'not': k} for k in kids]}, docs, 7)
        yield sem.case({'not': {'allOf': [{'not': k} for k in kids]}}, docs, 7)
        yield sem.case({'not': {'anyOf': kids}}, docs, 7)
        yield sem.case({'oneOf': [{'not': k} for k in kids]}, docs, 7)
        yield sem.case({'type': ['string', {'enum': [num(0)]}] + [{'enum': [num(i)]} for i in range(1, n)]}, docs, 3)
        yield sem.case({'extends': [{'disallow': 'x', 'minimum': num(i)} for i in range(n)]}, docs, 3)
        # towers
        for base in (ST, {'minimum': num(3)}):
            s = base
            for k in range(min(n, 40)):
                s = {'not': s}
            yield sem.case(s, docs, 7)
            for k in ('allOf', 'anyOf', 'oneOf'):
                s = base
                for _ in range(min(n, 40)):
                    s = {k: [s]}
                yield sem.case(s, docs, 7)
            s = base
            for i in range(min(n, 40)):
                s = {'if': {'const': num(i)}, 'then': i % 2 == 0, 'else': s}
            yield sem.case(s, docs + [num(i) for i in range(min(n, 6))], 7)


def c02():
    for n in SIZES:
        for mk in (names, prefixes) if n in (9, 17) else (names,):
            ns = mk(n)
            full = {k: num(1) for k in ns}
            docs = [full, {}] + [dict(full, **{ns[i]: 'x'}) for i in places(n)] + [{k: v for k, v in full.items() if k != ns[i]} for i in places(n)]
            docs += [{ns[i]: 'x'} for i in places(n)] + [dict(full, extra=num(1))]
            yield sem.case({'properties': {k: NU for k in ns}}, docs, 7)
            yield sem.case({'properties': {k: NU for k in ns}, 'additionalProperties': False}, docs, 4)
            yield sem.case({'properties': {k: NU for k in ns}, 'required': ns}, docs, 7)
            yield sem.case({'required': ns}, docs, 4)
            yield sem.case({'required': ns[::-1]}, docs, 7)
            yield sem.case({'additionalProperties': NU}, docs, 7)
            if n < 18:
                yield sem.case({'patternProperties': {'^%s$' % k: NU for k in ns}, 'additionalProperties': False}, docs, 7)
            yield sem.case({'patternProperties': {k + '$': NU for k in ns[:12]}}, docs, 4)
            yield sem.case({'properties': {k: NU for k in ns[::2]}, 'patternProperties': {'^%s$' % k: ST for k in ns[1:24:2]}}, docs, 7)
            yield sem.case({'dependencies': {k: ['extra'] for k in ns}}, docs[2:], 7)
            yield sem.case({'dependencies': {'extra': ns}}, docs + [{'extra': num(1)}] + [dict({k: v for k, v in full.items() if k != ns[i]}, extra=num(1)) for i in places(n)], 7)
            yield sem.case({'dependencies': {k: {'properties': {ns[i - 1]: NU}} for i, k in enumerate(ns)}}, docs, 7)
            yield sem.case({'propertyNames': {'enum': ns}}, docs, 7)
            yield sem.case({'properties': {k: {'required': True} for k in ns}}, docs, 3)
        for k in ('minProperties', 'maxProperties'):
            for m in (n - 1, n, n + 1):
                yield sem.case({k: num(m)}, [{x: None for x in names(j)} for j in (0, 1, n - 1, n, n + 1, n + 2)], 7)
    for k in LONG:
        for other in (k[:-1], k[:-1] + 'm', k + 'n'):
            docs = [{k: 'x'}, {k: num(1)}, {other: 'x'}, {other: num(1)}, {k: num(1), other: 'x'}, {k: 'x', other: num(1)}]
            yield sem.case({'properties': {k: ST, other: NU}}, docs, 7)
            yield sem.case({'properties': {k: ST}, 'additionalProperties': NU}, docs, 4)
            yield sem.case({'required': [k]}, docs, 7)
            yield sem.case({'dependencies': {k: [other]}}, docs, 7)
    for m in ('2147483647', '2147483648', '4294967295', '4294967296', '4294967297', '9007199254740991'):
        for k in ('minProperties', 'maxProperties'):
            yield sem.case({k: num(m)}, [{}, {'a': num(1)}, {x: None for x in names(40)}], 7)
    for depth in (8, 16, 30):
        s, good, bad = ST, 'x', num(1)
        for i in range(depth):
            s = {'properties': {'k%d' % i: s}, 'additionalProperties': False, 'required': ['k%d' % i]}
            good, bad = {'k%d' % i: good}, {'k%d' % i: bad}
        yield sem.case(s, [good, bad, {'k%d' % (depth - 1): {}}, {}], 7)


def c03():
    for n in SIZES:
        ones = [num(1)] * n
        docs = [ones, ones[:-1], ones + [num(1)], []] + [ones[:i] + ['x'] + ones[i + 1:] for i in places(n)] + [ones + ['x'], ['x'] * n]
        yield sem.case({'items': NU}, docs, 7)
        yield sem.case({'items': [NU] * n}, docs, 7)
        yield sem.case({'items': [NU] * n, 'additionalItems': False}, docs, 4)
        yield sem.case({'items': [NU] * n, 'additionalItems': ST}, docs, 3)
        yield sem.case({'items': [NU] * (n // 2), 'additionalItems': NU}, docs, 7)
        yield sem.case({'items': [{'const': num(i)} for i in range(n)]}, [[num(i) for i in range(n)]] + [[num(i if i != p else i + 1) for i in range(n)] for p in places(n)], 7)
        yield sem.case({'contains': ST}, docs, 7)
        yield sem.case({'contains': {'const': num(1)}}, docs, 7)
        for m in (n - 1, n, n + 1):
            yield sem.case({'minItems': num(m)}, docs, 7)
            yield sem.case({'maxItems': num(m)}, docs, 4)
        for kind in (num, str, lambda i: [num(i)], lambda i: {'k': num(i)}, lambda i: {'k': num(i), 'l': [num(0)] * 6}):
            base = [kind(i) for i in range(n)]
            docs = [base]
            for i in places(n):
                for j in places(n):
                    if i < j:
                        docs.append(base[:j] + [base[i]] + base[j + 1:])
            yield sem.case({'uniqueItems': True}, docs, 7)
        wide = [{'k%d' % i: num(i) for i in range(n)}, {'k%d' % i: num(i) for i in reversed(range(n))}]
        yield sem.case({'uniqueItems': True}, [wide] + [[wide[0], dict(wide[1], **{'k%d' % i: num(-1)})] for i in places(n)], 7)
        long = [num(i) for i in range(n)]
        yield sem.case({'uniqueItems': True}, [[long, list(long)]] + [[long, long[:i] + [num(-1)] + long[i + 1:]] for i in places(n)], 4)
    for m in ('2147483647', '2147483648', '4294967295', '4294967296', '4294967297', '9007199254740991'):
        for k in ('minItems', 'maxItems'):
            yield sem.case({k: num(m)}, [[], [num(1)], [num(1)] * 40], 7)
    for depth in (8, 20, 40):
        s, good, bad, eq = ST, 'x', num(1), [num(1), num('1.0')]
        for i in range(depth):
            s, good, bad, eq = {'items': s, 'minItems': num(1)}, [good], [good, bad], [[eq[0]], [eq[1]]]
        yield sem.case(s, [good, bad, [], [[]]], 7)
        yield sem.case({'uniqueItems': True}, [eq, [eq[0], [eq[1]]]], 7)
    yield sem.case({'items': {'maximum': num(200)}, 'uniqueItems': True}, [[num(i) for i in range(300)], [num(i) for i in range(200)], [num(i % 150) for i in range(151)]], 7)


def c04():
    chars = ['a', '\u00e9', '\u20ac', '\U0001f600']
    for n in (7, 8, 15, 16, 17, 23, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1025, 5000):
        docs = [c * k for c in chars for k in (n - 1, n, n + 1)]
        docs += [('a' * (n - 1)) + '\u20ac', '\U0001f600' + 'a' * (n - 1), 'a' * (n // 2) + '\0' + 'a' * (n - n // 2)]
        yield sem.case({'minLength': num(n)}, docs, 7)
        yield sem.case({'maxLength': num(n)}, docs, 4)
    for m in ('2147483647', '2147483648', '4294967295', '4294967296', '4294967297', '9007199254740991'):
        for k in ('minLength', 'maxLength'):
            yield sem.case({k: num(m)}, ['', 'abc', 'x' * 40], 7)
    for n in SIZES:
        vals = [num(i) for i in range(n // 2)] + ['s%d' % i for i in range(n - n // 2)]
        docs = [vals[i] for i in places(n)] + [num(n), 's%d' % n, 's', None, 's01']
        yield sem.case({'enum': vals}, docs, 4)
        yield sem.case({'enum': [[v] for v in vals]}, [[d] for d in docs] + docs[:2], 7)
        yield sem.case({'enum': [{'k': v} for v in vals]}, [{'k': d} for d in docs], 7)
    for n in (8, 16, 30):
        docs = ['a' * n, 'a' * (n - 1), 'a' * (n + 1), 'b' + 'a' * n, 'a' * n + 'b', 'a' * (n // 2) + 'b' + 'a' * (n // 2), '']
        yield sem.case({'pattern': '^%s$' % ('a' * n)}, docs, 7)
        yield sem.case({'pattern': 'a{%d}' % n}, docs, 7)
        yield sem.case({'pattern': '^(a|b)+$'}, docs, 7)
        yield sem.case({'pattern': '|'.join('^%s$' % ('a' * k) for k in range(1, n))}, docs, 4)
    # integers and divisors far apart
    big = ['9007199254740991', '9007199254740992', '9007199254740993', '9223372036854775807', '9223372036854775806', '-9223372036854775808', '-9223372036854775807',
           '4611686018427387904', '1000000000000000000', '999999999999999999', '-999999999999999999', '2305843009213693951', '0', '1', '-1']
    for m in ('1', '2', '3', '5', '7', '10', '127', '65537', '1000003', '16777216', '99999999'):
        yield sem.case({'multipleOf': num(m)}, [num(x) for x in big], 7)
        yield sem.case({'divisibleBy': num(m)}, [num(x) for x in big], 3)
    # doubles beyond the integers (all exact in binary), and whole doubles within them
    huge = ['1e18', '4e18', '9e18', '1e19', '3e19', '-3e19', '1e20', '-1e20', '123e18', '1e21', '7e21', '1e22', '-1e22', '36893488147419103232', '-18446744073709551616',
            '-9223372036854775808.0', '73786976294838206464', '1e19', '21e18', '65537e15', '1e9', '3.0', '-7.0', '10.5']
    for m in ('1', '2', '3', '5', '7', '9', '10', '17', '127', '4096', '65537', '1000003', '16777216'):
        yield sem.case({'multipleOf': num(m)}, [num(x) for x in huge], 7, combos=(('rapidjson', 'rapidjson'), ('nlohmann', 'nlohmann')))
        yield sem.case({'divisibleBy': num(m)}, [num(x) for x in huge], 3)
    for m in huge[:16]:
        for k in ('minimum', 'maximum', 'exclusiveMinimum', 'exclusiveMaximum'):
            yield sem.case({k: num(m)}, [num(x) for x in huge], 7)


def c09():
    """Many errors, long paths, large indexes."""
    for n in SIZES + (101,):
        ns = names(n)
        bad = {k: num(1) for k in ns}
        arr = [num(1)] * n
        some = [num(1) if i in places(n) else 'x' for i in range(n)]
        yield sem.case({'additionalProperties': ST}, [bad, {k: v for k, v in zip(ns, some)}], 7)
        yield sem.case({'properties': {k: ST for k in ns}}, [bad, {k: v for k, v in zip(ns, some)}], 7)
        yield sem.case({'items': ST}, [arr, some], 7)
        yield sem.case({'items': [ST] * n}, [arr, some], 7)
        yield sem.case({'items': [], 'additionalItems': ST}, [arr, some], 4)
        yield sem.case({'items': [ST] * (n // 2), 'additionalItems': {'items': ST}}, [arr, some, [arr[:3]] * n], 7)
        yield sem.case({'required': ns}, [{}, {ns[0]: num(1)}], 7)
        yield sem.case({'patternProperties': {'^%s$' % k: ST for k in ns[:33]}}, [bad], 7)
        yield sem.case({'items': {'properties': {'a': {'items': ST}}}}, [[{'a': [num(1)] * 12}] * min(n, 12)], 7)
        yield sem.case({'anyOf': [{'const': num(-i - 1)} for i in range(n)]}, [num(5)], 7)
        yield sem.case({'allOf': [{'minimum': num(0)}] * (n - 1) + [{'properties': {'x': ST}}]}, [{'x': num(1)}], 7)
    for depth in (8, 16, 33):
        for kind in ('o', 'a', 'm'):
            s, d = ST, num(1)
            for i in range(depth):
                if kind == 'o' or (kind == 'm' and i % 2):
                    s, d = {'properties': {'a/~%d' % i: s}}, {'a/~%d' % i: d}
                else:
                    s, d = {'items': s}, ['', d] if i else ['x', d]
            yield sem.case(s, [d], 7)
    for k in LONG:
        yield sem.case({'properties': {k: ST}, 'additionalProperties': NU}, [{k: num(1)}, {k + '/': 'x'}, {k: {k: num(1)}}], 7)


def c06(d):
    """Long chains, many definitions, one definition used many times, deep pointers."""
    idk = '$id' if d == 7 else 'id'
    docs = [num(1), 'ab', [num(1)], ['ab'], {'a': num(1)}, {'a': 'ab'}]
    for n in (6, 9, 17, 33):
        defs = {'d%d' % i: {'$ref': '#/definitions/d%d' % (i + 1)} for i in range(n)}
        defs['d%d' % n] = ST
        yield sem.case({'definitions': defs, '$ref': '#/definitions/d0'}, docs, d)
        yield sem.case({'definitions': defs, 'items': {'$ref': '#/definitions/d0'}, 'properties': {'a': {'$ref': '#/definitions/d%d' % (n // 2)}}}, docs, d)
        many = {'d%d' % i: {'enum': [num(i)]} for i in range(n)}
        yield sem.case({'definitions': many, 'items': [{'$ref': '#/definitions/d%d' % i} for i in range(n)]},
                       [[num(i) for i in range(n)]] + [[num(i if i != p else -1) for i in range(n)] for p in places(n)], d)
        yield sem.case({'definitions': {'s': ST}, 'items': [{'$ref': '#/definitions/s'}] * n}, [['x'] * n] + [['x' if i != p else num(1) for i in range(n)] for p in places(n)], d)
        # identified schemas and anchors, many of them
        many = {'d%d' % i: {idk: ('r%d' if i % 2 else '#r%d') % i, 'enum': [num(i)]} for i in range(n)}
        yield sem.case({idk: 'http://x.org/d/root', 'definitions': many, 'items': [{'$ref': ('r%d' if i % 2 else '#r%d') % i} for i in range(n)]},
                       [[num(i) for i in range(n)]] + [[num(i if i != p else -1) for i in range(n)] for p in places(n)], d)
        # a pointer of n steps
        inner, ptr = ST, ''
        for i in range(n):
            inner = {'x%d' % i: inner} if i % 2 else [None, inner]
            ptr = ('/x%d' % i if i % 2 else '/1') + ptr
        yield sem.case({'stuff': inner, 'items': {'$ref': '#/stuff' + ptr}}, docs, d)
        yield sem.case({'stuff': inner, 'items': {'$ref': '#/stuff' + ptr + '/0'}}, docs, d)
        # a list long enough for indexes of two digits
        yield sem.case({'stuff': [{'enum': [num(i)]} for i in range(n)], 'items': [{'$ref': '#/stuff/%d' % i} for i in range(n)]},
                       [[num(i) for i in range(n)]] + [[num(i if i != p else -1) for i in range(n)] for p in places(n)], d)
        yield sem.case({'stuff': [ST] * n, 'items': {'$ref': '#/stuff/%d' % n}}, docs, d)
        # identified schemas nested in each other
        s, u = ST, 'http://x.org/'
        for i in reversed(range(min(n, 9))):
            s = {idk: 's%d/' % i, 'items': s, 'definitions': {'k': {'enum': [num(i)]}}, 'properties': {'a': {'$ref': '#/definitions/k'}}}
        doc = {}
        docs2 = []
        for p in range(min(n, 9)):
            for v in (p, p + 1):
                x = {'a': num(v)}
                for _ in range(p + 1):
                    x = [x]
                docs2.append(x)
        yield sem.case({idk: 'http://x.org/root', 'items': s}, docs2, d)
    for k in LONG:
        yield sem.case({'definitions': {k: ST, k + 'x': NU, k[:-1] + 'm': {'type': 'null'}}, 'items': {'$ref': '#/definitions/' + k}, 'properties': {'a': {'$ref': '#/definitions/%sx' % k}}}, docs, d)
        yield sem.case({idk: 'http://x.org/' + k, 'definitions': {'q': {idk: k + 'x', **ST}}, 'items': {'$ref': k + 'x'}, 'properties': {'a': {'$ref': 'http://x.org/' + k + 'x'}}}, docs, d)


def c07(d):
    """Chains, stars and meshes of remote documents."""
    idk = '$id' if d == 7 else 'id'
    docs = [num(1), 'ab', {'p': 'x'}, {'p': num(1)}, {'p': {'p': num(1)}}, {'p': {'p': {'p': {'p': {'p': num(1)}}}}}, [num(1)], ['x'] * 20, ['x'] * 16 + [num(1)]]
    u = lambda i: 'http://h.org/d/r%d' % i
    node = lambda t: {'type': ['string', 'object'], 'properties': {'p': {'$ref': t}}}
    for n in (4, 6, 10, 17):
        for how in ('ok', 'missing', 'throw', 'bad', 'loop'):
            rem = {u(i): node('r%d' % (i + 1)) for i in range(n)}
            rem[u(n)] = dict(ST)
            if how == 'missing':
                del rem[u(n)]
            if how == 'bad':
                rem[u(n)] = {'type': 'nonsense'}
            if how == 'loop':
                rem[u(n)] = node('r0')
            c = sem.case({idk: 'http://h.org/d/main', 'properties': {'p': {'$ref': 'r0'}}}, docs, d, remotes={k: v for k, v in rem.items() if how != 'throw' or k != u(n)}, fetch=True)
            if how == 'throw':
                c['throwing'] = [u(n)]
            yield c
        rem = {u(i): {'type': 'string', 'definitions': {'q': ST}} for i in range(n)}
        star = {idk: 'http://h.org/d/main', 'items': [{'$ref': 'r%d' % i} for i in range(n)]}
        yield sem.case(star, docs, d, remotes=rem, fetch=True)
        yield sem.case(star, docs, d, remotes={k: v for k, v in rem.items() if k != u(n - 1)}, fetch=True)
        # every document uses every other
        rem = {u(i): {'type': ['string', 'object'], 'properties': {'p': {'$ref': 'r%d#/definitions/q' % ((i + 1) % n)}, 'q': {'$ref': 'r%d' % ((i + 2) % n)}},
                      'definitions': {'q': {'type': ['string', 'object'], 'properties': {'p': {'$ref': 'r%d' % ((i + 3) % n)}}}}} for i in range(min(n, 6))}
        n2 = min(n, 6)
        rem = {k: _wrap(v, n2) for k, v in rem.items()}
        yield sem.case({idk: 'http://h.org/d/main', 'items': {'$ref': 'r0'}, 'properties': {'p': {'$ref': 'r1#/definitions/q'}}}, docs, d, remotes=rem, fetch=True)
        # one document reached many times, by different spellings
        spell = ['r0', './r0', '/d/r0', '../d/r0', 'http://h.org/d/r0', 'r0#', 'r0#/definitions/q', 'x/../r0', '//h.org/d/r0'][:8]
        yield sem.case({idk: 'http://h.org/d/main', 'items': [{'$ref': spell[i % 8]} for i in range(n)]}, docs, d, remotes={u(0): {'type': 'string', 'definitions': {'q': ST}}}, fetch=True)


def _wrap(v, n):
    if isinstance(v, dict):
        return {k: ('r%d' % (int(x[1:].split('#')[0]) % n) + x[x.find('#'):] * ('#' in x) if k == '$ref' else _wrap(x, n)) for k, x in v.items()}
    return v


def c16():
    """Something wrong at the end of something long or deep."""
    for n in (5, 9, 17, 30):
        for d in (3, 4, 7):
            bad = {'minLength': 'x'}
            lists = [{'items': [{}] * n + [bad]}, {'enum': [num(1)] * n}, {'properties': dict({'m%d' % i: {} for i in range(n)}, zz=bad)},
                     {'patternProperties': dict({'m%d' % i: {} for i in range(n)}, zz=bad)}, {'dependencies': dict({'m%d' % i: {} for i in range(n)}, zz=bad)},
                     {'dependencies': {'a': ['b'] * n + [num(1)]}}, {'definitions': dict({'m%d' % i: {} for i in range(n)}, zz=bad)}]
            if d != 3:
                lists += [{'allOf': [{}] * n + [bad]}, {'anyOf': [{}] * n + [bad]}, {'oneOf': [{}] * n + [bad]}, {'required': ['m%d' % i for i in range(n)] + [num(1)]},
                          {'required': ['m%d' % i for i in range(n)]}, {'type': ['string', 'null', 'number', 'object', 'array', 'boolean', 'nonsense']},
                          {'type': ['string', 'null', 'number', 'object', 'array', 'boolean', 'integer']}]
            else:
                lists += [{'extends': [{}] * n + [bad]}, {'type': ['string'] + [{'minimum': num(1)}] * n + [bad]}]
            for s in lists:
                yield sem.case(s, [], d)
            for wrap in (lambda s: {'properties': {'a': s}}, lambda s: {'items': s}, lambda s: {'additionalProperties': s}, lambda s: {'items': [s]},
                         (lambda s: {'not': s}) if d != 3 else (lambda s: {'extends': s})):
                s, g = bad, {'minLength': num(1)}
                for _ in range(n):
                    s, g = wrap(s), wrap(g)
                yield sem.case(s, [], d)
                yield sem.case(g, [], d)
