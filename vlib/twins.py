"""Inputs in which two different things look alike, or one thing is met twice.

Subschemas under equal names of different keywords, names that spell paths, identifiers that spell pointers,
URIs that differ in one place, and one subschema shared by several keywords or alternatives."""
import itertools

from . import sem
from .enc import num

ST, IN, NL = {'type': 'string'}, {'type': 'integer'}, {'type': 'null'}
V = ['s', num(1), None]
TWO = (('rapidjson', 'rapidjson'), ('nlohmann', 'rapidjson'))


def esc(t):
    return t.replace('~', '~0').replace('/', '~1')


def shared(d):
    """One subschema in several alternatives (drafts 4 and 7)."""
    docs = V + [[], {'a': num(1)}]
    R, Q = {'$ref': '#/definitions/x'}, {'$ref': '#/definitions/y'}
    for x, y in ((ST, IN), ({'not': ST}, IN), ({}, {'not': {}})):
        defs = {'x': x, 'y': y, 'z': {'$ref': '#/definitions/x'}}
        Z = {'$ref': '#/definitions/z'}
        for n in (1, 2, 3):
            for kids in itertools.product((R, Q, Z), repeat=n):
                for k in ('allOf', 'anyOf', 'oneOf'):
                    yield sem.case({'definitions': defs, k: [dict(c) for c in kids]}, docs, d)
        for k in ('allOf', 'anyOf', 'oneOf'):
            yield sem.case({'definitions': defs, k: [R, {'allOf': [R]}, {'not': Z}]}, docs, d)
            yield sem.case({'definitions': defs, 'not': {k: [R, R]}}, docs, d)
            yield sem.case({'definitions': defs, k: [R, R], 'items': R, 'not': Z}, docs, d)
        if d == 7:
            for i, t, e in itertools.product((R, Q, Z), repeat=3):
                yield sem.case({'definitions': defs, 'if': i, 'then': t, 'else': e}, docs, d)
        yield sem.case({'definitions': defs, 'items': [R, R], 'additionalItems': R}, [[a, b, c] for a in V for b in V for c in V], d)
        yield sem.case({'definitions': defs, 'items': [R, Q], 'additionalItems': Z}, [[a, b, c] for a in V for b in V for c in V], d)
        yield sem.case({'definitions': defs, 'properties': {'a': R, 'b': R}, 'patternProperties': {'a': Q, 'b': R},
                        'additionalProperties': R}, [{k: v} for k in ('a', 'b', 'ab', 'c') for v in V], d)
        yield sem.case({'definitions': defs, 'dependencies': {'a': R, 'b': Q, 'c': Z}},
                       [{}, {'a': num(1)}, {'b': num(1)}, {'c': num(1)}, 's'], d)


def equal_names(d):
    """The same name under several keywords that hold subschemas by name."""
    kinds = [ST, IN, NL]
    for n in ('a', 'p', 'items', '0', 'properties', 'b1'):
        docs = [{n: v} for v in V] + [{'x' + n: v} for v in V] + [{'zz': v} for v in V] + V + [[v] for v in V]
        for x, y in itertools.permutations(kinds, 2):
            yield sem.case({'properties': {n: x}, 'patternProperties': {n: y}}, docs, d)
            yield sem.case({'patternProperties': {n: x}, 'properties': {n: y}}, docs, d)
            yield sem.case({'properties': {n: x}, 'patternProperties': {n: {}}, 'additionalProperties': y}, docs, d)
            yield sem.case({'properties': {n: {}}, 'patternProperties': {n: x}, 'additionalProperties': y}, docs, d)
            yield sem.case({'properties': {n: x}, 'definitions': {n: y}, 'items': {'$ref': '#/definitions/' + n}}, docs, d)
            yield sem.case({'definitions': {n: y}, 'properties': {n: x, 'zz': {'$ref': '#/definitions/' + n}}}, docs, d)
            yield sem.case({'properties': {n: x, 'zz': {'$ref': '#/patternProperties/' + n}}, 'patternProperties': {n: y}}, docs, d)
            yield sem.case({'properties': {n: x, 'zz': {'$ref': '#/properties/' + n}}, 'patternProperties': {n: y}}, docs, d)
            yield sem.case({'properties': {n: x}, 'dependencies': {n: {'additionalProperties': y}}}, docs, d)
            yield sem.case({'properties': {n: {'properties': {n: x}}}, 'patternProperties': {n: {'patternProperties': {n: y}}}},
                           [{n: {n: v}} for v in V] + [{n: {n + 'x': v}} for v in V], d)


NULS = ['a\0', 'a\0b', '\0', '\0a', 'a\0\0']


def nul_names(combos=TWO):
    """Names and patterns with null characters, next to what they look like when cut there."""
    for n in NULS:
        ds = [{n: 'x'}, {n: num(1)}, {'a': 'x'}, {'a': num(1)}, {n + 'x': 'x'}, {n: 'x', 'a': num(1)}, {}, n, 'a']
        for s in ({'properties': {n: ST}}, {'properties': {n: ST}, 'additionalProperties': False}, {'required': [n]}, {'required': [n, 'a']},
                  {'dependencies': {n: ['a']}}, {'dependencies': {'a': [n]}}, {'dependencies': {n: {'maxProperties': num(1)}}},
                  {'properties': {'a': IN, n: ST}}, {'patternProperties': {n: ST}}, {'propertyNames': {'pattern': n}}, {'enum': [{n: 'x'}]},
                  {'const': {n: num(1)}}, {'propertyNames': {'const': n}}, {'properties': {n: {'properties': {n: ST}}}}, {'pattern': n},
                  {'patternProperties': {'a': ST, 'a\0': IN}}, {'not': {'pattern': '^' + n + '$'}}):
            yield sem.case(s, ds, 7, combos=combos)
        yield sem.case({'properties': {n: {'type': 'string', 'required': True}}}, ds, 3, combos=combos)
        yield sem.case({'dependencies': {n: n + 'x'}}, ds, 3, combos=combos)
        yield sem.case({'required': [n]}, ds, 4, combos=combos)


def spelled_paths(d):
    """Names that spell what another path looks like."""
    X, Y = ST, IN
    for a, b in (('a/properties/b', 'a'), ('a~1properties~1b', 'a'), ('a%2Fproperties%2Fb', 'a'), ('a#/properties/b', 'a')):
        s = {'properties': {a: X, b: {'properties': {'b': Y}}}}
        t = {'properties': {b: {'properties': {'b': Y}}, a: X}}
        docs = [{a: v} for v in V] + [{b: {'b': v}} for v in V]
        yield sem.case(s, docs, d, combos=TWO)
        yield sem.case(t, docs, d, combos=TWO)
        yield sem.case(dict(s, items={'$ref': '#/properties/a/properties/b'}), docs + [[v] for v in V], d)
        yield sem.case(dict(t, items={'$ref': '#/properties/' + esc(a).replace('%', '%25').replace('#', '%23')}),
                       docs + [[v] for v in V], d)
    for p, q in (('a/b', 'a~1b'), ('a~b', 'a~0b'), ('A', '%41'), ('a', 'a/'), ('a/', 'a//'), ('0', '00'), ('a', 'a '), ('a', 'A'),
                 ('~', '~~'), ('~1', '/'), ('%', '%25'), ('a+b', 'a b'), ('\u00e9', 'e\u0301'), ('a', 'a\u0000'), ('a#', 'a'),
                 ('-', '0'), ('n' * 64 + '1', 'n' * 64 + '2'), ('n' * 300 + '1', 'n' * 300 + '2'), ('ab', 'ba')):
        for x, y in ((X, Y), (Y, X)):
            docs = [{p: v} for v in V] + [{q: v} for v in V] + [[v] for v in V]
            yield sem.case({'properties': {p: x, q: y}}, docs, d)
            if '\u0000' in q:
                continue
            for k in (p, q):
                u = ''.join('%%%02X' % c if chr(c) in '%# ' or c > 126 else chr(c) for c in esc(k).encode())
                yield sem.case({'properties': {p: x, q: y}, 'items': {'$ref': '#/properties/' + u}}, docs, d)
                yield sem.case({'definitions': {q: y, p: x}, 'items': {'$ref': '#/definitions/' + u},
                                'additionalProperties': {'$ref': '#/definitions/' + u}}, docs, d)
    yield sem.case({'items': [ST, IN], 'properties': {'items': {'properties': {'0': NL}}}},
                   [[a, b] for a in V for b in V] + [{'items': {'0': v}} for v in V], d)
    yield sem.case({'items': [{'items': [ST, IN]}, {'items': [IN, ST]}], 'additionalItems': {'items': [NL]}},
                   [[[a], [b], [c]] for a in V for b in V for c in V], d)
    for k in ('allOf', 'anyOf', 'oneOf'):
        yield sem.case({k: [{k: [ST, IN]}, {k: [IN, NL]}]}, V + [True], d)
        yield sem.case({'properties': {k: {'items': [ST]}}, k: [{'properties': {'0': IN, k: {}}}]},
                       [{k: [v]} for v in V] + [{'0': v} for v in V], d)


def spelled_ids(d):
    """Identifiers that spell the path of another subschema."""
    k = '$id' if d == 7 else 'id'
    for ident in ('/properties/b', '#/properties/b', 'properties/b', '/', 'b', 'http://x.org/t#/properties/b', 'http://x.org/t',
                  '/t', 't', '#b', '?b', '/definitions/q', '#/definitions/q', 'http://x.org/t/properties/b', 'properties'):
        for root in ('', 'http://x.org/t', 'http://x.org/t#', '/t', 't'):
            base = {k: root} if root else {}
            a, b, q = dict({k: ident}, type='string'), {'type': 'integer'}, {'type': 'null'}
            docs = [{n: v} for n in 'abc' for v in V]
            if '#/' in ident:
                continue      # not a legal identifier
            yield sem.case(dict(base, properties={'a': a, 'b': b}), docs, d)
            yield sem.case(dict(base, properties={'b': b, 'a': a}), docs, d)
            yield sem.case(dict(base, properties={'b': b, 'a': a, 'c': {'$ref': '#/properties/b'}}), docs, d)
            yield sem.case(dict(base, definitions={'q': q}, properties={'a': a, 'b': {'$ref': '#/definitions/q'}}), docs, d)
            yield sem.case(dict(base, properties={'c': {'$ref': '#/properties/b'}, 'a': dict(a, properties={'b': q}, type='object'), 'b': b}),
                           docs + [{'a': {'b': v}} for v in V], d)


def like_uris(d):
    """Remote documents under URIs that differ in one place; equal pointers in different documents."""
    k = '$id' if d == 7 else 'id'
    base = 'http://h.org/d/main'
    pairs = [('http://h.org/d/r', 'http://h.org/d/R'), ('http://h.org/d/r', 'http://h.org/d/r/'), ('http://h.org/d/r', 'https://h.org/d/r'),
             ('http://h.org/d/r', 'http://h.org:81/d/r'), ('http://h.org/d/r?a=1', 'http://h.org/d/r?a=2'), ('http://h.org/d/r', 'http://h.org/d/r?'),
             ('http://h.org/d/r', 'http://h.org/e/r'), ('http://h.org/d/r', 'http://i.org/d/r'), ('http://h.org/d/r.json', 'http://h.org/d/r'),
             ('http://h.org/d/%41', 'http://h.org/d/A'), ('http://h.org/d/r1', 'http://h.org/d/r10'), ('urn:ex:a', 'urn:ex:b'),
             ('http://h.org/d/' + 'n' * 200 + '1', 'http://h.org/d/' + 'n' * 200 + '2'), ('http://h.org/d/r', 'urn:ex:http:h.org')]
    docs = [{p: v} for p in 'abcd' for v in V] + [[v] for v in V]
    for u, w in pairs:
        rem = {u: dict(ST, definitions={'t': NL}), w: dict(IN, definitions={'t': ST})}
        for order in ((u, w), (w, u)):
            s = {k: base, 'definitions': {'t': IN}, 'properties': {'a': {'$ref': order[0]}, 'b': {'$ref': order[1]}},
                 'items': {'$ref': '#/definitions/t'}}
            yield sem.case(s, docs, d, remotes=rem)
            s = {k: base, 'definitions': {'t': IN}, 'properties': {
                'a': {'$ref': order[0] + '#/definitions/t'}, 'b': {'$ref': order[1] + '#/definitions/t'},
                'c': {'$ref': '#/definitions/t'}, 'd': {'$ref': order[0]}}}
            yield sem.case(s, docs, d, remotes=rem)
            s.pop(k)
            yield sem.case(s, docs, d, remotes=rem)
            yield sem.case(s, docs, d, remotes={order[0]: rem[order[0]]})
        # as identifiers inside one document
        if '?' in u or '?' in w or u.startswith('urn') or w.startswith('urn'):
            continue
        s = {k: base, 'definitions': {'x': dict({k: u}, **rem[u]), 'y': dict({k: w}, **rem[w]), 't': IN},
             'properties': {'a': {'$ref': u}, 'b': {'$ref': w}, 'c': {'$ref': u + '#/definitions/t'}, 'd': {'$ref': w + '#/definitions/t'}},
             'items': {'$ref': '#/definitions/t'}}
        yield sem.case(s, docs, d)


def c06(d):
    import itertools as it
    return list(it.chain(shared(d) if d != 3 else [], equal_names(d), spelled_paths(d), spelled_ids(d)))


def c07(d):
    return list(like_uris(d))


def extends_shared():
    R, Q = {'$ref': '#/definitions/x'}, {'$ref': '#/definitions/y'}
    for kids in itertools.product((R, Q), repeat=3):
        yield sem.case({'definitions': {'x': ST, 'y': IN}, 'extends': list(kids)}, V, 3)
        yield sem.case({'definitions': {'x': ST, 'y': IN}, 'type': list(kids)}, V, 3)
