"""C22: containers that store every scalar as text, and the string adapter."""
import itertools
import re

from . import core, gen, run, sem
from .enc import Lit, enc, num, text
from .gen import Gen
from .props_lib import BLANK, LITS, NAMES, SCALARS, tree_rows
from .props_sem import VERD, enum_batches

LOOSE = ['ptree', 'yaml', 'yamltext']
MODES = ((0, 1), (1, 1), (0, 0))
NONULL = [x for x in SCALARS if not (isinstance(x, str) and '\0' in x)]


def texts(v):
    """Scalars as text, null excepted."""
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, Lit):
        return str.__str__(v)
    if isinstance(v, list):
        return [texts(x) for x in v]
    if isinstance(v, dict):
        return {k: texts(x) for k, x in v.items()}
    return v


def held(v, lib):
    """What a container of that kind holds of a value."""
    v = texts(v)
    if lib != 'ptree':
        return v
    # a property tree is text, or children of which some are named (an object) or none (an array)
    if v is None or v == '' or v == {}:
        return []
    if isinstance(v, list):
        return [held(x, lib) for x in v]
    if isinstance(v, dict):
        w = {k: held(x, lib) for k, x in v.items()}
        return list(w.values()) if set(w) == {''} else w
    return v


def paired(t):
    """Whether a text has surrogate pairs of escapes."""
    return re.search(r'\\ud[89ab]', t) is not None


def given(v, lib):
    return v if lib == 'yamltext' else texts(v)


def loose_case(schema, docs, draft, lib, modes=MODES, slib='rapidjson'):
    """The document, and perhaps the schema, in a loosely typed container."""
    c = sem.case(held(schema, slib) if slib in LOOSE else schema, [given(d, lib) for d in docs], draft, modes=modes, combos=[[slib, lib]])
    if slib in LOOSE:
        c['schema'] = text(given(schema, slib))
        c['destroy'] = True       # overwritten in place, then destroyed, before the validations
    c['_']['docs'] = [held(d, lib) for d in docs]
    return c


def plain(r, depth):
    x = r.random()
    if depth == 0 or x < .35:
        return r.choice(NONULL + LITS)
    if x < .65:
        return [plain(r, depth - 1) for _ in range(r.choice([0, 1, 2, 3, 6]))]
    return {n: plain(r, depth - 1) for n in r.sample(NAMES, r.choice([0, 1, 2, 3, 5]))}


def c22(ctx):
    exe = run.build(ctx.work, ['rapidjson', 'nlohmann'], extra=['ops.cpp', 'lib_loose.cpp'])
    r = ctx.rng
    ctx.rule.append('Trees of text, sequences and maps as Boost property trees and YAML nodes (built through their interfaces and read from YAML text): every '
                    'node seen through iteration, lookup, sizes and casts. Verdicts: every keyword against the literals and containers of C10, in weak '
                    'and strong mode, then random schemas; the schema, too, may be held by such a container. Equality of such trees with each other and '
                    'with strictly typed ones. The string adapter takes part through propertyNames. Non-trivial: accepts some and rejects some documents.')
    for lib in LOOSE:
        base = [BLANK] + LITS + NONULL + [[x] for x in NONULL] + [{'a': x} for x in NONULL] + [{n: 'v'} for n in NAMES if n] + [[], {}, [[]], [{}], {'a': []}, {'a': {}}, {'': 'x'}]
        some = [plain(r, r.choice([1, 2, 3])) for _ in range(ctx.budget(500, 6000))]
        loose_trees(ctx, exe, base + some, lib)
    # names of members, seen through the string adapter
    names = list(dict.fromkeys(v for v in LITS + NONULL + NAMES if type(v) is str and v))
    tree_rows(ctx, exe, names, ['string'])
    lits = LITS + ['0', '1', '', 'true', 'null', '9', '10', '3.25', '-7']
    vals = lits + [None, [], {}, ['1'], [''], {'a': '1'}, [[]], [{}], ['x', '2'], {'a': 'x', 'b': '2'}, {'a': []}, ['1', '1'], ['1', '1.0']]
    cases = [loose_case(s, vals, d, lib) for lib in LOOSE for d, s in keyword_schemas()]
    cases += [sem.case(s, names + [''], d, modes=((1, 1),), combos=[['rapidjson', 'string']]) for d, s in keyword_schemas()]
    cases += [sem.case(s, names, d, modes=((0, 1), (0, 0)), combos=[['rapidjson', 'string']]) for d, s in keyword_schemas()]
    cases += [sem.case({k: v if k == 'const' else ['zz', v]}, names + [''], 7, modes=((1, 1), (0, 1)), combos=[['rapidjson', 'string']]) for v in names[::2] for k in ('const', 'enum')]
    eqv = [v for v in vals if v not in ('', None, [], {}, [''], [[]], [{}]) and not isinstance(v, dict)]
    for lib in LOOSE:
        for v in eqv:
            cases.append(loose_case({'const': v}, eqv, 7, lib, modes=((1, 1),)))
            cases.append(loose_case({'enum': ['zz', v]}, eqv, 4, lib, modes=((1, 1),)))
            for slib in LOOSE:
                cases.append(loose_case({'enum': [v, ['k']]}, eqv, 4, lib, modes=((1, 1),), slib=slib))
        for d, s in keyword_schemas():
            for slib in LOOSE:
                cases.append(loose_case(s, vals[::3] + vals[-12:], d, lib, slib=slib))
    enum_batches(ctx, exe, cases, VERD)
    loose_equality(ctx, exe)

    def make():
        d = r.choice([3, 4, 7, 7])
        w = {k: v for k, v in gen.DEFAULT_WEIGHTS.items() if k not in ('const', 'enum')}
        g = Gen(r, d, w, weak=True, depth=r.choice([1, 2, 3]))
        s = g.root()
        docs = g.docs(s, 6)
        if not gen.valid_numbers([s] + docs):
            return None
        slib = r.choice(LOOSE) if r.random() < .4 else r.choice(['rapidjson', 'nlohmann'])
        slib = 'yaml' if slib == 'yamltext' else slib
        return loose_case(s, docs, d, r.choice(LOOSE), slib=slib)
    core.sv_campaign(ctx, exe, make, VERD + ('errs',), ctx.budget(16, 300))


def keyword_schemas():
    n = num
    for d in (3, 4, 7):
        for t in gen.TYPES:
            yield d, {'type': t}
            yield d, {'items': {'type': t}}
        yield d, {'type': ['integer', 'object']}
        for k in ('minimum', 'maximum'):
            for x in ('1', '1.5', '10'):
                yield d, {k: n(x)}
                yield d, ({'exclusiveM' + k[1:]: n(x)} if d == 7 else {k: n(x), 'exclusiveM' + k[1:]: True})
        yield d, {'divisibleBy' if d == 3 else 'multipleOf': n('0.5')}
        yield d, {'divisibleBy' if d == 3 else 'multipleOf': n(2)}
        for k in ('minLength', 'maxLength', 'minItems', 'maxItems') + (('minProperties', 'maxProperties') if d != 3 else ()):
            for x in (0, 1, 2):
                yield d, {k: n(x)}
        for p in ('^$', '1', '^[0-9]+$', 'e$'):
            yield d, {'pattern': p}
        yield d, {'uniqueItems': True}
        yield d, {'uniqueItems': False}
        yield d, {'properties': {'a': {'type': 'integer'}}, 'additionalProperties': False}
        yield d, {'properties': {'a': {'type': 'string'}}, 'additionalProperties': {'type': 'integer'}}
        yield d, {'patternProperties': {'^a': {'type': 'integer'}}, 'additionalProperties': {'type': 'null'}}
        yield d, {'items': [{'type': 'integer'}], 'additionalItems': False}
        yield d, {'items': [{'type': 'string'}], 'additionalItems': {'type': 'integer'}}
        yield d, {'dependencies': {'a': ['b']}}
        yield d, {'dependencies': {'a': {'maxProperties': n(1)}}}
        yield d, {'format': 'ipv4'}
        yield d, {'title': 'a', 'description': 'b', 'definitions': {'x': {'type': 'integer'}}, 'items': {'$ref': '#/definitions/x'}}
        if d == 3:
            yield d, {'extends': {'type': 'integer'}}
            yield d, {'extends': [{'type': 'string'}]}
            yield d, {'type': ['integer', {'properties': {'a': {'type': 'string', 'required': True}}}]}
            yield d, {'dependencies': {'a': 'b'}}
            yield d, {'properties': {'a': {'required': True}, 'b': {'required': False}}}
            continue
        yield d, {'required': ['a']}
        yield d, {'contains': {'type': 'integer'}}
        yield d, {'allOf': [{'type': 'string'}, {'minLength': n(2)}]}
        yield d, {'anyOf': [{'type': 'integer'}, {'type': 'array'}]}
        yield d, {'oneOf': [{'type': 'integer'}, {'type': 'number'}]}
        yield d, {'not': {'type': 'string'}}
        if d == 7:
            yield d, {'if': {'type': 'integer'}, 'then': {'minimum': n(2)}, 'else': {'type': 'array'}}
            yield d, {'items': False}
            yield d, {'not': True}
            yield d, {'propertyNames': {'maxLength': n(1)}}
            yield d, {'propertyNames': {'type': 'integer'}}
            yield d, {'contains': True}


def loose_trees(ctx, exe, docs, lib):
    """tree_rows, with the text that is given and the value that is held apart."""
    back = {}
    for d in docs:
        if d is not BLANK and not (lib == 'yamltext' and paired(text(d))):      # yaml-cpp does not read pairs of escapes
            back.setdefault(text(given(d, lib)), d)
    keep = [d for d in docs if d is BLANK] + list(back.values())
    tree_rows(ctx, exe, keep, [lib], strict=False, meaning=lambda d: held(d, lib), spell=lambda d: text(given(d, lib)))


def loose_equality(ctx, exe):
    """Strict comparison, directly, with a frozen copy and with its clone."""
    r = ctx.rng
    libs = LOOSE + ['rapidjson', 'nlohmann']
    pairs = [p for p in itertools.product(libs, repeat=2) if p[0] in LOOSE or p[1] in LOOSE]
    small = ['a', 'A', '1', '1.0', 'true', ['a'], ['a', 'b'], ['b', 'a'], ['a', 'a'], [['a']], {'k': 'a'}, {'k': 'b'}, {'l': 'a'}, {'k': 'a', 'l': 'b'}, {'l': 'b', 'k': 'a'},
             {'k': 'b', 'l': 'a'}, {'k': ['a']}, [{'k': 'a'}], {'k': {'k': 'a'}}, {'k': 'a', 'l': 'b', 'm': 'c'}]
    cases, rows, back = [], [], []
    sets = [small]
    for _ in range(ctx.budget(60, 800)):
        g = Gen(r, 7)
        v = nonempty(texts(plain(r, 2)))
        s = [v]
        for _ in range(6):
            w = nonempty(texts(g.vary(r.choice(s))))
            s.append(w)
        sets.append(s)
    for s in sets:
        use = [p for p in pairs if 'yamltext' not in p or not any(paired(text(v)) for v in s)]
        cases.append({'op': 'eq', 'pairs': [list(p) for p in (use if s is small else r.sample(use, 4))], 'docs': [text(v) for v in s], 'strict': True})
    strs = ['a', 'A', '1', '1.0', 'true', 'null', ' ', 'a ', 'ab', '\u00e9', 'e\u0301']
    sets.append(strs)
    cases.append({'op': 'eq', 'pairs': [list(p) for x in ('string', 'rapidjson', 'nlohmann', 'ptree', 'yaml') for p in (('string', x), (x, 'string'))],
                  'docs': [text(v) for v in strs], 'strict': True})
    for c, s, o in zip(cases, sets, run.drive(ctx.work, exe, cases)):
        if isinstance(o, dict):
            ctx.violation('crash comparing %s' % c['docs'], {'kind': 'raw', 'case': c, 'key': None})
            continue
        for p, (e, f, g) in zip(c['pairs'], o):
            rows.append({'id': len(rows), 'k': 'eq', 'vals': [enc(v) for v in s], 'eq': list(e), 'fr': list(f), 'cl': list(g)})
            back.append((c, p, (e, f, g)))
            ctx.cov['evaluations'] += len(e)
            ctx.cov['traces_validated_against_impl'] += 1
    bad, st = run.check_rows(ctx.work, 'TTree', rows)
    ctx.states(*st)
    for i, w in bad:
        c, p, o = back[i]
        ctx.violation('comparing %s as %s: %s; wrong at %s' % (c['docs'], p, o, w), {'kind': 'raw', 'case': dict(c, pairs=[p]), 'key': None})


def nonempty(v):
    """Without what a property tree cannot tell apart."""
    if v is None or v == '' or v == [] or v == {}:
        return 'e'
    if isinstance(v, list):
        return [nonempty(x) for x in v]
    if isinstance(v, dict):
        return {k or 'e': nonempty(x) for k, x in v.items()}
    return v
