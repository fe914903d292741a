"""C06, C07, C16, C21: loading - references, remote documents, malformed schemas, cycles."""
import itertools
import json
import os

from . import big, core, gen, run, sem, twins
from .enc import enc, num, text
from .gen import Gen
from .refs import RefGen, DEFNAMES
from .props_sem import RAP, TWO, VERD, enum_batches

DOCS = [num(1), 'ab', None, [], [num(1)], ['ab'], {}, {'a': num(1)}, {'a': 'ab'}]
STR = {'type': 'string'}


def esc(t):
    return t.replace('~', '~0').replace('/', '~1')


def pct(t, every=False):
    return ''.join('%%%02X' % b if every or chr(b) in '%#" ^?<>' or b > 126 else chr(b) for b in t.encode())


def c06(ctx):
    exe = run.build(ctx.work, ['rapidjson', 'nlohmann'])
    ctx.rule.append('Enumerated: every name of a list of awkward definition names in plain, percent-encoded and fully '
                    'encoded form, as a pointer from the root, from inside identified resources and through their '
                    'URIs; a table of identifier forms x reference forms x position; chains of one to four '
                    'references; broken references of every kind. Random: schemas with references, identifiers and '
                    'anchors at any position; reference graphs of module VLoader with every addressing mechanism. Non-trivial: accepts some and rejects some documents, or must not load.')

    def cases():
        for d in (3, 4, 7):
            idk = '$id' if d == 7 else 'id'
            for n in DEFNAMES + gen.ODD_NAMES:
                for enc in {pct(esc(n)), pct(esc(n), True), esc(n).replace('%', '%25')}:
                    if not n:
                        continue
                    r = '#/definitions/' + enc
                    other = {'a': {'type': 'null'}, 'zz': {'type': 'array'}}
                    defs = dict(other, **{n: STR})
                    yield sem.case({'definitions': defs, '$ref': r}, DOCS, d, combos=TWO)
                    yield sem.case({'definitions': defs, 'properties': {'a': {'$ref': r}}, 'items': {'$ref': r}}, DOCS, d)
                    yield sem.case({'definitions': {'r': {idk: 'http://x.org/s', 'definitions': defs, 'items': {'$ref': r}}},
                                    idk: 'http://x.org/t', 'allOf': [{'$ref': 's'}, {'properties': {'a': {'$ref': 's' + r}}}]},
                                   DOCS, d)
                    yield sem.case({'properties': {n: STR, 'a': {'$ref': '#/properties/' + enc}}}, DOCS, d)
                    yield sem.case({'definitions': {n: {'items': [STR, {'type': 'null'}]}},
                                    'items': {'$ref': r + '/items/0'}, 'properties': {'a': {'$ref': r + '/items/1'}}}, DOCS, d)
            for ident, refs in [('leaf', ['leaf', '/d/leaf', 'http://x.org/d/leaf', 'leaf#', './leaf', '../d/leaf', 'nope', '#leaf']),
                                ('#nm', ['#nm', 'http://x.org/d/root#nm', 'root#nm', '/d/root#nm', '#nn', '#/nm', 'nm']),
                                ('http://o.org/q', ['http://o.org/q', 'http://o.org/q#', 'http://o.org/', 'http://o.org/q#/x']),
                                ('sub/leaf#', ['sub/leaf', 'http://x.org/d/sub/leaf', 'leaf', 'sub/leaf#/minLength']),
                                ('/abs', ['/abs', 'http://x.org/abs', '../abs', 'abs']),
                                ('urn:ex:a', ['urn:ex:a', 'urn:ex:a#', 'urn:ex:b']),
                                ('leaf', ['leaf#/definitions/q', 'http://x.org/d/leaf#/definitions/q', 'leaf#/definitions/nope',
                                          'leaf#nope', '#/definitions/s/definitions/q'])]:
                for ref in refs:
                    s = {idk: ident, 'type': 'string', 'definitions': {'q': {'type': 'integer'}}}
                    yield sem.case({idk: 'http://x.org/d/root', 'definitions': {'s': s}, 'properties': {'a': {'$ref': ref}}}, DOCS, d,
                                   combos=TWO)
                    yield sem.case({idk: 'http://x.org/d/root', 'properties': {'a': {'$ref': ref}}, 'items': {'allOf': [{'$ref': ref}]},
                                    'x-defs': {'s': {'items': [s]}}}, DOCS, d)
                    yield sem.case({idk: 'http://x.org/d/root#', 'definitions': {'s': s, 't': {'$ref': ref}}, '$comment': 'x',
                                    'allOf': [{'$ref': '#/definitions/t'}]}, DOCS, d)
            # one resource inside another: '#' means the enclosing resource
            inner = {idk: 'in/', 'definitions': {'k': {'type': 'integer'}}, 'properties': {'a': {'$ref': '#/definitions/k'}}}
            yield sem.case({idk: 'http://x.org/d/root', 'definitions': {'k': STR, 'r': inner},
                            'allOf': [{'$ref': 'in/'}], 'items': {'$ref': '#/definitions/k'}}, DOCS, d)
            deep = {idk: 'http://x.org/d/root', 'definitions': {'k': STR}, 'items': {
                idk: 'one/', 'definitions': {'k': {'type': 'integer'}}, 'items': {
                    idk: 'two', 'definitions': {'k': {'type': 'null'}}, 'items': {'$ref': '#/definitions/k'},
                    'properties': {'a': {'$ref': 'two#/definitions/k'}, 'b': {'$ref': '/d/root#/definitions/k'},
                                   'c': {'$ref': '../one/#/definitions/k'}}}}}
            dd = [[[[x]]] for x in ('s', num(1), None)] + [[[{k: x}]] for k in 'abc' for x in ('s', num(1), None)]
            yield sem.case(deep, dd, d)
            # chains
            for n in range(1, 5):
                defs = {'d%d' % i: {'$ref': '#/definitions/d%d' % (i + 1)} for i in range(n)}
                defs['d%d' % n] = STR
                yield sem.case({'definitions': defs, '$ref': '#/definitions/d0'}, DOCS, d)
                yield sem.case({'definitions': defs, 'items': {'$ref': '#/definitions/d0'}, 'properties': {
                    'a': {'$ref': '#/definitions/d%d' % n}}}, DOCS, d)
                defs2 = dict(defs)
                defs2['d%d' % n] = {'$ref': '#/definitions/d0'}
                yield sem.case({'definitions': defs2, 'items': {'$ref': '#/definitions/d0'}}, DOCS, d)
                defs3 = dict(defs)
                defs3['d%d' % n] = {'$ref': '#/definitions/gone'}
                yield sem.case({'definitions': defs3, 'items': {'$ref': '#/definitions/d0'}}, DOCS, d)
            # recursion through every descending keyword, and '#' itself
            for body in ({'items': {'$ref': '#'}}, {'properties': {'a': {'$ref': '#'}}}, {'additionalProperties': {'$ref': '#'}},
                         {'items': [{'$ref': '#'}], 'additionalItems': {'$ref': '#'}}, {'patternProperties': {'.': {'$ref': '#'}}},
                         {'contains': {'$ref': '#'}}):
                s = dict(body, type=['array', 'object', 'integer'])
                dd = DOCS + [[[num(1)]], [['x']], {'a': {'a': num(1)}}, {'a': {'a': 'x'}}, [{'a': [num(2)]}], {'a': [{'a': 'q'}]}]
                yield sem.case(s, dd, d)
                yield sem.case({idk: 'http://x.org/d/root', **{k: sub(v, '#', 'root') for k, v in s.items()}}, dd, d)
                yield sem.case({'definitions': {'n': sub(s, '#', '#/definitions/n')}, '$ref': '#/definitions/n'}, dd, d)
                yield sem.case({'definitions': {'n': sub(s, '#', '#/definitions/n')}, 'not': {'$ref': '#/definitions/n'}}, dd, d)
            # siblings of a reference are ignored
            for k, v in (('type', 'null'), ('minLength', num(99)), (idk, 'http://other/'), ('definitions', {'x': {'type': 'null'}})):
                yield sem.case({'definitions': {'x': STR}, 'items': {k: v, '$ref': '#/definitions/x'}}, DOCS, d)
            for bad in (num(1), None, [], {}, True, '#/definitions/q', '#definitions/x', '#/definitions/x/y', '#/definitions/x/type/0',
                        '#/definitions/%', '#/definitions/%7', '#/definitions/%GG', '#//definitions', '#/definitions/y/items/2',
                        '#/definitions/y/items/-', '#/definitions/y/items/00', '#/definitions/y/items/+1', '#/definitions/y/items/ 1',
                        '#/definitions/y/items/1x', '#/definitions/y/items/4294967296', '#/definitions/y/items/18446744073709551616',
                        'x.json', 'http://nowhere/', 'x#y'):
                yield sem.case({'definitions': {'x': STR, 'y': {'items': [STR, STR]}}, 'items': {'$ref': bad}}, DOCS, d)
    cs = [c for c in itertools.chain(cases(), *(itertools.chain(big.c06(d), twins.c06(d)) for d in (3, 4, 7))) if not lenient(c['_']['schema'])]
    enum_batches(ctx, exe, cs, VERD)
    graph_cases(ctx, exe, {'any': 120, 'chain5': 120}, lambda b: b['out'] == 'ok')

    def make():
        return RefGen(ctx.rng, ctx.rng.choice([3, 4, 7, 7]), refp=ctx.rng.choice([.2, .35])).case(combos=TWO)
    core.sv_campaign(ctx, exe, make, VERD, ctx.budget(28, 600))


def lenient(s):
    """References that only the lenient reading of empty tokens concerns."""
    if isinstance(s, list):
        return any(lenient(x) for x in s)
    if isinstance(s, dict):
        r = s.get('$ref')
        return (isinstance(r, str) and '//' in r.split('#')[-1] and '#' in r) or any(lenient(x) for x in s.values())
    return False


def sub(v, a, b):
    if isinstance(v, list):
        return [sub(x, a, b) for x in v]
    if isinstance(v, dict):
        return {k: (b if k == '$ref' and x == a else sub(x, a, b)) for k, x in v.items()}
    return v


# ---------------------------------------------------------------- C07
def c07(ctx):
    # use of documents after they were freed, and leaks, show under AddressSanitizer
    exe = run.build(ctx.work, ['rapidjson', 'nlohmann'], san=True)
    ctx.rule.append('TLC enumerates every reference graph over the main document and two remote documents with every '
                    'assignment of {available, missing, throwing, malformed} to the remote documents (module VFetch, '
                    'with its own invariants checked); every such behaviour is replayed into the code and its callback '
                    'log, outcome and verdicts are compared. Random: schema bundles of one to three remote documents '
                    'with relative URIs, identifiers, anchors and faults. Non-trivial: something is fetched.')
    fetch_graphs(ctx, exe)
    asp = ('load', 'verdict', 'fetch')
    for d in (3, 4, 7):
        core.sv_batch(ctx, exe, list(itertools.chain(big.c07(d), twins.c07(d))), asp, after=free_log)

    def make():
        r = ctx.rng
        c = RefGen(r, r.choice([3, 4, 7, 7]), remotes=r.choice([1, 1, 2, 3])).case(combos=TWO)
        if c is None:
            return None
        x = r.random()
        if x < .12:
            c['fetch'] = False
            c['_']['fetch'] = False
        elif x < .3 and c['remotes']:
            # not the main document's own URI: positions of the main document may be known without fetching it
            root = c['_']['schema']
            own = {str(root.get(k)).split('#')[0] for k in ('id', '$id')} if isinstance(root, dict) else set()
            us = [u for u in sorted(c['remotes']) if u not in own]
            if not us:
                return c
            u = r.choice(us)
            if r.random() < .5:
                c['throwing'] = [u]
            else:
                del c['remotes'][u]
            del c['_']['remotes'][u]
        return c
    core.sv_campaign(ctx, exe, make, asp, ctx.budget(22, 500), batch=1000, after=free_log)
    make2 = lambda: (lambda c: c and dict(c, combos=[list(x) for x in RAP], destroy=True))(make())
    core.sv_campaign(ctx, exe, make2, asp, ctx.budget(10, 200), batch=800, after=free_log)


def free_log(ctx, c, o):
    """Every fetched document is freed exactly once, after the last fetch."""
    if isinstance(o, dict):
        return
    for oc in o:
        log = oc.get('log', [])
        held = set()
        why = None
        for k, u, how in log:
            if k == 'fetch':
                if how == 'doc':
                    held.add(u)
            elif u not in held:
                why = 'freed a document that is not held: %s' % u
            else:
                held.discard(u)
        if held:
            why = 'not freed: %s' % sorted(held)
        if why:
            ctx.violation('%s; log %s; draft %d schema %s remotes %s' % (why, log, c['draft'], c['schema'], c.get('remotes')),
                          {'kind': 'sv', 'case': {k: v for k, v in c.items() if k != '_'}, 'asp': ['noload'], 'log': log,
                           'key': core.case_key(c)})
            return


def fetch_graphs(ctx, exe):
    beh, st = run.behaviours(ctx.work, 'VFetch', {'NR': 2, 'Faults': '{"ok", "missing", "throw", "bad"}'},
                             inv=['TypeOK', 'NeverTwice', 'FreedOnce', 'CleanEnd', 'OutcomeRight'], props=['Terminates'])
    ctx.states(*st)
    ctx.add('fetch_behaviours', len(beh))
    urls = ['', 'http://h.org/d/one.json', 'http://h.org/e/two']
    forms = {(0, 1): 'one.json', (0, 2): '../e/two', (1, 2): 'http://h.org/e/two#', (2, 1): '/d/one.json#/definitions/t',
             (1, 1): '#/definitions/u', (2, 2): 'two#/definitions/u'}
    cases, kept = [], []
    for b in beh:
        remotes, throwing = {}, []
        for i in (1, 2):
            # property names keep the positions distinct; the value has to be a string at the end of the chain
            props = {'p%d' % j: {'$ref': forms[(i, j)]} for j in b['g'][i]}
            doc = {'type': ['object', 'string'], 'properties': props,
                   'definitions': {'t': {'type': ['object', 'string'], 'properties': dict(props)}, 'u': {'type': 'string'}}}
            if b['f'][i - 1] == 'bad':
                doc = {'type': 'nonsense', 'definitions': {'t': {'type': 'nonsense'}, 'u': {'type': 'nonsense'}}, 'properties': props}
            if b['f'][i - 1] == 'throw':
                throwing.append(urls[i])
            if b['f'][i - 1] in ('ok', 'bad'):
                remotes[urls[i]] = doc
        main = {('$id' if len(kept) % 2 else 'id'): 'http://h.org/d/main.json', 'properties': {'p%d' % j: {'$ref': forms[(0, j)]} for j in b['g'][0]}}
        d = 7 if len(kept) % 2 else 4
        docs = [{}, {'p1': 'x', 'p2': num(1)}, {'p1': {'p1': num(1)}}, {'p1': {'p2': num(1)}}, {'p2': {'p1': {'p2': num(1)}}}, {'p2': {'p2': num(1)}}]
        c = sem.case(main, docs, d, remotes=remotes, fetch=True, combos=RAP)
        if throwing:
            c['throwing'] = throwing
        cases.append(c)
        kept.append(b)
    obs = core.sv_batch(ctx, exe, cases, ('load', 'verdict', 'fetch'), after=free_log)
    for c, b, o in zip(cases, kept, obs):
        if isinstance(o, dict):
            continue
        got = 'ok' if o[0]['load'] == 'ok' else 'err'
        asked = sorted({urls.index(e[1]) for e in o[0].get('log', []) if e[0] == 'fetch' and e[1] in urls})
        if got != b['out'] or (got == 'ok' and asked != sorted(b['asked'])):
            ctx.violation('VFetch behaviour %s: observed %s asking %s; schema %s' % (json.dumps(b), got, asked, c['schema']),
                          {'kind': 'sv', 'case': {k: v for k, v in c.items() if k != '_'}, 'asp': ['load', 'verdict', 'fetch'],
                           'key': core.case_key(c)})
    # only one of the two callbacks
    half = []
    for k in ('onlyfetch', 'onlyfree'):
        for s in ({'type': 'string'}, {'items': {'$ref': 'http://r.org/x'}}):
            c = sem.case(s, [], 7, combos=TWO)
            c[k] = True
            half.append(c)
    for c, o in zip(half, run.drive(ctx.work, exe, [sem.strip(c) for c in half], parts=1)):
        if isinstance(o, dict) or any(x['load'] != 'err' or x.get('log') for x in o):
            ctx.violation('loading with only one of the fetch and free callbacks: %s' % json.dumps(o)[:300],
                          {'kind': 'sv', 'case': {k: v for k, v in c.items() if k != '_'}, 'asp': [], 'key': core.case_key(c)})


# ---------------------------------------------------------------- C16
JUNK = [None, True, False, num(0), num(1), num(-1), num('1.5'), num('2.0'), num('-0.5'), '', 'x', 'string', '1', 'true', [], [num(1)], ['a'],
        ['a', 'a'], [{}], [True], [['a']], ['string', 'null'], ['any'], ['string', num(3)], [{'type': 'null'}], {}, {'a': num(1)}, {'a': {}},
        {'a': ['b']}, {'a': 'b'}, {'a': True}, {'a': []}, {'a': [num(1)]}, {'a': None}, {'type': 'string'}, {'type': 'nonsense'}, [None], [{}, num(1)], 'any']
KWS = ['type', 'allOf', 'anyOf', 'oneOf', 'not', 'if', 'then', 'else', 'contains', 'items', 'additionalItems', 'dependencies', 'extends', 'title',
       'description', 'divisibleBy', 'multipleOf', 'enum', 'const', 'format', 'maximum', 'minimum', 'exclusiveMaximum', 'exclusiveMinimum', 'maxItems',
       'minItems', 'maxLength', 'minLength', 'maxProperties', 'minProperties', 'pattern', 'properties', 'patternProperties', 'additionalProperties',
       'propertyNames', 'required', 'uniqueItems', 'x-unknown', 'definitions', '$schema', 'default', 'readOnly', 'disallow']
WITH = {'then': {'if': {}}, 'else': {'if': {}}, 'additionalItems': {'items': [{}]}, 'exclusiveMaximum': {'maximum': num(1)},
        'exclusiveMinimum': {'minimum': num(1)}}
NEST = [lambda s: s, lambda s: {'properties': {'a': s}}, lambda s: {'items': s}, lambda s: {'items': [{}, s]}, lambda s: {'allOf': [{}, s]},
        lambda s: {'not': s}, lambda s: {'definitions': {'d': s}, 'properties': {'q': {'$ref': '#/definitions/d'}}},
        lambda s: {'dependencies': {'a': s}}, lambda s: {'additionalProperties': s}, lambda s: {'patternProperties': {'a': s}},
        lambda s: {'anyOf': [s]}, lambda s: {'oneOf': [s]}, lambda s: {'definitions': {'unused': s}}, lambda s: {'enum': [s]},
        lambda s: {'if': {}, 'then': s}, lambda s: {'if': s}, lambda s: {'items': [{}], 'additionalItems': s}, lambda s: {'contains': s},
        lambda s: {'propertyNames': s}, lambda s: {'extends': s}, lambda s: {'extends': [s]}, lambda s: {'type': ['string', s]}, lambda s: {'default': s}]


def junk_cases(combos=RAP):
    """Keywords with odd values, and documents: where the schema loads it also means something."""
    ds = [num(1), num('2.5'), 'a', 'string', None, True, [], [num(1)], ['a', 'a'], {}, {'a': num(1)}, {'b': 'x', 'a': 'b'}]
    for d in (3, 4, 7):
        for k in KWS:
            for v in JUNK:
                for base in ([{}, WITH[k]] if k in WITH else [{}]):
                    s = dict(base, **{k: v})
                    if not bad16(s, d):
                        yield sem.case(s, ds, d, combos=combos)


def c16(ctx):
    exe = run.build(ctx.work, ['rapidjson', 'nlohmann'], extra=['ops.cpp'])
    ctx.rule.append('Enumerated: every keyword x a list of %d values of every JSON type and shape x drafts 3, 4, 7 at the '
                    'root, and x every nesting position (a third of them per run, all in the thorough tier), each alone and with the '
                    'keyword it depends on; the outcome of loading is compared with the specification. Random: well-formed schemas with one '
                    'value replaced by junk. One parser reused over sequences of good and bad schemas.' % len(JUNK))

    def cases():
        for d in (3, 4, 7):
            for k in KWS:
                for v in JUNK:
                    for base in ([{}, WITH[k]] if k in WITH else [{}]):
                        for i, nest in enumerate(NEST):
                            if i and not ctx.thorough and ctx.rng.random() > .33:
                                continue
                            if d == 3 and (k == 'required' or (k == 'type' and (v == {} or v == [] or (isinstance(v, list) and {} in v)))) and \
                                    (k == 'type' or i == 9):
                                continue
                            yield sem.case(nest(dict(base, **{k: v})), [], d)
    enum_batches(ctx, exe, cases(), ('load',))
    enum_batches(ctx, exe, big.c16(), ('load',))
    enum_batches(ctx, exe, junk_cases(TWO), ('load', 'verdict'))

    def make():
        r = ctx.rng
        d = r.choice([3, 4, 7])
        g = Gen(r, d, {'enum': .3, 'const': .3} if r.random() < .5 else None, depth=r.choice([1, 2, 3]))
        s = g.root()
        if not isinstance(s, dict) or not s:
            return None
        s = json_copy(s)
        spoil(r, s, d)
        if not gen.valid_numbers([s]) or bad16(s, d):
            return None
        return sem.case(s, [num(1), 'a', {}, []] if r.random() < .3 else [], d, combos=TWO if r.random() < .3 else RAP)
    core.sv_campaign(ctx, exe, make, ('load',), ctx.budget(16, 300))
    reuse(ctx, exe)


def json_copy(v):
    if isinstance(v, list):
        return [json_copy(x) for x in v]
    if isinstance(v, dict):
        return {k: json_copy(x) for k, x in v.items()}
    return v


def spoil(r, s, d):
    """Replace one value somewhere in s."""
    spots = []

    def visit(v, here):
        for k, x in (v.items() if isinstance(v, dict) else enumerate(v)):
            spots.append((v, k))
            if isinstance(x, (dict, list)) and k not in ('enum', 'const', 'default'):
                visit(x, k)
    visit(s, None)
    v, k = r.choice(spots)
    v[k] = json_copy(r.choice(JUNK))
    if r.random() < .3 and isinstance(v, dict):
        v[r.choice(KWS)] = json_copy(r.choice(JUNK))


def bad16(s, d):
    """Draft 3 forms that are left out (see DESIGN.md)."""
    if d != 3:
        return False

    def visit(v):
        if isinstance(v, list):
            return any(visit(x) for x in v)
        if isinstance(v, dict):
            t = v.get('type')
            if t == {} or t == [] or (isinstance(t, list) and {} in t):
                return True
            if isinstance(v.get('patternProperties'), dict) and any(
                    isinstance(x, dict) and 'required' in x for x in v['patternProperties'].values()):
                return True
            return any(visit(x) for x in v.values())
        return False
    return visit(s)


def reuse(ctx, exe):
    """A parser that is used again after schemas it accepted or rejected."""
    r = ctx.rng
    rows, cases, meta = [], [], []
    for _ in range(ctx.budget(250, 3000)):
        d = r.choice([3, 4, 7])
        seq = []
        while len(seq) < r.randint(2, 6):
            x = r.random()
            if x < .45:
                c = RefGen(r, d, bad=.15).case(ndocs=2)
            else:
                g = Gen(r, d, depth=2)
                s = g.root()
                dd = g.docs(s, 2)
                if isinstance(s, dict) and s and x < .8:
                    s = json_copy(s)
                    spoil(r, s, d)
                c = sem.case(s, dd, d)
                if bad16(s, d) or not gen.valid_numbers([s] + c['_']['docs']):
                    continue
            if c:
                seq.append(c)
        docs = [x for c in seq for x in c['_']['docs']][:6]
        cases.append({'op': 'reuse', 'draft': d, 'schemas': [c['schema'] for c in seq], 'docs': [text(x) for x in docs]})
        meta.append((seq, docs))
    obs = run.drive(ctx.work, exe, cases)
    back = []
    for (seq, docs), o, c in zip(meta, obs, cases):
        for i, sc in enumerate(seq):
            full = sem.case(sc['_']['schema'], docs, sc['draft'])
            if isinstance(o, dict):
                ob = {'load': 'crash', 'fet': [], 'r': []}
            else:
                ob = {'load': o[i][0], 'fet': [], 'r': [{'v': x, 'w': x, 'n': 0, 'e': []} for x in o[i][1]]}
            rows.append({'id': len(rows), 'E': sem.env(full), 'vals': [enc(x) for x in docs],
                         'modes': full['modes'], 'asp': ['load', 'verdict'], 'obs': [ob]})
            back.append((c, i, ob))
    bad, st = run.check_rows(ctx.work, 'TSem', rows)
    ctx.states(*st)
    ctx.add('reuse_histories', len(cases))
    ctx.cov['traces_validated_against_impl'] += len(cases)
    for i, why in bad:
        c, k, ob = back[i]
        ctx.violation('parser used for %d schemas: schema %d (%s) observed %s (%s)' % (
            len(c['schemas']), k + 1, c['schemas'][k], json.dumps(ob)[:200], core.clean(why)),
            {'kind': 'raw', 'case': c, 'extra': ['ops.cpp'], 'key': None})


# ---------------------------------------------------------------- C21
def c21(ctx):
    exe = run.build(ctx.work, ['rapidjson'])
    ctx.rule.append('TLC enumerates every reference graph over the root and two more schema positions where each position is a '
                    'plain schema, a reference, or descends through properties or items or both to other positions, and every chain of up to six positions with every way back (module VLoader); it checks '
                    'that the loader terminates, fails exactly on reference-only cycles and builds the unfolding, and each graph is '
                    'replayed into the code under several addressing mechanisms (pointers, anchors, identifiers, remote documents). '
                    'Random: recursive schema bundles and chains of up to 45 references that end, close, or lead back to somewhere on the way. Non-trivial: the graph has a cycle.')
    graph_cases(ctx, exe, {'any': 150, 'named3': 500, 'chain4': 400, 'chain5': 200, 'chain6': 100}, lambda b: True)
    # known to crash (pinned by an existing test): from the root into a cycle that does not lead back to the root
    known = [sem.case(s, [num(1)], d) for d in (3, 4, 7) for s in (
        {'$ref': '#/a', 'a': {'$ref': '#/a'}}, {'$ref': '#/foo', 'foo': {'$ref': '#/bar'}, 'bar': {'$ref': '#/foo'}})]
    core.sv_batch(ctx, exe, known, ('load',))

    def make():
        r = ctx.rng
        x = r.random()
        if x < .6:
            return RefGen(r, r.choice([4, 7]), refp=.5, remotes=r.choice([0, 0, 1, 2])).case(ndocs=4)
        # a pure cycle of references, somewhere below the root, through a mix of mechanisms
        return purecycle(r)
    core.sv_campaign(ctx, exe, make, ('load', 'verdict'), ctx.budget(20, 400))


def graph_cases(ctx, exe, want, pick, mechs=('ptr', 'noid', 'anchor', 'id', 'remote', 'mixed')):
    """Replay graphs of VLoader, want says how many of each kind at most (all of them in the thorough tier)."""
    docs = [num(1), 'x', {}, [], {'a': num(1)}, {'a': 'x'}, [num(1)], ['x'], {'a': {'a': num(1)}}, {'a': {'a': 'x'}}, [['x']], [[num(1)]],
            {'a': [num(1)]}, {'a': ['x']}, [{'a': num(1)}], [{'a': 'x'}], {'a': [{'a': 'x'}]}]
    cases = []
    for kind, most in want.items():
        shape, n = kind.rstrip('0123456789'), int(kind.lstrip('abcdefghijklmnopqrstuvwxyz') or 3)
        beh, st = run.behaviours(ctx.work, 'VLoader', {'N': n, 'Shape': '"%s"' % shape}, inv=['TypeOK', 'ErrRight', 'Unfolds'],
                                 props=['Terminates'] if n == 3 else [])
        ctx.states(*st)
        ctx.add('graphs_' + kind, len(beh))
        beh = [b for b in beh if pick(b)]
        for b in beh if ctx.thorough or len(beh) < most else ctx.rng.sample(beh, most):
            g = b['g']
            if rootcycle(g):
                ctx.add('root_cycles_left_out')
                continue
            for mech in mechs:
                if mech not in ('ptr', 'noid') and looping(g):
                    continue
                if (mech not in ('ptr', 'noid') or n > 3) and not ctx.thorough and ctx.rng.random() > .3:
                    continue
                c = concrete(ctx, g, mech, (docs if ctx.thorough else ctx.rng.sample(docs, 7)) + [follow(ctx.rng, g) for _ in range(4)])
                c['_graph'] = (b, mech)
                cases.append(c)
    pend = [{k: v for k, v in c.items() if k != '_graph'} for c in cases]
    for i in range(0, len(pend), 3000):
        obs = core.sv_batch(ctx, exe, pend[i:i + 3000], ('load', 'verdict'))
        for c, o in zip(cases[i:i + 3000], obs):
            b, mech = c['_graph']
            if isinstance(o, dict):
                continue          # reported by sv_batch
            got = 'ok' if o[0]['load'] == 'ok' else 'err'
            if got != b['out']:
                ctx.violation('VLoader says %s, observed %s: graph %s as %s: %s' % (b['out'], got, json.dumps(b['g']), mech, c['schema']),
                              {'kind': 'sv', 'case': {k: v for k, v in c.items() if k[0] != '_'}, 'asp': ['load', 'verdict'], 'key': core.case_key(c)})


def follow(r, g):
    """A document that the graph leads into, to some depth."""
    def at(i, n):
        k, t = g[i]['k'], g[i]['t']
        if k == 'leaf' or n == 0:
            return r.choice([num(1), 'x', 'x', [], {}])
        if k == 'ref':
            return at(t[0] - 1, n - 1)
        if k == 'prop' or (k == 'both' and r.random() < .5):
            return {'a': at(t[0] - 1, n - 1)}
        return [at(t[-1] - 1, n - 1) for _ in range(r.choice([1, 1, 1, 2]))]
    return at(0, r.randint(3, 8))


def looping(g):
    """Does a chain of references from the root never leave references?"""
    i, seen = 0, []
    while g[i]['k'] == 'ref':
        if i in seen:
            return True
        seen.append(i)
        i = g[i]['t'][0] - 1
    return False


def rootcycle(g):
    """... without coming back to the root?  (The known finding.)"""
    i = 0
    for _ in g:
        if g[i]['k'] != 'ref':
            return False
        i = g[i]['t'][0] - 1
        if i == 0:
            return False
    return looping(g)


def purecycle(r):
    d = r.choice([3, 4, 7])
    idk = '$id' if d == 7 else 'id'
    n = r.randint(1, 6) if r.random() < .8 else r.randint(7, 45)
    # the last one leads back to the first, or to somewhere on the way
    back = 0 if r.random() < .5 else r.randrange(n)
    base = 'http://h.org/d/root.json'
    main, rem = {idk: base, 'definitions': {}}, {}
    where = []
    noid = r.random() < .3          # a document without any identifier
    if noid:
        del main[idk]
    for i in range(n):
        where.append(r.choice(['def', 'nested'] if noid else ['def', 'def', 'rem', 'nested']))
    names = []
    for i, w in enumerate(where):
        names.append({'def': '#/definitions/d%d' % i, 'rem': 'http://rem.org/r%d' % i, 'nested': '#/definitions/o%d/items/0' % i}[w])

    def ref(i, j):
        # from node i to node j
        t = names[j]
        if where[i] == 'rem' and t.startswith('#'):
            return base + t
        return t
    brk = r.random() < .3           # sometimes the chain ends
    for i, w in enumerate(where):
        s = {'$ref': ref(i, i + 1 if i + 1 < n else back)}
        if brk and i + 1 == n:
            s = {'type': 'integer'}
        if w == 'def':
            main['definitions']['d%d' % i] = s
        elif w == 'rem':
            rem[names[i]] = s
        else:
            main['definitions']['o%d' % i] = {'items': [s]}
    if not noid:
        rem[base] = main
    main['properties'] = {'a': {'$ref': names[0 if r.random() < .6 else r.randrange(n)]}}
    return sem.case(main, [{'a': num(1)}, {'a': 'x'}, {}], d, remotes=rem, fetch=bool(rem) or None)


def concrete(ctx, g, mech, docs):
    """A schema with the reference graph g (node 1 is the root)."""
    r = ctx.rng
    d = r.choice([4, 7])
    idk = '$id' if d == 7 else 'id'
    base = 'http://h.org/d/root.json'
    n = len(g)
    noid = mech == 'noid'           # a document without any identifier
    mech = 'ptr' if noid else mech
    m = {i: mech if mech != 'mixed' else r.choice(['ptr', 'anchor', 'id', 'remote']) for i in range(1, n)}
    # a position that is itself a reference cannot carry an identifier
    for i in m:
        if g[i]['k'] == 'ref' and m[i] in ('anchor', 'id'):
            m[i] = 'ptr'
    rem = {}

    def ref(i, j):
        inrem = i and m[i] == 'remote'
        if inrem and j and m[j] == 'id':      # resources nested in another document are reached through that document
            return base + '#/definitions/n%d' % j
        if j == 0:
            return base if inrem or (any(v in ('id', 'remote') for v in m.values()) and r.random() < .5) or (i and m[i] == 'id') else '#'
        t = {'ptr': '#/definitions/n%d' % j, 'anchor': '#a%d' % j, 'id': 'http://h.org/d/i%d' % j, 'remote': 'http://rem.org/n%d' % j}[m[j]]
        if t.startswith('#') and (inrem or (i and m[i] == 'id')):
            return base + t
        return t

    def node(i):
        k = g[i]['k']
        if k == 'leaf':
            return {'type': ['integer', 'array', 'object']}
        t = {'$ref': ref(i, g[i]['t'][0] - 1)}
        if k == 'both':
            return {'properties': {'a': t}, 'items': {'$ref': ref(i, g[i]['t'][1] - 1)}, 'type': ['integer', 'object', 'array']}
        if k == 'ref':
            return t
        if k == 'prop':
            return {'properties': {'a': t}, 'type': ['integer', 'object', 'array']}
        return {'items': t, 'type': ['integer', 'object', 'array']}
    main = node(0)
    if noid:
        pass
    elif '$ref' not in main:
        main[idk] = base
    else:
        rem[base] = main      # a reference carries no identifier of its own: reached by URI, the root is another document
    main['definitions'] = {}
    for i in range(1, n):
        s = node(i)
        if m[i] == 'remote':
            rem['http://rem.org/n%d' % i] = s
            continue
        if m[i] == 'anchor':
            s[idk] = '#a%d' % i
        elif m[i] == 'id':
            s[idk] = 'http://h.org/d/i%d' % i
        main['definitions']['n%d' % i] = s
    if rem:
        rem[base] = main
    return sem.case(main, docs, d, remotes=rem or None, fetch=bool(rem) or None)
