"""C09, C13, C14, C15, C20: histories of operations, generated by TLC from state machines and replayed."""
import json
import time
from fractions import Fraction

from . import core, gen, run, sem
from .enc import Lit, enc, num, text
from .refs import RefGen


def replay_histories(ctx, exe, op, hists, want, extra=None, what='history', limit=20):
    """Run histories in the driver and compare what every step returned."""
    cases = [dict({'op': op, 'ops': h}, **(extra or {})) for h in hists]
    obs = run.drive(ctx.work, exe, cases, limit=limit)
    for c, o, w in zip(cases, obs, want):
        ctx.cov['evaluations'] += len(c['ops'])
        ctx.cov['traces_validated_against_impl'] += 1
        if isinstance(o, dict):
            ctx.violation('%s: %s in %s' % (o.get('crash'), o.get('stderr', '')[-500:], json.dumps(c['ops'])[:800]), {'kind': 'raw', 'case': c, 'want': w, 'key': None})
            continue
        if o != w:
            k = next((i for i in range(min(len(o), len(w))) if o[i] != w[i]), min(len(o), len(w)))
            ctx.violation('%s %s: step %d returned %s, the specification says %s' % (
                what, json.dumps(c['ops'][:k + 1])[-900:], k + 1, json.dumps(o[k:k + 1])[:300], json.dumps(w[k:k + 1])[:300]),
                {'kind': 'raw', 'case': c, 'want': w, 'key': None})
            if len(ctx.violations) > 20:
                break
    return obs


def c09(ctx):
    from .props_sem import c09_sv
    exe = run.build(ctx.work, ['rapidjson', 'nlohmann'], extra=['ops.cpp'])
    ctx.rule.append('Queue: every history of VQueue with up to four calls on two results objects, and long simulated ones, replayed call by call. '
                    'Locations: random schemas biased to several failing members and elements at once, names that need escapes, weak mode; TLC compares '
                    'the multiset of (pointer, context). Non-trivial: histories that pop; schemas that accept some and reject some documents.')
    st, beh = queue_histories(ctx)
    for s in st:
        ctx.states(*s)
    replay_histories(ctx, exe, 'queue', [[s['op'] for s in b] for b in beh], [[s['res'] for s in b] for b in beh])
    for b in beh:
        if any(s['op'][0] == 'pop' and s['res'][0] for s in b):
            ctx.cov['distinct_nontrivial'] += 1
    ctx.add('queue_histories', len(beh))
    ctx.sample([s['op'] for s in beh[len(beh) // 2]])
    c09_sv(ctx, exe)


def queue_histories(ctx):
    b1, s1 = run.behaviours(ctx.work, 'VQueue', {'NQ': 2, 'Steps': ctx.budget(4, 5), 'NPaths': 2}, inv=['Ordered', 'Fifo'])
    b2, s2 = run.behaviours(ctx.work, 'VQueue', {'NQ': 3, 'Steps': 24, 'NPaths': 7}, inv=['Ordered'], simulate=ctx.budget(60, 600), depth=27, seed=ctx.seed)
    b3, s3 = run.behaviours(ctx.work, 'VQueue', {'NQ': 1, 'Steps': ctx.budget(5, 6), 'NPaths': 3}, inv=['Ordered', 'Fifo'])
    return (s1, s2, s3), b1 + b2 + b3


# ---------------------------------------------------------------- C14
def c14(ctx):
    exe = run.build(ctx.work, ['rapidjson'], extra=['ops.cpp'], san=True)
    ctx.rule.append('TLC enumerates every history of VLife (create schemas on counted or default memory functions, create subschemas, add '
                    'constraints to them, to foreign and to shared ones, set attributes, move, destroy, with a refused memory request at any '
                    'step) up to the stated length, checks that each subschema has one owner, and simulates long ones with all constraint '
                    'kinds; each is replayed under AddressSanitizer and every returned value, attribute, verdict and the heap balance is '
                    'compared. Loading: random and malformed schemas into a schema with counted memory, failing at every single request. '
                    'Non-trivial: histories that move or destroy a schema that owns subschemas; loads with a refused request.')
    life_histories(ctx, exe)
    load_alloc(ctx, exe)


LIFE_INV = ['OneOwner', 'Inside', 'Emptied']


def life_histories(ctx, exe):
    b1, s1 = run.behaviours(ctx.work, 'VLife', {'NS': 2, 'MaxH': 2, 'Steps': 4, 'Rich': 'FALSE'}, inv=LIFE_INV)
    b2, s2 = run.behaviours(ctx.work, 'VLife', {'NS': 3, 'MaxH': 8, 'Steps': 30, 'Rich': 'TRUE'}, inv=LIFE_INV,
                            simulate=ctx.budget(250, 3000), depth=34, seed=ctx.seed)
    beh = b1 + b2
    if ctx.thorough:
        b3, s3 = run.behaviours(ctx.work, 'VLife', {'NS': 1, 'MaxH': 2, 'Steps': 6, 'Rich': 'FALSE'}, inv=LIFE_INV)
        ctx.states(*s3)
        beh += b3
    ctx.states(*s1)
    ctx.states(*s2)
    for b in beh:
        made = {}
        for s in b:
            op = s['op']
            if op[0] == 'create' and s['res'][0] != 'throw':
                made[op[1]] = 1
            elif op[0] in ('movec', 'movea', 'destroy') and made.get(op[1]):
                ctx.cov['distinct_nontrivial'] += 1
                break
    ctx.add('life_histories', len(beh))
    ctx.sample([s['op'] for s in b2[0]][:20])
    replay_histories(ctx, exe, 'life', [[s['op'] for s in b] for b in beh], [[s['res'] for s in b] + [[0, 0, 0]] for b in beh])


def load_alloc(ctx, exe):
    t0 = time.time()
    first = True
    while first or (time.time() - t0 < ctx.budget(12, 240) and not ctx.violations):
        cases = []
        while len(cases) < ctx.budget(150, 300):
            r = ctx.rng
            d = r.choice([3, 4, 7, 7])
            if r.random() < .4:
                c = RefGen(r, d, ids=r.random() < .3, bad=.1).case()
            else:
                g = gen.Gen(r, d, depth=r.choice([1, 2, 3]))
                s = g.root()
                docs = g.docs(s, 4)
                if not gen.valid_numbers([s] + docs):
                    continue
                if r.random() < .25:
                    s = spoil(r, s)
                c = sem.case(s, docs, d)
            if c is not None:
                cases.append(c)
        if first:
            kinds = every_keyword(ctx)
            cases += kinds
        first = False
        drv = [{'op': 'loadalloc', 'schema': c['schema'], 'docs': c['docs'], 'draft': c['draft'], 'fails': 400} for c in cases]
        obs = run.drive(ctx.work, exe, drv, limit=60)
        rows = []
        for i, (c, o) in enumerate(zip(cases, obs)):
            ob = []
            if isinstance(o, dict):
                ctx.violation('%s while loading %s: %s' % (o.get('crash'), c['schema'], o.get('stderr', '')[-600:]),
                              {'kind': 'raw', 'case': drv[i], 'key': core.case_key(c)})
                continue
            ctx.cov['evaluations'] += len(o)
            ctx.cov['traces_validated_against_impl'] += len(o)
            for f, (how, v, w, live, bad, allocs) in enumerate(o):
                why = None
                if live or bad:
                    why = '%d blocks not returned, %d returned wrongly' % (live, bad)
                elif how == 'ok' and f and allocs >= f:
                    why = 'request %d was refused and loading did not fail' % f
                if why:
                    ctx.violation('draft %d schema %s with memory request %d refused: %s' % (c['draft'], c['schema'], f, why),
                                  {'kind': 'raw', 'case': dict(drv[i], fails=f), 'key': core.case_key(c)})
                    break
                if how == 'ok' or f == 0:
                    ob.append({'load': 'ok' if how == 'ok' else 'err', 'fet': [],
                               'r': [{'v': a, 'w': b, 'n': 0, 'e': []} for a, b in zip(v, w)]})
            if any(x[0] == 'throw' for x in o[1:]) and o[0][0] == 'ok':
                ctx.distinct.add(core.case_key(c))
            row = sem.row(c, [], i, ('load', 'verdict'))
            row['obs'] = ob
            rows.append(row)
        bad, st = run.check_rows(ctx.work, 'TSem', rows)
        ctx.states(*st)
        for i, why in bad:
            c = cases[i]
            ctx.violation('draft %d schema %s docs %s: loaded into a schema with its own memory functions %s; the specification disagrees: %s' % (
                c['draft'], c['schema'], c['docs'], json.dumps(obs[i][0])[:200], why), {'kind': 'raw', 'case': drv[i], 'key': core.case_key(c)})
        ctx.add('loads_with_refused_request', sum(len(o) - 1 for o in obs if isinstance(o, list)))


def spoil(r, s):
    """A schema with something wrong somewhere."""
    bad = r.choice([{'type': 'nonsense'}, {'minLength': 'x'}, {'required': num(1)}, {'items': num(3)}, {'$ref': '#/nope'}, {'enum': {}},
                    {'properties': []}, {'pattern': num(1)}, {'minimum': []}])
    k = r.choice(['properties', 'items', 'not', 'additionalProperties', 'allOf', 'dependencies'])
    if not isinstance(s, dict) or '$ref' in s:
        s = {}
    s = dict(s)
    s[k] = {'properties': {'q': bad}, 'allOf': [{}, bad], 'dependencies': {'q': bad}}.get(k, bad)
    return s


def every_keyword(ctx):
    """One schema for each keyword, so that every kind of constraint is copied and moved."""
    t = {'type': 'string'}
    seven = [{'allOf': [t]}, {'anyOf': [t, t]}, {'oneOf': [t]}, {'not': t}, {'if': t, 'then': t, 'else': t}, {'const': {'a': [num(1)]}}, {'contains': t},
             {'dependencies': {'a': ['b'], 'b': t}}, {'enum': ['a', [num(1)], {'a': None}]}, {'format': 'date'}, {'items': t}, {'items': [t, t], 'additionalItems': t},
             {'maximum': num(3)}, {'exclusiveMaximum': num(3)}, {'minimum': num(3)}, {'exclusiveMinimum': num(3)}, {'maxItems': num(1)}, {'minItems': num(1)},
             {'maxLength': num(1)}, {'minLength': num(1)}, {'maxProperties': num(1)}, {'minProperties': num(1)}, {'multipleOf': num('0.5')}, {'multipleOf': num(2)},
             {'pattern': 'a{2}'}, {'properties': {'a': t}, 'patternProperties': {'b': t}, 'additionalProperties': t}, {'propertyNames': {'maxLength': num(1)}},
             {'required': ['a', 'some rather long name of a property']}, {'type': ['string', 'null']}, {'uniqueItems': True}, {'title': 'x' * 40, 'description': 'y' * 40},
             {'definitions': {'a': t}, '$ref': '#/definitions/a'}, {'definitions': {'a': {'items': {'$ref': '#/definitions/a'}}}, 'items': {'$ref': '#/definitions/a'}}]
    docs = [num(1), 'aa', [], ['a', 'a'], {}, {'a': num(1), 'b': 'x'}, None]
    return ([sem.case(s, docs, 7) for s in seven] + [sem.case({'properties': {'a': s}, 'items': s}, docs, 7) for s in seven]
            + [sem.case({'type': ['string', {'items': t}], 'extends': [t], 'divisibleBy': num(2), 'dependencies': {'a': 'b'}}, docs, 3)])


# ---------------------------------------------------------------- C13
ALIAS_W = {'enum': 3, 'const': 3, 'properties': 3, 'patprops': 1.5, 'addprops': 1, 'required': 2, 'deps': 2, 'pattern': 2, 'format': 1, 'type': 2,
           'items': 2, 'anyOf': 1, 'allOf': 1, 'not': 1, 'if': 1, 'lengths': 1, 'numeric': 1, 'propertyNames': 1, 'contains': 1, 'extends': 1,
           'typeschema': 1, 'oneOf': 1}


def verdict_rows(parts):
    """Rows for TSem from (case, {document indexes: verdict letters})."""
    rows = []
    for i, (c, seen) in enumerate(parts):
        r = sem.row(c, [], i, ('load', 'verdict'))
        if seen is None:
            r['obs'] = [{'load': 'err', 'fet': [], 'r': []}]
        elif seen == {'?'}:
            r['obs'] = [{'load': 'sometimes', 'fet': [], 'r': []}]
        else:
            r['obs'] = [{'load': 'ok', 'fet': [], 'r': [{'v': x, 'w': x, 'n': 0, 'e': []} for x in v]} for v in sorted(seen)]
        rows.append(r)
    return rows


def c13(ctx):
    exe = run.build(ctx.work, run.ALL_LIBS, extra=['ops.cpp'], san=True)
    ctx.rule.append('TLC enumerates every interleaving (VAlias) of loading, overwriting and destroying the source documents, destroying the '
                    'parser, moving the schemas and validating, up to the stated length, and simulates long ones with three schemas; each is '
                    'instantiated with random schemas (also with remote documents) held by random libraries and replayed under '
                    'AddressSanitizer; the verdicts seen at any time have to be those of the evaluator. Non-trivial: histories that validate '
                    'after the source was overwritten or destroyed.')
    b1, s1 = run.behaviours(ctx.work, 'VAlias', {'N': 1, 'Libs': '{"A", "B"}', 'Steps': ctx.budget(5, 6)}, inv=['OwnText'], props=['Stable'])
    b2, s2 = run.behaviours(ctx.work, 'VAlias', {'N': 2, 'Libs': '{"A"}', 'Steps': ctx.budget(4, 5)}, inv=['OwnText'], props=['Stable'])
    b3, s3 = run.behaviours(ctx.work, 'VAlias', {'N': 3, 'Libs': '{"A", "B"}', 'Steps': 16}, inv=['OwnText'],
                            simulate=ctx.budget(60, 600), depth=18, seed=ctx.seed)
    for s in (s1, s2, s3):
        ctx.states(*s)
    beh = b1 + b2 + b3
    ctx.add('histories', len(beh))
    ctx.sample([s['op'] for s in b3[0]])
    r = ctx.rng
    t0 = time.time()
    turn = 0
    while turn == 0 or (time.time() - t0 < ctx.budget(16, 300) and not ctx.violations):
        turn += 1
        drv, svs, want = [], [], []
        for b in (beh if ctx.thorough or len(beh) < 1500 else r.sample(beh, 1500)):
            d = r.choice([3, 4, 7])
            docs, parts = None, []
            n = 1 + max([0] + [s['op'][1] for s in b if s['op'][0] == 'load'])
            remotes = None
            while len(parts) < n:
                if n == 1 and r.random() < .25:
                    g = RefGen(r, d, bad=0, remotes=r.choice([0, 1, 2]))
                    c = g.case()
                    if c is None:
                        continue
                    if c['_']['remotes']:
                        remotes = c['remotes']
                    parts.append(c)
                    docs = docs or c['_']['docs']
                    continue
                g = gen.Gen(r, d, ALIAS_W, depth=r.choice([1, 2]))
                s = g.root()
                if not isinstance(s, dict):
                    continue
                dd = g.docs(s, 5)
                if not gen.valid_numbers([s] + dd):
                    continue
                parts.append(sem.case(s, docs or dd, d))
                docs = docs or dd
            lib = {'A': r.choice(run.ALL_LIBS), 'B': r.choice(run.ALL_LIBS)}
            ops = [[x if x not in lib or i != 2 else lib[x] for i, x in enumerate(s['op'])] for s in b]
            case = {'op': 'alias', 'ops': ops, 'schemas': [p['schema'] for p in parts], 'docs': parts[0]['docs'],
                    'doclib': r.choice(run.ALL_LIBS), 'draft': d}
            if parts[0]['_']['fetch']:
                case['fetch'] = True
                case['remotes'] = remotes or {}
            drv.append(case)
            svs.append(parts)
            want.append([s['res'] for s in b])
        obs = run.drive(ctx.work, exe, drv, limit=30)
        rows, back = [], []
        for k, (c, o, w) in enumerate(zip(drv, obs, want)):
            ctx.cov['evaluations'] += len(c['ops'])
            ctx.cov['traces_validated_against_impl'] += 1
            if isinstance(o, dict):
                ctx.violation('%s in history %s; schemas %s docs %s: %s' % (o.get('crash'), json.dumps(c['ops']), c['schemas'], c['docs'], o.get('stderr', '')[-700:]),
                              {'kind': 'raw', 'case': c, 'key': None})
                continue
            said, fails = {}, {}
            gone = False
            for j, (x, y) in enumerate(zip(o, w)):
                if c['ops'][j][0] in ('poison', 'destroy'):
                    gone = True
                if c['ops'][j][0] == 'load':
                    n = c['ops'][j][1] + 1
                    fails.setdefault(n, set()).add(x == 'throw')
                    if x == 'throw':
                        continue
                if isinstance(y, list):
                    if True in fails[y[1]]:
                        continue
                    said.setdefault(y[1], set()).add(x)
                    if gone:
                        ctx.distinct.add(json.dumps(c['ops']))
                elif x != y:
                    ctx.violation('history %s with schemas %s: step %d returned %s' % (json.dumps(c['ops'][:j + 1]), c['schemas'], j + 1, x),
                                  {'kind': 'raw', 'case': c, 'key': None})
                    break
            for n, how in fails.items():
                if True in how:
                    rows.append((svs[k][n - 1], None if len(how) == 1 else {'?'}))
                    back.append((k, n))
            for n, vs in said.items():
                odd = [v for v in vs if not (isinstance(v, str) and set(v) <= {'t', 'f'} and len(v) == len(c['docs']))]
                if odd:
                    ctx.violation('history %s, schema %s, documents %s (%s): a validation says %s' % (
                        json.dumps(c['ops']), c['schemas'][n - 1], c['docs'], c['doclib'], odd), {'kind': 'raw', 'case': c, 'key': None})
                else:
                    back.append((k, n))
                    rows.append((svs[k][n - 1], vs))
        bad, st = run.check_rows(ctx.work, 'TSem', verdict_rows(rows))
        ctx.states(*st)
        for i, why in bad:
            k, n = back[i]
            ctx.violation('history %s, draft %d schema %s, documents %s (%s): seen %s, the specification disagrees: %s' % (
                json.dumps(drv[k]['ops']), drv[k]['draft'], drv[k]['schemas'][n - 1], drv[k]['docs'], drv[k]['doclib'], sorted(rows[i][1] or ['no load']), why),
                {'kind': 'raw', 'case': drv[k], 'key': core.case_key(rows[i][0])})


# ---------------------------------------------------------------- C15
PATS = ['a', 'ab', 'a.', '^a', 'a$', '^a$', '^ab?$', '[ab]', '[0-9]+', '^[0-9]+$', '\\d', 'b', 'A', '.', '^.$', 'a|b', '(a)(b)', 'b+', '^$', 'true']
STRS = ['a', 'b', 'ab', 'aa', 'bb', 'A', '', '1', '12', 'true', '2020-02-29', '10:20:30', '10:20:30Z', '2020-02-29T10:20:30', '2020-02-29T10:20:30Z',
        'false', '1.5', 'a1', '127.0.0.1', '23:59:60Z', '23:59:60']


def session_schema(r):
    def leaf():
        k = r.random()
        if k < .5:
            return {'pattern': r.choice(PATS)}
        if k < .75:
            return {'format': r.choice(['time', 'date-time', 'date', 'ipv4'])}
        return r.choice([{'type': 'integer'}, {'type': 'number'}, {'type': 'boolean'}, {'type': 'null'}, {'minimum': num(2)}, {'maxItems': num(0)},
                         {'minProperties': num(1)}, {'enum': [num(1), 'a']}, {'const': True}])
    k = r.random()
    if k < .35:
        return leaf()
    if k < .5:
        return {'patternProperties': {r.choice(PATS): leaf() for _ in range(2)}, 'additionalProperties': leaf()}
    if k < .65:
        return {'items': leaf()}
    if k < .75:
        return {'propertyNames': {'pattern': r.choice(PATS)}}
    return {r.choice(['anyOf', 'allOf', 'oneOf']): [leaf(), leaf()], **leaf()}


def like_patterns(r):
    """Patterns whose texts have the same length, the same beginning or the same end, and strings that tell them apart."""
    n = r.choice([2, 5, 9, 15, 16, 20, 31, 32, 40, 63, 64, 65, 100, 130, 260])
    tails = ['b', 'c', 'd', 'bc', 'cb', 'bd']
    k = r.random()
    if k < .35:
        ps = ['^' + 'a' * n + t + '$' for t in tails]
        ds = ['a' * n + t for t in tails]
    elif k < .6:
        ps = ['^' + t + 'a' * n + '$' for t in tails]
        ds = [t + 'a' * n for t in tails]
    elif k < .8:
        ps = ['^' + 'a' * n + t + 'a' * n + '$' for t in tails]
        ds = ['a' * n + t + 'a' * n for t in tails]
    else:
        ps = [t + '|' + 'zq' * n for t in tails] + ['^' + 'a' * m + '$' for m in (n, n + 1, n + 2)]
        ds = tails + ['a' * m for m in (n - 1, n, n + 1, n + 2)]
    return ps, ds


def like_session(r, ns, nd):
    ps, ds = like_patterns(r)
    schemas = []
    for _ in range(ns):
        k = r.random()
        if k < .5:
            s = {'pattern': r.choice(ps)}
        elif k < .7:
            s = {'patternProperties': {p: r.choice([{'type': 'string'}, {'type': 'integer'}]) for p in r.sample(ps, 2)}, 'additionalProperties': r.random() < .5}
        elif k < .85:
            s = {r.choice(['anyOf', 'allOf', 'oneOf']): [{'pattern': p} for p in r.sample(ps, 3)]}
        else:
            s = {'propertyNames': {'pattern': r.choice(ps)}}
        schemas.append(s)
    return schemas, [r.choice(ds) if r.random() < .6 else {r.choice(ds): 'x', r.choice(ds): num(1)} for _ in range(nd)]


def many_session(r, ns, nd):
    """Many different patterns, more than any table would be made for."""
    schemas = [{'pattern': '^k%d$' % i} if i % 2 else {'patternProperties': {'^k%d$' % (7 * i + j): {'type': ['integer', 'string'][j % 2]} for j in range(7)}}
               for i in range(ns)]
    n = 7 * ns
    return schemas, [r.choice(['k%d' % r.randrange(ns), {'k%d' % r.randrange(n): num(1) for _ in range(20)}]) for _ in range(nd)]


def c15(ctx):
    exe = run.build(ctx.work, run.ALL_LIBS, extra=['ops.cpp'], opt='-O0')
    ctx.rule.append('TLC enumerates every sequence (VSession) of validations with and without results, copies and renewals of validators up to '
                    'the stated length, and simulates sequences of 40 calls on four validators of the four mode combinations with six '
                    'schemas; each is instantiated with random schemas full of patterns and formats and replayed in a process of its own. '
                    'Every call has to return the verdict and errors of the evaluator for its (mode, schema, document). Non-trivial: a '
                    'sequence in which one schema and document are validated under different modes with different verdicts.')
    b1, s1 = run.behaviours(ctx.work, 'VSession', {'NV': 2, 'NS': 2, 'ND': 1, 'Steps': 3}, inv=['OwnMeaning'], props=['ModesStay'])
    b2, s2 = run.behaviours(ctx.work, 'VSession', {'NV': 4, 'NS': 6, 'ND': 5, 'Steps': 40}, inv=['OwnMeaning'],
                            simulate=ctx.budget(16, 300), depth=42, seed=ctx.seed)
    b3, s3 = run.behaviours(ctx.work, 'VSession', {'NV': 2, 'NS': 40, 'ND': 4, 'Steps': 200}, inv=['OwnMeaning'],
                            simulate=ctx.budget(4, 40), depth=204, seed=ctx.seed)
    for s in (s1, s2, s3):
        ctx.states(*s)
    r = ctx.rng
    modes = [[1, 1], [1, 0], [0, 1], [0, 0]]
    t0 = time.time()
    turn = 0
    while turn == 0 or (time.time() - t0 < ctx.budget(16, 300) and not ctx.violations):
        drv, svs, want = [], [], []
        turn += 1
        for b in (b1 + b2 + b3 if turn == 1 else b2 * 3 + b3):
            ns = 1 + max([0] + [s['op'][2] for s in b if s['op'][0] == 'v'])
            nd = 1 + max([0] + [s['op'][3] for s in b if s['op'][0] == 'v'])
            schemas = [session_schema(r) for _ in range(ns)]
            docs = []
            if len(b) > 100:
                schemas, docs = (many_session if r.random() < .7 else like_session)(r, ns, nd)
            elif r.random() < .3:
                schemas, docs = like_session(r, ns, nd)
            while len(docs) < nd:
                x = r.random()
                docs.append(r.choice(STRS) if x < .55 else r.choice([num(1), num(3), True, None, [], {}]) if x < .65
                            else [r.choice(STRS) for _ in range(r.randint(0, 3))] if x < .8
                            else {r.choice(STRS): r.choice(STRS) for _ in range(r.randint(0, 3))})
            cs = [sem.case(s, docs, 7) for s in schemas]
            drv.append({'op': 'session', 'schemas': [c['schema'] for c in cs], 'docs': cs[0]['docs'], 'lib': r.choice(run.ALL_LIBS),
                        'draft': 7, 'modes': modes, 'ops': [s['op'] for s in b]})
            svs.append((schemas, docs))
            want.append([s['res'] for s in b])
        obs = run.drive(ctx.work, exe, drv, limit=30)
        rows, back = [], {}
        for k, (c, o, w) in enumerate(zip(drv, obs, want)):
            ctx.cov['evaluations'] += len(c['ops'])
            ctx.cov['traces_validated_against_impl'] += 1
            if isinstance(o, dict):
                ctx.violation('%s in session %s' % (o.get('crash'), json.dumps(c)[:1500]), {'kind': 'raw', 'case': c, 'key': None})
                continue
            per = {}
            for j, (x, y) in enumerate(zip(o, w)):
                if y[0] != 'says':
                    if x[0] != '-':
                        ctx.violation('session %s: step %d returned %s' % (json.dumps(c)[:1500], j + 1, x), {'kind': 'raw', 'case': c, 'key': None})
                    continue
                _, m, s, d = y
                how = c['ops'][j][4]
                back.setdefault((text(svs[k][0][s - 1]), text(svs[k][1][d - 1]), m, how > 0, json.dumps(x)), (k, j, s, d))
                per.setdefault((s, d), set()).add(x[0])
            if any(len(v) > 1 for v in per.values()):
                ctx.distinct.add(json.dumps([c['ops'], c['schemas']]))
        keys = list(back)
        for i, key in enumerate(keys):
            k, j, s, d = back[key]
            x = json.loads(key[4])
            c = sem.case(svs[k][0][s - 1], [svs[k][1][d - 1]], 7, modes=[modes[key[2] - 1]])
            row = sem.row(c, [], i, ('load', 'verdict') + (('errs',) if key[3] else ()))
            row['obs'] = [{'load': 'ok', 'fet': [], 'r': [{'v': x[0], 'w': x[0], 'n': len(x[1]), 'e': [
                {'p': [ord(ch) for ch in e[0]], 'x': [[ord(ch) for ch in y] for y in e[1]]} for e in x[1]]}]}]
            rows.append(row)
        bad, st = run.check_rows(ctx.work, 'TSem', rows)
        ctx.states(*st)
        for i, why in bad:
            k, j, s, d = back[keys[i]]
            c = drv[k]
            ctx.violation('session on %s: after %s, schema %s on %s in mode %s returned %s' % (
                c['lib'], json.dumps(c['ops'][:j + 1])[-600:], c['schemas'][s - 1], c['docs'][d - 1], modes[keys[i][2] - 1], keys[i][4]),
                {'kind': 'raw', 'case': c, 'key': None})
            if len(ctx.violations) > 20:
                break
        ctx.add('distinct_calls', len(keys))
    ctx.add('sessions', len(b1) + len(b2) + len(b3))
    ctx.sample([s['op'] for s in b2[0]][:20])


# ---------------------------------------------------------------- C20
class CustomGen(gen.Gen):
    """Schemas with the keywords x-custom and x-lower anywhere."""

    def schema(self, depth=None):
        s = gen.Gen.schema(self, depth)
        if isinstance(s, dict) and '$ref' not in s:
            for k in ('x-custom', 'x-lower'):
                if self.chance(.3):
                    s[k] = self.number() if self.chance(self.goodp) else self.r.choice(['x', None, True, [], {}, '1', num(-77), num(-77)])
        return s

    def sat(self, s, root, depth=4):
        if isinstance(s, dict) and self.chance(.5):
            for k in ('x-custom', 'x-lower'):
                if isinstance(s.get(k), Lit):
                    return self.near(s[k])
        return gen.Gen.sat(self, s, root, depth)


def c20(ctx):
    exe = run.build(ctx.work, run.ALL_LIBS, extra=['ops.cpp'], san=True, opt='-O0')
    ctx.rule.append('Enumerated: a custom keyword at every schema position of every keyword, with every kind of value, for every list of '
                    'registered builders. Random: schemas with two custom keywords anywhere, one or two builders in either order, builders '
                    'that throw, schemas that fail to load for other reasons, remote documents, moved schemas, counted memory. TLC checks '
                    'the builder calls (as a multiset), verdicts and errors; the census of constraints and builders has to be balanced. '
                    'Non-trivial: accepts some and rejects some documents, or a builder throws.')
    r = ctx.rng
    good = [num(2), num('1.5'), num(0)]
    places = [lambda s: s, lambda s: {'properties': {'a': s}}, lambda s: {'patternProperties': {'a': s}}, lambda s: {'additionalProperties': s},
              lambda s: {'items': s}, lambda s: {'items': [{}, s]}, lambda s: {'items': [{}], 'additionalItems': s}, lambda s: {'contains': s},
              lambda s: {'allOf': [{}, s]}, lambda s: {'anyOf': [s, {'type': 'null'}]}, lambda s: {'oneOf': [s, {'type': 'integer'}]},
              lambda s: {'not': s}, lambda s: {'if': s, 'then': {'type': 'integer'}, 'else': s}, lambda s: {'dependencies': {'a': s}},
              lambda s: {'propertyNames': s}, lambda s: {'definitions': {'d': s}, '$ref': '#/definitions/d'},
              lambda s: {'definitions': {'d': s}}, lambda s: {'definitions': {'d': s}, 'items': {'$ref': '#/definitions/d'}, 'not': {'$ref': '#/definitions/d'}},
              lambda s: {'enum': [s, num(1), num(3), [num(1)]]}, lambda s: {'const': s}, lambda s: {'x-other': s}, lambda s: {'then': s, 'else': s}]
    docs = [num(1), num(2), num(3), 'x', [num(1), num(3)], [num(3), num(1)], {'a': num(3)}, {'a': num(1)}, {}, None, num('1.75')]
    cases = []

    def add(s, dd, d, builders, remotes=None, **kw):
        c = sem.case(s, dd, d, combos=[[kw.get('lib', 'rapidjson')] * 2], remotes=remotes)
        c['custom'] = builders
        cases.append((c, kw))
    for d in (3, 4, 7):
        for p in places:
            for b in (['x-custom'], ['x-lower', 'x-custom'], ['x-custom', 'x-custom'], ['x-none']):
                for v in good[:1] + ['2', None, [num(1)], {}, num(-77)]:
                    add(p({'x-custom': v, 'x-lower': num(1), 'type': ['number', 'array', 'object']}), docs, d, b,
                        lib=run.ALL_LIBS[len(cases) % 8], move=len(cases) % 2 == 0, heap=len(cases) % 3 == 0)
    custom_batch(ctx, exe, cases)
    ctx.add('enumerated_cases', len(cases))
    t0 = time.time()
    while time.time() - t0 < ctx.budget(20, 300) and not ctx.violations:
        cases = []
        while len(cases) < 1500:
            d = r.choice([3, 4, 7, 7])
            if r.random() < .3:
                g = CustomRefGen(r, d, remotes=r.choice([0, 0, 1]), bad=.05)
                g.goodp = r.choice([1, 1, .9])
                c0 = g.case()
                if c0 is None:
                    continue
                m = c0['_']
                add(m['schema'], m['docs'], d, r.choice([['x-custom'], ['x-custom', 'x-lower'], ['x-lower']]), m['remotes'] or None,
                    lib=r.choice(run.ALL_LIBS), move=r.random() < .5, heap=r.random() < .3)
                continue
            g = CustomGen(r, d, depth=r.choice([1, 2, 3]))
            g.goodp = r.choice([1, 1, .95, .8])
            s = g.root()
            dd = g.docs(s, 5)
            if not gen.valid_numbers([s] + dd):
                continue
            if r.random() < .1:
                s = spoil(r, s)
            add(s, dd, d, r.choice([['x-custom'], ['x-custom', 'x-lower'], ['x-lower', 'x-custom'], ['x-lower', 'x-lower'], []]),
                lib=r.choice(run.ALL_LIBS), move=r.random() < .5, heap=r.random() < .3)
        custom_batch(ctx, exe, cases)
        ctx.add('random_cases', len(cases))


class CustomRefGen(RefGen):
    def schema(self, depth=None):
        s = RefGen.schema(self, depth)
        if isinstance(s, dict) and '$ref' not in s:
            for k in ('x-custom', 'x-lower'):
                if self.chance(.3):
                    s[k] = self.number() if self.chance(self.goodp) else self.r.choice(['x', None, True, [], {}, '1', num(-77), num(-77)])
        return s


def custom_batch(ctx, exe, cases):
    drv = []
    for c, kw in cases:
        x = {'op': 'custom', 'schema': c['schema'], 'docs': c['docs'], 'draft': c['draft'], 'builders': c['custom'], 'lib': kw['lib'],
             'move': bool(kw.get('move')), 'heap': bool(kw.get('heap'))}
        if c['_']['fetch']:
            x['fetch'] = True
            x['remotes'] = c['remotes']
        drv.append(x)
    obs = run.drive(ctx.work, exe, drv)
    rows = []
    for i, ((c, kw), o) in enumerate(zip(cases, obs)):
        ctx.cov['evaluations'] += max(1, len(c['docs']))
        ctx.cov['traces_validated_against_impl'] += 1
        if isinstance(o, dict):
            ctx.violation('%s: draft %d schema %s: %s' % (o.get('crash'), c['draft'], c['schema'], o.get('stderr', '')[-700:]),
                          {'kind': 'raw', 'case': drv[i], 'key': core.case_key(c)})
            continue
        oc = o[0]
        why = []
        if oc['builders'] != len(c['custom']) or oc['buildersleft']:
            why.append('builders alive: %d with the parser, %d after it' % (oc['builders'], oc['buildersleft']))
        if oc['temps']:
            why.append('%d constraints made by builders are not destroyed' % oc['temps'])
        if oc['load'] == 'ok' and oc['live'] != len(oc['built']):
            why.append('the schema holds %d constraints' % oc['live'])
        if any(oc['end']):
            why.append('at the end [alive, misused, balance, blocks, misused blocks] is %s' % oc['end'])
        if oc.get('log') and sum(1 for e in oc['log'] if e[0] == 'fetch' and e[2] == 'doc') != sum(1 for e in oc['log'] if e[0] == 'free'):
            why.append('fetched documents: %s' % oc['log'])
        if why:
            ctx.violation('%s; draft %d builders %s schema %s' % ('; '.join(why), c['draft'], c['custom'], c['schema']),
                          {'kind': 'raw', 'case': drv[i], 'key': core.case_key(c)})
        row = sem.row(c, o, i, ('load', 'verdict', 'errs'))
        vs = {x['v'] for x in row['obs'][0]['r']}
        if len(vs) > 1 or (oc['load'] == 'err' and c['custom']):
            ctx.distinct.add(core.case_key(c))
        row['obs'][0]['built'] = [[k, enc(flit(x))] for k, x in oc['built']]
        row['obs'][0]['fet'] = []
        row['refs'] = (c['schema'] + json.dumps(c.get('remotes', {}))).count('$ref')
        rows.append(row)
    bad, st = run.check_rows(ctx.work, 'TCustom', rows, inv='CheckCustom')
    ctx.states(*st)
    for i, why in bad:
        c = cases[i][0]
        ctx.violation('draft %d builders %s schema %s documents %s: %s; observed %s' % (
            c['draft'], c['custom'], c['schema'], c['docs'], core.clean(why), json.dumps(obs[i])[:700]),
            {'kind': 'raw', 'case': drv[i], 'key': core.case_key(c)})


def flit(x):
    return gen.lit_of(Fraction(repr(x)) if isinstance(x, float) else Fraction(x))
