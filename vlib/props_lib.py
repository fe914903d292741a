"""C11, C12, C22: the JSON libraries."""
import itertools
import json
import time

from . import core, gen, run, sem
from .enc import Lit, cps, enc, enc_num, num, text
from .gen import Gen
from .props_sem import maker
from .refs import RefGen

ALL = run.ALL_LIBS


def enc_tree(t):
    """The driver's view of a tree, for TLC."""
    r = {k: t[k] for k in ('st', 'tags', 'num', 't')}
    c = t['cv']
    r['cv'] = {'same': c['same'], 'm': [x == 't' for x in c['m']], 'b': c['b'], 'hd': c['d'] is not None, 'hi': c['i'] is not None, 'hs': c['s'] is not None,
               'd': enc_num(repr(c['d'] or 0)), 'i': enc_num(c['i'] or '0'), 's': cps(c['s'] or ''), 'na': c['na'], 'no': c['no'], 'ga': c['ga'], 'go': c['go']}
    if t['t'] == 'o':
        r['m'] = [{'c': cps(e['n']), 'f': e['f'], 'v': enc_tree(e['v'])} for e in t['m']]
        r.update({k: t[k] for k in ('sz', 'gsz', 'cb', 'miss')})
    elif t['t'] == 'a':
        r['e'] = [enc_tree(e) for e in t['e']]
        r.update({k: t[k] for k in ('sz', 'gsz', 'cb', 'adv')})
    elif t['t'] == 's':
        r['c'], r['as'] = cps(t['s']), cps(t['as'])
    elif t['t'] == 'b':
        r['b'], r['as'] = t['b'], t['as']
    elif t['t'] == 'i':
        r['i'], r['as'], r['d'] = enc_num(t['i']), enc_num(t['as']), enc_num(repr(t['d']))
    elif t['t'] == 'd':
        r['d'] = enc_num(repr(t['d']))
    return r


SCALARS = [None, True, False, num(0), num(1), num(-1), num('1.0'), num('1.5'), num('-0.25'), num('0.1'), num('1e2'), num('100'), num('1e-7'), num(2147483647),
           num(2147483648), num(-2147483648), num(-2147483649), num(4294967295), num(4294967296), num('4294967296.0'), num('2147483647.5'), num(900719925474099),
           num('-123456789012345'), num('1e15'), num('123456.789'), num('-0'), num('0.0'), '', 'a', 'A', 'a\0b', '\0', 'é', 'e\u0301', '日本', '𝄞', '\x7f', '"\\/\b\f\n\r\t',
           'true', '1', 'null', '[]', '\u2028', '\ud7ff', '\ue000', '\uffff', ' ', 'x' * 40, 'y' * 300]
# numbers that differ only in the last place, or by less than any fixed tolerance
TIGHT = [num(x) for x in ('1e-17', '2e-17', '1e-20', '-1e-17', '1.0000000000000002', '0.10000000000000002', '1e22', '1.0000000000000002e22')]
# integers that a double does not hold, and the libraries that keep them
WIDE = [num(x) for x in ('9007199254740993', '-9007199254740993', '9007199254740995', '4611686018427387905', '9223372036854775807', '9223372036854775806',
                         '-9223372036854775808', '-9223372036854775807', '1000000000000000003', '123456789012345679')]
HOLD = [l for l in ALL if l not in ('qtjson', 'qvariant', 'poco')]
LITS = ['0', '-1', '12', '007', '1.5', '-0.5', '2.0', '1e2', '1E2', '1e+2', '1e-2', '.5', '5.', '1.5e1', '-', '1a', 'a1', '0x10', 'True', 'TRUE', 'none', '1,5', '--1', '1e', 'e1',
        '.', '-.5', '1.2.3', '12345678901', '-12345678901', '1_0', 'false', '{}']
NAMES = ['a', 'b', '', 'A', 'é', '日', '𝄞', '/', '~', '"', '\\', ' ', 'a b', 'ab', 'aa', '\n', 'x' * 40, '0', '1', '__proto__', '$ref']


def gvalue(r, depth):
    x = r.random()
    if depth == 0 or x < .3:
        return r.choice(SCALARS)
    if x < .6:
        return [gvalue(r, depth - 1) for _ in range(r.choice([0, 1, 2, 3, 3, 8]))]
    return {n: gvalue(r, depth - 1) for n in r.sample(NAMES, r.choice([0, 1, 2, 3, 5, 9]))}


BLANK = object()    # a default constructed adapter, which holds an empty object


def tree_rows(ctx, exe, docs, libs, strict=True, meaning=lambda d: d, spell=text):
    cases = [{'op': 'tree', 'libs': libs, 'docs': [None if d is BLANK else spell(d) for d in docs[i:i + 20]]} for i in range(0, len(docs), 20)]
    obs = run.drive(ctx.work, exe, cases)
    rows, back = [], []
    for c, o, at in zip(cases, obs, range(0, len(docs), 20)):
        if isinstance(o, dict):
            ctx.violation('crash reading one of %s: %s' % (c['docs'], o.get('stderr', '')[-300:]), {'kind': 'raw', 'case': c, 'key': None})
            continue
        for k in range(len(c['docs'])):
            seen = {}
            for l, r in zip(libs, o):
                seen.setdefault(json.dumps(r[k], sort_keys=True), []).append(l)
            for s, who in seen.items():
                t = json.loads(s)
                if isinstance(t, str):
                    ctx.violation('%s reading %s' % (t, c['docs'][k]) + ' (%s)' % ','.join(who), {'kind': 'raw', 'case': dict(c, docs=[c['docs'][k]]), 'key': None})
                    continue
                rows.append({'id': len(rows), 'k': 'tree', 'v': enc({} if docs[at + k] is BLANK else meaning(docs[at + k])), 'o': enc_tree(t), 'st': strict})
                back.append((c['docs'][k], who, s))
            ctx.cov['evaluations'] += len(libs)
            ctx.cov['traces_validated_against_impl'] += len(libs)
            if len(c['docs'][k] or '') > 6:
                ctx.distinct.add(c['docs'][k])
    bad, st = run.check_rows(ctx.work, 'TTree', rows)
    ctx.states(*st)
    for i, _ in bad:
        d, who, s = back[i]
        ctx.violation('document %s seen as %s (%s)' % (d, s[:600], ','.join(who)), {'kind': 'raw', 'case': {'op': 'tree', 'libs': who, 'docs': [d]}, 'key': None})


def c11(ctx):
    exe = run.build(ctx.work, ALL, extra=['ops.cpp'])
    ctx.rule.append('All eight strictly typed adapters. Trees: scalars of every kind, then random trees (odd names, NUL in strings, numbers around '
                    '32-bit limits), compared node by node through iteration, random access, lookup, sizes, callbacks and casts. Verdicts: '
                    'random schemas of all keywords and drafts, references and malformed schemas; each case runs under all eight libraries and four '
                    'mixed pairs, and every distinct outcome (load, verdict, error locations) must be the one of the specification. '
                    'Non-trivial: trees with more than one node; schemas that accept some and reject some documents.')
    r = ctx.rng
    tree_rows(ctx, exe, [BLANK] + LITS + SCALARS + [[x] for x in SCALARS] + [{'a': x} for x in SCALARS] + [{n: num(1)} for n in NAMES] + [[], {}, [[]], [{}], {'a': []}, {'a': {}}], ALL)
    t0 = time.time()
    while time.time() - t0 < ctx.budget(15, 150) and len(ctx.violations) < 20:
        tree_rows(ctx, exe, [gvalue(r, r.choice([1, 2, 3])) for _ in range(600)], ALL)
    wide(ctx, exe)
    from . import twins
    tree_rows(ctx, exe, [{n: num(1)} for n in twins.NULS] + [{n: num(1), 'a': num(2)} for n in twins.NULS] + [dict(zip(twins.NULS, map(num, range(5))))], NUL)
    nul = list(twins.nul_names([[l, l] for l in NUL]))
    core.sv_batch(ctx, exe, nul if ctx.thorough else r.sample(nul, len(nul) // 3), ('load', 'verdict', 'errs'))
    from .props_ref import junk_cases
    js = list(junk_cases([[l, l] for l in ALL]))
    core.sv_batch(ctx, exe, js if ctx.thorough else r.sample(js, 900), ('load', 'verdict'))
    mk = [maker(ctx, None, ndocs=5), maker(ctx, None, ndocs=5, uni=1),
          lambda: RefGen(r, r.choice([3, 4, 7, 7])).case(ndocs=4), typed(ctx), spoiled(ctx)]

    def make():
        c = r.choice(mk)()
        if c is None or bom(c):
            return None
        combos = [[l, l] for l in ALL]
        if not c.get('fetch'):
            combos += [list(r.sample(ALL, 2)) for _ in range(4)]
        c['combos'] = combos
        return c
    core.sv_campaign(ctx, exe, make, ('load', 'verdict', 'errs'), ctx.budget(28, 600), batch=1500)
    core.sv_batch(ctx, exe, [bom_case()], ('load', 'verdict', 'errs'))
    # every pair of libraries
    pairs = [list(p) for p in itertools.product(ALL, repeat=2)]

    def cross():
        c = mk[0]()
        if c is not None and bom(c):
            return None
        if c is not None:
            c['combos'] = pairs
            c['docs'] = c['docs'][:3]
            c['_']['docs'] = c['_']['docs'][:3]
        return c
    core.sv_campaign(ctx, exe, cross, ('load', 'verdict', 'errs'), ctx.budget(10, 120), batch=300)


def wide(ctx, exe):
    """Integers that no double holds."""
    r = ctx.rng
    tree_rows(ctx, exe, [x for x in TIGHT] + [[x] for x in TIGHT], ALL)
    tree_rows(ctx, exe, WIDE + [WIDE, {'a': WIDE[0], 'b': [WIDE[4]]}], HOLD)
    pairs = [list(p) for p in itertools.product(HOLD, repeat=2)]
    eq_rows(ctx, exe, [WIDE + [num('1'), None], [[x] for x in WIDE], [{'a': x} for x in WIDE]], lambda: pairs)
    cs = []
    same = [[l, l] for l in HOLD] + [list(r.choice(pairs)) for _ in range(4)]
    for x in WIDE:
        y = r.choice(WIDE)
        for s in ({'enum': [x]}, {'enum': [None, y, x]}, {'const': x}, {'type': 'integer'}, {'type': 'number'}, {'not': {'const': x}}, {'const': y}):
            cs.append(sem.case(s, WIDE, 7, combos=same))
        cs.append(sem.case({'uniqueItems': True}, [[x, y], [x, x], [x, 'a', x], [[x], [y]], [{'a': x}, {'a': x}], WIDE], 4, combos=same))
    for m in ('1', '2', '3', '7', '10', '65537', '16777216'):
        for pre in ([], [{'maximum': num('1e300')}], [{'type': 'number'}, {'minimum': num('-1e300')}]):
            cs.append(sem.case({'allOf': pre + [{'multipleOf': num(m)}]}, WIDE, 7, combos=same))
    core.sv_batch(ctx, exe, cs, ('load', 'verdict', 'errs'))


NUL = [l for l in ALL if l != 'poco']       # Poco's own names end at the first null character
BOM = '\ufeff'


def bom(c):
    """Some name starts with a byte order mark, which Qt drops in lookups (a known finding)."""
    return any('"' + b in t for t in [c['schema']] + c['docs'] + [str(x) for x in c.get('remotes', {}).values()] for b in (BOM, '\\ufeff', '\\uFEFF'))


def bom_case():
    return sem.case({'properties': {BOM + 'b': {'type': 'string'}}}, [{BOM + 'b': num(1)}], 7, combos=[['qtjson', 'qtjson'], ['qvariant', 'qvariant']])


def typed(ctx):
    """Schemas about types, numbers and equality, with documents of the awkward scalars."""
    def make():
        r = ctx.rng
        d = r.choice([3, 4, 7])
        sc = [x for x in SCALARS]
        s = {}
        k = r.choice(['type', 'enum', 'const', 'min', 'mult', 'len', 'unique', 'items'])
        if k == 'type':
            s['type'] = r.choice(gen.TYPES)
        elif k == 'enum':
            s['enum'] = [r.choice(sc) if r.random() < .6 else gvalue(r, 2) for _ in range(3)]
        elif k == 'const':
            s['const'] = gvalue(r, 2)
        elif k == 'min':
            s[r.choice(['minimum', 'maximum'])] = r.choice([x for x in sc if isinstance(x, Lit)])
        elif k == 'mult':
            s['divisibleBy' if d == 3 else 'multipleOf'] = num(r.choice(['1', '2', '3', '10', '0.5', '2.0', '1000', '0.1']))
        elif k == 'len':
            s[r.choice(['minLength', 'maxLength'])] = num(r.randrange(4))
        elif k == 'unique':
            s['uniqueItems'] = True
        else:
            s['items'] = {'type': r.choice(gen.TYPES)}
        docs = [r.choice(sc) for _ in range(4)]
        if k in ('enum', 'const'):
            base = s.get('enum') or [s['const']]
            g = Gen(r, d)
            docs += [r.choice(base), g.vary(r.choice(base)), shuffled(r, r.choice(base))]
        if k in ('unique', 'items'):
            docs = [[r.choice(sc) for _ in range(r.randrange(6))] for _ in range(4)] + [[x, shuffled(r, x)] for x in [gvalue(r, 2)]]
        if r.random() < .3:
            s, docs = {'properties': {'p': s}}, [{'p': x} for x in docs]
        if k == 'mult' and not all(gen.valid_numbers([x]) for x in docs):
            return None
        return sem.case(s, docs, d)
    return make


def shuffled(r, v):
    if isinstance(v, dict):
        ks = list(v)
        r.shuffle(ks)
        return {k: shuffled(r, v[k]) for k in ks}
    if isinstance(v, list):
        return [shuffled(r, x) for x in v]
    return v


def spoiled(ctx):
    from .props_ref import bad16, json_copy, spoil

    def make():
        r = ctx.rng
        d = r.choice([3, 4, 7])
        g = Gen(r, d, depth=2)
        s = g.root()
        docs = g.docs(s, 3)
        if not isinstance(s, dict) or not s:
            return None
        s = json_copy(s)
        spoil(r, s, d)
        if not gen.valid_numbers([s] + docs) or bad16(s, d):
            return None
        return sem.case(s, docs, d)
    return make


# ---------------------------------------------------------------- C12
def eq_rows(ctx, exe, sets, pairs_of):
    cases = [{'op': 'eq', 'strict': True, 'pairs': pairs_of(), 'docs': [text(v) for v in vs]} for vs in sets]
    obs = run.drive(ctx.work, exe, cases)
    rows, back = [], []
    for vs, c, o in zip(sets, cases, obs):
        if isinstance(o, dict):
            ctx.violation('crash comparing %s: %s' % (c['docs'], o.get('stderr', '')[-300:]), {'kind': 'raw', 'case': c, 'key': None})
            continue
        vals = [enc(v) for v in vs]
        seen = {}
        for p, x in zip(c['pairs'], o):
            seen.setdefault(json.dumps(x), []).append('/'.join(p))
        for s, who in seen.items():
            x = json.loads(s)
            rows.append({'id': len(rows), 'k': 'eq', 'vals': vals, 'eq': list(x[0]), 'fr': list(x[1]), 'cl': list(x[2])})
            back.append((c, who, x))
        n = 3 * len(vs) ** 2 * len(c['pairs'])
        ctx.cov['evaluations'] += n
        ctx.cov['traces_validated_against_impl'] += n
        ctx.add('equal_pairs', o[0][0].count('t'))
        for a in range(len(vs)):
            for b in range(len(vs)):
                if a != b and o[0][0][a * len(vs) + b] == 't':
                    ctx.distinct.add((c['docs'][a], c['docs'][b]))
    ctx.sample(cases[0]['docs'][:12])
    bad, st = run.check_rows(ctx.work, 'TTree', rows)
    ctx.states(*st)
    for i, why in bad:
        c, who, x = back[i]
        n = len(c['docs'])
        q = int(core.clean(why).strip('{}').split(',')[0]) - 1
        ctx.violation('%s against %s: equalTo %s, frozen %s, cloned %s (%s)' % (c['docs'][q // n], c['docs'][q % n], x[0][q], x[1][q], x[2][q], ','.join(who[:6])),
                      {'kind': 'raw', 'case': {'op': 'eq', 'strict': True, 'pairs': [w.split('/') for w in who], 'docs': [c['docs'][q // n], c['docs'][q % n]]}, 'key': None})


def c12(ctx):
    exe = run.build(ctx.work, ALL, extra=['ops.cpp'])
    ctx.rule.append('Enumerated: every pair out of a universe of small values of depth up to two, for all 64 pairs of libraries, compared directly, '
                    'through a frozen copy whose source was overwritten, and through a clone of the frozen copy. Random: families of near-equal '
                    'values (members permuted, removed, renamed; elements swapped, repeated; numbers respelled; nested) under random library pairs; '
                    'then const, enum and uniqueItems over such families. TLC also checks on every family that the specified equality is an '
                    'equivalence. Non-trivial: pairs of different texts that are equal.')
    r = ctx.rng
    small = [None, True, False, num(0), num(1), num('1.0'), num('0.0'), num('1e0'), num('-1'), num('1.5'), '', '0', '1', 'a', 'true', 'A', 'a\0', 'é', 'e\u0301']
    cont = [[], {}, [[]], [{}], {'a': []}, {'a': {}}, [num(1)], [num('1.0')], [num(1), num(1)], [num(1), num(2)], [num(2), num(1)], [None], [False], [''], {'a': num(1)},
            {'a': num('1.0')}, {'b': num(1)}, {'a': num(2)}, {'a': num(1), 'b': num(2)}, {'b': num(2), 'a': num(1)}, {'a': num(2), 'b': num(1)}, {'a': None}, {'': num(1)},
            {'a': num(1), 'b': num(2), 'c': num(3)}, {'a': {'a': num(1)}}, [[num(1)], num(2)], [num(1), [num(2)]], [[num(1), num(2)]], {'a': [num(1), num(2)]}, {'a': [num(2), num(1)]}]
    pairs = [list(p) for p in itertools.product(ALL, repeat=2)]
    eq_rows(ctx, exe, [small + cont], lambda: pairs)
    eq_rows(ctx, exe, [TIGHT + [num(0), num(1), num('0.1'), num('0.0'), num('1.0')], [[x] for x in TIGHT] + [[num(0)], [num(1)]], [{'a': x} for x in TIGHT]], lambda: pairs)
    wide(ctx, exe)
    rp = lambda: [list(r.choice(pairs)) for _ in range(6)] + [[l, l] for l in r.sample(ALL, 3)]
    laws = []
    t0 = time.time()
    while time.time() - t0 < ctx.budget(16, 300) and len(ctx.violations) < 20:
        sets = [family(r) for _ in range(300)]
        eq_rows(ctx, exe, sets, rp)
        laws += [{'id': len(laws) + i, 'k': 'law', 'vals': [enc(v) for v in vs[:7]]} for i, vs in enumerate(sets[:20])]
    bad, st = run.check_rows(ctx.work, 'TTree', laws)
    if bad:
        raise run.CheckError('the specified equality is not an equivalence: %s' % bad[:1])
    ctx.states(*st)

    def make():
        vs = family(r)
        k = r.choice(['const', 'enum', 'enum', 'unique', 'unique'])
        if k == 'const':
            s, docs = {'const': vs[0]}, vs
        elif k == 'enum':
            s, docs = {'enum': r.sample(vs, min(len(vs), r.choice([1, 2, 3])))}, vs
        else:
            s, docs = {'uniqueItems': True}, [[r.choice(vs) for _ in range(r.choice([2, 2, 3, 4]))] for _ in range(8)] + [r.sample(vs, min(4, len(vs)))]
        if r.random() < .25:
            s, docs = {'items': s}, [[x] for x in docs]
        return sem.case(s, docs, 7 if k == 'const' else r.choice([3, 4, 7]), combos=[list(r.choice(pairs)) for _ in range(4)])
    core.sv_campaign(ctx, exe, make, ('load', 'verdict'), ctx.budget(20, 300), batch=1500)


def family(r):
    """A value and values that are equal or almost equal to it."""
    base = gvalue(r, r.choice([1, 2, 3]))
    g = Gen(r, 7)
    out = [base, shuffled(r, base)]
    for _ in range(r.choice([4, 6, 8])):
        x = out[r.randrange(len(out))]
        x = tweak(r, g, x)
        out.append(shuffled(r, x) if r.random() < .3 else x)
    return out


def tweak(r, g, v):
    x = r.random()
    if isinstance(v, list) and v and x < .7:
        w = list(v)
        i = r.randrange(len(w))
        w[i] = tweak(r, g, w[i])
        return w
    if isinstance(v, dict) and v and x < .7:
        w = dict(v)
        k = r.choice(list(w))
        w[k] = tweak(r, g, w[k])
        return w
    if isinstance(v, list):
        w = list(v)
        y = r.random()
        if w and y < .3:
            w.pop(r.randrange(len(w)))
        elif w and y < .6:
            w.insert(r.randrange(len(w) + 1), r.choice(w))
        elif y < .8:
            w.append(r.choice(SCALARS))
        else:
            w.reverse()
        return w
    if isinstance(v, dict):
        w = dict(v)
        y = r.random()
        if w and y < .35:
            del w[r.choice(list(w))]
        elif w and y < .6:
            k = r.choice(list(w))
            n = r.choice([k + 'x', k.upper(), k[:-1], r.choice(NAMES)])
            if n not in w:
                w = {(n if q == k else q): z for q, z in w.items()}
        elif w and y < .75 and len(w) > 1:
            a, b = r.sample(list(w), 2)
            w[a], w[b] = w[b], w[a]
        else:
            w[r.choice(NAMES)] = r.choice(SCALARS)
        return w
    if isinstance(v, Lit) and r.random() < .7:
        return respell(r, v)
    if isinstance(v, str) and not isinstance(v, Lit) and r.random() < .6:
        return r.choice([v + 'a', v[:-1], v.upper(), v + '\0', v + ' ', v[::-1]])
    return r.choice(SCALARS if r.random() < .85 else TIGHT)


def respell(r, v):
    from fractions import Fraction
    f = Fraction(str(v))
    if abs(f) >= 10 ** 15 or 0 < abs(f) < 10 ** -6 or len(str(v)) > 16:
        return v
    if f.denominator == 1 and abs(f) < 10 ** 12 and r.random() < .6:
        return num(r.choice(['%d', '%d.0', '%de0', '%d.00']) % int(f))
    return r.choice([v, num(str(int(f) + 1)), num('%s' % (float(f) + .5 if abs(f) < 10 ** 6 else float(int(f))))])
