"""C17, C18, C19: pointers, URIs, string lengths."""
import itertools
import json

from . import core, gen, run
from .enc import enc, num, parse, text

ALL = run.ALL_LIBS


def plain(v):
    """A value printed by the driver, as an encodable one."""
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, (int, float)):
        return num(repr(v))
    if isinstance(v, list):
        return [plain(x) for x in v]
    return {k: plain(x) for k, x in v.items()}


def leaf_check(ctx, rows, back, show):
    bad, st = run.check_rows(ctx.work, 'TLeaf', rows)
    ctx.states(*st)
    for i, why in bad:
        js = [int(x) for x in core.clean(why).strip('{}').split(',')]
        for j in js[:3]:
            what, payload = show(back[i], rows[i], j - 1)
            ctx.violation(what, payload)
    return bad


# ---------------------------------------------------------------- C17
PDOCS = [
    {'a': {'b': [num(10), num(11), {'c': 'deep'}], '': 'empty', '/': 'slash', '~': 'tilde', '~1': 't1', '~0': 't0', 'a/b': 'ab',
           'm~n': 'mn', '%': 'pct', '%25': 'pct25', ' ': 'space', '0': 'zero', '-': 'dash', '01': 'lead', '+1': 'plus'},
     '': {'': {'': 'eee'}, 'x': 'ex'}, '0': ['z0', 'z1'], 'é': 'eacute', '𝄞': 'clef', 'c%d': 'cd', '"': 'quote', '\\': 'back', '^': 'caret', '|': 'pipe'},
    [[num(0), num(1), num(2), num(3), num(4), num(5), num(6), num(7), num(8), num(9), num(100), num(101)], 'one', {'': ['in'], '2': 'k2'}, [], {}],
    {'1': {'1': {'1': 'q', '~': 'r', '/': 's', '': 't'}, '/': 'u'}, '~': {'1': 'v', '~': 'w', '': 'x'}, '/': {'0': 'y'}, '~1': 'z', '~01': 'A', '%': {'2': 'B'},
     'a': [['C', 'D'], 'E']},
    'scalar', num(5), None, True, [], {}, '']


def ptr_rows(ctx, exe, groups, libs):
    """groups: (document, [(pointer bytes, strict)])"""
    cases = [{'op': 'ptr', 'libs': libs, 'doc': text(d), 'ptrs': [[list(p), int(s)] for p, s in ps]} for d, ps in groups]
    obs = run.drive(ctx.work, exe, cases)
    rows, back = [], []
    for (d, ps), o, c in zip(groups, obs, cases):
        if isinstance(o, dict):
            ctx.violation('crash resolving pointers in %s: %s' % (c['doc'], o.get('stderr', '')[-300:]), {'kind': 'raw', 'case': c, 'key': None})
            continue
        seen = {}
        for l, r in zip(libs, o):
            seen.setdefault(json.dumps(r, sort_keys=True), []).append(l)
        for k, who in seen.items():
            r = json.loads(k)
            q = [{'p': list(p), 'st': bool(s), 'ok': x[0] == 'ok', 'r': enc(plain(x[1]))} for (p, s), x in zip(ps, r)]
            rows.append({'id': len(rows), 'k': 'ptr', 'v': enc(d), 'q': q})
            back.append((c, who, r))
        ctx.cov['evaluations'] += len(ps) * len(libs)
        ctx.cov['traces_validated_against_impl'] += len(ps) * len(libs)
        ctx.add('resolved', sum(x[0] == 'ok' for x in o[0]))
        for (p, s), x in zip(ps, o[0]):
            if x[0] == 'ok' and p:
                ctx.distinct.add((c['doc'], bytes(p), s))
    ctx.sample({'doc': cases[0]['doc'], 'pointers': [bytes(p).decode('latin1') for p, _ in groups[0][1][:20]]})

    def show(b, row, j):
        c, who, r = b
        p = bytes(c['ptrs'][j][0])
        return ('pointer %r (%s) in %s: observed %s (%s)' % (p.decode('latin1'), 'strict' if c['ptrs'][j][1] else 'lenient', c['doc'], r[j], ','.join(who)),
                {'kind': 'raw', 'case': dict(c, ptrs=[c['ptrs'][j]]), 'key': None})
    leaf_check(ctx, rows, back, show)


def c17(ctx):
    libs = ALL
    exe = run.build(ctx.work, libs, extra=['ops.cpp'])
    ctx.rule.append('Exhaustive: every pointer text up to length %d over the bytes / ~ 0 1 %% 2 5 a - and + in three documents chosen to '
                    'have a member for every unescaping mistake. Random: pointers to every node of generated documents with each token '
                    'spelled in all its escaped forms, then mutated. All eight adapters. Non-trivial: resolves to a node other than the root.' % ctx.budget(4, 6))
    alphabet = b'/~01%25a-+'
    n = ctx.budget(4, 5)
    ptrs = [bytes(t) for k in range(n + 1) for t in itertools.product(alphabet, repeat=k) if not t or t[0] == 47 or k <= 2]
    ptrs += [b'/%7E0', b'/%7e1', b'/~%30', b'/%2F', b'/%2f', b'/%25', b'/%25%32%35', b'/%2525', b'/a/%7E1', b'/a/~01', b'/a/~00', b'/a/~10', b'/%', b'/%2', b'/%G0',
             b'/% 2', b'/%+2', b'/%-1', b'/%0x', b'/%00', b'/a%00', b'/0/18446744073709551615', b'/0/18446744073709551616', b'/0/4294967296', b'/0/9223372036854775808',
             b'/0/99999999999999999999999', b'/0/0000', b'/0/1e0', b'/0/1.0', b'/0/ 1', b'/0/1 ', b'/0/\t1', b'/0/-0', b'/0/-1', b'/0/+0', b'/0/0x1', b'/0/10', b'/0/11', b'/0/12']
    groups = [(d, [(p, s) for p in ptrs[i:i + 400] for s in (1, 0)]) for d in PDOCS[:3] for i in range(0, len(ptrs), 400)]
    ptr_rows(ctx, exe, groups, libs if ctx.thorough else ['rapidjson', 'nlohmann', 'boost'])
    groups = [(d, [(p, s) for p in ptrs[::29 if not ctx.thorough else 7] for s in (1, 0)]) for d in PDOCS]
    ptr_rows(ctx, exe, groups, libs)
    r = ctx.rng
    import time
    t0 = time.time()
    while time.time() - t0 < ctx.budget(16, 300) and len(ctx.violations) < 20:
        groups = []
        for _ in range(400):
            d = pdoc(r, r.choice([2, 3, 4]))
            ps = []
            for toks in nodes(d):
                p = b''.join(b'/' + spell(r, t) for t in toks)
                ps.append((p, 1))
                if r.random() < .6:
                    ps.append((mutate(r, p), r.random() < .7))
            ps = [(p, s) for p, s in ps if b'\0' not in p and b'%00' not in p]
            r.shuffle(ps)
            groups.append((d, ps[:40]))
        ptr_rows(ctx, exe, groups, libs)


NAMES = ['a', 'b', '0', '1', '2', '10', '', '~', '/', '~0', '~1', '~01', 'a/b', '%', '%41', 'A', ' ', 'é', '日本', '𝄞', '-', '00', '01', '+1', '#', '"', '\\', 'x y', '1e0', '?']


def pdoc(r, depth):
    k = r.random()
    if depth == 0 or k < .1:
        return r.choice([num(r.randrange(10 ** 6)), 's%d' % r.randrange(10 ** 6)])
    if k < .45:
        return [pdoc(r, depth - 1) for _ in range(r.choice([0, 1, 2, 3, 3, 12]))]
    return {n: pdoc(r, depth - 1) for n in r.sample(NAMES, r.choice([0, 1, 2, 3, 4]))}


def nodes(d):
    yield ()
    if isinstance(d, list):
        for i, x in enumerate(d):
            for t in nodes(x):
                yield (str(i),) + t
    elif isinstance(d, dict):
        for k, x in d.items():
            for t in nodes(x):
                yield (k,) + t


def spell(r, t):
    out = b''
    for b in t.encode():
        c = {126: b'~0', 47: b'~1'}.get(b, bytes([b]))
        if b == 37 or r.random() < .25:
            c = b''.join(b'%%%02X' % x if r.random() < .5 else b'%%%02x' % x for x in c) if b == 37 or r.random() < .7 else \
                b''.join(b'%%%02X' % x if r.random() < .5 else bytes([x]) for x in c)
        out += c
    return out


def mutate(r, p):
    p = bytearray(p)
    for _ in range(r.choice([1, 1, 2])):
        i = r.randrange(len(p) + 1)
        k = r.random()
        if k < .4:
            p.insert(i, r.choice(b'/~%0123-+aA \x80'))
        elif k < .7 and i < len(p):
            del p[i]
        elif i < len(p):
            p[i] = r.choice(b'/~%0123-+aA9')
    return bytes(p)


# ---------------------------------------------------------------- C18
def uri_rows(ctx, exe, pairs):
    cases = [{'op': 'uri', 'pairs': [[list(b), list(r)] for b, r in pairs[i:i + 300]]} for i in range(0, len(pairs), 300)]
    obs = run.drive(ctx.work, exe, cases)
    rows, back = [], []
    for c, o in zip(cases, obs):
        if isinstance(o, dict):
            ctx.violation('crash resolving URIs: %s' % o.get('stderr', '')[-300:], {'kind': 'raw', 'case': c, 'key': None})
            continue
        q = [{'b': p[0], 'r': p[1], 'res': x['r'] if x['r'] != 'x' else [0], 'again': x['again'] if x['again'] != 'x' else [0], 'abs': x['abs'],
              'urn': x['urn'], 'hu': x['hu'], 'u': x['u'], 'hf': x['hf'], 'f': x['f']} for p, x in zip(c['pairs'], o)]
        rows.append({'id': len(rows), 'k': 'uri', 'q': q})
        back.append((c, o))
        ctx.cov['evaluations'] += len(q)
        ctx.cov['traces_validated_against_impl'] += len(q)
        for p, x in zip(c['pairs'], o):
            if x['r'] != p[0] and x['r'] != p[1]:
                ctx.distinct.add((bytes(p[0]), bytes(p[1])))
    ctx.sample([[bytes(b).decode('latin1'), bytes(r).decode('latin1')] for b, r in pairs[:8]])

    def show(b, row, j):
        c, o = b
        x = o[j]
        s = lambda v: bytes(v).decode('latin1') if isinstance(v, list) else v
        return ('base %r reference %r: observed %r, resolved again %r, absolute %s, split %r %r' % (
            s(c['pairs'][j][0]), s(c['pairs'][j][1]), s(x['r']), s(x['again']), x['abs'], s(x['u']) if x['hu'] else None, s(x['f']) if x['hf'] else None),
            {'kind': 'raw', 'case': dict(c, pairs=[c['pairs'][j]]), 'key': None})
    leaf_check(ctx, rows, back, show)


SEGS = ['a', 'b', '.', '..', '...', 'c.d', '.e', '%2e', 'x:y', 'g;p=1', '~', 'a b']


def c18(ctx):
    exe = run.build(ctx.work, ['rapidjson'], extra=['ops.cpp'])
    ctx.rule.append('Exhaustive: every reference of up to %d segments from a, .., ., c.d with and without leading and trailing slash, query and '
                    'fragment, against bases of every depth from zero to four with and without trailing slash, query and fragment; every '
                    'reference text up to length %d over / . # ? a. Random: longer ones with awkward segments. Cases outside the domain '
                    '(UriDomain of VUri, the deviations listed in uri.md) only check the split. Non-trivial: the result differs from base '
                    'and reference.' % (ctx.budget(4, 5), ctx.budget(5, 7)))
    bases = ['http://h' + p + q + f for p in ('', '/', '/a', '/a/', '/a/b', '/a/b/', '/a/b/c', '/a/b/c/d', '/a/../b', '/a/./b', '/a/b/..', '/../x')
             for q in ('', '?q', '?q=/x/y', '?') for f in ('', '#f', '#/d/e', '#')]
    bases += ['https://u:p@h.org:8080/a/b', 'file:///a/b', 'x+y-z.1://h/p/q', 'http://[::1]:80/a/b', 'http://h/a:b/c', 'rel/a/b', 'a', '/abs/x', '', 'urn:ex:a', '../r/s']
    odd = ['http://h/a?q?r/s', 'http://h/a/b?x=http://o/p?y', 'http://h/a/b#f?g', 'http://h/a/b?q#f?g/h', 'http://h/a/b?q#f#g', 'http://h/a/b??', 'http://h?q?r', 'http://h/a?/b/c?/d/e',
           'http://h/' + 'n' * 300 + '/b?q', 'http://h/' + 'a/' * 60 + 'b?q?r#f', 'http://' + 'h' * 80 + '/a/b', 'http://h/a/b?' + 'q' * 300 + '/c?d', '?q', 'a?q?r', '/a/b?q?r']
    bases += odd
    refs = []
    for n in range(0, ctx.budget(4, 5) + 1):
        for t in itertools.product(('a', '..', '.', 'c.d'), repeat=n):
            for lead in ('', '/'):
                for trail in ('', '/'):
                    p = lead + '/'.join(t) + (trail if t else '')
                    refs.append(p)
    refs = sorted(set(refs))
    sfx = ['', '?x', '#y', '?x#y', '#/y/z', '?x/../y', '#a?b', '#', '?']
    r = ctx.rng
    pairs = [(b, p) for b in bases[::1 if ctx.thorough else 7] + bases[-11:] for p in refs]
    pairs += [(r.choice(bases), p + s) for p in refs for s in sfx]
    for n in range(0, ctx.budget(5, 7) + 1):
        for t in itertools.product('/.#?a', repeat=n):
            pairs.append((r.choice(bases), ''.join(t)))
    for p in ('http://x/y', 'http://x/../y', 'HTTP://X', 'urn:example:foo', 'urn:isbn:978', 'urn:a:b', 'urn:', 'urn:x', 'urn:ex:a#f', 'http:', 'http:/x', '://x', ':', 'a:b',
              'http://', '#http://x', '?http://x', 'a/http://b', 'URN:example:a', 'urnx:y', 'é', 'a%2Fb', '##', '#a#b', '?a?b'):
        pairs += [(b, p) for b in bases]
    for p in ('c', '../c', './', '/c/d', '?z', '#z', 'c?z?w', 'c?z#w?v', '?z?w', '#z?w', '#z#w', '', '../../c/../d?e/../f', 'n' * 300, 'a/' * 60 + 'c', '../' * 60 + 'c', './' * 60 + 'c', 'c?' + 'q' * 300,
              'c#' + 'f' * 300, 'a/../' * 60, '//o/p?q?r'):
        pairs += [(b, p) for b in odd + bases[:40]]
    for i in range(0, len(pairs), 30000):
        uri_rows(ctx, exe, [(b.encode(), p.encode()) for b, p in pairs[i:i + 30000]])
    import time
    t0 = time.time()
    while time.time() - t0 < ctx.budget(15, 200) and len(ctx.violations) < 20:
        ps = []
        for _ in range(10000):
            b = r.choice(['http://h', 'https://e.org:1', 'ftp://u@h', 'x://y', '']) + ''.join('/' + r.choice(SEGS) for _ in range(r.randrange(6))) + \
                r.choice(['', '', '/']) + r.choice(['', '', '?q=1', '?a/b']) + r.choice(['', '', '#frag', '#/p/q'])
            f = r.choice(['', '', '', '/', './', '../']) + '/'.join(r.choice(SEGS) for _ in range(r.randrange(7))) + r.choice(['', '/']) + \
                r.choice(['', '', '?z', '?z/..']) + r.choice(['', '', '#w', '#/w/../v'])
            ps.append((b.encode(), f.encode()))
        uri_rows(ctx, exe, ps)


# ---------------------------------------------------------------- C19
def utf8_rows(ctx, exe, strs):
    cases = [{'op': 'utf8', 'strs': [list(s) for s in strs[i:i + 500]]} for i in range(0, len(strs), 500)]
    obs = run.drive(ctx.work, exe, cases)
    rows, back = [], []
    for c, o in zip(cases, obs):
        if isinstance(o, dict):
            # find the string that does it
            for s in c['strs']:
                x = run.drive(ctx.work, exe, [{'op': 'utf8', 'strs': [s]}], parts=1)[0]
                if isinstance(x, dict):
                    ctx.violation('counting the characters of bytes %s: %s' % (s, x.get('stderr', '')[:300]), {'kind': 'raw', 'case': {'op': 'utf8', 'strs': [s]}, 'key': None})
                    break
            continue
        rows.append({'id': len(rows), 'k': 'utf8', 'q': [{'s': s, 'n': n} for s, n in zip(c['strs'], o)]})
        back.append((c, o))
        ctx.cov['evaluations'] += len(o)
        ctx.cov['traces_validated_against_impl'] += len(o)
        for s, n in zip(c['strs'], o):
            if n != len(s):
                ctx.distinct.add(bytes(s))
    ctx.sample([s.hex() for s in strs[-10:]])

    def show(b, row, j):
        c, o = b
        return 'bytes %s counted as %d characters' % (c['strs'][j], o[j]), {'kind': 'raw', 'case': {'op': 'utf8', 'strs': [c['strs'][j]]}, 'key': None}
    leaf_check(ctx, rows, back, show)


# one representative at each end of every class of bytes that table 3-7 tells apart
REPS = [0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xff]
CLASS = [0x41, 0x85, 0x95, 0xa5, 0xc1, 0xc5, 0xe0, 0xe5, 0xed, 0xf0, 0xf2, 0xf4, 0xf6, 0xfa]


def c19(ctx):
    exe = run.build(ctx.work, ['rapidjson'], extra=['ops.cpp'], san=True)
    ctx.rule.append('TLC explores the decoder automaton (module VUtf8Auto) over every string of byte classes up to length %d and checks that its '
                    'count agrees with the declarative one; exhaustively driven: every string of class representatives up to length %d and of '
                    'class boundary bytes up to length %d, in buffers of exactly their size under AddressSanitizer. Random: long well-formed strings '
                    'of characters from every plane and boundary, cut and spliced anywhere; minLength and maxLength on them. '
                    'Non-trivial: the count differs from the number of bytes.' % (ctx.budget(4, 5), ctx.budget(4, 5), ctx.budget(3, 3)))
    st = run.model(ctx.work, 'VUtf8Auto', {'MaxLen': ctx.budget(4, 5)}, inv=['Agrees', 'AppendOne', 'Within'])
    ctx.states(*st)
    strs = [bytes(t) for n in range(ctx.budget(4, 5) + 1) for t in itertools.product(CLASS, repeat=n)]
    strs += [bytes(t) for n in range(1, 4) for t in itertools.product(REPS, repeat=n)]
    utf8_rows(ctx, exe, strs)
    r = ctx.rng
    edge = [0, 1, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff]
    import time
    t0 = time.time()
    while time.time() - t0 < ctx.budget(15, 200) and len(ctx.violations) < 20:
        strs = []
        for _ in range(4000):
            n = r.choice([1, 2, 3, 5, 9, 17, 40])
            s = ''.join(chr(r.choice(edge)) if r.random() < .5 else chr(r.choice([r.randrange(0, 0x80), r.randrange(0x80, 0x800), r.randrange(0x800, 0xd800), r.randrange(0xe000, 0x10000), r.randrange(0x10000, 0x110000)]))
                        for _ in range(n)).encode()
            strs.append(s)
            k = r.randrange(len(s) + 1)
            strs.append(s[:k])
            strs.append(s[k:])
            b = bytearray(s)
            for _ in range(r.choice([1, 2, 3])):
                b[r.randrange(len(b))] = r.choice(REPS)
            strs.append(bytes(b))
            strs.append(bytes(b)[:k] + s)
        utf8_rows(ctx, exe, strs)
    lengths(ctx)


def lengths(ctx):
    """minLength and maxLength use that count."""
    from . import sem
    exe = run.build(ctx.work, ['rapidjson', 'nlohmann'], name='drv2')
    r = ctx.rng
    cases = []
    chars = ['a', '\0', 'é', '日', '𝄞', '\x7f', '\x80', '\u07ff', '\u0800', '\ud7ff', '\ue000', '\uffff', '\U00010000', '\U0010ffff', '\u0301', '\u200d']
    for n in range(0, 7):
        for k in ('minLength', 'maxLength'):
            docs = [''] + [''.join(t) for t in itertools.product(['a', 'é', '𝄞'], repeat=2)]
            docs += [''.join(r.choice(chars) for _ in range(m)) for m in range(8) for _ in range(4)]
            docs = list(dict.fromkeys(docs))
            for kk in ('minLength', 'maxLength'):
                s = {k: num(n), kk: num(r.randrange(7))} if k != kk else {k: num(n)}
                cases.append(sem.case(s, docs, r.choice([3, 4, 7]), combos=[('rapidjson', 'rapidjson'), ('nlohmann', 'nlohmann')]))
    core.sv_batch(ctx, exe, cases, ('load', 'verdict'))
