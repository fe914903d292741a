"""C25: documents read from files."""
import itertools
import json
import re

from . import core, gen, run
from .enc import num, text
from .gen import Gen
from .props_lib import LITS, NAMES, SCALARS, enc_tree, gvalue

HOW = {'rapidjson': 'strict', 'nlohmann': 'strict', 'boost': 'strict', 'picojson': 'lax', 'jsoncpp': 'lax', 'poco': 'top', 'qtjson': 'top', 'qvariant': 'top',
       'ptree': 'ptree', 'yaml': 'yaml'}
LIBS = list(HOW)
ATOMS = ['{', '}', '[', ']', ',', ':', '"', '"a"', '1', '-', '.5', 'e1', '0', 'true', 'null', ' ', '\n', '\\', '\\u00e9']
# what readers with a mind of their own may take
EXTRA = ['/*x*/', '//x\n', '#x\n', "'a'", 'NaN', 'Infinity', '-Infinity', '+1', '01', '0x1', 'True', 'nil', 'a', '1.', '.5', '"\t"', '\x0c', '\u00a0', '"\\x41"', '"\\\'"']
FEW = ['[', ']', '{', '}', '"a"', '1', ':', ',']
WS = ['', '', '', ' ', '\n', '\t', '\r\n', '   ']


def spelled(r, v):
    """A value in one of the many ways to write it."""
    def ws():
        return r.choice(WS)
    if isinstance(v, list):
        return '[' + ws() + (ws() + ',' + ws()).join(spelled(r, x) for x in v) + ws() + ']'
    if isinstance(v, dict):
        return '{' + ws() + (ws() + ',' + ws()).join(string(r, k) + ws() + ':' + ws() + spelled(r, x) for k, x in v.items()) + ws() + '}'
    if type(v) is str:
        return string(r, v)
    t = text(v)
    if t[:1] in '-0123456789' and r.random() < .3:
        t = r.choice([t + 'e0', t + '.0' if '.' not in t and 'e' not in t else t, t.replace('e', 'E'), t + ('e+1' if 'e' not in t else ''), t + ('E-02' if 'e' not in t else '')])
    return t


def string(r, s):
    out = ''
    for ch in s:
        o, x = ord(ch), r.random()
        if ch in '"\\' or o < 32:
            short = {'"': '\\"', '\\': '\\\\', '\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r', '\t': '\\t'}.get(ch)
            out += short if short and x < .7 else '\\u%04x' % o
        elif ch == '/' and x < .5:
            out += '\\/'
        elif x < .15 and o < 0x10000:
            out += ('\\u%04X' if x < .07 else '\\u%04x') % o
        elif x < .15:
            out += '\\u%04x\\u%04x' % (0xd800 + ((o - 0x10000) >> 10), 0xdc00 + ((o - 0x10000) & 1023))
        else:
            out += ch
    return '"' + out + '"'


def spoilt(r, t):
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        i = r.randrange(len(t) + 1)
        x = r.random()
        if x < .35:
            t = t[:i] + t[i + 1:]
        elif x < .6:
            t = t[:i] + r.choice('{}[],:"\\-+.eE01 \ntfnu\'#/') + t[i:]
        elif x < .75:
            t = t[:i] + r.choice('{}[],:"\\-.e01 x') + t[i + 1:]
        elif x < .9:
            t = t[:i]
        else:
            k = [m.end() for m in re.finditer(r'[\[\]{},:]', t)]
            i = r.choice(k) if k and r.random() < .5 else i
            t = t[:i] + r.choice(ATOMS + EXTRA) + t[i:]
    return t


def fair(t):
    """Whether the libraries agree on what is a text of that kind at all."""
    if re.search(r'\d[\d.]{15}|[eE][+-]?\d{3}|[eE][+-]?[3-9]\d|[^\\](\\\\)*\\u0000|\0', t):
        return False
    if '\ufeff' in t or re.search(r'(?i)\\u[dD][89ab]..(?!\\u[dD][c-f])|(?<!\\u[dD][89ab]..)\\u[dD][c-f]', t):
        return False
    return len(t) < 4000


def plainly(t):
    """Flow collections that YAML reads as JSON does."""
    return not re.search(r'[\n\r\t]|\\u[dD][89a-fA-F]|\\/|[\x7f-\x9f\u2028\u2029\ufffe\uffff]|\\u00[0-9a-fA-F]{2}', t)


def c25(ctx):
    exe = run.build(ctx.work, (), extra=['files.cpp'] + ['files_%s.cpp' % l for l in LIBS])
    r = ctx.rng
    ctx.rule.append('Texts written to scratch files and read with loadDocument of every library: all sequences of up to three (thorough: four) tokens of an alphabet, values of '
                    'every kind in all spellings (white space, escapes, exponents), the same with characters lost, added and changed, missing files and '
                    'directories, several files read into one document object. TLC decides by the grammar of module VJson what has to be read, and the '
                    'tree it gives. Non-trivial: longer than six characters.')
    runs = []
    words = [''.join(p) for n in range(4 if not ctx.thorough else 5) for p in itertools.product(ATOMS, repeat=n)]
    words += [''.join(p[:k] + (e,) + p[k:]) for n in range(ctx.budget(3, 4)) for p in itertools.product(FEW, repeat=n) for k in range(n + 1) for e in EXTRA]
    words = [w for w in dict.fromkeys(words) if fair(w)]
    r.shuffle(words)
    runs += [words[i:i + 20] for i in range(0, len(words), 20)]
    vals = [v for v in SCALARS + LITS + [[x] for x in SCALARS] + [{'a': x} for x in SCALARS] + [{n: num(1)} for n in NAMES] + [[], {}, [[]], [{}], {'a': []}, {'a': {}}]
            if '\\u0000' not in text(v)]
    runs += [[spelled(r, v), text(v), None, spelled(r, v)] for v in vals]
    for _ in range(ctx.budget(600, 8000)):
        v = gvalue(r, r.choice([1, 2, 3]))
        t = [spelled(r, v) for _ in range(2)]
        t += [spoilt(r, r.choice(t)) for _ in range(4)] + [text(gvalue(r, 1)), r.choice(['', None, None, 1, r.choice(WS) + t[0] + r.choice(WS)])]
        r.shuffle(t)
        runs.append(t)
    for n in (1, 2, 19, 20, 21, 40, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 3900):
        runs.append(['[' + ','.join(['1'] * min(n, 260)) + ']', '"' + 'x' * n + '"', ' ' * n + '1', '1' + ' ' * n, '{"a":"' + 'y' * n + '"', '[' * min(n, 8) + ']' * min(n, 8),
                     ' ' * n + '}', '"' + 'z' * n, '[1' + ',' * n + ']', '"\u20ac' + '\u00e9' * (n // 2) + '"'])
    # long texts: the white space between two tokens many times
    sizes = [4095, 4096, 4097, 8191, 8192, 32767, 32768, 65535, 65536, 65537, 100000, 1 << 20] + ([1 << 24, (1 << 24) + 3] if ctx.thorough else [])
    for n in sizes:
        pre, post = r.choice([('{"a":', '"b€"}'), ('[1,', '{"x y":[2]}]'), ('', '{"k":[true,null]} '), ('{"a":["long"]', '}'), ('[[', '],"z"'), ('"q"', 'x'), ('{"a":1', '')])
        ch = r.choice(' \n\t\r')
        m = max(1, n - len((pre + post).encode()) + r.choice([-1, 0, 0, 1]))
        runs.append([[pre, ch, m, post], '[3]', ['{"a":', ' ', n, '"b€"}']])
    ctx.rng.shuffle(runs)
    runs = [[t for t in q if not isinstance(t, str) or fair(t)] for q in runs]
    cases = [{'op': 'files', 'dir': ctx.work.dir, 'libs': LIBS, 'runs': runs[i:i + 8]} for i in range(0, len(runs), 8)]
    for i in range(0, len(cases), 60):
        if len(ctx.violations) < 24:
            judge(ctx, exe, cases[i:i + 60])


def judge(ctx, exe, cases):
    rows, back = [], []
    for c, o in zip(cases, run.drive(ctx.work, exe, cases)):
        if isinstance(o, dict):
            ctx.violation('crash reading one of %s: %s' % (json.dumps(c['runs'])[:3000], o.get('stderr', '')[-300:]), {'kind': 'raw', 'case': c, 'key': None})
            continue
        for q, per in zip(c['runs'], o):
            for k, t in enumerate(q):
                seen = {}
                for l, got in zip(c['libs'], per):
                    how = HOW[l]
                    if t == 1 and how in ('ptree', 'yaml'):
                        continue
                    if how == 'yaml' and isinstance(t, str) and not plainly(t):
                        if got[k][0] != 'x':
                            continue
                    if how == 'yaml' and isinstance(t, list) and got[k][0] != 'x':
                        continue
                    key = json.dumps([how if isinstance(t, (str, list)) else '', got[k]], sort_keys=True)
                    seen.setdefault(key, []).append(l)
                    ctx.cov['evaluations'] += 1
                    ctx.cov['traces_validated_against_impl'] += 1
                if isinstance(t, str) and len(t) > 6:
                    ctx.distinct.add(t)
                for key, who in seen.items():
                    how, g = json.loads(key)
                    row = {'id': len(rows), 'k': 'file', 'has': isinstance(t, str), 'got': g[0], 'how': how, 'text': [ord(x) for x in t] if isinstance(t, str) else []}
                    if isinstance(t, list):
                        row.update(k='long', has=True, at=len(t[0]) + 1, text=[ord(x) for x in t[0] + t[1] + t[3]])
                    row['o'] = enc_tree(g[1]) if g[0] == 't' else 0
                    rows.append(row)
                    back.append((c, q[:k + 1], t, who, g))
    bad, st = run.check_rows(ctx.work, 'TTree', rows)
    ctx.states(*st)
    for i, _ in bad:
        c, q, t, who, g = back[i]
        ctx.violation('%s read by %s: %s' % ('a directory' if t == 1 else 'no file' if t is None else repr(t), ','.join(who), json.dumps(g)[:400]),
                      {'kind': 'raw', 'case': dict(c, libs=who, runs=[q]), 'key': None})
