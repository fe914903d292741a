"""C24: calls of several threads (VShare), under ThreadSanitizer."""
import json
import time

from . import core, gen, run, sem
from .enc import text
from .gen import num
from .props_life import ALIAS_W, PATS, STRS, like_session, session_schema
from .refs import RefGen

# libraries whose values can be read, copied and released by several threads, with everything they do visible to the sanitizer
LIBS = ['rapidjson', 'nlohmann', 'picojson', 'boost', 'jsoncpp']
JUNK = {3: [{'minLength': num(-1)}, {'$ref': '#/nowhere'}, {'properties': []}],
        4: [{'minLength': num(-1)}, {'$ref': '#/nowhere'}, {'allOf': [num(1)]}, {'type': num(1)}],
        7: [{'minLength': num(-1)}, {'$ref': '#/nowhere'}, {'allOf': [num(1)]}, {'type': num(1)}, {'contains': num(1)}]}
FORMATS = ['date', 'time', 'date-time', 'ipv4', 'ipv6', 'uri', 'hostname', 'email', 'regex']


def overlapping(h):
    """The pairs of calls that overlap."""
    n, now, out = 0, {}, set()
    for e in h:
        if e[0] == 'b':
            for j in now.values():
                out.add((j, n))
            now[e[1]] = n
            n += 1
        else:
            del now[e[1]]
    return out


def sameness(h):
    """Histories that differ in the order of unrelated beginnings only are one."""
    return json.dumps([[e[1:] for e in h if e[0] == 'b'], sorted(overlapping(h))])


def texts_for(r, n, d):
    """n schemas and documents for all of them."""
    cases, docs = [], []
    if d == 7 and r.random() < .3:
        ss, docs = like_session(r, n, 4)
        return [sem.case(s, docs, d) for s in ss], docs, None
    remotes = None
    while len(cases) < n:
        k = r.random()
        if k < .3 and d == 7:
            cases.append((session_schema(r), None))
            docs += [r.choice(STRS), {r.choice(STRS): r.choice(STRS)}, [r.choice(STRS)]]
        elif k < .4:
            cases.append(({'format': r.choice(FORMATS)}, None))
            docs += [r.choice(STRS)]
        elif k < .6 and remotes is None:
            c = RefGen(r, d, bad=0, remotes=r.choice([0, 1, 2])).case()
            if c is None:
                continue
            m = c['_']
            remotes = m['remotes'] if m['fetch'] else {}
            cases.append((m['schema'], remotes))
            docs += m['docs'][:3]
        else:
            g = gen.Gen(r, d, ALIAS_W, depth=r.choice([1, 2]))
            s = g.root()
            if not isinstance(s, dict):
                continue
            dd = g.docs(s, 3)
            if not gen.valid_numbers([s] + dd):
                continue
            cases.append((s, None))
            docs += dd
    r.shuffle(docs)
    docs = docs[:4]
    while len(docs) < 4:
        docs.append(r.choice(STRS))
    # one set of remote documents is offered to every load
    return [sem.case(s, docs, d, remotes=remotes or None, fetch=bool(remotes)) for s, _ in cases], docs, remotes


def c24(ctx):
    exe = run.build(ctx.work, LIBS, extra=['share.cpp'], tsan=True, opt='-O1')
    ctx.rule.append('TLC enumerates every history (VShare) of calls of two threads up to the stated length - loads, validations, validators '
                    'copied and handed over, schemas dropped, with every way in which the calls can overlap that the model allows - and '
                    'simulates long histories of four threads; each is instantiated with random schemas and replayed by real threads in a '
                    'process of its own under ThreadSanitizer, where exactly the calls that overlap in the history are unordered. No two '
                    'unordered calls may touch one object of which one writes, and every call has to return the verdict and errors of the '
                    'evaluator for its (mode, schema, document). Non-trivial: a history in which validations overlap.')
    b1, s1 = run.behaviours(ctx.work, 'VShare', {'NT': 2, 'NV': 2, 'NS': 1, 'NX': 1, 'ND': 1, 'Calls': ctx.budget(3, 4)}, inv=['NoRace'], props=['Steady'])
    b2, s2 = run.behaviours(ctx.work, 'VShare', {'NT': 4, 'NV': 5, 'NS': 4, 'NX': 4, 'ND': 4, 'Calls': 40}, inv=['NoRace'],
                            simulate=ctx.budget(60, 600), depth=84, seed=ctx.seed)
    ctx.states(*s1)
    ctx.states(*s2)
    r = ctx.rng
    small = list({sameness(h): h for h in b1 if overlapping(h)}.values())
    modes = [[1, 1], [1, 0], [0, 1], [0, 0]]
    supp = 0
    t0 = time.time()
    turn = 0
    while turn == 0 or (time.time() - t0 < ctx.budget(20, 300) and not ctx.violations):
        turn += 1
        drv, svs = [], []
        hs = (small if len(small) < 600 else r.sample(small, 600)) + b2 if turn == 1 else b2
        for h in hs:
            d = r.choice([3, 4, 7, 7])
            cases, docs, remotes = texts_for(r, 4, d)
            c = {'op': 'share', 'hist': h, 'threads': 1 + max(e[1] for e in h), 'places': 4, 'validators': 5, 'modes': modes,
                 'texts': [text(r.choice(JUNK[d]))] + [x['schema'] for x in cases], 'docs': cases[0]['docs'], 'draft': d,
                 'schemalib': r.choice(LIBS), 'doclib': r.choice(LIBS), 'own': r.random() < .3, 'log': ctx.work.path('tsan-%d' % len(drv))}
            if remotes:
                c['remotes'] = {u: text(v) for u, v in remotes.items()}
            drv.append(c)
            svs.append((cases, docs, remotes))
        obs = run.drive(ctx.work, exe, drv, limit=60)
        back = {}
        for k, (c, o) in enumerate(zip(drv, obs)):
            h = c['hist']
            ctx.cov['traces_validated_against_impl'] += 1
            if o.get('crash'):
                ctx.violation('%s in threads %s\n%s' % (o['crash'], json.dumps(c)[:1500], o.get('log', '')), {'kind': 'raw', 'case': c, 'key': None})
                continue
            if o['races']:
                ctx.violation('two calls that overlap touch the same memory: %s\nin %s' % (o['log'][:1200], json.dumps(c)[:1500]),
                              {'kind': 'raw', 'case': c, 'log': o['log'], 'key': None})
                if len(ctx.violations) > 10:
                    break
                continue
            said, now, n = [], {}, 0
            for e in h:
                if e[0] == 'b':
                    now[e[1]] = n
                    n += 1
                else:
                    said.append((now[e[1]], e[2]))
            pairs = overlapping(h)
            calls = [e[2] for e in h if e[0] == 'b']
            if any(calls[i][0] == calls[j][0] == 'val' for i, j in pairs):
                ctx.distinct.add(json.dumps(sorted(pairs)) + json.dumps(calls))
            for j, y in said:
                x = o['calls'][j]
                ctx.cov['evaluations'] += 1
                if y[0] == 'says':
                    back.setdefault((text(svs[k][0][y[2] - 1]['_']['schema']), text(svs[k][1][y[3] - 1]), y[1], calls[j][4] > 0, json.dumps(x)),
                                    (k, j, y))
                elif x[0] != ('-' if y[0] == '-' else 'ok' if y[1] else 'err'):
                    ctx.violation('call %d of %s returned %s, not %s' % (j, json.dumps(c)[:1500], x, y), {'kind': 'raw', 'case': c, 'key': None})
        rows, keys = [], list(back)
        for i, key in enumerate(keys):
            k, j, y = back[key]
            x = json.loads(key[4])
            m = svs[k][0][y[2] - 1]['_']
            c = sem.case(m['schema'], [svs[k][1][y[3] - 1]], drv[k]['draft'], modes=[modes[y[1] - 1]], remotes=m['remotes'] or None, fetch=m['fetch'])
            row = sem.row(c, [], i, ('load', 'verdict') + (('errs',) if key[3] else ()))
            row['obs'] = [{'load': 'ok', 'fet': [], 'r': [{'v': x[0], 'w': x[0], 'n': len(x[1]), 'e': [
                {'p': [ord(ch) for ch in e[0]], 'x': [[ord(ch) for ch in z] for z in e[1]]} for e in x[1]]}]}]
            rows.append(row)
        bad, st = run.check_rows(ctx.work, 'TSem', rows)
        ctx.states(*st)
        for i, why in bad:
            k, j, y = back[keys[i]]
            c = drv[k]
            ctx.violation('threads %s: call %d, schema %s on %s in mode %s returned %s' % (
                json.dumps(c['hist'])[:800], j, keys[i][0], keys[i][1], modes[y[1] - 1], keys[i][4]), {'kind': 'raw', 'case': c, 'key': None})
            if len(ctx.violations) > 20:
                break
        ctx.add('distinct_calls', len(keys))
        ctx.add('histories', len(hs))
    ctx.sample(b2[0][:20])
