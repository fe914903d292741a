"""Cases of op "sv": make them, drive them, turn observations into rows."""
import json

from . import rx
from .enc import enc, text


def case(schema, docs, draft=7, modes=((1, 1),), combos=(('rapidjson', 'rapidjson'),), remotes=None,
         fetch=None, destroy=False, **kw):
    c = {'op': 'sv', 'schema': text(schema), 'docs': [text(d) for d in docs], 'draft': draft,
         'modes': [list(m) for m in modes], 'combos': [list(x) for x in combos]}
    if fetch is None:
        fetch = remotes is not None
    if fetch:
        c['fetch'] = True
        c['remotes'] = {u: text(v) for u, v in (remotes or {}).items()}
    if destroy:
        c['destroy'] = True
    c.update(kw)
    c['_'] = {'schema': schema, 'docs': docs, 'remotes': remotes or {}, 'fetch': fetch}
    return c


def strip(c):
    return {k: v for k, v in c.items() if k != '_'}


def env(c, pat=None):
    m = c['_']
    pat = pat or c.get('pat', True)
    return {'docs': [{'u': [], 'v': enc(m['schema'], pat)}]
            + [{'u': list(u.encode()), 'v': enc(v, pat)} for u, v in m['remotes'].items()],
            'draft': c['draft'], 'fetch': bool(m['fetch']), 'strict': True, 'sdt': True,
            'custom': list(c.get('custom', []))}


def observe(c, o):
    """Distinct observations of one case, with the combos that made them."""
    if isinstance(o, dict):          # crash or timeout
        return [({'load': o['crash'], 'fet': [], 'r': []}, ['*'])]
    seen = {}
    nruns = len(c['docs']) * len(c['modes'])
    for oc in o:
        ob = {'load': oc['load'], 'fet': [list(e[1].encode()) for e in oc.get('log', []) if e[0] == 'fetch'], 'r': []}
        if oc['load'] == 'ok':
            rr = [None] * nruns
            for r in oc['r']:
                q = r[0] * len(c['modes']) + r[1]
                if r[2] == 'unparsed':
                    rr[q] = {'v': 'u', 'w': 'u', 'n': 0, 'e': []}
                else:
                    rr[q] = {'v': r[2], 'w': r[3], 'n': r[4],
                             'e': [{'p': [ord(ch) for ch in e[0]], 'x': [[ord(ch) for ch in y] for y in e[1]]}
                                   for e in r[5]]}
            ob['r'] = rr
        k = json.dumps(ob, sort_keys=True)
        seen.setdefault(k, (ob, []))[1].append('/'.join(oc['combo']))
    return list(seen.values())


def row(c, o, rid, asp):
    obs = observe(c, o)
    more = {'E2': env(c, rx.ENGINE_NOT)} if c.get('pat') == rx.ENGINE and 'throws' in c else {}
    return {**more, 'id': rid, 'E': env(c), 'vals': [enc(d) for d in c['_']['docs']],
            'modes': c['modes'], 'asp': list(asp), 'obs': [x for x, _ in obs]}
