"""The frame every check runs in: seeds, budgets, evidence, findings, verdict."""
import hashlib
import json
import os
import random
import sys
import time

from . import run, sem
from .enc import text

FINDINGS = os.path.join(run.VERIF, 'known_findings.jsonl')
EVID = os.path.join(run.VERIF, 'evidence')


def load_findings(prop):
    """Entries of the known findings file that are still open, for prop."""
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            if line.startswith('{'):
                f = json.loads(line)
                if f['property'] == prop and f['status'] == 'known':
                    out.append(f)
    return out


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self.rng = random.Random('%s/%s/%d' % (prop, tier, seed))
        self.work = run.Work(prop)
        self.t0 = time.time()
        self.findings = load_findings(prop)
        self.violations = []          # (text, replay path)
        self.known = []
        self.cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'states': 0, 'transitions': 0,
                    'traces_validated_against_impl': 0, 'samples': []}
        self.notes = {}
        self.rule = []
        self.assumptions = []
        self.distinct = set()

    def elapsed(self):
        return time.time() - self.t0

    def budget(self, quick, thorough):
        return thorough if self.thorough else quick

    def sample(self, s):
        if len(self.cov['samples']) < 8:
            s = s if isinstance(s, str) else json.dumps(s)
            self.cov['samples'].append(s[:600])

    def add(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def states(self, gen, dist):
        self.cov['states'] += dist
        self.cov['transitions'] += max(0, gen - dist) or gen

    def violation(self, what, payload):
        """Report something the code does that the specification forbids."""
        key = payload.get('key')
        for f in self.findings:
            if key is not None and f['key'] == key:
                if f['key'] not in self.known:
                    self.known.append(f['key'])
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, f['what']))
                return
        os.makedirs(EVID, exist_ok=True)
        if len(self.violations) < 12:
            path = os.path.join(EVID, 'replay-%s-%d.json' % (self.prop, len(self.violations) + 1))
            payload = dict(payload, property=self.prop, what=what)
            with open(path, 'w') as f:
                json.dump(payload, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  ' + what[:1500])
        else:
            path = None
        self.violations.append((what, path))

    def finish(self, level='model_checking', exhaustive=None):
        c = dict(self.cov)
        c['distinct_nontrivial'] += len(self.distinct)
        c['rule'] = ' '.join(self.rule)
        c.update({k: v for k, v in self.notes.items() if k not in c})
        if exhaustive is not None:
            c['exhaustive'] = exhaustive
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': c,
              'assumptions': self.assumptions, 'wall_s': round(self.elapsed(), 2),
              'violations': len(self.violations)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        self.work.close()
        return 1 if self.violations else 0


def case_key(c):
    """Identity of an sv case: the schema, its remote documents and the draft."""
    m = c['_']
    body = json.dumps([text(m['schema']), c['draft'], sorted((u, text(v)) for u, v in m['remotes'].items())])
    return hashlib.sha256(body.encode()).hexdigest()[:16]


def clean(s):
    """Readable form of what TLC printed about a rejected row."""
    return s.replace('\\"', '"').strip('"')


def expect(ctx, c, o, asp):
    """What the specification says about a case, as text (for reports)."""
    return None


def sv_batch(ctx, exe, cases, asp, module='TSem', after=None, inv='Check'):
    """Drive sv cases and have TLC check what they did; reports violations."""
    obs = run.drive(ctx.work, exe, [sem.strip(c) for c in cases])
    rows = [sem.row(c, o, i, c.get('asp', asp)) for i, (c, o) in enumerate(zip(cases, obs))]
    bad, st = run.check_rows(ctx.work, module, rows, inv=inv)
    ctx.states(st[0], st[1])
    for c, o, r in zip(cases, obs, rows):
        nv = nf = 0
        for ob in r['obs']:
            for x in ob['r']:
                nv += x['v'] == 't'
                nf += x['v'] == 'f'
        runs = len(c['docs']) * len(c['modes']) * len(c['combos'])
        ctx.cov['evaluations'] += max(1, runs)
        ctx.cov['traces_validated_against_impl'] += max(1, runs)
        ctx.add('valid', nv)
        ctx.add('invalid', nf)
        if any(ob['load'] != 'ok' for ob in r['obs']):
            ctx.add('not_loaded')
        if (nv and nf) or not c['docs']:
            ctx.distinct.add(case_key(c))
    for c in cases[:2]:
        ctx.sample({'draft': c['draft'], 'schema': c['schema'], 'docs': c['docs'][:3]})
    for at in range(0, len(bad), 24):
        if len(ctx.violations) >= 24:
            ctx.add('not_followed_up', len(bad) - at)
            break
        # again, each alone: what is reported has to be reproducible
        part = [i for i, _ in bad[at:at + 24]]
        o2 = [run.drive(ctx.work, exe, [sem.strip(cases[i])], parts=1)[0] for i in part]
        r2 = [sem.row(cases[i], o, k, cases[i].get('asp', asp)) for k, (i, o) in enumerate(zip(part, o2))]
        bad2, _ = run.check_rows(ctx.work, module, r2, inv=inv)
        if len(bad2) < len(part):
            ctx.add('not_reproduced', len(part) - len(bad2))
        for k, why in bad2:
            report_sv(ctx, cases[part[k]], o2[k], clean(why), asp)
    if after:
        for c, o in zip(cases, obs):
            after(ctx, c, o)
    return obs


def report_sv(ctx, c, o, why, asp):
    import re
    m = re.match(r'<<"(\w+)", (.*)>>', why)
    kind = m.group(1) if m else '?'
    qs = [int(x) for x in re.findall(r'\d+', m.group(2))] if m and kind == 'run' else []
    nm = len(c['modes'])
    lines = ['draft %d schema %s' % (c['draft'], c['schema'])]
    if c['_']['remotes']:
        lines.append('remotes %s' % json.dumps(c.get('remotes')))
    seen = sem.observe(c, o)
    if kind == 'load':
        lines.append('loading: specification says %s, observed %s' % (
            'ok' if m.group(2) == 'TRUE' else 'error',
            '; '.join('%s fetched %s (%s)' % (x['load'], [bytes(u).decode(errors='replace') for u in x['fet']],
                                              ','.join(who[:3])) for x, who in seen)))
    for q in qs[:3]:
        d, mm = (q - 1) // nm, (q - 1) % nm
        for x, who in seen:
            if q <= len(x['r']):
                r = x['r'][q - 1]
                lines.append('document %s mode %s: observed %s/%s, %d errors %s (%s)' % (
                    c['docs'][d], c['modes'][mm], r['v'], r['w'], r['n'],
                    [''.join(map(chr, e['p'])) for e in r['e']], ','.join(who[:3])))
    ctx.violation('; '.join(lines), {'kind': 'sv', 'case': {k: v for k, v in c.items() if k != '_'}, 'asp': list(asp),
                                     'why': why, 'key': case_key(c), 'observed': o})


def sv_campaign(ctx, exe, make, asp, seconds, batch=1500, limit=None, after=None):
    """Random cases in batches until the time is used up."""
    t0 = time.time()
    n = 0
    while True:
        cases = []
        want = batch if not limit else min(batch, limit - n)
        while len(cases) < want:
            c = make()
            if c is not None:
                cases.append(c)
        if not cases:
            break
        sv_batch(ctx, exe, cases, asp, after=after)
        n += len(cases)
        if time.time() - t0 > seconds or len(ctx.violations) > 20 or (limit and n >= limit):
            break
    ctx.add('random_cases', n)


def revive(case):
    """An sv case read back from a replay file."""
    from .enc import parse
    c = dict(case)
    c['_'] = {'schema': parse(c['schema']), 'docs': [parse(d) for d in c['docs']],
              'remotes': {u: parse(v) for u, v in c.get('remotes', {}).items()}, 'fetch': c.get('fetch', False)}
    return c
