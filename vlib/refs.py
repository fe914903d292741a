"""Schemas tied together by references, identifiers and remote documents."""
from urllib.parse import urljoin

from . import gen, sem
from .enc import Lit
from .gen import Gen

INPLACE = {'allOf', 'anyOf', 'oneOf', 'not', 'if', 'then', 'else', 'extends', 'dependencies', 'type'}
DEFNAMES = ['a', 'b', 'node', 'a/b', '~t', 'a~1b', 'x y', '0', '%41', 'a%2Fb', 'a#b', 'a?b', 'A"q', '\u00e9', 'items',
            'definitions', '-', 'a^b', '1', '\u20ac', 'properties']
HOSTS = ['http://h.org/d/root.json', 'http://h.org/root', 'http://h.org/d/e/main.json', 'https://x.example:80/a/b/c']
RELS = ['leaf.json', 'sub/leaf', '../up', '/abs/p', 'n1', 'n2.json', 'x/y/z', 'http://o.org/other', 'urn:ex:thing']
NAMED = ['#nm', '#foo', '#A', '#x1']


def subs(s, draft):
    """(tokens, subschema, applies to the same value) of a schema object."""
    out = []
    for k, v in s.items():
        inp = k in INPLACE
        if k in ('allOf', 'anyOf', 'oneOf') or (k in ('extends', 'items', 'type') and isinstance(v, list)):
            out += [((k, str(i)), x, inp) for i, x in enumerate(v)]
        elif k in ('properties', 'patternProperties', 'definitions', 'dependencies', 'x-defs'):
            if isinstance(v, dict):
                out += [((k, n), x, inp) for n, x in v.items()]
        elif k in ('not', 'if', 'then', 'else', 'items', 'additionalItems', 'additionalProperties', 'contains',
                   'propertyNames', 'extends', 'type', 'x-one'):
            out.append(((k,), v, inp))
    return [(t, x, i) for t, x, i in out if isinstance(x, dict)]


class RefGen(Gen):
    def __init__(self, rng, draft, ids=None, remotes=0, bad=0.04, weights=None, refp=0.3, depth=2, exotic=True):
        w = {'type': 2.5, 'numeric': 1, 'lengths': .7, 'properties': 3, 'items': 2, 'addprops': 1, 'required': 1,
             'allOf': 1, 'anyOf': 1, 'oneOf': .6, 'not': .5, 'if': .6, 'deps': .4, 'contains': .5, 'const': .5,
             'enum': .5, 'patprops': .4, 'extends': .5, 'propertyNames': .3}
        Gen.__init__(self, rng, draft, dict(w, **(weights or {})), depth=depth, odd=.15)
        self.refp, self.bad = refp, bad
        self.ids = rng.random() < .6 if ids is None else ids
        self.nremote = remotes
        self.exotic = exotic
        self.idkw = '$id' if draft == 7 else 'id'
        self.goal = {}

    def schema(self, depth=None):
        if depth is not None and self.chance(self.refp):
            return {'$ref': None}
        return Gen.schema(self, depth)

    def g_propertyNames(self, s, depth):
        s['propertyNames'] = self.r.choice([{'maxLength': gen.num(2)}, {'$ref': None}, {'pattern': '^[a-z]'}])

    def g_properties(self, s, depth):
        s['properties'] = {self.name(): self.schema(depth - 1) for _ in range(self.r.randint(0, 3))}

    def nonempty(self, depth):
        s = self.schema(depth)
        return s if isinstance(s, dict) and s else {'type': self.r.choice(gen.TYPES)}

    def document(self, kind):
        s = self.schema()
        while not isinstance(s, dict):
            s = self.schema()
        if '$ref' in s:
            s = {'allOf': [s]}
        n = self.r.choice([1, 2, 2, 3, 4])
        defs = {self.r.choice(DEFNAMES): self.schema(self.maxdepth) for _ in range(n)}
        s['definitions'] = defs
        if self.chance(.15) and self.exotic:
            s['x-defs'] = {self.r.choice(DEFNAMES): self.schema(1)}
        if self.chance(.1) and self.exotic:
            s['x-one'] = self.schema(1)
        if self.chance(.3):
            ks = list(s)
            self.r.shuffle(ks)
            s = {k: s[k] for k in ks}
        return s

    def add_ids(self, doc, uri):
        """Identifiers on some positions; the root gets an absolute one."""
        used = set()

        def visit(s, top):
            if '$ref' in s:
                return
            if top:
                s[self.idkw] = uri + self.r.choice(['', '', '#'])
            elif self.chance(.22):
                i = self.r.choice(RELS + NAMED * 2)
                if i not in used:
                    used.add(i)
                    items = list(s.items())
                    items.insert(self.r.randint(0, len(items)), (self.idkw, i))
                    s.clear()
                    s.update(items)
            for _, x, _ in subs(s, self.draft):
                visit(x, False)
        visit(doc, True)

    def infos(self, d, doc, uri):
        """Every schema object of a document, with how it can be named."""
        out = []

        def visit(s, path, base, res, rpath):
            # base: URI of the resource; rpath: path inside that resource
            name = None
            i = s.get(self.idkw) if '$ref' not in s else None
            if isinstance(i, str):
                i2 = i[:-1] if len(i) > 1 and i.endswith('#') else i
                if i2.startswith('#'):
                    name = i2
                else:
                    base = urljoin(base, i2) if not i2.startswith('urn:') else i2
                    rpath = ()
            inf = {'d': d, 'path': path, 'base': base, 'rpath': rpath, 'name': name, 's': s, 'top': not path}
            out.append(inf)
            for t, x, _ in subs(s, self.draft):
                visit(x, path + t, base, res, rpath + t)
        visit(doc, (), uri, uri, ())
        return out

    def ptr(self, toks):
        out = ''
        for t in toks:
            t = t.replace('~', '~0').replace('/', '~1')
            u = ''
            for ch in t:
                o = ord(ch)
                if ch in '%#' or (o < 33) or ch in '"^?' or o > 127:
                    must = ch in '%'
                    if must or self.chance(.6):
                        u += ''.join('%%%02x' % b if self.chance(.5) else '%%%02X' % b for b in ch.encode())
                        continue
                elif self.chance(.03):
                    u += '%%%02X' % o
                    continue
                u += ch
            out += '/' + u
        return out

    def refer(self, src, dst):
        """A reference that means dst when used at src, or None."""
        if not all(dst['rpath']) or not all(dst['path']):
            return None          # the lenient pointer form cannot name empty keys
        forms = []
        p = self.ptr(dst['rpath'])
        same = src['base'] == dst['base'] and src['d'] == dst['d']
        if same:
            forms += ['#' + p] * 4 if p else ['#', '#', '#/' if False else '#']
            if dst['name']:
                forms += [dst['name']] * 4
        if dst['base']:
            b = dst['base']
            full = [b + ('#' + p if p else self.r.choice(['', '#']))]
            if dst['name']:
                full.append(b + dst['name'])
            forms += full
            if src['base'].startswith('http') and b.startswith('http'):
                sb, tb = src['base'].split('/'), b.split('/')
                if sb[:3] == tb[:3]:
                    rel = ['/' + '/'.join(tb[3:])]
                    k = 3
                    while k < len(sb) - 1 and k < len(tb) - 1 and sb[k] == tb[k]:
                        k += 1
                    rel.append('../' * (len(sb) - 1 - k) + '/'.join(tb[k:]))
                    for x in rel:
                        if urljoin(src['base'], x) == b:
                            forms += [x + ('#' + p if p else '')] * 2
                            if dst['name']:
                                forms.append(x + dst['name'])
        return self.r.choice(forms) if forms else None

    def badref(self):
        return self.r.choice(['#/definitions/nope', '#/definitions/a/items/9', '#/definitions/%zz', '#nosuch', 'missing.json',
                              'http://gone.org/x#/a', '#/allOf/-', '#/allOf/01', '#x/definitions', 'http://h.org/d/root.json#nn',
                              '#/title', '#/definitions', '#/%'])

    def bundle(self):
        """Root schema, remote documents."""
        r = self.r
        uri = r.choice(HOSTS) if self.ids or (self.nremote and self.chance(.7)) else ''
        main = self.document('main')
        if uri:
            if self.ids:
                self.add_ids(main, uri)
            else:
                main[self.idkw] = uri
        docs = [(uri, main)]
        for k in range(self.nremote):
            base = uri or 'http://h.org/d/root.json'
            u = r.choice([urljoin(base, 'r%d.json' % k), 'http://rem.org/%d/s' % k, urljoin(base, '../q/r%d' % k),
                          'https://rem.org:8/r%d?v=1' % k])
            d = self.document('remote')
            if self.ids and self.chance(.5):
                self.add_ids(d, u)
            elif self.chance(.3):
                d[self.idkw] = u
            docs.append((u, d))
        inf = []
        for i, (u, d) in enumerate(docs):
            inf += self.infos(i, d, u)
        # may remote documents refer back to the main one?  Only when it is on offer
        back = bool(uri) and self.nremote > 0 and self.chance(.3)
        holes = [x for x in inf if '$ref' in x['s']]
        r.shuffle(holes)
        self.goal = {}
        for h in holes:
            ref = None
            if self.chance(self.bad):
                h['s']['$ref'] = self.badref()
                self.goal[id(h['s'])] = None
                continue
            for _ in range(8):
                pool = inf if self.chance(.5) else [x for x in inf if x['path'][:1] == ('definitions',)]
                t = r.choice(pool or inf)
                if self.makes_cycle(h['s'], t['s']):
                    continue
                # another document is only known by its own URI
                if t['d'] != h['d'] and (t['base'] != docs[t['d']][0] or (t['d'] == 0 and not back)):
                    continue
                ref = self.refer(h, t)
                if ref is not None:
                    break
            if ref is None:
                h['s'].pop('$ref')
                h['s']['type'] = r.choice(gen.TYPES)
                continue
            h['s']['$ref'] = ref
            self.goal[id(h['s'])] = t['s']
            if self.chance(.06):
                h['s'][r.choice(['type', 'title', 'description'])] = 'string'
        remotes = {u: d for u, d in docs[1:]}
        if back:
            remotes[uri] = main
        return main, remotes

    def makes_cycle(self, a, b):
        """Would a reference from a to b close a cycle that stays on one value?"""
        todo, seen = [b], set()
        while todo:
            s = todo.pop()
            if s is a:
                return True
            if not isinstance(s, dict) or id(s) in seen:
                continue
            seen.add(id(s))
            if '$ref' in s:
                t = self.goal.get(id(s))
                if t is not None:
                    todo.append(t)
                continue
            todo += [x for _, x, inp in subs(s, self.draft) if inp]
        return False

    def sat(self, s, root, depth=5):
        if isinstance(s, dict) and '$ref' in s:
            t = self.goal.get(id(s))
            return self.sat(t, root, depth - 1) if t is not None and depth > 0 else self.value(1)
        return Gen.sat(self, s, root, depth)

    def case(self, ndocs=5, **kw):
        main, remotes = self.bundle()
        docs = self.docs(main, ndocs)
        if not gen.valid_numbers([main] + list(remotes.values()) + docs):
            return None
        kw.setdefault('fetch', bool(remotes) or None)
        return sem.case(main, docs, draft=self.draft, remotes=remotes, **kw)
