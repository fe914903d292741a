"""Generators of schemas and documents for the semantic checks."""
from fractions import Fraction

from .enc import Lit, num

WORDS = ['a', 'b', 'c', 'ab', 'ba', 'abc', 'A', 'x1', '1a', 'zz']
NAMES = ['a', 'b', 'c', 'ab', 'ba', 'x1']
ODD_NAMES = ['a/b', '~t', 'a~1b', 'x y', '0', '', '%41', 'A"q', '$ref2', 'items', 'type', '-', 'a%2Fb']
UNI_WORDS = ['\u00e9', 'a\u0301', '\u20ac5', '\U0001f600', 'z\u00fcr', '\ufeffb', '\u07ff\u0800']
NUL_WORDS = UNI_WORDS + ['a\u0000b']
INTS = ['0', '1', '2', '3', '5', '7', '10', '-1', '-2', '12', '100']
DECS = ['0.5', '1.5', '2.0', '1.0', '-0.5', '2.25', '0.1', '0.3', '10.0', '1e2', '2.5e1', '1E0', '-3.0']
BIGS = ['900719925474000', '4294967296', '2147483648', '-2147483649', '1e10', '1e15', '123456789012345']
PATTERNS = ['a', '^a', 'b$', '^a+$', '[0-9]', '^[ab]*$', 'a.c', '^$', 'x|y', '(ab)+', '^(a|b)$', '\\d+',
            '[^a]', 'a{2}', 'b?', '^.{2,3}$', 'A', '^x[0-9]?', '\\.', '^\\w+$', 'a|^b', 'zz$']
FORMATS = ['date', 'time', 'date-time', 'ipv4', 'uri', 'madeup']
TYPES = ['array', 'boolean', 'integer', 'null', 'number', 'object', 'string']


class Gen:
    """Random schemas and documents of one draft.

    weights maps keyword groups to relative frequency; see GROUPS."""

    def __init__(self, rng, draft=7, weights=None, weak=False, unicode_ok=False, odd=0.1,
                 big=0.05, refs=False, depth=3, no_contains=False, patterns=None):
        self.r = rng
        self.draft = draft
        self.weak = weak
        self.uni = unicode_ok
        self.odd = odd
        self.big = big
        self.refs = refs
        self.maxdepth = depth
        self.engine = patterns     # patterns of another engine, instead of PATTERNS
        self.patterns = patterns or PATTERNS
        self.w = dict(DEFAULT_WEIGHTS)
        if weights:
            self.w = {k: 0 for k in self.w}
            self.w.update(weights)
        if draft == 3:
            for k in ('if', 'propertyNames', 'boolean', 'oneOf', 'anyOf', 'allOf', 'not', 'const', 'contains'):
                if k in ('if', 'propertyNames', 'boolean'):
                    self.w[k] = 0
        if draft == 4:
            for k in ('if', 'propertyNames', 'boolean'):
                self.w[k] = 0
        if draft != 3:
            for k in ('extends', 'typeschema', 'depstring'):
                self.w[k] = 0
        self.defs = []

    # ---- small things ----
    def chance(self, p):
        return self.r.random() < p

    def name(self):
        if self.chance(self.odd):
            return self.r.choice(ODD_NAMES)
        if self.uni and self.chance(0.15):
            return self.r.choice(UNI_WORDS)
        return self.r.choice(NAMES)

    def word(self):
        if self.uni and self.chance(0.3):
            w = self.r.choice(NUL_WORDS)
            return w + self.r.choice(['', 'a', self.r.choice(UNI_WORDS)])
        if self.weak and self.chance(0.5):
            return self.r.choice(['1', '2', '0', '-1', '1.5', '2.0', '0.5', '10', '1e1', 'true', 'false', '',
                                  'null', 'True', '1a', '5', '3', '.5', '1.', '-', '12'])
        return self.r.choice(WORDS + (['', '12', 'aa', 'aaa', 'aab', 'b.c', '2020-02-29', '127.0.0.1'] if self.chance(0.4) else []))

    def number(self):
        x = self.r.random()
        if x < self.big:
            return num(self.r.choice(BIGS))
        return num(self.r.choice(INTS if x < 0.65 else DECS))

    def scalar(self):
        x = self.r.random()
        if x < 0.12:
            return None
        if x < 0.3:
            return self.chance(0.5)
        if x < 0.65:
            return self.number()
        return self.word()

    def value(self, depth=2):
        x = self.r.random()
        if depth <= 0 or x < 0.55:
            return self.scalar()
        if x < 0.78:
            return [self.value(depth - 1) for _ in range(self.r.choice([0, 1, 1, 2, 2, 3]))]
        o = {}
        for _ in range(self.r.choice([0, 1, 1, 2, 3])):
            o[self.name()] = self.value(depth - 1)
        return o

    def vary(self, v):
        """A value near v (often equal)."""
        x = self.r.random()
        if x < 0.45:
            return v
        if isinstance(v, Lit):
            return self.near(v)
        if isinstance(v, str):
            return self.r.choice([v + 'a', v[1:], v.upper(), self.word()])
        if isinstance(v, list):
            w = list(v)
            if w and x < 0.6:
                i = self.r.randrange(len(w))
                w[i] = self.vary(w[i])
            elif w and x < 0.75:
                w.pop(self.r.randrange(len(w)))
            elif x < 0.9:
                w.insert(self.r.randrange(len(w) + 1), self.vary(self.r.choice(w)) if w else self.scalar())
            else:
                self.r.shuffle(w)
            return w
        if isinstance(v, dict):
            w = dict(v)
            ks = list(w)
            if ks and x < 0.65:
                k = self.r.choice(ks)
                w[k] = self.vary(w[k])
            elif ks and x < 0.8:
                del w[self.r.choice(ks)]
            elif x < 0.95:
                w[self.name()] = self.scalar()
            else:
                self.r.shuffle(ks)
                w = {k: w[k] for k in ks}
            return w
        return self.scalar()

    def near(self, lit):
        f = Fraction(str(lit))
        c = [f, f, f + 1, f - 1, f + Fraction(1, 2), f * 2]
        if abs(f) < 10 ** 9:
            c += [f + Fraction(1, 10)]
        return lit_of(self.r.choice(c), self.chance(0.3))

    # ---- schemas ----
    def schema(self, depth=None):
        if depth is None:
            depth = self.maxdepth
        if self.w.get('boolean') and self.chance(0.06):
            return self.chance(0.6)
        if self.refs and self.defs and self.chance(0.25):
            return {'$ref': '#/definitions/' + self.r.choice(self.defs)}
        s = {}
        groups = [g for g in self.w if self.w[g] > 0 and (depth > 0 or g in LEAF)]
        n = self.r.choice([0, 1, 1, 1, 2, 2, 3]) if depth < self.maxdepth else self.r.choice([1, 1, 2, 2, 3, 4])
        for _ in range(n):
            g = self.r.choices(groups, [self.w[x] for x in groups])[0]
            getattr(self, 'g_' + g)(s, depth)
        if self.chance(0.04):
            s[self.r.choice(['$comment', 'default', 'examples', 'x-unknown', 'readOnly'])] = self.value(1)
        if self.chance(0.03):
            s[self.r.choice(['title', 'description'])] = self.word()
        if self.chance(0.5):
            ks = list(s)
            self.r.shuffle(ks)
            s = {k: s[k] for k in ks}
        return s

    def root(self):
        s = self.schema()
        if not isinstance(s, dict) or '$ref' in s:
            return s
        return s

    def subs(self, depth, lo=1, hi=3):
        return [self.schema(depth - 1) for _ in range(self.r.randint(lo, hi))]

    def g_type(self, s, depth):
        names = TYPES + (['any'] if self.draft == 3 and self.chance(0.3) else [])
        if self.chance(0.75):
            s['type'] = self.r.choice(names)
        else:
            s['type'] = self.r.sample(names, self.r.randint(1, 3))

    def g_typeschema(self, s, depth):
        s['type'] = [self.r.choice(TYPES) if self.chance(0.5) else self.nonempty(depth - 1)
                     for _ in range(self.r.randint(1, 3))]

    def nonempty(self, depth):
        s = self.schema(depth)
        if not isinstance(s, dict) or not s:
            return {'type': self.r.choice(TYPES)}
        return s

    def g_enum(self, s, depth):
        s['enum'] = [self.value(2) for _ in range(self.r.randint(1, 3))]

    def g_const(self, s, depth):
        s['const'] = self.value(2)

    def g_numeric(self, s, depth):
        for k in ('minimum', 'maximum'):
            if self.chance(0.55):
                s[k] = self.number()
        if self.chance(0.4):
            if self.draft == 7:
                s[self.r.choice(['exclusiveMinimum', 'exclusiveMaximum'])] = self.number()
            else:
                k = self.r.choice(['inimum', 'aximum'])
                s.setdefault('m' + k, self.number())
                s['exclusiveM' + k] = self.chance(0.7)

    def g_multiple(self, s, depth):
        k = 'divisibleBy' if self.draft == 3 else 'multipleOf'
        s[k] = num(self.r.choice(['1', '2', '3', '5', '7', '1.0', '0.5', '0.25', '1.5', '2.5', '0.1', '0.01', '10', '1e1']))

    def g_lengths(self, s, depth):
        for k in ('minLength', 'maxLength'):
            if self.chance(0.6):
                s[k] = num(self.r.choice([0, 1, 1, 2, 2, 3, 4] + (['2.0'] if self.chance(0.1) else [])))

    def g_pattern(self, s, depth):
        if self.uni and not self.engine:
            return
        s['pattern'] = self.r.choice(self.patterns)

    def g_format(self, s, depth):
        s['format'] = self.r.choice(FORMATS)

    def g_sizes(self, s, depth):
        for k in self.r.sample(['minItems', 'maxItems'], self.r.randint(1, 2)):
            s[k] = num(self.r.randint(0, 3))

    def g_psizes(self, s, depth):
        for k in self.r.sample(['minProperties', 'maxProperties'], self.r.randint(1, 2)):
            s[k] = num(self.r.randint(0, 3))

    def g_unique(self, s, depth):
        s['uniqueItems'] = self.chance(0.85)

    def g_items(self, s, depth):
        if self.chance(0.45):
            s['items'] = self.schema(depth - 1)
        else:
            s['items'] = self.subs(depth, 0, 3)
        if self.chance(0.6):
            s['additionalItems'] = self.chance(0.3) if self.chance(0.5) else self.objschema(depth - 1)

    def objschema(self, depth):
        s = self.schema(depth)
        return s if isinstance(s, dict) else {}

    def g_contains(self, s, depth):
        s['contains'] = self.schema(depth - 1)

    def g_properties(self, s, depth):
        p = {}
        for _ in range(self.r.randint(0, 3)):
            p[self.name()] = self.schema(depth - 1)
        if self.draft == 3:
            for k in p:
                if '$ref' not in p[k] and self.chance(0.3):
                    p[k]['required'] = self.chance(0.75)
        s['properties'] = p

    def g_patprops(self, s, depth):
        if self.uni and not self.engine:
            return
        p = {}
        for _ in range(self.r.randint(1, 2)):
            k = self.r.choice(self.patterns)
            if self.chance(.2):         # the text of a property name
                n = self.r.choice(list(s.get('properties') or [self.name()]))
                k = n if n.isalnum() and n.isascii() else k
            p[k] = self.schema(depth - 1)
        s['patternProperties'] = p

    def g_addprops(self, s, depth):
        s['additionalProperties'] = self.chance(0.25) if self.chance(0.5) else self.objschema(depth - 1)

    def g_required(self, s, depth):
        if self.draft == 3:
            return
        s['required'] = uniq(self.name() for _ in range(self.r.randint(0, 2)))

    def g_deps(self, s, depth):
        d = {}
        for _ in range(self.r.randint(1, 2)):
            if self.chance(0.5):
                d[self.name()] = uniq(self.name() for _ in range(self.r.randint(0, 2)))
            else:
                d[self.name()] = self.nonempty(depth - 1) if not self.chance(0.1) or self.draft != 7 else self.chance(0.5)
        s['dependencies'] = d

    def g_depstring(self, s, depth):
        s['dependencies'] = {self.name(): self.name()}

    def g_propertyNames(self, s, depth):
        g = Gen(self.r, self.draft, NAME_WEIGHTS, self.weak, self.uni, depth=1, patterns=self.engine)
        s['propertyNames'] = g.schema(1)

    def g_allOf(self, s, depth):
        s['allOf'] = self.subs(depth)

    def g_anyOf(self, s, depth):
        s['anyOf'] = self.subs(depth)

    def g_oneOf(self, s, depth):
        s['oneOf'] = self.subs(depth)

    def g_not(self, s, depth):
        s['not'] = self.schema(depth - 1)

    def g_if(self, s, depth):
        if self.chance(0.93):
            s['if'] = self.schema(depth - 1)
        for k in ('then', 'else'):
            if self.chance(0.65):
                s[k] = self.schema(depth - 1)

    def g_extends(self, s, depth):
        s['extends'] = self.subs(depth) if self.chance(0.5) else self.nonempty(depth - 1)

    def g_boolean(self, s, depth):
        s[self.r.choice(['not', 'items', 'contains', 'additionalItems', 'if', 'then'])] = self.chance(0.5)

    # ---- documents that have a chance to be valid ----
    def sat(self, s, root, depth=4):
        if depth <= 0 or not isinstance(s, dict):
            return self.value(1)
        if '$ref' in s:
            t = local(root, s['$ref'])
            return self.sat(t, root, depth - 1) if t is not None else self.value(1)
        pick = [k for k in ('const', 'enum', 'anyOf', 'oneOf', 'allOf', 'not', 'if', 'then', 'else', 'extends') if k in s]
        if pick and self.chance(0.55):
            k = self.r.choice(pick)
            if k == 'const':
                return self.vary(s[k])
            if k == 'enum':
                return self.vary(self.r.choice(s[k])) if s[k] else self.value(1)
            if k in ('anyOf', 'oneOf', 'allOf'):
                return self.sat(self.r.choice(s[k]), root, depth - 1) if s[k] else self.value(1)
            t = s[k]
            return self.sat(self.r.choice(t) if isinstance(t, list) and t else t, root, depth - 1)
        kinds = []
        if any(k in s for k in ('properties', 'patternProperties', 'additionalProperties', 'required', 'dependencies',
                                'propertyNames', 'minProperties', 'maxProperties')):
            kinds.append('object')
        if any(k in s for k in ('items', 'contains', 'uniqueItems', 'minItems', 'maxItems')):
            kinds.append('array')
        if any(k in s for k in ('minimum', 'maximum', 'exclusiveMinimum', 'exclusiveMaximum', 'multipleOf', 'divisibleBy')):
            kinds.append('number')
        if any(k in s for k in ('minLength', 'maxLength', 'pattern', 'format')):
            kinds.append('string')
        t = s.get('type')
        if t is not None and (not kinds or self.chance(0.5)):
            kinds = t if isinstance(t, list) else [t]
        if not kinds or self.chance(0.07):
            return self.value(2)
        k = self.r.choice(kinds)
        if isinstance(k, dict):
            return self.sat(k, root, depth - 1)
        if k == 'object':
            return self.sat_object(s, root, depth)
        if k == 'array':
            return self.sat_array(s, root, depth)
        if k in ('number', 'integer'):
            lits = [s[x] for x in ('minimum', 'maximum', 'exclusiveMinimum', 'exclusiveMaximum', 'multipleOf', 'divisibleBy')
                    if isinstance(s.get(x), Lit)]
            v = self.near(self.r.choice(lits)) if lits and self.chance(0.8) else self.number()
            if self.weak and self.chance(0.4):
                return str(v)
            return v
        if k == 'string':
            return self.word_for(s)
        if k == 'boolean':
            return self.r.choice(['true', 'false']) if self.weak and self.chance(0.4) else self.chance(0.5)
        if k == 'null':
            return '' if self.weak and self.chance(0.4) else None
        return self.value(1)

    def word_for(self, s):
        if 'minLength' in s or 'maxLength' in s:
            n = int(float(s[self.r.choice([k for k in ('minLength', 'maxLength') if k in s])])) + self.r.choice([-1, 0, 0, 1])
            if self.chance(0.6):
                return ''.join(self.r.choice('ab1' if not self.uni else ['a', '\u00e9', '\u20ac', '\U0001f600', '\u0000'])
                               for _ in range(max(0, n)))
        return self.word()

    def sat_object(self, s, root, depth):
        o = {}
        req = s.get('required') if isinstance(s.get('required'), list) else []
        for k, sub in (s.get('properties') or {}).items():
            if k in req or self.chance(0.7):
                o[k] = self.sat(sub, root, depth - 1)
        for k in req:
            if k not in o and self.chance(0.85):
                o[k] = self.value(1)
        for k, d in (s.get('dependencies') or {}).items():
            if self.chance(0.7):
                o.setdefault(k, self.value(1))
                for x in (d if isinstance(d, list) else [d] if isinstance(d, str) else []):
                    if self.chance(0.7):
                        o.setdefault(x, self.value(1))
                if isinstance(d, dict) and self.chance(0.6):
                    v = self.sat(d, root, depth - 1)
                    if isinstance(v, dict):
                        o.update(v)
        extra = [self.name() for _ in range(self.r.choice([0, 0, 1, 2]))]
        for k in (s.get('patternProperties') or {}):
            extra += [w for w in WORDS if self.chance(0.15)]
        for k in extra:
            if k not in o:
                subs = list((s.get('patternProperties') or {}).values()) + [s.get('additionalProperties')]
                o[k] = self.sat(self.r.choice(subs), root, depth - 1)
        ks = list(o)
        self.r.shuffle(ks)
        return {k: o[k] for k in ks}

    def sat_array(self, s, root, depth):
        n = self.r.choice([0, 1, 2, 2, 3, 4])
        it = s.get('items')
        out = []
        for i in range(n):
            if out and 'uniqueItems' in s and self.chance(0.35):
                out.append(self.vary(self.r.choice(out)))
            elif isinstance(it, list) and i < len(it):
                out.append(self.sat(it[i], root, depth - 1))
            elif isinstance(it, list):
                out.append(self.sat(s.get('additionalItems'), root, depth - 1))
            elif 'contains' in s and self.chance(0.4):
                out.append(self.sat(s['contains'], root, depth - 1))
            else:
                out.append(self.sat(it, root, depth - 1))
        return out

    def docs(self, s, n):
        out = []
        for _ in range(n):
            x = self.r.random()
            if x < 0.15:
                out.append(self.value(3))
            else:
                v = self.sat(s, s)
                out.append(self.vary(v) if x < 0.45 else v)
        return out


LEAF = {'type', 'enum', 'const', 'numeric', 'multiple', 'lengths', 'pattern', 'format', 'sizes', 'psizes', 'unique',
        'required'}
DEFAULT_WEIGHTS = {'type': 3, 'enum': 1, 'const': 1, 'numeric': 1.5, 'multiple': 0.7, 'lengths': 1, 'pattern': 1,
                   'format': 0.4, 'sizes': 1, 'psizes': 1, 'unique': 0.8, 'items': 1.5, 'contains': 0.8,
                   'properties': 2, 'patprops': 1, 'addprops': 1, 'required': 1, 'deps': 0.8, 'depstring': 0.4,
                   'propertyNames': 0.6, 'allOf': 1, 'anyOf': 1, 'oneOf': 1, 'not': 0.8, 'if': 1, 'extends': 1,
                   'boolean': 0.4, 'typeschema': 0.6}
NAME_WEIGHTS = {'lengths': 1, 'pattern': 1, 'enum': 0.5, 'const': 0.3, 'type': 0.5, 'anyOf': 0.5, 'not': 0.5}


def uniq(xs):
    return list(dict.fromkeys(xs))


def lit_of(f, fancy=False):
    """Literal of a Fraction with a finite decimal expansion."""
    if f.denominator == 1:
        n = str(f.numerator)
        if fancy and abs(f.numerator) < 10 ** 9:
            n += '.0'
        return Lit('0' if n == '-0' else n)
    k = 0
    g = f
    while g.denominator != 1 and k < 6:
        g *= 10
        k += 1
    if g.denominator != 1:
        return Lit('0')
    s = str(abs(g.numerator)).rjust(k + 1, '0')
    return Lit(('-' if f < 0 else '') + s[:-k] + '.' + s[-k:])


def local(root, ref):
    """Target of a plain '#/a/b' reference, or None."""
    if not isinstance(ref, str) or not ref.startswith('#'):
        return None
    v = root
    for t in ref[1:].split('/')[1:]:
        t = t.replace('~1', '/').replace('~0', '~')
        if isinstance(v, dict) and t in v:
            v = v[t]
        elif isinstance(v, list) and t.isdigit() and int(t) < len(v):
            v = v[int(t)]
        else:
            return None
    return v


def valid_numbers(v):
    """Numbers stay inside what doubles and 64-bit integers represent exactly."""
    if isinstance(v, Lit):
        f = Fraction(str(v))
        return abs(f) <= 2 ** 53 - 1 and len(str(v).lstrip('-').replace('.', '').strip('0')) <= 16
    if isinstance(v, list):
        return all(valid_numbers(x) for x in v)
    if isinstance(v, dict):
        return all(valid_numbers(x) for x in v.values())
    return True
