"""Parser for the ECMAScript regular expressions the generators use: literals,
classes, groups, alternation, greedy repetition, anchors.  Anything else gives
an expression that never matches, so generators must stay inside the subset."""

ESC = {'d': [[48, 57]], 'w': [[48, 57], [65, 90], [95, 95], [97, 122]],
       's': [[9, 13], [32, 32]]}


class P:
    def __init__(self, s):
        self.s, self.i = s, 0

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else ''

    def next(self):
        c = self.s[self.i]
        self.i += 1
        return c

    def alt(self):
        a = [self.cat()]
        while self.peek() == '|':
            self.next()
            a.append(self.cat())
        return a[0] if len(a) == 1 else {'k': 'alt', 'a': a}

    def cat(self):
        a = []
        while self.peek() not in ('', '|', ')'):
            a.append(self.rep())
        return a[0] if len(a) == 1 else {'k': 'cat', 'a': a}

    def rep(self):
        r = self.atom()
        while True:
            c = self.peek()
            if c == '*':
                lo, hi = 0, -1
            elif c == '+':
                lo, hi = 1, -1
            elif c == '?':
                lo, hi = 0, 1
            elif c == '{':
                j = self.s.index('}', self.i)
                body = self.s[self.i + 1:j].split(',')
                lo = int(body[0])
                hi = lo if len(body) == 1 else (int(body[1]) if body[1] else -1)
                self.i = j
            else:
                return r
            self.next()
            r = {'k': 'rep', 'r': r, 'lo': lo, 'hi': hi}

    def atom(self):
        c = self.next()
        if c == '(':
            if self.peek() == '?':
                self.next()
                if self.next() != ':':
                    raise ValueError('group')
            r = self.alt()
            if self.next() != ')':
                raise ValueError('paren')
            return r
        if c == '^':
            return {'k': 'bol'}
        if c == '$':
            return {'k': 'eol'}
        if c == '.':
            return {'k': 'c', 'neg': 1, 'rs': [[10, 10], [13, 13]]}
        if c == '[':
            return self.cls()
        if c == '\\':
            return {'k': 'c', 'neg': 0, 'rs': self.escape()[0]} if self.peek() not in 'DWS' \
                else {'k': 'c', 'neg': 1, 'rs': ESC[self.next().lower()]}
        if c in '*+?{}':
            raise ValueError('quantifier')
        return {'k': 'c', 'neg': 0, 'rs': [[ord(c), ord(c)]]}

    def escape(self):
        c = self.next()
        if c in ESC:
            return ESC[c], False
        o = {'n': 10, 't': 9, 'r': 13, 'f': 12, 'v': 11}.get(c, ord(c))
        if c.isalnum() and c not in 'ntrfv':
            raise ValueError('escape')
        return [[o, o]], True

    def cls(self):
        neg = 0
        if self.peek() == '^':
            self.next()
            neg = 1
        rs = []
        while self.peek() != ']':
            c = self.next()
            if c == '\\':
                r, single = self.escape()
                if not single:
                    rs += r
                    continue
                lo = r[0][0]
            else:
                lo = ord(c)
            if self.peek() == '-' and self.s[self.i + 1] != ']':
                self.next()
                h = self.next()
                hi = self.escape()[0][0][0] if h == '\\' else ord(h)
            else:
                hi = lo
            rs.append([lo, hi])
        self.next()
        return {'k': 'c', 'neg': neg, 'rs': rs}


def parse(s):
    p = P(s)
    r = p.alt()
    if p.i != len(s):
        raise ValueError('trailing')
    return r


# patterns of the engine of VEngine; what its refused patterns are taken to say
ENGINE, ENGINE_NOT = 'engine', 'engine-not'


def tree(s, how):
    if how in (ENGINE, ENGINE_NOT):
        return {'k': 'eng', 'p': [ord(c) for c in s], 'h': how == ENGINE}
    return parse(s)
