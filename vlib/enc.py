"""JSON values as Python objects, JSON text, and the encoding TLC reads.

null/bool/str/list/dict are themselves; a number is a Lit, the exact literal.
"""
import json
import re

from . import rx


class Lit(str):
    """A JSON number literal."""
    __slots__ = ()


def num(x):
    return Lit(x if isinstance(x, str) else str(x))


def text(v):
    """JSON text of a value (ASCII only)."""
    if isinstance(v, Lit):
        return str(v)
    if v is None:
        return 'null'
    if v is True:
        return 'true'
    if v is False:
        return 'false'
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, list):
        return '[' + ','.join(text(x) for x in v) + ']'
    if isinstance(v, dict):
        return '{' + ','.join(json.dumps(k) + ':' + text(x) for k, x in v.items()) + '}'
    raise TypeError(repr(v))


def parse(s):
    """Value of a JSON text."""
    return json.loads(s, parse_int=Lit, parse_float=Lit)


def esc(s):
    """Text of a string with everything but printable ASCII escaped."""
    return json.dumps(s)[1:-1]


def cps(s):
    return [ord(c) for c in s]


def enc_num(lit):
    m = re.fullmatch(r'(-?)(\d+)(?:\.(\d+))?(?:[eE]([+-]?\d+))?', lit)
    ip, fp, e = m.group(2), m.group(3) or '', int(m.group(4) or 0)
    digits = ip + fp
    lead = len(digits) - len(digits.lstrip('0'))
    dg = digits.lstrip('0').rstrip('0')
    t = 'i' if m.group(3) is None and m.group(4) is None else 'd'
    if not dg:
        return {'t': t, 'ng': 0, 'dg': [], 'ex': 0}
    return {'t': t, 'ng': 1 if m.group(1) else 0, 'dg': [int(d) for d in dg],
            'ex': len(ip) - lead + e}


def enc(v, pat=False):
    """TLC encoding of a value; pat: attach syntax trees to regular expressions
    (True), or leave them to the engine of VEngine (rx.ENGINE, rx.ENGINE_NOT)."""
    if v is None:
        return {'t': 'n'}
    if isinstance(v, bool):
        return {'t': 'b', 'b': v}
    if isinstance(v, Lit):
        return enc_num(v)
    if isinstance(v, str):
        return {'t': 's', 'c': cps(v), 's': esc(v)}
    if isinstance(v, list):
        return {'t': 'a', 'e': [enc(x, pat) for x in v]}
    ms = []
    for k, x in v.items():
        e = enc(x, pat)
        if pat and k == 'pattern' and isinstance(x, str):
            e['rx'] = rx.tree(x, pat)
        if pat and k == 'patternProperties' and isinstance(x, dict):
            for m in e['m']:
                m['rx'] = rx.tree(esc_undo(m), pat)
        ms.append({'n': esc(k), 'c': cps(k), 'v': e})
    return {'t': 'o', 'm': ms}


def esc_undo(m):
    return ''.join(chr(c) for c in m['c'])
