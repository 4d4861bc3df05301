"""C14: JSON serialisation is faithful."""

import itertools
import json
import math
import struct

from bare_script import evaluate_expression, execute_script, parse_expression, parse_script

from core import Enum, Gen
from harness import LIBRARY, call
from ref.values import clone, compare, json_text, same, show, vtype

RULE = ('JSON values (depth 5; strings over an adversarial alphabet, every BMP code point once as string and as key, non-BMP; doubles by bit '
        'pattern, integral numbers of every magnitude; shared sub-values; insertion orders) through jsonStringify without and with every indent '
        '1..8, read back with jsonParse and with an independent strict JSON reader that also checks key order and number spelling; pairs '
        'of different values must differ as text and as grouping keys. Every string of length <= 4 over {a . 0 , ] }} in 8 contexts. '
        'Non-trivial: the value has a string of 2 or more characters, a container or a non-one-digit number; distinct by text and indent.')
ASSUMPTIONS = ['Keys are sorted by code point; lone surrogates are no Unicode strings.', '0 and -0 are equal values.']

OPTIONS = {'globals': dict(LIBRARY)}
CONCAT = parse_expression("'' + xx")


class Bad(Exception):
    """Not valid JSON."""


class Reader:
    """A strict JSON reader (RFC 8259), independent of the json module."""

    def __init__(self, text):
        self.t = text
        self.i = 0

    def read(self):
        self.ws()
        v = self.value()
        self.ws()
        if self.i != len(self.t):
            raise Bad(f'text after the value at {self.i}')
        return v

    def ws(self):
        while self.i < len(self.t) and self.t[self.i] in ' \t\r\n':
            self.i += 1

    def value(self):
        t = self.t
        ch = t[self.i:self.i + 1]
        for word, v in (('null', None), ('true', True), ('false', False)):
            if t.startswith(word, self.i):
                self.i += len(word)
                return v
        if ch == '"':
            return self.string()
        if ch == '[':
            out = []
            self.i += 1
            self.ws()
            if self.eat(']'):
                return out
            while True:
                self.ws()
                out.append(self.value())
                self.ws()
                if self.eat(']'):
                    return out
                self.need(',')
        if ch == '{':
            out = {}
            last = None
            self.i += 1
            self.ws()
            if self.eat('}'):
                return out
            while True:
                self.ws()
                k = self.string()
                if last is not None and k <= last:
                    raise Bad(f'key {k!r} after key {last!r}')
                last = k
                self.ws()
                self.need(':')
                self.ws()
                out[k] = self.value()
                self.ws()
                if self.eat('}'):
                    return out
                self.need(',')
        return self.number()

    def eat(self, ch):
        if self.t[self.i:self.i + 1] == ch:
            self.i += 1
            return True
        return False

    def need(self, ch):
        if not self.eat(ch):
            raise Bad(f'expected {ch!r} at {self.i}: {self.t[max(0, self.i - 10):self.i + 10]!r}')

    def string(self):
        self.need('"')
        t = self.t
        out = []
        while True:
            ch = t[self.i:self.i + 1]
            if ch == '':
                raise Bad('open string')
            self.i += 1
            if ch == '"':
                break
            if ord(ch) < 0x20:
                raise Bad(f'control character {ch!r} in a string')
            if ch != '\\':
                out.append(ch)
                continue
            e = t[self.i:self.i + 1]
            self.i += 1
            if e == 'u':
                h = t[self.i:self.i + 4]
                if len(h) != 4 or any(x not in '0123456789abcdefABCDEF' for x in h):
                    raise Bad(f'escape {h!r}')
                self.i += 4
                out.append(chr(int(h, 16)))
            elif e and e in '"\\/bfnrt':
                out.append({'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}.get(e, e))
            else:
                raise Bad(f'escape {e!r}')
        s = ''.join(out)
        return s.encode('utf-16-le', 'surrogatepass').decode('utf-16-le', 'replace') if any('\ud800' <= x <= '\udfff' for x in s) else s

    def number(self):
        t = self.t
        i = j = self.i
        if t[j:j + 1] == '-':
            j += 1
        k = j
        while t[j:j + 1] and t[j] in '0123456789':
            j += 1
        if j == k or (t[k] == '0' and j - k > 1):
            raise Bad(f'no value at {i}: {t[max(0, i - 10):i + 10]!r}')
        point = False
        if t[j:j + 1] == '.':
            point = True
            k = j = j + 1
            while t[j:j + 1] and t[j] in '0123456789':
                j += 1
            if j == k:
                raise Bad(f'number without digits after the point at {i}')
        if t[j:j + 1] in ('e', 'E') and t[j:j + 1]:
            j += 1
            if t[j:j + 1] in ('+', '-') and t[j:j + 1]:
                j += 1
            k = j
            while t[j:j + 1] and t[j] in '0123456789':
                j += 1
            if j == k:
                raise Bad(f'number without an exponent at {i}')
        self.i = j
        x = float(t[i:j])
        if point and math.isfinite(x) and x == int(x):
            raise Bad(f'integral number written {t[i:j]}')
        if t[i:j].lstrip('-').isdigit():
            return int(t[i:j])
        return x


def reject_constant(name):
    raise Bad(f'constant {name}')


def pairs(items):
    if len({k for k, _ in items}) != len(items):
        raise Bad('duplicate key')
    return dict(items)


def round_trip(c, v, indent=None, text=None):
    """One value, one indent; gives the text."""
    before = clone(v)
    args = [v] if indent is None else [v, float(indent)]
    what = f'jsonStringify({show(v)}{"" if indent is None else f", {indent}"})'
    if text is None:
        text = call('jsonStringify', args, OPTIONS)
    if not isinstance(text, str):
        c.fail(f'{what} gives {text!r}')
    if not same(before, v, True):
        c.fail(f'{what} changed its argument to {show(v)}')
    try:
        mine = Reader(text).read()
    except Bad as exc:
        return c.fail(f'{what} gives {text!r}: {exc}')
    if not same(v, mine):
        c.fail(f'{what} gives {text!r}, which reads as {show(mine)}')
    try:
        std = json.loads(text, parse_constant=reject_constant, object_pairs_hook=pairs)
    except (ValueError, Bad) as exc:
        return c.fail(f'{what} gives {text!r}: {exc}')
    if not same(v, std):
        c.fail(f'{what} gives {text!r}, which json reads as {show(std)}')
    back = call('jsonParse', [text], OPTIONS)
    if not same(v, back):
        c.fail(f'{what} gives {text!r}, which jsonParse reads as {show(back)}')
    if (isinstance(v, (list, dict)) and v) or (isinstance(v, str) and len(v) > 1) or (vtype(v) == 'number' and abs(v) > 9):
        c.nontrivial(f'{indent} {text}')
    return text


# -- every short string -------------------------------------------------------------------------

CONTEXTS = [
    lambda s: s, lambda s: [s], lambda s: {s: s}, lambda s: [1.0, s, 2.0], lambda s: {'k': s, 'l': 3.0}, lambda s: {s: 1.0},
    lambda s: [[s], {s: [10.0]}, 0.5], lambda s: [s, s + '"', '\\' + s, 1e16]
]
INDENTS = [None, 1, 2, 3, 4, 5, 6, 7, 8]


def short_items(tier):
    strings = [''.join(t) for n in range(5) for t in itertools.product('a.0,]}', repeat=n)]
    strings += [''.join(t) for n in range(1, 4) for t in itertools.product('.0,"\\:e+1[{ \n/u', repeat=n)]
    for i, s in enumerate(dict.fromkeys(strings)):
        for k in range(len(CONTEXTS)):
            if tier == 'thorough':
                for indent in INDENTS:
                    yield s, k, indent
            else:
                yield s, k, None
                if i % 8 == k:
                    for indent in INDENTS[1:]:
                        yield s, k, indent
                else:
                    yield s, k, 1 + (i + k) % 8


def short_check(c, item):
    s, k, indent = item
    v = CONTEXTS[k](s)
    c.sample(f'{v!r} indent {indent}')
    round_trip(c, v, indent)


def code_items(_tier):
    for block in range(0, 0x10000, 128):
        if not 0xd800 <= block < 0xe000:
            yield block
    for block in (0x10000, 0x1f600, 0x2f800, 0x10ff80):
        yield block


def code_check(c, block):
    """Every code point, alone, in the middle of a string, and as a key."""
    c.sample(f'code points {block:#x}..')
    chars = [chr(block + i) for i in range(128)]
    for ch in chars:
        round_trip(c, [ch, f'a{ch}.0,', 1.0])
    round_trip(c, {ch: 1.0 for ch in reversed(chars)})
    round_trip(c, {f'.0{ch}]': ch for ch in chars}, 2)
    round_trip(c, ''.join(chars), None)
    c.weight = 131


def number_items(_tier):
    for e in range(-324, 309):
        yield 10, e
    for e in range(-1074, 1024, 3):
        yield 2, e


def number_check(c, item):
    base, e = item
    values = [float(f'{k}e{e}') for k in (1, 15, 12345, 9007199254740993)] if base == 10 else [math.ldexp(k, e) for k in (1.0, 1.5)]
    values = [v for v in values if math.isfinite(v)]
    values += [-v for v in values]
    if base == 10 and 0 <= e <= 30:
        values += [10 ** e, -10 ** e, 10 ** e + 1]
    c.sample(repr(values))
    c.weight = len(values) + 3
    for v in values:
        round_trip(c, v)
    round_trip(c, values)
    round_trip(c, values, 1 + e % 8)
    round_trip(c, {f'k{i}': [v, 'e+16'] for i, v in enumerate(values)}, 4)


# -- random values ------------------------------------------------------------------------------

ALPHABET = ['a', '.', '0', ',', ']', '}', '"', '\\', '/', '\n', '\t', '\0', '\x1f', '\x7f', ' ', ':', '[', '{', 'e', '+', '-', '1', 'é', '\u2028', '\U0001f600',
            '\uffff', '\U0010ffff', "'", 'u', '\b', '.0', '.0,', '1.0', '1e+16', '1.5e+16', '\\u0041', 'null', '<', '\\"', '00', '\u0130', '#', '&']


def string(c, length=6):
    return ''.join(c.pick(ALPHABET) for _ in range(c.draw(length + 1)))


def number(c):
    k = c.draw(8)
    if k == 0:
        return c.int(-3, 12)
    if k == 1:
        return float(c.int(-3, 12))
    if k == 2:
        return float(c.draw(10 ** c.int(1, 17)) * 10 ** c.draw(8))
    if k == 3:
        return c.draw(10 ** c.int(1, 20))
    if k == 4:
        return c.int(-10 ** 6, 10 ** 6) / c.pick([2, 10, 100, 1000, 8])
    if k == 5:
        return float(f'{c.draw(10 ** 5)}e{c.int(-30, 300)}')
    x = struct.unpack('>d', bytes(c.draw(256) for _ in range(8)))[0]
    return x if math.isfinite(x) else 0.0


def value(c, depth, shared=None):
    k = c.draw(12)
    shared = [] if shared is None else shared
    if depth <= 0 or k < 6:
        j = c.draw(6)
        if j == 0:
            return None
        if j == 1:
            return bool(c.draw(2))
        return number(c) if j <= 3 else string(c)
    if k == 11 and shared:
        return c.pick(shared)
    if k <= 8:
        out = [value(c, depth - 1, shared) for _ in range(c.draw(5))]
    else:
        out = {string(c, 3): value(c, depth - 1, shared) for _ in range(c.draw(5))}
    shared.append(out)
    return out


def random_values(c):
    v = value(c, c.int(0, 5))
    c.sample(show(v))
    plain = round_trip(c, v)
    indent = c.int(1, 8)
    round_trip(c, v, indent)
    c.weight = 2
    c.tag(f'root {vtype(v)}')
    # fresh results
    if isinstance(v, (list, dict)):
        x, y = call('jsonParse', [plain], OPTIONS), call('jsonParse', [plain], OPTIONS)
        if x is y or (isinstance(x, list) and any(a is b for a, b in zip(x, y) if isinstance(a, (list, dict)))):
            c.fail(f'jsonParse({plain!r}) gives a shared value')
    # the text of containers elsewhere is the same JSON
    if isinstance(v, (list, dict)):
        for what, t in (('concatenation', evaluate_expression(CONCAT, OPTIONS, {'xx': v})), ('stringNew', call('stringNew', [v], OPTIONS)),
                        ('arrayJoin', call('arrayJoin', [[v], ','], OPTIONS))):
            if not isinstance(t, str) or not same(v, read(t)):
                c.fail(f'{what} of {show(v)} gives {t!r}')


def large_values(c):
    """Long strings, arrays and objects, deep nesting, many keys."""
    k = c.draw(5)
    n = c.pick([16, 33, 64, 100, 129, 257, 600, 1500, 255, 256, 512, 513, 1023, 1024, 1025, 2500, 4097, 5000])
    if k == 0:
        v = ''.join(c.pick(ALPHABET) for _ in range(n))
        v = c.pick([v, [v, v + '0'], {v: v}])
    elif k == 1:
        v = [c.pick([number, number, lambda c: string(c, 3), lambda c: c.pick([None, True, [], {}, [1.0], {'a': 2.0}])])(c) for _ in range(n)]
    elif k == 2:
        v = {string(c, 4) + str(i * 7 % n): c.pick([None, 1.0, float(i), 'a', [float(i)]]) for i in range(n)}
    else:
        v = c.pick([1.0, 'x.0,', None, [], {}, [1.0, 2.5]])
        for i in range(c.int(6, 80)):
            how = c.draw(4)
            v = [v] if how == 0 else {string(c, 2): v} if how == 1 else [float(i), v, '.0'] if how == 2 else {'a': i, 'b': v, '\u00e9': '1.0'}
    c.sample(show(v))
    round_trip(c, v)
    round_trip(c, v, c.int(1, 8))
    c.weight = 2
    c.tag('large ' + (vtype(v) if k < 3 else 'depth'))


def read(t):
    try:
        return Reader(t).read()
    except Bad:
        return float('nan')


def variant(c, v):
    """Another value that looks like v."""
    k = c.draw(6)
    if isinstance(v, list) and v:
        i = c.draw(len(v))
        if k == 0:
            return v[:i] + v[i + 1:]
        if k == 1:
            return v[:i] + [v[i:]]
        return v[:i] + [variant(c, v[i])] + v[i + 1:]
    if isinstance(v, dict) and v:
        key = c.pick(list(v))
        out = dict(v)
        x = out.pop(key)
        if k == 0:
            return out
        if k == 1:
            out[variant(c, key) if isinstance(key, str) else key] = x
            return out
        out[key] = variant(c, x)
        return out
    if isinstance(v, str):
        j = c.draw(len(v) + 1)
        w = c.pick([v.replace('.0', ''), v[:j] + c.pick(ALPHABET) + v[j:], v[:j] + v[j + 1:], v + '.0', v + '\\', v.replace('\\', '/')])
        return w
    if isinstance(v, bool):
        return c.pick([int(v), not v, str(v).lower(), None])
    if v is None:
        return c.pick(['null', False, 0, '', [], {}])
    if vtype(v) == 'number':
        return c.pick([str(v), -v, v + 1, v * 1.5, math.nextafter(float(v), math.inf) if abs(v) < 1e308 else 0, bool(v), [v]])
    return c.pick([None, [], {}, '[]', '{}'])


def finite(v):
    if isinstance(v, list):
        return all(finite(x) for x in v)
    if isinstance(v, dict):
        return all(isinstance(k, str) and finite(x) for k, x in v.items())
    return not isinstance(v, float) or math.isfinite(v)


def distinct(c):
    """Different values never give the same text, and never fall into one group."""
    v = value(c, c.int(0, 4))
    w = variant(c, v)
    if not finite(w):
        w = None
    c.sample(f'{show(v)} | {show(w)}')
    indent = c.pick([None, None, 1, 2, 4, 8])
    a, b = round_trip(c, v, indent), round_trip(c, w, indent)
    equal = compare(v, w) == 0
    if not equal and a == b:
        c.fail(f'{show(v)} and {show(w)} both give {a!r}')
    if equal and a != b and not has_zero(v):
        c.fail(f'{show(v)} and {show(w)} are equal but give {a!r} and {b!r}')
    rows = [{'a': v, 'n': 1}, {'a': w, 'n': 1}]
    got = call('dataAggregate', [rows, {'categories': ['a'], 'measures': [{'field': 'n', 'function': 'count'}]}], OPTIONS)
    with c.inspect('dataAggregate'):
        counts = [r['n'] for r in got]
    if counts != ([2] if equal else [1, 1]):
        c.fail(f'dataAggregate groups {show(v)} and {show(w)}: {show(got)}')
    top = call('dataTop', [rows, 1.0, ['a']], OPTIONS)
    if not isinstance(top, list) or len(top) != (1 if equal else 2):
        c.fail(f'dataTop groups {show(v)} and {show(w)}: {show(top)}')
    joined = call('dataJoin', [[{'a': v}], [{'b': w}], 'a', 'b'], OPTIONS)
    if not isinstance(joined, list) or len(joined) != 1 or ('b' in joined[0]) is not equal:
        c.fail(f'dataJoin of {show(v)} and {show(w)}: {show(joined)}')
    c.weight = 2
    c.tag('equal' if equal else 'different')


def has_zero(v):
    if isinstance(v, list):
        return any(has_zero(x) for x in v)
    if isinstance(v, dict):
        return any(has_zero(x) for x in v.values())
    return vtype(v) == 'number' and v == 0


def source(v):
    """A script expression that builds v."""
    if v is None or isinstance(v, bool):
        return {None: 'null', True: 'true', False: 'false'}[v]
    if isinstance(v, str):
        return "'" + v.replace('\\', '\\\\').replace("'", "\\'") + "'"
    if isinstance(v, list):
        return 'arrayNew(' + ', '.join(source(x) for x in v) + ')'
    if isinstance(v, dict):
        return 'objectNew(' + ', '.join(f'{source(k)}, {source(x)}' for k, x in v.items()) + ')'
    return f"numberParseFloat('{v!r}')"


def floats(v):
    """v with every number a float, as scripts make them."""
    if isinstance(v, list):
        return [floats(x) for x in v]
    if isinstance(v, dict):
        return {k: floats(x) for k, x in v.items()}
    return float(v) if vtype(v) == 'number' else v


BREAKS = str.maketrans('\n\r\x0b\x0c\x1c\x85\u2028', 'nrvfsNz')


def strip(v):
    """v without line breaks in strings."""
    if isinstance(v, list):
        return [strip(x) for x in v]
    if isinstance(v, dict):
        return {k.translate(BREAKS): strip(x) for k, x in v.items()}
    return v.translate(BREAKS) if isinstance(v, str) else v


def scripts(c):
    """Built, serialised and read back within a script."""
    v = floats(value(c, c.int(0, 3)))
    src = source(v)
    if '\n' in src or '\r' in src or any(ch in src for ch in '\x0b\x0c\x1c\x85\u2028'):
        v = strip(v)
        src = source(v)
    indent = c.draw(9)
    text = f'v = {src}\nt = jsonStringify(v{", %d" % indent if indent else ""})\nw = jsonParse(t)\nreturn arrayNew(v, t, w, v == w, jsonStringify(w{", %d" % indent if indent else ""}) == t)'
    c.sample(text)
    r = execute_script(parse_script(text), {'globals': {}})
    if r is None or not isinstance(r[1], str):
        c.fail(f'{show(r)}\n{text}')
    if not same(v, r[0]):
        c.fail(f'built {show(r[0])}\n{text}')
    round_trip(c, v, indent or None, text=r[1])
    if not same(v, r[2]) or r[3] is not True or r[4] is not True:
        c.fail(f'jsonParse gives {show(r[2])}; equal: {r[3]!r}, same text again: {r[4]!r}\n{text}')


def spelled(c, v, out):
    """Valid JSON of v in arbitrary spelling."""
    def gap():
        return c.pick(['', '', ' ', '\n', '\t', '\r\n  '])

    def text(s):
        parts = ['"']
        for ch in s:
            k = c.draw(4)
            if ch in '"\\':
                parts.append('\\' + ch)
            elif ord(ch) < 0x20 or k == 3:
                parts.append(''.join(f'\\u{u:04{c.pick("xX")}}' for u in struct.unpack(f'<{len(ch.encode("utf-16-le")) // 2}H', ch.encode('utf-16-le'))))
            elif ch == '/' and k == 2:
                parts.append('\\/')
            else:
                parts.append(ch)
        parts.append('"')
        return ''.join(parts)
    if isinstance(v, list):
        out.append('[' + gap())
        for i, x in enumerate(v):
            out.append(',' + gap() if i else '')
            spelled(c, x, out)
            out.append(gap())
        out.append(']')
    elif isinstance(v, dict):
        out.append('{' + gap())
        for i, (k, x) in enumerate(c.shuffle(list(v.items()))):
            out.append((',' + gap() if i else '') + text(k) + gap() + ':' + gap())
            spelled(c, x, out)
            out.append(gap())
        out.append('}')
    elif isinstance(v, str):
        out.append(text(v))
    elif vtype(v) == 'number':
        r = repr(v)
        if isinstance(v, float):
            r = c.pick([r, r, f'{v:.17e}', f'{v:.17E}', r.replace('e', 'E')])
        out.append(r)
    else:
        out.append(json.dumps(v))


def parsing(c):
    """jsonParse reads any valid spelling; cut texts are null."""
    v = value(c, c.int(0, 4))
    out = []
    spelled(c, v, out)
    text = c.pick(['', ' ', '\n']) + ''.join(out) + c.pick(['', ' ', '\r\n'])
    c.sample(text)
    got = call('jsonParse', [text], OPTIONS)
    if len(text) > 2:
        c.nontrivial(text)
    if not same(v, got):
        c.fail(f'jsonParse({text!r}) = {show(got)}, expected {show(v)}')
    body = text.strip()
    if body[0] in '[{"':
        cut = c.draw(len(body))
        got = call('jsonParse', [body[:cut]], OPTIONS)
        if got is not None:
            c.fail(f'jsonParse({body[:cut]!r}) = {show(got)}, expected null')
        got = call('jsonParse', [body + c.pick([']', '}', ',', '"', 'x', ' 1', '""'])], OPTIONS)
        if got is not None:
            c.fail(f'jsonParse of {body!r} and more = {show(got)}, expected null')
    if len(json_text(v)) > 0:
        c.tag(f'{vtype(v)}')


def sections(tier):
    return [
        Enum('short strings', short_items, short_check),
        Enum('code points', code_items, code_check),
        Enum('numbers', number_items, number_check),
        Gen('values', random_values, 50000),
        Gen('large values', large_values, 1600),
        Gen('different values', distinct, 50000),
        Gen('scripts', scripts, 20000),
        Gen('jsonParse', parsing, 30000),
    ]
