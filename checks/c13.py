"""C13: numbers survive conversion to text and back; integers print without a fraction."""

import itertools
import math
import struct

from bare_script import BareScriptParserError, evaluate_expression, execute_script, parse_expression, parse_script

from core import Enum, Gen, Reject
from harness import LIBRARY, call
from ref.values import vtype

RULE = ('Doubles: uniform bit patterns, all powers of two with their neighbours, all k * 10^e for small k, integers around 2^53, 1e15..1e22, '
        'subnormals, short decimals, -0; ints up to 2^53. Each is written by every text consumer (concatenation on both sides, stringNew, '
        'arrayJoin, systemLog, alone and in a script) and read back with numberParseFloat and as a literal; bit-exact. The parsers get numeric '
        'near-misses and mutated number texts against an own grammar. Non-trivial: not a one-digit integer (numbers), at least 2 characters '
        '(texts); distinct by value or text.')
ASSUMPTIONS = ['White space around a number text, a leading "+" and a missing digit before or after the point may be accepted or not.',
               'Radix prefixes (0x) and digits outside ASCII are not generated. Ints beyond 2^53 that are no doubles are outside.']

OPTIONS = {'globals': dict(LIBRARY)}
LEFT = parse_expression("'' + xx")
RIGHT = parse_expression("xx + ''")
BOTH = parse_expression("'a' + xx + 'b'")
TEXT = parse_expression('text(xx)')


def bits(x):
    return struct.pack('>d', x)


def exact(a, b):
    """The same double (whatever the host type of an integral one)."""
    return vtype(a) == 'number' and a == b and (b != 0 or math.copysign(1, a) == math.copysign(1, b) or isinstance(a, int) and isinstance(b, int))


def texts(x):
    """(consumer, text) of a number."""
    out = [('concatenation', evaluate_expression(LEFT, OPTIONS, {'xx': x})), ('concatenation on the left', evaluate_expression(RIGHT, OPTIONS, {'xx': x}))]
    r = evaluate_expression(BOTH, OPTIONS, {'xx': x})
    out.append(('concatenation in the middle', r[1:-1] if isinstance(r, str) and r[:1] == 'a' and r[-1:] == 'b' else r))
    out.append(('stringNew', call('stringNew', [x], OPTIONS)))
    out.append(('arrayJoin', call('arrayJoin', [[x], ';'], OPTIONS)))
    r = call('arrayJoin', [[1.0, x, 'z', x], ';'], OPTIONS)
    parts = r.split(';') if isinstance(r, str) else []
    if len(parts) == 4 and parts[1] == parts[3]:
        out.append(('arrayJoin in the middle', parts[1]))
    else:
        out.append(('arrayJoin in the middle', r))
    log = []
    call('systemLog', [x], {'globals': OPTIONS['globals'], 'logFn': log.append})
    out.append(('systemLog', log[0] if len(log) == 1 else log))
    return out


def number(c, x, scripts=False):
    """Everything about one finite number."""
    if not isinstance(x, int) or abs(x) > 9:
        c.nontrivial(bits(x) if isinstance(x, float) else str(x))
    seen = set()
    for consumer, t in texts(x):
        if not isinstance(t, str):
            c.fail(f'{consumer} of {x!r} gives {t!r}')
        if t in seen:
            continue
        seen.add(t)
        back = call('numberParseFloat', [t], OPTIONS)
        if not exact(back, x):
            c.fail(f'{consumer} of {x!r} gives {t!r}, which numberParseFloat reads as {back!r}')
        if x == int(x) and '.' in t:
            c.fail(f'{consumer} of the integral number {x!r} gives {t!r}')
        if x >= 0 and not (x == 0 and math.copysign(1, x) < 0):
            try:
                model = parse_expression(t)
            except BareScriptParserError as exc:
                c.fail(f'{consumer} of {x!r} gives {t!r}, which is no literal: {exc.error}')
            if set(model) != {'number'} or not exact(model['number'], x):
                c.fail(f'{consumer} of {x!r} gives {t!r}, a literal of {model!r}')
        if x == int(x) and abs(x) < 2 ** 53:
            i = call('numberParseInt', [t], OPTIONS)
            if not (vtype(i) == 'number' and i == x):
                c.fail(f'{consumer} of {x!r} gives {t!r}, which numberParseInt reads as {i!r}')
            if isinstance(x, float):
                t2 = call('stringNew', [int(x)], OPTIONS)
                if t2 != t and x != 0:
                    c.fail(f'{consumer} of {x!r} gives {t!r}, stringNew of the int {t2!r}')
    if scripts:
        t = sorted(seen)[0]
        if x < 0 or t.startswith('-'):
            return
        text = (f"a = {t}\nsystemLog(a)\nb = numberParseFloat('' + {t})\nfunction ff(v):\n    return v + ''\nendfunction\n"
                f"systemLog(arrayJoin(arrayNew({t}, {t}), ' '))\nreturn arrayNew(a, b, -a, ff({t}), a == b)")
        log = []
        r = execute_script(parse_script(text), {'globals': {}, 'logFn': log.append})
        if not (exact(r[0], x) and exact(r[1], x) and r[2] == -x and r[3] in seen and r[4] is True and log[0] in seen and log[1].split(' ')[0] in seen):
            c.fail(f'{t} in a script: {r!r}, log {log!r}, expected {x!r}')


# -- families -----------------------------------------------------------------------------------

def power_items(_tier):
    for e in range(-1074, 1024):
        yield 'two', e
    for e in range(-324, 309):
        yield 'ten', e


def power_check(c, item):
    kind, e = item
    values = set()
    if kind == 'two':
        x = math.ldexp(1.0, e)
        values |= {x, math.nextafter(x, math.inf), math.nextafter(x, 0.0), 3 * math.ldexp(0.5, e), x * 1.25}
    else:
        for k in (1, 2, 3, 5, 7, 9, 12, 15, 99, 101, 123, 1234, 12345, 99999, 123456789, 1 << 53, 9999999999999999):
            x = float(f'{k}e{e}')
            values |= {x, math.nextafter(x, math.inf), math.nextafter(x, 0.0)}
    values = {v for v in values if math.isfinite(v)}
    values |= {-v for v in list(values)[:4]}
    c.sample(f'{kind}^{e}: {sorted(values)[:6]!r}')
    c.weight = len(values)
    for v in sorted(values):
        number(c, v, scripts=v in (1.0, math.ldexp(1.0, e)) or kind == 'ten' and e % 10 == 0)


def integer_items(_tier):
    for base in [0, 2 ** 31, 2 ** 32, 2 ** 53, 10 ** 3, 10 ** 6, 10 ** 9, 10 ** 12, 10 ** 14, 10 ** 15, 10 ** 16, 10 ** 17, 10 ** 18, 10 ** 19, 10 ** 20, 10 ** 21,
                 10 ** 22, 10 ** 23, 2 ** 63, 2 ** 64, 2 ** 80, 10 ** 100, 15 * 10 ** 15, 123 * 10 ** 18, 10 ** 308]:
        for part in range(8):
            yield base, part


def integer_check(c, item):
    base, part = item
    c.sample(f'around {base}')
    c.weight = 0
    step = max(1, int(math.ulp(float(base))))
    for d in range(part * 12 - 48, part * 12 - 36):
        n = base + d * step
        for v in {n, -n, n + step // 2}:
            f = float(v)
            if not math.isfinite(f):
                continue
            c.weight += 2
            number(c, f)
            if abs(v) <= 2 ** 53 or int(f) == v:
                number(c, v)
            if abs(f) < 2 ** 51:
                number(c, f + 0.5)
                number(c, f / 8)


def random_bits(c):
    c.weight = 0
    for _ in range(16):
        x = struct.unpack('>d', bytes(c.draw(256) for _ in range(8)))[0]
        if math.isfinite(x):
            c.weight += 1
            number(c, x, scripts=c.draw(8) == 7)
            c.sample(repr(x))


def decimals(c):
    """Short decimals with every kind of exponent."""
    digits = c.draw(10 ** c.int(1, 17))
    e = c.int(-30, 25) if c.draw(4) else c.int(-330, 308)
    x = float(f'{"-" if c.draw(3) == 2 else ""}{digits}e{e}')
    if not math.isfinite(x):
        x = float(digits)
    c.sample(repr(x))
    number(c, x, scripts=True)
    k = c.draw(3)
    y = [x / 3, x * 0.1, x + 0.1][k]
    if math.isfinite(y):
        number(c, y)


def computed(c):
    """Numbers as scripts make them, printed and read back in the script."""
    n = [c.draw(2000) / c.pick([1, 2, 3, 7, 10, 1000]) for _ in range(3)]
    ops = [c.pick(['+', '-', '*', '/', '**', '%']) for _ in range(3)]
    src = [f'numberParseFloat("{v!r}")' for v in n]
    fn = c.pick(['', 'mathSqrt', 'mathFloor', 'mathCeil', 'mathAbs', 'mathRound', 'mathLn', 'mathSin'])
    text = f'x = {fn}({src[0]} {ops[0]} {src[1]} {ops[1]} {src[2]})\nreturn arrayNew(x, numberParseFloat("" + x), numberParseFloat(arrayJoin(arrayNew(x), "")))'
    c.sample(text)
    r = execute_script(parse_script(text), {'globals': {}})
    x = r[0]
    if vtype(x) != 'number' or not math.isfinite(x):
        return
    if isinstance(x, int) and abs(x) > 2 ** 53:
        return
    c.nontrivial(text)
    if not exact(r[1], x) or not exact(r[2], x):
        c.fail(f'{x!r} is read back as {r[1:]!r}\n{text}')
    number(c, x)


# -- the parsers --------------------------------------------------------------------------------

def grammar(text):
    """('number', float) | ('any', float): may be accepted | ('no', None)"""
    s = text.strip(' \t\n\r')
    loose = s != text
    i = 0
    if s[:1] in ('+', '-'):
        loose |= s[0] == '+'
        i = 1
    j = i
    while j < len(s) and s[j] in '0123456789':
        j += 1
    whole = j - i
    frac = 0
    if s[j:j + 1] == '.':
        k = j + 1
        while k < len(s) and s[k] in '0123456789':
            k += 1
        frac = k - j - 1
        loose |= frac == 0 or whole == 0
        j = k
    if whole + frac == 0:
        return 'no', None
    if s[j:j + 1] in ('e', 'E'):
        k = j + 1
        if s[k:k + 1] in ('+', '-'):
            k += 1
        m = k
        while m < len(s) and s[m] in '0123456789':
            m += 1
        if m == k:
            return 'no', None
        loose |= s[j] == 'E' or s[j + 1] not in '+-'
        j = m
    if j != len(s):
        return 'no', None
    x = float(s)
    if not math.isfinite(x):
        return 'no', None
    return ('any' if loose else 'number'), x


def parse_float(c, text):
    kind, want = grammar(text)
    got = call('numberParseFloat', [text], OPTIONS)
    c.tag(f'float {kind}')
    if got is None:
        if kind == 'number':
            c.fail(f'numberParseFloat({text!r}) is null, expected {want!r}')
        return
    if kind == 'no' or not exact(got, want):
        c.fail(f'numberParseFloat({text!r}) = {got!r}, expected {want!r}')


def parse_int(c, text, radix):
    s = text.strip(' \t\n\r')
    body = s[1:] if s[:1] in ('+', '-') else s
    args = [text] if radix is None else [text, radix]
    got = call('numberParseInt', args, OPTIONS)
    base = 10 if radix is None else int(radix)
    want = None
    if 2 <= base <= 36 and body and all(ch.isascii() and ch.isalnum() and int(ch, 36) < base for ch in body):
        want = 0
        for ch in body:
            want = want * base + int(ch, 36)
        if s[0] == '-':
            want = -want
    c.tag('int ' + ('number' if want is not None else 'no'))
    if want is None:
        if got is not None:
            c.fail(f'numberParseInt({", ".join(map(repr, args))}) = {got!r}, expected null')
        return
    if got is None and (s != text or s[0] == '+'):
        return
    if vtype(got) != 'number' or got != want and got != float(want):
        c.fail(f'numberParseInt({", ".join(map(repr, args))}) = {got!r}, expected {want!r}')


NEAR = ['', ' ', '.', '-', '+', 'e', 'e5', '.e5', '1e', '1e+', '1e-', '1.2.3', '1..2', '--1', '+-1', '-+1', '1-', '1+1', '1 2', '1,000', '1_000', '1__0', '_1', '1_', '1e1_0',
        '1_0.5', 'nan', 'NaN', '-nan', '+nan', 'inf', '-inf', 'Infinity', '-Infinity', '+infinity', 'INF', 'infinit', '1e309', '-1e309', '1e400', '1' + '0' * 309, '1e99999',
        '12abc', 'abc', '12px', '0.1.', '1e5.5', '1d5', '1f', '1.0f', '1L', '1j', '(1)', '[1]', '"1"', "'1'", '1/2', '1%', '$1', '#1', '1e 5', '1 e5', '- 1', '+ 1', '1.\u00a05',
        '\\1', '1\\', '1\0', '\0', '1\x001', 'true', 'null', 'None', '1;', '1,', ',1', '1e+-5', '1ee5', '1e5e5', '0.5.', '..5', '1.e', '5e', 'E5', '-.', '-e', '+.e1',
        '1', '0', '-0', '00', '007', '1.5', '-1.5', '1e+5', '1.5e-10', '1e-400', '0.0', '-0.0', '5e-324', '2.5e-324', '1.7976931348623157e+308', '1.7976931348623159e+308',
        '9007199254740993', '0.1', '123456789012345678901234567890', '1e+308', ' 1', '1 ', '\t1\n', '+1', '1.', '.5', '-.5', '1E5', '1e5', '1E+5', '1.e5', '.5e1']
RADIX_TEXT = ['', '-', '0', '1', '-1', '10', '2', '9', 'a', 'f', 'g', 'z', 'Z', 'ff', 'FF', '-ff', 'zz', '1.5', '1e3', '7f', '1_0', '_', '1 0', '--1', '12abc', 'é', '0.', '1.0', ' 7', '7 ',
              '+7', 'inf', 'nan', '101', '12345678901234567890', '-0', '00', '1,0', 'null', '1L', '1n', '\0', '1\0']


def near_items(_tier):
    for i in range(len(NEAR)):
        yield 'float', i, None
        yield 'int', i, None
    for i in range(len(RADIX_TEXT)):
        for radix in [None] + list(range(-1, 40)):
            yield 'radix', i, radix


def near_check(c, item):
    kind, i, radix = item
    if kind == 'radix':
        t = RADIX_TEXT[i]
        parse_int(c, t, float(radix) if radix is not None else None)
    else:
        t = NEAR[i]
        (parse_float(c, t) if kind == 'float' else parse_int(c, t, None))
    c.sample(f'{kind} {t!r} {radix}')
    if len(t) >= 2:
        c.nontrivial(repr(item))


CHARS = '0123456789.e+-E_ x,abfinNI\t'


def mutants(c):
    """Mutated number texts and random strings."""
    k = c.draw(3)
    if k == 0:
        t = ''.join(c.pick(CHARS) for _ in range(c.draw(8)))
    else:
        x = struct.unpack('>d', bytes(c.draw(256) for _ in range(8)))[0] if c.draw(2) else c.draw(10 ** c.int(1, 8)) / c.pick([1, 10, 100])
        t = repr(x)
        for _ in range(c.draw(3)):
            i = c.draw(len(t) + 1)
            m = c.draw(3)
            t = t[:i] + (c.pick(CHARS) if m else '') + t[i + (m != 1):]
    c.sample(repr(t))
    if len(t) >= 2:
        c.nontrivial(t)
    parse_float(c, t)
    if not (len(t.strip(' +-\t')) > 1 and t.strip(' +-\t')[0] == '0' and t.strip(' +-\t')[1] in 'xXoObB'):
        parse_int(c, t, None)
    c.weight = 2


def integers(c):
    """Integers in every radix round-trip."""
    radix = c.int(2, 36)
    n = c.draw(10 ** c.int(1, 15))
    digits = []
    v = n
    while v:
        digits.append('0123456789abcdefghijklmnopqrstuvwxyz'[v % radix])
        v //= radix
    t = ''.join(reversed(digits)) or '0'
    if c.draw(2):
        t = t.upper()
    if c.draw(3) == 2:
        t = '0' * c.int(1, 3) + t
        if t[1:2] in 'xXoObB':
            t = t[1:]
    if c.draw(2):
        t, n = '-' + t, -n
    c.sample(f'{t!r} radix {radix}')
    c.nontrivial(f'{t} {radix}')
    if len(t.lstrip('-')) > 1 and t.lstrip('-')[0] == '0' and t.lstrip('-')[1] in 'xXoObB':
        return
    got = call('numberParseInt', [t, float(radix)], OPTIONS)
    if vtype(got) != 'number' or got != n:
        c.fail(f'numberParseInt({t!r}, {radix}) = {got!r}, expected {n}')
    parse_int(c, t + c.pick('.,_ -+zé') + t, radix)


def prefixed(t):
    """A leading 0x, 0b or 0o: some readings of an integer text accept it in its own radix."""
    s = t.strip(' +-\t\n\r').lower()
    return len(s) > 1 and s[0] == '0' and s[1] in 'xob'


SHORT_CHARS = '019afxobzZ_-+. '


def short_items(tier):
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for t in itertools.product(SHORT_CHARS, repeat=n):
            yield ''.join(t)


def short_check(c, t):
    """Every short text over the characters that mean something in some radix."""
    c.sample(t)
    if prefixed(t):
        return
    for radix in (None, 2, 8, 10, 16, 36):
        parse_int(c, t, radix)
    parse_float(c, t)
    c.weight = 7
    if len(t) > 1:
        c.nontrivial(t)


DIGITS = '0123456789abcdefghijklmnopqrstuvwxyz'


def radix_texts(c):
    """Digit strings of a radix with a foreign piece put in."""
    radix = c.pick([2, 8, 10, 16, 36, c.int(2, 36)])
    t = ''.join(c.pick(DIGITS[:radix]) for _ in range(c.int(1, 12)))
    for _ in range(c.draw(3)):
        i = c.draw(len(t) + 1)
        piece = c.pick(['0x', '0b', '0o', 'x', 'b', 'o', 'e', 'e+', '.', ',', '_', '-', '+', ' ', '#', 'L', 'n', 'h', '\n', '0', '1', DIGITS[min(radix, 35)], DIGITS[radix - 1], 'Z', '"', '\\x'])
        t = t[:i] + piece + t[i:]
    if c.draw(3) == 2:
        t = t.upper()
    c.sample(f'{t!r} radix {radix}')
    if prefixed(t):
        raise Reject('prefix')
    c.nontrivial(f'{t} {radix}')
    parse_int(c, t, radix)
    parse_int(c, t, None)
    c.weight = 2


def sections(tier):
    return [
        Enum('powers', power_items, power_check),
        Enum('integers', integer_items, integer_check),
        Enum('near misses', near_items, near_check),
        Gen('bit patterns', random_bits, 16000),
        Gen('decimals', decimals, 40000),
        Gen('computed', computed, 20000),
        Gen('mutated texts', mutants, 100000),
        Gen('radix', integers, 40000),
        Enum('short texts', short_items, short_check),
        Gen('radix texts', radix_texts, 40000),
    ]
