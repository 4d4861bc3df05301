"""Reference value semantics, written from the language documentation."""

import datetime
import math
import re

from core import Reject

REGEX = type(re.compile(''))


class TooBig(Reject):
    """Values of the case grew beyond what is worth comparing."""


WORK = [0]
WORK_LIMIT = 60000


def work():
    WORK[0] += 1
    if WORK[0] > WORK_LIMIT:
        raise TooBig('values too big')


class RefFunction:
    """A function value of the reference interpreters."""

    def __init__(self, name, call):
        self.name = name
        self.call = call

    def __call__(self, *args):
        raise AssertionError('reference functions are not called as host functions')

    def __repr__(self):
        return f'<ref function {self.name}>'


def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def vtype(v):
    if v is None:
        return 'null'
    if v is True or v is False:
        return 'boolean'
    if isinstance(v, str):
        return 'string'
    if isinstance(v, (int, float)):
        return 'number'
    if isinstance(v, (datetime.datetime, datetime.date)):
        return 'datetime'
    if isinstance(v, dict):
        return 'object'
    if isinstance(v, list):
        return 'array'
    if isinstance(v, REGEX):
        return 'regex'
    if isinstance(v, RefFunction) or callable(v):
        return 'function'
    return None


def truthy(v):
    t = vtype(v)
    if t == 'null':
        return False
    if t == 'boolean':
        return v
    if t == 'number':
        return v != 0
    if t in ('string', 'array'):
        return len(v) > 0
    return True


def num_text(x):
    """Shortest round-trip decimal text; integral numbers without a fraction."""
    if isinstance(x, int):
        return str(x)
    if math.isnan(x) or math.isinf(x):
        return repr(x)
    if x == int(x):
        return ('-' if math.copysign(1, x) < 0 else '') + str(abs(int(x)))
    return repr(x)


ZONE = None  # a zoneinfo.ZoneInfo; None means UTC


def normal_dt(d):
    """date / aware datetime -> naive local datetime"""
    if isinstance(d, datetime.datetime):
        if d.tzinfo is not None:
            return d.astimezone(ZONE or datetime.timezone.utc).replace(tzinfo=None)
        return d
    return datetime.datetime(d.year, d.month, d.day)


def dt_text(d):
    d = normal_dt(d)
    offset = (ZONE.utcoffset(d) if ZONE is not None else datetime.timedelta(0))
    minutes = int(offset.total_seconds() // 60)
    sign = '-' if minutes < 0 else '+'
    minutes = abs(minutes)
    ms = d.microsecond // 1000
    frac = f'.{ms:03d}' if d.microsecond else ''
    return (f'{d.year:04d}-{d.month:02d}-{d.day:02d}T{d.hour:02d}:{d.minute:02d}:{d.second:02d}{frac}'
            f'{sign}{minutes // 60:02d}:{minutes % 60:02d}')


def text(v):
    t = vtype(v)
    if t == 'null':
        return 'null'
    if t == 'boolean':
        return 'true' if v else 'false'
    if t == 'string':
        return v
    if t == 'number':
        return num_text(v)
    if t == 'datetime':
        return dt_text(v)
    if t in ('array', 'object'):
        return json_text(v)
    if t == 'function':
        return '<function>'
    return '<regex>'


_ESC = {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\r': '\\r', '\t': '\\t', '\b': '\\b', '\f': '\\f'}


def json_str(s):
    out = ['"']
    for ch in s:
        o = ord(ch)
        if ch in _ESC:
            out.append(_ESC[ch])
        elif 0x20 <= o < 0x7f:
            out.append(ch)
        elif o > 0xffff:
            o -= 0x10000
            out.append(f'\\u{0xd800 + (o >> 10):04x}\\u{0xdc00 + (o & 0x3ff):04x}')
        else:
            out.append(f'\\u{o:04x}')
    out.append('"')
    return ''.join(out)


def json_text(v, indent=None, level=0):
    """JSON text: sorted keys, integral numbers without a fraction."""
    t = vtype(v)
    work()
    if t in ('null', 'boolean'):
        return text(v)
    if t == 'number':
        return num_text(v)
    if t == 'string':
        return json_str(v)
    if t in ('datetime', 'function'):
        return json_str(text(v))
    if t == 'regex':
        return 'null'
    pad = '' if not indent else '\n' + ' ' * (indent * (level + 1))
    end = '' if not indent else '\n' + ' ' * (indent * level)
    colon = ': ' if indent else ':'
    if t == 'array':
        if not v:
            return '[]'
        return '[' + pad + (',' + pad).join(json_text(x, indent, level + 1) for x in v) + end + ']'
    if not v:
        return '{}'
    return '{' + pad + (',' + pad).join(json_str(k) + colon + json_text(v[k], indent, level + 1) for k in sorted(v)) + end + '}'


def _sign(a, b):
    return -1 if a < b else (1 if a > b else 0)


def compare(a, b):
    """The total value order."""
    work()
    ta, tb = vtype(a), vtype(b)
    if ta == 'null' or tb == 'null':
        return (ta != 'null') - (tb != 'null')
    if ta != tb:
        return _sign(ta, tb)
    if ta in ('string', 'number', 'boolean'):
        return _sign(a, b)
    if ta == 'datetime':
        return _sign(normal_dt(a), normal_dt(b))
    if ta == 'array':
        for x, y in zip(a, b):
            r = compare(x, y)
            if r:
                return r
        return _sign(len(a), len(b))
    if ta == 'object':
        ka, kb = sorted(a), sorted(b)
        for x, y in zip(ka, kb):
            r = _sign(x, y) or compare(a[x], b[y])
            if r:
                return r
        return _sign(len(ka), len(kb))
    return 0


def same(a, b, num_exact=False):
    """Deep equality of a reference value and a target value (numbers by value, functions by kind)."""
    work()
    ta, tb = vtype(a), vtype(b)
    if ta != tb or ta is None:
        return False
    if ta == 'number':
        if a != a or b != b:
            return a != a and b != b
        if a != b:
            return False
        if num_exact and a == 0:
            return math.copysign(1, a) == math.copysign(1, b)
        return True
    if ta in ('null', 'boolean', 'string'):
        return a == b
    if ta == 'datetime':
        try:
            return normal_dt(a) == normal_dt(b)
        except OverflowError:
            return a == b
    if ta == 'array':
        return len(a) == len(b) and all(same(x, y, num_exact) for x, y in zip(a, b))
    if ta == 'object':
        return len(a) == len(b) and all(k in b and same(x, b[k], num_exact) for k, x in a.items())
    if ta == 'regex':
        return a.pattern == b.pattern and a.flags == b.flags
    return True


def is_value(v):
    """Is v (recursively) a BareScript value?"""
    seen = set()
    stack = [v]
    while stack:
        v = stack.pop()
        t = vtype(v)
        if t is None:
            return False
        if t in ('array', 'object'):
            if id(v) in seen:
                continue
            seen.add(id(v))
            if t == 'array':
                stack.extend(v)
            else:
                if not all(isinstance(k, str) for k in v):
                    return False
                stack.extend(v.values())
    return True


def show(v, limit=400):
    """A short, unambiguous rendering of any value for messages."""
    t = vtype(v)
    if t in ('array',):
        s = '[' + ', '.join(show(x, limit) for x in v[:50]) + ']'
    elif t == 'object':
        s = '{' + ', '.join(f'{k!r}: {show(x, limit)}' for k, x in list(v.items())[:50]) + '}'
    elif t == 'function':
        s = '<function>'
    else:
        s = repr(v)
    return s if len(s) <= limit else s[:limit] + '...'


def clone(v, memo=None):
    """Deep copy of containers, preserving aliasing; leaves shared."""
    if memo is None:
        memo = {}
    if isinstance(v, list):
        if id(v) in memo:
            return memo[id(v)]
        out = memo[id(v)] = []
        out.extend(clone(x, memo) for x in v)
        return out
    if isinstance(v, dict):
        if id(v) in memo:
            return memo[id(v)]
        out = memo[id(v)] = {}
        for k, x in v.items():
            out[k] = clone(x, memo)
        return out
    return v
