"""BareScript values: a fixed pool that covers every type and its boundaries, and a random generator."""

import datetime
import math
import re

from harness import HostFn

UTC = datetime.timezone.utc
D = datetime.datetime


def _echo(args, _log):
    return args[0] if args else None


FN1 = HostFn('fn1', _echo)
FN2 = HostFn('fn2', lambda args, log: None)

NUMBERS = [
    0, 1, -1, 2, 3, 7, 10, 100, 255, 1000, 0.0, -0.0, 1.0, -1.0, 2.0, 3.0, 0.5, -0.5, 1.5, -2.5, 2.25, 0.1, 0.2, 0.3, 1e-7, 1e15, 10 ** 15 - 1,
    1e16, 10 ** 16, 2.0 ** 53, 2 ** 53 + 1, 1e21, -1e21, 1e300, 5e-324, 1.7976931348623157e308, 123456789.125, -7, 1e100
]
STRINGS = ['', 'a', 'b', 'A', 'ab', 'abc', 'null', 'true', '0', '1', '1.0', '10', ' ', 'é', '\u2028', '\U0001f600', '"', '\\', "'", '\n', '.0,', '1.0]', 'zz']
DATETIMES = [
    D(2024, 2, 29), D(2024, 2, 29, 12, 30, 15), D(2024, 2, 29, 12, 30, 15, 250000), D(1970, 1, 1), D(2000, 1, 1, 0, 0, 0, 1000),
    datetime.date(2024, 2, 29), datetime.date(1999, 12, 31), D(2024, 2, 29, 12, 30, 15, tzinfo=UTC), D(1, 1, 2), D(9999, 12, 30),
    D(2024, 2, 29, 14, 0, tzinfo=datetime.timezone(datetime.timedelta(hours=2)))
]
REGEXES = [re.compile('a+'), re.compile('b', re.I)]


def containers():
    return [
        [], [1], [1.0], [1, 2], [2, 1], ['a'], [None], [[]], [[1], {}], [1, 'a', None, True], [0.0], [False],
        {}, {'a': 1}, {'a': 1.0}, {'a': 2}, {'b': 1}, {'a': 1, 'b': 2}, {'b': 2, 'a': 1}, {'a': None}, {'a': [1, {'c': 'x'}]}, {'': ''}, {'.0,': 1.0},
    ]


def pool():
    """Every type with its boundaries (no NaN, no infinity)."""
    return [None, True, False] + NUMBERS + STRINGS + DATETIMES + containers() + REGEXES + [FN1, FN2]


SHORT = [None, True, False, 0, 1, -1.0, 2, 0.5, 1e16, '', 'a', 'abc', '1', D(2024, 2, 29, 12, 30), datetime.date(2020, 1, 1), [], [1, 'a'], {}, {'a': 1.0},
         re.compile('a+'), FN1]


def number(c):
    k = c.draw(6)
    if k <= 1:
        return float(c.int(-3, 12))
    if k == 2:
        return c.int(-3, 12)
    if k == 3:
        return c.pick(NUMBERS)
    if k == 4:
        return c.int(-2000, 2000) / 8
    e = c.int(-12, 18)
    v = c.int(-9999, 9999) * 10.0 ** e
    return v if math.isfinite(v) else 0.0


def text(c, alphabet='ab01 ', length=6):
    if c.draw(4) == 3:
        return c.pick(STRINGS)
    return ''.join(c.pick(alphabet) for _ in range(c.draw(length + 1)))


def moment(c):
    if c.draw(3) == 0:
        return c.pick(DATETIMES)
    return D(c.int(1900, 2100), c.int(1, 12), c.int(1, 28), c.draw(24), c.draw(60), c.draw(60), c.draw(1000) * 1000)


def scalar(c):
    k = c.draw(8)
    if k == 0:
        return None
    if k == 1:
        return bool(c.draw(2))
    if k <= 4:
        return number(c)
    if k <= 6:
        return text(c)
    return moment(c)


def value(c, depth=3, functions=True):
    k = c.draw(10)
    if depth <= 0 or k < 6:
        return scalar(c)
    if k <= 7:
        return [value(c, depth - 1, functions) for _ in range(c.draw(4))]
    if k == 8:
        return {c.pick(['a', 'b', 'c', '', 'a b']): value(c, depth - 1, functions) for _ in range(c.draw(4))}
    if functions:
        return c.pick(REGEXES + [FN1, FN2])
    return scalar(c)
