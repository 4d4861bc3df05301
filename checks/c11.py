"""C11: value comparison is a total preorder and every consumer agrees with it."""

import datetime
import itertools
import os
import time
import zoneinfo

from bare_script import evaluate_expression, parse_expression

from core import Enum, Gen, HarnessError
from gen import values as V
from harness import LIBRARY, call
from ref import values as R
from ref.values import compare, same, show

RULE = ('All ordered pairs of a pool of over 300 values of the nine types (nested to depth 3, int/float spellings, dates, naive and aware '
        'datetimes, functions, regexes) through systemCompare and the six operators against an independent order; random triples of '
        'related values (one derived from another by small edits) against the axioms; random arrays and tables through arraySort (with '
        'and without a comparison function), dataSort, mathMin/mathMax, arrayIndexOf/arrayLastIndexOf. '
        'Containers to thousands of elements that differ in one place are compared, sorted, searched and minimised. '
        'Non-trivial: the values are '
        'not the same object and not both null; distinct by shown values.')
ASSUMPTIONS = ['Within one type: false < true, strings by code point, arrays element-wise then by length, objects as sorted (key, value) '
               'sequences, functions and regexes all equal.', 'NaN is outside the domain.']

OPS = {'==': lambda s: s == 0, '!=': lambda s: s != 0, '<': lambda s: s < 0, '<=': lambda s: s <= 0, '>': lambda s: s > 0, '>=': lambda s: s >= 0}
EXPRS = {op: parse_expression(f'aa {op} bb') for op in OPS}
UTC = datetime.timezone.utc
D = datetime.datetime


def lib(name, *args):
    return call(name, args)


def sign(c, what, v):
    """A comparison result is a number: -1, 0 or 1."""
    if isinstance(v, bool) or not isinstance(v, (int, float)) or v not in (-1, 0, 1):
        c.fail(f'{what} = {v!r}')
    return int(v)


def pair(c, a, b):
    """systemCompare, both ways, and the operators, for one pair; gives the sign."""
    want = compare(a, b)
    got = sign(c, f'systemCompare({show(a)}, {show(b)})', lib('systemCompare', a, b))
    if got != want:
        c.fail(f'systemCompare({show(a)}, {show(b)}) = {got}, expected {want}')
    back = sign(c, f'systemCompare({show(b)}, {show(a)})', lib('systemCompare', b, a))
    if back != -want:
        c.fail(f'systemCompare({show(b)}, {show(a)}) = {back} but the other way round {got}')
    variables = {'aa': a, 'bb': b}
    for op, test in OPS.items():
        r = evaluate_expression(EXPRS[op], None, variables)
        if r is not test(want):
            c.fail(f'{show(a)} {op} {show(b)} is {show(r)}, expected {test(want)} (systemCompare gives {got})')
    return want


def big_pool():
    pool = V.pool()
    small = [None, False, True, 0, 0.0, 1, 1.0, 2.5, '', 'a', 'b', D(2024, 2, 29), datetime.date(2024, 2, 29), D(2024, 2, 29, tzinfo=UTC), [], {}, [1], {'a': 1},
             V.REGEXES[0], V.FN1.target()]
    out = [(v.target() if hasattr(v, 'target') else v) for v in pool]
    for v in small:
        out += [[v], [v, v], [[v]], {'a': v}, {'b': v}, {'a': {'b': [v]}}]
    for a, b in itertools.product([None, 0, 1.0, True, 'a', []], repeat=2):
        out += [[a, b], {'a': a, 'b': b}]
    inf = float('inf')
    out += [inf, -inf, [inf], [-inf], {'a': inf}, [1.0, inf], 1e308, -1e308, 5e-324, [5e-324], 10 ** 16, 1e16]
    out += [D(2024, 2, 29, 0, 0, 0, 1), D(2024, 2, 28, 23, 59, 59, 999999), D(2024, 2, 29, 12, tzinfo=datetime.timezone(datetime.timedelta(hours=-5))),
            D(2024, 2, 29, 17, tzinfo=UTC), D(2024, 2, 29, 17), datetime.date(1970, 1, 1), D(1970, 1, 1, tzinfo=UTC)]
    return [v for v in out if not (isinstance(v, float) and v != v)]


POOL = big_pool()


def pair_items(_tier):
    for i in range(len(POOL)):
        for j in range(i, len(POOL)):
            yield i, j


def pair_check(c, item):
    a, b = POOL[item[0]], POOL[item[1]]
    if a is not b and not (a is None and b is None):
        c.nontrivial(item)
    c.sample(f'{show(a)} ? {show(b)}')
    s = pair(c, a, b)
    ta, tb = R.vtype(a), R.vtype(b)
    if ta != tb and s == 0:
        raise HarnessError(f'{a!r} {b!r}')
    c.tag(f'{min(ta, tb)}/{max(ta, tb)}')
    picked = [(lib('mathMin', a, b), 'mathMin', min), (lib('mathMax', a, b), 'mathMax', max)]
    for got, name, best in picked:
        if not any(got is v or same(v, got) for v in (a, b)):
            c.fail(f'{name}({show(a)}, {show(b)}) = {show(got)} is neither argument')
        if compare(got, b) * (1 if best is max else -1) < 0 or compare(got, a) * (1 if best is max else -1) < 0:
            c.fail(f'{name}({show(a)}, {show(b)}) = {show(got)}')


# -- related values -------------------------------------------------------------------------

def respell(c, v):
    """The same value with integral numbers held the other way."""
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return float(v) if c.draw(2) and float(v) == v and abs(v) < 2 ** 53 else v
    if isinstance(v, float):
        return int(v) if abs(v) < 1e309 and v == int(v) and c.draw(2) else v
    if isinstance(v, list):
        return [respell(c, x) for x in v]
    if isinstance(v, dict):
        items = [(k, respell(c, x)) for k, x in v.items()]
        return dict(c.shuffle(items))
    return v


def near(c, v):
    """A value that differs from v by a small edit (or not at all)."""
    k = c.draw(6)
    if k == 0:
        return respell(c, v)
    if isinstance(v, list):
        out = list(v)
        if k == 1 or not out:
            out.insert(c.draw(len(out) + 1), V.scalar(c))
        elif k == 2:
            out.pop(c.draw(len(out)))
        elif k == 3:
            i = c.draw(len(out))
            out[i] = near(c, out[i])
        elif k == 4:
            out = out[:c.draw(len(out) + 1)]
        else:
            out = c.shuffle(out) if c.draw(2) else out + [c.pick([0, None, 'a'])] * c.draw(30)
        return out
    if isinstance(v, dict):
        out = dict(v)
        if k == 1 or not out:
            out[c.pick(['a', 'b', 'c', 'aa', ''])] = V.scalar(c)
        elif k == 2:
            out.pop(c.pick(list(out)))
        elif k in (3, 4):
            key = c.pick(list(out))
            out[key] = near(c, out[key])
        else:
            out = dict(c.shuffle(list(out.items())))
        return out
    if isinstance(v, str):
        return c.pick([v, v + 'a', v[:-1], v.upper(), 'a' + v, v + ' ', v[::-1]])
    if isinstance(v, bool):
        return c.pick([not v, int(v), v, None])
    if isinstance(v, (int, float)):
        w = c.pick([v, v + 1, -v, v * (1 + 2e-16), v - 0.5, str(v), bool(v)])
        return w if not isinstance(w, float) or abs(w) <= 1.7e308 else v
    if isinstance(v, (datetime.datetime, datetime.date)):
        return moment_near(c, v)
    return c.pick([v, v, V.scalar(c)])


def moment_near(c, v):
    d = R.normal_dt(v)
    k = c.draw(7)
    if k == 0:
        return d
    if k == 1:
        return d.date()
    if k == 2 and 2 <= d.year <= 9990:
        off = c.pick([-720, -300, -1, 0, 1, 60, 330, 765])
        return (d + datetime.timedelta(minutes=off)).replace(tzinfo=datetime.timezone(datetime.timedelta(minutes=off)))
    if k == 3 and 2 <= d.year <= 9990:
        return d + datetime.timedelta(milliseconds=c.pick([-1, 1, 1000, -86400000, 3600000]))
    if k == 4:
        return D(d.year, d.month, d.day)
    if k == 5 and 2 <= d.year <= 9990:
        return d.replace(tzinfo=UTC)
    return d + datetime.timedelta(microseconds=1) if d.year < 9999 else d


def value(c, depth=3):
    v = V.value(c, depth)
    return v.target() if hasattr(v, 'target') else _hosts(v)


def _hosts(v):
    if isinstance(v, list):
        return [_hosts(x) for x in v]
    if isinstance(v, dict):
        return {k: _hosts(x) for k, x in v.items()}
    return v.target() if hasattr(v, 'target') else v


def triples(c):
    """The axioms on related values, and the reference order."""
    a = value(c)
    b = near(c, a) if c.draw(4) else value(c)
    d = near(c, b) if c.draw(4) else near(c, a)
    c.sample(f'{show(a)} | {show(b)} | {show(d)}')
    if not (a is b and b is d):
        c.nontrivial(f'{show(a)}|{show(b)}|{show(d)}')
    ab, bd, ad = pair(c, a, b), pair(c, b, d), pair(c, a, d)
    pair(c, a, a)
    c.weight = 4
    if ab <= 0 and bd <= 0 and ad > 0 or ab >= 0 and bd >= 0 and ad < 0:
        raise HarnessError('the reference order is not transitive')
    c.tag(f'signs {ab}{bd}{ad}')
    r1, r2 = respell(c, a), respell(c, b)
    if pair(c, r1, r2) != ab:
        c.fail(f'{show(r1)} ? {show(r2)} depends on how integral numbers are held ({show(a)}, {show(b)})')
    if pair(c, a, r1) != 0:
        c.fail(f'{show(a)} and {show(r1)} differ')


def pool_of(c, n):
    """n related values."""
    out = []
    for _ in range(n):
        if out and c.draw(3):
            out.append(near(c, c.pick(out)))
        elif c.draw(3) == 0:
            out.append(c.pick(POOL))
        else:
            out.append(value(c, 2))
    return out


def permutation(c, what, before, after):
    if not isinstance(after, list) or len(after) != len(before):
        c.fail(f'{what} = {show(after)} is not a permutation of {show(before)}')
    left = list(before)
    for v in after:
        for i, w in enumerate(left):
            if w is v:
                del left[i]
                break
        else:
            c.fail(f'{what} = {show(after)} is not a permutation of {show(before)}: {show(v)}')


COMPARERS = ['none', 'systemCompare', 'reverse', 'missing argument', 'fractions', 'large numbers']


def sorting(c):
    items = pool_of(c, c.int(0, 12) if c.draw(60) < 59 else c.int(17, 140))
    before = list(items)
    mode = c.draw(6)
    c.sample(f'{COMPARERS[mode]}: {show(before)}')
    if len(items) >= 3:
        c.nontrivial(f'{mode} {show(before)}')
    direction = 1
    if mode == 0:
        got = lib('arraySort', items)
    elif mode == 1:
        got = lib('arraySort', items, LIBRARY['systemCompare'])
    elif mode == 2:
        direction = -1
        got = lib('arraySort', items, lambda args, options: LIBRARY['systemCompare']([args[1], args[0]], options))
    elif mode == 3:
        got = lib('arraySort', items, None)
    else:
        # only the sign of the compare function's result counts
        scale = 0.125 if mode == 4 else 1e9
        got = lib('arraySort', items, lambda args, options: LIBRARY['systemCompare'](list(args), options) * scale)
    what = f'arraySort({show(before)}) [{COMPARERS[mode]}]'
    permutation(c, what, before, got)
    permutation(c, what + ' (the array)', before, items)
    for x, y in zip(got, got[1:]):
        if compare(x, y) * direction > 0:
            c.fail(f'{what}: {show(x)} before {show(y)}')
    for x, y in zip(items, got):
        if x is not y:
            c.fail(f'{what}: the array itself is {show(items)}')


FIELDS = ['a', 'b', 'c']


def data_sorting(c):
    pools = {f: pool_of(c, c.int(1, 4)) for f in FIELDS}
    rows = [{f: c.pick(pools[f]) for f in FIELDS if c.draw(6)} for _ in range(c.int(0, 10) if c.draw(60) < 59 else c.int(17, 140))]
    for i, row in enumerate(rows):
        row['id'] = i
    sorts = []
    for _ in range(c.int(1, 3)):
        f = c.pick(FIELDS + ['zz'])
        sorts.append([f] if c.draw(2) else [f, bool(c.draw(2))])
    before = list(rows)
    c.sample(f'{show(rows)} by {sorts}')
    if len(rows) >= 3:
        c.nontrivial(f'{show(rows)} {sorts}')
    got = lib('dataSort', rows, sorts)
    what = f'dataSort({show(before)}, {sorts!r})'
    permutation(c, what, before, got)
    for x, y in zip(got, got[1:]):
        for s in sorts:
            r = compare(x.get(s[0]), y.get(s[0])) * (-1 if len(s) > 1 and s[1] else 1)
            if r > 0:
                c.fail(f'{what}: row {x.get("id")} before row {y.get("id")}')
            if r < 0:
                break


def extremes(c):
    args = pool_of(c, c.int(1, 7))
    c.sample(show(args))
    if len(args) >= 2:
        c.nontrivial(show(args))
    for name, direction in (('mathMin', 1), ('mathMax', -1)):
        got = lib(name, *args)
        if not any(got is v or same(v, got) for v in args):
            c.fail(f'{name}({show(args)}) = {show(got)} is not an argument')
        for v in args:
            if compare(got, v) * direction > 0:
                c.fail(f'{name}({show(args)}) = {show(got)} although {show(v)} is there')


def searching(c):
    items = pool_of(c, c.int(0, 10))
    wanted = near(c, c.pick(items)) if items and c.draw(4) else value(c, 2)
    if items and c.draw(3) == 0:
        wanted = respell(c, c.pick(items))
    if callable(wanted):
        wanted = None
    c.sample(f'{show(wanted)} in {show(items)}')
    if items:
        c.nontrivial(f'{show(wanted)} in {show(items)}')
    hits = [i for i, v in enumerate(items) if compare(v, wanted) == 0]
    start = c.draw(len(items)) if items and c.draw(2) else None
    args = [] if start is None else [float(start)]
    first = [i for i in hits if start is None or i >= start]
    last = [i for i in hits if start is None or i <= start]
    if hits:
        c.tag('found')
    got = lib('arrayIndexOf', items, wanted, *args)
    if got != (first[0] if first else -1):
        c.fail(f'arrayIndexOf({show(items)}, {show(wanted)}{", %s" % start if args else ""}) = {show(got)}, equal elements at {hits}')
    got = lib('arrayLastIndexOf', items, wanted, *args)
    if got != (last[-1] if last else -1):
        c.fail(f'arrayLastIndexOf({show(items)}, {show(wanted)}{", %s" % start if args else ""}) = {show(got)}, equal elements at {hits}')


def scripted(c):
    """The same through a script: literals (floats), arrays and objects built by the library."""
    from bare_script import execute_script, parse_script
    srcs = ['null', 'true', 'false', '0', '1', '-1', '2', '10', '0.5', "''", "'a'", "'B'", "'10'", 'arrayNew()', 'arrayNew(1)', 'arrayNew(1, 2)', "arrayNew('a')",
            'objectNew()', "objectNew('a', 1)", "objectNew('b', 0, 'a', 1)", "objectNew('a', null)", 'arrayNew(arrayNew())', 'datetimeNew(2024, 2, 29)',
            'datetimeNew(2024, 2, 29, 0, 0, 0, 1)', "regexNew('a')", 'systemLog', 'arrayNewSize(2, 1)', "jsonParse('[1, 2.0]')", "jsonParse('{\"a\":1.0}')",
            "stringLength('a')", "arrayLength(arrayNew())", "numberParseInt('10')", "stringIndexOf('ab', 'b')", 'arrayPop(arrayNew(1))', 'mathFloor(1.5)',
            "numberParseFloat('2')", 'datetimeYear(datetimeNew(10, 1, 1))', '10 - 10', '1 == 1', '!1']
    a, b, d = c.pick(srcs), c.pick(srcs), c.pick(srcs)
    ops = list(OPS)
    rows = [f'a = {a}', f'b = {b}', f'd = {d}', 'r = arrayNew(systemCompare(a, b), systemCompare(b, a), systemCompare(a, d), systemCompare(b, d))']
    rows += [f'arrayPush(r, a {op} b, b {op} a)' for op in ops]
    rows += ['arrayPush(r, arraySort(arrayNew(a, b, d)), arrayNew(mathMin(a, b, d), mathMax(a, b, d)))',
             'arrayPush(r, arrayIndexOf(arrayNew(a, b, d), d), arrayNew(a) == arrayNew(b), objectNew("k", a) < objectNew("k", b))', 'return r']
    text = '\n'.join(rows)
    c.sample(text)
    if len({a, b, d}) > 1:
        c.nontrivial(f'{a}|{b}|{d}')
    opts = {'globals': {}}
    r = execute_script(parse_script(text), opts)
    va, vb, vd = (opts['globals'][k] for k in 'abd')
    want = [compare(va, vb), -compare(va, vb), compare(va, vd), compare(vb, vd)]
    for op in ops:
        want += [OPS[op](compare(va, vb)), OPS[op](-compare(va, vb))]
    if [x for x in r[:16]] != want or any(isinstance(x, bool) != isinstance(y, bool) for x, y in zip(r, want)):
        c.fail(f'comparisons {r[:16]!r}, expected {want!r}\n{text}')
    if any(compare(x, y) > 0 for x, y in zip(r[16], r[16][1:])):
        c.fail(f'arraySort gives {show(r[16])}\n{text}')
    permutation(c, 'arraySort', [va, vb, vd], r[16])
    lo, hi = r[17]
    for v in (va, vb, vd):
        if compare(lo, v) > 0 or compare(hi, v) < 0:
            c.fail(f'mathMin/mathMax give {show(lo)}, {show(hi)}\n{text}')
    at = [i for i, v in enumerate((va, vb, vd)) if compare(v, vd) == 0]
    if not callable(vd) and r[18] != at[0]:
        c.fail(f'arrayIndexOf gives {show(r[18])}, expected {at[0]}\n{text}')
    if r[19] is not (compare(va, vb) == 0) or r[20] is not (compare(va, vb) < 0):
        c.fail(f'containers of the values compare differently\n{text}')


ZONES = ['UTC', 'America/New_York', 'Asia/Kathmandu', 'Pacific/Chatham', 'Etc/GMT+12']


def zones(c):
    """Dates, naive and aware datetimes in other process time zones."""
    name = c.pick(ZONES)
    old = os.environ.get('TZ')
    os.environ['TZ'] = name
    time.tzset()
    R.ZONE = zoneinfo.ZoneInfo(name)
    try:
        day = D(2000 + c.draw(40), c.pick([3, 11, 6, 1]), c.int(1, 28), c.draw(24), c.draw(60))
        items = [day, day.date()]
        for _ in range(c.int(1, 4)):
            off = datetime.timezone(datetime.timedelta(minutes=c.pick([-720, -300, -240, 0, 330, 345, 825])))
            aware = (day + datetime.timedelta(hours=c.int(-14, 14))).replace(tzinfo=off)
            items.append(aware)
        c.sample(f'TZ={name} {items!r}')
        c.nontrivial(f'{name} {items!r}')
        c.weight = len(items) ** 2
        for a in items:
            for b in items:
                pair(c, a, b)
        got = lib('arraySort', list(items))
        if any(compare(x, y) > 0 for x, y in zip(got, got[1:])):
            c.fail(f'TZ={name}: arraySort({items!r}) = {got!r}')
    finally:
        R.ZONE = None
        if old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = old
        time.tzset()


# -- large values -----------------------------------------------------------------------------

def large_items(tier):
    for n in (6, 9, 10, 11, 12, 16, 17, 20, 24, 33, 64, 65, 100, 128, 129, 255, 256, 257, 500, 512, 513, 1000, 1023, 1024, 1025, 2049, 5000) + ((10001, 20000) if tier == 'thorough' else ()):
        for shape in ('array', 'object', 'keys', 'string', 'sort', 'compare sort', 'data sort', 'min max', 'search', 'deep', 'number'):
            for k in range(6):
                if shape != 'deep' or n <= 257:
                    yield n, shape, k


KINDS = [lambda i: i, lambda i: float(i), lambda i: f's{i:06d}', lambda i: [i, 'x'], lambda i: {'a': i, 'b': None}, lambda i: D(2000, 1, 1) + datetime.timedelta(milliseconds=i)]


def large_check(c, item):
    """Long containers that differ in one place, and long arrays through every consumer; keys whose order is that of their number."""
    n, shape, k = item
    c.nontrivial(item)
    what = f'{shape} of {n}, {k}'
    c.sample(what)
    make = KINDS[k]
    at = [0, n // 2, n - 1, min(n - 1, 256), n // 3, n - 2][k]

    def both(a, b, want):
        """The order of two values, from every relation."""
        got = (lib('systemCompare', a, b), lib('systemCompare', b, a), lib('systemCompare', a, copy_of(a)))
        if got != (want, -want, 0):
            c.fail(f'{what}: systemCompare gives {got}, expected {want}, {-want} and 0 for itself')
        for x, y, s in ((a, b, want), (b, a, -want)):
            for op, test in OPS.items():
                if evaluate_expression(EXPRS[op], None, {'aa': x, 'bb': y}) is not test(s):
                    c.fail(f'{what}: {op} is not {test(s)} (the order is {s})')
            for name, direction in (('mathMin', 1), ('mathMax', -1)):
                got = lib(name, x, y)
                if s and got is not (x if s == -direction else y):
                    c.fail(f'{what}: {name} gives the wrong argument')
            if lib('arrayIndexOf', [None, x, y], y) != (1 if s == 0 else 2):
                c.fail(f'{what}: arrayIndexOf finds another value')
    if shape == 'array':
        a = [make(i) for i in range(n)]
        b = copy_of(a)
        both(a, b, 0)
        b[at] = make(n + 5)
        both(a, b, -1)
        both(a[:-1], a, -1)
        both(a[:-1] + [None], a, -1)
        # the shorter one with the greater element
        b[min(at, n - 3)] = make(n + 5)
        both(b[:-1], a, 1)
        # and much shorter: the greater element is the last one
        for size in sorted({1, 2, 5, 9, 17, 33, n // 2, n - 9, min(at + 1, n)}):
            if 0 < size < n:
                both(a[:size - 1] + [make(n + 5)], a, 1)
                both(a[:size], a, -1)
    elif shape in ('object', 'keys'):
        a = {f'k{i * 7919 % n:06d}': make(i) for i in range(n)}
        b = {key: copy_of(a[key]) for key in sorted(a, reverse=bool(k % 2))}
        both(a, b, 0)
        if shape == 'object':
            key = f'k{at:06d}'
            b[key] = make(n + 5)
            both(a, b, -1)
            keys = sorted(a)
            for size in sorted({1, 2, 5, 9, 17, 33, n // 2, n - 9, min(at + 1, n)}):
                if 0 < size < n:
                    both({key: make(n + 5) if i == size - 1 else a[key] for i, key in enumerate(keys[:size])}, a, 1)
                    both({key: a[key] for key in reversed(keys[:size])}, a, -1)
        else:
            del b[f'k{at:06d}']
            both(a, b, compare(a, b))
            b[f'k{at:06d}x'] = make(0)
            both(a, b, compare(a, b))
    elif shape == 'string':
        unit = ['a', 'ab', ' ', '\u00e9', '\U0001f600', 'xyz '][k]
        s = (unit * n)[:n]
        both(s, s[:-1], 1)
        both(s[:at] + '~' + s[at:], s[:at] + '\U0010ffff' + s[at:], -1)
        both(s + 'a', s + 'b', -1)
    elif shape == 'number':
        both(2 ** 53 - n, 2 ** 53 - n + 1, -1)
        both(float(n), n, 0)
        both(-n, -n + 0.5, -1)
        both([n] * 50, [float(n)] * 50, 0)
        both(10.0 ** (n % 300), 10.0 ** (n % 300) * 1.001, -1)
        both(n, str(n), -1)
        both(D(2000, 1, 1) + datetime.timedelta(days=n), D(2000, 1, 1) + datetime.timedelta(days=n, milliseconds=1), -1)
    elif shape == 'deep':
        depth = n if n < 100 else 60
        a, b = make(1), make(2)
        d = copy_of(a)
        for i in range(depth):
            a, b, d = ([a], [b], [d]) if (i + k) % 3 else ({'x': a, 'w': 1}, {'w': 1, 'x': b}, {'w': 1.0, 'x': d})
        both(a, b, -1)
        both(a, d, 0)
    elif shape in ('sort', 'compare sort', 'data sort'):
        m = [n, 1, 2, 7, 100, n][(k + n) % 6]
        order = [i * 7919 % n % m for i in range(n)] if k % 2 else [(n - i) // 2 for i in range(n)]
        items = [make(i) for i in order]
        if shape == 'data sort':
            rows = [{'a': v, 'i': i} for i, v in enumerate(items)]
            for direction in (1, -1):
                got = lib('dataSort', list(rows), [['a', direction < 0], ['i']])
                want = sorted(range(n), key=lambda i: (direction * order[i], i))
                if not isinstance(got, list) or [r['i'] for r in got] != want:
                    c.fail(f'{what}: dataSort in direction {direction} gives another order')
            return
        before = list(items)
        if shape == 'sort':
            got = lib('arraySort', items)
            want = sorted(order)
        else:
            got = lib('arraySort', items, lambda args, options: LIBRARY['systemCompare']([args[1], args[0]], options))
            want = sorted(order, reverse=True)
        if got is not items or sorted(map(id, got)) != sorted(map(id, before)) or [x for x in got] != [make(i) for i in want]:
            c.fail(f'{what}: arraySort gives another order or other elements')
        for probe in (0, n // 2, n - 1):
            if lib('arrayIndexOf', got, make(want[probe])) != want.index(want[probe]):
                c.fail(f'{what}: arrayIndexOf of a sorted array finds another place')
    elif shape == 'min max':
        items = [make(i * 7919 % n) for i in range(n)]
        items.insert(at, make(n + 1))
        items.insert(n - at, make(-1 if k != 2 else 0))
        items = [v for v in items if v != make(0)] + [make(0)] if k == 2 else items
        lo, hi = lib('mathMin', *items), lib('mathMax', *items)
        if lo != make(-1 if k != 2 else 0) or hi != make(n + 1):
            c.fail(f'{what}: mathMin {show(lo)}, mathMax {show(hi)}')
    else:
        items = [make(i % max(1, n // 2)) for i in range(n)]
        v = make(at % max(1, n // 2))
        first = at % max(1, n // 2)
        places = [i for i in range(n) if i % max(1, n // 2) == first]
        got = (lib('arrayIndexOf', items, v), lib('arrayLastIndexOf', items, v), lib('arrayIndexOf', items, v, float(places[-1])), lib('arrayLastIndexOf', items, v, places[0]),
               lib('arrayIndexOf', items, make(n + 1)), lib('arrayLastIndexOf', items, make(n + 1)))
        if got != (places[0], places[-1], places[-1], places[0], -1, -1):
            c.fail(f'{what}: the searches give {got}, the value is at {places}')


def copy_of(v):
    if isinstance(v, list):
        return [copy_of(x) for x in v]
    if isinstance(v, dict):
        return {key: copy_of(x) for key, x in v.items()}
    return v


def sections(tier):
    return [
        Enum('pairs', pair_items, pair_check),
        Enum('large values', large_items, large_check),
        Gen('triples', triples, 50000),
        Gen('sorting', sorting, 40000),
        Gen('data sorting', data_sorting, 25000),
        Gen('extremes', extremes, 30000),
        Gen('searching', searching, 50000),
        Gen('scripted', scripted, 15000),
        Gen('zones', zones, 1500),
    ]
