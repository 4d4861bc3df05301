"""C12: int and float spellings of a number are interchangeable."""

import copy
import itertools

from bare_script import (add_calculated_field, aggregate_data, evaluate_expression, filter_data, join_data, parse_expression, parse_script,
                         sort_data, top_data)

from core import Enum, Gen, Reject
from gen import libargs
from gen import program as P
from gen.rename import KEEP, odd_names
from gen import values as V
from harness import LIBRARY, HostFn, ambient, call, run_target
from ref.values import REGEX, WORK, same, show, vtype

RULE = ('Every library function (clock, random and fetch functions apart) over well-typed, ill-typed, missing and surplus arguments, every '
        'operator over number-bearing operands, programs (the literals of the model and the initial globals), and the exported data functions, each '
        'run with all integral numbers as int, all as float, and mixed; callbacks return both spellings too. Compared: result, log, failure, '
        'arguments and globals afterwards. Non-trivial: at least one integral number was spelled both ways; distinct by function and shown '
        'arguments.')
ASSUMPTIONS = ['-0 has no int spelling; a result of -0 for one spelling and 0 for the other is a difference.', 'Integral numbers of 1e15 and above are floats.',
               'Digit counts stay below 300, sizes below 100001.']

SKIP = {'datetimeNow', 'datetimeToday', 'mathRandom', 'systemFetch'}
NAMES = sorted(n for n in LIBRARY if n not in SKIP and n in libargs.SIGNATURES)


class Speller:
    """Rewrites the integral numbers of values: mode 0 int, 1 float, 2 by choice."""

    def __init__(self, mode, c=None):
        self.mode = mode
        self.c = c
        self.count = 0
        self.memo = {}

    def __call__(self, v):
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, (int, float)):
            if v != v or abs(v) >= 1e15 or v != int(v):
                return float(v)
            self.count += 1
            if self.mode == 2:
                return float(int(v)) if self.c.draw(2) else int(v)
            return float(int(v)) if self.mode else int(v)
        if isinstance(v, HostFn):
            if id(v) not in self.memo:
                self.memo[id(v)] = self.host(v)
            return self.memo[id(v)]
        if isinstance(v, list):
            if id(v) not in self.memo:
                out = self.memo[id(v)] = []
                out.extend(self(x) for x in v)
            return self.memo[id(v)]
        if isinstance(v, dict):
            if id(v) not in self.memo:
                out = self.memo[id(v)] = {}
                for k, x in v.items():
                    out[k] = self(x)
            return self.memo[id(v)]
        return v

    def host(self, v):
        def fn(args, options):
            log = options.get('logFn')
            log(f'{v.name} {[vtype(a) for a in args]!r}')
            r = v.fn(list(args), log)
            if isinstance(r, (int, float)) and not isinstance(r, bool) and r == r and abs(r) < 1e15 and r == int(r):
                return float(r) if self.mode == 1 else int(r)
            return r
        return fn


def log_lines(log):
    """The log, without the texts of failure messages."""
    return ['BareScript: ...' if ln.startswith('BareScript: ') else ln for ln in log]


def alike(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(alike(a[k], b[k]) for k in a)
    return same(a, b, True)


class Seen:
    """What one call shows."""

    def __init__(self, name, args, mode, c, after=()):
        spell = Speller(mode, c)
        self.args = []
        for a in args:      # no aliasing between arguments
            spell.memo = {}
            self.args.append(spell(a))
        self.log = []
        globals_ = dict(LIBRARY)
        globals_['g1'] = spell(5)
        options = {'globals': globals_, 'logFn': self.log.append, 'debug': True}
        self.result = call(name, self.args, options)
        self.failed = any(ln.startswith('BareScript: ') for ln in self.log)
        if name == 'systemPartial' and callable(self.result):
            extra = [spell(v) for v in after]
            try:
                self.result = ['partial', self.result(extra, options)]
            except Exception as exc:  # pylint: disable=broad-exception-caught
                self.result = ['partial raised', type(exc).__name__]
        self.globals = {k: v for k, v in globals_.items() if v is not LIBRARY.get(k)}
        self.count = spell.count

    def compare(self, other):
        if not alike(self.result, other.result):
            return f'result {show(self.result)} and {show(other.result)}'
        if self.failed != other.failed:
            return f'one call fails, the other does not: {self.log!r} and {other.log!r}'
        if log_lines(self.log) != log_lines(other.log):
            return f'log {self.log!r} and {other.log!r}'
        if not alike(self.args, other.args):
            return f'arguments afterwards {show(self.args)} and {show(other.args)}'
        if not alike(self.globals, other.globals):
            return f'globals afterwards {show(self.globals)} and {show(other.globals)}'
        return None


def both(c, name, args, after=(), mixed=2):
    """One call in every spelling."""
    what = f'{name}({", ".join(show(a) for a in args)})'
    c.sample(what)
    first = Seen(name, args, 0, c, after)
    if not first.count:
        c.tag('no integral number')
    else:
        c.nontrivial(what)
        c.tag(f'{name} {"failed" if first.failed else "ok"}')
    c.weight = 2
    for mode in [1] + [2] * (mixed if first.count > 1 else 0):
        other = Seen(name, args, mode, c, after)
        msg = first.compare(other)
        if msg:
            c.fail(f'{what}: with ints and floats: {msg}\n  ints {show(first.args)}\n  other {show(other.args)}')
    return first


# -- library functions ------------------------------------------------------------------------

SIGN = HostFn('sgn', lambda a, log: (a[0] > a[1]) - (a[0] < a[1]) if len(a) == 2 and all(isinstance(x, (int, float)) for x in a) else 0)
ODD = HostFn('odd', lambda a, log: a[0] % 2 if a and isinstance(a[0], (int, float)) and not isinstance(a[0], bool) else 0)
FUNCTIONS = [SIGN, ODD, V.FN1, V.FN2]


def wide(c):
    """Any integral number below 1e15 of either sign, of any magnitude."""
    v = c.draw(10 ** 15) // 10 ** c.draw(15)
    return -v if c.draw(2) else v


def integral(c):
    k = c.draw(8)
    if k <= 4:
        return c.int(0, 6)
    if k == 5:
        return c.int(-5, 40)
    if k == 6 and c.draw(3) == 2:
        return wide(c)
    return c.pick([-1, 10, 16, 36, 65, 97, 255, 1000, 65536, -1000, 123456789, 999999999999999, 0.5])


def numbers_value(c, depth=2):
    k = c.draw(7)
    if depth <= 0 or k <= 3:
        return integral(c)
    if k == 4:
        return [numbers_value(c, depth - 1) for _ in range(c.draw(4))]
    if k == 5:
        return {n: numbers_value(c, depth - 1) for n in ('a', 'b', '1') if c.draw(2)}
    return V.value(c, 1, functions=False)


def table(c):
    pools = {f: [numbers_value(c, 1) if c.draw(3) else V.scalar(c) for _ in range(c.int(1, 3))] for f in 'abc'}
    return [{f: c.pick(pools[f]) for f in 'abc' if c.draw(6)} for _ in range(c.int(1, 6))]


EXPRESSIONS = ['a', 'a == 1', 'a + b', 'a * 2 + k', 'a % 3', 'a && b', 'arrayGet(arrayNew(5, 6, 7), a)', "stringRepeat('x', a % 7)", "'' + a", 'if(a > 1, b, c)', 'a - b',
               'mathFloor(a / 2)', "stringNew(a) + stringNew(b)", 'jsonStringify(c)', 'a == b', 'round(a, 1)']


def data_arguments(c, name):
    data = table(c)
    variables = [{'k': integral(c)}] if c.draw(2) else []
    if name == 'dataTop':
        return [data, integral(c)] + ([c.pick([['a'], ['a', 'b'], [], ['zz']])] if c.draw(3) else [])
    if name == 'dataSort':
        return [data, [[c.pick('abc')] + ([bool(c.draw(2))] if c.draw(2) else []) for _ in range(c.int(1, 3))]]
    if name == 'dataFilter':
        return [data, c.pick(EXPRESSIONS)] + variables
    if name == 'dataCalculatedField':
        return [data, c.pick(['d', 'a']), c.pick(EXPRESSIONS)] + variables
    if name == 'dataJoin':
        other = table(c)
        if c.draw(2):
            other = [dict(r, b=c.pick(data).get('a')) for r in other]
        args = [data, other, c.pick(EXPRESSIONS)]
        if c.draw(2):
            args.append(c.pick(['a', 'b', 'b + k', 'c']))
            if c.draw(2):
                args += [bool(c.draw(2))] + variables
        return args
    if name == 'dataAggregate':
        model = {'measures': [{'field': c.pick('abc'), 'function': c.pick(['count', 'sum', 'max', 'min', 'average', 'stddev']), 'name': 'm1'}]}
        if c.draw(2):
            model['measures'].append({'field': c.pick('abc'), 'function': c.pick(['count', 'max', 'min']), 'name': 'm2'})
        if c.draw(3):
            model['categories'] = c.pick([['a'], ['b'], ['a', 'b']])
        if c.draw(3):
            data = [{k: v for k, v in r.items() if isinstance(v, (int, float)) and not isinstance(v, bool)} for r in data]
        return [data, model]
    return [data] + ([bool(c.draw(2))] if c.draw(2) else [])


def plausible(c, name):
    """Well-typed arguments full of integral numbers."""
    if name.startswith('data') and name != 'dataParseCSV' and not name.startswith('datetime'):
        return data_arguments(c, name)
    out = []
    for code, mod in libargs.parse(libargs.SIGNATURES[name]):
        if mod == '?' and not c.draw(4):
            break
        for _ in range(c.draw(5) if mod == '*' else 1):
            if code == 'v':
                out.append(numbers_value(c))
            elif code == 'a':
                out.append([numbers_value(c, 1) for _ in range(c.draw(6))])
            elif code == 'o':
                out.append({k: numbers_value(c, 1) for k in ('a', 'b', 'c') if c.draw(2)})
            elif code == 'f':
                out.append(c.pick(FUNCTIONS))
            elif code == 'n' or (code == 'i' and c.draw(2)):
                out.append(integral(c))
            else:
                out.append(libargs.arg(c, code, name))
    if name in ('arrayIndexOf', 'arrayLastIndexOf') and len(out) > 1:
        if c.draw(3) == 0:
            out[1] = c.pick([ODD, V.FN1])
        elif out[0] and c.draw(2):
            out[1] = c.pick(out[0])
    return out


TYPES = ("struct S\n  int a\n  optional float b\n  optional int(>= 0, < 10) c\n  optional string d\n  optional int[] e\n  optional int{} f\n"
         "  optional E g\n\nenum E\n  x\n  1\n")


def fix(name, args):
    """Keep sizes small and times outside."""
    big = {'numberToFixed': 1, 'mathRound': 1, 'jsonStringify': 1, 'stringRepeat': 1, 'arrayNewSize': 0}.get(name)
    if big is not None:
        for i in range(big, len(args)):
            if isinstance(args[i], (int, float)) and not isinstance(args[i], bool) and abs(args[i]) > 300:
                args[i] = 300
    return args


def library(c):
    name = c.pick(NAMES)
    args = plausible(c, name) if c.draw(4) else libargs.arguments(c, name)
    if c.draw(8) == 7 and args:
        args[c.draw(len(args))] = c.pick([None, 'a', 1.5, True, [1], {'a': 1}, 7])
    if name == 'schemaValidate':
        types = call('schemaParse', [TYPES])
        value = {'a': integral(c)}
        for k, v in (('b', integral(c)), ('c', integral(c)), ('d', c.pick(['x', 1])), ('e', [integral(c)]), ('f', {'x': integral(c)}), ('g', c.pick(['x', '1', 1]))):
            if c.draw(4) == 3:
                value[k] = v
        args = [types, 'S', value]
        r1 = schema_call(args, 0, c)
        c.sample(f'schemaValidate(types, S, {show(value)})')
        c.nontrivial(show(value))
        r2 = schema_call(args, 1, c)
        if r1[1] != r2[1] or not alike(r1[0], r2[0]):
            c.fail(f'schemaValidate of {show(value)}: {r1!r} with ints, {r2!r} with floats')
        return
    both(c, name, fix(name, args), after=[integral(c) for _ in range(c.draw(3))])


def schema_call(args, mode, c):
    log = []
    spell = Speller(mode, c)
    r = call('schemaValidate', [spell(args[0]), args[1], spell(args[2])], {'globals': dict(LIBRARY), 'logFn': log.append, 'debug': True})
    return r, bool(log)


# -- every index, size and count position ----------------------------------------------------

def index_calls():
    arr = ['x', 1, 2.0, None]
    ix = list(range(-2, 7))
    out = []
    for i in ix:
        out += [('arrayDelete', [arr, i]), ('arrayGet', [arr, i]), ('arraySet', [arr, i, 7]), ('arrayIndexOf', [arr, 2, i]), ('arrayIndexOf', [arr, 'x', i]),
                ('arrayLastIndexOf', [arr, 1, i]), ('arrayLastIndexOf', [arr, V.FN1, i]), ('arrayIndexOf', [arr, ODD, i]), ('arrayNewSize', [i]),
                ('arrayNewSize', [i, 0]), ('stringCharCodeAt', ['abcd', i]), ('stringRepeat', ['ab', i]), ('stringIndexOf', ['abcabc', 'bc', i]),
                ('stringLastIndexOf', ['abcabc', 'bc', i]), ('stringSlice', ['abcd', i]), ('arraySlice', [arr, i]), ('arrayGet', [[], i]), ('arrayNew', [i, [i]]),
                ('arrayPush', [list(arr), i]), ('arrayJoin', [[i, 2, i], ',']), ('stringNew', [i]), ('stringNew', [[i, {'a': i}]]), ('mathSign', [i]), ('mathAbs', [i]),
                ('mathCeil', [i]), ('mathFloor', [i]), ('mathSqrt', [i]), ('mathLn', [i]), ('mathLog', [8, i]), ('mathLog', [i, 2]), ('mathMax', [i, 3]),
                ('mathMin', [i, 0, 2]), ('mathAtan2', [i, 1]), ('systemBoolean', [i]), ('systemIs', [i, i]), ('systemIs', [i, 2]), ('systemType', [i]),
                ('systemCompare', [i, 2]), ('systemCompare', [[i, 1], [2, 1]]), ('systemGlobalSet', ['g2', i]), ('systemGlobalGet', ['nn', i]), ('systemLog', [i]),
                ('systemLogDebug', [[i]]), ('objectNew', ['a', i]), ('objectSet', [{}, 'a', i]), ('objectGet', [{'a': 1}, 'b', i]), ('jsonStringify', [[i, {'a': i}]]),
                ('dataTop', [[{'a': 1}, {'a': 1}, {'a': 2}], i]), ('dataTop', [[{'a': 1}, {'a': 1}, {'a': 2}], i, ['a']]), ('systemPartial', [V.FN1, i]),
                ('arrayCopy', [[i]]), ('arrayExtend', [[i], [i]]), ('arraySort', [[3, i, 1, 2]]), ('arraySort', [[3, i, 1, 2], SIGN]), ('arrayShift', [[i]]),
                ('arrayPop', [[1, i]]), ('objectCopy', [{'a': i}]), ('objectAssign', [{'b': i}, {'a': i}])]
        for j in ix:
            out += [('arraySlice', [arr, i, j]), ('stringSlice', ['abcd', i, j])]
    for radix in range(-1, 40):
        out += [('numberParseInt', [t, radix]) for t in ('12', 'ff', '-7', 'zz', '0', '1.0', '0x1f', '0X1F', '0b11', '0o17', '+5', ' 12 ', '', '-0x1f', '0z', 'FFFFFFFFFFFF', '1e3', '08')]
    for digits in range(-1, 25):
        for x in (0, 1, -1, 10, 0.125, 1234.5678, -0.5, 2.5, 1e14, 123456789012345, 5e-5):
            out += [('numberToFixed', [x, digits]), ('numberToFixed', [x, digits, True]), ('mathRound', [x, digits])]
    for indent in range(-1, 12):
        out += [('jsonStringify', [v, indent]) for v in ([1, 2], {'a': [1, {'b': 2}]}, 1, [])]
    for code in (0, 65, 97, 255, 8364, 55295, 65535, 65536, 128512, 1114111, 1114112, -1):
        out += [('stringFromCharCode', [code]), ('stringFromCharCode', [65, code, 66])]
    base = [2024, 2, 29, 12, 30, 15, 250]
    for pos, options in enumerate([[99, 100, 1970, 9999, 10000], [-30, -1, 0, 1, 12, 13, 40], [-10000, -366, -1, 0, 1, 28, 31, 366, 10000, 10001],
                                   [-5000, -1, 0, 23, 24, 5000], [-5000, -1, 0, 59, 60, 5000], [-5000, -1, 0, 59, 60, 5000], [-5000, -1, 0, 999, 1000, 5000]]):
        for v in options:
            for n in range(max(3, pos + 1), 8):
                args = base[:n]
                args[pos] = v
                out.append(('datetimeNew', args))
    return out


INDEX_CALLS = index_calls()


def index_items(_tier):
    for i, (_name, args) in enumerate(INDEX_CALLS):
        top = sum(1 for a in args if isinstance(a, (int, float)) and not isinstance(a, bool))
        for mask in range(1, 2 ** min(top, 4)):
            yield i, mask


def index_check(c, item):
    """All top-level numbers as ints against every subset of them as floats (and all floats)."""
    name, args = INDEX_CALLS[item[0]]
    where = [k for k, a in enumerate(args) if isinstance(a, (int, float)) and not isinstance(a, bool)]
    plain = [int(a) if k in where and a == int(a) else a for k, a in enumerate(args)]
    other = list(plain)
    for bit, k in enumerate(where[:4]):
        if item[1] >> bit & 1:
            other[k] = float(other[k])
    first = direct(name, plain)
    second = direct(name, other)
    what = f'{name}({", ".join(show(a) for a in other)})'
    c.sample(what)
    c.nontrivial(what)
    for label, x, y in zip(('result', 'failure', 'log', 'arguments'), first, second):
        if not alike(x, y):
            c.fail(f'{what}: {label} {show(y)}, with ints {show(x)}')
    both(c, name, args, mixed=0)


def direct(name, args):
    log = []
    spell = Speller(3)
    args = [spell.host(a) if isinstance(a, HostFn) else copy.deepcopy(a) for a in args]
    r = call(name, args, {'globals': dict(LIBRARY), 'logFn': log.append, 'debug': True})
    if callable(r):
        r = None
    return r, any(ln.startswith('BareScript: ') for ln in log), log_lines(log), [None if callable(a) else a for a in args]


# -- operators --------------------------------------------------------------------------------

BINARY = ['+', '-', '*', '/', '%', '**', '==', '!=', '<', '<=', '>', '>=', '&&', '||']
PARSED = {op: parse_expression(f'aa {op} bb') for op in BINARY}
UNARY = [parse_expression(t) for t in ('!aa', '-aa', '(aa)', 'if(aa, bb, 1)', "'' + aa", "aa + ''", '--aa', "abs(aa)", 'fixed(aa, 1)', 'round(aa, bb)', 'date(aa, 1, 1)',
                                        "slice('abc', aa)", 'max(aa, bb)', "rept('a', 2)", 'year(aa)', 'text(aa)')]
POOL = [None, True, False, 0, 1, -1, 2, 3, 7, 10, -7, 100, 36, 999999999999999, -999999999999999, 281474976710656, 0.5, -2.5, 1e-7, 1e15, 1e300, '', 'a', '1',
        V.D(2024, 2, 29, 12), V.datetime.date(2024, 2, 29), [], [1], [1, 2], [[0]], {}, {'a': 1}, {'a': [1, 0]}, REGEX and V.REGEXES[0], 86400000, 1024, 53, 4, 5, 6]


def operator_items(_tier):
    for i in range(len(POOL)):
        for j in range(len(POOL)):
            yield i, j


def evaluated(expr, a, b):
    log = []
    r = evaluate_expression(expr, {'globals': dict(LIBRARY), 'logFn': log.append, 'debug': True}, {'aa': a, 'bb': b})
    return r, log_lines(log)


def operator_check(c, item):
    a, b = POOL[item[0]], POOL[item[1]]
    c.sample(f'{show(a)} op {show(b)}')
    modes = [(i, j) for i in (0, 1) for j in (0, 1)]
    exprs = list(PARSED.items()) + ([(f'form {k}', e) for k, e in enumerate(UNARY)])
    c.weight = 4 * len(exprs)
    si = Speller(0)
    si(a), si(b)
    if si.count:
        c.nontrivial(f'{item}')
    for name, expr in exprs:
        want, wlog = evaluated(expr, Speller(0)(a), Speller(0)(b))
        for i, j in modes[1:]:
            got, glog = evaluated(expr, Speller(i)(a), Speller(j)(b))
            if not alike(want, got) or wlog != glog:
                c.fail(f'{show(Speller(i)(a))} {name} {show(Speller(j)(b))} = {show(got)}, with ints {show(want)}')


def operators_random(c):
    def operand():
        k = c.draw(5)
        if k <= 2:
            return c.int(-40, 40)
        if k == 3:
            return wide(c)
        return numbers_value(c)
    a, b = operand(), operand()
    name = c.pick(BINARY)
    if c.draw(6) == 5:
        # an instant and an offset that may reach across the whole calendar
        a, b, name = V.moment(c), wide(c), c.pick('++-')
        if c.draw(2):
            a, b = b, a
    c.sample(f'{show(a)} {name} {show(b)}')
    c.nontrivial(f'{show(a)} {name} {show(b)}')
    want, _ = evaluated(PARSED[name], Speller(0)(a), Speller(0)(b))
    for i, j in ((1, 1), (0, 1), (1, 0), (2, 2)):
        got, _ = evaluated(PARSED[name], Speller(i, c)(a), Speller(j, c)(b))
        if not alike(want, got):
            c.fail(f'{show(a)} {name} {show(b)} = {show(got)} in spelling {i}{j}, with ints {show(want)}')


# -- programs -----------------------------------------------------------------------------------

def respell_model(model, mode, c):
    """The model with its number literals in another spelling."""
    if isinstance(model, dict):
        if set(model) == {'number'}:
            return {'number': Speller(mode, c)(model['number'])}
        return {k: respell_model(v, mode, c) for k, v in model.items()}
    if isinstance(model, list):
        return [respell_model(v, mode, c) for v in model]
    return model


LINES = [
    "arr = arrayNew(3, 1, 2, i)", 'arraySet(arr, i % 3, i * 2)', "systemLog(arrayGet(arr, i))", 'i = i + 1', "systemLog(stringRepeat('ab', i))",
    "systemLog(jsonStringify(objectNew('a', i, 'b', arr), 2))", "systemLog('i ' + i + ' ' + arr)", 'arr = arraySlice(arr, 0, i)', 'systemLog(stringSlice(str, i, i + 2))',
    'arrayDelete(arr, i)', 'i = arrayLength(arr)', "i = stringIndexOf(str, 'c', i)", 'i = mathFloor(i / 2)', 'arraySort(arr)', 'systemLog(arrayIndexOf(arr, i))',
    'systemLog(numberToFixed(i, i))', 'systemLog(datetimeISOFormat(datetimeNew(2024, i, 1 + i), true))', 'systemLog(dataTop(rows, i))',
    "systemLog(dataFilter(rows, 'a == ' + i))", "systemLog(dataAggregate(rows, objectNew('categories', arrayNew('a'), 'measures', "
    "arrayNew(objectNew('field', 'b', 'function', 'sum')))))", 'i = numberParseInt(stringNew(i), 8 + 2)', 'i = i % 4 + 2', 'i = i ** 2 % 7', 'i = 0 - i',
    'if i == 2:\n    systemLog("two")\nelif i > 2:\n    systemLog("more")\nendif', 'for v, ix in arr:\n    systemLog(arrayGet(arr, ix) + " " + ix)\nendfor',
    'while i < 3:\n    i = i + 1\nendwhile', 'arr = arrayNewSize(i, i)', "obj = objectNew('k' + i, i)", "systemLog(objectGet(obj, 'k' + i, i))",
    'systemLog(stringFromCharCode(65 + i, 97 + i))', 'systemLog(stringCharCodeAt(str, i))', 'i = ff(i, 1)', 'systemLog(if(i, i, "zero"))',
    'systemLog(arrayJoin(arr, " ") + stringLength(str))', 'i = mathRound(i / 3, 1) * 3', "i = numberParseFloat('' + i)", 'pf = systemPartial(arrayGet, arr)\nsystemLog(pf(i))',
    "systemLog(dataJoin(rows, rows, 'a', 'b'))", 'systemLog(datetimeISOFormat(datetimeNew(2024, 1, 1) + i * 1000))', 'systemLog(i == arrayLength(arr))', 'i = 3 - i',
]
PRE = ['i = 2', "str = 'abcdefgh'", 'arr = arrayNew(1, 2, 3)', "obj = objectNew('k2', 5)", 'rows = arrayNew(objectNew("a", 1, "b", 2), objectNew("a", 2, "b", 2), '
       'objectNew("a", arrayLength(arrayNew(1)), "b", 3))', 'function ff(a, b...):', '    return a + arrayLength(b)', 'endfunction']


def huge(v, depth=0):
    if isinstance(v, bool) or depth > 6:
        return False
    if isinstance(v, (int, float)):
        return not abs(v) < 1e15
    if isinstance(v, list):
        return any(huge(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return any(huge(x, depth + 1) for x in v.values())
    return False


def programs(c):
    if c.draw(3):
        rows = PRE + [c.pick(LINES) for _ in range(c.int(1, 14))] + ['return arrayNew(i, arr, obj)']
        globals_ = {}
    else:
        gen = P.ProgramGen(c, max_depth=c.int(1, 4), budget=c.int(4, 25), max_functions=2)
        rows = [P.plain_line(ln) for ln in P.lines(odd_names(c, gen.program(), 8, KEEP)[0], c)]
        globals_ = {'B': [bool(c.draw(4)) for _ in range(c.draw(20))], 'g0': [1, 2], 'g1': c.pick([1, 's', None, [3]]), 'g2': 0, 'g3': 10}
    text = '\n'.join(rows)
    model = parse_script(text)
    c.sample(text)
    c.nontrivial(text)
    runs = []
    for mode in (0, 1, 2):
        runs.append(run_target(respell_model(model, mode, c), Speller(mode if mode < 2 else 1, c)(globals_), max_statements=3000, **ambient(f'{mode}{text}')))
    if any(huge(v) for r in runs for v in list(r.globals.values()) + [r.value]):
        raise Reject('numbers beyond 1e15')
    a = runs[0]
    c.weight = 3
    for b in runs[1:]:
        if a.kind != b.kind:
            c.fail(f'with ints {a!r}, with floats {b!r}\n{text}')
        if log_lines(a.log) != log_lines(b.log):
            k = next((k for k, (x, y) in enumerate(zip(a.log, b.log)) if x != y), min(len(a.log), len(b.log)))
            c.fail(f'log line {k}: with ints {a.log[k:k + 1]!r}, with floats {b.log[k:k + 1]!r}\n{text}')
        if not alike(a.value, b.value):
            c.fail(f'returned {show(a.value)} with ints, {show(b.value)} with floats\n{text}')
        for name in a.globals:
            if name not in b.globals or not alike(a.globals[name], b.globals[name]):
                c.fail(f'global {name} = {show(a.globals[name])} with ints, {show(b.globals.get(name))} with floats\n{text}')


# -- the exported data functions -------------------------------------------------------------

def exported(c):
    kind = c.draw(6)
    data = table(c)
    variables = {'k': integral(c)} if c.draw(2) else None
    if kind == 0:
        count = integral(c)
        fields = c.pick([None, ['a'], ['a', 'b']])
        def run(sp):
            return top_data(sp(data), sp(count), fields)
        what = f'top_data({show(data)}, {count}, {fields})'
    elif kind == 1:
        sorts = [[c.pick('abc')] + ([bool(c.draw(2))] if c.draw(2) else []) for _ in range(c.int(1, 2))]
        def run(sp):
            return sort_data(sp(data), sorts)
        what = f'sort_data({show(data)}, {sorts})'
    elif kind == 2:
        expr = c.pick(EXPRESSIONS)
        def run(sp):
            return filter_data(sp(data), expr, sp(variables), {'globals': dict(LIBRARY)})
        what = f'filter_data({show(data)}, {expr!r})'
    elif kind == 3:
        expr = c.pick(EXPRESSIONS)
        def run(sp):
            return add_calculated_field(sp(data), 'd', expr, sp(variables), {'globals': dict(LIBRARY)})
        what = f'add_calculated_field({show(data)}, {expr!r})'
    elif kind == 4:
        expr = c.pick(EXPRESSIONS)
        other = table(c)
        def run(sp):
            return join_data(sp(data), sp(other), expr, 'b', bool(kind & 1), sp(variables), {'globals': dict(LIBRARY)})
        what = f'join_data({show(data)}, {show(other)}, {expr!r})'
    else:
        args = data_arguments(c, 'dataAggregate')
        def run(sp):
            return aggregate_data(sp(args[0]), args[1])
        what = f'aggregate_data({show(args)})'
    c.sample(what)
    c.nontrivial(what)
    results = []
    for mode in (0, 1, 2):
        try:
            results.append(('ok', run(Speller(mode, c))))
        except Exception as exc:  # pylint: disable=broad-exception-caught
            results.append((type(exc).__name__, None))
    for other_result in results[1:]:
        if results[0][0] != other_result[0] or not alike(results[0][1], other_result[1]):
            c.fail(f'{what}: {results[0]!r} with ints, {other_result!r} otherwise')


FRACTIONS = [0.1, 0.2, 0.3, 0.7, 1 / 3, 2 / 3, 1e-9, 0.5, 1234.5678, 1e15 + 0.5, 1e16, 1e300, 5e-324, 99.99, 2.675, -0.1, -1 / 3, -1e16]


def aggregates(c):
    """Aggregates of numbers of every magnitude, that cancel each other or not."""
    numbers = []
    for _ in range(c.int(1, 10)):
        k = c.draw(5)
        x = c.pick(FRACTIONS) if k <= 1 else c.int(-9, 9) if k == 2 else c.draw(1000) * 10 ** c.draw(13) + c.draw(10) if k == 3 else -c.pick(numbers) if numbers else 1
        numbers.append(x * c.pick([1, -1]))
    rows = [{'a': x, 'b': c.draw(2)} for x in c.shuffle(numbers)]
    fns = ['sum', 'average', 'stddev', 'min', 'max', 'count']
    model = {'measures': [{'field': 'a', 'function': fn, 'name': fn} for fn in fns]}
    if c.draw(2):
        model['categories'] = ['b']
    what = f'dataAggregate({show(rows)}, {model})'
    c.sample(what)
    c.nontrivial(what)
    results = [LIBRARY['dataAggregate']([Speller(mode, c)(rows), model], {}) for mode in (0, 1, 2)]
    for mode in (1, 2):
        if not alike(results[0], results[mode]):
            c.fail(f'{what}: {show(results[0])} with ints, {show(results[mode])} otherwise')


# -- large sizes ------------------------------------------------------------------------------

SIZES = [99, 100, 101, 127, 128, 255, 256, 257, 999, 1000, 1023, 1024, 4095, 4096, 4097, 10000, 32767, 32768, 65535, 65536, 65537, 100000]


def size_items(_tier):
    return [(n, k) for n in SIZES for k in range(8)]


def size_check(c, item):
    n, k = item
    arr = ['x', None] * ((n + 3) // 2)
    text = 'ab\u4e2dd' * (n // 4 + 2)
    calls = [
        [('stringRepeat', ['ab', n]), ('stringRepeat', ['', n])],
        [('arrayNewSize', [n]), ('arrayNewSize', [n, 'q'])],
        [('arrayGet', [arr, n]), ('arraySet', [arr, n, 'y']), ('arrayDelete', [arr, n])],
        [('arrayIndexOf', [arr, 'x', n]), ('arrayLastIndexOf', [arr, 'x', n]), ('arrayIndexOf', [arr, 5, n])],
        [('arraySlice', [arr, n]), ('arraySlice', [arr, 1, n]), ('arraySlice', [arr, n, n])],
        [('stringCharCodeAt', [text, n]), ('stringSlice', [text, n]), ('stringSlice', [text, 1, n]), ('stringIndexOf', [text, 'd', n]), ('stringLastIndexOf', [text, 'b', n])],
        [('dataTop', [[{'a': 'x'}] * (n + 2) if n < 5000 else [{'a': 'x'}], n]), ('stringFromCharCode', [n]), ('arrayJoin', [[n, n + 1], ',']), ('mathRound', [n / 8, 2])],
        [('datetimeNew', [2024, 1, 1, n]), ('datetimeNew', [2024, 1, 1, 0, n]), ('datetimeNew', [2024, 1, 1, 0, 0, n]), ('datetimeNew', [2024, 1, 1, 0, 0, 0, n]),
         ('datetimeNew', [2024, n]), ('datetimeNew', [2024, -n]), ('datetimeNew', [2024, 1, -n]), ('datetimeNew', [2024, 1, 1, 0, -n])]][k]
    c.weight = 2 * len(calls)
    for name, args in calls:
        seen = [Seen(name, copy.deepcopy(args), mode, c) for mode in (0, 1)]
        WORK[0] = -10 ** 7
        wrong = seen[0].compare(seen[1])
        if wrong:
            c.fail(f'{name} with {n}: {wrong[:400]}')
    c.nontrivial(item)
    c.sample(f'{calls[0][0]} with {n}')


def sections(tier):
    return [
        Enum('large sizes', size_items, size_check),
        Enum('positions', index_items, index_check),
        Enum('operators', operator_items, operator_check),
        Gen('library', library, 120000),
        Gen('random operators', operators_random, 60000),
        Gen('programs', programs, 10000),
        Gen('exported data functions', exported, 20000),
        Gen('aggregates', aggregates, 20000),
    ]
