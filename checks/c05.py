"""C05: runtime errors are contained - only documented exceptions escape."""

import datetime
import decimal
import math
import re
import uuid

from bare_script import (BareScriptParserError, BareScriptRuntimeError, evaluate_expression, execute_script, parse_expression,
                         parse_script)

from core import Enum, Gen

from gen import expr as E
from gen import libargs
from gen import program as P
from gen import values as V
from harness import LIBRARY, HostFn, to_side
from ref.interp import BUILTINS
from ref.values import is_value, same, show, vtype

try:
    from bare_script.value import ValueArgsError
except ImportError:
    ValueArgsError = None

RULE = ('Every operator over every ordered pair of a 140-value adversarial pool (huge and non-finite numbers, cyclic and deeply '
        'nested containers, date limits, aware datetimes); every library function over well-typed, ill-typed, missing, surplus and '
        'adversarial arguments; lists of fetch requests of which some fail; host functions raising many exception types through every way of calling; wild programs and '
        'expressions. Oracle: only BareScriptRuntimeError/BareScriptParserError escapes, results are BareScript values, a failing '
        'call gives its documented failure value, is logged in debug mode (only) and execution continues. Non-trivial: the call '
        'failed, or an operand is adversarial, or the program has a library call; distinct by text and operands.')
ASSUMPTIONS = ['Counts that ask for gigabytes (stringRepeat, arrayNewSize, digits) are not generated.',
               'KeyboardInterrupt, SystemExit and other non-Exception classes are not host failures.',
               'schemaValidate may return host values for its uuid type: elsewhere its results are not checked to be values (open finding).']

BINARY = ['+', '-', '*', '/', '%', '**', '==', '!=', '<', '<=', '>', '>=', '&&', '||']
D = datetime.datetime


def exotic():
    cyclic = [1]
    cyclic.append(cyclic)
    ring = {'a': 1}
    ring['b'] = [ring]
    deep = []
    for _ in range(3000):
        deep = [deep]
    tower = {}
    for _ in range(1500):
        tower = {'a': tower}
    return {
        'NaN': math.nan, 'inf': math.inf, '-inf': -math.inf, '10**400': 10 ** 400, '-10**400': -10 ** 400, '2**1024': 2 ** 1024, '2**63': 2 ** 63,
        '1e308': 1e308, '1.8e308': 1.7976931348623157e308, '5e-324': 5e-324, '-1e308': -1e308, '86400000e6': 8.64e13, '1e15': 1e15, '1e20': 1e20,
        'datetime.min': D.min, 'datetime.max': D.max, 'date.min': datetime.date.min, 'date.max': datetime.date.max,
        'aware min': D.min.replace(tzinfo=datetime.timezone(datetime.timedelta(hours=14))),
        'aware max': D.max.replace(tzinfo=datetime.timezone(datetime.timedelta(hours=-12))),
        'aware': D(2024, 2, 29, 12, tzinfo=datetime.timezone.utc), 'cyclic': cyclic, 'ring': ring, 'deep': deep, 'tower': tower, 'surrogate': '\ud800',
        'long': 'x' * 5000, 'nul': '\0', 'nan list': [math.nan, math.inf], 'mixed': [None, 1, 'a', {}, [], cyclic], 'regex': re.compile('(a)|(b)?'),
        'named regex': re.compile('(?P<name>a)'), 'big list': list(range(300)), '(-8)': -8, 'third': 1 / 3,
    }


EXOTIC = exotic()


def pool():
    return [(show(v) if not isinstance(v, HostFn) else v.name, v) for v in V.pool()] + list(EXOTIC.items())


def escape(c, what, fn):
    """Run fn; anything but the documented exceptions is a violation."""
    try:
        return 'ok', fn()
    except BareScriptRuntimeError as exc:
        return 'runtime', exc
    except BareScriptParserError as exc:
        return 'parser', exc
    except Exception as exc:  # pylint: disable=broad-exception-caught
        c.fail(f'{type(exc).__name__} escaped from {what}: {str(exc)[:200]}')


def brief(v):
    if isinstance(v, (list, dict)) and not shallow(v):
        return f'<{vtype(v)}>'
    return show(v) if not isinstance(v, int) or abs(v) < 10 ** 30 else '<big int>'


def shallow(v):
    """A small tree: safe to walk recursively."""
    count = 0
    stack = [(v, 0)]
    while stack:
        v, depth = stack.pop()
        count += 1
        if depth > 12 or count > 3000:
            return False
        if isinstance(v, list):
            stack.extend((x, depth + 1) for x in v)
        elif isinstance(v, dict):
            stack.extend((x, depth + 1) for x in v.values())
    return True


def check_value(c, what, v):
    if not is_value(v):
        c.fail(f'{what} gave {v!r} of {type(v).__name__}, not a BareScript value')


# -- operators ------------------------------------------------------------------------------

PARSED = {op: parse_expression(f'a {op} b') for op in BINARY}
UNARY = [parse_expression(t) for t in ('!a', '-a', '(a)', 'if(a, b, a)', 'text(a)', "a + ''", "'' + a", 'a == a', '!-a', '--a')]


def operators(c, i):
    p = pool()
    ni, a = p[i]
    a = to_side(a, 'target') if isinstance(a, HostFn) else a
    c.weight = 0
    c.sample(f'{ni} with every operator and operand')
    for nj, b in p:
        b = to_side(b, 'target') if isinstance(b, HostFn) else b
        for op in BINARY:
            c.weight += 1
            what = f'{ni} {op} {nj}'
            status, v = escape(c, what, lambda: evaluate_expression(PARSED[op], {'globals': {'a': a, 'b': b}}))
            if status != 'ok':
                c.fail(f'{what} raised {v}')
            check_value(c, what, v)
            if op in ('==', '!=', '<', '<=', '>', '>=') and v is not True and v is not False and vtype(a) is not None and not (v is None and unorderable(a, b)):
                c.fail(f'{what} gave {brief(v)}')
            if ni in EXOTIC or nj in EXOTIC:
                c.nontrivial(what)
    for k, model in enumerate(UNARY):
        c.weight += 1
        status, v = escape(c, f'unary {k} {ni}', lambda: evaluate_expression(model, {'globals': {'a': a, 'b': 1}}))
        if status != 'ok':
            c.fail(f'unary form {k} of {ni} raised {v}')
        check_value(c, f'unary {k} {ni}', v)


def unorderable(a, b):
    return not shallow(a) or not shallow(b) or (isinstance(a, datetime.date) and isinstance(b, datetime.date))


# -- library functions ------------------------------------------------------------------------

FAILURE = {'arrayIndexOf': -1, 'arrayLastIndexOf': -1, 'arrayLength': 0, 'objectHas': False, 'stringIndexOf': -1, 'stringLastIndexOf': -1,
           'stringLength': 0}
CODE_TYPE = {'a': 'array', 't': 'array', 'o': 'object', 's': 'string', 'n': 'number', 'i': 'number', 'y': 'number', 'd': 'datetime', 'r': 'regex',
             'f': 'function'}
LOOSE = {'schemaParse', 'schemaParseEx', 'objectNew', 'mathPi', 'mathRandom', 'datetimeNow', 'datetimeToday', 'schemaTypeModel', 'dataParseCSV', 'systemFetch'}
NAMES = sorted(LIBRARY)


def clearly_invalid(name, args):
    """Must this call fail, by its documented argument types alone?"""
    if name in LOOSE or name not in libargs.SIGNATURES:
        return False
    sig = libargs.parse(libargs.SIGNATURES[name])
    for i, (code, mod) in enumerate(sig):
        want = CODE_TYPE.get(code)
        if mod == '*':
            return want is not None and any(vtype(v) != want for v in args[i:])
        if i >= len(args):
            if not mod and want is not None:
                return True
            continue
        if want is not None and args[i] is None and mod:
            continue
        if want is not None and vtype(args[i]) != want:
            return True
    return len(args) > len(sig)


def failure_value(name, args):
    if name == 'objectGet':
        return args[2] if len(args) > 2 else None
    return FAILURE.get(name)


_CALLS = {}


def call_model(name, n):
    if (name, n) not in _CALLS:
        text = f"systemLog('before')\nresult = {name}({', '.join('p%d' % i for i in range(n))})\nsystemLog('after')\nreturn result\n"
        _CALLS[(name, n)] = parse_script(text)
    return _CALLS[(name, n)]


def call_library(c, name, args, names=None):
    texts = names or [brief(a) for a in args]
    what = f'{name}({", ".join(texts)})'
    c.sample(what)
    invalid = clearly_invalid(name, [to_side(a, 'target') if isinstance(a, HostFn) else a for a in args])
    results = {}
    for debug in (True, False):
        memo = {}
        g = {f'p{i}': copy_for(a, memo) for i, a in enumerate(args)}
        if name == 'systemGlobalSet' and args and args[0] in ('systemLog', 'p0'):
            return
        log = []
        status, v = escape(c, what, lambda: execute_script(call_model(name, len(args)), {'globals': g, 'logFn': log.append, 'debug': debug}))
        if status != 'ok':
            c.fail(f'{what} ended the script with {v}')
        if log[:1] != ['before'] or log[-1:] != ['after']:
            c.fail(f'{what}: the statements around it logged {log[:4]}')
        reports = [t for t in log[1:-1] if f'"{name}"' in t]
        if invalid:
            want = failure_value(name, [g[f'p{i}'] for i in range(len(args))])
            if not (v is want or (shallow(v) and shallow(want) and same(want, v))):
                c.fail(f'{what} gave {brief(v)}, the documented failure value is {brief(want)}')
            if debug and len(reports) != 1:
                c.fail(f'{what} failed without exactly one debug report: {log}')
        if not debug and name not in ('systemLog',) and len(log) != 2:
            c.fail(f'{what} logged {log[1:-1][:3]} although debug is off')
        if name != 'schemaValidate':
            check_value(c, what, v)
        results[debug] = v
        if debug and reports:
            c.tag('failed')
            c.nontrivial(what)
        elif debug:
            c.tag('returned')
    # The host need not supply a log function, nor any other option but the globals
    memo = {}
    g = {f'p{i}': copy_for(a, memo) for i, a in enumerate(args)}
    bare = ({'globals': g, 'debug': True}, {'globals': g, 'debug': False}, {'globals': g}, {'globals': g, 'logFn': None, 'debug': True})[len(what) % 4]
    status, v = escape(c, what + ' with no logFn', lambda: execute_script(call_model(name, len(args)), bare))
    if status != 'ok':
        c.fail(f'{what} with the options {sorted(set(bare) - {"globals"})} ended the script with {v}')
    if vtype(v) != vtype(results[True]) or (shallow(v) and shallow(results[True]) and name not in CHANGING and not same(v, results[True])):
        c.fail(f'{what} with no logFn gave {brief(v)}, with one {brief(results[True])}')


CHANGING = ('mathRandom', 'datetimeNow', 'datetimeToday')


def copy_for(v, memo):
    """The adversarial values are shared: copy the plain ones, keep cyclic and deep ones out of mutation."""
    if isinstance(v, (list, dict)) and not shallow(v):
        return type(v)(v)
    return to_side(v, 'target', memo)


def library(c):
    name = c.pick(NAMES)
    c.tag('fn:' + name)
    if name not in libargs.SIGNATURES:
        args = [c.pick(V.SHORT) for _ in range(c.draw(4))]
    else:
        args = libargs.arguments(c, name)
    names = [brief(a) for a in args]
    for _ in range(c.draw(3)):
        if not args:
            break
        i = c.draw(len(args))
        key = c.pick(list(EXOTIC))
        v = EXOTIC[key]
        if name in libargs.SIZED and isinstance(v, int) or isinstance(v, float) and name in libargs.SIZED and math.isfinite(v):
            continue
        args[i] = v
        names[i] = key
    call_library(c, name, args, names)


def arity_items(tier):
    for name in NAMES:
        for n in range(9):
            for i in range(len(V.SHORT)):
                yield name, n, i


def arity(c, item):
    """Every function with 0..8 arguments of one and the same value."""
    name, n, i = item
    v = V.SHORT[i]
    if name in ('arrayNewSize', 'stringRepeat', 'numberToFixed', 'mathRound') and isinstance(v, float) and v > 1e6:
        return
    call_library(c, name, [v] * n)


# -- host functions that fail -------------------------------------------------------------------

class Odd(Exception):
    pass


RAISES = [
    ('ZeroDivisionError', lambda: 1 // 0), ('KeyError', lambda: {}['missing']), ('IndexError', lambda: [][1]), ('TypeError', lambda: len(5)),
    ('AttributeError', lambda: None.x), ('OverflowError', lambda: math.exp(1000)), ('ValueError', lambda: int('x')), ('RecursionError', lambda: _recurse()),
    ('UnicodeEncodeError', lambda: '\ud800'.encode()), ('AssertionError', lambda: _raise(AssertionError())), ('StopIteration', lambda: next(iter(()))),
    ('MemoryError', lambda: _raise(MemoryError())), ('OSError', lambda: _raise(OSError(2, 'x'))), ('NotImplementedError', lambda: _raise(NotImplementedError())),
    ('decimal', lambda: decimal.Decimal(1) / 0), ('Odd', lambda: _raise(Odd('odd', 1, None))), ('re.error', lambda: re.compile('(')),
    ('ParserError', lambda: parse_script('x +')), ('LookupError', lambda: b'x'.decode('nope')), ('TimeoutError', lambda: _raise(TimeoutError())),
    ('EOFError', lambda: _raise(EOFError())), ('bare Exception', lambda: _raise(Exception())), ('ArithmeticError', lambda: _raise(ArithmeticError('%s {x}')))
]


def _recurse():
    return _recurse()


def _raise(exc):
    raise exc


WAYS = {
    'direct': ("r = boom(1)\n", 'boom', None),
    'operand': ("r = 1 + boom(1)\n", 'boom', None),
    'argument': ("r = arrayNew(boom(), 2)\n", 'boom', [None, 2.0]),
    'function': ("function fn():\n    systemLog('in')\n    x = boom()\n    systemLog('still')\n    return arrayNew(x, 5)\nendfunction\nr = fn()\n", 'boom', [None, 5.0]),
    'indexOf': ("r = arrayIndexOf(arrayNew(1, 2), boom)\n", 'arrayIndexOf', None),
    'lastIndexOf': ("r = arrayLastIndexOf(arrayNew(1, 2), boom)\n", 'arrayLastIndexOf', None),
    'sort': ("a = arrayNew(2, 1)\nr = arraySort(a, boom)\n", 'arraySort', None),
    'partial': ("pp = systemPartial(boom, 1)\nr = pp(2)\n", 'pp', None),
    'if': ("r = if(boom(), 1, 2)\n", 'boom', 2.0),
    'and': ("r = boom() && 3\n", 'boom', None),
    'or': ("r = boom() || 3\n", 'boom', 3.0),
    'loop': ("r = 0\nfor x in arrayNew(1, 2, 3):\n    boom(x)\n    r = r + x\nendfor\n", 'boom', 6.0),
    'while': ("r = 0\nwhile boom() || r < 3:\n    r = r + 1\nendwhile\n", 'boom', 3.0),
    'global': ("r = systemGlobalSet('q', boom())\n", 'boom', None),
    'script callback': ("function cb(x):\n    boom()\n    return true\nendfunction\nr = arrayIndexOf(arrayNew(1), cb)\n", 'boom', 0),
    'local': ("function fn(gg):\n    return arrayNew(gg(1))\nendfunction\nr = fn(boom)\n", 'gg', [None]),
    'filter': ("r = dataFilter(arrayNew(objectNew('a', 1)), 'boom(a) == null')\n", 'boom', [{'a': 1.0}]),
    'calculated': ("r = dataCalculatedField(arrayNew(objectNew('a', 1)), 'b', 'boom(a)', objectNew('v', 1))\n", 'boom', [{'a': 1.0, 'b': None}]),
}


def host_items(tier):
    for w in WAYS:
        for i in range(len(RAISES)):
            yield w, i


def host_failure(c, item):
    way, i = item
    label, action = RAISES[i]
    text, reported, want = WAYS[way]
    calls = []

    def boom(_args, _options):
        calls.append(1)
        return action()

    full = text + "systemLog('after')\nreturn r\n"
    c.sample(f'# boom raises {label}\n{full}')
    model = parse_script(full)
    for debug in (True, False):
        log = []
        calls.clear()
        g = {'boom': boom}
        status, v = escape(c, f'a host function raising {label} ({way})', lambda: execute_script(model, {'globals': g, 'logFn': log.append, 'debug': debug}))
        if status != 'ok':
            c.fail(f'a host function raising {label} ended the script: {v}')
        if not calls:
            c.fail('the host function was not called')
        if not same(want, v):
            c.fail(f'result {show(v)}, expected {show(want)}')
        if 'after' not in log or (way == 'function' and log.count('still') != 1):
            c.fail(f'execution did not continue: {log}')
        reports = [t for t in log if f'"{reported}"' in t]
        if debug and len(reports) != (1 if way.endswith('Of') or way == 'sort' else len(calls)):
            c.fail(f'{len(calls)} failures, reports {log}')
        if not debug and [t for t in log if t not in ('after', 'in', 'still')]:
            c.fail(f'reported although debug is off: {log}')
    for options in ({'debug': True}, {}, {'debug': True, 'logFn': None}):
        g = {'boom': boom}
        status, v = escape(c, f'a host function raising {label} ({way}) with no logFn',
                           lambda: execute_script(parse_script(text + 'after = 1\nreturn r\n'), {'globals': g, **options}))
        if status != 'ok' or not same(want, v) or g.get('after') != 1:
            c.fail(f'with the options {options} and no logFn: {status} {show(v)}, after = {g.get("after")}; expected {show(want)}')
    c.nontrivial(repr(item))


# schemaValidate: a value of every built-in type

UUID = '47f833d3-4414-4c4a-ac02-ceb36898ff87'
BUILTIN = [('bool', 'true', True), ('bool', False, False), ('int', '5', 5.0), ('int', 7.0, 7.0), ('float', '0.5', 0.5), ('float', 3, 3.0), ('string', 'a', 'a'),
           ('date', '2024-02-29', datetime.date(2024, 2, 29)), ('datetime', datetime.datetime(2024, 2, 29), datetime.datetime(2024, 2, 29)), ('any', [1.0, {'a': None}], [1.0, {'a': None}]),
           ('object', {'a': 1.0}, {'a': 1.0}), ('uuid', UUID, UUID), ('uuid', UUID.upper(), UUID)]
PLACES = {'typedef': ("'typedef {0} T'", lambda v: v), 'array': ("'typedef {0}[] T'", lambda v: [v, v]), 'dict': ("'typedef {0}{{}} T'", lambda v: {'k': v}),
          'member': ("'struct T', '  {0} m'", lambda v: {'m': v})}


def schema_types(c, item):
    k, place = item
    kind, value, want = BUILTIN[k]
    types, put = PLACES[place]
    text = f"return schemaValidate(schemaParse({types.format(kind)}), 'T', value)"
    status, v = escape(c, text, lambda: execute_script(parse_script(text), {'globals': {'value': put(value)}}))
    c.sample(f'{text}, value {show(put(value))}')
    c.nontrivial(repr(item))
    if status == 'ok' and kind == 'uuid' and v == put(uuid.UUID(UUID)):
        c.known('schema-uuid')
    elif status != 'ok' or not same(put(want), v):
        c.fail(f'{text} with {show(put(value))}: {status} {v!r}, expected {show(put(want))}')


# systemFetch: one failing request says nothing about the others

INVALID = [None, 5.0, True, [], ['a'], {}, {'body': 'b'}, {'url': 5.0}, {'url': None}, {'url': 'a', 'other': 1.0}, {'url': 'a', 'body': 5.0}, {'url': 'a', 'headers': ['h']},
           {'url': 'a', 'headers': {'h': 1.0}}, datetime.date(2024, 1, 1), re.compile('a')]


def fetches(c):
    n = c.int(0, 6)
    answers = []     # of the requests, in order
    items = []
    bad = False
    for _ in range(n):
        k = c.draw(12)
        url = c.pick(['a', 'b.txt', '../c', 'd/e?f=1', 'http://h/x', '/abs', '', "it's", 'é'])
        request = {'url': url}
        if k == 0 and c.draw(2):
            bad = True
            items.append(c.pick(INVALID))
            continue
        if k <= 6:
            items.append(url)
        else:
            if c.draw(2):
                request['body'] = c.pick(['', 'text', '{"a": 1}', '\ud83d\ude00'])
            if c.draw(2):
                request['headers'] = c.pick([{}, {'h': 'v'}, {'Content-Type': 'application/json', 'b': ''}])
            items.append({k: v for k, v in reversed(request.items())} if c.draw(2) else dict(request))
        kind = c.draw(4)
        answers.append((request, ('raise', c.draw(len(RAISES))) if kind == 0 else ('text', None) if kind == 1 else ('text', c.pick(['', 'x', 'null', 'two\nlines']))))
    whole = n == 1 and c.draw(2)
    arg = items[0] if whole else items
    if whole and bad and isinstance(arg, list):
        return
    prefix = c.pick([None, None, '', 'base/'])
    debug, logged, fetching = bool(c.draw(2)), c.draw(4) != 0, c.weighted([(8, 'fn'), (1, 'none'), (1, 'null')])
    log, seen = [], []

    def fetch(request):
        seen.append({k: dict(v) if isinstance(v, dict) else v for k, v in request.items()})
        if len(seen) > len(answers):
            return 'too many'
        kind, detail = answers[len(seen) - 1][1]
        return RAISES[detail][1]() if kind == 'raise' else detail
    options = {'debug': debug}
    if logged:
        options['logFn'] = log.append
    if fetching != 'none':
        options['fetchFn'] = fetch if fetching == 'fn' else None
    if prefix is not None:
        options['urlFn'] = lambda u: prefix + u
    if c.draw(2):
        text = "r = systemFetch(arg)\nsystemLog('after')\nreturn r"
    else:
        text = "function get(a):\n    return systemFetch(a)\nendfunction\nr = get(arg)\nsystemLog('after')\nreturn r"
    what = f'systemFetch({show(arg)}), answers {[a for _, a in answers]}, urlFn prefix {prefix!r}, debug {debug}, fetchFn {fetching}'
    c.sample(what)
    if len({a[0] if a[0] == 'raise' else a[1] is None for _, a in answers}) > 1:
        c.nontrivial(what)
    options['globals'] = {'arg': [dict(x) if isinstance(x, dict) else x for x in arg] if isinstance(arg, list) else dict(arg) if isinstance(arg, dict) else arg}
    kept = show(arg)
    status, v = escape(c, what, lambda: execute_script(parse_script(text), options))
    if status != 'ok':
        c.fail(f'{what}\n  ended the run: {v}')
    want = [{**r, 'url': (prefix or '') + r['url']} for r, _ in answers]
    results = [a[1] if a[0] == 'text' and fetching == 'fn' else None for _, a in answers]
    if bad:
        expected = None
        c.tag('invalid request')
    else:
        expected = results[0] if whole else results
        if seen != (want if fetching == 'fn' else []):
            c.fail(f'{what}\n  fetched {seen}, expected {want}')
        reports = [m for m in log if 'failed' in m]
        due = [w['url'] for w, r in zip(want, results) if r is None] if debug and logged else []
        if len(reports) != len(due) or any(u not in m for u, m in zip(due, reports)):
            c.fail(f'{what}\n  reported {reports}, expected one line for each of {due}')
    if not same(expected, v):
        c.fail(f'{what}\n  gave {show(v)}, expected {show(expected)}')
    if bad and debug and logged and not any('"systemFetch"' in m for m in log):
        c.fail(f'{what}\n  did not report the failure: {log}')
    if logged and log[-1:] != ['after']:
        c.fail(f'{what}\n  did not continue: {log}')
    if show(options['globals']['arg']) != kept:
        c.fail(f'{what}\n  changed its argument to {show(options["globals"]["arg"])}')


def special_failures(c, item):
    """Documented exceptions of host functions: ValueArgsError carries a value, BareScriptRuntimeError ends the run."""
    way, kind = item
    text, _reported, _want = WAYS[way]
    full = text + "systemLog('after')\nreturn r\n"
    log = []
    if kind == 'runtime':
        def boom(_args, _options):
            raise BareScriptRuntimeError('stop here')
        g = {'boom': boom}
        status, v = escape(c, 'x', lambda: execute_script(parse_script(full), {'globals': g, 'logFn': log.append}))
        if status != 'runtime' or str(v) != 'stop here':
            c.fail(f'BareScriptRuntimeError of a host function gave {status} {show(v)}')
        if 'after' in log:
            c.fail('the run continued after a runtime error')
    else:
        value = [-1, 'failure', [1, 2], False][kind]

        def boom(_args, _options):
            raise ValueArgsError('x', math.nan, value)
        g = {'boom': boom}
        if way not in ('direct', 'argument', 'local', 'partial', 'global') or ValueArgsError is None:
            return
        status, v = escape(c, 'x', lambda: execute_script(parse_script(full), {'globals': g, 'logFn': log.append}))
        want = {'direct': value, 'argument': [value, 2.0], 'local': [value], 'partial': value, 'global': value}[way]
        if status != 'ok' or not same(want, v):
            c.fail(f'failure value {show(value)} gave {status} {show(v)}')
    c.sample(f'# boom raises {kind}\n{full}')
    c.nontrivial(repr(item))


# -- wild programs ----------------------------------------------------------------------------------

WILD_FUNCTIONS = [n for n in NAMES if n not in libargs.SIZED and n in libargs.SIGNATURES and n not in ('systemFetch', 'systemGlobalSet', 'datetimeNow', 'mathRandom')]
PURE = ['g0', 'g1', 'g2', 'g3', 'g4', 'g5']


class Wild:
    def __init__(self, c, expression=False):
        self.c = c
        self.expression = expression
        self.calls = 0

    def atom(self):
        c = self.c
        k = c.draw(10)
        if k <= 5:
            return E.var(c.pick(PURE))
        if k == 6:
            return E.num(c.pick([0, 1, 2, 0.5, 1e300, 10, 36]))
        if k == 7:
            return E.string(c.pick(libargs.WORDS))
        if k == 8:
            return E.var(c.pick(['null', 'true', 'false', 'nope', 'boom', 'fn0', 'systemType']))
        return E.var(c.pick(['r0', 'r1']) if c.draw(4) == 0 else 'g0')

    def expr(self, depth=2):
        c = self.c
        k = c.draw(10) if depth > 0 else 0
        if k <= 1:
            return self.atom()
        if k <= 4:
            op = c.pick(BINARY)
            left = self.expr(depth - 1)
            right = self.expr(depth - 1)
            if op in ('+', '*', '**') and c.draw(8):
                right = E.num(c.pick([0, 1, 2, 0.5, 1e300]))
            return E.binary(op, left, right)
        if k == 5:
            return E.unary(c.pick('!-'), self.expr(depth - 1))
        self.calls += 1
        if k == 6:
            return E.call(c.pick(['boom', 'fn0', 'fn1', 'g0', 'nope'] if c.draw(3) else ['boom', 'fn0']), *[self.expr(depth - 1) for _ in range(c.draw(4))])
        if self.expression and c.draw(2):
            name = c.pick(sorted(BUILTINS))
            if name in ('rept', 'fixed', 'round', 'now', 'rand'):
                name = 'text'
            sig = libargs.SIGNATURES[BUILTINS[name]]
        else:
            name = c.pick(WILD_FUNCTIONS)
            sig = libargs.SIGNATURES[name]
        n = len(libargs.parse(sig)) + c.draw(3) - 1
        return E.call(name, *[self.expr(depth - 1) for _ in range(max(0, n))])

    def block(self, depth, n):
        c = self.c
        out = []
        for _ in range(n):
            k = c.draw(9)
            if k <= 2 or depth <= 0:
                out.append(('expr', self.expr()))
            elif k <= 4:
                out.append(('assign', c.pick(['r0', 'r1', 'r2']), self.expr()))
            elif k == 5:
                out.append(('if', [(self.expr(1), self.block(depth - 1, 1 + c.draw(2)))], self.block(depth - 1, 1) if c.draw(2) else None))
            elif k == 6:
                out.append(('while', self.expr(1), self.block(depth - 1, 1 + c.draw(2))))
            elif k == 7:
                out.append(('for', 'vv', 'ki' if c.draw(2) else None, self.expr(1), self.block(depth - 1, 1 + c.draw(2))))
            else:
                out.append(('return', self.expr(1)) if c.draw(4) == 3 else ('expr', self.expr()))
        return out


def wild_globals(c):
    names, g = {}, {}
    for name in PURE:
        if c.draw(2):
            key = c.pick(list(EXOTIC))
            names[name], g[name] = key, copy_for(EXOTIC[key], {})
        else:
            v = V.value(c, 2)
            names[name], g[name] = brief(v), to_side(v, 'target')
    label, action = RAISES[c.draw(len(RAISES))]
    names['boom'] = 'raises ' + label
    g['boom'] = lambda _a, _o: action()
    return names, g


def wild_programs(c):
    w = Wild(c)
    stmts = []
    for f in range(c.draw(3)):
        stmts.append(('function', f'fn{f}', ['p0', 'p1'][:c.draw(3)], False, w.block(1, 1 + c.draw(3))))
    stmts += w.block(2, 2 + c.draw(6))
    text = P.text(stmts, c)
    names, g = wild_globals(c)
    c.sample(text + f'\n# {names}')
    model = parse_script(text)
    log = []
    debug = bool(c.draw(2))
    c.tag('wild')
    status, v = escape(c, 'the program', lambda: execute_script(model, {'globals': g, 'logFn': log.append, 'debug': debug, 'maxStatements': 60}))
    if status == 'parser':
        c.fail(f'BareScriptParserError without an include: {v}')
    if status == 'ok':
        check_value(c, 'the program', v)
    if status == 'runtime' and not re.search(r'Undefined function|Exceeded maximum|Unknown jump label|recursion', str(v)):
        c.fail(f'undocumented runtime error: {v}')
    for name, value in g.items():
        if not callable(value) and not is_value(value):
            c.fail(f'global {name} became {value!r}')
    if not all(isinstance(t, str) for t in log):
        c.fail('logFn received something that is not a string')
    c.tag('wild:' + status)
    if w.calls:
        c.nontrivial(text + str(names))


def wild_expressions(c):
    w = Wild(c, True)
    expr = E.normal(w.expr(1 + c.draw(4)))
    text = E.render(expr, c)
    names, g = wild_globals(c)
    c.sample(text + f'\n# {names}')
    log = []
    form = c.draw(4)
    model = parse_expression(text)
    options = [{'globals': g, 'logFn': log.append, 'debug': True}, {'globals': g}, {'globals': g}, None][form]
    locals_ = None if form < 2 else {k: g[k] for k in PURE[:3]}
    status, v = escape(c, 'the expression', lambda: evaluate_expression(model, options, locals_, bool(c.draw(8) != 7)))
    if status == 'parser':
        c.fail(f'BareScriptParserError from an evaluation: {v}')
    if status == 'ok':
        check_value(c, 'the expression', v)
    c.tag('wildexpr:' + status)
    if w.calls or status == 'ok':
        c.nontrivial(text + str(names))


# -- depth -----------------------------------------------------------------------------------------

DEEP_TEXTS = {
    'not': lambda n: '!' * n + 'a', 'minus': lambda n: '-' * n + 'a', 'paren': lambda n: '(' * n + 'a' + ')' * n, 'call': lambda n: 'ff(' * n + 'a' + ')' * n,
    'if': lambda n: 'if(1, ' * n + 'a' + ')' * n, 'plus': lambda n: '+'.join(['a'] * n), 'or': lambda n: ' || '.join(['zz'] * n),
    'max': lambda n: 'max(1, ' * n + 'a' + ')' * n, 'power': lambda n: '**'.join(['1'] * n), 'nest': lambda n: 'a+(' * n + 'a' + ')' * n,
    'compare': lambda n: '=='.join(['a'] * n), 'text': lambda n: '"x"+text(' * n + 'a' + ')' * n
}
DEPTHS = [1, 2, 10, 50, 100, 200, 300, 320, 325, 328, 329, 330, 331, 332, 333, 334, 400, 480, 490, 493, 494, 495, 496, 497, 498, 499, 500, 600, 900, 950, 980] + \
    list(range(985, 1003)) + [1500, 3000, 10000]


def deep_items(tier):
    for kind in DEEP_TEXTS:
        for n in DEPTHS:
            for a in ('one', 'list', 'deep', 'text'):
                yield kind, n, a


def deep(c, item):
    kind, n, operand = item
    value = {'one': 1, 'list': [[1], {}], 'deep': EXOTIC['deep'], 'text': 'x'}[operand]
    text = DEEP_TEXTS[kind](n)
    c.sample(f'{kind} nested {n} deep')
    g = {'a': value, 'ff': lambda a, _o: a[0]}
    status, model = escape(c, 'parse_expression', lambda: parse_expression(text))
    if status == 'ok':
        status, v = escape(c, 'evaluate_expression', lambda: evaluate_expression(model, {'globals': g}))
        if status == 'ok':
            check_value(c, 'expression', v)
        c.nontrivial(repr(item))
    status, model = escape(c, 'parse_script', lambda: parse_script(f'function fn():\n    return {text}\nendfunction\nreturn fn()'))
    if status == 'ok':
        status, v = escape(c, 'execute_script', lambda: execute_script(model, {'globals': dict(g, max=g['ff'], text=g['ff'])}))
        if status == 'ok':
            check_value(c, 'script', v)
    c.tag('deep:' + status)


RECURSION = {
    'self': 'function fn(x):\n    return fn(x) + 1\nendfunction\nreturn fn(1)',
    'mutual': 'function f1(x):\n    return f2(x)\nendfunction\nfunction f2(x):\n    return f1(x)\nendfunction\nreturn f1(1)',
    'callback': 'function fn(x):\n    return arrayIndexOf(arrayNew(1), fn)\nendfunction\nreturn fn(1)',
    'sort': 'function fn(x, y):\n    return arraySort(arrayNew(2, 1), fn)\nendfunction\nreturn fn(1)',
    'partial': 'function fn(x):\n    pp = systemPartial(fn, 1)\n    return pp(2)\nendfunction\nreturn fn(1)',
    'data': "function fn(x):\n    return dataFilter(arrayNew(objectNew('a', 1)), 'fn(a)')\nendfunction\nreturn fn(1)",
    'datavars': "function fn(x):\n    return dataFilter(arrayNew(objectNew('a', 1)), 'fn(a)', objectNew('q', 1))\nendfunction\nreturn fn(1)",
    'argument': 'function fn(x):\n    return arrayNew(arrayNew(arrayNew(fn(x))))\nendfunction\nreturn fn(1)',
    'condition': 'function fn(x):\n    if fn(x):\n        return 1\n    endif\nendfunction\nreturn fn(1)',
    'expr': 'function fn(x):\n    return ((((1 + (2 * (3 - fn(x)))))))\nendfunction\nreturn fn(1)',
}


def recursion(c, item):
    """Unbounded recursion ends with a runtime error (or a contained value), with or without a statement limit."""
    kind, limit, pad = item
    text = RECURSION[kind]
    c.sample(text)
    model = parse_script(text)

    def padded(n):
        if n:
            return padded(n - 1)
        return execute_script(model, {'globals': {}, 'maxStatements': limit})

    status, v = escape(c, f'recursion {kind}', lambda: padded(pad))
    if status == 'parser':
        c.fail(f'parser error from execution: {v}')
    if status == 'ok':
        check_value(c, kind, v)
    c.tag('recursion:' + status)
    c.nontrivial(repr(item))


def recursion_items(tier):
    for kind in RECURSION:
        for limit in (20, 5000):
            for pad in (0, 1, 2, 3, 5, 7, 11, 50, 200):
                if kind == 'datavars' and limit > 20 and pad:
                    continue
                yield kind, limit, pad


def sections(tier):
    return [
        Enum('operators', lambda tier: range(len(pool())), operators),
        Enum('arity', arity_items, arity),
        Enum('host failures', host_items, host_failure),
        Enum('documented host exceptions', lambda tier: [(w, k) for w in WAYS for k in ('runtime', 0, 1, 2, 3)], special_failures),
        Enum('deep expressions', deep_items, deep),
        Enum('recursion', recursion_items, recursion),
        Enum('schema types', lambda tier: [(k, place) for k in range(len(BUILTIN)) for place in PLACES], schema_types),
        Gen('fetches', fetches, 6000),
        Gen('library functions', library, 120000),
        Gen('wild programs', wild_programs, 60000),
        Gen('wild expressions', wild_expressions, 60000),
    ]
