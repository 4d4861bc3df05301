"""Running a program on the target and on the reference, and comparing what can be observed."""

import datetime
import re
import sys
import zlib

from bare_script import BareScriptParserError, BareScriptRuntimeError, evaluate_expression, execute_script, parse_script

from core import Violation
from ref.interp import Env, Fuel, RefRuntimeError
from ref.lib import Fail
from ref.values import RefFunction, clone, is_value, same, show


def library_functions():
    options = {'globals': {}}
    execute_script({'statements': []}, options)
    return dict(options['globals'])


LIBRARY = library_functions()


_CALLS = {}


def _drop(_line):
    pass


def call(name, args, options=None):
    """One library call as a script makes it (failures give the documented failure value)."""
    key = (name, len(args))
    expr = _CALLS.get(key)
    if expr is None:
        expr = _CALLS[key] = {'function': {'name': name, 'args': [{'variable': f'arg{i}'} for i in range(len(args))]}}
    if options is None:
        options = {'globals': dict(LIBRARY)}
        if sum(len(a) for a in args if isinstance(a, (str, list, dict))) & 3 == 3:
            # debug mode makes no difference to the value
            options.update(debug=True, logFn=_drop)
    return evaluate_expression(expr, options, {f'arg{i}': v for i, v in enumerate(args)}, False)


class HostFn:
    """A host function value: the same behaviour on both sides."""

    def __init__(self, name, fn):
        # fn(args, log) -> value; may raise
        self.name = name
        self.fn = fn

    def __repr__(self):
        return f'<host {self.name}>'

    def target(self):
        def host(args, options):
            log = options.get('logFn') if options is not None else None
            return self.fn(list(args), log if log is not None else (lambda _t: None))
        return host

    def ref(self):
        def call(args, env):
            try:
                return self.fn(list(args), env.log.append)
            except Exception:  # pylint: disable=broad-exception-caught
                raise Fail() from None
        return RefFunction(self.name, call)


def to_side(value, side, memo=None):
    """Clone a value for one side (aliasing kept), turning HostFn into that side's function."""
    memo = {} if memo is None else memo
    if isinstance(value, HostFn):
        if id(value) not in memo:
            memo[id(value)] = value.target() if side == 'target' else value.ref()
        return memo[id(value)]
    if isinstance(value, list):
        if id(value) in memo:
            return memo[id(value)]
        out = memo[id(value)] = []
        out.extend(to_side(v, side, memo) for v in value)
        return out
    if isinstance(value, dict):
        if id(value) in memo:
            return memo[id(value)]
        out = memo[id(value)] = {}
        for k, v in value.items():
            out[k] = to_side(v, side, memo)
        return out
    return value


class Run:
    """What one run shows: how it ended, its value, its log, its globals, its statement count."""
    __slots__ = ('kind', 'value', 'log', 'globals', 'count', 'message', 'nested')

    def __init__(self):
        self.value = self.message = self.nested = None

    def __repr__(self):
        return f'{self.kind} value={show(self.value)} log={self.log[:40]} message={self.message} count={self.count}'


def ambient(key):
    """Options that must not change what a run does (apart from debug log lines), chosen by a hash of the key."""
    h = zlib.crc32(key.encode('utf-8', 'surrogatepass'))
    options = {'debug': h & 3 == 3}
    if h & 12 == 12:
        options['fetchFn'] = lambda _request: None
    if h & 48 == 48:
        options['systemPrefix'] = 'https://example.com/system/'
    if h & 192 == 192:
        options['urlFn'] = lambda url: url
    if h & 768 == 768:
        # The count that an earlier run left in the options
        options['statementCount'] = 10 ** 9
    if h & 3072 == 3072:
        # The log function runs scripts of its own
        options['nested'] = True
    return options


NESTED = '''function ff(a, b):
    a = a - b
    if a > 0:
        jump ll
    endif
    systemLog('f')
    ll:
    return a
endfunction
include 'nested.bare'
x = 0
for v, i in arraySort(arrayNew(3, 1, 2), ff):
    if v == 2:
        continue
    endif
    x = x + v * 10 ** i
endfor
while true:
    x = x + 1
    if x > 305:
        break
    endif
endwhile
ll:
return arrayNew(x, y, arrayLength(dataFilter(arrayNew(objectNew('a', 1), objectNew('a', 2)), 'a > 1 && max(a, 0)')), ff(1, 2), mathMax(arrayLength(0), 'a'))
'''
NESTED_RESULT = [306, 'yes', 1, -1, 'a']


def nested_run():
    """A whole script from text to result, in the middle of another one; gives its result."""
    files = {'dir/nested.bare': "y = 'yes'\nreturn 1\ny = 'no'"}
    options = {'globals': {}, 'maxStatements': 200, 'fetchFn': lambda request: files.get(request['url']), 'urlFn': lambda url: 'dir/' + url,
               'logFn': _drop, 'debug': True}
    return execute_script(parse_script(NESTED), options)


def deep():
    """Too little of the stack is left for another run."""
    frame, depth = sys._getframe(), 0
    while frame is not None and depth < 250:
        frame, depth = frame.f_back, depth + 1
    return frame is not None


def nesting(log, run):
    count = [0]

    def log_fn(line):
        log(line)
        count[0] += 1
        if count[0] in (1, 2, 3, 10, 50) and not deep():
            result = nested_run()
            if result != NESTED_RESULT:
                run.nested = result
    return log_fn


def debug_options(key, log):
    """logFn and debug: debug mode in a quarter of the runs, its own lines dropped."""
    if zlib.crc32(key.encode('utf-8', 'surrogatepass')) & 3 != 3:
        return {'logFn': log}
    return {'debug': True, 'logFn': lambda line: None if line.startswith('BareScript: ') else log(line)}


def run_target(model, globals_=None, max_statements=None, debug=False, nested=False, **options):
    """Execute a model on the target.  Any exception other than the documented two is raised."""
    run = Run()
    run.log = []
    run.message = None
    run.value = run.nested = None
    opts = {'globals': globals_ if globals_ is not None else {}, 'logFn': run.log.append, 'debug': debug, **options}
    if max_statements is not None:
        opts['maxStatements'] = max_statements
    if nested:
        opts['logFn'] = nesting(opts['logFn'], run)
    try:
        run.value = execute_script(model, opts)
        run.kind = 'ok'
    except BareScriptRuntimeError as exc:
        run.kind = 'runtime'
        run.message = str(exc)
    except BareScriptParserError as exc:
        run.kind = 'parser'
        run.message = str(exc)
    if debug:
        run.log = [ln for ln in run.log if not ln.startswith('BareScript: ')]
    run.globals = opts['globals']
    run.count = opts.get('statementCount')
    return run


def run_ref(program, globals_=None, level='structured', limit=0, fuel=20000, debug=False, setup=None):
    """Run on the reference; Fuel propagates."""
    env = Env(globals_ if globals_ is not None else {}, fuel=fuel, debug=debug)
    env.limit = limit
    if setup is not None:
        setup(env)
    run = Run()
    run.message = None
    run.value = None
    try:
        run.value = env.program(program) if level == 'structured' else env.model(program)
        run.kind = 'ok'
    except RefRuntimeError as exc:
        run.kind = 'runtime'
        run.message = str(exc)
    run.log = env.log
    run.globals = env.globals
    run.count = env.count
    return run, env


def user_globals(globals_, target):
    """The globals that the script or the host set: no library functions, no lowering temporaries."""
    out = {}
    for k, v in globals_.items():
        if k.startswith('__bareScript'):
            continue
        if target:
            if k in LIBRARY and v is LIBRARY[k]:
                continue
        elif isinstance(v, RefFunction) and v.name == k and _is_lib(k, v):
            continue
        out[k] = v
    return out


def _is_lib(name, value):
    from ref.lib import FUNCTIONS
    return FUNCTIONS.get(name) is value


_R_UNDEF = re.compile(r'"([^"]*)"')


def differences(ref, got, check_globals=True, ignore=()):
    """A message describing the first observable difference, or None."""
    if got.nested is not None:
        return f'a script that the log function ran gave {show(got.nested)}, expected {show(NESTED_RESULT)}'
    if ref.kind != got.kind:
        return f'ended {got.kind} ({got.message}, value {show(got.value)}), expected {ref.kind} ({ref.message}, value {show(ref.value)})' \
               + log_diff(ref.log, got.log)
    if ref.kind == 'runtime':
        want = _R_UNDEF.findall(ref.message)
        if want and want != _R_UNDEF.findall(got.message or ''):
            return f'error {got.message!r}, expected {ref.message!r}'
    if ref.log != got.log:
        return 'log differs' + log_diff(ref.log, got.log)
    if ref.kind == 'ok' and not same(ref.value, got.value):
        return f'returned {show(got.value)}, expected {show(ref.value)}'
    if check_globals:
        a, b = user_globals(ref.globals, False), user_globals(got.globals, True)
        for name in sorted(set(a) | set(b)):
            if name in ignore:
                continue
            if name not in a:
                return f'global {name} = {show(b[name])} should not exist'
            if name not in b:
                return f'global {name} missing, expected {show(a[name])}'
            if not same(a[name], b[name]):
                return f'global {name} = {show(b[name])}, expected {show(a[name])}'
    return None


def log_diff(want, got):
    if want == got:
        return ''
    i = 0
    while i < min(len(want), len(got)) and want[i] == got[i]:
        i += 1
    return f'; log[{i}:] = {got[i:i + 6]!r}, expected {want[i:i + 6]!r}'
