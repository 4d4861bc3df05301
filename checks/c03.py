"""C03: expression evaluation follows the typed operator semantics."""

import copy
import datetime
import math

from bare_script import BareScriptRuntimeError, evaluate_expression, execute_script, parse_expression, parse_script

from core import Enum, Gen
from gen import expr as E
from gen import libargs
from gen import values as V
from gen.program import ProgramGen
from gen.program import text as program_text
from harness import LIBRARY, HostFn, debug_options, log_diff, to_side
from ref.interp import BUILTINS, Env, RefRuntimeError, arith
from ref.values import clone, same, show, truthy, vtype

RULE = ('Operators over every ordered pair of an 80-value pool of all nine types against a typed reference; random expression '
        'trees to depth 6 whose leaves and calls log their evaluation, in script mode and expression mode, against a reference '
        'evaluator (value, log order, error); every expression built-in against the library function it aliases. '
        'Large expressions (long chains, many arguments, deep groups) log every operand and are computed by hand. '
        'Non-trivial: '
        'an operand pair of different values, a tree with at least two operators and one logged call, or an alias call whose '
        'arguments are not all missing; distinct by text and operands.')
ASSUMPTIONS = ['NaN and infinite operands and results are not compared; a power that overflows may be null or infinite.',
               'The time zone is UTC here (other zones are C16).']

BINARY = ['+', '-', '*', '/', '%', '**', '==', '!=', '<', '<=', '>', '>=', '&&', '||']
PARSED = {op: parse_expression(f'a {op} b') for op in BINARY}
PARSED_UNARY = {op: parse_expression(op + 'a') for op in ('!', '-')}


def finite(v):
    return not (isinstance(v, float) and not math.isfinite(v))


def big_int(v):
    return isinstance(v, int) and abs(v) >= 10 ** 15


def evaluate(c, model, globals_, locals_=None, builtins=True, log=None):
    options = {'globals': globals_}
    if log is not None:
        options.update(debug_options(show(globals_), log.append))
    try:
        return 'ok', evaluate_expression(model, options, locals_, builtins)
    except BareScriptRuntimeError as exc:
        return 'runtime', str(exc)
    except Exception as exc:  # pylint: disable=broad-exception-caught
        c.fail(f'{type(exc).__name__} escaped: {exc}')


def matrix_items(tier):
    p = V.pool()
    for i in range(len(p)):
        yield i


def matrix(c, i):
    p = V.pool()
    a = p[i]
    c.weight = 0
    c.sample(f'{show(a)} with every operator and every pool value')
    for j, b in enumerate(p):
        for op in BINARY:
            c.weight += 1
            env = Env({})
            memo_r, memo_t = {}, {}
            ra, rb = to_side(a, 'ref', memo_r), to_side(b, 'ref', memo_r)
            ta, tb = to_side(a, 'target', memo_t), to_side(b, 'target', memo_t)
            if op == '&&':
                want = rb if truthy(ra) else ra
            elif op == '||':
                want = ra if truthy(ra) else rb
            else:
                want = arith(op, ra, rb, env)
            _, got = evaluate(c, PARSED[op], {'a': ta, 'b': tb})
            if env.fuzzy or not finite(want) or (op in ('/', '%') and (big_int(a) or big_int(b))):
                continue
            if op == '**' and want is not None and want != 0:
                ok = vtype(got) == 'number' and math.isclose(got, want, rel_tol=1e-13)
            elif op == '/' and want is not None:
                ok = vtype(got) == 'number' and same(want, got, True)
            else:
                ok = same(want, got, True)
            if not ok:
                c.fail(f'{show(a)} {op} {show(b)} gave {show(got)}, expected {show(want)}')
            if op in ('&&', '||') and isinstance(want, (list, dict)) and got is not (tb if (op == '&&') == truthy(ra) else ta):
                c.fail(f'{show(a)} {op} {show(b)} is not one of its operands but a copy')
            if i != j:
                c.nontrivial(f'{op}{i},{j}')
    for op in ('!', '-'):
        c.weight += 1
        ra, ta = to_side(a, 'ref'), to_side(a, 'target')
        want = (not truthy(ra)) if op == '!' else (-ra if vtype(ra) == 'number' and ra != 0 else -float(ra) if vtype(ra) == 'number' else None)
        _, got = evaluate(c, PARSED_UNARY[op], {'a': ta})
        if not same(want, got, True):
            c.fail(f'{op}{show(a)} gave {show(got)}, expected {show(want)}')
    for text, want in (('if(a, 1, 2)', 1 if truthy(to_side(a, 'ref')) else 2), ('if(a, 1)', 1 if truthy(to_side(a, 'ref')) else None), ('if(a)', None),
                       ('if()', None), ('if(a, null, 3)', None if truthy(to_side(a, 'ref')) else 3), ('(a)', to_side(a, 'ref'))):
        for builtins in (True, False):
            c.weight += 1
            _, got = evaluate(c, parse_expression(text), {'a': to_side(a, 'target')}, None, builtins)
            if not same(want, got):
                c.fail(f'{text} with a = {show(a)} gave {show(got)}, expected {show(want)}')
    c.tag('type:' + (vtype(to_side(a, 'ref')) or '?'))


# -- random trees with logged effects -------------------------------------------------------

def _tell(args, log):
    log('tell ' + (args[0] if args and isinstance(args[0], str) else '?'))
    return args[1] if len(args) > 1 else None


def _fail(args, log):
    log('fail')
    raise ValueError('host failure')


def _count(args, log):
    log(f'count {len(args)}')
    return len(args)


TELL, FAIL, COUNT = HostFn('tell', _tell), HostFn('boom', _fail), HostFn('count', _count)
LIBS = ['arrayNew', 'objectNew', 'mathMax', 'mathMin', 'stringNew', 'systemCompare', 'arrayLength', 'stringLength', 'systemType', 'arrayGet', 'objectGet',
        'systemBoolean', 'stringUpper', 'mathAbs']
ALIASES = ['abs', 'max', 'min', 'len', 'text', 'upper', 'floor', 'sign', 'indexOf', 'slice', 'rept', 'ceil', 'lower', 'trim']
ARITY = {'objectNew': 2, 'systemCompare': 2, 'arrayGet': 2, 'objectGet': 2, 'indexOf': 2, 'slice': 2, 'rept': 2}


class Tree:
    def __init__(self, c, names, mode):
        self.c, self.names, self.mode = c, names, mode
        self.calls = 0
        self.n = 0
        self.made = []

    def leaf(self):
        c = self.c
        k = c.draw(8)
        if k <= 2:
            return E.var(c.pick(self.names))
        if k <= 4:
            return E.num(c.pick([0, 1, 2, 3, 10, 0.5, 1000, 1e16]))
        if k == 5:
            k = c.draw(4)
            if k == 0:      # another value each time
                return E.call('arrayShift', E.var('B'))
            if k == 1:      # another value for those who read the variable later
                return E.call('systemGlobalSet', E.string(c.pick(self.names)), self.leaf())
            return E.string(c.pick(['', 'a', 'b', '1', "it's"]))
        return E.var(c.pick(['null', 'true', 'false', 'missing']))

    def tree(self, depth):
        """A tree, or one that stands elsewhere already."""
        if self.made and self.n < 60 and self.c.draw(10) == 9:
            tree = self.c.pick(self.made)
            self.n += E.size(tree)
            return copy.deepcopy(tree)
        tree = self.new_tree(depth)
        if E.size(tree) > 1:
            self.made.append(tree)
        return tree

    def new_tree(self, depth):
        c = self.c
        self.n += 1
        k = c.draw(20)
        if depth <= 0 or self.n > 60 or k <= 1:
            return self.leaf()
        if k <= 9:
            op, left = c.pick(BINARY), self.tree(depth - 1)
            return E.binary(op, left, copy.deepcopy(left) if c.draw(10) == 9 else self.tree(depth - 1))
        if k == 10:
            return E.unary(c.pick(['!', '-']), self.tree(depth - 1))
        if k == 11:
            return E.group(self.tree(depth - 1))
        if k <= 13:
            return E.call('if', *[self.tree(depth - 1) for _ in range(3 if c.draw(4) else c.draw(5))])
        if k <= 17:
            self.calls += 1
            return E.call('tell', E.string(f't{self.calls}'), self.tree(depth - 1))
        if k == 18:
            if c.draw(3):
                name = c.pick(LIBS)
                n = ARITY.get(name, 1)
                return E.call(name, *[self.tree(depth - 1) for _ in range(n if c.draw(3) else c.draw(3))])
            name = c.pick(['boom', 'count', 'notfn', 'undef'])
            self.calls += 1
            return E.call(name, *[self.tree(depth - 1) for _ in range(c.draw(3))])
        name = c.pick(ALIASES if self.mode == 'expr' or c.draw(6) == 5 else LIBS)
        n = ARITY.get(name, 1)
        return E.call(name, *[self.tree(depth - 1) for _ in range(n if c.draw(3) else c.draw(3))])


NAMES = ['x', 'yy', 'z1', 'w', 'shared']


def trees(c):
    mode = c.pick(['expr', 'script', 'locals'])
    globals_ = {'tell': TELL, 'boom': FAIL, 'count': COUNT, 'notfn': 'text'}
    for name in NAMES:
        if c.draw(6):
            globals_[name] = V.value(c, 2) if c.draw(2) else c.pick(V.SHORT)
    globals_['B'] = c.pick([[], [1.0, 'a', None, 2.0, 0.0, True], [0.0, 1.0], ['', 'x', 'y']])
    locals_ = {name: c.pick(V.SHORT) for name in NAMES[:3] if c.draw(2)} if mode == 'locals' else None
    t = Tree(c, NAMES, mode)
    expr = E.normal(t.tree(2 + c.draw(5)))
    text = E.render(expr, c)
    c.sample(f'[{mode}] {text}\n# {show(globals_)}\n# locals {show(locals_)}')
    for f in E.ops_in(expr):
        c.feature(f)
    builtins = mode == 'expr'
    # Reference
    memo = {}
    env = Env(to_side(globals_, 'ref', memo))
    rl = to_side(locals_, 'ref', memo) if locals_ is not None else None
    try:
        want = ('ok', env.eval(expr, rl, builtins))
    except RefRuntimeError as exc:
        want = ('runtime', str(exc))
    # Target
    try:
        model = parse_expression(text)
    except Exception as exc:  # pylint: disable=broad-exception-caught
        c.fail(f'well-formed expression rejected: {type(exc).__name__}: {exc}')
    memo = {}
    tg = to_side(globals_, 'target', memo)
    tl = to_side(locals_, 'target', memo) if locals_ is not None else None
    log = []
    if mode == 'script':
        try:
            got = ('ok', execute_script({'statements': [{'return': {'expr': model}}]}, {'globals': tg, **debug_options(text, log.append)}))
        except BareScriptRuntimeError as exc:
            got = ('runtime', str(exc))
        except Exception as exc:  # pylint: disable=broad-exception-caught
            c.fail(f'{type(exc).__name__} escaped: {exc}')
    else:
        execute_script({'statements': []}, {'globals': tg})
        got = evaluate(c, model, tg, tl, builtins, log)
    if env.log != log:
        c.fail('evaluation order differs' + log_diff(env.log, log))
    if want[0] != got[0]:
        c.fail(f'{got}, expected {want}')
    if want[0] == 'ok':
        if not env.fuzzy and finite(want[1]) and not close(want[1], got[1]):
            c.fail(f'value {show(got[1])}, expected {show(want[1])}')
    elif '"undef"' in want[1] and '"undef"' not in got[1]:
        c.fail(f'error {got[1]!r}, expected {want[1]!r}')
    c.tag('mode:' + mode)
    c.tag('result:' + (want[0] if want[0] != 'ok' else vtype(want[1])))
    if E.size(expr) >= 4 and env.log:
        c.nontrivial(text + show(globals_) + show(locals_) + mode)


def close(a, b):
    if vtype(a) == 'number' and vtype(b) == 'number':
        return a == b or math.isclose(a, b, rel_tol=1e-12)
    return same(a, b)


# -- expression built-ins ---------------------------------------------------------------------

ALIAS_NAMES = sorted(BUILTINS)
NONDETERMINISTIC = {'now', 'rand'}


def alias_call(c, name, args):
    lib = BUILTINS[name]
    if lib not in LIBRARY:
        c.fail(f'library function {lib} is missing')
    names = [f'p{i}' for i in range(len(args))]
    model = parse_expression(f'{name}({", ".join(names)})')
    memo = {}
    ta = [to_side(a, 'target', memo) for a in args]
    la, lb = [], []
    ga = dict(zip(names, ta))
    opts = {'globals': ga, 'logFn': la.append, 'debug': True}
    try:
        got = ('ok', evaluate_expression(model, opts))
    except BareScriptRuntimeError as exc:
        got = ('runtime', str(exc))
    memo = {}
    tb = [to_side(a, 'target', memo) for a in args]
    gb = dict(zip(names, tb))
    opts = {'globals': gb, 'logFn': lb.append, 'debug': True}
    direct = parse_expression(f'{lib}({", ".join(names)})')
    try:
        want = ('ok', execute_script({'statements': [{'return': {'expr': direct}}]}, opts))
    except BareScriptRuntimeError as exc:
        want = ('runtime', str(exc))
    shown = f'{name}({", ".join(show(a) for a in args)})'
    if name in NONDETERMINISTIC and want[0] == 'ok' and want[1] is not None:
        v = got[1]
        if name == 'rand':
            ok = vtype(v) == 'number' and 0 <= v <= 1
        else:
            ok = vtype(v) == 'datetime' and abs(v - want[1]) < datetime.timedelta(minutes=1)
        if not ok:
            c.fail(f'{shown} gave {got}')
        return shown, want
    if want[0] != got[0] or (want[0] == 'ok' and not same(want[1], got[1], num_exact=True)):
        c.fail(f'{shown} gave {show(got[1])}, {lib} gives {show(want[1])}')
    if [t.replace(f'"{lib}"', f'"{name}"') for t in lb] != la:
        c.fail(f'{shown} logs {la}, {lib} logs {lb}')
    if not all(same(x, y) for x, y in zip(ta, tb)):
        c.fail(f'{shown} leaves its arguments {show(ta)}, {lib} leaves {show(tb)}')
    return shown, want


def aliases(c):
    name = c.pick(ALIAS_NAMES)
    args = libargs.arguments(c, BUILTINS[name])
    shown, want = alias_call(c, name, args)
    c.sample(shown)
    c.tag('alias:' + name)
    c.tag('alias:null' if want[1] is None else 'alias:value')
    if args:
        c.nontrivial(shown)


def no_aliases_in_scripts(c, name):
    """Built-ins exist in expression mode only."""
    model = parse_expression(f'{name}(1)')
    c.sample(f'{name}(1) in script mode is undefined')
    try:
        got = execute_script({'statements': [{'return': {'expr': model}}]}, {'globals': {}})
    except BareScriptRuntimeError as exc:
        if name not in str(exc):
            c.fail(f'error does not name the function: {exc}')
        c.nontrivial(name)
        return
    c.fail(f'{name}(1) in a script gave {show(got)}, expected an undefined function error')


def earlier_run(c):
    """Expressions that call the script functions of an earlier run, with fresh options and with the same ones."""
    gen = ProgramGen(c, max_depth=2, budget=12, max_functions=0, globals_=('g0', 'g1'))
    stmts = [gen.function() for _ in range(1 + c.draw(3))]
    calls = [gen.call(['g0', 'g1', 'x'], 2) for _ in range(1 + c.draw(3))]
    expr = calls[0]
    for other in calls[1:]:
        expr = E.binary(c.pick(['+', '||', '&&', '==', '<']), expr, other)
    expr = E.normal(expr)
    source, text = program_text(stmts, c), E.render(expr, c)
    globals_ = {'g0': c.pick([1.0, 's', None]), 'g1': [1.0, 2.0], 'B': [bool(c.draw(2)) for _ in range(c.draw(20))]}
    locals_ = {'x': c.pick(V.SHORT[:12])} if c.draw(2) else None
    c.sample(source + '\n# then ' + text)
    env = Env(to_side(globals_, 'ref'))
    env.program(stmts)
    wants = []
    for _ in range(2):
        try:
            wants.append(('ok', clone(env.eval(expr, locals_, True))))
        except RefRuntimeError as exc:
            wants.append(('runtime', str(exc)))
    if env.fuzzy:
        c.tag('fuzzy')
        return
    log = []
    first = {'globals': to_side(globals_, 'target'), 'logFn': log.append}
    execute_script(parse_script(source), first)
    model = parse_expression(text)
    options = first if c.draw(3) == 2 else {'globals': first['globals'], 'logFn': log.append}
    for want in wants:
        try:
            got = ('ok', evaluate_expression(model, options, dict(locals_) if locals_ is not None else None))
        except BareScriptRuntimeError as exc:
            got = ('runtime', str(exc))
        if want[0] != got[0] or (want[0] == 'ok' and not close(want[1], got[1])):
            c.fail(f'{got}, expected {want}')
    if env.log != log:
        c.fail('evaluation order differs' + log_diff(env.log, log))
    c.nontrivial(source + text + show(globals_))


# -- large expressions --------------------------------------------------------------------------

def large_items(tier):
    for n in (20, 31, 33, 63, 64, 65, 99, 100, 101, 127, 129, 150, 200, 255, 256, 257, 300, 500, 513, 1000, 1025, 3000) + ((10001,) if tier == 'thorough' else ()):
        for shape in ('arguments', 'alias arguments', 'sum', 'concatenation', 'difference', 'and', 'or', 'if', 'else', 'groups', 'signs', 'length', 'dates', 'unequal', 'mixed'):
            if n <= {'arguments': 10 ** 9, 'alias arguments': 10 ** 9, 'length': 10 ** 9, 'if': 120, 'else': 120, 'groups': 120, 'mixed': 150}.get(shape, 200):
                for how in ('script', 'expression', 'no built-ins'):
                    yield n, shape, how


def large_check(c, item):
    """Hundreds of operands or arguments, each logged as it is evaluated."""
    n, shape, how = item
    tells = lambda k, v: f"tell('{k}', {v})"  # noqa: E731
    every = list(range(n))
    order, want = every, None
    if shape in ('arguments', 'alias arguments'):
        name = 'max' if shape != 'arguments' and how == 'expression' else 'mathMax'
        if shape == 'arguments':
            text = 'arrayNew(' + ', '.join(tells(i, i) for i in every) + ')'
            want = every
        else:
            text = f'{name}(' + ', '.join(tells(i, i * 7919 % n) for i in every) + ')'
            want = n - 1
    elif shape == 'sum':
        text, want = ' + '.join(tells(i, i) for i in every), n * (n - 1) // 2
    elif shape == 'concatenation':
        text, want = "'' + " + ' + '.join(tells(i, i) for i in every), ''.join(map(str, every))
    elif shape == 'difference':
        text, want = ' - '.join(tells(i, 2) for i in every), 2 - 2 * (n - 1)
    elif shape in ('and', 'or'):
        stop = [n, n // 2, n - 1, n - 2][len(how) % 4]
        op, go, end = ('&&', "'x'", '0') if shape == 'and' else ('||', 'null', '5')
        text = f' {op} '.join(tells(i, go if i != stop else end) for i in every)
        order = every[:stop + 1]
        want = {'and': 'x', 'or': None}[shape] if stop == n else {'and': 0, 'or': 5}[shape]
    elif shape in ('if', 'else'):
        text = "'end'"
        for i in reversed(every):
            text = f"if({tells(i, 'true' if shape == 'if' else 'false')}, " + (f'{text}, {tells("no", 1)})' if shape == 'if' else f'{tells("no", 1)}, {text})')
        want = 'end'
    elif shape == 'groups':
        text = '(' * n + '0' + ''.join(f' + {tells(i, 1)})' for i in every)
        want = n
    elif shape == 'signs':
        text, order = ('!' if n % 3 else '-') * n + tells(0, 5), [0]
        want = (n % 2 == 0) if n % 3 else (5 if n % 2 == 0 else -5)
    elif shape == 'length':
        name = 'len' if how == 'expression' else 'stringLength'
        text, want, order = f"{name}('{'ab' * n}' + s)", 2 * n + 3, []
    elif shape == 'dates':
        text = 'd' + ''.join(f' + {tells(i, 1)}' for i in every) + ' - d'
        want = n
    elif shape == 'unequal':
        # true, then false for ever: comparisons associate to the left
        text = '1' + ''.join(f' == {tells(i, 1)}' for i in every)
        want = n == 1
    else:
        ops = ['+', '*', '-', '%', '+', '-']
        text, py = '1', '1'
        for i in every:
            op, v = ops[i * 5 % 6], 1 + i * 3 % 7
            text += f' {op} {tells(i, v)}'
            # a first operand of % is positive here
            py += f' {op} {v}'
        want = eval(py)  # pylint: disable=eval-used
    log = []
    tell = lambda args, options: log.append(args[0]) or args[1]  # noqa: E731
    globals_ = {'tell': tell, 's': 'xyz', 'd': datetime.datetime(2024, 2, 29)}
    options = {'globals': globals_, **debug_options(str(item), lambda t: None)}
    what = f'{item}: {text[:200]}'
    c.sample(what)
    c.nontrivial(item)
    try:
        if how == 'script':
            got = execute_script(parse_script('return ' + text), options)
        else:
            execute_script({'statements': []}, options)
            got = evaluate_expression(parse_expression(text), options, None, how == 'expression')
    except Exception as exc:  # pylint: disable=broad-exception-caught
        c.fail(f'{what}: {type(exc).__name__} {str(exc)[:300]}')
    if log != [str(i) for i in order]:
        c.fail(f'{what}: evaluated {len(log)} operands {log[:5]}..{log[-5:]}, expected {len(order)} {order[:5]}..{order[-5:]}')
    if not same(want, got):
        c.fail(f'{what}: gave {show(got)}, expected {show(want)}')


def sections(tier):
    return [
        Gen('functions of an earlier run', earlier_run, 8000),
        Enum('large expressions', large_items, large_check, complete=False),
        Enum('operator matrix', matrix_items, matrix),
        Gen('effect trees', trees, 60000),
        Gen('built-in aliases', aliases, 60000),
        Enum('built-ins in scripts', lambda tier: ALIAS_NAMES, no_aliases_in_scripts),
    ]
