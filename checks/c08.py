"""C08: jump-level models execute by the documented statement semantics."""

import copy
import itertools

from bare_script import BareScriptRuntimeError, execute_script, lint_script, parse_script, validate_script

from core import Enum, Gen
from gen import expr as E
from gen import program as P
from gen.rename import KEEP, odd_names
from harness import HostFn, ambient, differences, run_ref, run_target, to_side
from ref.interp import BUILTINS
from ref.values import show

RULE = ('Hand-built models run on the target and on a reference jump interpreter: every statement list of length <=5 (quick) / <=6 '
        '(thorough) over {log, assign, jump x2, conditional jump x2, label x2, return, function, call}, each as the script and as a '
        'function body, with a budget; random models of up to 40 statements with up to 4 (also nested) functions. Every model is run '
        'three times and compared with a deep copy. '
        'Large models (to thousands of statements, labels, functions) have hand-computed results; functions with the names of built-ins and of each other are called in every order. '
        'Non-trivial: the list has a jump that is taken, or a function that is called; distinct by '
        'model and globals.')
ASSUMPTIONS = ['Condition values come from a consumable bit list or from expressions over the globals.']

BITS = 'B'
LIMIT = 60


def bit():
    return E.call('arrayShift', E.var(BITS))


def log(expr):
    return {'expr': {'expr': E.call('systemLog', expr)}}


def frozen(model):
    return copy.deepcopy(model)


def identical(a, b):
    """Equal, key order and number types included."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(identical(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(identical, a, b))
    return a == b and repr(a) == repr(b)


def compare(c, model, globals_, limit=LIMIT, runs=2, fuel=20000):
    """Target against reference, repeatedly, with the model unchanged."""
    options = ambient(repr(model) + str(limit))
    ref, env = run_ref(model['statements'], to_side(globals_, 'ref'), level='model', limit=limit, fuel=fuel, debug=options['debug'])
    before = frozen(model)
    for i in range(runs):
        got = run_target(model, to_side(globals_, 'target'), max_statements=limit, **options)
        msg = differences(ref, got)
        if msg is None and ref.kind == 'runtime' and ref.message.split(' ')[0] != (got.message or '').split(' ')[0]:
            msg = f'error {got.message!r}, expected {ref.message!r}'
        if msg:
            c.fail(f'run {i + 1}: {msg}\n{pretty(model)}\n# globals {show(globals_)}')
        if not identical(model, before):
            c.fail(f'run {i + 1} modified the model\n  before {pretty(before)}\n  after {pretty(model)}')
    return ref


def pretty(model):
    out = []

    def walk(stmts, ind):
        for st in stmts:
            key, = st
            if key == 'function':
                f = st['function']
                out.append(f"{ind}function {f['name']}({', '.join(f.get('args', []))}{'...' if f.get('lastArgArray') else ''})")
                walk(f['statements'], ind + '    ')
            elif key == 'expr':
                s = st['expr']
                out.append(ind + (s['name'] + ' = ' if 'name' in s else '') + src(s['expr']))
            elif key == 'jump':
                j = st['jump']
                out.append(f"{ind}jump {j['label']}" + (f" if {src(j['expr'])}" if 'expr' in j else ''))
            elif key == 'return':
                out.append(ind + 'return ' + (src(st['return']['expr']) if 'expr' in st['return'] else ''))
            elif key == 'label':
                out.append(ind + st['label'] + ':')
            else:
                out.append(ind + repr(st))
    walk(model['statements'], '')
    return '\n'.join(out)


def src(expr):
    key, = expr
    if key == 'function':
        return f"{expr['function']['name']}({', '.join(src(a) for a in expr['function'].get('args', []))})"
    if key == 'binary':
        return f"({src(expr['binary']['left'])} {expr['binary']['op']} {src(expr['binary']['right'])})"
    if key == 'unary':
        return expr['unary']['op'] + src(expr['unary']['expr'])
    if key == 'group':
        return f"({src(expr['group'])})"
    return repr(expr[key]) if key != 'variable' else str(expr[key])


# -- exhaustive lists ---------------------------------------------------------------------

INNER = [
    [log(E.string('in')), {'jump': {'label': 'u1', 'expr': bit()}}, {'return': {'expr': E.string('r1')}}, {'label': 'u1'}, log(E.string('in2'))],
    [{'label': 'u2'}, {'jump': {'label': 'u2', 'expr': bit()}}, {'expr': {'name': 'x', 'expr': E.num(9)}}, {'jump': {'label': 'u1', 'expr': bit()}}],
]


def symbol(i, pos, variant):
    """Statement number i of the alphabet, at position pos."""
    if i == 0:
        return log(E.binary('+', E.string(f'{pos} '), E.var('x')))
    if i == 1:
        return {'expr': {'name': 'x', 'expr': E.binary('+', E.var('x'), E.num(1))}}
    if i == 2:
        return {'label': 'u1'}
    if i == 3:
        return {'label': 'u2'}
    if i == 4:
        return {'jump': {'label': 'u1'}}
    if i == 5:
        return {'jump': {'label': 'u2'}}
    if i == 6:
        return {'jump': {'label': 'u1', 'expr': bit()}}
    if i == 7:
        return {'jump': {'label': 'u2', 'expr': E.unary('!', bit())}}
    if i == 8:
        return {'return': {'expr': E.var('x')}} if pos % 2 else {'return': {}}
    if i == 9:
        return {'function': {'name': 'ff', 'args': ['p'], 'statements': copy.deepcopy(INNER[variant])}}
    return {'expr': {'name': 'r', 'expr': E.call('ff', E.var('x'))}}


SYMBOLS = 11


def list_items(tier):
    n = 5 if tier == 'quick' else 6
    for length in range(1, n - 1):
        yield from itertools.product(range(SYMBOLS), repeat=length)
    for head in itertools.product(range(SYMBOLS), repeat=n - 2):
        yield head + ('*',)


def list_check(c, item):
    if item[-1] == '*':
        lists = [item[:-1] + (a,) for a in range(SYMBOLS)] + [item[:-1] + (a, b) for a in range(SYMBOLS) for b in range(SYMBOLS)]
    else:
        lists = [item]
    c.weight = 0
    for seq in lists:
        h = sum((k + 1) * (v + 1) for k, v in enumerate(seq))
        variant = h % 2
        stmts = [symbol(i, k, variant) for k, i in enumerate(seq)]
        jumps = any(4 <= i <= 7 for i in seq)
        if not jumps and not (9 in seq and 10 in seq) and h % 4:
            continue        # straight lines: a quarter is plenty
        conditional = 6 in seq or 7 in seq or 9 in seq
        for bits in ((h * 37 % 64, h * 11 % 64) if conditional else (0,)):
            globals_ = {BITS: [bool(bits >> k & 1) for k in range(6)], 'x': 0.0}
            c.weight += 1
            if (h + bits) % 2:
                model = {'statements': stmts}
            else:
                model = {'statements': [{'function': {'name': 'outer', 'statements': stmts}}, {'expr': {'name': 'out', 'expr': E.call('outer')}},
                                        {'label': 'u1'}, log(E.string('after'))]}
            ref = compare(c, model, globals_, limit=30)
            if jumps or (9 in seq and 10 in seq):
                c.nontrivial((seq, bits))
            c.tag('ends:' + ref.kind)
    c.sample(pretty({'statements': [symbol(i, k, 0) for k, i in enumerate(lists[-1])]}))


# -- random models ------------------------------------------------------------------------

class ModelGen:
    LABELS = ['a', 'b', 'c', 'L d', '', '__bareScriptDone0', ' a', 'a ', 'A', 'label', 'a\n', '\xe4', 'a:', 'l' * 50]

    def __init__(self, c):
        self.c = c
        self.functions = []
        self.logs = 0
        self.nested = 0

    def expr(self, scope, depth=2):
        c = self.c
        k = c.draw(8) if depth else c.draw(3)
        if k == 0:
            return E.var(c.pick(scope))
        if k == 1:
            return {'number': c.pick([0.0, 1.0, 2, 0.5, 10])}
        if k == 2:
            return E.string(c.pick(['', 's', 'it'])) if c.draw(3) else E.var(c.pick(['true', 'false', 'null']))
        if k == 3:
            return E.binary(c.pick(['+', '-', '<', '==', '&&', '||', '*']), self.expr(scope, depth - 1), self.expr(scope, depth - 1))
        if k == 4:
            return bit()
        if k == 5 and self.functions:
            return self.call(scope, depth)
        if k == 6:
            return c.pick([lambda: E.unary(c.pick('!-'), self.expr(scope, depth - 1)),
                           lambda: E.group(self.expr(scope, depth - 1)),
                           lambda: E.call('arrayNew', *[self.expr(scope, 0) for _ in range(c.draw(3))]),
                           lambda: E.call('if', bit(), self.expr(scope, depth - 1), self.expr(scope, depth - 1)),
                           lambda: {'function': {'name': 'arrayNew'}},
                           lambda: E.call('arrayPush', E.var('arr'), c.pick([E.num(1), E.string('q')])),
                           lambda: E.call('systemLog', E.string('e'))])()
        return E.var(c.pick(scope))

    def call(self, scope, depth):
        c = self.c
        name, n = c.pick(self.functions)
        args = [self.expr(scope, depth - 1) for _ in range(c.draw(n + 2))]
        if not args and c.draw(2):
            return {'function': {'name': name}}
        return E.call(name, *args)

    def stmts(self, scope, n, labels, level):
        c = self.c
        out = []
        for _ in range(n):
            k = c.weighted([(5, 'log'), (5, 'assign'), (5, 'label'), (4, 'jumpif'), (2, 'jump'), (1, 'return'), (2, 'expr'),
                            (1 if level < 2 else 0, 'function'), (3 if self.functions else 0, 'call')])
            if k == 'log':
                self.logs += 1
                out.append(log(E.binary('+', E.string(f'{self.logs} '), self.expr(scope, 1))))
            elif k == 'assign':
                name = c.pick([s for s in scope if s != 'arr'])
                out.append({'expr': {'name': name, 'expr': self.expr(scope)}})
            elif k == 'label':
                out.append({'label': c.pick(labels)})
            elif k == 'jumpif':
                cond = bit() if c.draw(3) else self.expr(scope)
                out.append({'jump': {'label': c.pick(labels), 'expr': cond}})
            elif k == 'jump':
                out.append({'jump': {'label': c.pick(labels)}})
            elif k == 'return':
                out.append({'return': {'expr': self.expr(scope)} if c.draw(3) else {}})
            elif k == 'expr':
                out.append({'expr': {'expr': self.expr(scope)}})
            elif k == 'call':
                e = self.call(scope, 2)
                out.append({'expr': {'name': c.pick([s for s in scope if s != 'arr']), 'expr': e} if c.draw(2) else {'expr': e}})
            else:
                out.append(self.function(level))
        return out

    def function(self, level):
        c = self.c
        if level:
            self.nested += 1
        old = c.draw(5) == 4 and self.functions
        name = c.pick(self.functions)[0] if old else f'fn{len(self.functions)}'
        if c.draw(7) == 6:
            # a function bound to a name that is also a variable, a parameter or a library function
            name = c.pick(['g0', 'g1', 'p0', 'l0', 'arrayNew', 'p1'])
        nargs = c.draw(4)
        fn = {'name': name}
        params = ['p0', 'p1', 'p2'][:nargs]
        if nargs and c.draw(6) == 5:
            params[c.draw(nargs)] = c.pick(self.functions)[0] if self.functions and c.draw(2) else c.pick(['g0', 'l0', 'fn0', 'fn1'])
            if len(set(params)) < nargs:
                params = ['p0', 'p1', 'p2'][:nargs]
        if nargs or c.draw(2):
            fn['args'] = params
        if not fn.get('args'):
            fn.pop('args', None)
        if nargs and c.draw(3) == 2:
            fn['lastArgArray'] = bool(c.draw(3))
        if c.draw(6) == 5:
            fn['async'] = bool(c.draw(2))
        labels = [c.pick(self.LABELS) for _ in range(1 + c.draw(2))]
        fn['statements'] = self.stmts(params + ['g0', 'g1', 'l0', 'arr'], c.draw(9), labels, level + 1)
        self.functions.append((name, nargs))
        return {'function': fn}


def random_model(c):
    gen = ModelGen(c)
    labels = [c.pick(gen.LABELS) for _ in range(1 + c.draw(3))]
    stmts = []
    for _ in range(c.draw(4)):
        if c.draw(2):
            stmts.append(gen.function(0))
    stmts += gen.stmts(['g0', 'g1', 'g2', 'arr'], 1 + c.draw(30), labels, 0)
    if c.draw(3):
        # mostly give every label a definition somewhere
        for lab in set(labels):
            stmts.insert(c.draw(len(stmts) + 1), {'label': lab})
    model = {'statements': stmts}
    globals_ = {BITS: [bool(c.draw(2)) for _ in range(c.draw(30))], 'g0': c.pick([0.0, None, 's', True, [1.0]]), 'arr': []}
    text = pretty(model)
    c.sample(text + '\n# globals: ' + show(globals_))
    try:
        validate_script(copy.deepcopy(model))
    except Exception as exc:  # pylint: disable=broad-exception-caught
        c.fail(f'the generated model is not schema-valid: {exc}')
    ref = compare(c, model, globals_, limit=c.pick([LIMIT, 200, 15]), runs=3)
    c.tag('ends:' + ref.kind + (':' + ref.message.split(' ')[0] if ref.message else ''))
    if gen.nested:
        c.tag('nested function statements')
    if ref.count > 5:
        c.nontrivial(text + show(globals_))
    before = frozen(model)
    lint_script(model)
    if not identical(before, model):
        c.fail('lint modified the model')



# -- built-in expression functions are not script functions ------------------------------------

WRAPS = {
    'bare': lambda e: e, 'group': E.group, 'not': lambda e: E.unary('!', e), 'left': lambda e: E.binary('+', e, E.num(1)),
    'right': lambda e: E.binary('==', E.num(1), e), 'and': lambda e: E.binary('&&', E.var('true'), e), 'or': lambda e: E.binary('||', e, E.num(2)),
    'argument': lambda e: E.call('arrayNew', e), 'if': lambda e: E.call('if', E.var('true'), e), 'test': lambda e: E.call('if', e, E.num(1)),
}


def builtin_items(tier):
    for name in sorted(BUILTINS):
        for place in range(5):
            for wrap in WRAPS:
                for scope in range(3):
                    if tier != 'quick' or (len(name) + place + len(wrap)) % 2 or wrap == 'bare':
                        yield name, place, wrap, scope


def builtin_check(c, item):
    """A call of "abs" and so on in a script means the function the script or the host bound, or is undefined."""
    name, place, wrap, scope = item
    call = WRAPS[wrap](E.call(name, E.num(1), E.num(2)) if place != 4 else {'function': {'name': name}})
    stmts = [log(E.string('before'))]
    stmts.append([{'expr': {'expr': call}}, {'expr': {'name': 'x', 'expr': call}}, {'jump': {'label': 'a', 'expr': call}}, {'return': {'expr': call}},
                  {'return': {'expr': call}}][place])
    stmts += [{'label': 'a'}, log(E.string('after'))]
    if scope:
        stmts = [{'function': {'name': 'fn', 'args': [name][:scope - 1], 'statements': stmts}}, {'expr': {'name': 'r', 'expr': E.call('fn')}}]
    for globals_ in ({}, {name: None}, {name: HostFn('mine', lambda args, log_: (log_('mine'), len(args))[1])}):
        compare(c, {'statements': stmts}, globals_, runs=1)
    c.weight = 3
    c.nontrivial(item)
    c.sample(pretty({'statements': stmts}))


def spellings(c):
    """The optional members left out, empty or explicit mean the same."""
    nargs = c.draw(4)
    params = ['p0', 'p1', 'p2'][:nargs]
    flag = c.draw(3)
    body = [log(E.var(p)) for p in params] + [{'return': {'expr': E.call('arrayNew', *[E.var(p) for p in params])} if nargs else {}}]
    fn = {'name': 'ff', 'statements': body}
    if nargs:
        fn['args'] = params
    if flag:
        fn['lastArgArray'] = flag == 2
    if c.draw(2):
        fn['async'] = bool(c.draw(2))
    args = [c.pick([E.num(1), E.string('s'), E.var('null'), E.var('g0'), bit()]) for _ in range(c.draw(6))]
    call = {'function': {'name': 'ff', 'args': args}} if args or c.draw(2) else {'function': {'name': 'ff'}}
    how = c.draw(4)
    if how == 1:
        call = {'function': {'name': 'if', 'args': [E.var('true'), call]}}
    elif how == 2:
        call = E.binary('||', call, E.string('other'))
    stmts = [{'function': fn}, {'expr': {'name': 'r', 'expr': call}}]
    if how == 3:
        stmts.insert(0, {'expr': {'name': 'early', 'expr': E.call('if', {'function': {'name': 'arrayNew'}}, E.num(1), E.num(2))}})
    stmts.append({'jump': {'label': 'end', 'expr': {'function': {'name': 'arrayShift', 'args': [E.var(BITS)]}}}})
    stmts += [log(E.string('not jumped')), {'label': 'end'}, {'return': {'expr': E.var('r')}}]
    model = {'statements': stmts}
    globals_ = {BITS: [bool(c.draw(2)) for _ in range(4)], 'g0': [1.0]}
    c.sample(pretty(model))
    c.nontrivial(pretty(model) + show(globals_))
    compare(c, model, globals_)


def parsed(c):
    """Parsed scripts with user labels and jumps (the lowered code runs through the same interpreter)."""
    gen = P.ProgramGen(c, max_depth=3, budget=20, redefine=c.draw(3) == 0)
    rows = []
    labels = []
    for ln in P.lines(odd_names(c, gen.program(), 8, KEEP)[0], c):
        if c.draw(6) == 5:
            lab = c.pick(['u1', 'u2', 'u3'])
            labels.append(lab)
            rows.append(c.pick([f'{lab}:', f'jumpif (arrayShift(B)) {lab}', f'jump {lab}', f'{lab}:']))
        rows.append(P.plain_line(ln))
    if c.draw(2):
        rows += [lab + ':' for lab in dict.fromkeys(labels)]
    text = '\n'.join(rows)
    model = parse_script(text)
    globals_ = {BITS: [bool(c.draw(3)) for _ in range(c.draw(40))], 'g0': [1.0, 2.0], 'g1': 1.0}
    c.sample(text)
    ref = compare(c, model, globals_, limit=c.pick([300, 60]), runs=2)
    c.tag('parsed ends:' + ref.kind)
    if ref.count > 8:
        c.nontrivial(text + show(globals_))


def callback(c):
    """A function reached through library callbacks and stored values keeps its own statement list and labels."""
    labels = ['a', 'b']
    gen = ModelGen(c)
    fn = gen.function(0)
    fn['function']['name'] = 'cb'
    gen.functions[:] = [('cb', 1)]
    body = fn['function']['statements']
    body.append({'return': {'expr': c.pick([E.num(0), bit(), E.var('p0')])}})
    how = c.draw(4)
    if how == 0:
        use = [{'expr': {'name': 'r', 'expr': E.call('arrayIndexOf', E.var('vals'), E.var('cb'))}}]
    elif how == 1:
        use = [{'expr': {'name': 'pf', 'expr': E.call('systemPartial', E.var('cb'), E.num(1))}}, {'expr': {'name': 'r', 'expr': E.call('pf', E.num(2))}}]
    elif how == 2:
        use = [{'expr': {'name': 'alias', 'expr': E.var('cb')}}, {'function': {'name': 'cb', 'statements': [log(E.string('new')), {'jump': {'label': 'a'}}]}},
               {'expr': {'name': 'r', 'expr': E.call('alias', E.num(2))}}]
    else:
        use = [{'expr': {'name': 'r', 'expr': E.call('hostf', E.var('cb'), E.num(5))}}]
    stmts = [fn] + use + [{'jump': {'label': c.pick(labels), 'expr': bit()}}, log(E.var('r')), {'label': c.pick(labels)}]
    model = {'statements': stmts}
    globals_ = {BITS: [bool(c.draw(2)) for _ in range(c.draw(20))], 'arr': [], 'vals': [1.0, 2.0, 0.0], 'hostf': HOST}
    text = pretty(model)
    c.sample(text)
    c.nontrivial(text + show(globals_))
    ref = compare(c, model, globals_, limit=80)
    c.tag('callback ends:' + ref.kind)


HOST = HostFn('hostf', lambda args, log_fn: len(args))


# -- large models --------------------------------------------------------------------------

def large_items(tier):
    for n in (30, 33, 64, 65, 100, 101, 127, 129, 255, 256, 257, 500, 513, 1000, 1025, 2049, 3000) + ((10001, 40000) if tier == 'thorough' else ()):
        for shape in ('over', 'back', 'permuted labels', 'one label many jumps', 'repeated label', 'functions', 'function bodies', 'unknown', 'inner label', 'loops', 'calls',
                      'labels in a row', 'assignments', 'redefined', 'arguments'):
            for inside in (False, True):
                # these take n * n steps
                if n <= {'one label many jumps': 257, 'permuted labels': 3000}.get(shape, 10 ** 9):
                    yield n, shape, inside


def large_check(c, item):
    """Hundreds and thousands of statements, labels, jumps, functions and iterations; the expected log and result by hand."""
    n, shape, inside = item

    def say(i):
        return log(E.string(str(i)))

    def jump(label, *cond):
        return {'jump': {'label': label, 'expr': cond[0]} if cond else {'label': label}}

    def put(name, expr):
        return {'expr': {'name': name, 'expr': expr}}

    def give(expr):
        return {'return': {'expr': expr}}

    def function(name, body, *args):
        return {'function': {'name': name, 'statements': body, **({'args': list(args)} if args else {})}}

    def inc(name):
        return put(name, E.binary('+', E.var(name), E.num(1)))
    every = list(range(n))
    perm = [i * 7919 % n for i in every] if n % 7919 else every
    want, value, error, top = [], None, None, []
    if shape == 'over':
        body = [put('x', E.num(1)), jump('end')] + [say(i) for i in every] + [{'label': 'end'}, give(E.var('x'))]
        value = 1
    elif shape == 'back':
        body = [jump('start'), {'label': 'top'}] + [put('x', E.num(i)) for i in every] + [give(E.var('x')), {'label': 'start'}, say('s'), jump('top')]
        want, value = ['s'], n - 1
    elif shape == 'permuted labels':
        body = [jump('l0')]
        for i in perm:
            body += [{'label': f'l{i}'}, say(i), jump(f'l{i + 1}')]
        body += [{'label': f'l{n}'}, give(E.num(7))]
        want, value = every, 7
    elif shape == 'one label many jumps':
        body = [put('x', E.num(0)), {'label': 'top'}, inc('x')]
        body += [jump('top', E.binary('==', E.var('x'), E.num(i))) for i in perm] + [give(E.var('x'))]
        value = n
    elif shape == 'repeated label':
        body = [put('x', E.num(0))] + [s for i in every for s in ({'label': 'same'}, inc('x'))]
        body += [jump('same', E.binary('<', E.var('x'), E.num(2 * n))), give(E.var('x'))]
        value = 2 * n
    elif shape == 'functions':
        top = [function(f'f{i}', [say(i), {'label': 'l'}, give(E.num(i))]) for i in perm]
        body = [call_of(f'f{i}') for i in every] + [give(E.call(f'f{n - 1}'))]
        want, value = every + [n - 1], n - 1
    elif shape == 'function bodies':
        top = [function('ff', [jump('end', E.var('v'))] + [put('x', E.num(i)) for i in every] + [{'label': 'end'}, give(E.var('x'))], 'v')]
        body = [put('a', E.call('ff', E.num(0))), put('b', E.call('ff', E.num(1))), give(E.call('arrayNew', E.var('a'), E.var('b'), E.var('x')))]
        value = [n - 1, None, None]
    elif shape == 'unknown':
        body = [say(i) for i in every] + [jump('nowhere', E.num(0)), {'label': 'nowher'}, jump('nowhere', E.num(1)), {'label': 'Nowhere'}, say('never')]
        want, error = every, 'nowhere'
    elif shape == 'inner label':
        # the label is in a function, not in the script
        top = [function('ff', [{'label': f'l{i}'} for i in every] + [give(E.num(1))])]
        body = [say('a'), call_of('ff'), {'label': 'other'}, jump(f'l{n - 1}'), say('never')]
        want, error = ['a'], f'l{n - 1}'
    elif shape == 'loops':
        body = [put('x', E.num(0)), {'label': 'top'}, inc('x'), jump('top', E.binary('<', E.var('x'), E.num(n))), put('y', E.num(0)), {'label': 'top2'}, inc('y'),
                jump('out', E.binary('>=', E.var('y'), E.num(n))), jump('top2'), {'label': 'out'}, give(E.binary('+', E.var('x'), E.var('y')))]
        value = 2 * n
    elif shape == 'calls':
        top = [function('ff', [jump('big', E.binary('>', E.var('v'), E.num(n // 2))), give(E.num(1)), {'label': 'big'}, give(E.num(2))], 'v')]
        body = [put('x', E.num(0)), put('s', E.num(0)), {'label': 'top'}, put('s', E.binary('+', E.var('s'), E.call('ff', E.var('x')))), inc('x'),
                jump('top', E.binary('<', E.var('x'), E.num(n))), give(E.var('s'))]
        value = sum(2 if i > n // 2 else 1 for i in every)
    elif shape == 'labels in a row':
        body = [jump(f'l{n - 1}')] + [{'label': f'l{i}'} for i in every] + [inc('x'), jump('l0', E.binary('<', E.var('x'), E.num(3))), give(E.var('x'))]
        body.insert(0, put('x', E.num(0)))
        value = 3
    elif shape == 'assignments':
        body = [put(f'v{i}', E.num(i)) for i in every] + [give(E.call('arrayNew', *[E.var(f'v{i}') for i in perm[:200]]))]
        value = perm[:200]
    elif shape == 'redefined':
        if inside:
            return
        body = [s for i in every for s in (function('ff', [give(E.num(i))]), put('x', E.binary('+', E.var('x'), E.call('ff'))))] + [give(E.var('x'))]
        body.insert(0, put('x', E.num(0)))
        value = n * (n - 1) // 2
    else:
        names = [f'p{i}' for i in every]
        top = [function('ff', [jump('end', E.var(names[-1])), give(E.num(1)), {'label': 'end'}, give(E.call('arrayNew', E.var('p0'), E.var(names[-1])))], *names)]
        body = [give(E.call('arrayNew', E.call('ff', *[E.num(i) for i in every]), E.call('ff', E.num(3))))]
        value = [[0, n - 1], 1]
    if inside:
        body = [function('body', body), give(E.call('body'))]
    model = {'statements': top + body}
    before = copy.deepcopy(model)
    what = f'{shape}, {n}' + (' in a function' if inside else '')
    c.sample(what)
    c.nontrivial(item)
    for run in range(2):
        out = []
        options = {'globals': {}, **ambient(what)}
        options.update({'logFn': out.append, 'debug': False})
        try:
            got, failed = execute_script(model, options), None
        except BareScriptRuntimeError as exc:
            got, failed = None, str(exc)
        if out != [str(i) for i in want]:
            c.fail(f'{what}, run {run + 1}: logged {len(out)} lines {out[:3]}..{out[-3:]}, expected {len(want)}')
        if failed is not None or error is not None:
            if error is None or failed is None or 'nknown jump label' not in failed or f'"{error}"' not in failed:
                c.fail(f'{what}, run {run + 1}: error {failed!r}, expected {error!r}')
        elif got != value:
            c.fail(f'{what}, run {run + 1}: gave {show(got)}, expected {show(value)}')
        if not identical(model, before):
            c.fail(f'{what}, run {run + 1} modified the model')


def call_of(name):
    return {'expr': {'expr': E.call(name)}}


def sections(tier):
    return [
        Enum('built-in names', builtin_items, builtin_check),
        Enum('large models', large_items, large_check, complete=False),
        Enum('statement lists', list_items, list_check),
        Gen('random models', random_model, 16000),
        Gen('spellings', spellings, 6000),
        Gen('parsed scripts', parsed, 5000),
        Gen('callbacks', callback, 5000),
    ]
