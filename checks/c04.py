"""C04: scoping, calling convention and host globals."""

import itertools

from bare_script import BareScriptRuntimeError, evaluate_expression, execute_script, parse_expression, parse_script

from core import Enum, Gen, Reject
from gen import expr as E
from gen import program as P
from gen import values as V
from gen.libargs import SIGNATURES, SIZED, arguments
from harness import LIBRARY, HostFn, Run, ambient, debug_options, differences, log_diff, nesting, to_side
from ref.interp import BUILTINS, Env, RefRuntimeError
from ref.lib import FUNCTIONS
from ref.values import same, show, vtype

RULE = ('Programs over a small set of colliding names (locals, parameters, globals, host functions, script functions, library '
        'functions and expression built-ins all draw from the same names), one or two scripts over one globals object, against '
        'a reference interpreter: log, result, final globals, identity of the globals object, library injection. Enumerated: '
        'every parameter count x "..." x argument count x way of calling; every library name supplied by the host. '
        'Non-trivial: a program in which a name is bound in at least two roles and a script function is called; distinct by '
        'text and globals.')
ASSUMPTIONS = ['systemLog, systemType and arrayShift keep their meaning in the programs (they are the probes); sort callbacks return numbers.']

NAMES = ['xx', 'yy', 'ff', 'gg', 'abs', 'max', 'text', 'len', 'arrayCopy', 'mathAbs', 'mathMax', 'stringNew', 'objectGet', 'systemBoolean']
PROBES = ('systemLog', 'systemType', 'arrayShift', 'arrayNew', 'arrayIndexOf', 'systemPartial', 'systemGlobalGet', 'systemGlobalSet', 'arrayPush', 'arraySort',
          'systemCompare', 'B')


def _host1(args, log):
    log(f'host1 {len(args)}')
    return args[0] if args else 'none'


def _host2(args, log):
    log('host2')
    return [len(args)]


HOST1, HOST2 = HostFn('host1', _host1), HostFn('host2', _host2)
VALUES = [None, 1.0, 'str', HOST1, HOST2, [1.0, 2.0], {'a': 1.0}, True, 0, '']


class Gen4:
    def __init__(self, c, names):
        self.c = c
        self.names = names
        self.n = 0

    def name(self):
        return self.c.pick(self.names)

    def label(self):
        self.n += 1
        return f'L{self.n} '

    def atom(self):
        c = self.c
        k = c.draw(8)
        if k <= 3:
            return E.var(self.name())
        if k == 4:
            return E.num(c.draw(5))
        if k == 5:
            return E.string(c.pick(['', 'a', 'b']))
        return E.var(c.pick(['null', 'true', 'undefd'] + self.names))

    def expr(self, depth=2):
        c = self.c
        k = c.draw(11) if depth > 0 else 0
        if k <= 2:
            return self.atom()
        if k <= 6:
            return self.call(depth)
        if k == 7:
            return E.call('arrayNew', *[self.expr(depth - 1) for _ in range(c.draw(4))])
        if k == 8:
            args = [E.var(self.name()) if c.draw(3) else E.var('cmpf')] + [self.expr(depth - 1) for _ in range(c.draw(3))]
            return E.call('systemPartial', *args)
        if k == 9:
            if c.draw(2):
                return E.call('systemGlobalGet', E.string(self.name()), *([self.atom()] if c.draw(2) else []))
            return E.call('systemGlobalSet', E.string(self.name()), self.expr(depth - 1))
        return E.binary(c.pick(['+', '==', '&&', '||']), self.expr(depth - 1), self.expr(depth - 1))

    def call(self, depth):
        c = self.c
        k = c.draw(12)
        name = self.name()
        if k == 0:
            # callback through a library function
            return E.call('arrayIndexOf', E.call('arrayNew', *[self.expr(0) for _ in range(c.draw(4))]), E.call('if', bit(), E.var(name), E.num(1)))
        if k == 1:
            return E.call('arraySort', E.call('arrayNew', *[self.expr(0) for _ in range(c.draw(5))]), E.var('cmpf'))
        call = E.call(name, *[self.expr(depth - 1) for _ in range(c.draw(5))])
        if k == 2:
            # may end the run
            return call if c.draw(4) == 3 else E.call('if', bit(), call, E.string('skip'))
        return E.call('if', E.binary('&&', E.binary('==', E.call('systemType', E.var(name)), E.string('function')), bit()), call, E.string('no'))

    def show(self):
        c = self.c
        name = self.name()
        return ('expr', E.call('systemLog', E.binary('+', E.string(self.label() + name + '='), E.var(name) if c.draw(3) else self.expr(1))))

    def block(self, n):
        c = self.c
        out = []
        for _ in range(n):
            k = c.draw(9)
            if k <= 2:
                out.append(('assign', self.name() if c.draw(12) else 'null', self.expr()))
            elif k <= 5:
                out.append(self.show())
            elif k == 6:
                out.append(('expr', self.expr()))
            elif k == 7:
                out.append(('if', [(bit(), self.block(1 + c.draw(2)))], self.block(1) if c.draw(2) else None))
            else:
                self.n += 1
                out.append(('for', self.name(), f'k{self.n}' if c.draw(3) == 2 else None,
                            E.call('arrayNew', *[self.expr(0) for _ in range(c.draw(3))]), [self.show()]))
        return out

    def function(self):
        c = self.c
        params = [self.name() for _ in range(c.draw(4))]
        rest = bool(params) and c.draw(3) == 2
        body = [('expr', E.call('systemLog', E.binary('+', E.string(self.label() + p + '='), E.var(p)))) for p in params]
        if rest and c.draw(2):
            body.append(('expr', E.call('arrayPush', E.var(params[-1]), E.string('pushed'))))
        body += self.block(c.draw(4))
        if c.draw(4):
            body.append(('return', self.expr(1)))
        return ('function', self.name(), params, rest, body)


def bit():
    return E.call('arrayShift', E.var('B'))


def cmp_function(c):
    body = [('assign', c.pick(NAMES), E.var('p')), ('return', E.call('systemCompare', E.var('p'), E.var('q')))]
    if c.draw(2):
        body[-1] = ('return', E.call('systemCompare', E.var('q'), E.var('p')))
    return ('function', 'cmpf', ['p', 'q'], False, body)


def programs(c):
    names = list(NAMES)
    for _ in range(len(names) - 3 - c.draw(4)):
        names.pop(c.draw(len(names)))
    g = Gen4(c, names)
    scripts = []
    for _ in range(1 + (c.draw(3) == 2)):
        stmts = [cmp_function(c)] if not scripts or c.draw(2) else []
        for _ in range(1 + c.draw(4)):
            stmts.append(g.function())
            stmts += g.block(c.draw(3))
        stmts += g.block(2 + c.draw(5))
        if c.draw(2):
            stmts.append(('return', g.expr()))
        scripts.append(stmts)
    supplied = {n: c.pick(VALUES) for n in names if c.draw(3) == 2}
    supplied['B'] = [bool(c.draw(3)) for _ in range(c.draw(25))]
    texts = [P.text(s, c) for s in scripts]
    c.sample('\n# second script\n'.join(texts) + '\n# globals: ' + show(supplied))
    env = Env(to_side(supplied, 'ref'))
    tgt_globals = to_side(supplied, 'target')
    before = dict(tgt_globals)
    calls = 0
    for stmts, text in zip(scripts, texts):
        ref = Run()
        ref.message = ref.value = None
        env.log, env.max_depth, env.depth = [], 0, 0
        for n, fn in FUNCTIONS.items():
            env.globals.setdefault(n, fn)
        try:
            ref.value = env.program(stmts)
            ref.kind = 'ok'
        except RefRuntimeError as exc:
            ref.kind, ref.message = 'runtime', str(exc)
        ref.log, ref.globals = env.log, env.globals
        calls += env.max_depth
        if env.fuzzy:
            raise Reject('fuzzy')
        try:
            model = parse_script(text)
        except Exception as exc:  # pylint: disable=broad-exception-caught
            c.fail(f'well-formed program rejected: {type(exc).__name__}: {exc}')
        got = Run()
        got.log, got.message, got.value = [], None, None
        options = {'globals': tgt_globals, **debug_options(text, got.log.append), 'maxStatements': 400000}
        if ambient(text).get('nested'):
            options['logFn'] = nesting(options['logFn'], got)
        try:
            got.value = execute_script(model, options)
            got.kind = 'ok'
        except BareScriptRuntimeError as exc:
            got.kind, got.message = 'runtime', str(exc)
        got.globals = tgt_globals
        if options['globals'] is not tgt_globals:
            c.fail("options['globals'] is no longer the caller's object")
        msg = differences(ref, got)
        if msg:
            c.fail(msg)
        injected(c, before, tgt_globals)
        before = dict(tgt_globals)
        c.tag('ends:' + ref.kind)
    roles = sum(1 for n in names if sum((n in supplied, n in LIBRARY or n in BUILTINS, any(s[0] == 'function' and s[1] == n for x in scripts for s in x))) > 1)
    c.tag(f'depth:{min(calls, 6)}')
    c.tag('scripts:' + str(len(scripts)))
    if calls and (roles or any(s[0] == 'function' and set(s[2]) & set(supplied) for x in scripts for s in x)):
        c.nontrivial('\n'.join(texts) + show(supplied))


def injected(c, before, after):
    for name, fn in LIBRARY.items():
        if name not in after:
            c.fail(f'library function {name} was not added to the globals')
        if name not in before and after[name] is not fn and name not in NAMES:
            c.fail(f'{name} is not the library function')
    for name in before:
        if name not in after:
            c.fail(f'global {name} disappeared')


# -- binding matrix --------------------------------------------------------------------------

def binding_items(tier):
    for nparams in range(5):
        for rest in (False, True):
            if rest and not nparams:
                continue
            for nargs in range(8):
                for way in ('direct', 'variable', 'partial', 'host', 'local', 'callback', 'twice'):
                    yield nparams, rest, nargs, way
    for nparams, nargs in ((1, 40), (9, 10), (12, 10), (12, 17), (33, 33), (40, 64), (70, 300), (300, 300), (300, 20)):
        for rest in (False, True):
            for way in ('direct', 'variable', 'partial', 'host', 'local', 'twice'):
                yield nparams, rest, nargs, way


def binding(c, item):
    nparams, rest, nargs, way = item
    params = [f'p{i}' for i in range(nparams)]
    sig = ', '.join(params) + ('...' if rest else '')
    body = ''.join(f"    systemLog('{p}=' + {p} + ' ' + systemType({p}))\n" for p in params)
    if rest:
        body += f"    arrayPush({params[-1]}, 'more')\n"
    body += f"    p0 = 'changed'\n    local = {params[-1] if params else 'null'}\n    return local\n"
    text = f'function fn({sig}):\n{body}endfunction\n'
    args = [f'a{i}' for i in range(nargs)]
    arglist = ', '.join(args)
    if way == 'direct':
        text += f'r = fn({arglist})\n'
    elif way == 'variable':
        text += f'ff = fn\nr = ff({arglist})\n'
    elif way == 'partial':
        if not args:
            return
        k = (nargs + 1) // 2
        text += f'ff = systemPartial(fn, {", ".join(args[:k])})\nr = ff({", ".join(args[k:])})\n'
    elif way == 'twice':
        if not args:
            return
        text += f'ff = systemPartial(fn, {arglist})\nr0 = ff()\nr = ff()\n'
    elif way == 'host':
        text += f'r = hostcall({", ".join(["fn"] + args)})\n'
    elif way == 'local':
        text += f'function caller(gg):\n    return gg({arglist})\nendfunction\nr = caller(fn)\n'
    else:
        if nargs != 1:
            return
        text += 'ix = arrayIndexOf(arrayNew(a0), fn)\n'
    c.sample(text)
    values = [None, 1.0, 'two', [3.0], {'k': 4.0}, False, 'six', 7] + [float(i) for i in range(8, nargs)]
    tg = {f'a{i}': values[i] for i in range(nargs)}
    tg['hostcall'] = lambda a, options: a[0](a[1:], options)
    tg['p1'] = 'global p1'
    log = []
    options = {'globals': tg, 'logFn': log.append}
    execute_script(parse_script(text), options)
    want = []
    for i in range(nparams):
        if rest and i == nparams - 1:
            want.append(values[i:nargs] if i < nargs else [])
        else:
            want.append(values[i] if i < nargs else None)
    from ref.values import text as value_text
    lines = [f'{p}={value_text(v)} {vtype(v)}' for p, v in zip(params, want)]
    if way == 'twice':
        lines = lines * 2
    if log != lines:
        c.fail('parameters bound wrongly' + log_diff(lines, log))
    result = want[-1] if want else None
    if nparams == 1:
        result = 'changed'
    elif rest:
        result = result + ['more']
    if way == 'callback':
        if tg['ix'] != (0 if result else -1):
            c.fail(f'callback result {tg["ix"]}')
    else:
        if not same(result, tg['r']):
            c.fail(f'returned {show(tg["r"])}, expected {show(result)}')
        if nparams > 1 and not rest and nparams <= nargs and isinstance(want[-1], (list, dict)) and tg['r'] is not values[nparams - 1]:
            c.fail('the argument was copied')
    for name in ('p0', 'p2', 'p3', 'p4', 'local'):
        if name in tg:
            c.fail(f'local {name} leaked to the globals')
    if tg['p1'] != 'global p1':
        c.fail('a parameter overwrote a global')
    c.tag('way:' + way)
    if nparams != nargs or rest:
        c.nontrivial(repr(item))


# -- host supplied names ----------------------------------------------------------------------

def host_items(tier):
    return sorted(LIBRARY)


def host_names(c, name):
    """Every library name: supplied by the host, replaced by a script function, shadowed by a local."""
    for value in (None, 0, 'mine', [], HOST1, False):
        tv = to_side(value, 'target')
        globals_ = {name: tv}
        options = {'globals': globals_, 'logFn': lambda _t: None}
        execute_script(parse_script(f'seen = {name}'), options)
        if globals_[name] is not tv or globals_['seen'] is not tv:
            c.fail(f'the host value {show(value)} of {name} became {show(globals_[name])}')
        injected(c, {name: tv}, globals_)
        if value is not None:
            result = execute_script(parse_script(f'return {name}(5)'), options)
            want = 5 if value is HOST1 else None
            if result != want:
                c.fail(f'{name}(5) with the host value {show(value)} gave {show(result)}')
    globals_ = {}
    options = {'globals': globals_}
    text = f'''\
function {name}(pp):
    return 'mine ' + pp
endfunction
rr = {name}('x')
ff = {name}
r2 = ff('y')
function other({name}):
    return {name}('z')
endfunction
r3 = other(ff)
function third():
    {name} = null
    return if(true, {name}, 1)
endfunction
r4 = third()
r5 = {name}('w')
'''
    c.sample(text)
    execute_script(parse_script(text), options)
    got = [globals_.get(k) for k in ('rr', 'r2', 'r3', 'r4', 'r5')]
    if got != ['mine x', 'mine y', 'mine z', None, 'mine w']:
        c.fail(f'script-defined {name}: {show(got)}')
    # ... and the replacement survives a second run over the same globals
    if execute_script(parse_script(f"return {name}('v')"), options) != 'mine v':
        c.fail(f'a second run overwrote the script-defined {name}')
    if execute_script(parse_script(f'function only():\n{name} = 1\nendfunction\nonly()\nreturn {name}'), {}) is not LIBRARY[name]:
        c.fail(f'an assignment in a function changed the global {name}')
    c.nontrivial(name)


def host_between_runs(c):
    """What the host does to the globals between the runs of one or two options objects."""
    names = [c.pick(sorted(LIBRARY)) for _ in range(3)] + ['arrayNew', 'mine', 'gg']
    used = [{'globals': {}}, {'globals': {}}]
    story = []
    model = parse_script('function ff(aa):\n    gg = aa\n    return arrayNew(gg, aa)\nendfunction\nmine = ff(7)')
    for _ in range(2 + c.draw(6)):
        i = c.draw(2)
        options = used[i]
        for _ in range(c.draw(4)):
            globals_ = options['globals']
            what, name = c.draw(8), c.pick(names)
            story.append((i, what, name))
            if globals_ is None or what == 0:
                options['globals'] = {}
            elif what == 1:
                globals_.clear()
            elif what == 2:
                globals_.pop(name, None)
            elif what == 3:
                globals_[name] = c.pick([None, 0, 'host', [], False])
            elif what == 4:
                options['globals'] = None
            elif what == 5:
                options['globals'] = used[1 - i]['globals']
            elif what == 6:
                for n in list(globals_):
                    if n != 'arrayNew' and (n in LIBRARY) == bool(c.draw(2)):
                        del globals_[n]
            else:
                options['globals'] = dict(globals_)
        before = dict(options['globals'] or {})
        same_object = options['globals']
        run_it = model if c.draw(2) else parse_script(f'seen = {c.pick(names)}')
        try:
            execute_script(run_it, options)
        except BareScriptRuntimeError as exc:
            if run_it is not model or 'arrayNew' not in before or before['arrayNew'] is not None:
                c.fail(f'{story}: {exc}')
        after = options['globals']
        if same_object is not None and after is not same_object:
            c.fail(f"{story}: options['globals'] is another object")
        for n, v in LIBRARY.items():
            if n not in after:
                c.fail(f'{story}: the globals lack {n}')
            if after[n] is not before.get(n, v):
                c.fail(f'{story}: {n} was {show(before.get(n, v))} and is {show(after[n])}')
        for n, v in before.items():
            if n not in ('ff', 'mine', 'seen') and after.get(n, ...) is not v:
                c.fail(f'{story}: {n} was {show(v)} and is {show(after.get(n))}')
        story.append((i, 'run'))
    c.sample(str(story))
    c.nontrivial(str(story))


# -- expression mode ------------------------------------------------------------------------

EXPR_NAMES = [n for n in sorted(BUILTINS) if BUILTINS[n] in FUNCTIONS]


def builtin_items(tier):
    for name in sorted(BUILTINS):
        for where in ('globals', 'locals', 'both', 'shadow'):
            for i in range(len(VALUES)):
                yield name, where, i


def builtin(c, item):
    """A name bound in locals or globals wins over a built-in, whatever its value."""
    name, where, i = item
    tv = to_side(VALUES[i], 'target')
    other = to_side(HOST2, 'target')
    g = {name: other if where == 'both' else tv} if where in ('globals', 'both') else ({name: other} if where == 'shadow' else {})
    loc = {name: tv} if where in ('locals', 'both', 'shadow') else ({} if i % 2 else None)
    log = []
    c.sample(f'{name}(7, 8) with {name} = {show(VALUES[i])} in {where}')
    try:
        got = ('ok', evaluate_expression(parse_expression(f'{name}(7, 8)'), {'globals': g, 'logFn': log.append}, loc))
    except BareScriptRuntimeError as exc:
        got = ('runtime', str(exc))
    value = VALUES[i]
    if value is None:
        want = ('runtime', None)
    elif value is HOST1:
        want = ('ok', 7)
    elif value is HOST2:
        want = ('ok', [2])
    else:
        want = ('ok', None)
    if got[0] != want[0] or (got[0] == 'ok' and not same(want[1], got[1])) or (got[0] == 'runtime' and f'"{name}"' not in got[1]):
        c.fail(f'{got}, expected {want}')
    if log != (['host1 2'] if value is HOST1 else ['host2'] if value is HOST2 else []):
        c.fail(f'log {log}')
    c.nontrivial(repr(item))


def expressions(c):
    names = [c.pick(EXPR_NAMES) for _ in range(3)] + ['xx', 'mathAbs', 'if']
    globals_ = {n: c.pick(VALUES) for n in names if c.draw(2)} if c.draw(6) else None
    locals_ = {n: c.pick(VALUES) for n in names if c.draw(2)} if c.draw(2) else None
    g = Gen4(c, names)

    def tree(depth):
        k = c.draw(6)
        if depth <= 0 or k <= 1:
            return g.atom()
        if k <= 4:
            return E.call(c.pick(names), *[tree(depth - 1) for _ in range(c.draw(4))])
        return E.binary(c.pick(['+', '==', '&&', '||', '<']), tree(depth - 1), tree(depth - 1))

    expr = E.normal(tree(1 + c.draw(3)))
    text = E.render(expr, c)
    builtins = bool(c.draw(4))
    c.sample(f'{text}\n# builtins {builtins} globals {show(globals_)} locals {show(locals_)}')
    memo = {}
    env = Env(to_side(globals_, 'ref', memo) if globals_ is not None else {}, library=False)
    rl = to_side(locals_, 'ref', memo) if locals_ is not None else None
    try:
        want = ('ok', env.eval(expr, rl, builtins))
    except RefRuntimeError as exc:
        want = ('runtime', str(exc))
    memo, log = {}, []
    tl = to_side(locals_, 'target', memo) if locals_ is not None else None
    tg = to_side(globals_, 'target', memo) if globals_ is not None else None
    options = {'logFn': log.append}
    if tg is not None:
        options['globals'] = tg
    try:
        got = ('ok', evaluate_expression(parse_expression(text), options, tl, builtins))
    except BareScriptRuntimeError as exc:
        got = ('runtime', str(exc))
    if env.log != log:
        c.fail('log differs' + log_diff(env.log, log))
    if want[0] != got[0] or (want[0] == 'ok' and not env.fuzzy and not same(want[1], got[1])) or (want[0] == 'runtime' and want[1] != got[1]):
        c.fail(f'{got[0]} {show(got[1])}, expected {want[0]} {show(want[1])}')
    a, b = {k: v for k, v in env.globals.items()}, tg or {}
    if set(a) != set(b) or not all(same(a[k], b[k]) for k in a):
        c.fail(f'evaluating changed the globals to {show(b)}')
    if 'function' in expr or 'binary' in expr:
        c.nontrivial(text + show(globals_) + show(locals_) + str(builtins))
    c.tag('expr:' + want[0])


# -- partial applications -----------------------------------------------------------------------

def _mutate(args, log):
    log(f'mutate {len(args)}')
    out = list(args)
    args.append('grown')
    args[0] = 'replaced'
    return out


class RawHost(HostFn):
    """A host function that is given the argument list itself, and changes it."""

    def target(self):
        return lambda args, options: self.fn(args, options['logFn'] if 'logFn' in options else (lambda _t: None))


MUTATE = RawHost('mutate', _mutate)
PARTIAL_HEAD = """\
function grow(a, b, c...):
    arrayPush(c, a)
    a = 'changed'
    return arrayNew(a, b, c)
endfunction
function keep(a, b, c):
    r = arrayNew(a, b, c)
    b = null
    return r
endfunction
function rest(a...):
    arrayShift(a)
    arrayPush(a, 'more')
    return a
endfunction
"""
UNREPEATABLE = ('schemaTypeModel', 'mathRandom', 'datetimeNow', 'datetimeToday', 'systemPartial', 'systemFetch')
PARTIAL_FNS = sorted(n for n in SIGNATURES if n not in UNREPEATABLE)
VARIADIC = ['arrayNew', 'arrayPush', 'objectNew', 'mathMax', 'stringFromCharCode', 'dataParseCSV', 'schemaParse', 'arrayExtend']


def partials(c):
    """pf(extra) for pf = systemPartial(f, bound) is f(bound, extra), however often pf has been called before."""
    k = c.draw(10)
    name = c.pick(PARTIAL_FNS) if k <= 4 else c.pick(VARIADIC) if k <= 6 else c.pick(['grow', 'keep', 'rest', 'hostm'])
    if name in SIGNATURES:
        args = arguments(c, name)
    else:
        args = [V.value(c, 2) for _ in range(c.draw(6))]
    nbound = 1 + c.draw(max(1, len(args)))
    bound = args[:nbound] or [V.value(c, 1)]
    extras = []
    for _ in range(2 + c.draw(2)):
        j = c.draw(4)
        extras.append([] if j == 0 else args[nbound:] if j <= 2 else args[nbound:nbound + 1] + [V.value(c, 1)])
    if name in SIZED:
        bound, *extras = [[3 if isinstance(v, (int, float)) and not abs(v) <= 100 else v for v in part] for part in [bound, *extras]]
    globals_ = {'hostm': MUTATE}
    names = [f'b{i}' for i in range(len(bound))]
    globals_.update(zip(names, bound))
    lists = []
    for i, extra in enumerate(extras):
        en = []
        for j, v in enumerate(extra):
            globals_[f'e{i}{j}'] = v
            en.append(f'e{i}{j}')
        lists.append(en)
    split = c.draw(len(names)) if c.draw(3) == 2 else 0
    if split:
        make = f'p0 = systemPartial({", ".join([name] + names[:split])})\npf = systemPartial({", ".join(["p0"] + names[split:])})\n'
    else:
        make = f'pf = systemPartial({", ".join([name] + names)})\n'
    via, direct = PARTIAL_HEAD + make, PARTIAL_HEAD
    for i, en in enumerate(lists):
        after = f'systemLog(jsonStringify(r{i}))\narrayPush(r{i}, 77)\nobjectSet(r{i}, "zz", 1)\n' if c.draw(2) else ''
        via += f'r{i} = pf({", ".join(en)})\n{after}'
        direct += f'r{i} = {name}({", ".join(names + en)})\n{after}'
    c.sample(via[len(PARTIAL_HEAD):] + '# ' + show(globals_))
    runs = []
    for text in (via, direct):
        g, log = to_side(globals_, 'target'), []
        try:
            execute_script(parse_script(text), {'globals': g, 'logFn': log.append})
            end = 'ok'
        except BareScriptRuntimeError as exc:
            end = str(exc)
        runs.append((end, log, g))
    (end0, log0, g0), (end1, log1, g1) = runs
    if end0 != end1 or log0 != log1:
        c.fail(f'called through systemPartial: {end0} {log0}\ncalled directly: {end1} {log1}')
    for n in g1:
        if n not in LIBRARY and not same(g1[n], g0.get(n)):
            c.fail(f'called through systemPartial {n} = {show(g0.get(n))}, called directly {show(g1[n])}')
    c.tag('partial:' + (name if name not in SIGNATURES else 'library'))
    if g1.get('r0') is not None:
        c.nontrivial(name + show(globals_) + via[len(PARTIAL_HEAD):])


def sections(tier):
    return [
        Enum('binding matrix', binding_items, binding),
        Enum('host and script names', host_items, host_names),
        Gen('host between runs', host_between_runs, 4000),
        Enum('bound names over built-ins', builtin_items, builtin),
        Gen('colliding programs', programs, 60000),
        Gen('expressions', expressions, 60000),
        Gen('partial applications', partials, 12000),
    ]
