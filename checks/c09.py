"""C09: the statement budget is exact, complete and monotone."""

from bare_script import BareScriptRuntimeError, execute_script, parse_script

from core import Enum, Gen
from gen import expr as E
from gen import program as P
from gen.rename import KEEP, odd_names
from harness import HostFn, ambient, differences, run_ref, run_target, to_side
from ref import data as D
from ref.values import show

RULE = ('Programs with loops, recursion, script functions called directly, through partials, aliases, sorting/searching callbacks, data '
        'expressions (with and without variables) and host functions, and (nested) includes - terminating or not - under every limit 1..N+2 for small N, '
        'sampled limits for large N, and 0, on the target and on a reference that counts every started statement. Compared: how the run '
        'ends, value, log, globals. Non-trivial: N >= 3 and the program calls a function, loops or includes; distinct by text, '
        'globals and limit.')
ASSUMPTIONS = ['The number of statements of a text is the number of model statements started, as documented for maxStatements.']

EXCEEDED = 'Exceeded maximum script statements'


def run_back(args, log):
    """A host function that only logs (calling back needs options; see call_host)."""
    log('host')
    return len(args)


class CallBack:
    """A host function that calls its first argument with the rest (on both sides)."""

    def __init__(self, times):
        self.times = times

    def target(self):
        def host(args, options):
            value = None
            for _ in range(self.times):
                value = args[0](list(args[1:]), options)
            return value
        return host

    def install(self, env, name):
        from ref.values import RefFunction

        def call(args, e):
            value = None
            for _ in range(self.times):
                value = e.invoke(args[0], list(args[1:]))
            return value
        env.globals[name] = RefFunction(name, call)


HOST = HostFn('hostf', run_back)


class Setup:
    """The include files and host functions of a case, for both sides."""

    def __init__(self, files=None):
        self.files = files or {}
        self.models = {}

    def ref(self, env):
        D.install(env)
        CallBack(1).install(env, 'callf')
        CallBack(3).install(env, 'callt')

        def include(e, inc):
            url = inc['url']
            if url not in self.models:
                self.models[url] = parse_script(self.files[url])
            e.model(self.models[url]['statements'], None)
        env.include = include

    def target_globals(self, globals_):
        g = to_side(globals_, 'target')
        g['callf'] = CallBack(1).target()
        g['callt'] = CallBack(3).target()
        return g

    def options(self):
        return {'fetchFn': lambda request: self.files.get(request['url'].split('/')[-1])}


IGNORE = ('callf', 'callt', 'dataFilter', 'dataCalculatedField', 'dataJoin')


def limited(c, model, globals_, setup, limit, text):
    """One run under one limit on both sides; gives the reference run."""
    around = ambient(f'{text}{limit}')
    debug = around['debug']
    ref, _env = run_ref(model['statements'], to_side(globals_, 'ref'), level='model', limit=limit, fuel=60000, setup=setup.ref, debug=debug)
    got = run_target(model, setup.target_globals(globals_), max_statements=limit, debug=debug, nested='nested' in around, **setup.options())
    msg = differences(ref, got, ignore=IGNORE)
    if msg is None and ref.kind == 'runtime':
        a, b = EXCEEDED in ref.message, EXCEEDED in (got.message or '')
        if a != b:
            msg = f'error {got.message!r}, expected {ref.message!r}'
    if msg is None and ref.kind == 'runtime' and EXCEEDED in ref.message:
        # globals as they were when statement L+1 would have started
        msg = None
    if msg:
        c.fail(f'limit {limit}: {msg}\n{text}\n# globals {show(globals_)}')
    return ref, got


def sweep(c, model, globals_, setup, text, most=40, cap=None):
    """Every limit (or a sample of them) for one program; cap bounds the run without a limit (0: it terminates)."""
    if cap is None:
        ref, got = limited(c, model, globals_, setup, 0, text)
        n = ref.count
    else:
        ref = got = None
        n = cap
    if n + 2 <= most:
        limits = list(range(1, n + 3))
    else:
        limits = {1, 2, n - 1, n, n + 1, n + 2, 10 ** 9} if cap is None else {1, 2, n}
        while len(limits) < min(14, n):
            limits.add(1 + c.draw(n))
        limits = sorted(limits)
    c.weight = len(limits) + 1
    whole = got.log if got is not None else None
    for limit in limits:
        r, g = limited(c, model, globals_, setup, limit, text)
        if cap is None:
            exceeded = g.kind == 'runtime' and EXCEEDED in g.message
            if exceeded != (limit < n):
                c.fail(f'limit {limit} of a run of {n} statements: {g!r}\n{text}')
            if g.log != whole[:len(g.log)]:
                c.fail(f'limit {limit}: the log is not a prefix of the unlimited log\n{text}')
            if not exceeded and g.log != whole:
                c.fail(f'limit {limit} >= {n} changes the log\n{text}')
        elif not (g.kind == 'runtime' and EXCEEDED in g.message):
            if r.kind == 'ok':
                c.tag('terminates after all')
        if n >= 3:
            c.nontrivial((text, show(globals_), limit))
    c.tag('N:' + ('0-5' if n <= 5 else '6-40' if n <= 40 else '41-400' if n <= 400 else '400+'))


# -- generators -----------------------------------------------------------------------------

USES = [
    "r = arrayIndexOf(arrayNew(1, 2, 3, 0), {f})",
    "r = arrayLastIndexOf(arrayNew(1, 2, 0), {f})",
    "r = arraySort(arrayNew(3, 1, 2), {f})",
    "gs = arrayNew(3, 1, 2, 5, 4)\nr = arraySort(gs, {f})\nsystemLog(gs)",
    "gs = rows()\nr = dataCalculatedField(gs, 'z', '{f}(x)')\nsystemLog(gs)",
    "pf = systemPartial({f}, 5)\nr = pf(1)\nr = pf()",
    "al = {f}\nr = al(1, 2)\nr = al()",
    "r = callf({f}, 1)",
    "r = callt({f}, 2)\nsystemLog(r)",
    "r = dataFilter(rows(), '{f}(x)')",
    "r = dataFilter(rows(), '{f}(x, k)', objectNew('k', 1))",
    "r = dataCalculatedField(rows(), 'z', '{f}(x) + 1')",
    "r = dataCalculatedField(rows(), 'z', '{f}(x, k)', objectNew('k', 2))",
    "r = dataJoin(rows(), arrayNew(objectNew('q', 1), objectNew('q', 2)), '{f}(x)', '{f}(q)')",
    "r = dataJoin(rows(), arrayNew(objectNew('q', 1)), '{f}(x) + k', '{f}(q)', false, objectNew('k', 0))",
    "r = {f}({f}({f}(1)))",
    "r = if({f}(1), {f}(2), {f}(3)) || {f}(4)",
    "for v in arrayNew({f}(1), {f}(2)):\n    systemLog({f}(v))\nendfor",
    "w = 0\nwhile {f}(w) < 100 && w < 3:\n    w = w + 1\nendwhile",
]
BODIES = [
    ["systemLog('f ' + a)", 'return a'],
    ['return if(a, 1, 0)'],
    ['s = 0', 'for v in arrayNew(1, 2, 3):', '    s = s + v', 'endfor', 'return s'],
    ['if a:', "    systemLog('t')", '    return 0', 'else:', "    systemLog('e')", 'endif', 'return 1'],
    ['return a - b'],
    ["systemLog('n')"],
    ['systemLog(gs)', 'return a - b'],
    ['i = 0', 'while i < 4:', '    i = i + 1', '    if i == 2:', '        continue', '    endif', 'endwhile', 'return i == a'],
    ['if a > 0:', '    return rec(a - 1)', 'endif', 'return 0'],
    ['return arrayIndexOf(arrayNew(0, a), other)'],
    [],
]
PRE = ['function rows():', "    return arrayNew(objectNew('x', 1), objectNew('x', 2), objectNew('x', 0))", 'endfunction',
       'function other(v):', "    systemLog('o')", '    return v', 'endfunction',
       'function rec(v):', '    if v > 0:', '        return rec(v - 1) + 1', '    endif', '    return 0', 'endfunction']


def use_items(tier):
    for u in range(len(USES)):
        for b in range(len(BODIES)):
            for where in range(5):
                yield u, b, where


def use_text(u, b, where):
    fn = ['function ff(a, b):'] + ['    ' + r for r in BODIES[b]] + ['endfunction']
    use = USES[u].format(f='ff').split('\n')
    rest = ["systemLog('end')", 'return r']
    files = {}
    if where == 0:
        rows = PRE + fn + use + rest
    elif where == 1:
        rows = PRE + fn + ['function run():'] + ['    ' + r for r in use] + ['    return r', 'endfunction', 'r = run()'] + rest
    elif where == 2:
        files['lib.bare'] = '\n'.join(PRE + fn)
        rows = ["include 'lib.bare'"] + use + rest
    elif where == 3:
        files['lib.bare'] = '\n'.join(["include 'pre.bare'"] + fn + use + ['return 1', "systemLog('never')"])
        files['pre.bare'] = '\n'.join(PRE + ['return'])
        rows = ["include 'lib.bare'"] + use + rest
    else:
        files['lib.bare'] = '\n'.join(fn + use + ["include 'tail.bare'"])
        files['tail.bare'] = '\n'.join(use)
        rows = PRE + ["function load():", "    include 'lib.bare'", '    return 1', 'endfunction', 'r = load()', "include 'tail.bare'"] + rest
    return '\n'.join(rows), files


def use_check(c, item):
    text, files = use_text(*item)
    c.sample(text + ''.join(f'\n# {k}:\n{v}' for k, v in files.items()))
    sweep(c, parse_script(text), {}, Setup(files), text + repr(files), most=400)


FOREVER = [
    'while true:\nendwhile', "while true:\n    systemLog('x')\nendwhile", 'l:\njump l', 'l:\nx = 1\njumpif (1) l',
    'function ff():\n    while 1:\n        g = 1\n    endwhile\nendfunction\nff()',
    'function ff(n):\n    return ff(n)\nendfunction\nff(1)', 'function aa():\n    return bb()\nendfunction\nfunction bb():\n    return aa()\nendfunction\naa()',
    'function ff(a):\n    l:\n    jump l\nendfunction\narrayIndexOf(arrayNew(1), ff)',
    "function ff(a):\n    l:\n    jump l\nendfunction\ndataFilter(arrayNew(objectNew('x', 1)), 'ff(x)')",
    "function ff(a):\n    systemLog('f')\n    l:\n    jump l\nendfunction\ndataCalculatedField(arrayNew(objectNew('x', 1)), 'y', 'ff(x)', objectNew('k', 1))",
    "function ff(a):\n    l:\n    jump l\nendfunction\ndataJoin(arrayNew(objectNew('x', 1)), arrayNew(objectNew('x', 1)), 'ff(x)')",
    'function ff(a, b):\n    l:\n    jump l\nendfunction\narraySort(arrayNew(1, 2), ff)',
    'function ff(a, b):\n    l:\n    jump l\nendfunction\npf = systemPartial(ff, 1)\npf()',
    'function ff(a, b):\n    l:\n    jump l\nendfunction\ncallf(ff)\nsystemLog(1)',
    "include 'self.bare'", "x = 1\ninclude 'loop.bare'\nsystemLog('never')", "while true:\n    include 'one.bare'\nendwhile",
    "function ff():\n    include 'loop.bare'\nendfunction\narrayIndexOf(arrayNew(1), ff)",
    "include 'fn.bare'\nwhile true:\n    gg()\nendwhile", 'for v in arrayNew(1):\n    while 1:\n    endwhile\nendfor',
    "function ff():\n    systemLog('a')\n    include 'nop.bare'\n    return 1\nendfunction\nwhile ff():\nendwhile",
]
FOREVER_FILES = {
    'self.bare': "systemLog('s')\ninclude 'self.bare'", 'loop.bare': "systemLog('in')\nwhile true:\n    y = 1\nendwhile", 'one.bare': "systemLog('one')",
    'fn.bare': "function gg():\n    systemLog('g')\nendfunction", 'nop.bare': '# nothing'
}


def forever_items(tier):
    top = 90 if tier == 'quick' else 250
    for i, text in enumerate(FOREVER):
        deep = 'return ff(n)' in text or 'bb()' in text or 'self.bare' in text
        for limit in range(1, 36 if deep else top):
            yield i, limit


def forever_check(c, item):
    i, limit = item
    text = FOREVER[i]
    c.sample(text)
    c.nontrivial(item)
    _ref, got = limited(c, parse_script(text), {}, Setup(FOREVER_FILES), limit, text)
    if got.kind != 'runtime' or f'{EXCEEDED} ({limit})' not in got.message:
        c.fail(f'limit {limit}: an endless program ended {got!r}\n{text}')


GROWING = ["dataFilter(t, '{e}'{v})", "dataCalculatedField(t, 'z', '{e}'{v})", "dataJoin(t, rows, '{e}', null, false{v})", "dataJoin(rows, t, '{e}', null, true{v})",
           "dataJoin(t, t, '{e}', 'x', false{v})", "dataJoin(t, t, 'x', '{e}', false{v})", 'arrayIndexOf(t, grow)', 'arrayLastIndexOf(t, grow, 0)', 'arraySort(t, grow)',
           'for v in t:\n    grow()\nendfor', 'for v, i in t:\n    grow()\nendfor']
ENOUGH = 3000


def recursion_items(_tier):
    return [(i, n) for i in range(len(RECURSIVE)) for n in (1, 2, 4)]


# A data expression that calls itself (dataJoin evaluates it for the rows of both sides)
RECURSIVE = ["systemPartial(dataFilter, t, '!tick() && pp()')", "systemPartial(dataCalculatedField, t, 'y', 'tick() || pp()')",
             "systemPartial(dataJoin, t, arrayNew(objectNew('x', 1)), 'tick() || pp()')"]
MANY = 30000


def recursion_check(c, item):
    """Recursion through data expressions ends too (no statement is counted in it)."""
    i, n = item
    text = f"pp = {RECURSIVE[i]}\npp()\nsystemLog('end')"
    calls = [0]

    def tick(_args, _options):
        calls[0] += 1
        if calls[0] > MANY:
            raise BareScriptRuntimeError('endless')
        return False

    c.sample(text)
    c.nontrivial(item)
    got = run_target(parse_script(text), {'t': [{'x': float(k)} for k in range(n)], 'tick': tick}, max_statements=100)
    if calls[0] > MANY and (n > 1 or i == 2):
        c.known('data-expression-recursion')
    elif calls[0] > MANY or got.kind == 'ok' and got.log != ['end'] or got.kind != 'ok' and 'recursion' not in got.message:
        c.fail(f'{n} rows: {calls[0]} calls, {got!r}\n{text}')


def growing_items(tier):
    for i in range(len(GROWING)):
        for rows in (1, 2, 5):
            for where in range(3):
                yield i, rows, where


def growing_check(c, item):
    """A call whose callback makes the table grow ends: no statement is counted while it goes on."""
    i, n, where = item
    variables = ', objectNew(\'k\', 1)' if where == 1 else ''
    text = GROWING[i].format(e='grow(x)', v=variables)
    if where == 2:
        text = 'function run():\n    ' + text.replace('\n', '\n    ') + '\nendfunction\nrun()'
    text += "\nsystemLog('end')"
    calls = [0]

    def grow(_args, _options):
        calls[0] += 1
        if calls[0] > ENOUGH:
            raise BareScriptRuntimeError('endless')
        table.append({'x': float(calls[0])})
        return calls[0] % 2

    table = [{'x': float(k)} for k in range(n)]
    c.sample(text)
    c.nontrivial(item)
    got = run_target(parse_script(text), {'t': table, 'rows': [{'x': 1.0}, {'x': 2.0}], 'grow': grow}, max_statements=100000)
    if calls[0] > ENOUGH or got.kind != 'ok' or got.log[-1:] != ['end']:
        c.fail(f'{n} rows: {calls[0]} calls, {got!r}\n{text}')


def programs(c):
    """Random structured programs with callbacks and includes, swept over the limits."""
    gen = P.ProgramGen(c, max_depth=c.int(1, 4), budget=c.int(4, 25), max_functions=3, redefine=c.draw(3) == 0)
    stmts, mapping = odd_names(c, gen.program(), 8, KEEP)
    gen.functions = [(mapping.get(n, n), k) for n, k in gen.functions]
    rows = [P.plain_line(ln) for ln in P.lines(stmts, c)]
    files = {}
    if gen.functions and c.draw(2):
        # split: the functions go to an include
        ends = [i for i, r in enumerate(rows) if r == 'endfunction']
        cut = c.pick(ends) + 1
        files['lib.bare'] = '\n'.join(rows[:cut])
        rows = ["include 'lib.bare'"] + rows[cut:]
    if gen.functions:
        for _ in range(c.draw(3)):
            name = c.pick(gen.functions)[0]
            use = c.pick(USES[:9]).format(f=name).split('\n')
            at = [i for i in range(len(rows) + 1) if i == len(rows) or not rows[i].startswith((' ', 'endf', 'elif', 'else', 'endi', 'endw'))]
            tail = [a for a in at if a == 0 or a > max([k for k, r in enumerate(rows) if r.startswith('endfunction')] + [-1])]
            i = c.pick(tail)
            if files and i == 0:
                i = 1
            rows[i:i] = use
    if c.draw(4) == 3:
        files['inner.bare'] = "systemLog('inner')\ng3 = 1\nreturn 5\nsystemLog('no')"
        files['mid.bare'] = "g2 = 2\ninclude 'inner.bare'\nsystemLog('mid')"
        i = c.pick([k for k in range(len(rows) + 1)])
        rows.insert(i, c.pick(["include 'inner.bare'", "include 'mid.bare'", "include 'mid.bare'\ninclude 'inner.bare'"]))
    text = '\n'.join(rows)
    globals_ = {'B': [bool(c.draw(4)) for _ in range(c.draw(30))], 'g0': [1.0, 2.0], 'g1': c.pick([1.0, 's', None, [3.0]]), 'g2': 0.0}
    c.sample(text + ''.join(f'\n# {k}:\n{v}' for k, v in files.items()))
    sweep(c, parse_script(text), globals_, Setup(files), text + repr(files), most=c.pick([20, 60]))


def jumps(c):
    """Jump-level programs that may not terminate."""
    rows = []
    labels = ['a', 'b']
    body = []
    for _ in range(1 + c.draw(10)):
        body.append(c.pick(["systemLog('x')", 'x = x + 1', 'a:', 'b:', 'jump a', 'jump b', 'jumpif (arrayShift(B)) a', 'jumpif (x < 4) b', 'return x', 'ff(x)',
                            "include 'inc.bare'", 'x = 0', 'y = callf(ff, x)', 'arrayIndexOf(arrayNew(1, 2), ff)']))
    fn = ['function ff(v):']
    for _ in range(c.draw(6)):
        fn.append('    ' + c.pick(["systemLog('f')", 'l = v', 'a:', 'jumpif (arrayShift(B)) a', 'return v', "include 'inc.bare'", 'jumpif (v) a']))
    fn += ['    a:', 'endfunction']
    inc = [c.pick(["systemLog('i')", 'x = x + 2', 'a:', 'jumpif (arrayShift(B)) a', 'return', 'ff2(1)']) for _ in range(c.draw(5))] + ['a:']
    files = {'inc.bare': '\n'.join(inc)}
    rows = fn + ['function ff2(v):', "    systemLog('ff2')", 'endfunction', 'x = 0'] + body + [f'{lab}:' for lab in labels]
    text = '\n'.join(rows)
    globals_ = {'B': [bool(c.draw(3)) for _ in range(c.draw(20))]}
    c.sample(text + '\n# inc.bare:\n' + files['inc.bare'])
    sweep(c, parse_script(text), globals_, Setup(files), text + repr(files), most=100, cap=c.int(5, 60))


def reuse(c):
    """The count starts from zero at every execution, whatever options are passed again; non-positive limits are unlimited."""
    n = 1 + c.draw(12)
    rows = ['function ff():', '    g = 1', 'endfunction'] + [c.pick(['x = 1', 'ff()', "systemLog('x')"]) for _ in range(n)]
    text = '\n'.join(rows)
    total = 1 + n + sum(1 for r in rows[3:] if r == 'ff()')
    model = parse_script(text)
    limits = [c.pick([total, total + 1, total - 1, 0, -1, None, float(total), 1e9])] * 3
    if c.draw(2):
        # the host changes the limit between the runs
        limits = [c.pick([total, total + 1, total - 1, 0, -1, None, float(total), 1, total // 2 + 1]) for _ in range(4)]
    options = {'globals': {}, 'logFn': lambda _t: None}
    if limits[0] is None and c.draw(2):
        options['statementCount'] = 10 ** 9
    c.sample(f'{text}\n# limits {limits}')
    c.nontrivial((text, tuple(limits)))
    for i, limit in enumerate(limits):
        options.pop('maxStatements', None)
        if limit is not None:
            options['maxStatements'] = limit
        try:
            execute_script(model, options)
            ok = True
        except BareScriptRuntimeError as exc:
            ok = False
            if EXCEEDED not in str(exc):
                c.fail(f'run {i + 1} under {limit}: {exc}\n{text}')
        if ok != (limit is None or limit <= 0 or limit >= total):
            c.fail(f'run {i + 1} of a script of {total} statements under the limits {limits}: {"completed" if ok else "aborted"}\n{text}')


def long_runs(c):
    """Large N: exact at the boundary."""
    a, b = c.int(3, 60), c.int(1, 25)
    text = '\n'.join(['function ff(n):', '    i = 0', '    while i < n:', '        i = i + 1', '    endwhile', '    return i', 'endfunction',
                      f'for v in arrayNewSize({a}, 1):', f'    s = ff({b})', 'endfor', "include 'tail.bare'", 's = s + 1', 'return s'])
    files = {'tail.bare': f'arrayIndexOf(arrayNewSize({c.draw(9)}, 1), ff2)\nfunction ff2(x):\n    systemLog(x)\n    return false\nendfunction\n'
                          f'arrayIndexOf(arrayNewSize({c.draw(9)}, 1), ff2)'}
    c.sample(text)
    sweep(c, parse_script(text), {}, Setup(files), text + repr(files), most=10)


def sections(tier):
    return [
        Enum('data expressions that call themselves', recursion_items, recursion_check, complete=False),
        Enum('call paths', use_items, use_check),
        Enum('growing tables', growing_items, growing_check),
        Enum('endless programs', forever_items, forever_check, complete=False),
        Gen('programs', programs, 1800),
        Gen('jump-level programs', jumps, 3000),
        Gen('reused options', reuse, 3000),
        Gen('long runs', long_runs, 120),
    ]
