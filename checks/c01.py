"""C01: structured control flow runs with its source-level meaning."""

import datetime
import itertools
import re

from bare_script import execute_script, parse_script

from core import Enum, Gen, Reject
from gen import expr as E
from gen import program as P
from gen.rename import FUNCTIONS, VARIABLES, odd_names, rename_globals
from harness import HostFn, ambient, differences, run_ref, run_target, to_side
from ref.values import show

RULE = ('Structured programs (AST rendered to source, parsed and executed by the target) against a big-step interpreter of the '
        'AST. Enumerated: every nesting chain of the 11 construct slots to depth 3 x leaf statement x per-loop jump x '
        'global/function scope x condition bit vectors. Random: nesting to depth 5, up to 3 functions, nine-type initial '
        'globals. '
        'Large programs (arrays to thousands of elements, 1001 iterations, 40 levels, 101 arms), and odd or long variable names in every role. '
        'Non-trivial: at least one loop or if executed with a nested construct; distinct by (program text, globals).')
ASSUMPTIONS = ['In the generated programs loop index variables are not assigned by the loop body and arrayLength and arrayGet keep their meaning '
               "(the two open findings; \"the loop's own names\" has programs of both kinds); values are acyclic; host functions do not throw."]

BITS = 'B'


def hostf(args, log):
    log('host ' + str(len(args)))
    return args[0] if args else None


HOST = HostFn('hostf', hostf)
VALUES = [
    None, True, False, 0.0, 1.0, 3, -2.5, '', 'abc', datetime.datetime(2024, 2, 29, 12, 30), datetime.date(2020, 1, 1), [], [1.0, 'two', None],
    [[1.0], {}], {}, {'a': 1.0, 'b': [2.0]}, re.compile('a+'), HOST
]


TRUTHY = [True, {}, 1.0, 'a', [0.0], {'a': 0.0}, datetime.datetime(2024, 2, 29), re.compile(''), HOST, [None], -1.0, ' ', datetime.date(2020, 1, 1), 0.5, '0', 3]
FALSY = [False, None, 0.0, '', [], 0, -0.0]


def typed(bit, k):
    """A value of the given truth, of a type chosen by k."""
    pool = TRUTHY if bit else FALSY
    return pool[k % len(pool)]


def bits(c, n, zero_in):
    """Condition values: booleans, or values of all types."""
    flags = [bool(c.draw(zero_in)) for _ in range(n)]
    if c.draw(3):
        return [typed(f, c.draw(len(TRUTHY))) for f in flags]
    return flags


def compare(c, stmts, text, globals_, nontrivial=True):
    # The reference first: it decides whether the case is in the domain
    options = ambient(text)
    ref, env = run_ref(stmts, to_side(globals_, 'ref'), debug=options['debug'])
    used = 20000 - env.fuel
    try:
        model = parse_script(text)
    except Exception as exc:  # pylint: disable=broad-exception-caught
        c.fail(f'well-formed program rejected: {type(exc).__name__}: {exc}')
    got = run_target(model, to_side(globals_, 'target'), max_statements=2000 + 30 * used, **options)
    msg = differences(ref, got)
    if msg:
        c.fail(msg)
    c.tag('ends:' + ref.kind)
    return ref, used


# -- enumerated nesting shapes ------------------------------------------------------------

SLOTS = ['if', 'ife:then', 'ife:else', 'ifel:then', 'ifel:elif', 'ifele:then', 'ifele:elif', 'ifele:else', 'while', 'for', 'fori']
LOOPS = ('while', 'for', 'fori')
LEAVES = ['none', 'break', 'continue', 'return', 'ifbreak', 'ifcontinue']


def bit():
    return E.call('arrayShift', E.var(BITS))


def log(text, expr=None):
    return ('expr', E.call('systemLog', E.string(text) if expr is None else E.binary('+', E.string(text), expr)))


def leaf_stmts(leaf):
    if leaf == 'none':
        return [log('leaf')]
    if leaf == 'ifbreak':
        return [log('leaf'), ('if', [(bit(), [('break',)])], None), log('leaf2')]
    if leaf == 'ifcontinue':
        return [log('leaf'), ('if', [(bit(), [('continue',)])], None), log('leaf2')]
    if leaf == 'return':
        return [log('leaf'), ('if', [(bit(), [('return', E.string('R'))])], None)]
    return [log('leaf'), (leaf,)]


def shape(chain, leaf, after, in_fn):
    body = leaf_stmts(leaf)
    level = len(chain)
    for slot, jump in zip(reversed(chain), reversed(after)):
        level -= 1
        d = str(level)
        body = [log('a' + d)] + body + [log('z' + d)]
        kind, _, where = slot.partition(':')
        if kind in LOOPS and jump:
            body = body + [('if', [(bit(), [(jump,)])], None), log('y' + d)]
        if kind == 'while':
            body = [('while', bit(), body)]
        elif kind == 'for':
            body = [('for', 'v' + d, None, E.call('arrayNew', E.num(1), E.num(2)), body + [log('v', E.var('v' + d))])]
        elif kind == 'fori':
            body = [('for', 'v' + d, 'i' + d, E.call('arrayNew', E.string('p'), E.string('q'), E.string('r')),
                     [log('i', E.binary('+', E.var('v' + d), E.var('i' + d)))] + body)]
        else:
            parts = {'then': [log('t' + d)], 'elif': [log('e' + d)], 'else': [log('o' + d)]}
            parts[where or 'then'] = body
            arms = [(bit(), parts['then'])]
            if kind in ('ifel', 'ifele'):
                arms.append((bit(), parts['elif']))
            body = [('if', arms, parts['else'] if kind in ('ife', 'ifele') else None)]
    body = [log('s')] + body + [log('e')]
    if in_fn:
        body = [('function', 'fn', ['p'], False, body + [('return', E.string('end'))]),
                ('assign', 'r', E.call('fn', E.num(1))), ('assign', 'r2', E.call('fn', E.num(2)))]
    return body


def chains(depth):
    for n in range(1, depth + 1):
        yield from itertools.product(SLOTS, repeat=n)


def shapes(tier):
    for chain in chains(3):
        loops = [s.partition(':')[0] in LOOPS for s in chain]
        for leaf in LEAVES:
            if not any(loops) and leaf not in ('none', 'return'):
                continue
            for after in itertools.product(*[(None, 'break', 'continue') if lp else (None,) for lp in loops]):
                yield chain, leaf, after


def lcg_bits(seed, n):
    out = []
    x = (seed * 2654435761 + 12345) & 0xffffffff
    for _ in range(n):
        x = (x * 1103515245 + 12345) & 0x7fffffff
        out.append(bool((x >> 16) % 3))
    return out


def shape_case(c, item, vectors=3):
    chain, leaf, after = item
    c.weight = 0
    seed = sum((i + 1) * SLOTS.index(s) for i, s in enumerate(chain)) * 31 + LEAVES.index(leaf)
    for in_fn in (False, True):
        stmts = shape(chain, leaf, after, in_fn)
        # Blocks before it: the numbers of the generated labels are not always small
        stmts = [('if', [(E.var('false'), [])], None)] * (seed % 3 * (seed % 11)) + stmts
        text = P.text(stmts)
        c.sample(text)
        model = None
        for k in range(vectors):
            vector = lcg_bits(seed * 7 + k * 101 + in_fn, 14 if k else 26)
            if k == 0:
                vector = [True] * 9 + vector[:8]
            if (seed + k) % 3:
                vector = [typed(b, seed * 5 + k + i * 7) for i, b in enumerate(vector)]
            c.weight += 1
            options = ambient(text + str(k))
            try:
                ref, env = run_ref(stmts, to_side({BITS: list(vector)}, 'ref'), debug=options['debug'])
            except Reject:
                continue
            if model is None:
                try:
                    model = parse_script(text)
                except Exception as exc:  # pylint: disable=broad-exception-caught
                    c.fail(f'well-formed program rejected: {type(exc).__name__}: {exc}\n{text}')
            got = run_target(model, to_side({BITS: list(vector)}, 'target'), max_statements=2000 + 30 * (20000 - env.fuel), **options)
            msg = differences(ref, got)
            if msg:
                c.fail(f'{msg}\nB = {show(vector)}\n{text}')
            if len(chain) > 1 and len(ref.log) > 2:
                c.nontrivial(f'{chain}{leaf}{after}{in_fn}{k}')
    for s in chain:
        c.tag('slot:' + s.partition(':')[0])


# -- random programs ----------------------------------------------------------------------

def initial(c):
    g = {BITS: bits(c, c.draw(30), 3)}
    for name in ('g0', 'g1', 'g2', 'g3'):
        if c.draw(5):
            g[name] = c.pick(VALUES)
    if c.draw(4) == 3:
        g['g1'] = g.get('g0')
    return g


def random_program(c):
    gen = P.ProgramGen(c, max_depth=1 + c.draw(5), budget=8 + c.draw(60), redefine=c.draw(3) == 0)
    stmts = gen.program()
    globals_ = initial(c)
    if c.draw(3) == 2:
        stmts, mapping = odd_names(c, stmts)
        globals_ = rename_globals(globals_, mapping)
    text = P.text(stmts, c)
    c.sample(text + '\n# globals: ' + show(globals_))
    for f in P.kinds(stmts):
        c.feature(f)
    ref, used = compare(c, stmts, text, globals_)
    d = P.depth(stmts)
    c.tag(f'depth:{d}')
    c.tag('steps:' + ('0-20' if used < 20 else '20-100' if used < 100 else '100-500' if used < 500 else '500+'))
    c.tag(f'functions:{sum(1 for s in stmts if s[0] == "function")}')
    if d >= 2 and used >= 20:
        c.nontrivial(text + show(globals_))


def loop_program(c):
    """Concentrated on loops: deep loop nests with jumps at every level and logged conditions."""
    gen = P.ProgramGen(c, max_depth=2 + c.draw(4), budget=10 + c.draw(30), max_functions=1)

    def nest(depth, scope, in_loop):
        out = []
        for _ in range(1 + c.draw(2)):
            k = c.draw(5)
            if depth <= 0 or k == 0:
                out.append(gen.log(scope))
                if in_loop and c.draw(3):
                    jump = (c.pick(['continue', 'break']),)
                    out.append(jump if c.draw(4) == 3 else ('if', [(gen.cond(scope), [jump])], None))
            elif k <= 2:
                gen.labels += 1
                cond = E.binary('||', E.call('systemLog', E.string(f'w{gen.labels}')), gen.bit()) if c.draw(2) else gen.bit()
                out.append(('while', cond, nest(depth - 1, scope, True)))
            elif k == 3:
                gen.loops += 1
                idx = f'ki{gen.loops}' if c.draw(2) else None
                var = f'v{c.draw(2)}'
                values = E.call('arrayNew', *[gen.atom(scope) for _ in range(c.draw(4))]) if c.draw(4) else E.var(c.pick(scope))
                out.append(('for', var, idx, values, nest(depth - 1, scope + [var] + ([idx] if idx else []), True)))
            else:
                arms = [(gen.cond(scope), nest(depth - 1, scope, in_loop)) for _ in range(1 + c.draw(3))]
                out.append(('if', arms, nest(depth - 1, scope, in_loop) if c.draw(2) else None))
            if in_loop and c.draw(5) == 4:
                out.append(('if', [(gen.bit(), [(c.pick(['continue', 'break']),)])], None))
        return out

    body = nest(gen.max_depth, ['g0', 'g1', 'g2'], False)
    if P.size(body) > 120:
        raise Reject('too large')
    if c.draw(3) == 2:
        body = [('function', 'fn0', ['g0', 'p'], False, body), ('expr', E.call('fn0', E.var('g1'))), ('assign', 'r', E.call('fn0'))]
    globals_ = initial(c)
    globals_[BITS] = bits(c, 10 + c.draw(40), 4)
    if c.draw(4) == 3:
        body, mapping = odd_names(c, body, 3)
        globals_ = rename_globals(globals_, mapping)
    text = P.text(body, c)
    c.sample(text + '\n# globals: ' + show(globals_))
    for f in P.kinds(body):
        c.feature(f)
    ref, used = compare(c, body, text, globals_)
    c.tag(f'depth:{P.depth(body)}')
    if used >= 20:
        c.nontrivial(text + show(globals_))


def siblings(c):
    """Several constructs in sequence in several scopes: label and temporary names must not clash."""
    gen = P.ProgramGen(c, max_depth=2, budget=60, max_functions=0)
    out = []
    for f in range(c.draw(4)):
        body = []
        for _ in range(1 + c.draw(3)):
            body += gen.stmt(['p0', 'l0', 'g0'], 0, False, True)
        out.append(('function', f'fn{f}', ['p0'], False, body))
        gen.functions.append((f'fn{f}', 1))
        for _ in range(c.draw(3)):
            out += gen.stmt(gen.globals, 0, False, False)
    for _ in range(1 + c.draw(4)):
        out += gen.stmt(gen.globals, 0, False, False)
    globals_ = initial(c)
    if c.draw(3) == 2:
        out, mapping = odd_names(c, out)
        globals_ = rename_globals(globals_, mapping)
    text = P.text(out, c)
    c.sample(text + '\n# globals: ' + show(globals_))
    for f in P.kinds(out):
        c.feature(f)
    _ref, used = compare(c, out, text, globals_)
    if used >= 20:
        c.nontrivial(text + show(globals_))


# -- for: the array is evaluated once ------------------------------------------------------

CHANGES = {
    'none': [],
    'other array': [('assign', 'g0', E.call('arrayNew', E.string('X'), E.string('Y'), E.string('Z')))],
    'not an array': [('assign', 'g0', E.num(7))],
    'push': [('expr', E.call('arrayPush', E.var('g0'), E.string('P')))],
    'shift': [('expr', E.call('arrayShift', E.var('g0')))],
    'set': [('expr', E.call('arraySet', E.var('g0'), E.num(2), E.string('S')))],
    'value': [('assign', 'v', E.string('V'))],
    'same name': [],
    'call': [],
}


def for_items(tier):
    for n in list(range(0, 24)) + [29, 31, 98, 99, 100, 101]:
        for how in CHANGES:
            for source in range(3):
                yield n, how, source


def for_check(c, item):
    n, how, source = item
    c.weight = 0
    values = [E.var('g0'), E.group(E.var('g0')), E.call('hostf', E.var('g0'))][source]
    for in_fn in (False, True):
        for index in (None, 'ix'):
            var = 'g0' if how == 'same name' else 'v'
            body = [log('v', E.var(var))] + ([log('i', E.var(index))] if index else []) + CHANGES[how]
            if how == 'call':
                body.append(('expr', E.call('change')))
            loops = [('for', var, index, values, body), log('end', E.var(var))]
            # A nested loop over the same variable
            loops = [('for', 'u', None, E.call('arrayNew', E.num(1), E.num(2)), [('assign', 'g0', E.call('arrayCopy', E.var('g9')))] + loops)]
            before = [('if', [(E.var('false'), [log('no')])], None)] * n
            stmts = [('function', 'change', [], False, [('assign', 'g0', E.num(1)), ('expr', E.call('arrayPush', E.var('g9'), E.num(5)))])]
            if in_fn:
                stmts += [('function', 'fn', ['g0'], False, before + loops + [('return', E.var('g0'))]), ('assign', 'r', E.call('fn', E.var('g9')))]
            else:
                stmts += before + loops
            c.weight += 1
            compare(c, stmts, P.text(stmts), {'g9': ['a', 'b', 'c', 'd'], 'hostf': HOST})
            c.nontrivial(f'{item}{in_fn}{index}')
    c.tag('for ' + how)


# -- names --------------------------------------------------------------------------------

def name_items(tier):
    for name in VARIABLES:
        yield name, 0
    for name in FUNCTIONS:
        yield name, 1


def name_check(c, item):
    name, kind = item
    x = name if not kind else 'xx'
    fn = name if kind else 'fn'
    body = [
        ('assign', x, E.binary('+', E.var(x), E.num(1))), log('x', E.var(x)),
        ('if', [(E.binary('>', E.var(x), E.num(3)), [log('big')])], [log('small')]),
        ('for', x, 'ix', E.call('arrayNew', E.var(x), E.num(2)), [log('f', E.var(x)), ('if', [(E.var('ix'), [('continue',)])], None), log('g')]),
        ('for', 'vv', x, E.call('arrayNew', E.num(5), E.num(6)), [log('h', E.var(x))]),
        ('while', E.binary('<', E.var(x), E.num(4)), [('assign', x, E.binary('+', E.var(x), E.num(1)))]),
        ('if', [(E.var('stop'), [('return', None)])], None),
        ('if', [(E.call('arrayShift', E.var(BITS)), [('return', E.group(E.var(x)))])], None),
    ]
    stmts = [('function', fn, [x, 'other'], False, body), ('function', 'gg', ['other', x], True, [('return', E.var(x))])]
    stmts += [('assign', 'r1', E.call(fn, E.num(1))), ('assign', 'r2', E.call(fn, E.num(9), E.var(x))), ('assign', 'r3', E.call('gg', E.num(1), E.num(2), E.num(3)))]
    stmts += [('assign', 'stop', E.var('true')), ('assign', 'r4', E.call(fn, E.num(2))), ('assign', 'r5', E.call('gg'))] + body[:6]
    for start in (2.5, None):
        compare(c, stmts, P.text(stmts), {x: start, BITS: [True, False, True]} if start is not None else {BITS: [False, True, True]})
    c.nontrivial(repr(item))
    c.tag(('variable', 'function')[kind] + ' name')


# -- large programs -----------------------------------------------------------------------

def large_items(tier):
    for n in (8, 12, 20, 40):
        for kind in range(len(SLOTS) + 1):
            for leaf in ('none', 'break', 'continue', 'return'):
                yield 'deep', n, kind, leaf
    for n in (9, 11, 26, 40, 101):
        for k in (0, 1, 8, 9, 10, 25, n - 2, n - 1, n, n + 1):
            yield 'arms', n, k, None
    for n in (10, 100, 257, 1001):
        for how in range(4):
            yield 'iterations', n, how, None
    for n in (10, 33, 101):
        for how in range(3):
            yield 'many', n, how, None
    # Two loops, one within the other, with a number of blocks between their heads
    for n in [*range(1, 34), 49, 63, 64, 98, 99, 100, 127, 128, 255, 256]:
        for how in range(16):
            yield 'apart', n, how, ('if', 'while', 'for')[n % 3]


def large_check(c, item):
    kind, n, k, leaf = item
    globals_ = {}
    if kind == 'deep':
        slots = [SLOTS[(k + i) % len(SLOTS)] if k < len(SLOTS) else ('if', 'while', 'ife:else')[i % 3] for i in range(n)]
        if sum(s in ('for', 'fori') for s in slots) > 6:
            slots = [('while' if s in ('for', 'fori') and i > 8 else s) for i, s in enumerate(slots)]
        if leaf in ('break', 'continue') and not any(s in LOOPS for s in slots):
            return
        stmts = shape(slots, leaf, [None] * n, bool(n % 8))
        globals_[BITS] = [True] * (n + 2) + lcg_bits(n + k, 60)
    elif kind == 'arms':
        arms = [(E.binary('==', E.call('hostf', E.var('x')), E.num(i)), [log(f'arm{i}')]) for i in range(n)]
        stmts = [('assign', 'x', E.num(k)), ('if', arms, [log('else')] if n % 2 else None), log('end')]
        globals_['hostf'] = HOST
    elif kind == 'iterations':
        v, i = E.var('v'), E.var('i')
        jumps = [('if', [(E.binary('==', E.binary('%', i, E.num(3)), E.num(1)), [('continue',)])], None),
                 ('if', [(E.binary('>=', i, E.num(n - 7)), [('break',)])], None)]
        body = [jumps[:0], jumps[:1], jumps[1:], jumps][k] + [log('v', E.binary('+', v, i))]
        stmts = [('for', 'v', 'i', E.var('big'), body), log('after'), ('assign', 'n', E.num(0)),
                 ('while', E.binary('<', E.var('n'), E.num(n)), [('assign', 'n', E.binary('+', E.var('n'), E.num(1)))]), log('n', E.var('n'))]
        globals_['big'] = [float(i * 7 % 13) for i in range(n)]
    elif kind == 'apart':
        no = E.var('undefined')
        filler = {'if': ('if', [(no, [log('no')])], None), 'while': ('while', no, [log('no')]), 'for': ('for', 'nv', None, no, [log('no')])}[leaf]

        def loop(which, depth, body):
            v, i, w = f'v{depth}', f'i{depth}', f'w{depth}'
            if which:
                return [('assign', w, E.num(0)), ('while', E.binary('<', E.var(w), E.num(3)), [
                    ('assign', w, E.binary('+', E.var(w), E.num(1))), log(w, E.var(w))] + body)]
            return [('for', v, i if depth and k & 8 else None, E.call('arrayNew', E.num(1), E.string('b'), E.num(3)), [log(v, E.var(v))] + body)]
        inner = loop(k & 1, 1, [('if', [(bit(), [('continue',)])], None), log('tail'), ('if', [(bit(), [('break',)])], None)])
        stmts = loop(k & 2, 0, [filler] * (n - 1) + inner + [('if', [(bit(), [('continue',)])], None), log('out'), ('if', [(bit(), [('break',)])], None)])
        if k & 4:
            stmts = [('function', 'fn', ['p'], False, stmts), ('assign', 'r', E.call('fn', E.num(1)))]
        globals_[BITS] = [False] * 9 + lcg_bits(n + k, 20)
    else:
        stmts = []
        for i in range(n):
            body = [[('while', bit(), [log(f'w{i}')])], [('for', 'v', f'k{i}', E.call('arrayNew', E.num(i), E.num(2)), [log('v', E.var('v'))])],
                    [('if', [(bit(), [log(f't{i}')])], [log(f'o{i}')])]][(i + k) % 3]
            if k < 2:
                stmts.append(('function', f'fn{i}', ['p'], False, body + [('return', E.num(i))]))
            else:
                stmts += body
        if k < 2:
            stmts += [('assign', f'r{i}', E.call(f'fn{i}', E.num(1))) for i in range(n)]
        globals_[BITS] = lcg_bits(n, 2 * n)
    text = P.text(stmts)
    c.sample(text[:400])
    compare(c, stmts, text, globals_)
    c.tag('large ' + kind)
    c.nontrivial(repr(item))


# -- the loop's own names ---------------------------------------------------------------------------

LOOP = "for v in arrayNew('a', 'b'):\n    systemLog(v)\nendfor\nsystemLog('end')"
OWN = [
    # (finding, program, the log of its big-step reading, the log it is known to have instead)
    ('for-index-assigned', "for v, i in arrayNew('a', 'b', 'c'):\n    systemLog(v)\n    i = 5\nendfor", ['a', 'b', 'c'], ['a']),
    ('for-index-assigned', "for v, i in arrayNew('a', 'b', 'c'):\n    systemLog(v + i)\n    i = i + 1\nendfor", ['a0', 'b1', 'c2'], ['a0', 'c2']),
    ('for-index-assigned', "for v, i in arrayNew('a', 'b'):\n    for w, i in arrayNew(1, 2):\n        systemLog(v + w)\n    endfor\nendfor",
     ['a1', 'a2', 'b1', 'b2'], ['a1', 'a2']),
    ('for-helper-redefined', 'function arrayLength(a):\n    return 1\nendfunction\n' + LOOP, ['a', 'b', 'end'], ['a', 'end']),
    ('for-helper-redefined', "function arrayGet(a, i):\n    return 'mine'\nendfunction\n" + LOOP, ['a', 'b', 'end'], ['mine', 'mine', 'end']),
    ('for-helper-redefined', 'arrayLength = 5\n' + LOOP, ['a', 'b', 'end'], ['end']),
    ('for-helper-redefined', 'arrayGet = 5\n' + LOOP, ['a', 'b', 'end'], ['null', 'null', 'end']),
    # Near ones that hold
    (None, "for v, i in arrayNew('a', 'b', 'c'):\n    systemLog(v + i)\n    v = 5\nendfor\nsystemLog(v + i)", ['a0', 'b1', 'c2', None], None),
    (None, "for v, i in arrayNew('a', 'b'):\n    for v, j in arrayNew(1, 2):\n        systemLog(i + '' + v + j)\n    endfor\nendfor",
     ['010', '021', '110', '121'], None),
    (None, "function each(x):\n    for v, i in x:\n        systemLog(v + i)\n    endfor\nendfunction\nfor v, i in arrayNew('a', 'b'):\n    each(arrayNew(v, 'z', 'y'))\nendfor",
     ['a0', 'z1', 'y2', 'b0', 'z1', 'y2'], None),
    (None, "function ff(arrayLength, arrayGet):\n    return arrayLength + arrayGet\nendfunction\nfor v in arrayNew('a', 'b'):\n    systemLog(ff(v, v))\nendfor", ['aa', 'bb'], None),
    (None, "function arraySize(a):\n    return 1\nendfunction\narrayPush = 7\n" + LOOP, ['a', 'b', 'end'], None),
]


def own_items(_tier):
    return range(len(OWN))


def own_check(c, k):
    finding, text, want, broken = OWN[k]
    got = []
    options = {'globals': {}, 'logFn': got.append, 'maxStatements': 1000}
    execute_script(parse_script(text), options)
    c.sample(text)
    c.nontrivial(text)
    if len(got) == len(want) and all(w is None or g == w for g, w in zip(got, want)):
        return
    if finding is not None and got == broken:
        c.known(finding)
        return
    c.fail(f'logged {got}, expected {want}\n{text}')


def sections(tier):
    return [
        Enum("the loop's own names", own_items, own_check, complete=False),
        Enum('nesting shapes', shapes, shape_case),
        Enum('for arrays', for_items, for_check),
        Enum('names', name_items, name_check, complete=False),
        Enum('large programs', large_items, large_check, complete=False),
        Gen('random programs', random_program, 16000),
        Gen('loop nests', loop_program, 16000),
        Gen('sibling constructs', siblings, 6000),
    ]
