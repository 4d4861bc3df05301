"""C07: lowered code is well formed - schema-valid, with intact and unique jump targets."""

import itertools
import re

from bare_script import lint_script, parse_script, validate_script

from core import Enum, Gen, Reject
from gen import expr as E
from gen import program as P
from gen.rename import KEEP, odd_names
from harness import run_target
from checks.c06 import SHIPPED

RULE = ('Every nesting chain of the 11 slots of if/if-else/if-elif/if-elif-else/while/for/for-index to depth 4 with no jump, break, '
        'continue or both at every loop level, at global scope, in a function and in several functions (enumerated), '
        'plus random bushy programs, programs with user labels, and the shipped scripts. Oracle: validate_script, a per-scope '
        'static check of jumps and labels (user labels set aside), no label warning from lint_script, no "Unknown jump label" in a run. '
        'Non-trivial: at least two constructs; distinct by text.')
ASSUMPTIONS = ['User code does not use names with the reserved __bareScript prefix.']

SLOTS = ['if', 'ife:then', 'ife:else', 'ifel:then', 'ifel:elif', 'ifele:then', 'ifele:elif', 'ifele:else', 'while', 'for', 'fori']
LOOPS = ('while', 'for', 'fori')


def scopes_of(model):
    yield 'global', model['statements']
    for st in model['statements']:
        if 'function' in st:
            yield 'function ' + st['function']['name'], st['function']['statements']


def static(c, model, text, user_labels=(), user_jumps=()):
    """Label integrity of every scope."""
    for name, stmts in scopes_of(model):
        defined = {}
        targets = {}
        for st in stmts:
            key, = st
            if key == 'label':
                defined[st['label']] = defined.get(st['label'], 0) + 1
            elif key == 'jump':
                targets[st['jump']['label']] = targets.get(st['jump']['label'], 0) + 1
            elif key == 'function' and stmts is not model['statements']:
                c.fail(f'a function within {name}\n{text}')
        for label in targets:
            if label in user_jumps:
                continue
            if defined.get(label, 0) != 1:
                c.fail(f'{name}: a jump targets {label}, which is defined {defined.get(label, 0)} times there\n{text}\n{stmts}')
        for label in defined:
            if label not in user_labels and label not in targets:
                c.fail(f'{name}: no jump targets the label {label}\n{text}\n{stmts}')


def check(c, text, user_labels=(), user_jumps=(), validate=True, lint=True):
    model = parse_script(text)
    with c.inspect('parse_script'):
        static(c, model, text, user_labels, user_jumps)
    if validate:
        try:
            again = validate_script(model)
        except Exception as exc:  # pylint: disable=broad-exception-caught
            c.fail(f'not schema-valid: {type(exc).__name__}: {exc}\n{text}')
        if again != model:
            c.fail(f'validation altered the model\n{text}\n  {model}\n  {again}')
    if lint:
        for warning in lint_script(model):
            if 'label' in re.sub('"[^"]*"', '', warning).lower():
                if any(f'"{label}"' in warning for label in set(user_labels) | set(user_jumps)):
                    continue
                c.fail(f'lint: {warning}\n{text}')
    return model


def chain_text(chain, jumps, depth=0):
    """Rows of one nesting chain; jumps: per level '', 'b', 'c', 'bc', with every arm of an if reachable."""
    ind = '    ' * depth
    if not chain:
        return [ind + 'x = 1']
    kind, _, where = chain[0].partition(':')
    inner = chain_text(chain[1:], jumps[1:], depth + 1)
    ind2 = ind + '    '
    if kind in LOOPS:
        head = {'while': 'while a:', 'for': 'for v in w:', 'fori': 'for v, ix in w:'}[kind]
        body = list(inner)
        if 'b' in jumps[0]:
            body += [ind2 + 'if a:', ind2 + '    break', ind2 + 'endif']
        if 'c' in jumps[0]:
            body += [ind2 + 'if b:', ind2 + '    continue', ind2 + 'endif']
        if jumps[0] == 'B':
            body.append(ind2 + 'break')
        if jumps[0] == 'C':
            body.append(ind2 + 'continue')
        return [ind + head] + body + [ind + 'end' + head.split(' ', 1)[0]]
    parts = {'then': [ind2 + 'y = 1'], 'elif': [ind2 + 'y = 2'], 'else': [ind2 + 'y = 3']}
    parts[where or 'then'] = inner
    rows = [ind + 'if a:'] + parts['then']
    if kind in ('ifel', 'ifele'):
        rows += [ind + 'elif b:'] + parts['elif']
    if kind in ('ife', 'ifele'):
        rows += [ind + 'else:'] + parts['else']
    return rows + [ind + 'endif']


def chain_items(tier):
    for depth in range(1, 5):
        yield from itertools.product(range(len(SLOTS)), repeat=depth)


def chain_check(c, chain):
    slots = [SLOTS[i] for i in chain]
    options = [('', 'b', 'c', 'bc', 'C', 'B') if s in LOOPS else ('',) for s in slots]
    if len(slots) == 4:
        options = [('', 'b', 'c', 'bc') if s in LOOPS else ('',) for s in slots]
    c.weight = 0
    for k, jumps in enumerate(itertools.product(*options)):
        rows = chain_text(slots, jumps)
        wrapped = ['function one(a, b, w):'] + ['    ' + r for r in rows] + ['endfunction']
        again = ['function two(a, b, w):'] + ['    ' + r for r in rows] + ['endfunction']
        texts = ['\n'.join(rows), '\n'.join(wrapped + rows + again + rows)]
        for text in texts[len(slots) == 4:]:
            c.weight += 1
            check(c, text, validate=k % 7 == 0 and (len(slots) < 4 or sum(chain) % 4 == 0), lint=True)
            c.nontrivial(text)
    c.sample(texts[0])


def pair_items(tier):
    """Two constructs in sequence or an if with constructs in every arm, in every scope arrangement."""
    small = [('if',), ('ife:else',), ('ifele:elif',), ('while',), ('for',), ('fori',), ('while', 'if'), ('if', 'while'), ('for', 'for'), ('ifel:elif', 'for')]
    for a in small:
        for b in small:
            for where in range(6):
                yield a, b, where


def pair_check(c, item):
    a, b, where = item
    ja = tuple('c' if s in LOOPS else '' for s in a)
    jb = tuple('bc' if s in LOOPS else '' for s in b)
    ra, rb = chain_text(a, ja), chain_text(b, jb)
    fn = lambda name, rows: [f'function {name}(a, b, w):'] + ['    ' + r for r in rows] + ['endfunction']
    ind = lambda rows: ['    ' + r for r in rows]
    rows = [
        lambda: ra + rb,
        lambda: fn('one', ra) + fn('two', rb),
        lambda: ra + fn('one', rb) + ra,
        lambda: ['if a:'] + ind(ra) + ['elif b:'] + ind(rb) + ['else:'] + ind(ra) + ['endif'],
        lambda: ['while a:'] + ind(ra) + ['    continue'] + ind(rb) + ['    break', 'endwhile'] + fn('one', rb + ra),
        lambda: ['if a:'] + ind(ra) + ['    function inner(a, b, w):'] + ind(ind(rb)) + ['    endfunction'] + ind(rb) + ['else:'] + ind(rb) + ['endif'],
    ][where]()
    text = '\n'.join(rows)
    check(c, text)
    c.nontrivial(text)
    c.sample(text)


LABELS = ['u1', 'u2', 'done', 'loop0']


def bushy(c):
    """Random programs, deeper than enumerated, with user labels and jumps in a third of them."""
    gen = P.ProgramGen(c, max_depth=c.int(3, 8), budget=c.int(10, 70), max_functions=4, redefine=c.draw(3) == 0)
    rows = [P.plain_line(ln) for ln in P.lines(odd_names(c, gen.program(), 8, KEEP)[0], c)]
    labels = set()
    if c.draw(3) == 2:
        out = []
        for row in rows:
            if c.draw(5) == 4:
                lab = c.pick(LABELS)
                labels.add(lab)
                out.append(c.pick([f'{lab}:', f'jump {lab}', f'jumpif (a) {lab}']))
            out.append(row)
        rows = out
    text = '\n'.join(rows)
    if len(text) > 20000:
        raise Reject('too large')
    c.sample(text)
    model = check(c, text, labels, labels)
    n = sum(1 for r in rows if r.strip().split(' ')[0].rstrip(':') in ('if', 'while', 'for', 'elif'))
    if n >= 2:
        c.nontrivial(text)
    c.tag('constructs:' + ('0-1' if n < 2 else '2-9' if n < 10 else '10+'))
    if not labels:
        bits = [bool(c.draw(2)) for _ in range(c.draw(40))]
        run = run_target(model, {'B': bits, 'g0': [1.0, 2.0], 'g1': 3.0}, max_statements=3000)
        if run.kind == 'runtime' and 'label' in re.sub('"[^"]*"', '', run.message).lower():
            c.fail(f'{run.message}\n{text}')
        c.tag('run:' + run.kind)


def in_block(c):
    """Functions defined inside open blocks: the scopes stay apart."""
    gen = P.ProgramGen(c, max_depth=3, budget=30, max_functions=0)
    rows = []
    opened = []
    for i in range(1 + c.draw(4)):
        head = c.pick(['if a:', 'while a:', 'for v in w:', 'for v, i in w:'])
        rows.append('    ' * len(opened) + head)
        opened.append(head.split(' ')[0])
    body = gen.stmt(['p0', 'g0'], 0, False, True) + gen.stmt(['p0', 'g0'], 0, False, True)
    rows += ['    ' * len(opened) + r for r in ['function ff(p0):'] + ['    ' + P.plain_line(x) for x in P.lines(body, c)] + ['endfunction']]
    for st in (c.pick(['x = 1', 'break', 'continue', 'else:']) for _ in range(c.draw(3))):
        if st in ('break', 'continue') and not any(o != 'if' for o in opened):
            continue
        if st == 'else:' and (opened[-1] != 'if' or 'else' in ''.join(rows[-2:])):
            continue
        rows.append(st)
        if st == 'else:':
            break
    while opened:
        rows.append('    ' * (len(opened) - 1) + 'end' + opened.pop())
        if opened and opened[-1] == 'if' and c.draw(3) == 2:
            rows.append('elif b:')
    text = '\n'.join(rows)
    c.sample(text)
    c.nontrivial(text)
    check(c, text)


def shipped_check(c, ix):
    name, text = SHIPPED[ix]
    check(c, text)
    c.nontrivial(name)
    c.sample(name)


def deep_items(tier):
    for kind in ('if', 'while', 'for', 'elif', 'mix', 'sequence', 'functions'):
        for n in (10, 11, 50, 101, 200):
            yield kind, n


def deep_check(c, item):
    kind, n = item
    rows = []
    if kind == 'elif':
        rows = ['if a:', '    x = 1'] + [r for i in range(n) for r in (f'elif b{i}:', '    while c:', '        continue', '    endwhile')] + ['endif']
    elif kind == 'sequence':
        for i in range(n):
            rows += chain_text((SLOTS[i % len(SLOTS)], SLOTS[(i * 7 + 3) % len(SLOTS)]), ('c', 'bc'))
    elif kind == 'functions':
        for i in range(n):
            rows += [f'function f{i}(a, b, w):'] + chain_text((SLOTS[i % len(SLOTS)], SLOTS[(i * 7 + 3) % len(SLOTS)]), ('c', 'bc')) + ['endfunction']
            rows += chain_text((SLOTS[(i * 5) % len(SLOTS)],), ('c',))
    else:
        heads = {'if': 'if a:', 'while': 'while a:', 'for': 'for v in w:'}
        seq = [heads[kind] if kind != 'mix' else heads[('if', 'while', 'for')[i % 3]] for i in range(n)]
        rows = seq + ['x = 1'] + (['continue'] if kind != 'if' else []) + ['end' + h.split(' ')[0] for h in reversed(seq)]
    text = '\n'.join(rows)
    check(c, text)
    c.nontrivial(item)
    c.sample(f'{kind} {n}')


def sections(tier):
    return [
        Enum('nesting chains', chain_items, chain_check),
        Enum('pairs of constructs', pair_items, pair_check),
        Enum('deep and long', deep_items, deep_check, complete=False),
        Enum('shipped scripts', lambda tier: range(len(SHIPPED)), shipped_check),
        Gen('bushy programs', bushy, 6000),
        Gen('functions in blocks', in_block, 4000),
    ]
