"""C18: lint is pure, never fails, and what it reports is true."""

import copy
import hashlib
import itertools
import json
import os
import random
import re
import subprocess
import sys

from bare_script import lint_script, parse_script, validate_script

from core import TARGET_SRC, Case, Enum, Gen, HarnessError
from gen import expr as E
from gen import program as P
from gen.libargs import SIGNATURES
from gen.rename import KEEP, odd_names
from harness import ambient, run_target, to_side, user_globals
from ref.interp import BUILTINS
from ref.values import same, show

from checks.c06 import SHIPPED
from checks.c08 import BITS, ModelGen, bit, identical, log, pretty

RULE = ('Every model is linted three times (also as a deep copy, and in processes with other hash seeds) and compared with a deep copy. The '
        'unknown-label and redefinition warnings must be exactly those of an independent scan, and a jump put in front of each scope must '
        'raise "Unknown jump label" exactly for the labels warned of. Every reported unused variable, argument, label and pointless '
        'statement is renamed or deleted, alone, and all together until nothing more is reported; the original and the edited model must '
        'end alike (value, error, log, globals) under several bit lists and for direct calls of every function. '
        'Every variable, label, argument and function used in exactly one place of exactly one statement kind is enumerated. '
        'Non-trivial: at least one '
        'warning was acted upon or a label/redefinition warning was due; distinct by model.')
ASSUMPTIONS = ['Functions defined within functions (only hand-built models have them) are not inspected by lint: open finding nested-functions.',
               'Runs that reach the statement limit are not compared (an edit changes the statement count).']
KNOWN = {'nested-functions': 'lint_script does not inspect a function statement within a function body (hand-built models only): a jump there to a '
                             'label that its function does not define raises "Unknown jump label" and was not warned of'}

LIMIT = 300


# -- reading the warnings -----------------------------------------------------------------

FORMS = [
    ('redefined function', re.compile(r'Redefinition of function "(.*)" \(index (\d+)\)', re.S)),
    ('redefined global label', re.compile(r'Redefinition of global label "(.*)" \(index (\d+)\)', re.S)),
    ('redefined label', re.compile(r'Redefinition of label "(.*)" in function "(.*)" \(index (\d+)\)', re.S)),
    ('duplicate argument', re.compile(r'Duplicate argument "(.*)" of function "(.*)" \(index (\d+)\)', re.S)),
    ('unknown global label', re.compile(r'Unknown global label "(.*)" \(index (\d+)\)', re.S)),
    ('unknown label', re.compile(r'Unknown label "(.*)" in function "(.*)" \(index (\d+)\)', re.S)),
    ('unused global label', re.compile(r'Unused global label "(.*)" \(index (\d+)\)', re.S)),
    ('unused label', re.compile(r'Unused label "(.*)" in function "(.*)" \(index (\d+)\)', re.S)),
    ('unused variable', re.compile(r'Unused variable "(.*)" defined in function "(.*)" \(index (\d+)\)', re.S)),
    ('unused argument', re.compile(r'Unused argument "(.*)" of function "(.*)" \(index (\d+)\)', re.S)),
    ('pointless global', re.compile(r'Pointless global statement \(index (\d+)\)', re.S)),
    ('pointless', re.compile(r'Pointless statement in function "(.*)" \(index (\d+)\)', re.S)),
]


def read(warnings):
    """[(form, names, index)]; other warnings are not part of the property."""
    out = []
    for text in warnings:
        for form, regex in FORMS:
            m = regex.fullmatch(text)
            if m:
                out.append((form, m.groups()[:-1], int(m.groups()[-1])))
                break
    return out


def lint(c, model):
    """The warnings: no failure, no change of the model, the same again."""
    before = copy.deepcopy(model)
    with c.inspect('lint_script'):
        got = lint_script(model)
    if not isinstance(got, list) or not all(isinstance(w, str) for w in got):
        c.fail(f'lint_script returned {got!r}\n{pretty(model)}')
    if not identical(model, before):
        c.fail(f'lint_script modified the model\n  before {pretty(before)}\n  after {pretty(model)}')
    kept = list(got)
    got.append('changed by the caller')
    for what, m in (('again', model), ('of a deep copy', before)):
        again = lint_script(m)
        if again != kept:
            c.fail(f'lint {what}: {again}, expected {kept}\n{pretty(model)}')
    return kept


# -- the independent scan -----------------------------------------------------------------

def repeated(names):
    """{name: number of definitions after the first}"""
    out = {}
    for n in names:
        out[n] = out.get(n, -1) + 1
    return {n: k for n, k in out.items() if k}


def scan(model):
    """{(form, names): (least, most)}: the warnings that are due, and how many of each."""
    due = {}

    def add(form, names, least, most):
        a, b = due.get((form, names), (0, 0))
        due[form, names] = (a + least, b + most)

    def labels(statements, suffix, unknown, redefined):
        defined = [s['label'] for s in statements if 'label' in s]
        targets = [s['jump']['label'] for s in statements if 'jump' in s]
        for name, k in repeated(defined).items():
            add(redefined, (name,) + suffix, 1, k)
        for name in set(targets) - set(defined):
            add(unknown, (name,) + suffix, 1, 1)
    top = model['statements']
    labels(top, (), 'unknown global label', 'redefined global label')
    functions = [s['function'] for s in top if 'function' in s]
    for name, k in repeated(f['name'] for f in functions).items():
        add('redefined function', (name,), 1, k)
    for f in functions:
        labels(f['statements'], (f['name'],), 'unknown label', 'redefined label')
        for name, k in repeated(f.get('args') or ()).items():
            add('duplicate argument', (name, f['name']), 1, k)
    return due


EXACT = {'redefined function', 'redefined global label', 'redefined label', 'duplicate argument', 'unknown global label', 'unknown label'}


def exact(c, model, found, warnings):
    due = scan(model)
    got = {}
    for form, names, _ in found:
        if form in EXACT:
            got[form, names] = got.get((form, names), 0) + 1
    for key in sorted(set(due) | set(got)):
        least, most = due.get(key, (0, 0))
        if not least <= got.get(key, 0) <= most:
            want = f'{least}' if least == most else f'{least} to {most}'
            c.fail(f'{got.get(key, 0)} warning(s) of {key[0]} {key[1]}, expected {want}\n{warnings}\n{pretty(model)}')
    return due


def raises_unknown(c, statements, label, function=None):
    """Does a jump to the label, put in front of the scope, raise "Unknown jump label"?"""
    jump = {'jump': {'label': label}}
    if function is None:
        model, limit = {'statements': [jump] + statements}, 1
    else:
        fn = {**function, 'statements': [jump] + statements}
        model, limit = {'statements': [{'function': fn}, {'expr': {'expr': E.call(function['name'])}}]}, 3
    run = run_target(model, {BITS: []}, max_statements=limit)
    if run.kind != 'runtime':
        return False
    if 'nknown jump label' in run.message:
        if f'"{label}"' not in run.message:
            c.fail(f'{run.message!r} does not name {label!r}')
        return True
    return False


def label_meaning(c, model, found):
    """The warned labels are those whose jump raises."""
    top = model['statements']
    warned = {(form, names) for form, names, _ in found}
    scopes = [(top, None)]
    names = [s['function']['name'] for s in top if 'function' in s]
    for s in top:
        if 'function' in s and names.count(s['function']['name']) == 1:
            scopes.append((s['function']['statements'], s['function']))
    for statements, function in scopes:
        for label in sorted({s['jump']['label'] for s in statements if 'jump' in s}):
            key = ('unknown global label', (label,)) if function is None else ('unknown label', (label, function['name']))
            does = raises_unknown(c, statements, label, function)
            if does != (key in warned):
                c.fail(f'a jump to {label!r} in {function["name"] if function else "the script"} '
                       f'{"raises" if does else "does not raise"} "Unknown jump label", the warnings are {found}\n{pretty(model)}')


# -- edits ------------------------------------------------------------------------------

FRESH = 'zzRenamed'


class NoEdit(Exception):
    """The warning cannot be acted upon."""


def function_at(model, name, has):
    """The one function of that name to which the report can refer."""
    found = [k for k, s in enumerate(model['statements']) if 'function' in s and s['function']['name'] == name and has(s['function'])]
    return found


def edit(model, item):
    """The models that result from acting upon one warning ([] if it refers to nothing unambiguous)."""
    form, names, index = item
    top = model['statements']
    if form in ('unused global label', 'pointless global'):
        if index >= len(top) or ('label' if form == 'unused global label' else 'expr') not in top[index]:
            raise NoEdit()
        if form == 'unused global label' and top[index]['label'] != names[0]:
            raise NoEdit()
        return {**model, 'statements': top[:index] + top[index + 1:]}

    def replace(k, fn):
        return {**model, 'statements': top[:k] + [{'function': fn}] + top[k + 1:]}
    if form == 'unused label':
        at = function_at(model, names[1], lambda f: index < len(f['statements']) and f['statements'][index].get('label') == names[0])
    elif form == 'pointless':
        at = function_at(model, names[0], lambda f: index < len(f['statements']) and 'expr' in f['statements'][index] and
                         'name' not in f['statements'][index]['expr'])
    elif form == 'unused variable':
        at = function_at(model, names[1], lambda f: index < len(f['statements']) and f['statements'][index].get('expr', {}).get('name') == names[0])
    else:
        at = [k for k in function_at(model, names[1], lambda f: names[0] in (f.get('args') or ())) if k == index]
    if not at:
        raise NoEdit()
    if len(at) > 1:
        return None
    fn = top[at[0]]['function']
    st = fn['statements']
    if form in ('unused label', 'pointless'):
        return replace(at[0], {**fn, 'statements': st[:index] + st[index + 1:]})
    if form == 'unused variable':
        return replace(at[0], {**fn, 'statements': [
            {'expr': {**s['expr'], 'name': f'{FRESH}{names[0]}'}} if s.get('expr', {}).get('name') == names[0] else s for s in st]})
    return replace(at[0], {**fn, 'args': [f'{FRESH}Arg{a}' if a == names[0] else a for a in fn['args']]})


ACTIONS = {'unused global label', 'unused label', 'unused variable', 'unused argument', 'pointless global', 'pointless'}


def drivers(model):
    """Models that call each function definition of the model."""
    top = model['statements']
    functions = [s for s in top if 'function' in s]
    for s in functions:
        name = s['function']['name']
        for args in ((), (E.num(1), E.string('s'), E.var('g0'), bit()), (E.var('null'), E.var('true'))):
            yield {'statements': functions + [s, {'return': {'expr': E.call(name, *args)}}]}


def fetch_include(_request):
    return "systemLog('included')\ninc = 1\ninclude 'more.bare'\n" if 'inc' in _request['url'] else "more = inc\n"


def observe(model, globals_):
    around = ambient(show(globals_))
    run = run_target(model, to_side(globals_, 'target'), max_statements=LIMIT, fetchFn=fetch_include, debug=around['debug'], nested='nested' in around)
    if run.kind == 'runtime' and run.message.startswith('Exceeded'):
        return None
    return run


def differ(a, b):
    if a.nested is not None or b.nested is not None:
        return 'a script that the log function ran went wrong'
    if (a.kind, a.message) != (b.kind, b.message):
        return f'ended {b.kind} ({b.message}), the original {a.kind} ({a.message})'
    if a.log != b.log:
        return f'logged {b.log}, the original {a.log}'
    if a.kind == 'ok' and not alike(a.value, b.value):
        return f'returned {show(b.value)}, the original {show(a.value)}'
    x, y = user_globals(a.globals, True), user_globals(b.globals, True)
    if list(sorted(x)) != list(sorted(y)):
        return f'globals {sorted(y)}, the original {sorted(x)}'
    for k in sorted(x):
        if not alike(x[k], y[k]):
            return f'global {k} = {show(y[k])}, the original {show(x[k])}'
    return None


def alike(a, b):
    return same(a, b)


def act(c, model, found, globals_list, direct=True):
    """Act upon every warning, alone and together; nothing observable may change."""
    todo = [w for w in found if w[0] in ACTIONS]
    if not todo:
        return 0
    plans = []
    for w in todo:
        try:
            edited = edit(model, w)
        except NoEdit:
            c.fail(f'the warning {w} refers to nothing of that kind\n{pretty(model)}')
        if edited is not None:
            plans.append((f'{w[0]} {w[1]} (index {w[2]})', edited))
            c.tag('acted: ' + w[0])
    # together, until nothing is reported
    current, rounds, names = model, 0, []
    while rounds < 60:
        rest = [w for w in read(lint_script(current)) if w[0] in ACTIONS and not any(n.startswith(FRESH) for n in w[1][:1])]
        step = None
        for w in rest:
            try:
                step = edit(current, w)
            except NoEdit:
                c.fail(f'the warning {w} refers to nothing of that kind\n{pretty(current)}')
            if step is not None:
                names.append(w)
                break
        if step is None:
            break
        current = step
        rounds += 1
    if rounds > 1:
        plans.append((f'all of {names}', current))
    first = [observe(model, g) for g in globals_list]
    pairs = list(zip(drivers(model), range(99))) if direct else []
    calls = [observe(d, globals_list[k % len(globals_list)]) for d, k in pairs]
    for what, edited in plans:
        for g, a in zip(globals_list, first):
            b = observe(edited, g) if a is not None else None
            msg = differ(a, b) if a is not None and b is not None else None
            if msg:
                c.fail(f'acting upon: {what}\n{msg}\n# original\n{pretty(model)}\n# edited\n{pretty(edited)}\n# globals {show(g)}')
        for (d, k), a in zip(zip(drivers(edited), range(99)), calls):
            g = globals_list[k % len(globals_list)]
            b = observe(d, g) if a is not None else None
            msg = differ(a, b) if a is not None and b is not None else None
            if msg:
                c.fail(f'acting upon: {what}\n{msg}\n# edited, called directly\n{pretty(d)}\n# globals {show(g)}')
    return len(plans)


def examine(c, model, globals_list, direct=True, key=None):
    """All of the property for one model."""
    warnings = lint(c, model)
    found = read(warnings)
    due = exact(c, model, found, warnings)
    label_meaning(c, model, found)
    n = act(c, model, found, globals_list, direct)
    for g in globals_list:
        run = run_target(model, to_side(g, 'target'), max_statements=LIMIT, fetchFn=fetch_include)
        if run.kind == 'runtime' and 'nknown jump label' in run.message:
            c.tag('run raised Unknown jump label')
            label = re.search(r'"(.*)"', run.message, re.S).group(1)
            if not any(form in ('unknown global label', 'unknown label') and names[0] == label for form, names, _ in found):
                c.fail(f'{run.message} without a warning: {warnings}\n{pretty(model)}')
    if lint_script(model) != warnings:
        c.fail(f'after runs: {lint_script(model)}, expected {warnings}\n{pretty(model)}')
    if n or due:
        c.nontrivial(key or pretty(model))
    for form, _ in due:
        c.tag('due: ' + form)
    return found


def bits_list(c):
    return [{BITS: [bool(c.draw(2)) for _ in range(c.draw(24))], 'g0': c.pick([0.0, None, 's', True]), 'g1': [1.0, 2.0], 'arr': []} for _ in range(2)]


# -- random jump-level models -------------------------------------------------------------

CONSTANTS = [E.var('false'), E.var('true'), E.var('null'), {'number': 0}, {'number': 1.0}, E.string(''), E.string('x'), E.group(E.var('false')),
             E.unary('!', E.var('true')), E.unary('!', E.group(E.var('false')))]


class Flat(ModelGen):
    """Models without nested functions, with what lint reports on."""
    LABELS = ['a', 'b', 'c', 'L d', '', '__bareScriptDone0', 'in', 'say "x"', 'fn0', ' a', 'a ', '\ta', 'A', '\xe4', '_', 'a' * 60, 'true']
    nest = False

    def stmts(self, scope, n, labels, level):
        c = self.c
        out = super().stmts(scope, n, labels, level if self.nest or not level else 5)
        fn = level > 0
        for _ in range(c.draw(4)):
            k = c.draw(8)
            if k == 0:
                st = {'expr': {'expr': self.pure(scope, 2)}}
            elif k == 1:
                st = {'label': c.pick(['unused1', 'unused2', c.pick(labels)])}
            elif k == 2 and fn:
                st = {'expr': {'name': c.pick(['u0', 'u1', 'l0', 'p0', 'zz']), 'expr': self.expr(scope)}}
            elif k == 3 and fn:
                st = {'expr': {'name': 'u0', 'expr': E.var(c.pick(['systemLog', 'fn0', 'arrayNew']))}}
            elif k == 4 and fn:
                st = {'expr': {'expr': E.call('u0', E.string('called'))}}
            elif k == 5:
                st = {'include': {'includes': [{'url': c.pick(['inc.bare', 'inc2.bare', 'other.bare'])}]}}
            elif k == 6:
                st = {'expr': {'expr': self.expr(scope, 3)}}
            else:
                st = {'jump': {'label': c.pick(labels + ['nowhere', 'a ', '_x']), 'expr': bit() if c.draw(3) else c.pick(CONSTANTS)}}
            out.insert(c.draw(len(out) + 1), st)
        return out

    def pure(self, scope, depth):
        c = self.c
        k = c.draw(6) if depth else c.draw(3)
        if k <= 1:
            return E.var(c.pick(scope))
        if k == 2:
            return c.pick([{'number': 1.0}, E.string('s'), {'number': 3}])
        if k == 3:
            return E.unary(c.pick('!-'), self.pure(scope, depth - 1))
        if k == 4:
            return E.group(self.pure(scope, depth - 1))
        return E.binary(c.pick(['+', '/', '**', '%', '&&', '||', '<']), self.pure(scope, depth - 1), self.pure(scope, depth - 1))

    def function(self, level):
        c = self.c
        st = super().function(level)
        fn = st['function']
        if fn.get('args') and c.draw(3) == 0:
            args = fn['args']
            args.insert(c.draw(len(args) + 1), c.pick(args + ['extra', 'g0', 'systemLog', 'fn0']))
        if c.draw(8) == 7 and 'name' in fn:
            fn['name'] = c.pick(['g0', 'arrayNew', 'u0', 'y "z"', 'fn0', 'fn1'])
        return st


def flat_model(c, nest=False):
    gen = Flat(c)
    gen.nest = nest
    labels = [c.pick(gen.LABELS) for _ in range(1 + c.draw(3))]
    stmts = []
    for _ in range(c.draw(4)):
        if c.draw(2):
            stmts.append(gen.function(0))
    stmts += gen.stmts(['g0', 'g1', 'g2', 'arr'], c.draw(14), labels, 0)
    if c.draw(2):
        for lab in dict.fromkeys(labels):
            stmts.insert(c.draw(len(stmts) + 1), {'label': lab})
    return {'statements': stmts}


def has_nested(model):
    return any('function' in st for s in model['statements'] if 'function' in s for st in s['function']['statements'])


def jump_models(c):
    model = flat_model(c)
    globals_list = bits_list(c)
    c.sample(pretty(model))
    try:
        validate_script(copy.deepcopy(model))
    except Exception as exc:  # pylint: disable=broad-exception-caught
        raise HarnessError(f'the generated model is not schema-valid: {exc}') from exc
    examine(c, model, globals_list)


def nested_models(c):
    """Functions within functions: pure and sound; that nothing within them is reported is the open finding."""
    model = flat_model(c, nest=True)
    c.sample(pretty(model))
    if not has_nested(model):
        return
    warnings = lint(c, model)
    found = read(warnings)
    act(c, model, found, bits_list(c))
    missing = None

    def inner(statements, function):
        nonlocal missing
        for s in statements:
            if 'function' in s:
                fn = s['function']
                defined = {t['label'] for t in fn['statements'] if 'label' in t}
                for t in fn['statements']:
                    if function is not None and 'jump' in t and t['jump']['label'] not in defined \
                            and not any(f == 'unknown label' and n == (t['jump']['label'], fn['name']) for f, n, _ in found):
                        missing = (fn, t['jump']['label'])
                inner(fn['statements'], fn)
    inner(model['statements'], None)
    if missing:
        fn, label = missing
        if not raises_unknown(c, fn['statements'], label, fn):
            c.fail(f'no "Unknown jump label" for {label} in {fn["name"]}\n{pretty(model)}')
        c.known('nested-functions')
    c.nontrivial(pretty(model))


# -- structured programs --------------------------------------------------------------------

def structured(c):
    gen = P.ProgramGen(c, max_depth=3, budget=18, max_functions=3, redefine=c.draw(3) == 0)
    rows = []
    labels = []
    in_fn = False
    loose = c.draw(3)
    for ln in P.lines(odd_names(c, gen.program(), 8, KEEP)[0], c):
        row = P.plain_line(ln)
        head = row.strip()
        if c.draw(6) == 5:
            k = c.draw(7)
            lab = c.pick(['u1', 'u2', 'u3'])
            if k <= 1:
                labels.append(lab)
                rows.append(f'{lab}:')
            elif k == 2 and loose == 2:
                labels.append(lab)
                rows.append(f'jumpif (arrayShift(B)) {lab}')
            elif k == 3 and in_fn:
                rows.append(c.pick(['u0', 'u1', 'p0', 'l1']) + ' = ' + c.pick(['1', 'arrayShift(B)', "systemLog('e')", 'g0', 'u0', 'systemLog']))
            elif k == 4:
                rows.append(c.pick(['1', 'g0', "'a' + g1", '(g0)', '!g0', '-(g0 + 1)', 'g0 && g1', "g0 || systemLog('x')", "!systemLog('y')",
                                    "(1 + arrayPush(g1, 2))"]))
            elif k == 5 and in_fn:
                rows.append("u0('called')")
            elif k == 6 and in_fn:
                rows.append('jumpif (u0) u1')
                labels.append('u1')
        rows.append(row)
        in_fn = head.startswith(('function ', 'async function ')) or (in_fn and not head.startswith('endfunction'))
    text = '\n'.join(rows)
    if loose == 2 and c.draw(2):
        text += '\n' + '\n'.join(f'{lab}:' for lab in dict.fromkeys(labels))
    model = parse_script(text)
    if c.draw(3) == 2:
        # the functions once more
        extra = [s for s in model['statements'] if 'function' in s]
        if extra:
            model['statements'].insert(c.draw(len(model['statements']) + 1), copy.deepcopy(c.pick(extra)))
    c.sample(text)
    examine(c, model, bits_list(c))


# -- shipped scripts, as they are and with faults put in ---------------------------------------

def shipped(c):
    name, text = SHIPPED[c.draw(len(SHIPPED))]
    model = parse_script(text)
    scopes = [model['statements']] + [s['function']['statements'] for s in model['statements'] if 'function' in s]
    n = c.draw(4)
    made = []
    for _ in range(n):
        k = c.draw(7)
        scope = scopes[c.draw(len(scopes))]
        at = c.draw(len(scope) + 1)
        if k == 0:
            st = {'label': c.pick(['unused1', 'u2'])}
        elif k == 1:
            st = {'expr': {'expr': c.pick([E.var('x'), E.binary('+', E.num(1), E.var('args')), E.group(E.unary('!', E.var('x')))])}}
        elif k == 2:
            st = {'jump': {'label': 'dangling', 'expr': bit()}}
        elif k == 3 and scope is not model['statements']:
            st = {'expr': {'name': 'neverRead', 'expr': c.pick([E.num(1), E.var('args'), E.call('systemLog', E.string('kept'))])}}
        elif k == 4:
            # one definition twice
            labs = [s for s in scope if 'label' in s]
            st = copy.deepcopy(c.pick(labs)) if labs else {'label': 'u2'}
        elif k == 5:
            fns = [s for s in model['statements'] if 'function' in s]
            st = copy.deepcopy(c.pick(fns)) if fns else {'function': {'name': 'only', 'statements': []}}
            at = min(at, len(model['statements']))
            scope = model['statements']
        else:
            # lose a statement: a use, an assignment, a label, a jump
            if scope:
                gone = scope.pop(min(at, len(scope) - 1))
                made.append(f'lost {pretty({"statements": [gone]})[:60]}')
            continue
        scope.insert(at, st)
        made.append(f'added {pretty({"statements": [st]})[:60]}')
    c.sample(f'{name}: {made}')
    globals_list = bits_list(c)[:1]
    examine(c, model, globals_list, key=name + repr(made))


# -- needles: one use in one place -------------------------------------------------------------

def around(inner, c, depth):
    """An expression that evaluates `inner` somewhere within."""
    e = inner
    for _ in range(depth):
        other = c.pick([E.num(1), E.var('true'), E.var('null'), E.string('o'), E.var('g0')])
        k = c.draw(9)
        e = [lambda: E.binary(c.pick(['+', '==', '<', '*', '**', '%']), e, other),
             lambda: E.binary(c.pick(['+', '==', '<', '-', '/']), other, e),
             lambda: E.binary('&&', E.var('true'), e),
             lambda: E.binary('||', E.var('null'), e),
             lambda: E.binary(c.pick(['&&', '||']), e, other),
             lambda: E.unary(c.pick('!-'), e),
             lambda: E.group(e),
             lambda: E.call('if', *c.pick([(e, other, other), (E.var('true'), e, other), (E.var('false'), other, e)])),
             lambda: E.call(c.pick(['arrayNew', 'systemLog', 'f2', 'arrayNew']), *c.pick([(e,), (other, e), (other, other, e)]))][k]()
    return e


def needles(c):
    """A variable, argument or label with exactly one use somewhere, or none; a statement with one call somewhere."""
    what = c.pick(['variable', 'argument', 'label', 'pointless', 'function name'])
    depth = c.draw(4)
    value = c.pick([E.num(5), E.var('true'), E.string('val'), E.call('arrayNew', E.num(1)), E.var('g0')])
    body = [log(E.string('start'))]
    fn = {'name': 'ff', 'args': ['p', 'q'], 'statements': body}
    if what == 'variable':
        n = c.pick(['v', 'q', 'g0', 'ff', 'systemLog', 'B2'])
        place = c.draw(9)
        use = around(E.var(n), c, depth)
        body.append({'expr': {'name': n, 'expr': value}})
        if place == 0:
            body.append({'return': {'expr': use}})
        elif place == 1:
            body += [{'jump': {'label': 'end', 'expr': use}}, log(E.string('no jump')), {'label': 'end'}]
        elif place == 2:
            body.append(log(use))
        elif place == 3:
            body += [{'expr': {'name': 'w', 'expr': use}}, {'return': {'expr': E.var('w')}}]
        elif place == 4:
            body += [{'expr': {'name': n, 'expr': use}}]
        elif place == 5:
            body.insert(1, {'jump': {'label': 'end', 'expr': around(E.binary('==', E.var(n), E.var('null')), c, depth)}})
            body += [log(E.string('no jump')), {'label': 'end'}]
        elif place == 6:
            body += [{'expr': {'name': n, 'expr': E.var('hostLog')}}, {'expr': {'expr': around(E.call(n, E.string('via'), E.num(1)), c, depth)}}]
        elif place == 7:
            body += [{'expr': {'expr': use}}]
        # place 8: no use
    elif what == 'function name':
        # a name used only as the function of a call
        n = c.pick(['p', 'v'])
        body += [{'expr': {'name': n, 'expr': E.var('hostLog')}}]
        callee = E.call(n, E.string('via')) if c.draw(2) else {'function': {'name': n}}
        body.append(c.pick([{'expr': {'expr': around(callee, c, depth)}}, {'return': {'expr': around(callee, c, depth)}},
                            {'jump': {'label': 'end', 'expr': around(callee, c, depth)}}]))
        if 'jump' in body[-1]:
            body += [log(E.string('no jump')), {'label': 'end'}]
    elif what == 'argument':
        n = 'q' if c.draw(2) else 'p'
        place = c.draw(5)
        use = around(E.var(n), c, depth)
        if place == 0:
            body.append({'return': {'expr': use}})
        elif place == 1:
            body += [{'jump': {'label': 'end', 'expr': use}}, log(E.string('no jump')), {'label': 'end'}]
        elif place == 2:
            body.append({'expr': {'name': n, 'expr': use}})
            if c.draw(2):
                body.append({'return': {'expr': E.var(n)}})
        elif place == 3:
            body.append(log(use))
        if c.draw(4) == 0:
            fn['lastArgArray'] = True
        if c.draw(4) == 0:
            fn['args'] = c.pick([['p', 'p'], ['q', 'p', 'q'], ['p', 'q', 'p'], ['p']])
    elif what == 'label':
        n = c.pick(['a', 'b'])
        place = c.draw(5)
        jump = {'jump': {'label': n}}
        if c.draw(2):
            jump['jump']['expr'] = around(bit(), c, depth)
        body += [{'label': n}, log(E.string('x'))]
        if place == 0:
            body.insert(1, jump)
            body.insert(2, log(E.string('over')))
        elif place == 1:
            body.append(jump)
        elif place == 2:
            body.insert(c.draw(len(body) + 1), jump)
            body.insert(c.draw(len(body) + 1), {'label': n})
        elif place == 3:
            body += [{'label': 'b' if n == 'a' else 'a'}, jump]
    else:
        side = c.pick([E.call('systemLog', E.string('side')), E.call('arrayPush', E.var('g1'), E.num(9)), E.call('f2', E.num(1)), bit()])
        body.append({'expr': {'expr': around(side if c.draw(4) else value, c, depth)}})
    two = {'name': 'f2', 'args': ['m'], 'statements': [log(E.binary('+', E.string('f2 '), E.var('m'))), {'return': {'expr': E.var('m')}}]}
    stmts = [{'function': two}]
    if c.draw(3):
        stmts += [{'function': fn}, {'expr': {'name': 'r', 'expr': E.call('ff', E.num(1), E.string('b'), E.num(3))}}]
    else:
        # the same statements as the script
        stmts += [{'expr': {'name': 'p', 'expr': E.num(7)}}] + body
    model = {'statements': stmts}
    globals_list = [{BITS: [bool(c.draw(2)) for _ in range(6)], 'g0': c.pick([0.0, 2.0]), 'g1': [1.0], 'hostLog': HOST} for _ in range(2)]
    c.sample(pretty(model))
    c.tag('needle: ' + what)
    examine(c, model, globals_list)


from harness import HostFn  # noqa: E402  pylint: disable=wrong-import-position
HOST = HostFn('hostLog', lambda args, log_fn: (log_fn('host ' + repr(args[:1])), len(args))[1])


# -- all small scopes -----------------------------------------------------------------------------

LAB = [{'label': 'a'}, {'label': 'b'}, {'jump': {'label': 'a'}}, {'jump': {'label': 'b', 'expr': bit()}}, {'jump': {'label': 'a', 'expr': E.var('v')}},
       {'expr': {'name': 'v', 'expr': E.num(1)}}, {'expr': {'expr': E.var('v')}}, {'expr': {'expr': E.call('systemLog', E.string('s'))}},
       {'jump': {'label': 'b', 'expr': E.var('false')}}, {'label': 'a '}]


def small_items(tier):
    n = 4 if tier == 'quick' else 5
    for k in range(1, n):
        yield from itertools.product(range(len(LAB)), repeat=k)
    if tier != 'quick':
        yield from itertools.product(range(len(LAB)), repeat=n)


def small_check(c, item):
    stmts = [LAB[i] for i in item]
    globals_list = [{BITS: [True, False, True]}]
    h = sum((k + 1) * (v + 1) for k, v in enumerate(item))
    for model in ({'statements': stmts},
                  {'statements': [{'function': {'name': 'ff', 'args': ['v', 'w'][:h % 3], 'statements': stmts} if h % 3 else {'name': 'ff', 'statements': stmts}},
                                  {'expr': {'name': 'r', 'expr': E.call('ff', bit())}}, LAB[h % len(LAB)]]}):
        examine(c, model, globals_list)
    c.weight = 2
    c.sample(pretty(model))


# -- a single use, in every place --------------------------------------------------------------------

ONE = {
    'bare': lambda e: e, 'group': E.group, 'not': lambda e: E.unary('!', e), 'minus': lambda e: E.unary('-', e),
    'left': lambda e: E.binary('+', e, E.num(1)), 'right': lambda e: E.binary('==', E.num(1), e), 'and left': lambda e: E.binary('&&', e, E.num(0)),
    'and right': lambda e: E.binary('&&', E.var('true'), e), 'or left': lambda e: E.binary('||', e, E.num(2)),
    'or right': lambda e: E.binary('||', E.var('null'), e), 'argument': lambda e: E.call('arrayNew', e), 'last argument': lambda e: E.call('f2', E.num(1), e),
    'test': lambda e: E.call('if', e, E.num(1)), 'branch': lambda e: E.call('if', E.var('true'), e), 'other': lambda e: E.call('if', E.var('null'), E.num(1), e)
}
ONE_LABELS = ['end', '__bareScriptDone0', '_x', 'L d', 'a ', '']


def one_items(tier):
    chains_ = itertools.chain([()], itertools.product(ONE, repeat=1), itertools.product(ONE, repeat=2))
    for chain in chains_:
        for place in range(7):
            if tier != 'quick' or len(chain) < 2 or (sum(map(len, chain)) + place) % 2 or place == 1:
                yield chain, place


def one_check(c, item):
    chain, place = item
    use = E.var('v')
    for k in chain:
        use = ONE[k](use)
    c.weight = 0
    start = len(''.join(chain)) + place
    for k in range(len(ONE_LABELS) if place == 1 else 1):
        label = ONE_LABELS[(start + k) % len(ONE_LABELS)]
        for role in range(3):
            tail = [{'return': {'expr': use}}] if place == 0 else \
                [{'jump': {'label': label, 'expr': use}}, log(E.string('no jump')), {'label': label}] if place == 1 else \
                [log(use)] if place == 2 else [{'expr': {'expr': use}}] if place == 3 else \
                [{'expr': {'name': 'w', 'expr': use}}, {'return': {'expr': E.var('w')}}] if place == 4 else \
                [{'label': label}, {'jump': {'label': label, 'expr': E.binary('&&', bit(), use)}}] if place == 5 else [{'expr': {'name': 'v', 'expr': use}}]
            define = {'expr': {'name': 'v', 'expr': E.call('systemLog', E.string('def')) if place % 2 else E.num(5)}}
            if role == 2 and place != 1:
                # used before it is set
                body = tail[:1] + [define] + tail[1:]
            else:
                body = ([define] if role else []) + tail
            fn = {'name': 'ff', 'args': ['v', 'z'] if not role else ['z'], 'statements': body}
            two = {'name': 'f2', 'args': ['m', 'n'], 'statements': [{'return': {'expr': E.binary('+', E.var('m'), E.var('n'))}}]}
            stmts = [{'function': two}, {'function': fn}, {'expr': {'name': 'r', 'expr': E.call('ff', E.num(3), E.num(4))}}]
            examine(c, {'statements': stmts}, [{BITS: [True, False]}, {BITS: [], 'v': 's'}])
        c.weight += 3
    c.nontrivial(item)
    c.sample(f'{item}')


# -- combinations of definitions -------------------------------------------------------------------

def defs_items(tier):
    args = [None, ['x'], ['x', 'y'], ['x', 'x'], ['x', 'y', 'x'], ['x', 'x', 'x'], ['y', 'x', 'y', 'x']]
    for names in itertools.chain.from_iterable(itertools.product('fg', repeat=k) for k in (1, 2, 3)):
        for i, a in enumerate(args):
            for b in range(4):
                yield names, i, b


def defs_check(c, item):
    names, i, b = item
    args = [None, ['x'], ['x', 'y'], ['x', 'x'], ['x', 'y', 'x'], ['x', 'x', 'x'], ['y', 'x', 'y', 'x']]
    bodies = [[], [{'return': {'expr': E.var('x')}}], [{'label': 'a'}, {'jump': {'label': 'a', 'expr': bit()}}, {'label': 'a'}],
              [{'jump': {'label': 'a', 'expr': bit()}}, {'expr': {'name': 'x', 'expr': E.call('f', E.var('y'))}}]]
    stmts = []
    for k, n in enumerate(names):
        fn = {'name': n, 'statements': copy.deepcopy(bodies[(b + k) % 4])}
        a = args[(i + 3 * k) % len(args)]
        if a is not None:
            fn['args'] = list(a)
        stmts.append({'function': fn})
    stmts += [{'label': 'a'}, log(E.string('s')), {'expr': {'name': 'r', 'expr': E.call(names[0], E.num(1), E.num(2), E.num(3))}}]
    model = {'statements': stmts}
    c.sample(pretty(model))
    examine(c, model, [{BITS: [True, False]}, {BITS: []}])


# -- calls of functions of every name ----------------------------------------------------------------

CALL_NAMES = sorted(set(SIGNATURES) - {'arrayShift', 'systemLog', 'arrayNew'}) + sorted(set(BUILTINS)) + [
    'stringShow', 'mathSum', 'arrayOf', 'datetimeShow', 'objectOf', 'regexX', 'jsonX', 'numberX', 'systemX', 'dataX', 'schemaX', 'urlX', 'debug', 'print',
    'noop', 'pure', 'test', 'getX', 'isX', 'hasX', 'toX', '_f', 'IF', 'iff', 'F', 'f1', 'fn', 'main', 'e', 'pi2', 'text2', 'lenX']


def call_items(_tier):
    for n in CALL_NAMES:
        for k in range(4):
            yield n, k


def call_check(c, item):
    """A function of the script or of the host that has the name of a library function (or one like it) is no library function."""
    name, k = item
    h = len(name) + ord(name[-1]) + k
    pure = [(), (E.num(1),), (E.var('g0'), E.string('a')), (E.binary('+', E.var('g0'), E.num(1)), E.group(E.var('g1')), E.var('null'))][h % 4]
    call = E.call(name, *pure) if pure or h % 8 < 4 else {'function': {'name': name}}
    wrap = [lambda e: e, E.group, lambda e: E.unary('!', e), lambda e: E.binary('+', E.num(1), e), lambda e: E.binary('&&', e, E.num(0)),
            lambda e: E.binary('||', E.var('null'), E.group(e)), lambda e: E.call('if', E.var('true'), e), lambda e: E.unary('-', E.group(e))]
    body = [{'expr': {'expr': wrap[(h + i) % len(wrap)](call)}} for i in range(3)] + [log(E.string('end'))]
    define = [{'function': {'name': name, 'args': ['m'], 'statements': [log(E.binary('+', E.string('called '), E.var('m'))), {'return': {'expr': E.var('m')}}]}}]
    globals_ = {BITS: [], 'g0': 2.0, 'g1': [1.0]}
    if k == 0:
        stmts = define + body
    elif k == 1:
        stmts = define + [{'function': {'name': 'ff', 'args': ['p'], 'statements': body + [{'return': {'expr': E.var('p')}}]}},
                          {'expr': {'name': 'r', 'expr': E.call('ff', E.num(1))}}]
    elif k == 2:
        # a host function
        globals_[name] = HOST
        stmts = body
    else:
        # an argument
        stmts = [{'function': {'name': 'ff', 'args': [name], 'statements': body}}, {'expr': {'name': 'r', 'expr': E.call('ff', E.var('hostLog'))}}]
        globals_['hostLog'] = HOST
    model = {'statements': stmts}
    c.sample(pretty(model))
    c.nontrivial(item)
    examine(c, model, [globals_])


# -- other processes -----------------------------------------------------------------------------

def corpus(seed, n):
    """A fixed list of models, some built to have many names."""
    out = []
    rng = random.Random(f'c18:{seed}')
    while len(out) < n:
        out.append(flat_model(Case(rng=rng), nest=len(out) % 3 == 2))
    names = [f'n{i}' for i in range(40)]
    rng.shuffle(names)
    body = [{'expr': {'name': x, 'expr': E.num(1)}} for x in names] + [{'label': x} for x in names] + [{'jump': {'label': x + 'z', 'expr': E.var('no')}} for x in names]
    out.append({'statements': [{'function': {'name': 'many', 'args': [x + 'a' for x in names], 'statements': body}}] + body})
    return out


CHILD = r'''
import hashlib, json, sys
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
sys.path.extend(sys.argv[2:])
from bare_script import lint_script
print(json.dumps([lint_script(m) for m in json.load(sys.stdin)]))
'''


def process_items(tier):
    return [(seed, block) for seed in ('0', '1', '2', '424242') for block in range(2 if tier == 'quick' else 10)]


def process_check(c, item):
    seed, block = item
    models = corpus(block, 150)
    paths = [p for p in sys.path if p.endswith('site-packages')]
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    env['PYTHONHASHSEED'] = seed
    run = subprocess.run([sys.executable, '-c', CHILD, TARGET_SRC] + paths, input=json.dumps(models), capture_output=True, text=True, env=env, check=False,
                         timeout=120)
    if run.returncode:
        c.fail(f'PYTHONHASHSEED={seed}: {run.stderr[-1500:]}')
    got = json.loads(run.stdout)
    for model, there in zip(models, got):
        here = lint_script(model)
        if here != there:
            c.fail(f'PYTHONHASHSEED={seed}: {there}, here {here}\n{pretty(model)}')
        if here:
            c.nontrivial(seed + pretty(model))
    c.weight = len(models)
    c.sample(f'PYTHONHASHSEED={seed}, block {block}: {hashlib.sha256(run.stdout.encode()).hexdigest()[:16]}')


# -- very deep and very long models ---------------------------------------------------------------

def big_items(tier):
    # modest depths: every level may take several Python frames
    return [(kind, n) for kind in range(6) for n in ((10, 60, 100) if kind == 1 else (10, 100, 180) if kind < 4 else (10, 100, 250, 2000))]


def big_check(c, item):
    """Long statement lists, long argument lists, deep expressions within what the schema validates."""
    kind, n = item
    e = E.var('x')
    for i in range(n):
        if kind == 0:
            e = E.binary('+', e, E.num(i))
        elif kind == 1:
            e = E.binary('+', E.num(i), E.group(e))
        elif kind == 2:
            e = E.unary('!', e)
        elif kind == 3:
            e = E.call('arrayNew', e)
    if kind <= 3:
        stmts = [{'expr': {'expr': e}}, {'function': {'name': 'f', 'args': ['x'], 'statements': [{'expr': {'expr': e}}, {'return': {'expr': e}}]}}]
    elif kind == 4:
        stmts = [{'label': f'l{i}'} for i in range(n)] + [{'jump': {'label': f'l{i}', 'expr': E.var('no')}} for i in range(0, n, 2)]
        stmts = stmts + [{'function': {'name': 'f', 'statements': stmts}}]
    else:
        stmts = [{'function': {'name': f'f{i % 7}', 'args': [f'a{j % (i + 1)}' for j in range(i % 9 + 1)], 'statements': [{'return': {'expr': E.var('a0')}}]}}
                 for i in range(n)]
    model = {'statements': stmts}
    before = json.dumps(model)
    validate_script(json.loads(before))
    warnings = lint_script(model)
    found = read(warnings)
    exact(c, model, found, warnings)
    if json.dumps(model) != before or lint_script(json.loads(before)) != warnings:
        c.fail(f'{item}: modified or not the same again')
    if n <= 100:
        act(c, model, found[:40] if kind < 4 else [], [{BITS: []}])
    c.nontrivial(item)
    c.sample(f'{item}: {len(warnings)} warnings')


def sections(tier):
    return [
        Enum('small scopes', small_items, small_check),
        Enum('single uses', one_items, one_check),
        Enum('definitions', defs_items, defs_check),
        Enum('calls', call_items, call_check, complete=False),
        Gen('jump models', jump_models, 4000),
        Gen('nested functions', nested_models, 1500),
        Gen('structured', structured, 3000),
        Gen('shipped', shipped, 700),
        Gen('needles', needles, 12000),
        Enum('processes', process_items, process_check),
        Enum('big models', big_items, big_check),
    ]
