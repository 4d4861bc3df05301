"""C19: the data functions implement their relational meaning; CSV typing round-trips."""

import copy
import datetime
import fractions
import math
import re

import bare_script
from bare_script import BareScriptParserError, BareScriptRuntimeError, execute_script, parse_script

from core import Enum, Gen
from gen import expr as E
from gen import values as V
from harness import LIBRARY, HostFn, call, debug_options, to_side
from ref import data as D
from ref.interp import Env, RefRuntimeError
from ref.values import compare, same, show, text, truthy, vtype

RULE = ('Random tables (<=12 rows, <=5 fields out of colliding and non-identifier names, values of all types with duplicates, nulls, missing '
        'fields, ints and floats, strings with JSON punctuation) through the six data functions - as a script, as a library call and as '
        'the exported Python function - against a relational reference whose expressions are evaluated by the reference interpreter; every '
        'pair of a pool of key values as join key, category and sort key; typed tables written as CSV by an independent writer (quoting, line '
        'ends, null forms, several text arguments) and read back. '
        'Large tables (200 to 3000 rows or fields) are compared with plain-Python results. '
        'Non-trivial: the reference result is neither empty nor the input (filter, '
        'top, join, aggregate: some group has two rows), the CSV has a quoted, null or lookalike cell; distinct by table and arguments.')
ASSUMPTIONS = ['Measure names differ from category names and from each other; sum, average and stddev are of numbers; count of no values is null '
               '(an existing test pins it); an unmatched left row is kept unless the isLeftJoin argument is true (pinned by existing tests).',
               'Sums and means are compared up to rounding.',
               'The first non-null cell of a CSV column of strings is not the text of another type (the reader infers types from it).']

NAMES = ['a', 'b', 'a2', 'a3', 'b2', 'k y', 'g', 'ix', 'len', 'it]s']
EXPORTED = {'dataFilter': 'filter_data', 'dataSort': 'sort_data', 'dataTop': 'top_data', 'dataAggregate': 'aggregate_data', 'dataJoin': 'join_data',
            'dataCalculatedField': 'add_calculated_field'}

UTC = datetime.timezone.utc
DT = datetime.datetime
KEYS = [
    None, True, False, 0, 1, 0.0, -0.0, 1.0, 2, 0.5, 1e16, 10 ** 16, '', '0', '1', '1.0', 'true', 'null', 'a', 'A', '"', '","', 'a","b', '[', '[]', '{}', '[1]',
    '[1,2]', '{"a":1}', ',', 'a,', ',a', '\\', '\\"', 'é', '.0,', '1.0]', '\n', ' a', 'a ', '2024-01-01', '2024-01-01T00:00:00+00:00',
    DT(2024, 1, 1), datetime.date(2024, 1, 1), DT(2024, 1, 1, tzinfo=UTC), DT(2024, 1, 1, 0, 0, 0, 1000), DT(2024, 1, 1, 0, 0, 0, 1), [], [1], [1.0], ['1'], [None],
    [1, 2], [[1], 2], [[1, 2]], ['a', 'b'], ['a,b'], ['a","b'], {}, {'a': 1}, {'a': 1.0}, {'a': '1'}, {'a': None}, {'b': 1}, {'a': 1, 'b': 2}, {'b': 2, 'a': 1},
    {'a,b': 1}, [DT(2024, 1, 1)], ['2024-01-01'], {'a': [1, {'b': 2}]}, [True], [False], [0], V.FN1, V.REGEXES[0], V.REGEXES[1],
]


# -- both sides -----------------------------------------------------------------------------

HOST = HostFn('hostf', lambda args, log: (log('host'), [True, 1.0, None, 'a'][len(args) % 4])[1])
PRELUDE = 'function twice(x):\n    systemLog(\'twice\')\n    return x + x\nendfunction\n'


class Result:
    """What a call gave: a value, or the kind of error."""
    def __init__(self, value=None, error=None, log=()):
        self.value, self.error, self.log = value, error, list(log)


def script_literal(v):
    """Source text of a constant argument."""
    if v is None:
        return 'null'
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, str):
        return E.str_src(v)
    if isinstance(v, (int, float)):
        return E.num_src(v) if v >= 0 else '(-' + E.num_src(-v) + ')'
    raise AssertionError(v)


def target(c, name, args, globals_, how):
    """One call: 'script', 'call' or 'python'; tables and objects by name, constants as literals."""
    log = []
    options = {'globals': dict(globals_), **debug_options(f'{name}{how}{len(args)}{show(args[0]) if args else 0}', log.append)}
    # the library, the script function
    execute_script(parse_script(PRELUDE), options)
    options.pop('statementCount', None)
    try:
        if how == 'script':
            texts = []
            for i, a in enumerate(args):
                if isinstance(a, (list, dict)):
                    options['globals'][f'arg{i}'] = a
                    texts.append(f'arg{i}')
                else:
                    texts.append(script_literal(a))
            value = execute_script(parse_script(f'return {name}({", ".join(texts)})'), options)
        elif how == 'call':
            value = call(name, args, options)
        else:
            fn = getattr(bare_script, EXPORTED[name])
            value = fn(*args, options=options) if name in ('dataFilter', 'dataJoin', 'dataCalculatedField') else fn(*args)
    except BareScriptRuntimeError as exc:
        return Result(error=('runtime', re.findall(r'"([^"]*)"', str(exc))), log=log), options
    except BareScriptParserError:
        return Result(error=('parser', None), log=log), options
    return Result(value, None, log), options


def reference(fn, globals_):
    """Evaluate fn(env) on the reference side."""
    env = Env(globals_)

    def run(locals_):
        env.log.append('twice')
        x = locals_['x']
        return add(x, x)
    from ref.interp import arith

    def add(x, y):
        return arith('+', x, y, env)
    env.globals['twice'] = env.script_function('twice', ['x'], False, run)
    try:
        return Result(fn(env), None, env.log)
    except RefRuntimeError as exc:
        return Result(None, ('runtime', re.findall(r'"([^"]*)"', str(exc))), env.log)


# -- tables and expressions -------------------------------------------------------------------

def names_of(c):
    n = 1 + c.draw(5)
    return [c.pick(NAMES) for _ in range(n)] if c.draw(3) else NAMES[:n]


def key_value(c, few):
    k = c.draw(8)
    if k <= 4 and few:
        return c.pick(few)
    if k <= 6:
        return c.pick(KEYS)
    return V.value(c, 1)


def table(c, names, rows=12, kinds=None):
    """Rows with values of small per-field pools (duplicates) and missing fields."""
    pools = {}
    for n in dict.fromkeys(names):
        k = c.draw(5)
        if k == 0:
            pools[n] = [0, 1, 2.0, 1.0]
        elif k == 1:
            pools[n] = ['a', 'b', 'a,b', '']
        elif k == 2:
            pools[n] = [None, True, 1, 'true', False]
        elif k == 3:
            pools[n] = [c.pick(KEYS) for _ in range(3)]
        else:
            pools[n] = [[1, 2], [1], '[1,2]', {'a': 1}, DT(2024, 1, 1), '2024-01-01']
    out = []
    count = c.draw(rows + 1) if rows != 12 or c.draw(60) < 59 else c.int(20, 140)
    shared = c.draw(12) == 11
    for _ in range(count):
        if shared and out and c.draw(3) == 2:
            # the same row once more
            out.append(c.pick(out))
            continue
        row = {}
        for n in names:
            if c.draw(7) == 6:
                continue
            row[n] = key_value(c, pools[n])
        out.append(row)
    return out


FUNCS = ['len', 'abs', 'upper', 'lower', 'text', 'floor', 'sign', 'trim', 'twice', 'stringLength', 'arrayLength', 'systemBoolean', 'systemType']


def expression(c, names, depth=3):
    k = c.draw(9) if depth else c.draw(4)
    if k <= 1:
        return E.var(c.pick(names))
    if k == 2:
        return c.pick([E.num(1), E.num(2), E.num(0.5), E.string('a'), E.string(''), E.string("it's"), E.var('null'), E.var('true'), E.var('false'), E.num(0)])
    if k == 3:
        return E.var(c.pick(['g', 'h', 'missing', 'a', 'b']))
    if k <= 5:
        return E.binary(c.pick(['==', '!=', '<', '<=', '>', '>=', '+', '-', '*', '/', '%']), expression(c, names, depth - 1), expression(c, names, depth - 1))
    if k == 6:
        return E.binary(c.pick(['&&', '||']), expression(c, names, depth - 1), expression(c, names, depth - 1))
    if k == 7:
        return c.pick([E.unary, lambda _o, e: E.unary('-', e), lambda _o, e: E.group(e)])('!', expression(c, names, depth - 1))
    how = c.draw(8)
    if how == 0:
        return E.call('if', expression(c, names, depth - 1), expression(c, names, depth - 1), expression(c, names, depth - 1))
    if how == 1:
        return E.call(c.pick(['max', 'min']), expression(c, names, depth - 1), expression(c, names, depth - 1))
    if how == 2:
        return E.call('hostf', *[expression(c, names, 0) for _ in range(c.draw(3))])
    if how == 3 and c.draw(12) == 11:
        return E.call('nosuch', expression(c, names, depth - 1))
    if how == 4:
        return E.call('arrayNew', *[expression(c, names, depth - 1) for _ in range(c.draw(3))])
    return E.call(c.pick(FUNCS), expression(c, names, depth - 1))


def key_expression(c, names):
    """Mostly a field or an expression that keeps different keys apart."""
    k = c.draw(6)
    if k <= 3:
        return E.var(c.pick(names))
    if k == 4:
        return E.call('arrayNew', E.var(c.pick(names)), E.var(c.pick(names)))
    return expression(c, names, 2)


def text_of(c, expr):
    return E.render(E.normal(expr), c)


def surroundings(c, names):
    """Globals and the variables argument."""
    globals_ = {'g': c.pick([None, 1.0, 'a', [1.0]]), 'h': c.pick([2.0, 'b', None]), 'hostf': HOST}
    if c.draw(6) == 5:
        globals_['a'] = 'global a'
    variables = None
    if c.draw(3) == 0:
        variables = {n: c.pick([0, 1.0, 'a', None, [1, 2]]) for n in ('g', 'h', c.pick(names)) if c.draw(2)}
    return globals_, variables


class Both:
    """The same tables on both sides, with rows known by their identity."""

    def __init__(self, c, globals_, *tables):
        self.c = c
        memo_t, memo_r = {}, {}
        self.target_globals = to_side(globals_, 'target', memo_t)
        self.ref_globals = to_side(globals_, 'ref', memo_r)
        self.t = [to_side(t, 'target', memo_t) for t in tables]
        self.r = [to_side(t, 'ref', memo_r) for t in tables]
        self.before = [[dict(row) for row in t] if isinstance(t, list) and all(isinstance(x, dict) for x in t) else copy.copy(t) for t in self.r]
        self.where = {id(row): i for t in self.t if isinstance(t, list) for i, row in enumerate(t)}


def outcome(c, got, want, what):
    """The same error, log; True if there is a value to compare."""
    if want.error != got.error:
        c.fail(f'{what}\ngave {got.error or show(got.value)}, expected {want.error or show(want.value)}')
    if want.log != got.log:
        c.fail(f'{what}\nlogged {got.log}, expected {want.log}')
    return want.error is None


def rows_equal(c, got, want, what):
    """The value is the list of these rows."""
    if not isinstance(got, list) or len(got) != len(want):
        c.fail(f'{what}\ngave {show(got)}, expected {show(want)}')
    for i, (a, b) in enumerate(zip(want, got)):
        if not same(a, b):
            c.fail(f'{what}\nrow {i} is {show(b)}, expected {show(a)}\n  all: {show(got)}')


def unchanged(c, both, k, what):
    for i, (a, b) in enumerate(zip(both.before[k], both.t[k])):
        if not same(a, b):
            c.fail(f'{what}\nthe input row {i} became {show(b)}')
    if len(both.before[k]) != len(both.t[k]):
        c.fail(f'{what}\nthe input table has {len(both.t[k])} rows')


def way(c):
    return c.pick(['script', 'call', 'python'])


def args_with(args, variables, c):
    """Trailing nulls may be left out."""
    out = list(args)
    if variables is not None:
        return out + [variables]
    return out + [None] if c.draw(2) else out


# -- filter and calculated field ------------------------------------------------------------------

def filters(c):
    names = names_of(c)
    rows = table(c, names)
    globals_, variables = surroundings(c, names)
    expr = expression(c, names)
    src = text_of(c, expr)
    both = Both(c, globals_, rows, variables)
    how = way(c)
    calculated = c.draw(2) == 1
    name = c.pick(NAMES + ['new', 'c d', ''])
    fn = 'dataCalculatedField' if calculated else 'dataFilter'
    fixed = [both.t[0], name, src] if calculated else [both.t[0], src]
    what = f'{fn}[{how}] {src!r} {name if calculated else ""} variables {show(variables)} globals {show(globals_)}\n  table {show(rows, 1500)}'
    c.sample(what)
    if calculated:
        want = reference(lambda env: D.calculated(env, both.r[0], name, src, both.r[1]), both.ref_globals)
    else:
        want = reference(lambda env: D.filter_rows(env, both.r[0], src, both.r[1]), both.ref_globals)
    got, options = target(c, fn, args_with(fixed, both.t[1], c), both.target_globals, how)
    if outcome(c, got, want, what):
        rows_equal(c, got.value, want.value, what)
        if calculated:
            if rows and any(not same(a.get(name), want.value[0].get(name)) for a in want.value):
                c.nontrivial(what)
        else:
            unchanged(c, both, 0, what)
            if 0 < len(want.value) < len(rows):
                c.nontrivial(what)
            kept = [both.where.get(id(r)) for r in got.value]
            if None not in kept and len(both.where) == len(rows) and kept != sorted(set(kept)):
                c.fail(f'{what}\nkept rows {kept}')
    else:
        c.tag(f'{fn} error')
    for n, v in both.target_globals.items():
        if options['globals'].get(n, c) is not v:
            c.fail(f'{what}\nthe global {n} became {show(options["globals"].get(n))}')
    if variables:
        for n in variables:
            if n not in both.target_globals and n in options['globals']:
                c.fail(f'{what}\nthe variable {n} became a global')
    c.tag(fn + ' ' + how)


# -- sort and top --------------------------------------------------------------------------------

def sorts(c):
    names = names_of(c)
    rows = table(c, names)
    for i, row in enumerate(rows):
        row['ix'] = i
    pool = [n for n in names if n != 'ix'] + ['absent', 'a']
    keys = []
    for _ in range(c.draw(4)):
        n = c.pick(pool)
        keys.append(c.pick([[n], [n, False], [n, True], [n, None], [n, True], [n, 1.0], [n, 0.0]]))
    both = Both(c, {}, rows, keys)
    how = way(c)
    what = f'dataSort[{how}] {keys}\n  table {show(rows, 1500)}'
    c.sample(what)
    want = D.sort_rows(both.r[0], keys)
    got, _ = target(c, 'dataSort', [both.t[0], both.t[1]], {}, how)
    if got.error:
        c.fail(f'{what}\n{got.error}')
    rows_equal(c, got.value, want, what)
    order = [r['ix'] for r in want]
    if keys and order != sorted(order):
        c.nontrivial(what)
    c.tag(f'dataSort {how} {min(len(keys), 2)} keys')


def tops(c):
    names = names_of(c)
    rows = table(c, names)
    for i, row in enumerate(rows):
        row['ix'] = i
    fields = [c.pick([n for n in names if n != 'ix'] + ['absent', 'a']) for _ in range(c.draw(4))]
    if not fields and c.draw(2):
        fields = None
    n = c.int(1, 5)
    if c.draw(8) == 7:
        n = c.pick([100, 1e15, 13])
    both = Both(c, {}, rows, fields)
    how = way(c)
    count = float(n) if c.draw(2) else int(n)
    what = f'dataTop[{how}] {count!r} {fields}\n  table {show(rows, 1500)}'
    c.sample(what)
    want = D.top_rows(both.r[0], int(n), fields)
    args = [both.t[0], count] + ([both.t[1]] if fields is not None or c.draw(2) else [])
    got, _ = target(c, 'dataTop', args, {}, how)
    if got.error:
        c.fail(f'{what}\n{got.error}')
    rows_equal(c, got.value, want, what)
    unchanged(c, both, 0, what)
    if len(want) < len(rows) and want:
        c.nontrivial(what)
    c.tag(f'dataTop {how} {min(len(fields or ()), 2)} fields')


# -- aggregate ------------------------------------------------------------------------------------

FUNCTIONS = ['count', 'sum', 'min', 'max', 'average', 'stddev']


def measure_pool(c):
    k = c.draw(6)
    if k == 0:
        return 'num', [1, 2, 3.5, -1.0, 0, None]
    if k == 1:
        return 'num', [float(c.int(-1000, 1000)) / 8 for _ in range(4)] + [None]
    if k == 2:
        return 'num', [V.number(c) for _ in range(4)]
    if k == 3:
        return 'any', ['a', 'b', 'B', '', '10', '9', None]
    if k == 4:
        return 'any', [DT(2024, 1, 1), datetime.date(2023, 5, 6), DT(2024, 1, 1, tzinfo=UTC), DT(2000, 1, 1), None]
    return 'any', [c.pick(KEYS) for _ in range(4)] + [None, True]


def aggregates(c):
    names = names_of(c)
    rows = table(c, names)
    kinds = {}
    for n in ('m1', 'm 2'):
        kind, pool = measure_pool(c)
        kinds[n] = kind
        for row in rows:
            if c.draw(6):
                row[n] = c.pick(pool)
    categories = list(dict.fromkeys(c.pick([n for n in names] + ['absent', 'a']) for _ in range(c.draw(4))))
    measures = []
    used = set(categories)
    for i in range(1 + c.draw(4)):
        field = c.pick(['m1', 'm 2', 'm1', 'm 2', 'absent2'])
        fn = c.pick(FUNCTIONS if kinds.get(field, 'num') == 'num' else ['count', 'min', 'max'])
        m = {'field': field, 'function': fn}
        name = field
        if field in used or c.draw(2):
            name = m['name'] = f'{fn}({field}) {i}' if c.draw(3) else f'n{i}'
        if name in used:
            continue
        used.add(name)
        measures.append(m)
    if not measures:
        measures = [{'field': 'm1', 'function': 'count', 'name': 'only'}]
    agg = {'measures': measures}
    if categories or c.draw(2):
        if categories:
            agg['categories'] = categories
    both = Both(c, {}, rows, agg)
    how = way(c)
    what = f'dataAggregate[{how}] {agg}\n  table {show(rows, 1500)}'
    c.sample(what)
    want = D.aggregate(both.r[0], categories, measures)
    agg_before = copy.deepcopy(agg)
    got, _ = target(c, 'dataAggregate', [both.t[0], both.t[1]], {}, how)
    if got.error:
        c.fail(f'{what}\n{got.error}')
    value = got.value
    if not isinstance(value, list) or len(value) != len(want):
        c.fail(f'{what}\ngave {show(value)}, expected {len(want)} rows {show([w[0] for w in want])}')
    for i, ((cats, vals), row) in enumerate(zip(want, value)):
        if not isinstance(row, dict) or set(row) != set(cats) | set(vals):
            c.fail(f'{what}\nrow {i} is {show(row)}, expected fields {sorted(set(cats) | set(vals))}')
        for n, v in cats.items():
            if not same(v, row[n]):
                c.fail(f'{what}\nrow {i} has {n} = {show(row[n])}, expected {show(v)}')
        for n, (fn, values) in vals.items():
            check_measure(c, fn, values, row[n], f'{what}\nrow {i}: {n}')
    unchanged(c, both, 0, what)
    if both.t[1] != agg_before:
        c.fail(f'{what}\nthe aggregation model became {both.t[1]}')
    if any(len(v) > 1 for _, vals in want for _, v in vals.values()):
        c.nontrivial(what)
    for m in measures:
        c.tag('measure ' + m['function'])


def check_measure(c, fn, values, got, what):
    if not values or fn in ('count', 'min', 'max'):
        want = D.measure(fn, values)
        if not same(want, got):
            c.fail(f'{what} = {show(got)}, expected {fn} {show(want)} of {show(values)}')
        return
    if vtype(got) != 'number':
        c.fail(f'{what} = {show(got)}, expected the {fn} of {show(values)}')
    exact = [fractions.Fraction(v) for v in values]
    n = len(exact)
    total = sum(exact)
    scale = sum(abs(v) for v in exact)
    try:
        if fn == 'sum':
            want, tol = float(total), float(scale) * 1e-12
        elif fn == 'average':
            want, tol = float(total / n), float(scale) * 1e-12
        else:
            var = sum((v - total / n) ** 2 for v in exact) / n
            want, tol = math.sqrt(var), float(scale) * 1e-7
            spread = float(max(exact) - min(exact))
            # a two-pass computation is exact to rounding relative to the spread unless the values are almost equal
            if spread > 1e-6 * float(scale):
                tol = float(scale) * 1e-9
    except OverflowError:
        c.tag('measure overflow')
        return
    if got != got or abs(got - want) > tol + 1e-300:
        c.fail(f'{what} = {got!r}, expected {fn} {want!r} of {values}')


# -- join --------------------------------------------------------------------------------------------

def joins(c):
    lnames, rnames = names_of(c), names_of(c)
    rows = 7 if c.draw(60) < 59 else 50
    left, right = table(c, lnames, rows), table(c, rnames, rows)
    if c.draw(10) == 9:
        # the same rows on both sides
        right = left
        rnames = lnames
    globals_, variables = surroundings(c, lnames)
    lexpr = key_expression(c, lnames)
    rexpr = key_expression(c, rnames) if c.draw(3) else None
    lsrc, rsrc = text_of(c, lexpr), text_of(c, rexpr) if rexpr is not None else None
    drop = c.pick([None, False, True])
    both = Both(c, globals_, left, right, variables)
    how = way(c)
    what = f'dataJoin[{how}] {lsrc!r} {rsrc!r} {drop} variables {show(variables)} globals {show(globals_)}\n  left {show(left, 900)}\n  right {show(right, 900)}'
    c.sample(what)
    args = [both.t[0], both.t[1], lsrc]
    if rsrc is not None or drop is not None or variables is not None:
        args.append(rsrc)
    if drop is not None or variables is not None:
        args.append(bool(drop))
    if variables is not None:
        args.append(both.t[2])
    # the order in which the two sides are evaluated is not part of the property
    want = reference(lambda env: D.join(env, both.r[0], both.r[1], lsrc, rsrc, bool(drop), both.r[2]), both.ref_globals)
    got, _ = target(c, 'dataJoin', args, both.target_globals, how)
    if sorted(got.log) == sorted(want.log) and want.error is None:
        got.log = want.log
    if want.error is not None and got.error is not None and want.error[0] == got.error[0]:
        c.tag('join error')
        return
    if not outcome(c, got, want, what):
        return
    check_join(c, got.value, want.value, both.before[0], both.before[1], what)
    unchanged(c, both, 0, what)
    unchanged(c, both, 1, what)
    if any(r is not None for _, r in want.value):
        c.nontrivial(what)
    c.tag('dataJoin ' + how)


def check_join(c, got, want, left, right, what):
    """Each pair: the left row as it is plus every right field under a name of its own."""
    if not isinstance(got, list) or len(got) != len(want):
        c.fail(f'{what}\ngave {len(got) if isinstance(got, list) else show(got)} rows, expected {len(want)}: {show(got, 1500)}')
    left_names = {n for row in left for n in row}
    right_names = list(dict.fromkeys(n for row in right for n in row))
    clash = [n for n in right_names if n in left_names]
    # name -> result name, found from the rows
    renamed = {n: {m for row in got for m in row if m not in left_names} for n in clash}
    for i, ((a, b), row) in enumerate(zip(want, got)):
        if not isinstance(row, dict):
            c.fail(f'{what}\nrow {i} is {show(row)}')
        for n, v in a.items():
            if n not in row or not same(v, row[n]):
                c.fail(f'{what}\nrow {i}: the left field {n} is {show(row.get(n))}, expected {show(v)}: {show(row)}')
        extra = set(row) - set(a)
        if extra & left_names:
            c.fail(f'{what}\nrow {i}: {sorted(extra & left_names)} is no field of this left row and names a left field: {show(row)}')
        if len(extra) != (len(b) if b is not None else 0):
            c.fail(f'{what}\nrow {i}: fields {sorted(row)}, expected those of {show(a)} and {len(b) if b else 0} of {show(b)}')
        for n, v in (b or {}).items():
            if n not in left_names:
                if n not in row or not same(v, row[n]):
                    c.fail(f'{what}\nrow {i}: the right field {n} is {show(row.get(n))}, expected {show(v)}: {show(row)}')
            else:
                renamed[n] &= {m for m in extra if same(v, row[m])}
        for n in clash:
            if b is not None and n not in b:
                renamed[n] -= extra
    for n in clash:
        renamed[n] -= {m for m in right_names if m not in left_names}
        renamed[n] = {m for m in renamed[n] if m.startswith(n)}
    if any(b is not None for _, b in want) and not matching(renamed, [n for n in clash if any(b is not None and n in b for _, b in want)]):
        c.fail(f'{what}\nno renaming of the right fields {clash} explains the rows {show(got, 1500)}')


def matching(options, names):
    """Is there an injective choice?"""
    if not names:
        return True
    used = {}

    def place(n, seen):
        for m in sorted(options[n]):
            if m in seen:
                continue
            seen.add(m)
            if m not in used or place(used[m], seen):
                used[m] = n
                return True
        return False
    return all(place(n, set()) for n in names)


# -- all pairs of key values ----------------------------------------------------------------------------

def pair_items(tier):
    n = len(KEYS)
    return [(i, j) for i in range(n) for j in range(n)]


def pair_check(c, item):
    i, j = item
    x, y = to_side(KEYS[i], 'target'), to_side(KEYS[j], 'target')
    rx, ry = to_side(KEYS[i], 'ref'), to_side(KEYS[j], 'ref')
    order = compare(rx, ry)
    eq = order == 0
    what = f'keys {show(x)} and {show(y)}'
    c.sample(what)
    c.nontrivial(item)
    rows = [{'k': x, 'n': 1}, {'k': y, 'n': 2}, {'k': x, 'n': 4}]
    got = call('dataAggregate', [rows, {'categories': ['k'], 'measures': [{'field': 'n', 'function': 'sum'}]}])
    want = [7] if eq else [5, 2]
    with c.inspect(f'dataAggregate of {what}'):
        if [r['n'] for r in got] != want:
            c.fail(f'dataAggregate of {what} gives {show(got)}, expected sums {want}')
        if not same(rx, got[0]['k']) or (not eq and not same(ry, got[1]['k'])):
            c.fail(f'dataAggregate of {what} gives {show(got)}')
    # two categories
    rows = [{'k': x, 'l': y, 'n': 1}, {'k': y, 'l': x, 'n': 2}, {'k': [x, y], 'n': 4}, {'k': [x], 'l': [y], 'n': 8}, {'l': x, 'n': 16}, {'k': x, 'n': 32}]
    refs = [{'k': rx, 'l': ry}, {'k': ry, 'l': rx}, {'k': [rx, ry]}, {'k': [rx], 'l': [ry]}, {'l': rx}, {'k': rx}]
    groups = []
    for n, r in enumerate(refs):
        for g in groups:
            if D.same_category(refs[g[0]], r, ['k', 'l']):
                g.append(n)
                break
        else:
            groups.append([n])
    got = call('dataAggregate', [rows, {'categories': ['k', 'l'], 'measures': [{'field': 'n', 'function': 'sum'}]}])
    with c.inspect(f'dataAggregate by two fields of {what}'):
        if [r['n'] for r in got] != [sum(1 << n for n in g) for g in groups]:
            c.fail(f'dataAggregate by two fields of {what} gives {show(got)}, expected groups {groups}')
    got = call('dataTop', [rows, 1.0, ['k', 'l']])
    with c.inspect(f'dataTop of {what}'):
        if [r['n'] for r in got] != [1 << g[0] for g in groups]:
            c.fail(f'dataTop by two fields of {what} gives {show(got)}, expected the first of {groups}')
    got = call('dataJoin', [[{'k': x, 'n': 1}], [{'q': y, 'm': 2}, {'q': x, 'm': 3}], 'k', 'q'])
    with c.inspect(f'dataJoin of {what}'):
        if [r['m'] for r in got] != ([2, 3] if eq else [3]):
            c.fail(f'dataJoin of {what} gives {show(got)}')
    got = call('dataJoin', [[{'k': x, 'n': 1}], [{'q': y, 'm': 2}], 'k', 'q', True])
    if len(got) != int(eq):
        c.fail(f'dataJoin of {what} gives {show(got)}')
    for desc in (False, True):
        got = call('dataSort', [[{'k': x, 'n': 1}, {'k': y, 'n': 2}], [['k', desc], ['absent']]])
        swap = (order > 0) if not desc else (order < 0)
        with c.inspect(f'dataSort of {what}'):
            if [r['n'] for r in got] != ([2, 1] if swap else [1, 2]):
                c.fail(f'dataSort (descending {desc}) of {what} gives {show(got)}')
    got = call('dataFilter', [[{'k': x}, {'k': y}], 'k == v', {'v': y}])
    if len(got) != (2 if eq else 1):
        c.fail(f'dataFilter of {what} gives {show(got)}')
    got = call('dataFilter', [[{'k': x}, {'k': y}], 'k'])
    if len(got) != truthy(rx) + truthy(ry):
        c.fail(f'dataFilter by the value of {what} gives {show(got)}')
    if order:
        for fn, best in (('min', x if order < 0 else y), ('max', x if order > 0 else y)):
            values = [v for v in (x, y) if v is not None]
            got = call('dataAggregate', [[{'k': x}, {'k': y}], {'measures': [{'field': 'k', 'function': fn}]}])
            want = values[0] if len(values) == 1 else best
            with c.inspect(f'{fn} of {what}'):
                if compare(got[0]['k'], want) and not callable(want):
                    c.fail(f'{fn} of {what} gives {show(got)}')
    c.weight = 10


# -- colliding field names --------------------------------------------------------------------------------

POOL = ['a', 'a2', 'a3', 'a22', 'a1', 'b', '2']


def collide_items(tier):
    n = len(POOL)
    step = 1
    out = [(p, q) for p in range(1, 1 << n, step) for q in range(1, 1 << n, 1 if tier == 'thorough' else 3)]
    # numbered names: the names made for the right fields can be those of other right fields
    for m in range(0, 14):
        for rest in ([], ['x1'], ['x2'], ['x1', 'x2'], ['x12', 'x1'], ['x1', 'x11'], ['x3', 'x33', 'x'], ['x', 'x2', 'x22', 'x222']):
            for order in (0, 1):
                for low in (1, 2):
                    out.append((['x'] + [f'x{i}' for i in range(low, m + 1)], (['x'] + rest)[::-1 if order else 1]))
    return out


def collide_check(c, item):
    p, q = item
    if isinstance(p, list):
        ln, rn = p, list(dict.fromkeys(q))
        p, q = len(p), len(q)
    else:
        ln = [n for i, n in enumerate(POOL) if p >> i & 1]
        rn = [n for i, n in enumerate(POOL) if q >> i & 1]
    # split over rows, so that no single row has all names
    left = [{**{n: f'L{n}' for n in ln[::2]}, 'key': 1}, {**{n: f'M{n}' for n in ln[1::2]}, 'key': 1}]
    right = [{**{n: f'R{n}' for n in rn[::2]}, 'key': 1}, {**{n: f'S{n}' for n in rn}, 'key': 1.0}]
    if (p + q) % 2:
        right.reverse()
    what = f'left {left} right {right}'
    got = call('dataJoin', [copy.deepcopy(left), copy.deepcopy(right), 'key'])
    check_join(c, got, [(a, b) for a in left for b in right], left, right, what)
    if set(ln) & set(rn):
        c.nontrivial(repr(item))
    c.sample(what)


# -- CSV ----------------------------------------------------------------------------------------------------

LOOKALIKES = ['2024-02-30', '2023-02-29', '2024-13-01', '2024-00-10', '2024-01-00', '2024-01-32', '0000-01-01', '2024-04-31', '2024-01-01T25:00:00Z',
              '2024-01-01T00:60:00Z', '2024-01-01T00:00:60Z', '2024-02-30T00:00:00Z', '2024-01-01T00:00:00+24:00', '2024-01-01T00:00:00+12:60',
              '2024-1-1', '24-01-01', '2024-01-01 ', '2024/01/01', '2024-01-01T00:00:00', '2024-01-01T00:00Z', '10000-01-01',
              '2024-01-01T24:00:00Z', '2024-02-30T12:00:00.5-08:00', '9999-12-32']
NUMBERLIKE = ['1_000', '0x10', '1e', '--1', '1,5', '$5', '5%', 'Infinity', 'NaN', 'nan', 'inf', '-', '+', '.', 'e5', '1 2', '(5)', '12abc', '1.2.3']
BOOLLIKE = ['True', 'TRUE', 'False', 'FALSE', 'yes', 'on', ' true', 'truee', 'Null', 'NULL', 'none']
PLAIN = ['a', 'abc', 'hello, world', 'say "hi"', '"', '""', ',', "it's", 'two\nlines', 'cr\r\nlf', 'x\ry', ' lead', 'trail ', '  ', '\t', 'é', '\U0001f600', 'a,b,c',
         '"quoted"', '#c', '\\', '\\"', '=1', 'line\n', '\nline', '\u2028', '\x85', '\x0b', 'a\x0cb', '\x1c', 'null ', 'nul', '{"a":1}', '[1,2]']


def cell(c, s, force=False, single=False):
    """The CSV text of a string."""
    need = any(ch in s for ch in ',"\r\n') or s[:1] == ' ' or (single and s == '')
    if need or force or c.draw(4) == 3:
        return '"' + s.replace('"', '""') + '"'
    return s


def csv_number(c):
    k = c.draw(5)
    if k == 0:
        return c.pick([0, 1, -1, 10, 0.5, -0.25, 1e21, 1e-7, 123456789, 1e15, 1e16, 5e-324, 1.7976931348623157e308, 0.1, 2 ** 53])
    if k <= 2:
        return c.int(-1000, 1000)
    return float(V.number(c))


def csv_moment(c):
    if c.draw(3) == 0:
        return c.pick([DT(2024, 2, 29), DT(1970, 1, 1), DT(2000, 1, 1, 12, 30, 15, 250000), DT(9999, 12, 30, 23, 59, 59, 999000), DT(1, 1, 2), DT(2024, 12, 31, 23, 59, 59)])
    return DT(c.int(1900, 2100), c.int(1, 12), c.int(1, 28), c.draw(24), c.draw(60), c.draw(60), c.draw(1000) * 1000)


def moment_text(c, v):
    """Texts of a datetime (the zone of the check is UTC)."""
    k = c.draw(4)
    midnight = (v.hour, v.minute, v.second, v.microsecond) == (0, 0, 0, 0)
    if midnight and k == 3:
        return f'{v.year:04d}-{v.month:02d}-{v.day:02d}'
    base = f'{v.year:04d}-{v.month:02d}-{v.day:02d}T{v.hour:02d}:{v.minute:02d}:{v.second:02d}'
    ms = v.microsecond // 1000
    frac = f'.{ms:03d}' if ms or k == 1 else ''
    if k == 2 and 1 < v.year < 9999:
        w = v + datetime.timedelta(hours=5, minutes=30)
        return f'{w.year:04d}-{w.month:02d}-{w.day:02d}T{w.hour:02d}:{w.minute:02d}:{w.second:02d}{frac}+05:30'
    return base + frac + c.pick(['Z', '+00:00'])


COLUMNS = ['number', 'boolean', 'datetime', 'string', 'lookalike', 'nulls', 'empty']


def csv_string(c, first):
    k = c.draw(6)
    if k <= 1:
        s = c.pick(PLAIN)
    elif k == 2:
        s = c.pick(LOOKALIKES)
    elif k == 3:
        s = c.pick(NUMBERLIKE + BOOLLIKE)
    elif k == 4 and not first:
        s = c.pick(['5', '1e5', 'true', 'false', '2024-01-01', '2024-02-29T12:00:00Z', '', '0', '-1', ''])
    else:
        s = ''.join(c.pick('ab,"\n 01-') for _ in range(c.draw(8)))
        if first:
            s = 'x' + s
    if s == 'null':
        s = 'nulls'
    return s


def csv_table(c):
    names = list(dict.fromkeys(c.pick(['a', 'b', 'c d', 'e,f', 'g"h', 'i\nj', 'null', '5', 'é', ' k', 'true']) for _ in range(1 + c.draw(5))))
    types = [c.pick(COLUMNS) for _ in names]
    n = c.draw(9) if c.draw(60) < 59 else c.int(20, 200)
    seen = [False] * len(names)
    table_, texts = [], []
    interesting = False
    for _ in range(n):
        row, cells = {}, []
        for i, (name, kind) in enumerate(zip(names, types)):
            single = len(names) == 1
            if kind == 'nulls' or (kind != 'empty' and c.draw(5) == 4):
                v = None
                s = 'null' if kind in ('string', 'lookalike', 'nulls') or single or c.draw(2) else ''
                interesting = True
                row[name] = v
                cells.append(cell(c, s, single=single))
                continue
            if kind == 'empty':
                v = s = ''
            elif kind == 'number':
                v = csv_number(c)
                s = text(float(v)) if c.draw(3) else repr(v)
                if 'e' in s and 'e-' not in s and 'e+' not in s:
                    s = s.replace('e', 'e+')
            elif kind == 'boolean':
                v = bool(c.draw(2))
                s = 'true' if v else 'false'
            elif kind == 'datetime':
                v = csv_moment(c)
                s = moment_text(c, v)
            else:
                s = c.pick(LOOKALIKES) if kind == 'lookalike' else csv_string(c, not seen[i])
                v = s
                interesting = interesting or kind == 'lookalike' or any(ch in s for ch in ',"\r\n')
                if c.draw(6) == 5 and not seen[i]:
                    # an empty string says nothing about the type
                    v = s = ''
            if kind not in ('empty',) and s != '':
                seen[i] = True
            row[name] = v
            cells.append(cell(c, s, single=single))
        table_.append(row)
        texts.append(cells)
    # an all-null column of a typed table that is written as '' reads as strings
    return names, types, table_, texts, interesting


def csv_case(c):
    names, types, want, texts, interesting = csv_table(c)
    for i, (name, kind) in enumerate(zip(names, types)):
        if kind in ('number', 'boolean', 'datetime') and not any(r[name] is not None for r in want):
            # nothing shows the type: null is written as null
            for cells in texts:
                cells[i] = 'null'
    space = c.draw(6) == 5
    sep = ', ' if space else ','
    end = c.pick(['\n', '\r\n', '\n'])
    head = sep.join(cell(c, n) for n in names)
    lines = [head] + [sep.join(cells) for cells in texts]
    if c.draw(5) == 4:
        lines.insert(c.draw(len(lines)) + 1, '')
    how = c.draw(3)
    if how == 0:
        parts = [end.join(lines) + (end if c.draw(2) else '')]
    elif how == 1:
        parts = list(lines)
    else:
        parts = []
        rest = lines
        while rest:
            k = 1 + c.draw(len(rest))
            parts.append(end.join(rest[:k]) + (end if c.draw(2) else ''))
            rest = rest[k:]
    if c.draw(6) == 5:
        parts.insert(c.draw(len(parts) + 1), None)
    what = f'dataParseCSV{tuple(parts)!r}'
    c.sample(what)
    if c.draw(3) == 0:
        options = {'globals': {f'p{i}': p for i, p in enumerate(parts)}}
        got = execute_script(parse_script(f'return dataParseCSV({", ".join(f"p{i}" for i in range(len(parts)))})'), options)
    else:
        got = call('dataParseCSV', parts)
    rows_equal(c, got, want, what)
    if interesting and want:
        c.nontrivial(what)
    for t in set(types):
        c.tag('column ' + t)


def own_case(c):
    """A table written with the library's own texts of the values."""
    names = ['a', 'b', 'c']
    makers = [csv_number, lambda d: bool(d.draw(2)), csv_moment, lambda d: 's' + csv_string(d, True)]
    kinds = [c.draw(4) for _ in names]
    rows = [{n: makers[k](c) for n, k in zip(names, kinds)} for _ in range(1 + c.draw(6))]
    for row in rows[1:]:
        for n in names:
            if c.draw(5) == 4:
                row[n] = None
    lines = [','.join(names)]
    for row in rows:
        cells = []
        for n in names:
            v = row[n]
            if vtype(v) == 'datetime':
                s = call('datetimeISOFormat', [v]) if c.draw(2) else call('stringNew', [v])
            else:
                s = call('stringNew', [v])
            cells.append('"' + s.replace('"', '""') + '"' if c.draw(2) or any(ch in s for ch in ',"\r\n') or s[:1] == ' ' else s)
        lines.append(','.join(cells))
    what = f'dataParseCSV({chr(10).join(lines)!r})'
    c.sample(what)
    c.nontrivial(what)
    rows_equal(c, call('dataParseCSV', ['\n'.join(lines)]), rows, what)
    # the same cells validated as CSV data
    data = [{n: (call('stringNew', [v]) if v is not None and c.draw(3) else v) for n, v in row.items()} for row in rows]
    # the type is inferred from the first cell, so that one is text
    for n in names:
        data[0][n] = call('stringNew', [rows[0][n]])
    what = f'dataValidate({show(data)}, true)'
    got = call('dataValidate', [data, True])
    rows_equal(c, got, rows, what)


TEXTS = {'5': 5, '1.5': 1.5, '-2': -2, '0': 0, 'true': True, 'false': False, '2024-01-01': DT(2024, 1, 1), '2024-01-01T00:00:00Z': DT(2024, 1, 1), 'abc': 'abc',
         '2024-02-30': '2024-02-30', 'TRUE': 'TRUE', '1,000': '1,000', ' ': ' ', 'nan': 'nan'}
VALID_KINDS = {
    'number': [1, 2.5, -3.0, 0], 'boolean': [True, False], 'datetime': [DT(2024, 1, 1), datetime.date(2024, 3, 1), DT(2000, 2, 29, 1, 2, 3)],
    'string': ['abc', '', 'null', 'true', '5', '2024-01-01', 'x'], 'other': [[1], {'a': 1}, [], re.compile('a')]
}


def validation(c):
    """dataValidate: the type of a field is that of its first typed value; other values of the field are parsed (CSV) or refused."""
    csv_ = bool(c.draw(2))
    names = ['a', 'b', 'c d'][:1 + c.draw(3)]
    pools = {}
    for n in names:
        kind = c.pick(['number', 'boolean', 'datetime', 'string', 'other'])
        pool = VALID_KINDS[kind]
        if csv_ and c.draw(3):
            pool = pool + [t for t, v in TEXTS.items() if vtype(v) == kind] + ['', 'null']
        if c.draw(6) == 5:
            pool = pool + VALID_KINDS[c.pick(list(VALID_KINDS))]
        pools[n] = pool + [None]
    rows = [{n: c.pick(pools[n]) for n in names if c.draw(8)} for _ in range(c.draw(6))]
    types = {}
    for row in rows:
        for n, v in row.items():
            t = vtype(v)
            if t == 'string' and csv_:
                t = None if v in ('', 'null') else vtype(TEXTS.get(v, v))
                types.setdefault(n, None)
            if t in ('number', 'boolean', 'datetime', 'string') and types.get(n) is None:
                types[n] = t
    types = {n: t or 'string' for n, t in types.items()}
    want = []
    for row in rows:
        out = {}
        for n, v in row.items():
            t = types.get(n)
            if t is not None and csv_ and isinstance(v, str):
                v = None if v == 'null' or (v == '' and t != 'string') else v if t == 'string' else TEXTS.get(v, v)
            if t is not None and v is not None and vtype(v) != t:
                want = None
                break
            out[n] = v
        if want is None:
            break
        want.append(out)
    data = copy.deepcopy(rows)
    args = [data, csv_] if csv_ or c.draw(2) else [data]
    what = f'dataValidate({show(rows, 1500)}, {csv_})'
    c.sample(what)
    got = call('dataValidate', args)
    c.tag('validate ' + ('refused' if want is None else 'accepted'))
    if len(rows) > 1:
        c.nontrivial(what)
    if want is None:
        if got is not None:
            c.fail(f'{what} gives {show(got)}, a field has values of several types')
        return
    rows_equal(c, got, want, what)
    if got is not data:
        c.fail(f'{what} gives another array than its argument')
    if not csv_ and not same(rows, data):
        c.fail(f'{what} changed its argument to {show(data)}')


def look_items(tier):
    return [(s, pos, kind) for s in LOOKALIKES + NUMBERLIKE + BOOLLIKE + PLAIN + ['2024-02-30T00:00:00.000+00:00', '1900-02-29', '2100-02-29', '0001-13-01']
            for pos in range(3) for kind in range(3)]


def look_check(c, item):
    """One lookalike cell, alone, after nulls, among strings, beside typed columns."""
    s, pos, kind = item
    q = '"' + s.replace('"', '""') + '"'
    if kind == 0:
        rows = [('null', None)] * pos + [(q, s)]
    elif kind == 1:
        rows = [(q, s), ('"x, y"', 'x, y'), ('5', '5'), ('2024-01-01', '2024-01-01')][:pos + 2]
    else:
        rows = [('', '')] * pos + [(q, s), ('', '')]
    txt = 'x,n,d,b\n' + ''.join(f'{t},{i},2024-01-0{i + 1},true\n' for i, (t, _) in enumerate(rows))
    want = [{'x': v, 'n': i, 'd': DT(2024, 1, i + 1), 'b': True} for i, (_, v) in enumerate(rows)]
    rows_equal(c, call('dataParseCSV', [txt]), want, f'dataParseCSV({txt!r})')
    c.nontrivial(item)
    c.sample(txt)


def date_items(tier):
    years = [1900, 2000, 2023, 2024, 2100] if tier == 'quick' else list(range(1895, 2106)) + [1, 4, 100, 400, 9999]
    return [(y, m) for y in years for m in range(0, 15)]


def date_check(c, item):
    """Every day 0..33 of every month 0..14: a date, or the text."""
    y, m = item
    lines, want = [], []
    c.weight = 0
    for d in range(34):
        s = f'{y:04d}-{m:02d}-{d:02d}'
        try:
            v = DT(y, m, d)
        except ValueError:
            v = s
        for suffix in ('', 'T00:00:00Z'):
            if suffix and isinstance(v, str):
                v = s + suffix
            got = call('dataParseCSV', [f'x,y\n{s}{suffix},1\n'])
            c.weight += 1
            if not isinstance(got, list) or len(got) != 1 or not same({'x': v, 'y': 1}, got[0]):
                c.fail(f'dataParseCSV of a cell {s}{suffix} gives {show(got)}, expected {show(v)}')
    c.nontrivial(item)
    c.sample(f'{y:04d}-{m:02d}-dd')


def pipeline(c):
    """Several of the functions after one another in one script, compared at the end."""
    names = ['a', 'b', 'k']
    rows = table(c, names, 8)
    right = table(c, ['k', 'z'], 5)
    text_lines, steps = [], []
    env_rows = to_side(rows, 'ref')
    state = {'rows': env_rows}
    env = Env({})
    globals_ = {'rows': to_side(rows, 'target'), 'right': to_side(right, 'target')}
    ref_right = to_side(right, 'ref')
    for _ in range(1 + c.draw(5)):
        k = c.draw(5)
        if k == 0:
            src = text_of(c, E.binary(c.pick(['==', '!=', '<', '||']), E.var(c.pick(names)), c.pick([E.num(1), E.string('a'), E.var('k'), E.var('null')])))
            text_lines.append(f'rows = dataFilter(rows, {E.str_src(src)})')
            steps.append(lambda s=src: D.filter_rows(env, state['rows'], s))
        elif k == 1:
            f = c.pick(names)
            desc = c.draw(2)
            text_lines.append(f"rows = dataSort(rows, arrayNew(arrayNew('{f}', {'true' if desc else 'false'})))")
            steps.append(lambda f=f, desc=desc: D.sort_rows(state['rows'], [[f, bool(desc)]]))
        elif k == 2:
            f, n = c.pick(names), c.int(1, 3)
            text_lines.append(f"rows = dataTop(rows, {n}, arrayNew('{f}'))")
            steps.append(lambda f=f, n=n: D.top_rows(state['rows'], n, [f]))
        elif k == 3:
            src = text_of(c, E.binary('+', E.var(c.pick(names)), E.var(c.pick(names))))
            name = c.pick(['a', 'b', 'sum'])
            text_lines.append(f"rows = dataCalculatedField(rows, '{name}', {E.str_src(src)})")
            steps.append(lambda s=src, n=name: D.calculated(env, state['rows'], n, s))
        else:
            text_lines.append("rows = dataJoin(rows, right, 'k')")
            def step():
                clash = any('k' in row for row in state['rows'])
                return [{**x, **{('k2' if n == 'k' and clash else n): v for n, v in (y or {}).items()}}
                        for x, y in D.join(env, state['rows'], ref_right, 'k')]
            steps.append(step)
            if sum('dataJoin' in t for t in text_lines) > 1:
                text_lines.pop()
                steps.pop()
    for step in steps:
        state['rows'] = step()
    src = '\n'.join(text_lines) + '\nreturn rows\n'
    what = f'{src}  rows {show(rows, 1200)}\n  right {show(right, 600)}'
    c.sample(what)
    got = execute_script(parse_script(src), {'globals': globals_})
    rows_equal(c, got, state['rows'], what)
    if len(text_lines) > 1 and state['rows']:
        c.nontrivial(what)


# -- large tables ------------------------------------------------------------------------------------------------

LARGE = (200, 255, 256, 257, 500, 512, 513, 1000, 1001, 1024, 1025, 1500, 2049, 3000)


def large_items(tier):
    sizes = LARGE + ((4097, 5001, 10001) if tier == 'thorough' else ())
    return [(n, fn, k) for n in sizes for fn in ('filter', 'calculate', 'sort', 'top', 'aggregate', 'join', 'csv', 'wide', 'wide csv') for k in range(6)]


def large_check(c, item):
    """Hundreds and thousands of rows or fields; the oracle is plain Python on keys that Python and BareScript compare alike."""
    n, fn, k = item
    # the category: one, few, many or all different
    cats = [1, 3, 17, 300, n, max(1, n // 2)][k]
    mult = 7919
    rows = [{'i': i, 'cat': (i * mult % cats) if k % 2 else f'c{i * mult % cats:06d}', 'v': float(i * 31 % 101) if i % 5 else None} for i in range(n)]
    before = [dict(r) for r in rows]
    what = f'{fn} of {n} rows, {cats} categories'
    c.sample(what)
    c.nontrivial(item)

    def numbers(got, want, what_):
        if not isinstance(got, list) or len(got) != len(want):
            c.fail(f'{what}: {what_} has {len(got) if isinstance(got, list) else show(got)} rows, expected {len(want)}')
        for j, (a, b) in enumerate(zip(want, got)):
            if a != b:
                c.fail(f'{what}: {what_}: place {j} is {show(b)}, expected {show(a)}')

    def key(got, name='i'):
        if not isinstance(got, list) or not all(isinstance(r, dict) for r in got):
            c.fail(f'{what}: gave {show(got)}')
        return [r.get(name) for r in got]

    def measured(values, row):
        for f, want in (('count', len(values) or None), ('min', min(values, default=None)), ('max', max(values, default=None))):
            if row.get(f) != want or isinstance(row.get(f), bool):
                c.fail(f'{what}: {f} {show(row.get(f))} of a group of {len(values)} values, expected {want}')
        for f in ('sum', 'average', 'stddev'):
            if values:
                check_measure(c, f, values, row.get(f), f'{what}: {f}')
            elif row.get(f, 0) is not None:
                c.fail(f'{what}: the {f} of no values is {show(row.get(f, 0))}')

    if fn == 'filter':
        numbers(key(call('dataFilter', [rows, 'cat == c', {'c': rows[n // 2]['cat']}])), [r['i'] for r in before if r['cat'] == before[n // 2]['cat']], 'one category')
        numbers(key(call('dataFilter', [rows, 'i >= c', {'c': n - 3}])), [n - 3, n - 2, n - 1], 'the last rows')
        numbers(key(call('dataFilter', [rows, 'v || i == 0'])), [r['i'] for r in before if r['v'] or r['i'] == 0], 'truthy values')
        numbers(key(call('dataFilter', [rows, 'true'])), list(range(n)), 'all')
    elif fn == 'calculate':
        got = call('dataCalculatedField', [rows, 'w', 'i * 2 + c', {'c': k}])
        numbers(key(got, 'w'), [2 * i + k for i in range(n)], 'the new field')
        numbers(got, [{**r, 'w': 2 * r['i'] + k} for r in before], 'the rows')
        return
    elif fn == 'sort':
        for desc in (False, True):
            got = call('dataSort', [list(rows), [['cat', desc]]])
            numbers(key(got), [r['i'] for r in sorted(before, key=lambda r: r['cat'], reverse=desc)], f'by category, descending {desc}')
            got = call('dataSort', [list(rows), [['v', desc], ['cat', not desc]]])
            want = sorted(before, key=lambda r: r['cat'], reverse=not desc)
            want = sorted(want, key=lambda r: -1.0 if r['v'] is None else r['v'], reverse=desc)
            numbers(key(got), [r['i'] for r in want], 'by two keys')
    elif fn == 'top':
        groups = {}
        for r in before:
            groups.setdefault(r['cat'], []).append(r['i'])
        for count in (1, 2, 5, 256, 1000, n - 1, n, n + 1):
            numbers(key(call('dataTop', [rows, count, ['cat']])), [i for g in groups.values() for i in g[:count]], f'the first {count}')
            numbers(key(call('dataTop', [rows, count])), list(range(n))[:count], f'the first {count} of all')
    elif fn == 'aggregate':
        measures = [{'field': 'v', 'function': f, 'name': f} for f in FUNCTIONS] + [{'field': 'i', 'function': 'max'}]
        got = call('dataAggregate', [rows, {'categories': ['cat'], 'measures': measures}])
        want = {}
        for r in before:
            want.setdefault(r['cat'], []).append(r)
        numbers(key(got, 'cat'), list(want), 'the categories')
        for row, group in zip(got, want.values()):
            values = [r['v'] for r in group if r['v'] is not None]
            measured(values, row)
            if row.get('i') != group[-1]['i']:
                c.fail(f'{what}: the greatest i is {show(row)}, expected {group[-1]["i"]}')
        got = call('dataAggregate', [rows, {'measures': measures}])
        if len(got) != 1:
            c.fail(f'{what}: without categories {show(got)}')
        values = [r['v'] for r in before if r['v'] is not None]
        measured(values, got[0])
    elif fn == 'join':
        # few right rows of each key against many left rows, and the other way round
        small = [{'k': before[j]['cat'], 'w': j} for j in range(0, n, max(1, n // 9))] + [{'k': 'other', 'w': -1}]
        for left, right, lk, rk in ((rows, small, 'cat', 'k'), (small, rows, 'k', 'cat')):
            if len(small) * n // cats > 20000 and left is small:
                continue
            for drop in (False, True):
                by = {}
                for r in right:
                    by.setdefault(r[rk], []).append(r)
                want = []
                for r in left:
                    hits = by.get(r[lk], [])
                    want += [{**r, **h} for h in hits]
                    if not hits and not drop:
                        want.append(dict(r))
                numbers(call('dataJoin', [left, right, lk, rk, drop]), want, f'the join (drop {drop})')
    elif fn == 'csv':
        marks = ['x', 'a,b', 'say "y"', 'two\nlines', '2024-02-30', ''][k]
        lines = ['i,cat,v,s'] + [f'{r["i"]},{"c" if k % 2 else ""}{r["cat"]},{"" if r["v"] is None else r["v"]},"s{marks.replace(chr(34), chr(34) * 2)}"' for r in before]
        want = [{'i': r['i'], 'cat': f'c{r["cat"]}' if k % 2 else r['cat'], 'v': r['v'], 's': 's' + marks} for r in before]
        for parts in (['\n'.join(lines)], lines, ['\r\n'.join(lines[:n // 2]), '\n'.join(lines[n // 2:])]):
            numbers(call('dataParseCSV', parts), want, f'{len(parts)} texts')
        long = 'ab, "c"' * n
        numbers(call('dataParseCSV', ['a,b\n"' + long.replace('"', '""') + '",5\n' + 'x' * n + ',6']), [{'a': long, 'b': 5}, {'a': 'x' * n, 'b': 6}], 'long fields')
        return
    elif fn == 'wide':
        wide = [{f'f{j}': j + t for j in range(n)} for t in range(2)]
        got = call('dataAggregate', [wide, {'categories': [f'f{j}' for j in range(0, n, 2)], 'measures': [{'field': f'f{j}', 'function': 'sum'} for j in range(1, n, 2)]}])
        numbers(got, wide, 'many categories and measures')
        got = call('dataSort', [list(wide) + [{**wide[0], f'f{n - 1}': -1}], [[f'f{j}'] for j in range(n)]])
        numbers(got, [{**wide[0], f'f{n - 1}': -1}] + wide, 'many sort keys')
        got = call('dataTop', [wide + wide, 1, [f'f{j}' for j in range(n)]])
        numbers(got, wide, 'many category fields')
        got = call('dataJoin', [wide, [{**wide[0], 'z': 1}], f'f{n - 1}', None, True])
        if len(got) != 1 or any(got[0].get(f) != v for f, v in wide[0].items()) or len(got[0]) != 2 * n + 1:
            c.fail(f'{what}: the join gave {len(got)} rows of {[len(r) for r in got]} fields')
        extra = {f: v for f, v in got[0].items() if f not in wide[0] and f != 'z'}
        for f, v in extra.items():
            if not f.startswith(f'f{v}'):
                c.fail(f'{what}: the join has {f} = {show(v)}')
        if got[0].get('z') != 1 or sorted(extra.values()) != list(range(n)):
            c.fail(f'{what}: the join has {show(got[0], 2000)}')
        return
    else:
        head = [f'f{j}' for j in range(n)]
        got = call('dataParseCSV', [','.join(head), ','.join(str(j) if j % 3 else f's{j}' for j in range(n)), ','.join('null' for _ in head)])
        numbers(got, [{f: j if j % 3 else f's{j}' for j, f in enumerate(head)}, {f: None for f in head}], 'many fields')
        return
    for j, (a, b) in enumerate(zip(before, rows)):
        if a != b or list(a) != list(b):
            c.fail(f'{what}: the input row {j} became {show(b)}, was {show(a)}')
    if len(before) != len(rows):
        c.fail(f'{what}: the input has {len(rows)} rows')


def sections(tier):
    return [
        Enum('key pairs', pair_items, pair_check),
        Enum('large tables', large_items, large_check),
        Enum('field names', collide_items, collide_check),
        Gen('filter and calculated field', filters, 25000),
        Gen('sort', sorts, 12000),
        Gen('top', tops, 10000),
        Gen('aggregate', aggregates, 16000),
        Gen('join', joins, 25000),
        Gen('pipelines', pipeline, 12000),
        Gen('CSV', csv_case, 30000),
        Gen('CSV of own texts', own_case, 10000),
        Gen('validation', validation, 16000),
        Enum('lookalikes', look_items, look_check),
        Enum('dates', date_items, date_check),
    ]
