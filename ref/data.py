"""Reference relational semantics of the data functions."""

import contextlib
import functools
import math

from .lib import ARR, STR, Fail, P, bind
from .parse import RefSyntaxError, parse_expr
from .values import RefFunction, compare, truthy

VARS = P('object', nullable=True)


@contextlib.contextmanager
def overlay(env, variables):
    if variables is None:
        yield
        return
    saved = env.globals
    env.globals = {**saved, **variables}
    try:
        yield
    finally:
        env.globals = saved


def expression(text):
    try:
        return parse_expr(text)
    except RefSyntaxError:
        raise Fail() from None


def filter_rows(env, data, text, variables=None):
    expr = expression(text)
    with overlay(env, variables):
        return [row for row in data if truthy(env.eval(expr, row, True))]


def calculated(env, data, name, text, variables=None):
    expr = expression(text)
    with overlay(env, variables):
        for row in data:
            row[name] = env.eval(expr, row, True)
    return data


def join(env, left, right, text, right_text=None, drop=False, variables=None):
    """Each left row with every right row of equal key; an unmatched left row alone (unless drop).

    Gives (rows, right names): each result row is (left row, right row or None), for the caller to compare with any
    renaming that keeps the left fields.
    """
    lexpr = expression(text)
    rexpr = expression(right_text) if right_text is not None else lexpr
    with overlay(env, variables):
        keys = [env.eval(rexpr, row, True) for row in right]
        out = []
        for row in left:
            key = env.eval(lexpr, row, True)
            hits = [r for r, k in zip(right, keys) if compare(k, key) == 0]
            if hits:
                out += [(row, r) for r in hits]
            elif not drop:
                out.append((row, None))
    return out


def sort_rows(data, sorts):
    def cmp(a, b):
        for s in sorts:
            x, y = a.get(s[0]), b.get(s[0])
            r = compare(x, y)
            if r:
                return -r if len(s) > 1 and truthy(s[1]) else r
        return 0
    return sorted(data, key=functools.cmp_to_key(cmp))


def same_category(a, b, fields):
    return all(compare(a.get(f), b.get(f)) == 0 for f in fields)


def top_rows(data, n, fields):
    fields = fields or []
    groups = groups_of(data, fields)
    return [row for g in groups for row in g[:n]]


def groups_of(data, fields):
    """The rows partitioned by category values, groups in order of first appearance."""
    groups = []
    for row in data:
        for g in groups:
            if same_category(g[0], row, fields):
                g.append(row)
                break
        else:
            groups.append([row])
    return groups


def aggregate(data, categories, measures):
    """[(category values, {name: (function, values)})] per group."""
    out = []
    for g in groups_of(data, categories or []):
        row = {c: g[0].get(c) for c in categories or []}
        vals = {}
        for m in measures:
            values = [r[m['field']] for r in g if r.get(m['field']) is not None]
            vals[m.get('name', m['field'])] = (m['function'], values)
        out.append((row, vals))
    return out


def measure(function, values):
    """The value of an aggregation function over non-null values; floats are exact to rounding."""
    if not values:
        return None
    if function == 'count':
        return len(values)
    if function in ('min', 'max'):
        best = values[0]
        for v in values[1:]:
            r = compare(v, best)
            if (r < 0) if function == 'min' else (r > 0):
                best = v
        return best
    total = math.fsum(values)
    if function == 'sum':
        return total
    mean = total / len(values)
    if function == 'average':
        return mean
    return math.sqrt(math.fsum((v - mean) ** 2 for v in values) / len(values))


def install(env):
    """dataFilter, dataCalculatedField and dataJoin (renaming-free tables only) as callable functions of a run."""
    def define(name, *params):
        def wrap(fn):
            env.globals[name] = RefFunction(name, lambda args, e: fn(e, *bind(params, args, None)))
            return fn
        return wrap

    @define('dataFilter', ARR, STR, VARS)
    def _(e, data, text, variables):
        return filter_rows(e, data, text, variables)

    @define('dataCalculatedField', ARR, STR, STR, VARS)
    def _(e, data, name, text, variables):
        return calculated(e, data, name, text, variables)

    @define('dataJoin', ARR, ARR, STR, P('string', nullable=True), P('boolean', default=False), VARS)
    def _(e, left, right, text, right_text, drop, variables):
        return [{**a, **b} if b is not None else dict(a) for a, b in join(e, left, right, text, right_text, drop, variables)]


