"""Renaming the variables and functions of a structured program (names carry no meaning)."""

# Variables may be spelled like keywords, built-ins, Python names, or each other's prefixes
KEEP = ('B', 'g0', 'g1', 'g2', 'g3')
VARIABLES = [
    'return', 'break', 'continue', 'for', 'in', 'if', 'elif', 'else', 'while', 'function', 'include', 'jump', 'jumpif', 'async', 'endif',
    'endfor', 'endwhile', 'endfunction', 'abs', 'len', 'max', 'text', 'e', 'i', '_', '__', 'A', 'Z', 'x1', 'x10', 'x11', 'v0', 'self', 'None',
    'True', 'False', 'Null', 'NULL', 'nullx', 'truex', 'true1', 'null_', 'falsey', 'undefined', 'NaN', 'get', 'items', 'name', 'args', 'expr', 'locals',
    'globals', '__class__', '__bare', 'statementCount', 'value', 'length', 'index', 'values', 'arrayX', 'lowercase', 'camelCase', 'UPPER', 'e1',
    'a' * 40, 'a' * 41, 'variable_with_underscores', 'e10', 'x_', 'label', 'number', 'string', 'unary', 'binary', 'group', 'url', 'pi', 'today'
]
FUNCTIONS = [
    'fx', 'returnValue', 'ifx', 'forEach', 'includes', 'endif2', 'jumpTo', 'functionA', 'f_', '_f', '__', 'f' * 40, 'f0', 'f00', 'f000', 'len2', 'maxOf',
    'f', '_', 'E', 'whileTrue', 'asyncCall', 'None', 'self', 'call', 'nullFn', 'iff', 'elseFn', 'arrayGetX', 'systemLogs', 'X1', 'abs', 'min', 'text', 'year',
    'stringShow', 'mathSum', 'arrayOf', 'dataSum', 'objectOf', 'systemX', 'mathMax', 'stringNew', 'objectNew', 'jsonStringify', 'datetimeNow'
]


def names(stmts, variables=None, functions=None):
    """The variables and the script functions of a program."""
    variables = set() if variables is None else variables
    functions = set() if functions is None else functions

    def expr(e):
        key, = e
        if key == 'variable':
            if e[key] not in ('null', 'true', 'false'):
                variables.add(e[key])
        elif key == 'group':
            expr(e[key])
        elif key == 'unary':
            expr(e[key]['expr'])
        elif key == 'binary':
            expr(e[key]['left'])
            expr(e[key]['right'])
        elif key == 'function':
            for a in e[key].get('args', ()):
                expr(a)
    for s in stmts:
        kind = s[0]
        if kind in ('expr', 'return'):
            if s[1] is not None:
                expr(s[1])
        elif kind == 'assign':
            variables.add(s[1])
            expr(s[2])
        elif kind == 'function':
            functions.add(s[1])
            variables.update(s[2])
            names(s[4], variables, functions)
        elif kind == 'if':
            for cond, body in s[1]:
                expr(cond)
                names(body, variables, functions)
            names(s[2] or (), variables, functions)
        elif kind == 'while':
            expr(s[1])
            names(s[2], variables, functions)
        elif kind == 'for':
            variables.add(s[1])
            if s[2]:
                variables.add(s[2])
            expr(s[3])
            names(s[4], variables, functions)
    return variables, functions


def rename_expr(e, m):
    key, = e
    if key == 'variable':
        return {key: m.get(e[key], e[key])}
    if key == 'group':
        return {key: rename_expr(e[key], m)}
    if key == 'unary':
        return {key: {'op': e[key]['op'], 'expr': rename_expr(e[key]['expr'], m)}}
    if key == 'binary':
        return {key: {'op': e[key]['op'], 'left': rename_expr(e[key]['left'], m), 'right': rename_expr(e[key]['right'], m)}}
    if key == 'function':
        out = {'name': m.get(e[key]['name'], e[key]['name'])}
        if 'args' in e[key]:
            out['args'] = [rename_expr(a, m) for a in e[key]['args']]
        return {key: out}
    return e


def rename(stmts, m):
    out = []
    for s in stmts:
        kind = s[0]
        if kind in ('expr', 'return'):
            s = (kind, rename_expr(s[1], m) if s[1] is not None else None)
        elif kind == 'assign':
            s = (kind, m.get(s[1], s[1]), rename_expr(s[2], m))
        elif kind == 'function':
            s = (kind, m.get(s[1], s[1]), [m.get(p, p) for p in s[2]], s[3], rename(s[4], m))
        elif kind == 'if':
            s = (kind, [(rename_expr(cond, m), rename(body, m)) for cond, body in s[1]], rename(s[2], m) if s[2] is not None else None)
        elif kind == 'while':
            s = (kind, rename_expr(s[1], m), rename(s[2], m))
        elif kind == 'for':
            s = (kind, m.get(s[1], s[1]), m.get(s[2], s[2]) if s[2] else s[2], rename_expr(s[3], m), rename(s[4], m))
        out.append(s)
    return out


def odd_names(c, stmts, share=5, keep=()):
    """(statements, mapping): some names of the program replaced by odd ones."""
    variables, functions = names(stmts)
    mapping = {}
    used = variables | functions
    for group, pool in ((sorted(variables - functions), VARIABLES), (sorted(functions), FUNCTIONS)):
        for name in group:
            if name not in keep and c.draw(share) == 0:
                new = c.pick(pool)
                if new not in used:
                    used.add(new)
                    mapping[name] = new
    return (rename(stmts, mapping) if mapping else stmts), mapping


def rename_globals(globals_, mapping):
    return {mapping.get(k, k): v for k, v in globals_.items()}
