"""Expression model construction, normalisation (groups where precedence needs them) and rendering."""

from ref.parse import LEVELS

NAMES = ['a', 'b', 'c', 'x', 'yy', 'n1', 'foo', 'a_b']


def num(x):
    return {'number': float(x)}


def string(s):
    return {'string': s}


def var(n):
    return {'variable': n}


def call(name, *args):
    return {'function': {'name': name, 'args': list(args)}}


def binary(op, left, right):
    return {'binary': {'op': op, 'left': left, 'right': right}}


def unary(op, expr):
    return {'unary': {'op': op, 'expr': expr}}


def group(expr):
    return {'group': expr}


def normal(expr):
    """Insert the groups that make the text of `expr` parse back to it."""
    key, = expr
    if key == 'binary':
        b = expr['binary']
        op = b['op']
        left, right = normal(b['left']), normal(b['right'])
        if 'binary' in left and LEVELS[left['binary']['op']] < LEVELS[op]:
            left = group(left)
        if 'binary' in right and LEVELS[right['binary']['op']] <= LEVELS[op]:
            right = group(right)
        return binary(op, left, right)
    if key == 'unary':
        inner = normal(expr['unary']['expr'])
        if 'binary' in inner:
            inner = group(inner)
        return unary(expr['unary']['op'], inner)
    if key == 'group':
        return group(normal(expr['group']))
    if key == 'function':
        return {'function': {'name': expr['function']['name'], 'args': [normal(a) for a in expr['function']['args']]}}
    return expr


def _ident(name):
    return bool(name) and (name[0].isascii() and (name[0].isalpha() or name[0] == '_')) and \
        all(ch.isalnum() or ch == '_' for ch in name)


def num_src(x, style=0):
    """Source spellings of a non-negative number."""
    r = repr(float(x))
    if 'e' in r:
        mant, exp = r.split('e')
        return f'{mant}e{exp}' if exp[0] in '+-' else f'{mant}e+{exp}'
    if r.endswith('.0'):
        return (r[:-2], r, r[:-1], '0' + r[:-2], '+' + r[:-2])[style % 5]
    return (r, r + '0', r, '0' + r, '+' + r)[style % 5]


def str_src(s, quote="'"):
    return quote + s.replace('\\', '\\\\').replace(quote, '\\' + quote) + quote


def tokens(expr, c=None):
    """Token list of a normalised expression; any white space (or none) may separate tokens."""
    out = []
    _tokens(expr, c, out)
    return out


def _tokens(expr, c, out):
    key, = expr
    if key == 'number':
        style = c.draw(5) if c is not None else 0
        out.append(num_src(expr['number'], style))
    elif key == 'string':
        quote = '"' if c is not None and c.draw(2) else "'"
        out.append(str_src(expr['string'], quote))
    elif key == 'variable':
        name = expr['variable']
        if _ident(name) and not (c is not None and c.draw(8) == 7 and name not in ('null', 'true', 'false')):
            out.append(name)
        else:
            out.append('[' + name.replace(']', '\\]') + ']')
    elif key == 'function':
        out.append(expr['function']['name'])
        out.append('(')
        for i, arg in enumerate(expr['function']['args']):
            if i:
                out.append(',')
            _tokens(arg, c, out)
        out.append(')')
    elif key == 'binary':
        _tokens(expr['binary']['left'], c, out)
        out.append(expr['binary']['op'])
        _tokens(expr['binary']['right'], c, out)
    elif key == 'unary':
        out.append(expr['unary']['op'])
        _tokens(expr['unary']['expr'], c, out)
    else:
        out.append('(')
        _tokens(expr['group'], c, out)
        out.append(')')


GAPS = [' ', '', '  ', '\t', ' ']


def join(toks, c=None):
    if c is None:
        return plain_join(toks)
    out = []
    for i, tok in enumerate(toks):
        if i:
            out.append(GAPS[c.draw(5)])
        out.append(tok)
    return ''.join(out)


def plain_join(toks):
    return ' '.join(toks)


def render(expr, c=None):
    return join(tokens(expr, c), c)


def size(expr):
    key, = expr
    if key == 'binary':
        return 1 + size(expr['binary']['left']) + size(expr['binary']['right'])
    if key == 'unary':
        return 1 + size(expr['unary']['expr'])
    if key == 'group':
        return 1 + size(expr['group'])
    if key == 'function':
        return 1 + sum(size(a) for a in expr['function']['args'])
    return 1


def ops_in(expr, out=None):
    """Pairs (parent operator, child operator, side) - the shape features of a tree."""
    if out is None:
        out = []
    key, = expr
    if key == 'binary':
        b = expr['binary']
        for side in ('left', 'right'):
            child = b[side]
            ck, = child
            out.append((b['op'], child['binary']['op'] if ck == 'binary' else ck, side))
            ops_in(child, out)
    elif key == 'unary':
        ck, = expr['unary']['expr']
        out.append((expr['unary']['op'], ck, 'u'))
        ops_in(expr['unary']['expr'], out)
    elif key == 'group':
        ops_in(expr['group'], out)
    elif key == 'function':
        for a in expr['function']['args']:
            ops_in(a, out)
    return out
