"""Reference line grammar of scripts: logical lines, statement kinds, block structure - no lowering.

`analyse(lines)` gives either a list of leaves (what the text says, line by line) or the set of acceptable places of the
first error.  Texts that hit one of the documented-nowhere corners raise Unsure.
"""

from .parse import RefSyntaxError, RefUnsure, parse_expr


class Unsure(Exception):
    """The language does not say; only totality is checked."""


class Bad(Exception):
    """A rejected text: the lines that may be reported, and the columns (None: any) that may be."""

    def __init__(self, what, line_numbers, spans=None):
        super().__init__(what)
        self.what = what
        self.lines = set(line_numbers)
        self.spans = spans


class Logical:
    __slots__ = ('number', 'text', 'parts', 'open')

    def __init__(self, number, text, parts, is_open=False):
        self.number = number    # 0-based index of the first physical line
        self.text = text
        self.parts = parts      # the indexes of the physical lines
        self.open = is_open     # the input ended inside a continuation


def split_lines(text):
    out = []
    cur = []
    i = 0
    while i < len(text):
        if text[i] == '\n':
            out.append(''.join(cur))
            cur = []
        elif text[i] == '\r' and text[i + 1:i + 2] == '\n':
            out.append(''.join(cur))
            cur = []
            i += 1
        else:
            cur.append(text[i])
        i += 1
    out.append(''.join(cur))
    return out


def is_comment(line):
    s = line.strip()
    return s == '' or s.startswith('#')


def logical_lines(physical):
    out = []
    pieces = None
    start = None
    used = None
    for i, line in enumerate(physical):
        if is_comment(line):
            continue
        body = line.rstrip()
        more = body.endswith('\\')
        if pieces is None:
            if not more:
                out.append(Logical(i, line, [i]))
                continue
            pieces, start, used = [body[:-1].rstrip()], i, [i]
        else:
            used.append(i)
            pieces.append((body[:-1] if more else line).strip())
            if not more:
                out.append(Logical(start, ' '.join(pieces), used))
                pieces = None
    if pieces is not None:
        out.append(Logical(start, ' '.join(pieces), used, True))
    return out


def _word(ch):
    return ch.isalnum() or ch == '_'


def _ident_end(t, i):
    """End of the identifier that starts at i, or i."""
    if i < len(t) and (t[i] == '_' or (t[i].isascii() and t[i].isalpha())):
        j = i
        while j < len(t) and _word(t[j]):
            j += 1
        return j
    return i


def _ws(t, i):
    while i < len(t) and t[i].isspace():
        i += 1
    return i


def ident_only(s):
    return bool(s) and _ident_end(s, 0) == len(s)


CLOSERS = {'endif': 'if', 'endwhile': 'while', 'endfor': 'for'}


def classify(t):
    """(kind, data...) with expression parts as (start, end) spans of t."""
    i = _ws(t, 0)
    j = _ident_end(t, i)
    word = t[i:j]
    k = _ws(t, j)
    rest = t[k:]
    if word and rest.startswith('='):
        m = k + 1
        if m == len(t):
            return ('expr', 0, len(t))      # "name =" and nothing more
        e = _ws(t, m)
        if e == len(t):
            e = len(t) - 1                  # only white space after "=": still an assignment, without an expression
        return ('assign', word, e, len(t))
    end = len(t.rstrip())
    body = t[i:end]
    fn = _function(t, i, end)
    if fn is not None:
        return fn
    if body in ('endfunction', 'endif', 'endwhile', 'endfor', 'break', 'continue'):
        return (body,)
    if body.endswith(':') and word == 'else' and t[j:end - 1].strip() == '':
        return ('else',)
    if body.endswith(':') and word in ('if', 'elif', 'while', 'for') and j < end - 1 and t[j].isspace():
        inner = t[j:end - 1]
        if inner.strip() == '':
            raise Unsure('block keyword without an expression')
        if word != 'for':
            return (word, _ws(t, j), end - 1)
        a = _ws(t, j)
        b = _ident_end(t, a)
        if b > a:
            var, index = t[a:b], None
            p = _ws(t, b)
            ok = p > b
            if t[p:p + 1] == ',':
                q = _ws(t, p + 1)
                r = _ident_end(t, q)
                if r > q:
                    index = t[q:r]
                    p = _ws(t, r)
                    ok = p > r
                else:
                    ok = False
            if ok and t[p:p + 2] == 'in' and t[p + 2:p + 3].isspace():
                s = _ws(t, p + 2)
                if s >= end - 1:
                    raise Unsure('for without a value')
                return ('for', var, index, s, end - 1)
    if word and rest.rstrip() == ':':
        return ('label', word)
    if word == 'jump' and k > j and ident_only(rest.rstrip()):
        return ('jump', rest.rstrip(), None, None)
    if word == 'jumpif' and t[k:k + 1] == '(':
        tail = end
        while tail > 0 and _word(t[tail - 1]):
            tail -= 1
        name = t[tail:end]
        close = len(t[:tail].rstrip())
        if ident_only(name) and close < tail and t[close - 1] == ')' and close - 1 > k + 1:
            return ('jump', name, k + 1, close - 1)
    if word == 'return' and (j == end or t[j].isspace()):
        return ('return', None, None) if j == end else ('return', k, len(t))
    if word == 'include' and k > j:
        tok = t[k:end]
        if len(tok) >= 2 and tok[0] == "'" and tok[-1] == "'":
            inner = tok[1:-1]
            if all(ch != "'" or inner[x - 1:x] == '\\' for x, ch in enumerate(inner)):
                return ('include', _unescape(inner), False)
        if len(tok) >= 2 and tok[0] == '<' and tok[-1] == '>' and '>' not in tok[1:-1]:
            return ('include', tok[1:-1], True)
    return ('expr', 0, len(t))


def _unescape(s):
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\\' and s[i + 1:i + 2] in ('\\', "'"):
            i += 1
        out.append(s[i])
        i += 1
    return ''.join(out)


def _function(t, i, end):
    j = _ident_end(t, i)
    is_async = False
    if t[i:j] == 'async':
        i = _ws(t, j)
        j = _ident_end(t, i)
        is_async = True
    elif t[i:j] == 'asyncfunction':
        raise Unsure('asyncfunction')
    if t[i:j] != 'function':
        return None
    p = _ws(t, j)
    q = _ident_end(t, p)
    if p == j or q == p:
        return None
    name = t[p:q]
    p = _ws(t, q)
    if t[p:p + 1] != '(' or t[end - 1] != ':':
        return None
    inner_end = len(t[:end - 1].rstrip())
    if inner_end <= p or t[inner_end - 1] != ')':
        return None
    inner = t[p + 1:inner_end - 1].strip()
    rest = inner.endswith('...')
    if rest:
        inner = inner[:-3].strip()
    params = [x.strip() for x in inner.split(',')] if inner else []
    if not all(ident_only(x) for x in params):
        return None
    return ('function', name, params, rest, is_async)


def expression(t, start, end, number):
    """Parse t[start:end]; a failure names the columns (1-based, in t) that point at it."""
    part = t[start:end]
    try:
        return parse_expr(part)
    except RefUnsure:
        raise Unsure('expression') from None
    except RefSyntaxError as exc:
        spans = []
        for pos in {exc.pos, exc.at}:
            spans.append((start + len(part[:pos].rstrip()) + 1, start + _ws(part, pos) + 1))
        raise Bad('expression', [number], spans) from None


def analyse(physical, start_number=1):
    """The leaves of an accepted text; raises Bad or Unsure."""
    stack = []          # (kind, line number, has_else)
    leaves = []         # (scope, leaf)
    floor = None        # stack height at the start of the open function
    scope = 0
    fn_line = None
    functions = 0
    for ln in logical_lines(physical):
        number = ln.number + start_number
        t = ln.text
        if ln.open:
            raise Bad('continuation', [number])
        st = classify(t)
        kind = st[0]
        base = floor if floor is not None else 0
        top = stack[-1] if len(stack) > base else None
        if kind == 'assign':
            leaves.append((scope, ('assign', st[1], expression(t, st[2], st[3], number))))
        elif kind == 'expr':
            leaves.append((scope, ('expr', expression(t, st[1], st[2], number))))
        elif kind == 'function':
            if floor is not None:
                raise Bad('nested function', [number, fn_line])
            leaves.append((scope, ('function', st[1], tuple(st[2]), st[3], st[4])))
            floor = len(stack)
            functions += 1
            scope = functions
            fn_line = number
        elif kind == 'endfunction':
            if floor is None:
                raise Bad('endfunction', [number])
            if len(stack) > floor:
                raise Bad('endfunction', [number] + [s[1] for s in stack[floor:]])
            floor = None
            scope = 0
        elif kind in ('if', 'while'):
            leaves.append((scope, (kind, expression(t, st[1], st[2], number))))
            stack.append([kind, number, False])
        elif kind == 'for':
            leaves.append((scope, ('for', st[1], st[2], expression(t, st[3], st[4], number))))
            stack.append(['for', number, False])
        elif kind in ('elif', 'else'):
            if top is None or top[0] != 'if' or top[2]:
                raise Bad(kind, [number] + ([top[1]] if top is not None else []))
            if kind == 'elif':
                leaves.append((scope, ('elif', expression(t, st[1], st[2], number))))
            else:
                leaves.append((scope, ('else',)))
                top[2] = True
        elif kind in CLOSERS:
            if top is None or top[0] != CLOSERS[kind]:
                raise Bad(kind, [number] + ([top[1]] if top is not None else []))
            stack.pop()
        elif kind in ('break', 'continue'):
            if not any(s[0] != 'if' for s in stack[base:]):
                raise Bad(kind, [number])
            leaves.append((scope, (kind,)))
        elif kind == 'label':
            leaves.append((scope, ('label', st[1])))
        elif kind == 'jump':
            leaves.append((scope, ('jump', st[1], expression(t, st[2], st[3], number) if st[2] is not None else None)))
        elif kind == 'return':
            leaves.append((scope, ('return', expression(t, st[1], st[2], number) if st[1] is not None else None)))
        elif kind == 'include':
            leaves.append((scope, ('include', st[1], st[2])))
        else:
            raise AssertionError(kind)
    if stack or floor is not None:
        raise Bad('open block', [s[1] for s in stack] + ([fn_line] if floor is not None else []))
    return leaves
