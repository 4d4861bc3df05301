"""Structured programs: AST -> token lines -> text, and layout."""

from . import expr as E

# A line is (depth, [(required_gap_before, token), ...])


def _expr_tokens(expr, c):
    return E.tokens(E.normal(expr), c)


def _opt(toks):
    return [(False, t) for t in toks]


def lines(stmts, c=None, depth=0):
    """Token lines of structured statements."""
    out = []
    for s in stmts:
        kind = s[0]
        if kind == 'expr':
            e = E.normal(s[1])
            if 'function' not in e and 'group' not in e:
                e = E.group(e)
            out.append((depth, _opt(E.tokens(e, c))))
        elif kind == 'assign':
            out.append((depth, [(False, s[1]), (False, '=')] + _opt(_expr_tokens(s[2], c))))
        elif kind == 'function':
            _, name, params, rest, body = s
            toks = [(False, 'function'), (True, name), (False, '(')]
            for i, p in enumerate(params):
                if i:
                    toks.append((False, ','))
                toks.append((False, p))
            if rest:
                toks.append((False, '...'))
            toks += [(False, ')'), (False, ':')]
            if c is not None and c.draw(12) == 11:
                toks = [(False, 'async'), (True, 'function')] + toks[1:]
            out.append((depth, toks))
            out += lines(body, c, depth + 1)
            out.append((depth, [(False, 'endfunction')]))
        elif kind == 'return':
            toks = [(False, 'return')]
            if s[1] is not None:
                etoks = _expr_tokens(s[1], c)
                toks += [(True, etoks[0])] + _opt(etoks[1:])
            out.append((depth, toks))
        elif kind == 'if':
            for i, (cond, body) in enumerate(s[1]):
                etoks = _expr_tokens(cond, c)
                out.append((depth, [(False, 'elif' if i else 'if'), (True, etoks[0])] + _opt(etoks[1:]) + [(False, ':')]))
                out += lines(body, c, depth + 1)
            if s[2] is not None:
                out.append((depth, [(False, 'else'), (False, ':')]))
                out += lines(s[2], c, depth + 1)
            out.append((depth, [(False, 'endif')]))
        elif kind == 'while':
            etoks = _expr_tokens(s[1], c)
            out.append((depth, [(False, 'while'), (True, etoks[0])] + _opt(etoks[1:]) + [(False, ':')]))
            out += lines(s[2], c, depth + 1)
            out.append((depth, [(False, 'endwhile')]))
        elif kind == 'for':
            _, var, index, values, body = s
            etoks = _expr_tokens(values, c)
            toks = [(False, 'for'), (True, var)]
            if index is not None:
                toks += [(False, ','), (False, index)]
            toks += [(True, 'in'), (True, etoks[0])] + _opt(etoks[1:]) + [(False, ':')]
            out.append((depth, toks))
            out += lines(body, c, depth + 1)
            out.append((depth, [(False, 'endfor')]))
        elif kind in ('break', 'continue'):
            out.append((depth, [(False, kind)]))
        elif kind == 'label':
            out.append((depth, [(False, s[1]), (False, ':')]))
        elif kind == 'jump':
            if s[2] is None:
                out.append((depth, [(False, 'jump'), (True, s[1])]))
            else:
                out.append((depth, [(False, 'jumpif'), (False, '(')] + _opt(_expr_tokens(s[2], c)) + [(False, ')'), (True, s[1])]))
        elif kind == 'include':
            tok = f'<{s[1]}>' if s[2] else E.str_src(s[1])
            out.append((depth, [(False, 'include'), (True, tok)]))
        else:
            raise AssertionError(kind)
    return out


def plain_line(line, indent='    '):
    depth, toks = line
    parts = []
    for i, (req, tok) in enumerate(toks):
        if i and (req or _spaced(toks[i - 1][1], tok)):
            parts.append(' ')
        parts.append(tok)
    return indent * depth + ''.join(parts)


def _spaced(prev, tok):
    if tok in (')', ',', ':') or prev in ('(', '!'):
        return False
    if tok == '(':
        return prev in E.LEVELS or prev == ','
    return True


def plain(stmts_lines):
    return '\n'.join(plain_line(ln) for ln in stmts_lines)


def text(stmts, c=None):
    return plain(lines(stmts, c))


def size(stmts):
    n = 0
    for s in stmts:
        n += 1
        if s[0] == 'if':
            n += sum(size(b) for _, b in s[1]) + (size(s[2]) if s[2] is not None else 0)
        elif s[0] == 'while':
            n += size(s[2])
        elif s[0] in ('for', 'function'):
            n += size(s[4])
    return n


def depth(stmts):
    d = 0
    for s in stmts:
        if s[0] == 'if':
            d = max([d] + [1 + depth(b) for _, b in s[1]] + ([1 + depth(s[2])] if s[2] is not None else []))
        elif s[0] == 'while':
            d = max(d, 1 + depth(s[2]))
        elif s[0] == 'for':
            d = max(d, 1 + depth(s[4]))
        elif s[0] == 'function':
            d = max(d, depth(s[4]))
    return d


def kinds(stmts, out=None, ctx=''):
    """Set of (enclosing construct, construct) features."""
    if out is None:
        out = set()
    for s in stmts:
        out.add((ctx, s[0]))
        if s[0] == 'if':
            name = 'if' + ('e' * (len(s[1]) - 1)) + ('+' if s[2] is not None else '')
            for i, (_, b) in enumerate(s[1]):
                kinds(b, out, name + str(i))
            if s[2] is not None:
                kinds(s[2], out, name + 'E')
        elif s[0] == 'while':
            kinds(s[2], out, 'while')
        elif s[0] == 'for':
            kinds(s[4], out, 'for' + ('i' if s[2] else ''))
        elif s[0] == 'function':
            kinds(s[4], out, 'function')
    return out


# -- random structured programs ---------------------------------------------------------

class ProgramGen:
    """Terminating structured programs over a small name space."""

    def __init__(self, c, bits='B', max_depth=5, max_functions=3, globals_=('g0', 'g1', 'g2', 'g3'), budget=40, hosts=(), redefine=False):
        self.c = c
        self.bits = bits
        self.max_depth = max_depth
        self.max_functions = max_functions
        self.globals = list(globals_)
        self.budget = budget
        self.labels = 0
        self.loops = 0
        self.functions = []
        self.hosts = list(hosts)
        self.redefine = redefine

    def bit(self):
        return E.call('arrayShift', E.var(self.bits))

    def atom(self, scope):
        c = self.c
        k = c.draw(6)
        if k <= 2:
            return E.var(c.pick(scope))
        if k == 3:
            return E.num(c.pick([0, 1, 2, 3, 10, 0.5]))
        if k == 4:
            return E.string(c.pick(['', 'a', 'b', "it's", 'x y']))
        return E.var(c.pick(['null', 'true', 'false']))

    def expr(self, scope, depth=2):
        c = self.c
        k = c.draw(9) if depth > 0 else 0
        if k <= 2:
            return self.atom(scope)
        if k == 3:
            return E.binary(c.pick(['+', '-', '*', '==', '<', '!=', '>=']), self.expr(scope, depth - 1), self.expr(scope, depth - 1))
        if k == 4:
            return E.binary(c.pick(['&&', '||']), self.expr(scope, depth - 1), self.expr(scope, depth - 1))
        if k == 5:
            return E.unary(c.pick('!-'), self.expr(scope, depth - 1))
        if k == 6 and self.functions:
            return self.call(scope, depth)
        if k == 7:
            return E.call('arrayNew', *[self.expr(scope, depth - 1) for _ in range(c.draw(4))])
        if k == 8:
            return c.pick([
                lambda: E.call('arrayLength', self.expr(scope, 0)),
                lambda: E.call('arrayGet', self.expr(scope, 0), E.num(c.draw(3))),
                lambda: E.call('systemType', self.expr(scope, 0)),
                lambda: E.call('if', self.expr(scope, 0), self.expr(scope, 0), self.expr(scope, 0)),
                lambda: E.call('arrayPush', self.expr(scope, 0), E.num(c.draw(4))),
                self.bit,
            ])()
        return self.atom(scope)

    def call(self, scope, depth=1):
        c = self.c
        name, nparams = c.pick(self.functions)
        return E.call(name, *[self.expr(scope, depth - 1) for _ in range(c.draw(nparams + 2))])

    def log(self, scope):
        self.labels += 1
        label = f'L{self.labels}'
        c = self.c
        if c.draw(3):
            return ('expr', E.call('systemLog', E.binary('+', E.string(label + ' '), self.expr(scope, 1))))
        return ('expr', E.call('systemLog', E.string(label)))

    def cond(self, scope):
        c = self.c
        k = c.draw(6)
        if k <= 2:
            return self.bit()
        if k == 3:
            self.labels += 1
            return E.binary('||', E.call('systemLog', E.string(f'c{self.labels}')), self.bit())
        if k == 4:
            return E.unary('!', self.bit())
        if c.draw(4) == 3:
            return E.group(self.expr(scope, 1))
        return self.expr(scope, 2)

    def block(self, scope, depth, loop, in_fn, least=0):
        c = self.c
        out = []
        n = least + c.small(4, 3, 5)
        for _ in range(n):
            if self.budget <= 0:
                break
            out += self.stmt(scope, depth, loop, in_fn)
        return out

    def stmt(self, scope, depth, loop, in_fn):
        c = self.c
        self.budget -= 1
        nest = depth < self.max_depth
        kind = c.weighted([
            (5, 'log'), (4, 'assign'), (2, 'expr'),
            (5 if nest else 0, 'if'), (4 if nest else 0, 'while'), (4 if nest else 0, 'for'),
            (2 if loop else 0, 'break'), (3 if loop else 0, 'continue'), (1, 'return'),
            (2 if loop else 0, 'condjump'), (1 if self.redefine and self.functions and not in_fn else 0, 'function')
        ])
        if kind == 'function':
            return [self.again()]
        if kind == 'log':
            return [self.log(scope)]
        if kind == 'assign':
            target = c.pick([v for v in scope if not v.startswith('k')] if not in_fn else scope)
            return [('assign', target if not target.startswith('k') else scope[0], self.expr(scope))]
        if kind == 'expr':
            return [('expr', self.expr(scope))]
        if kind == 'break':
            return [('break',)]
        if kind == 'continue':
            return [('continue',)]
        if kind == 'condjump':
            return [('if', [(self.bit(), [(c.pick(['break', 'continue']),)])], None)]
        if kind == 'return':
            ret = ('return', self.expr(scope) if c.draw(3) else None)
            return [('if', [(self.bit(), [ret])], None)] if c.draw(3) else [ret]
        if kind == 'if':
            arms = [(self.cond(scope), self.block(scope, depth + 1, loop, in_fn, 1))]
            for _ in range(c.small(3, 1, 3)):
                arms.append((self.cond(scope), self.block(scope, depth + 1, loop, in_fn)))
            other = self.block(scope, depth + 1, loop, in_fn) if c.draw(2) else None
            return [('if', arms, other)]
        if kind == 'while':
            self.loops += 1
            k = c.draw(4)
            if k <= 1:
                return [('while', self.bit(), self.block(scope, depth + 1, True, in_fn, 1))]
            if k == 2:
                self.labels += 1
                cond = E.binary('||', E.call('systemLog', E.string(f'w{self.labels}')), self.bit())
                return [('while', cond, self.block(scope, depth + 1, True, in_fn, 1))]
            counter = f'k{self.loops}'
            body = [('assign', counter, E.binary('+', E.var(counter), E.num(1)))]
            body += self.block(scope + [counter], depth + 1, True, in_fn)
            return [('assign', counter, E.num(0)),
                    ('while', E.binary('<', E.var(counter), E.num(c.draw(4))), body)]
        self.loops += 1
        var = c.pick(['v', 'v2', scope[0] if not scope[0].startswith('k') else 'v'])
        index = f'ki{self.loops}' if c.draw(2) else None
        inner = scope + [var] + ([index] if index else [])
        k = c.draw(4)
        if k <= 1:
            values = E.call('arrayNew', *[self.expr(scope, 1) for _ in range(c.draw(4))])
        elif k == 2:
            values = self.atom(scope)
        else:
            values = self.expr(scope, 2)
        return [('for', var, index, values, self.block(inner, depth + 1, True, in_fn, 1))]

    def function(self):
        c = self.c
        name = f'fn{len(self.functions)}'
        nparams = c.draw(4)
        params = ['p0', 'p1', 'p2'][:nparams]
        rest = nparams > 0 and c.draw(4) == 3
        scope = params + ['l0', 'l1'] + self.globals[:2]
        body = []
        recursive = nparams > 0 and not rest and c.draw(5) == 4
        if recursive:
            body.append(('if', [(E.unary('!', E.group(E.binary('>', E.var('p0'), E.num(0)))), [('return', self.expr(scope, 1))])], None))
        body += self.block(scope, 1, False, True, 1)
        if recursive:
            rec = E.call(name, E.binary('-', E.call('if', E.binary('>', E.var('p0'), E.num(3)), E.num(3), E.var('p0')), E.num(1)),
                         *[self.expr(scope, 1) for _ in range(nparams - 1)])
            body.append(('assign', 'l0', rec))
            body.append(('return', E.var('l0')))
        self.functions.append((name, nparams))
        return ('function', name, params, rest, body)

    def again(self):
        """Another definition of a function. It calls only functions that come before the first one, so that every call ends."""
        ix = self.c.draw(len(self.functions))
        known = self.functions
        self.functions = known[:ix]
        out = self.function()
        self.functions = known
        return out

    def program(self):
        c = self.c
        out = []
        for _ in range(c.small(self.max_functions, 1, 2)):
            if self.redefine and self.functions and c.draw(6) == 5:
                out.append(self.again())
            out.append(self.function())
            if c.draw(4) == 3:
                out += self.block(self.globals, 1, False, False)
        out += self.block(self.globals, 0, False, False, 1)
        if c.draw(2):
            out.append(('return', self.expr(self.globals)))
        return out
