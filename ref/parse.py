"""Reference expression grammar: an independent scanner and precedence climber."""

LEVELS = {
    '||': 1, '&&': 2,
    '==': 3, '!=': 3,
    '<=': 4, '<': 4, '>=': 4, '>': 4,
    '+': 5, '-': 5,
    '*': 6, '/': 6, '%': 6,
    '**': 7
}
OPS = list(LEVELS)
_OPS_LONGEST = ['**', '<=', '>=', '==', '!=', '&&', '||', '*', '/', '%', '+', '-', '<', '>']


class RefSyntaxError(Exception):
    def __init__(self, pos, what='syntax', at=None):
        super().__init__(f'{what} at {pos}')
        self.pos = pos
        self.at = pos if at is None else at     # where the text stopped making sense
        self.what = what


def _word(ch):
    return ch.isalnum() or ch == '_'


def _start(ch):
    return 'A' <= ch <= 'Z' or 'a' <= ch <= 'z' or ch == '_'


class RefUnsure(Exception):
    """A corner the language does not define (blank bracketed names, backslash runs in them)."""


class Parser:
    def __init__(self, text):
        self.t = text
        self.n = len(text)
        self.i = 0

    def ws(self):
        while self.i < self.n and self.t[self.i].isspace():
            self.i += 1

    def peek(self):
        return self.t[self.i] if self.i < self.n else ''

    def operator(self):
        save = self.i
        self.ws()
        for op in _OPS_LONGEST:
            if self.t.startswith(op, self.i):
                self.i += len(op)
                return op
        self.i = save
        return None

    def expression(self):
        # Shunting-yard over (operand, operator) with left associativity
        operands = [self.unary()]
        operators = []

        def reduce():
            right = operands.pop()
            left = operands.pop()
            operands.append({'binary': {'op': operators.pop(), 'left': left, 'right': right}})

        while True:
            op = self.operator()
            if op is None:
                break
            while operators and LEVELS[operators[-1]] >= LEVELS[op]:
                reduce()
            operators.append(op)
            operands.append(self.unary())
        while operators:
            reduce()
        return operands[0]

    def unary(self):
        begin = self.i
        self.ws()
        ch = self.peek()
        if ch == '(':
            self.i += 1
            inner = self.expression()
            here = self.i
            self.ws()
            if self.peek() != ')':
                raise RefSyntaxError(begin, 'paren', here)
            self.i += 1
            return {'group': inner}
        if ch in ('!', '-') and ch:
            self.i += 1
            return {'unary': {'op': ch, 'expr': self.unary()}}
        if ch and _start(ch):
            j = self.i
            while j < self.n and _word(self.t[j]):
                j += 1
            name = self.t[self.i:j]
            k = j
            while k < self.n and self.t[k].isspace():
                k += 1
            if k < self.n and self.t[k] == '(':
                self.i = k + 1
                return self.call(name)
            self.i = j
            return {'variable': name}
        if ch and (ch.isdecimal() or ch == '+'):
            return self.number(begin)
        if ch in ('"', "'") and ch:
            return self.string(ch, begin)
        if ch == '[':
            return self.bracket(begin)
        raise RefSyntaxError(begin)

    def call(self, name):
        args = []
        while True:
            here = self.i
            self.ws()
            if self.peek() == ')':
                self.i += 1
                return {'function': {'name': name, 'args': args}}
            if args:
                if self.peek() != ',':
                    raise RefSyntaxError(here)
                self.i += 1
            args.append(self.expression())

    def number(self, begin):
        j = self.i
        t, n = self.t, self.n
        if t[j] in '+':
            j += 1
        d = j
        while j < n and t[j].isdecimal():
            j += 1
        if j == d:
            raise RefSyntaxError(begin)
        if j < n and t[j] == '.':
            j += 1
            while j < n and t[j].isdecimal():
                j += 1
        if j + 2 < n and t[j] == 'e' and t[j + 1] in '+-' and t[j + 2].isdecimal():
            j += 2
            while j < n and t[j].isdecimal():
                j += 1
        text = t[self.i:j]
        self.i = j
        return {'number': float(text)}

    def string(self, quote, begin):
        # Closed by the first quote that is not consumed by an escape pair
        j = self.i + 1
        out = []
        t, n = self.t, self.n
        while j < n and t[j] != quote:
            if t[j] == '\\' and j + 1 < n and t[j + 1] in ('\\', quote):
                out.append(t[j + 1])
                j += 2
            else:
                out.append(t[j])
                j += 1
        if j >= n:
            if '\\' in t[self.i:]:
                raise RefUnsure()
            raise RefSyntaxError(begin, 'string')
        self.i = j + 1
        return {'string': ''.join(out)}

    def bracket(self, begin):
        j = self.i + 1
        t, n = self.t, self.n
        while j < n and t[j].isspace():
            j += 1
        out = []
        while j < n and t[j] != ']':
            if t[j] == '\\' and j + 1 < n and t[j + 1] in ('\\', ']'):
                if t[j + 1] == '\\':
                    raise RefUnsure()
                out.append(t[j + 1])
                j += 2
            else:
                out.append(t[j])
                j += 1
        if j >= n and '\\' in t[self.i:]:
            raise RefUnsure()
        if j < n and not out and j > self.i + 1:
            raise RefUnsure()
        if j >= n or not out:
            raise RefSyntaxError(begin, 'bracket')
        self.i = j + 1
        return {'variable': ''.join(out)}


def parse_expr(text):
    """The whole text as one expression; RefSyntaxError if it is not one."""
    p = Parser(text)
    expr = p.expression()
    here = p.i
    p.ws()
    if p.i != p.n:
        raise RefSyntaxError(here, 'rest')
    return expr
