"""Reference interpreters: expression evaluation, structured (big-step) programs, jump-level models."""

import datetime
import math

from core import Reject

from . import lib
from .values import WORK, RefFunction, compare, is_num, normal_dt, text, truthy, vtype

MS = datetime.timedelta(milliseconds=1)

# The spreadsheet-style expression built-ins and the library functions they are documented to alias
BUILTINS = {
    'abs': 'mathAbs', 'acos': 'mathAcos', 'asin': 'mathAsin', 'atan': 'mathAtan', 'atan2': 'mathAtan2', 'ceil': 'mathCeil',
    'charCodeAt': 'stringCharCodeAt', 'cos': 'mathCos', 'date': 'datetimeNew', 'day': 'datetimeDay', 'endsWith': 'stringEndsWith',
    'indexOf': 'stringIndexOf', 'fixed': 'numberToFixed', 'floor': 'mathFloor', 'fromCharCode': 'stringFromCharCode',
    'hour': 'datetimeHour', 'lastIndexOf': 'stringLastIndexOf', 'len': 'stringLength', 'lower': 'stringLower', 'ln': 'mathLn',
    'log': 'mathLog', 'max': 'mathMax', 'min': 'mathMin', 'millisecond': 'datetimeMillisecond', 'minute': 'datetimeMinute',
    'month': 'datetimeMonth', 'now': 'datetimeNow', 'parseInt': 'numberParseInt', 'parseFloat': 'numberParseFloat', 'pi': 'mathPi',
    'rand': 'mathRandom', 'replace': 'stringReplace', 'rept': 'stringRepeat', 'round': 'mathRound', 'second': 'datetimeSecond',
    'sign': 'mathSign', 'sin': 'mathSin', 'slice': 'stringSlice', 'sqrt': 'mathSqrt', 'startsWith': 'stringStartsWith',
    'text': 'stringNew', 'tan': 'mathTan', 'today': 'datetimeToday', 'trim': 'stringTrim', 'upper': 'stringUpper',
    'year': 'datetimeYear'
}


class RefRuntimeError(Exception):
    """The run ends with BareScriptRuntimeError."""


class Fuel(Reject):
    """The reference run is too long for the case."""


class BudgetExceeded(RefRuntimeError):
    pass


def arith(op, a, b, env=None):
    """Binary operators on values (not && and ||); unsupported operand types give null."""
    if op == '==':
        return compare(a, b) == 0
    if op == '!=':
        return compare(a, b) != 0
    if op == '<':
        return compare(a, b) < 0
    if op == '<=':
        return compare(a, b) <= 0
    if op == '>':
        return compare(a, b) > 0
    if op == '>=':
        return compare(a, b) >= 0
    na, nb = is_num(a), is_num(b)
    ta, tb = vtype(a), vtype(b)
    if op == '+':
        if na and nb:
            return a + b
        if ta == 'string' or tb == 'string':
            r = text(a) + text(b)
            if len(r) > 20000:
                raise Fuel('string too long')
            return r
        if ta == 'datetime' and nb:
            return _offset(a, b, env)
        if na and tb == 'datetime':
            return _offset(b, a, env)
        return None
    if op == '-':
        if na and nb:
            return a - b
        if ta == 'datetime' and tb == 'datetime':
            us = (normal_dt(a) - normal_dt(b)) // datetime.timedelta(microseconds=1)
            if us % 1000 and env is not None:
                env.fuzzy = True
            return (abs(us) + 500) // 1000 * (-1 if us < 0 else 1)
        return None
    if not (na and nb):
        return None
    a, b = float(a), float(b)
    try:
        if op == '*':
            return a * b
        if op == '/':
            return a / b
        if op == '%':
            return a % b
        r = a ** b
        return None if isinstance(r, complex) else r
    except ZeroDivisionError:
        return None
    except OverflowError:
        if env is not None:
            env.fuzzy = True
        return None


def _offset(d, ms, env):
    if ms != ms or math.isinf(ms):
        return None
    try:
        if ms != int(ms) and env is not None:
            env.fuzzy = True
        return normal_dt(d) + datetime.timedelta(milliseconds=ms)
    except OverflowError:
        return None


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, value):
        super().__init__()
        self.value = value


class Env:
    """One reference run."""

    def __init__(self, globals_=None, library=True, fuel=20000, debug=False):
        WORK[0] = 0
        self.globals = globals_ if globals_ is not None else {}
        self.log = []
        self.debug = debug
        self.fuel = fuel
        self.fuzzy = False
        self.depth = 0
        self.max_depth = 0
        self.calls = 0
        # jump level
        self.count = 0
        self.limit = 0
        self.include = None
        self.resolve = [None]
        if library:
            for name, fn in lib.FUNCTIONS.items():
                self.globals.setdefault(name, fn)

    # -- functions ------------------------------------------------------------------
    def invoke(self, fn, args):
        """Call a function value the way a library callback does (failures propagate as Fail)."""
        if not isinstance(fn, RefFunction):
            raise lib.Fail()
        self.calls += 1
        return fn.call(list(args), self)

    def number_of(self, v):
        if vtype(v) not in ('number', 'boolean'):
            raise lib.Fail()
        return v

    # -- expressions ----------------------------------------------------------------
    def eval(self, expr, locals_=None, builtins=False):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()
        key, = expr
        if key in ('number', 'string'):
            return expr[key]
        if key == 'variable':
            name = expr['variable']
            if name == 'null':
                return None
            if name == 'true':
                return True
            if name == 'false':
                return False
            if locals_ is not None and name in locals_:
                return locals_[name]
            return self.globals.get(name)
        if key == 'group':
            return self.eval(expr['group'], locals_, builtins)
        if key == 'unary':
            v = self.eval(expr['unary']['expr'], locals_, builtins)
            if expr['unary']['op'] == '!':
                return not truthy(v)
            return None if not is_num(v) else -v if v != 0 else -float(v)
        if key == 'binary':
            b = expr['binary']
            left = self.eval(b['left'], locals_, builtins)
            if b['op'] == '&&':
                return self.eval(b['right'], locals_, builtins) if truthy(left) else left
            if b['op'] == '||':
                return left if truthy(left) else self.eval(b['right'], locals_, builtins)
            right = self.eval(b['right'], locals_, builtins)
            return arith(b['op'], left, right, self)
        fn = expr['function']
        name = fn['name']
        args = fn.get('args', [])
        if name == 'if':
            test = truthy(self.eval(args[0], locals_, builtins)) if args else False
            branch = 1 if test else 2
            return self.eval(args[branch], locals_, builtins) if len(args) > branch else None
        values = [self.eval(a, locals_, builtins) for a in args]
        if locals_ is not None and name in locals_:
            target = locals_[name]
        elif name in self.globals:
            target = self.globals[name]
        elif builtins and name in BUILTINS:
            target = lib.FUNCTIONS.get(BUILTINS[name])
            if target is None:
                raise AssertionError(f'no reference for built-in {name}')
        else:
            target = None
        if target is None:
            raise RefRuntimeError(f'Undefined function "{name}"')
        try:
            return self.invoke(target, values)
        except lib.Fail as fail:
            return fail.value

    # -- functions of scripts -------------------------------------------------------
    def script_function(self, name, params, rest, run):
        def call(args, env):
            locals_ = {}
            for i, p in enumerate(params):
                if rest and i == len(params) - 1:
                    locals_[p] = list(args[i:])
                else:
                    locals_[p] = args[i] if i < len(args) else None
            env.depth += 1
            env.max_depth = max(env.max_depth, env.depth)
            if env.depth > 24:
                raise Fuel()
            try:
                return run(locals_)
            finally:
                env.depth -= 1
        return RefFunction(name, call)

    # -- structured programs --------------------------------------------------------
    def program(self, stmts):
        try:
            self.block(stmts, None)
        except _Return as ret:
            return ret.value
        return None

    def _body(self, stmts):
        def run(locals_):
            try:
                self.block(stmts, locals_)
            except _Return as ret:
                return ret.value
            return None
        return run

    def block(self, stmts, locals_):
        for s in stmts:
            self.stmt(s, locals_)

    def stmt(self, s, locals_):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()
        kind = s[0]
        if kind == 'expr':
            self.eval(s[1], locals_)
        elif kind == 'assign':
            v = self.eval(s[2], locals_)
            (self.globals if locals_ is None else locals_)[s[1]] = v
        elif kind == 'function':
            _, name, params, rest, body = s
            self.globals[name] = self.script_function(name, params, rest, self._body(body))
        elif kind == 'return':
            raise _Return(self.eval(s[1], locals_) if s[1] is not None else None)
        elif kind == 'if':
            for cond, body in s[1]:
                if truthy(self.eval(cond, locals_)):
                    self.block(body, locals_)
                    return
            if s[2] is not None:
                self.block(s[2], locals_)
        elif kind == 'while':
            while truthy(self.eval(s[1], locals_)):
                try:
                    self.block(s[2], locals_)
                except _Break:
                    break
                except _Continue:
                    pass
        elif kind == 'for':
            _, var, index, values_expr, body = s
            scope = self.globals if locals_ is None else locals_
            values = self.eval(values_expr, locals_)
            n = len(values) if vtype(values) == 'array' else 0
            i = 0
            if n and index is not None:
                scope[index] = 0
            while i < n:
                scope[var] = values[i] if i < len(values) else None
                try:
                    self.block(body, locals_)
                except _Break:
                    break
                except _Continue:
                    pass
                i += 1
                if index is not None:
                    scope[index] = i
        elif kind == 'break':
            raise _Break()
        elif kind == 'continue':
            raise _Continue()
        else:
            raise AssertionError(kind)

    # -- jump-level models ----------------------------------------------------------
    def model(self, stmts, locals_=None):
        pc = 0
        while pc < len(stmts):
            s = stmts[pc]
            self.fuel -= 1
            if self.fuel < 0:
                raise Fuel()
            key = next(iter(s))
            self.count += 1
            if self.limit and self.count > self.limit:
                raise BudgetExceeded('Exceeded maximum script statements')
            if key == 'expr':
                v = self.eval(s['expr']['expr'], locals_)
                if 'name' in s['expr']:
                    (self.globals if locals_ is None else locals_)[s['expr']['name']] = v
            elif key == 'jump':
                j = s['jump']
                if 'expr' not in j or truthy(self.eval(j['expr'], locals_)):
                    for k, other in enumerate(stmts):
                        if next(iter(other)) == 'label' and other['label'] == j['label']:
                            pc = k
                            break
                    else:
                        raise RefRuntimeError(f'Unknown jump label "{j["label"]}"')
            elif key == 'return':
                return self.eval(s['return']['expr'], locals_) if 'expr' in s['return'] else None
            elif key == 'function':
                f = s['function']
                self.globals[f['name']] = self.script_function(
                    f['name'], f.get('args', []), bool(f.get('lastArgArray')),
                    lambda scope, body=f['statements']: self.model(body, scope))
            elif key == 'include':
                for inc in s['include']['includes']:
                    self.include(self, inc)
            pc += 1
        return None
