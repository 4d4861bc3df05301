"""Reference models of the array, object, string, math and system library functions.

Written from the documented contracts: each function is a parameter specification, a
documented failure value and an implementation over plain lists, dicts and strings.
"""

import functools
import math
import re
import urllib.parse

from .values import RefFunction, compare, is_num, text, truthy, vtype


class Fail(Exception):
    """The call fails and evaluates to this value."""

    def __init__(self, value=None):
        super().__init__('reference failure')
        self.value = value


MISSING = object()


def P(type_=None, nullable=False, default=MISSING, integer=False, gte=None, lte=None, gt=None, rest=False):
    return (type_, nullable, default, integer, gte, lte, gt, rest)


def INDEX(nullable=False, default=MISSING):
    return P('number', nullable=nullable, default=default, integer=True, gte=0)


ANY = P()
ARR = P('array')
OBJ = P('object')
STR = P('string')
NUM = P('number')
REST = P(rest=True)


def bind(params, args, fail):
    out = []
    for i, (type_, nullable, default, integer, gte, lte, gt, rest) in enumerate(params):
        if rest:
            out.append(list(args[i:]))
            return out
        if i >= len(args):
            if default is not MISSING:
                out.append(default)
            elif type_ == 'boolean':
                out.append(False)
            elif type_ is None or nullable:
                out.append(None)
            else:
                raise Fail(fail)
            continue
        v = args[i]
        if type_ is None:
            out.append(v)
            continue
        if type_ == 'boolean':
            out.append(truthy(v))
            continue
        if v is None:
            if not nullable:
                raise Fail(fail)
            out.append(None)
            continue
        if vtype(v) != type_:
            raise Fail(fail)
        if type_ == 'number':
            if v != v:
                if integer or gte is not None or gt is not None or lte is not None:
                    raise Fail(fail)
            if integer and (math.isinf(v) or int(v) != v):
                raise Fail(fail)
            if (gte is not None and not v >= gte) or (lte is not None and not v <= lte) or (gt is not None and not v > gt):
                raise Fail(fail)
            if integer:
                v = int(v)
        out.append(v)
    if len(args) > len(params):
        raise Fail(fail)
    return out


LIB = {}


def define(name, *params, fail=None):
    def wrap(fn):
        def call(args, env):
            return fn(env, *bind(params, args, fail))
        LIB[name] = call
        return fn
    return wrap


def raw(name):
    def wrap(fn):
        LIB[name] = lambda args, env: fn(env, args)
        return fn
    return wrap


# -- arrays -----------------------------------------------------------------------------

@define('arrayCopy', ARR)
def _(_e, a):
    return [x for x in a]


@define('arrayDelete', ARR, INDEX())
def _(_e, a, i):
    if i >= len(a):
        raise Fail()
    a.pop(i)


@define('arrayExtend', ARR, ARR)
def _(_e, a, b):
    for x in list(b):
        a.append(x)
    return a


@define('arrayGet', ARR, INDEX())
def _(_e, a, i):
    if i >= len(a):
        raise Fail()
    return a[i]


@define('arrayIndexOf', ARR, ANY, INDEX(default=0), fail=-1)
def _(e, a, v, i):
    if i >= len(a):
        return -1
    for k in range(i, len(a)):
        if (truthy(e.invoke(v, [a[k]])) if vtype(v) == 'function' else compare(a[k], v) == 0):
            return k
    return -1


@define('arrayLastIndexOf', ARR, ANY, INDEX(nullable=True), fail=-1)
def _(e, a, v, i):
    if i is None:
        i = len(a) - 1
    if i >= len(a):
        return -1
    k = i
    while k >= 0:
        if (truthy(e.invoke(v, [a[k]])) if vtype(v) == 'function' else compare(a[k], v) == 0):
            return k
        k -= 1
    return -1


@define('arrayJoin', ARR, STR)
def _(_e, a, sep):
    out = ''
    for i, x in enumerate(a):
        out += (sep if i else '') + text(x)
    return out


@define('arrayLength', ARR, fail=0)
def _(_e, a):
    return len(a)


@raw('arrayNew')
def _(_e, args):
    return list(args)


@define('arrayNewSize', INDEX(default=0), P(default=0))
def _(_e, n, v):
    return [v] * n


@define('arrayPop', ARR)
def _(_e, a):
    if not a:
        raise Fail()
    return a.pop(len(a) - 1)


@define('arrayPush', ARR, REST)
def _(_e, a, vs):
    for v in vs:
        a.append(v)
    return a


@define('arraySet', ARR, INDEX(), ANY)
def _(_e, a, i, v):
    if i >= len(a):
        raise Fail()
    a[i] = v
    return v


@define('arrayShift', ARR)
def _(_e, a):
    if not a:
        raise Fail()
    return a.pop(0)


@define('arraySlice', ARR, INDEX(default=0), INDEX(nullable=True))
def _(_e, a, i, j):
    if j is None:
        j = len(a)
    if i is None or i > len(a) or j > len(a):
        raise Fail()
    return [a[k] for k in range(i, j)]


@define('arraySort', ARR, P('function', nullable=True))
def _(e, a, fn):
    key = functools.cmp_to_key(compare if fn is None else (lambda x, y: e.number_of(e.invoke(fn, [x, y]))))
    a[:] = sorted(a, key=key)
    return a


# -- objects ----------------------------------------------------------------------------

@define('objectAssign', OBJ, OBJ)
def _(_e, o, p):
    for k in list(p):
        o[k] = p[k]
    return o


@define('objectCopy', OBJ)
def _(_e, o):
    return {k: o[k] for k in o}


@define('objectDelete', OBJ, STR)
def _(_e, o, k):
    if k in o:
        o.pop(k)


@raw('objectGet')
def _(_e, args):
    default = args[2] if len(args) > 2 else None
    o, k, d = bind((OBJ, STR, ANY), args, default)
    return o[k] if k in o else d


@define('objectHas', OBJ, STR, fail=False)
def _(_e, o, k):
    return k in list(o)


@define('objectKeys', OBJ)
def _(_e, o):
    return [k for k in o]


@raw('objectNew')
def _(_e, args):
    out = {}
    for i in range(0, len(args), 2):
        if vtype(args[i]) != 'string':
            raise Fail()
        out[args[i]] = args[i + 1] if i + 1 < len(args) else None
    return out


@define('objectSet', OBJ, STR, ANY)
def _(_e, o, k, v):
    o[k] = v
    return v


# -- strings ----------------------------------------------------------------------------

@define('stringCharCodeAt', STR, INDEX())
def _(_e, s, i):
    if i >= len(s):
        raise Fail()
    return ord(s[i])


@define('stringEndsWith', STR, STR)
def _(_e, s, t):
    return len(t) <= len(s) and s[len(s) - len(t):] == t


@raw('stringFromCharCode')
def _(_e, args):
    out = ''
    for v in args:
        if not is_num(v) or v != v or math.isinf(v) or int(v) != v or v < 0 or v > 0x10ffff:
            raise Fail()
    for v in args:
        out += chr(int(v))
    return out


@define('stringIndexOf', STR, STR, INDEX(default=0), fail=-1)
def _(_e, s, t, i):
    if i >= len(s):
        return -1
    for k in range(i, len(s) - len(t) + 1):
        if s[k:k + len(t)] == t:
            return k
    return -1


@define('stringLastIndexOf', STR, STR, INDEX(nullable=True), fail=-1)
def _(_e, s, t, i):
    if i is None:
        i = len(s) - 1
    if i >= len(s):
        return -1
    k = i
    while k >= 0:
        if s[k:k + len(t)] == t:
            return k
        k -= 1
    return -1


@define('stringLength', STR, fail=0)
def _(_e, s):
    return len(s)


@define('stringLower', STR)
def _(_e, s):
    return s.lower()


@define('stringNew', ANY)
def _(_e, v):
    return text(v)


@define('stringRepeat', STR, INDEX())
def _(_e, s, n):
    return ''.join([s] * n)


@define('stringReplace', STR, STR, STR)
def _(_e, s, t, u):
    if t == '':
        return u + ''.join(ch + u for ch in s)
    out, i = '', 0
    while i < len(s):
        if s[i:i + len(t)] == t:
            out += u
            i += len(t)
        else:
            out += s[i]
            i += 1
    return out


@define('stringSlice', STR, INDEX(), INDEX(nullable=True))
def _(_e, s, i, j):
    if j is None:
        j = len(s)
    if i > len(s) or j > len(s):
        raise Fail()
    return ''.join(s[k] for k in range(i, j))


@define('stringSplit', STR, STR)
def _(_e, s, t):
    if t == '':
        raise Fail()
    out, cur, i = [], '', 0
    while i < len(s):
        if s[i:i + len(t)] == t:
            out.append(cur)
            cur = ''
            i += len(t)
        else:
            cur += s[i]
            i += 1
    out.append(cur)
    return out


@define('stringStartsWith', STR, STR)
def _(_e, s, t):
    return s[:len(t)] == t


@define('stringTrim', STR)
def _(_e, s):
    i, j = 0, len(s)
    while i < j and s[i].isspace():
        i += 1
    while j > i and s[j - 1].isspace():
        j -= 1
    return s[i:j]


@define('stringUpper', STR)
def _(_e, s):
    return s.upper()


@define('regexEscape', STR)
def _(_e, s):
    return re.escape(s)


@define('urlEncode', STR)
def _(_e, s):
    try:
        return urllib.parse.quote(s, safe="':/&+")
    except UnicodeEncodeError:
        raise Fail() from None


@define('urlEncodeComponent', STR)
def _(_e, s):
    try:
        return urllib.parse.quote(s, safe="'")
    except UnicodeEncodeError:
        raise Fail() from None


# -- numbers ----------------------------------------------------------------------------

@define('mathAbs', NUM)
def _(_e, x):
    return -x if x < 0 else x


@define('mathFloor', NUM)
def _(_e, x):
    if x != x or math.isinf(x):
        raise Fail()
    return math.floor(x)


@define('mathCeil', NUM)
def _(_e, x):
    if x != x or math.isinf(x):
        raise Fail()
    return math.ceil(x)


@define('mathSign', NUM)
def _(_e, x):
    return (x > 0) - (x < 0)


@define('mathSqrt', P('number', gte=0))
def _(_e, x):
    return math.sqrt(x)


@raw('mathMax')
def _(_e, args):
    best = None
    for i, v in enumerate(args):
        if i == 0 or compare(v, best) > 0:
            best = v
    return best


@raw('mathMin')
def _(_e, args):
    best = None
    for i, v in enumerate(args):
        if i == 0 or compare(v, best) < 0:
            best = v
    return best


# -- system -----------------------------------------------------------------------------

@define('systemBoolean', ANY)
def _(_e, v):
    return truthy(v)


@define('systemCompare', ANY, ANY)
def _(_e, a, b):
    return compare(a, b)


@define('systemIs', ANY, ANY)
def _(_e, a, b):
    if is_num(a) and is_num(b):
        return a == b
    return a is b


@define('systemLog', ANY)
def _(e, v):
    e.log.append(text(v))


@define('systemLogDebug', ANY)
def _(e, v):
    if e.debug:
        e.log.append(text(v))


@define('systemGlobalGet', STR, ANY)
def _(e, name, default):
    return e.globals[name] if name in e.globals else default


@define('systemGlobalSet', STR, ANY)
def _(e, name, v):
    e.globals[name] = v
    return v


@define('systemPartial', P('function'), REST)
def _(_e, fn, args):
    if not args:
        raise Fail()
    return RefFunction('partial', lambda extra, env: env.invoke(fn, args + list(extra)))


@define('systemType', ANY)
def _(_e, v):
    return vtype(v)


FUNCTIONS = {name: RefFunction(name, call) for name, call in LIB.items()}
