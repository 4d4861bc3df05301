"""C15: array, object and string functions obey their sequence, map and string contracts."""

import functools
import itertools
import math
import re

from bare_script import parse_script

from core import Enum, Gen
from gen import libargs
from gen import values as V
from harness import LIBRARY, HostFn, ambient, call, run_target, to_side
from ref.interp import Env
from ref.lib import FUNCTIONS, Fail
from ref.values import RefFunction, clone, compare, num_text, same, show, text, truthy, vtype

RULE = ('Scripts of up to 30 library calls over seven aliased variables (arrays in arrays, objects in objects, cycles; float-literal indices from -2 to '
        'len+2, fractions; wrong-typed, missing and surplus arguments; sort and search callbacks), with the result and the whole pool - including which '
        'containers are the same container - compared with the reference model after every call; every function over a complete grid of short arrays, objects '
        'and strings and all indices; every argument of every function replaced by every type; string functions over full Unicode; regexEscape '
        'by matching; URL encoding by an independent percent-decoder. Non-trivial: a history of 5 or more calls of which one changes a container, or '
        'a call with two or more arguments; distinct by text.')
ASSUMPTIONS = ['Object keys keep their insertion order.', 'Callbacks neither touch the array they are called for nor fail.',
               'Upper and lower case are those of the Unicode tables of the Python running the check.']

POOL = [f'v{i}' for i in range(7)]
FNS = sorted(n for n in FUNCTIONS if n.startswith(('array', 'object', 'string', 'regexEscape', 'urlEncode')))
MUTATORS = {'arrayDelete', 'arrayExtend', 'arrayPop', 'arrayPush', 'arraySet', 'arrayShift', 'arraySort', 'objectAssign', 'objectDelete', 'objectSet'}
DEEP = {'arrayIndexOf', 'arrayLastIndexOf', 'arrayJoin', 'arraySort', 'stringNew'}
KEYS = ['a', 'b', 'c', '', 'length', '.0,', '0']
WORDS = ['', 'a', 'b', 'ab', 'aba', 'bab', ' a ', ',', 'a,b,,c', 'ÀÉ', '\U0001f600x', "it's", 'a/b?c=d&e', '%41', '(a|b)*', 'null']


def canon(values):
    """Text of some values that shows which containers are the same one."""
    ids = {}
    out = []

    def walk(v):
        t = vtype(v)
        if t == 'array' or t == 'object':
            if id(v) in ids:
                out.append(f'#{ids[id(v)]}')
                return
            ids[id(v)] = len(ids)
            out.append(f'#{ids[id(v)]}=')
            if t == 'array':
                out.append('[')
                for x in v:
                    walk(x)
                    out.append(' ')
                out.append(']')
            else:
                out.append('{')
                for k, x in v.items():
                    out.append(f'{k!r}:')
                    walk(x)
                    out.append(' ')
                out.append('}')
        elif t == 'number':
            out.append(num_text(0.0 if v == 0 else v))
        elif t == 'function' or t == 'regex':
            out.append(t)
        else:
            out.append(repr(v))
    for v in values:
        walk(v)
        out.append('; ')
    return ''.join(out)


def snap(args, log):
    log(canon(args))


SNAP = HostFn('snap', snap)


def cyclic(v, path=()):
    if isinstance(v, (list, dict)):
        if id(v) in path:
            return True
        path = path + (id(v),)
        return any(cyclic(x, path) for x in (v if isinstance(v, list) else v.values()))
    return False


def size(v):
    """Number of nodes of an acyclic value (a tree walk, capped)."""
    count = 0
    stack = [v]
    while stack and count < 400:
        v = stack.pop()
        count += 1
        if isinstance(v, list):
            stack.extend(v)
        elif isinstance(v, dict):
            stack.extend(v.values())
    return count


PRELUDE = '''function cmpUp(x, y):
    return systemCompare(x, y)
endfunction
function cmpDown(x, y):
    return systemCompare(y, x)
endfunction
function cmpNone():
    return 0
endfunction
function cmpFrac(x, y):
    return systemCompare(x, y) / 4
endfunction
function cmpBig(x, y):
    return -1000.5 * systemCompare(x, y)
endfunction
function itself(x):
    return x
endfunction
function isSame(x):
    return x == 'a' || systemType(x) == 'array'
endfunction
function never():
endfunction
'''


def arg_of(args, i):
    return args[i] if i < len(args) else None


CALLBACKS = {
    'cmpUp': RefFunction('cmpUp', lambda args, e: compare(arg_of(args, 0), arg_of(args, 1))),
    'cmpDown': RefFunction('cmpDown', lambda args, e: compare(arg_of(args, 1), arg_of(args, 0))),
    'cmpNone': RefFunction('cmpNone', lambda args, e: 0),
    'cmpFrac': RefFunction('cmpFrac', lambda args, e: compare(arg_of(args, 0), arg_of(args, 1)) / 4),
    'cmpBig': RefFunction('cmpBig', lambda args, e: -1000.5 * compare(arg_of(args, 0), arg_of(args, 1))),
    'itself': RefFunction('itself', lambda args, e: arg_of(args, 0)),
    'isSame': RefFunction('isSame', lambda args, e: compare(arg_of(args, 0), 'a') == 0 or vtype(arg_of(args, 0)) == 'array'),
    'never': RefFunction('never', lambda args, e: None),
}


class History:
    """Builds a script while running it on the reference."""

    def __init__(self, c):
        self.c = c
        self.env = Env({}, fuel=10 ** 6)
        self.pool = {}
        self.lines = []
        self.log = []
        self.changes = 0
        self.failures = 0

    def literal(self, v):
        if v is None or isinstance(v, bool):
            return {None: 'null', True: 'true', False: 'false'}[v]
        if isinstance(v, str):
            return "'" + v.replace('\\', '\\\\').replace("'", "\\'") + "'"
        if v == int(v) and self.c.draw(2):
            return f'{int(v)}.0'
        return num_text(v)

    def number(self):
        """An index, mostly near the bounds of some container."""
        c = self.c
        lengths = [len(v) for v in self.pool.values() if isinstance(v, (list, dict, str))]
        n = c.pick(lengths) if lengths else 0
        k = c.draw(8)
        if k <= 4:
            return float(c.int(0, n)) if k <= 3 else float(n)
        return float(c.pick([-2, -1, n + 1, n + 2, 0.5, n - 0.5, 1e6, -0.0]))

    def scalar(self):
        c = self.c
        k = c.draw(8)
        if k == 0:
            return None
        if k == 1:
            return bool(c.draw(2))
        if k <= 4:
            return float(c.int(-1, 5)) if c.draw(4) else 1.5
        return c.pick(WORDS)

    def pick_type(self, t):
        names = [n for n in POOL if vtype(self.pool.get(n)) == t and n in self.pool]
        return self.c.pick(names) if names else None

    def arg(self, code):
        """(source, value) of one argument of a kind; a wrong kind now and then."""
        c = self.c
        if c.draw(14) == 13:
            k = c.draw(4)
            if k == 0:
                fn = c.pick(list(CALLBACKS))
                return fn, CALLBACKS[fn]
            if k == 1:
                return 'datetimeNew(2024, 2, 29)', V.D(2024, 2, 29)
            if k == 2:
                return "regexNew('a')", re.compile('a')
            code = c.pick('vaosi')
        if code == 'a' or code == 'o':
            name = self.pick_type('array' if code == 'a' else 'object')
            if name and c.draw(12):
                return name, self.pool[name]
            return self.fresh(code)
        if code == 's':
            name = self.pick_type('string')
            if name and not c.draw(3):
                return name, self.pool[name]
            v = c.pick(WORDS)
            return self.literal(v), v
        if code == 'k':
            v = c.pick(KEYS)
            return self.literal(v), v
        if code == 'i':
            v = self.number()
            if math.copysign(1, v) < 0:
                return f'-{self.literal(-v)}', v
            return self.literal(v), v
        if code == 'f':
            fn = c.pick(list(CALLBACKS)[:5])
            return fn, CALLBACKS[fn]
        # any value: a pool variable, a scalar, a fresh container
        k = c.draw(6)
        if k <= 2 and self.pool:
            name = c.pick(list(self.pool))
            return name, self.pool[name]
        if k == 5:
            return self.fresh(c.pick('ao'))
        v = self.scalar()
        return self.signed(v), v

    def signed(self, v):
        if isinstance(v, float) and math.copysign(1, v) < 0:
            return '-' + self.literal(-v)
        return self.literal(v)

    def fresh(self, code):
        c = self.c
        if code == 'a':
            items = [self.inner() for _ in range(c.draw(4))]
            return 'arrayNew(' + ', '.join(s for s, _ in items) + ')', [v for _, v in items]
        keys = c.shuffle(KEYS)[:c.draw(4)]
        items = {k: self.inner() for k in keys}
        return 'objectNew(' + ', '.join(f'{self.literal(k)}, {s}' for k, (s, _) in items.items()) + ')', {k: v for k, (_, v) in items.items()}

    def inner(self):
        if self.pool and not self.c.draw(3):
            name = self.c.pick(list(self.pool))
            return name, self.pool[name]
        v = self.scalar()
        return self.signed(v), v

    CODES = {**{n: libargs.SIGNATURES[n] for n in FNS if n in libargs.SIGNATURES},
             'objectDelete': 'ok', 'objectGet': 'okv?', 'objectHas': 'ok', 'objectSet': 'okv', 'objectNew': 'kvkv', 'stringRepeat': 'si', 'arrayNewSize': 'i?v?'}

    def step(self):
        """One call; False: not this one."""
        c = self.c
        name = c.weighted([(3, 'm'), (2, 'r'), (4, 'any')])
        name = c.pick(sorted(MUTATORS)) if name == 'm' else c.pick(FNS) if name == 'any' else \
            c.pick(['arrayGet', 'arraySlice', 'arrayCopy', 'objectCopy', 'objectGet', 'objectKeys', 'stringSplit', 'arrayIndexOf'])
        args = []
        for code, mod in libargs.parse(self.CODES[name]):
            if mod == '?' and not c.draw(2):
                break
            for _ in range(c.draw(4) if mod == '*' else 1):
                args.append(self.arg(code))
        k = c.draw(16)
        if k == 15 and args:
            args.pop()
        elif k == 14:
            args.append(self.arg('v'))
        values = [v for _, v in args]
        if name in ('arrayNewSize', 'stringRepeat') and any(isinstance(v, float) and v > 100 for v in values):
            return False
        if name == 'stringLastIndexOf' and values[:2] == ['', '']:
            return False
        if name in DEEP and any(cyclic(v) for v in values):
            return False
        if sum(size(v) for v in values) > 120 or sum(len(v) for v in values if isinstance(v, str)) > 200:
            return False
        before = canon(list(self.pool.values()))
        try:
            result = FUNCTIONS[name].call(values, self.env)
        except Fail as fail:
            result = fail.value
            self.failures += 1
        if before != canon(list(self.pool.values())):
            self.changes += 1
        target = c.pick(POOL) if c.draw(3) == 0 or len(self.pool) < 4 else 'rr'
        src = f'{name}({", ".join(s for s, _ in args)})'
        self.lines.append(f'{target} = {src}')
        c.tag(name)
        if target != 'rr':
            self.pool[target] = result
            result = None
            self.lines.append('rr = null')
        if c.draw(10) == 0 and self.pool:
            a, b = c.pick(POOL), c.pick(list(self.pool))
            self.lines.append(f'{a} = {b}')
            self.pool[a] = self.pool[b]
        self.lines.append(f'snap(rr, {", ".join(POOL)})')
        self.log.append(canon([result] + [self.pool.get(n) for n in POOL]))
        return True


def histories(c):
    h = History(c)
    steps = c.int(5, 30)
    done = 0
    for _ in range(3 * steps):
        if done == steps:
            break
        done += h.step()
    start = [f'{n} = null' for n in POOL] + ['rr = null']
    if c.draw(2):
        body = start + h.lines
    else:
        body = ['function main():'] + ['    ' + s for s in start + h.lines] + ['endfunction', 'main()']
        c.tag('in a function')
    text_ = PRELUDE + '\n'.join(body) + '\n'
    c.sample('\n'.join(h.lines))
    c.weight = done
    if done >= 5 and h.changes:
        c.nontrivial('\n'.join(h.lines))
    model = parse_script(text_)
    got = run_target(model, {'snap': SNAP.target()}, **ambient(text_))
    if got.kind != 'ok':
        c.fail(f'{got!r}\n{text_}')
    for i, want in enumerate(h.log):
        have = got.log[i] if i < len(got.log) else None
        if want != have:
            calls = [s for s in h.lines if not s.startswith('rr = null')]
            at = [k for k, s in enumerate(calls) if s.startswith('snap(')][i]
            c.fail(f'after call {i + 1} of:\n' + '\n'.join(s for s in calls[:at] if not s.startswith('snap(')) +
                   f'\nresult and variables: {have}\nexpected:             {want}')
    if len(got.log) != len(h.log):
        c.fail(f'{len(got.log)} calls logged, expected {len(h.log)}\n{text_}')


# -- one call against the reference, with argument state and aliasing ------------------------------

def one_call(c, name, args, options=None):
    """Same result, same containers, same state of the arguments; gives the reference result."""
    mine, theirs = clone(args), clone(args)
    mine = [to_side(v, 'ref') if isinstance(v, HostFn) else v for v in mine]
    theirs = [to_side(v, 'target') if isinstance(v, HostFn) else v for v in theirs]
    env = Env({}, fuel=10 ** 6)
    failed = False
    try:
        want = FUNCTIONS[name].call(mine, env)
    except Fail as fail:
        want, failed = fail.value, True
    got = call(name, theirs, options)
    a, b = canon([want] + mine), canon([got] + theirs)
    if a != b:
        c.fail(f'{name}({", ".join(show(v) for v in args)}) gives and leaves {b}\nexpected {a}')
    if len(args) >= 2:
        c.nontrivial(f'{name} {canon(args)}')
    c.tag('failure' if failed else 'success')
    return want


OPTIONS = {'globals': dict(LIBRARY)}
ARRAYS = [[], ['a'], ['a', 'b'], [1.0, 'a', 1], ['b', None, 'b', 'a'], [[1.0], [1.0], {'a': 1.0}, [1.0]]]
SHARED = [1.0]
ARRAYS.append([SHARED, SHARED, [1.0]])
STRS = ['', 'a', 'ab', 'aba', 'abab', '\U0001f600\u00e9', 'aXb']
OBJS = [{}, {'a': 1.0}, {'b': 2.0, 'a': 1.0}, {'': None, 'a': SHARED, 'c': [SHARED]}]
ITEMS = ['a', 'b', 1, None, [1.0], {'a': 1}, '', SHARED]


def indices(n):
    out = []
    for k in range(-2, n + 3):
        out += [float(k), k]
    out += [0.5, n - 0.5, n + 0.5, -0.0, 1e15, float('inf'), float('nan'), None, '0', True]
    return out


def grid_items(_tier):
    for a in ARRAYS:
        idx = indices(len(a))
        for name in ('arrayCopy', 'arrayLength', 'arrayPop', 'arrayShift', 'arraySort', 'arrayPush'):
            yield name, [a]
        for i in idx:
            yield 'arrayDelete', [a, i]
            yield 'arrayGet', [a, i]
            yield 'arraySlice', [a, i]
            for v in ITEMS:
                yield 'arraySet', [a, i, v]
                yield 'arrayIndexOf', [a, v, i]
                yield 'arrayLastIndexOf', [a, v, i]
            for j in idx:
                yield 'arraySlice', [a, i, j]
        for v in ITEMS:
            yield 'arrayIndexOf', [a, v]
            yield 'arrayLastIndexOf', [a, v]
            yield 'arrayPush', [a, v]
            yield 'arrayPush', [a, v, a, v]
            yield 'arraySet', [a, 0.0, v]
        for b in ARRAYS:
            yield 'arrayExtend', [a, b]
        yield 'arrayExtend', [a, a]
        for s in STRS:
            yield 'arrayJoin', [a, s]
    for i in indices(3):
        if i != 1e15:
            yield 'arrayNewSize', [i]
            for v in ITEMS:
                yield 'arrayNewSize', [i, v]
    yield 'arrayNewSize', []
    for s in STRS:
        idx = indices(len(s))
        for name in ('stringLength', 'stringLower', 'stringUpper', 'stringTrim', 'stringNew'):
            yield name, [s]
        for i in idx:
            yield 'stringCharCodeAt', [s, i]
            yield 'stringSlice', [s, i]
            if i != 1e15:
                yield 'stringRepeat', [s, i]
            for t in STRS:
                if s or t:
                    yield 'stringIndexOf', [s, t, i]
                    yield 'stringLastIndexOf', [s, t, i]
            for j in idx:
                yield 'stringSlice', [s, i, j]
        for t in STRS:
            for name in ('stringIndexOf', 'stringLastIndexOf', 'stringStartsWith', 'stringEndsWith', 'stringSplit'):
                if s or t or name != 'stringLastIndexOf':
                    yield name, [s, t]
            for u in STRS:
                yield 'stringReplace', [s, t, u]
    for o in OBJS:
        for name in ('objectCopy', 'objectKeys'):
            yield name, [o]
        for k in KEYS + [None, 1.0, 'zz']:
            for name in ('objectDelete', 'objectGet', 'objectHas'):
                yield name, [o, k]
            for v in ITEMS:
                yield 'objectGet', [o, k, v]
                yield 'objectSet', [o, k, v]
        for p in OBJS:
            yield 'objectAssign', [o, p]
        yield 'objectAssign', [o, o]
    for n in range(4):
        for t in itertools.product(['a', 'b', None, 1.0], repeat=n):
            yield 'objectNew', list(t)
        for t in itertools.product([97, 98.0, 0.0, 0x1f600, 0x10ffff, 0x110000, -1.0, 97.5, 'a', None], repeat=n):
            yield 'stringFromCharCode', list(t)


def grid_check(c, item):
    name, args = item
    c.sample(f'{name}({", ".join(show(v) for v in args)})')
    one_call(c, name, args, OPTIONS)


GOOD = {
    'a': ['x', 'a', 'b', 'a'], 'o': {'a': 1.0, 'b': 'x'}, 's': 'abca', 'k': 'a', 'i': 1.0, 'v': 'a', 'f': None
}
TYPES = V.SHORT + [V.FN2, [['n']], {'a': {'b': 1.0}}, -2.0, 1e300, 'zz', 5, 5.0, 4.0]


# -- long containers ---------------------------------------------------------------------------

def long_size(c):
    return c.pick([15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2047, 2049, 2500, 4095, 4097, 5000])


def long_index(c, n):
    k = c.draw(5)
    v = c.draw(n + 1) if k == 0 else n - 1 - c.draw(3) if k == 1 else n + c.draw(2) if k == 2 else c.pick([0, 1, n // 2, 255, 256, 257, 1000])
    return float(v) if c.draw(2) else v


def long_calls(c):
    """The sequence and map functions on containers and strings of up to a few thousand elements."""
    k = c.draw(7)
    n = long_size(c)
    if k <= 2:
        kinds = c.draw(4)
        m = 1 + c.draw(n)
        a = [(float(i % m) if kinds == 0 else 'e%d' % (i * 7 % m) if kinds == 1 else c.pick(ITEMS) if kinds == 2 else float(n - i)) for i in range(n)]
        name = c.pick(['arrayCopy', 'arrayDelete', 'arrayExtend', 'arrayGet', 'arrayIndexOf', 'arrayJoin', 'arrayLastIndexOf', 'arrayLength', 'arrayPop', 'arrayPush', 'arraySet',
                       'arrayShift', 'arraySlice', 'arraySort'])
        args = [a]
        for code, mod in libargs.parse(History.CODES[name])[1:]:
            if mod == '?' and not c.draw(3):
                break
            if mod == '*':
                args += [c.pick(ITEMS) for _ in range(c.pick([0, 1, 5, 70, 300]))]
            elif code == 'i':
                args.append(long_index(c, n))
            elif code == 'a':
                args.append([float(i) for i in range(long_size(c))] if c.draw(3) else a)
            elif code == 's':
                args.append(c.pick(['', ', ', 'x' * 300]))
            elif code != 'f':
                args.append(a[c.draw(n)] if c.draw(4) else 'none of them')
    elif k <= 4:
        unit = c.pick(['a', 'ab', 'abc ', 'xX', '\u00e9', '\U0001f600b', ' '])
        s = (unit * n)[:n]
        if c.draw(2):
            i = c.draw(n)
            s = s[:i] + c.pick(['Q', 'QQ', '  ', 'ab']) + s[i:]
        name = c.pick([f for f in STRING_FNS if f != 'stringFromCharCode'])
        args = [s]
        for code, mod in libargs.parse(History.CODES[name])[1:]:
            if mod == '?' and not c.draw(3):
                break
            if code == 'i':
                args.append(c.pick([2, 10.0, 64, 257]) if name == 'stringRepeat' else long_index(c, n))
            else:
                i = c.draw(n)
                args.append(c.pick(['Q', 'a', unit, unit * 2, s[i:i + c.int(1, 300)], 'no', s]))
    else:
        o = {('k%d' % (i * 7919 % n)): c.pick(ITEMS) for i in range(n)}
        name = c.pick(['objectAssign', 'objectCopy', 'objectDelete', 'objectGet', 'objectHas', 'objectKeys', 'objectSet'])
        args = [o]
        for code, mod in libargs.parse(History.CODES[name])[1:]:
            if mod == '?' and not c.draw(3):
                break
            if code == 'o':
                args.append({('k%d' % (i * 31)): float(i) for i in range(long_size(c))})
            else:
                args.append('k%d' % c.draw(n + 3) if code in 'sk' else c.pick(ITEMS))
    c.tag('long:' + name)
    c.sample(f'{name} of {n} elements')
    one_call(c, name, args, OPTIONS)


def wrong_items(_tier):
    for name in FNS:
        codes = libargs.parse(History.CODES[name])
        good = [GOOD[code] if code != 'f' else V.FN2 for code, _ in codes]
        for n in range(len(good) + 1):
            yield name, good[:n]
            for v in TYPES:
                yield name, good[:n] + [v]
                yield name, good + [v]
                for w in TYPES:
                    yield name, good[:n] + [v] + good[n + 1:] + [w]
            if n < len(good):
                for v in TYPES:
                    yield name, good[:n] + [v] + good[n + 1:]
                    for m in range(n + 1, len(good)):
                        for w in TYPES:
                            yield name, good[:n] + [v] + good[n + 1:m] + [w] + good[m + 1:]


def wrong_check(c, item):
    name, args = item
    if name in ('arrayNewSize', 'stringRepeat') and any(isinstance(v, (int, float)) and v > 1000 for v in args):
        return
    if name == 'arraySort' and len(args) > 1 and isinstance(args[1], HostFn):
        args = [args[0], V.FN2] + args[2:]
        return
    c.sample(f'{name}({", ".join(show(v) for v in args)})')
    one_call(c, name, args, OPTIONS)


def fresh_items(_tier):
    yield from (('arrayCopy', [a]) for a in ARRAYS)
    yield from (('arraySlice', [a, 0.0]) for a in ARRAYS)
    yield from (('arraySlice', [a]) for a in ARRAYS)
    yield from (('arraySlice', [a, 0.0, float(len(a))]) for a in ARRAYS)
    yield from (('arrayNew', a) for a in ARRAYS)
    yield from (('arrayNewSize', [n]) for n in (0, 1.0, 3.0))
    yield from (('arrayNewSize', []), ('objectNew', []), ('objectNew', ['a', 1.0]))
    yield from (('objectCopy', [o]) for o in OBJS)
    yield from (('objectKeys', [o]) for o in OBJS)
    yield from (('stringSplit', [s, ',']) for s in ('', 'a', 'a,b', ',,'))


def fresh_check(c, item):
    """Calls give a new container each time, and changing it changes nothing else."""
    name, args = item
    c.sample(f'{name}({", ".join(show(v) for v in args)})')
    c.nontrivial(f'fresh {name} {canon(args)}')
    first = call(name, args, OPTIONS)
    want = canon([first])
    before = canon(args)
    if any(first is x for x in args):
        c.fail(f'{name}({before}) returns its argument')
    if isinstance(first, list):
        call('arrayPush', [first, 'new'], OPTIONS)
        call('arraySet', [first, 0.0, 'changed'], OPTIONS)
    elif isinstance(first, dict):
        call('objectSet', [first, 'new', 1.0], OPTIONS)
        call('objectDelete', [first, 'a'], OPTIONS)
    if canon(args) != before:
        c.fail(f'changing the result of {name}({before}) changes its arguments: {canon(args)}')
    again = call(name, args, OPTIONS)
    if again is first or canon([again]) != want:
        c.fail(f'{name}({before}) gives {canon([again])} after changing its first result, {want} before')
    mutated = clone(args)
    third = call(name, mutated, OPTIONS)
    for x in mutated:
        if isinstance(x, list):
            x.append('new')
            x[0] = 'changed'
        elif isinstance(x, dict):
            x['new'] = 1
    if name not in ('arrayNew', 'arrayNewSize') and canon([third]) != want and not any(isinstance(v, (list, dict)) for v in third):
        c.fail(f'changing the argument of {name}({before}) changes its result: {canon([third])}')


# -- strings --------------------------------------------------------------------------------------

STRING_FNS = [n for n in FNS if n.startswith('string') and n not in ('stringNew',)]
CHARS = ['a', 'a', 'b', 'A', ' ', '\t', '\n', '\u00a0', '\u3000', '\u200b', '\ufeff', '\x1c', 'ß', 'İ', 'ı', 'Σ', 'ς', 'ﬁ', 'é', 'e\u0301', '\U0001f600', '\U00010400', 'ǅ',
         '\x85', ',', '.']


def unicode_text(c, n=6):
    k = c.draw(5)
    if k == 4:
        return ''.join(chr(x) for x in (c.draw(0xd800) if c.draw(3) else c.int(0xe000, 0x10ffff) for _ in range(c.draw(4))))
    alphabet = 'ab' if k <= 1 else CHARS
    return ''.join(c.pick(alphabet) for _ in range(c.draw(n + 1)))


def strings(c):
    name = c.pick(STRING_FNS)
    s = unicode_text(c, 10)
    args = []
    for k, (code, mod) in enumerate(libargs.parse(History.CODES[name])):
        if mod == '?' and not c.draw(2):
            break
        if code == 's':
            if k and s and c.draw(3):
                i = c.draw(len(s))
                args.append(s[i:i + c.int(0, 3)])
            else:
                args.append(unicode_text(c, 3) if k else s)
        elif mod == '*':
            args.extend(float(ord(ch)) for ch in s)
        else:
            v = c.pick([c.draw(len(s) + 2), float(c.draw(len(s) + 2)), len(s), -1, None if name != 'stringRepeat' else 1])
            args.append(v)
    if name == 'stringLastIndexOf' and not any(args[:2]):
        return
    c.sample(f'{name}({", ".join(show(v) for v in args)})')
    one_call(c, name, args, OPTIONS)
    # agreement with each other
    if s:
        i = c.draw(len(s))
        if call('stringFromCharCode', [call('stringCharCodeAt', [s, float(i)], OPTIONS)], OPTIONS) != s[i] or \
                call('stringSlice', [s, float(i), i + 1.0], OPTIONS) != s[i]:
            c.fail(f'character {i} of {s!r}')
    t = unicode_text(c, 2)
    if t:
        parts = call('stringSplit', [s, t], OPTIONS)
        if call('arrayJoin', [parts, t], OPTIONS) != s:
            c.fail(f'stringSplit({s!r}, {t!r}) = {parts!r} does not join back')


# -- regexEscape ----------------------------------------------------------------------------------

SPECIAL = ['.', '*', '+', '?', '(', ')', '[', ']', '{', '}', '^', '$', '|', '\\', '/', '-', '#', ' ', '\n', '\t', '&', '~', '!', '<', '>', '=', ':', ',', '0', '1', '9', 'a',
           'b', 'd', 'w', 's', 'x', 'n', 'N', 'u', 'P', 'i', 'm', 'A', 'Z', '_', 'é', '\U0001f600', '\0', "'", '"', '%', '@', '`', ';', '\r', '\x0b', '\u2028']


def matches(c, s, others, flags=None):
    """The escaped s matches s and only s."""
    pattern = call('regexEscape', [s], OPTIONS)
    if not isinstance(pattern, str):
        c.fail(f'regexEscape({s!r}) = {pattern!r}')
    regex = call('regexNew', [pattern] if flags is None else [pattern, flags], OPTIONS)
    if vtype(regex) != 'regex':
        c.fail(f'regexNew(regexEscape({s!r})) = {regex!r} for {pattern!r}')
    if len(s) > 1:
        c.nontrivial(f'escape {s}')
    for t in others:
        got = call('regexMatch', [regex, t], OPTIONS)
        at = t.find(s)
        with c.inspect('regexMatch'):
            have = -1 if got is None else got['index']
            whole = None if got is None else got['groups']['0']
        if have != at or (at >= 0 and whole != s):
            c.fail(f'regexEscape({s!r}) = {pattern!r} matches {t!r} at {have} ({whole!r}), expected at {at}')
        # whole-string matching
        full = re.fullmatch(regex, t) is not None
        if full is not (t == s):
            c.fail(f'regexEscape({s!r}) = {pattern!r} {"matches" if full else "does not match"} the whole of {t!r}')
        if s:
            count = call('regexReplace', [regex, t, ''], OPTIONS)
            if count != t.replace(s, ''):
                c.fail(f'regexReplace of regexEscape({s!r}) in {t!r} gives {count!r}')
            parts = call('regexSplit', [regex, t], OPTIONS)
            if parts != t.split(s):
                c.fail(f'regexSplit of regexEscape({s!r}) in {t!r} gives {parts!r}')
    # in a larger pattern
    regex = call('regexNew', [f'<({pattern})>' if c is None else f'^<({pattern})>(x*)\\Z'], OPTIONS)
    if vtype(regex) != 'regex':
        c.fail(f'the pattern of regexEscape({s!r}) = {pattern!r} breaks a larger pattern')
    for t in others:
        got = call('regexMatch', [regex, f'<{t}>xx'], OPTIONS)
        if (got is not None) is not (t == s):
            c.fail(f'<(regexEscape({s!r}))>x* {"matches" if got is not None else "does not match"} <{t!r}>xx')


def neighbours(s):
    out = {s, '', s + s, 'a' + s, s + 'a', '\n' + s, s + '\n', s[:-1], s[1:], s + '\\', '\\' + s, s.swapcase(), s.replace('\\', ''), 'x' * len(s), ' ' * len(s), s.strip(), s[::-1]}
    return sorted(out)


def escape_items(_tier):
    for ch in range(0x250):
        yield chr(ch)
    for a in SPECIAL:
        for b in SPECIAL:
            yield a + b
    for t in itertools.product('.*\\[]$^-(', repeat=3):
        yield ''.join(t)


def escape_check(c, s):
    c.sample(repr(s))
    c.weight = 1
    matches(c, s, neighbours(s))


def escape_random(c):
    s = ''.join(c.pick(SPECIAL) for _ in range(c.draw(9))) if c.draw(3) else unicode_text(c)
    others = neighbours(s)
    for _ in range(4):
        t = list(s)
        k = c.draw(3)
        if t and k == 0:
            t[c.draw(len(t))] = c.pick(SPECIAL)
        elif t and k == 1:
            del t[c.draw(len(t))]
        else:
            t.insert(c.draw(len(t) + 1), c.pick(SPECIAL))
        others.append(''.join(t))
    c.sample(repr(s))
    matches(c, s, others, c.pick([None, '', 'm', 's', 'ms']))


# -- URL encoding -----------------------------------------------------------------------------------

HEX = '0123456789ABCDEF'
UNRESERVED = set('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.~')
COMPONENT = UNRESERVED | set("!*'()")
WHOLE = COMPONENT | set(';,/?:@&=+$#')


def decode(t):
    """Percent-decoding."""
    out = bytearray()
    i = 0
    while i < len(t):
        if t[i] == '%':
            h = t[i + 1:i + 3].upper()
            if len(h) != 2 or h[0] not in HEX or h[1] not in HEX:
                return None
            out.append(int(h, 16))
            i += 3
        else:
            out += t[i].encode('utf-8')
            i += 1
    try:
        return out.decode('utf-8')
    except UnicodeDecodeError:
        return None


def url(c, s):
    for name, allowed in (('urlEncode', WHOLE), ('urlEncodeComponent', COMPONENT)):
        t = call(name, [s], OPTIONS)
        if not isinstance(t, str):
            c.fail(f'{name}({s!r}) = {t!r}')
        if decode(t) != s:
            c.fail(f'{name}({s!r}) = {t!r}, which decodes to {decode(t)!r}')
        odd = [ch for ch in t.replace('%', '') if ch not in allowed]
        if odd:
            c.fail(f'{name}({s!r}) = {t!r} leaves {odd!r}')
        for ch in s:
            if ch in UNRESERVED or (name == 'urlEncode' and ch in ':/&+'):
                if call(name, [ch], OPTIONS) != ch:
                    c.fail(f'{name} escapes {ch!r}')
        if t != ''.join(call(name, [ch], OPTIONS) for ch in s):
            c.fail(f'{name}({s!r}) = {t!r} is not made of its characters')
    if len(s) > 1:
        c.nontrivial(f'url {s}')


def url_items(_tier):
    for ch in range(0x300):
        yield chr(ch)
    for a in SPECIAL:
        for b in '%41a&=/ +\n':
            yield a + b


def url_check(c, s):
    c.sample(repr(s))
    url(c, s)


def url_random(c):
    s = unicode_text(c, 12) if c.draw(2) else ''.join(c.pick(SPECIAL + ['%', '%2', '%25', '%41', '%zz', '?', '://', '+']) for _ in range(c.draw(10)))
    c.sample(repr(s))
    url(c, s)


# -- callbacks that look at (and change) the containers --------------------------------------------

LOOKS = ['arrayLength(a)', 'a', 'arrayNew(arrayGet(a, 0), arrayGet(a, arrayLength(a) - 1))', "objectGet(o, 'k')", 'arrayIndexOf(a, x)', 'arrayCopy(a)']
LOOKERS = {'up': ('x - y', lambda x, y, k: x - y), 'down': ('y - x', lambda x, y, k: y - x), 'same': ('0', lambda x, y, k: 0),
           'null at 3': ('if(n == 3, null, x - y)', lambda x, y, k: None if k == 3 else x - y),
           'text at 2': ("if(n == 2, 'a', y - x)", lambda x, y, k: None if k == 2 else y - x)}
LISTS = [(), (1,), (2, 1), (1, 2), (3, 1, 2), (2, 2, 1), (1, 2, 3, 4), (4, 3, 2, 1), (2, 4, 1, 3, 5), (5, 1, 4, 1, 3, 2, 6)]


def look_items(tier):
    for values in LISTS:
        for look in range(len(LOOKS)):
            for kind in LOOKERS:
                for how in ('arraySort(a, ff)', "arraySort(objectGet(o, 'k'), ff)", 'pf(ff)'):
                    yield values, look, kind, how


def look_check(c, item):
    """What a compare function sees of the array being sorted: all of it, through every alias, in its old order."""
    values, look, kind, how = item
    source, model = LOOKERS[kind]
    text_ = (f'n = 0\na = arrayNew({", ".join(map(str, values))})\no = objectNew(\'k\', a)\npf = systemPartial(arraySort, a)\n'
             f'function ff(x, y):\n    systemGlobalSet(\'n\', n + 1)\n    snap({LOOKS[look]})\n    return {source}\nendfunction\n'
             f'r = {how}\nsnap(r, a, o)\nreturn systemIs(r, a)')
    c.sample(text_)
    if len(values) > 1:
        c.nontrivial(item)
    a = [float(v) for v in values]
    want, calls = [], [0]

    def ff(x, y):
        calls[0] += 1
        seen = [len(a), a, [a[0], a[-1]], a, a.index(x), list(a)][look]
        want.append(canon([seen]))
        result = model(x, y, calls[0])
        if result is None:
            raise Fail()
        return result

    try:
        result = a[:] = sorted(a, key=functools.cmp_to_key(ff))
        result = a
    except Fail:
        result = None
    want.append(canon([result, a, {'k': a}]))
    got = run_target(parse_script(text_), {'snap': SNAP.target()}, **ambient(text_))
    if got.kind != 'ok' or got.value is not (result is a):
        c.fail(f'{got!r}\n{text_}')
    # the order of the comparisons is the implementation's own: only what each of them sees is fixed
    seen, last = got.log[:-1], got.log[-1]
    if kind in ('up', 'down', 'same') and last != want[-1]:
        c.fail(f'sorted to {last}, expected {want[-1]}\n{text_}')
    if kind not in ('up', 'down', 'same') and len(seen) >= 3 and last != canon([None, a, {'k': a}]):
        c.fail(f'a failed sort gives and leaves {last}\n{text_}')
    fixed = set(want[:-1])
    if look != 4 and any(s not in fixed for s in seen) or look == 4 and any(s not in [canon([float(i)]) for i in range(len(a))] for s in seen):
        c.fail(f'a compare function sees {seen}, expected {sorted(fixed)}\n{text_}')


def sections(tier):
    return [
        Enum('grid', grid_items, grid_check),
        Enum('wrong arguments', wrong_items, wrong_check),
        Enum('fresh results', fresh_items, fresh_check),
        Enum('looking callbacks', look_items, look_check),
        Gen('histories', histories, 30000),
        Gen('strings', strings, 60000),
        Gen('long containers', long_calls, 6000),
        Enum('regexEscape', escape_items, escape_check),
        Gen('regexEscape of texts', escape_random, 15000),
        Enum('URL characters', url_items, url_check),
        Gen('URL texts', url_random, 15000),
    ]
