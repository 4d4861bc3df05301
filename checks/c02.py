"""C02: expression text parses to the tree the precedence rules dictate."""

import itertools

from bare_script import BareScriptParserError, parse_expression

from core import Enum, Gen
from gen import expr as E
from ref.parse import OPS, RefSyntaxError, RefUnsure, parse_expr

RULE = ('Expression texts: every operator chain of length <=4 over 14 operators with plain/unary/group operand variants '
        '(enumerated), random trees to depth 8 rendered with random spacing, random token strings (accept/reject against an '
        'independent scanner + shunting-yard parser). '
        'Large texts (argument lists, strings, names, digits, operator chains and groups to thousands of characters or terms) are compared with hand-built trees, and every literal form with its value. '
        'Non-trivial: the tree has at least two operators, or the token string '
        'has at least 3 tokens; distinct by text.')
ASSUMPTIONS = ['Number exponents need a sign, and bracketed names carry no backslash: '
               'the generator stays inside the token forms the language documents.']


def target(text):
    try:
        return parse_expression(text), None
    except BareScriptParserError as exc:
        return None, exc


def agree(c, text):
    got, _exc = target(text)
    try:
        want = parse_expr(text)
    except RefSyntaxError:
        want = None
    except RefUnsure:
        return None
    if got != want:
        c.fail(f'text {text!r}\n  parsed to {got!r}\n  expected  {want!r}' if want is not None else
               f'text {text!r} is not an expression but parsed to {got!r}')
    return want


def chain_items(tier):
    for k in (0, 1, 2, 3):
        for ops in itertools.product(OPS, repeat=k):
            yield ops
    # length 4: 14^4 chains, blocks of the last operator
    for ops in itertools.product(OPS, repeat=3):
        yield ops + ('*all*',)


VARIANTS = ['{}', '-{}', '!{}', '({})', '-({})', '!-{}', 'ff({})', '(({}))']


def chain(c, ops):
    if ops and ops[-1] == '*all*':
        # every fourth operator, operands plain, plus each operand position unary, plus two grouped spans
        c.weight = 0
        for last in OPS:
            seq = ops[:3] + (last,)
            for text in chain_texts(seq, False):
                c.weight += 1
                agree(c, text)
            c.nontrivial(' '.join(seq))
        return
    c.weight = 0
    for text in chain_texts(ops, True):
        c.weight += 1
        agree(c, text)
        if len(ops) >= 2:
            c.nontrivial(text)
    c.sample(text)


def chain_texts(ops, full):
    names = ['a', 'b', 'c', 'd', 'e'][:len(ops) + 1]

    def build(operands, seq=ops, sep=' '):
        out = [operands[0]]
        for op, operand in zip(seq, operands[1:]):
            out.append(op)
            out.append(operand)
        return sep.join(out)

    yield build(names)
    yield build(names, sep='')
    n = len(names)
    if full and n <= 3:
        for combo in itertools.product(VARIANTS, repeat=n):
            yield build([v.format(name) for v, name in zip(combo, names)])
    elif full:
        for combo in itertools.product(('{}', '-{}', '!{}', '({})'), repeat=n):
            yield build([v.format(name) for v, name in zip(combo, names)])
    else:
        for pos in range(n):
            for v in ('-{}', '!{}', '({})'):
                yield build([v.format(x) if i == pos else x for i, x in enumerate(names)])
        yield build(['-' + x for x in names])
        yield build(['!' + x for x in names])
    # a parenthesised span of at least two operands, anywhere
    for lo in range(n):
        for hi in range(lo + 1, n):
            if (lo, hi) == (0, n - 1):
                continue
            for pre in ('', '-', '!') if full else ('',):
                ops_ = list(names)
                ops_[lo] = pre + '(' + ops_[lo]
                ops_[hi] = ops_[hi] + ')'
                yield build(ops_)


STRINGS = ['', 'a', "it's", 'say "hi"', 'a + b', '(', ')', 'a\\b', '\\', 'x\\\\', ',', 'é', "\\'", '#', ' ', ':', 'e+5']
FUNCS = ['ff', 'f', 'e', '_', 'x', 'abs', 'mathMax', 'if', 'f_1', 'null', 'true', 'return', 'e1', '__', 'f' * 60]
VARS = ['a', 'b', 'x1', '_', 'null', 'true', 'false', 'if', 'endif', 'A B', 'a,b', '(', 'x]y', '+', '1st', 'aé', "it's", '"', 'return', 'for', 'in', 'e', 'E1', 'x' * 60, 'function', 'nullx', 'True', '__']
NUMS = [0, 1, 2, 10, 0.5, 3.25, 1e16, 1e-7, 1.5e300, 123456789, 0.1]


def tree(c, depth):
    if depth <= 0:
        kind = c.draw(3)
    else:
        kind = c.weighted([(2, 0), (1, 1), (1, 2), (8, 3), (3, 4), (2, 5), (2, 6)])
    if kind == 0:
        return E.var(c.pick(VARS))
    if kind == 1:
        return E.num(c.pick(NUMS))
    if kind == 2:
        return E.string(c.pick(STRINGS))
    if kind == 3:
        return E.binary(c.pick(OPS), tree(c, depth - 1), tree(c, depth - 1))
    if kind == 4:
        return E.unary(c.pick('!-'), tree(c, depth - 1))
    if kind == 5:
        return E.group(tree(c, depth - 1))
    return E.call(c.pick(FUNCS), *[tree(c, depth - 1) for _ in range(c.draw(4))])


def trees(c):
    depth = 1 + c.draw(8)
    want = E.normal(tree(c, depth))
    size = E.size(want)
    if size > 300:
        c.tag('oversize')
    text = E.render(want, c)
    c.sample(text)
    pairs = E.ops_in(want)
    for p in pairs:
        c.feature(p)
    nbin = sum(1 for p in pairs if p[2] == 'left')
    c.tag('ops:' + ('0-1' if nbin < 2 else '2-5' if nbin < 6 else '6-20' if nbin < 21 else '21+'))
    if nbin + sum(1 for p in pairs if p[2] == 'u') >= 2:
        c.nontrivial(text)
    lead, trail = ('', ' ', '\t')[c.draw(3)], ('', ' ', ' \t')[c.draw(3)]
    got, exc = target(lead + text + trail)
    if exc is not None:
        c.fail(f'rejected {text!r}: {exc}')
    if got != want:
        c.fail(f'text {text!r}\n  parsed to {got!r}\n  expected  {want!r}')


def long_chain(c):
    n = 5 + c.draw(36)
    toks = []
    for i in range(n):
        if i:
            toks.append(c.pick(OPS))
        v = c.draw(8)
        toks.append(('a', 'b', '1', '-c', '!d', "'s'", '(e)', 'f(a)' if i % 2 else 'ff(a)')[v])
    text = ' '.join(toks)
    c.sample(text)
    c.nontrivial(text)
    agree(c, text)


SOUP = ['a', 'ff', '1', '2.5', "'s'", '"t"', '[v w]', '(', ')', '(', ')', ',', '!', '-', '+', '*', '**', '/', '%', '<', '<=', '>',
        '>=', '==', '!=', '&&', '||', '=', '&', '|', '.', '5e', '1e+3', '1.', '.5', "'", '"', '[', ']', '#', '@', ':', '+7', 'é', '\u0661',
        'null', 'if', '1e5', 'a1', '?', '~', '===', '!==', '>>', '<<', '//', '++', '--', '0x1', '1_0', 'not', 'and', '\u00a0', ';', '{', '}']


def soup(c):
    n = 1 + c.draw(12)
    toks = [c.pick(SOUP) for _ in range(n)]
    text = ''.join(GAP[c.draw(3)] + t for t in toks)
    want = agree(c, text)
    c.sample(text)
    if n >= 3:
        c.nontrivial(text)
    c.tag('soup:accepted' if want is not None else 'soup:rejected')


GAP = ['', ' ', '  ']


def mutant(c):
    """A valid text with one or two tokens deleted, duplicated, replaced or inserted."""
    want = E.normal(tree(c, 1 + c.draw(4)))
    toks = E.tokens(want, c)
    for _ in range(1 + c.draw(2)):
        op = c.draw(4)
        i = c.draw(len(toks))
        if op == 0:
            toks.insert(i, c.pick(SOUP))
        elif op == 1:
            toks[i] = c.pick(SOUP)
        elif op == 2:
            toks.insert(i, toks[i])
        elif len(toks) > 1:
            del toks[i]
    text = E.join(toks, c)
    got = agree(c, text)
    c.sample(text)
    if len(toks) >= 3:
        c.nontrivial(text)
    c.tag('mutant:accepted' if got is not None else 'mutant:rejected')


def chars(c):
    n = c.draw(14)
    text = ''.join(c.pick(CHARS) for _ in range(n))
    got = agree(c, text)
    if n >= 3:
        c.nontrivial(text)
    c.sample(text)
    c.tag('chars:accepted' if got is not None else 'chars:rejected')


CHARS = 'a1+-*()f ,<=>!&|/%.e\'"[]'


def safe_chars(c):
    n = c.draw(16)
    text = ''.join(c.pick('ab12+-*(,)<=>!&|/%.e ') for _ in range(n))
    got = agree(c, text)
    if n >= 3:
        c.nontrivial(text)
    c.tag('chars:accepted' if got is not None else 'chars:rejected')


def exprs_enum(tier):
    """Every token string of length <=3 (quick) / <=4 (thorough) over a small vocabulary."""
    vocab = ['a', '1', "'s'", 'ff', '(', ')', ',', '-', '!', '+', '**', '<', '==', '&&', '=', '[b]', '.']
    for n in range(0, 4 if tier == 'quick' else 5):
        for head in itertools.product(vocab, repeat=max(0, n - 1)):
            yield n, head, vocab


def exprs_check(c, item):
    n, head, vocab = item
    c.weight = 0
    for last in (vocab if n else ['']):
        for sep in ('', ' '):
            text = sep.join(head + (last,))
            c.weight += 1
            agree(c, text)
            if n >= 3:
                c.nontrivial(text)
    c.sample(text)


# -- all short literals -----------------------------------------------------------------------

LITERALS = {'string': "\\'\"an ]", 'number': '10.e+-', 'name': 'a] [1\\'}
AROUND = ['{}', '{} + a', 'a == {}', '-{}', 'ff({}, {})', '({}){}', '{}{}', "{}'b'", '{}"']


def literal_items(tier):
    for kind, alphabet in LITERALS.items():
        n = 7 + (tier != 'quick')
        for k in range(n):
            for head in itertools.product(alphabet, repeat=max(0, k - 1)):
                yield kind, k, ''.join(head)


def literal_check(c, item):
    kind, k, head = item
    c.weight = 0
    for last in LITERALS[kind] if k else ('',):
        body = head + last
        for text in ((body, '+' + body) if kind == 'number' else ("'" + body + "'", '"' + body + '"') if kind == 'string' else ('[' + body + ']',)):
            for around in (AROUND if k < 4 else AROUND[:2] if k < 6 else AROUND[:1]):
                c.weight += 1
                agree(c, around.replace('{}', text))
        if k >= 2:
            c.nontrivial(kind + body)
    c.sample(text)
    c.tag('literal: ' + kind)


# -- large expressions -------------------------------------------------------------------------

def wide_items(tier):
    for n in (20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 180, 200, 255, 256, 257, 300, 512, 700, 1000, 1024, 2049, 5000) + ((10001, 40000) if tier == 'thorough' else ()):
        for shape in ('arguments', 'nested arguments', 'long string', 'escapes', 'long name', 'bracket name', 'digits', 'fraction', 'spaces', 'chain', 'mixed chain', 'groups',
                      'unary', 'tail', 'bad', 'long operand'):
            limit = {'chain': 300, 'mixed chain': 150, 'groups': 129, 'unary': 300, 'tail': 129, 'bad': 150, 'digits': 300}.get(shape, 10 ** 9)
            if n <= limit:
                for k in range(len(OPS)):
                    yield n, shape, k


def wide_check(c, item):
    """Long texts of simple structure, against the tree built by hand."""
    n, shape, k = item
    op = OPS[k]
    var, num, string = E.var, E.num, E.string
    if shape == 'arguments':
        text = 'ff(' + ', '.join(f'a{i}' if i % 3 else f'{i}' if i % 2 else f"'s{i}'" for i in range(n)) + f') {op} b'
        want = E.binary(op, E.call('ff', *[var(f'a{i}') if i % 3 else num(i) if i % 2 else string(f's{i}') for i in range(n)]), var('b'))
    elif shape == 'nested arguments':
        text = 'ff(' + ','.join(f'(a {op} {i})' if i % 2 else f'g{i}(b, !{i})' for i in range(n)) + ')'
        want = E.call('ff', *[E.group(E.binary(op, var('a'), num(i))) if i % 2 else E.call(f'g{i}', var('b'), E.unary('!', num(i))) for i in range(n)])
    elif shape == 'long string':
        body = ('a + b) , ("' + op) * n
        text = f"'{body}' {op} x"
        want = E.binary(op, string(body), var('x'))
    elif shape == 'escapes':
        text = '"' + 'q' * (k % 4) + '\\"' + '\\\\n' * n + f'" {op} x'
        want = E.binary(op, string('q' * (k % 4) + '"' + '\\n' * n), var('x'))
    elif shape == 'long name':
        text = f"{'a' * n} {op} {'b_1' * n}({'c' * n})"
        want = E.binary(op, var('a' * n), E.call('b_1' * n, var('c' * n)))
    elif shape == 'bracket name':
        text = f"[{'a b ' * n}x] {op} x"
        want = E.binary(op, var('a b ' * n + 'x'), var('x'))
    elif shape == 'digits':
        text = f"{'7' * n} {op} 0.{'3' * n}"
        want = E.binary(op, num(float('7' * n)), num(float('0.' + '3' * n)))
    elif shape == 'fraction':
        text = f"1.{'0' * n}5 {op} {'0' * n}12"
        want = E.binary(op, num(float(f"1.{'0' * n}5")), num(12))
    elif shape == 'spaces':
        gap = [' ', '\t', '  ', ' \t'][k % 4] * n
        text = f'{gap}a{gap}{op}{gap}ff{gap}({gap}b{gap},{gap}!{gap}d{gap}){gap}'
        want = E.binary(op, var('a'), E.call('ff', var('b'), E.unary('!', var('d'))))
    elif shape == 'chain':
        text = f' {op} '.join(f'a{i}' for i in range(n))
        want = var('a0')
        for i in range(1, n):
            want = E.binary(op, want, var(f'a{i}'))
    elif shape in ('mixed chain', 'bad'):
        text = 'a0'
        for i in range(1, n):
            text += f" {OPS[(i * (k + 1) + i // 5) % len(OPS)]} {['', '-', '!', '', '- ! '][i % 5]}a{i}"
        if shape == 'bad':
            i = text.index(f'a{n - 2}')
            text = [text + ' +', text[:i] + ')' + text[i:], text[:i] + '* ' + text[i:], text + ' = 1', '(' + text, text + ' a', text[:i] + '1 ' + text[i:]][k % 7]
        got = agree(c, text)
        if (got is None) != (shape == 'bad'):
            c.fail(f'{item}: {"rejected" if got is None else "accepted"} {text[:300]!r}')
        c.nontrivial(item)
        c.sample(f'{item}: {text[:100]}')
        return
    elif shape == 'groups':
        text = '(' * n + f'a {op} b' + f' {op} c)' * n
        # c stands inside: ((a op b op c) op c)
        want = E.group(E.binary(op, E.binary(op, var('a'), var('b')), var('c')))
        for _ in range(n - 1):
            want = E.group(E.binary(op, want, var('c')))
    elif shape == 'unary':
        kinds = ['!', '-', '!-', '-!!'][k % 4]
        signs = [kinds[i % len(kinds)] for i in range(n)]
        text = ''.join(signs) + f'a {op} b'
        want = var('a')
        for sign in reversed(signs):
            want = E.unary(sign, want)
        want = E.binary(op, want, var('b'))
    elif shape == 'tail':
        # the deepest part last
        text = f'a {op} (' * n + 'b' + ')' * n
        want = var('b')
        for _ in range(n):
            want = E.binary(op, var('a'), E.group(want))
    else:
        text = f"ff('{'x' * n}', [{'y' * n}], {'z' * n}) {op} -ff2({', '.join(['1'] * n)})"
        want = E.binary(op, E.call('ff', string('x' * n), var('y' * n), var('z' * n)), E.unary('-', E.call('ff2', *[num(1)] * n)))
    c.nontrivial(item)
    c.sample(f'{item}: {text[:100]}')
    got, exc = target(text)
    if exc is not None:
        c.fail(f'{item}: rejected {text[:300]!r}: {str(exc)[:300]}')
    if got != want:
        c.fail(f'{item}: {text[:300]!r} parsed to {repr(got)[:600]}, expected {repr(want)[:600]}')


def sections(tier):
    return [
        Enum('literals', literal_items, literal_check),
        Enum('chains', chain_items, chain),
        Enum('large expressions', wide_items, wide_check, complete=False),
        Enum('short token strings', exprs_enum, exprs_check),
        Gen('trees', trees, 24000),
        Gen('long chains', long_chain, 8000),
        Gen('token soup', soup, 40000),
        Gen('mutated expressions', mutant, 24000),
        Gen('characters', chars, 40000),
        Gen('operator characters', safe_chars, 40000),
    ]
