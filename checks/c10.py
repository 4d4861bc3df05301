"""C10: source layout does not change the parsed program."""

import itertools
import os
import tempfile

from bare_script import BareScriptParserError, parse_expression, parse_script

from checks.c06 import SHIPPED
from core import Enum, Gen, HarnessError
from gen import expr as E
from gen import program as P
from gen.rename import KEEP, odd_names
from ref import script as S

RULE = ('Every statement kind, generated programs (to depth 5, with labels, jumps, includes) and the shipped .bare scripts, each rewritten: '
        'LF/CRLF/mixed line ends, chunkings of the text (up to 6 cuts, final line ends of a chunk kept or dropped, as list, tuple, generator '
        'or file), blank and comment lines inserted anywhere including inside continuations, indentation and trailing white space replaced, '
        'lines broken with a backslash at any token gaps. The models must be equal; a second parse (after other parses, failed ones included, '
        'and after the first model was modified) must be equal too. '
        'Texts without a line end, with every odd white-space character and of thousands of lines are compared with hand-built models. '
        'Non-trivial: the rewritten text differs from the original and the original '
        'has at least 2 tokens; distinct by rewritten text and chunking.')
ASSUMPTIONS = ['White space that may separate tokens: spaces and tabs.',
               'No break is put between a sign and the digits that follow it, nor inside an include path.']

OPERATORS = ['**', '<=', '>=', '==', '!=', '&&', '||']


def tokens(line):
    """Token spans of a logical line, coarse enough that white space is allowed between any two tokens."""
    out = []
    i = 0
    n = len(line)
    while i < n:
        ch = line[i]
        if ch.isspace():
            i += 1
            continue
        j = i + 1
        if ch in '\'"':
            while j < n and line[j] != ch:
                j += 2 if line[j] == '\\' else 1
            j += 1
            if j > n:
                raise HarnessError(f'open string: {line!r}')
        elif ch == '[':
            while j < n and line[j] != ']':
                j += 2 if line[j] == '\\' else 1
            j += 1
        elif ch.isdigit() or (ch in '+-' and line[j:j + 1].isdigit()):
            while j < n and (line[j].isalnum() or line[j] == '.' or (line[j] in '+-' and line[j - 1] == 'e')):
                j += 1
        elif ch.isalpha() or ch == '_':
            while j < n and (line[j].isalnum() or line[j] == '_'):
                j += 1
            if line[i:j] == 'include' and not out:
                k = j
                while k < n and line[k].isspace():
                    k += 1
                if k > j and k < n and line[k] in '<\'':
                    out += [(i, j), (k, len(line.rstrip()))]
                    break
        elif line[i:i + 3] == '...':
            j = i + 3
        elif line[i:i + 2] in OPERATORS:
            j = i + 2
        out.append((i, j))
        i = j
    return out


# -- the rewrites ---------------------------------------------------------------------------

SPACES = [' ', '  ', '\t', ' \t ']
NOTHING = ['', '   ', '#', '# x = 1', '#endif', '\t# tail \\', "# it's", '# \\', '  #\\  ', '\t', '# \u2028 x', '# a\x0bb\x0c c\x85d \x1c)']


def noise_lines(c, prob=3):
    """Some blank or comment lines."""
    out = []
    while len(out) < 3 and c.draw(10) >= 10 - prob:
        out.append(c.pick(NOTHING))
    return out


def rewrite(c, logical, breaks=4, white=True, noise=True):
    """Physical lines of the same logical lines in another layout; breaks: one gap in how many is a continuation."""
    out = []
    for line in logical:
        if noise:
            out += noise_lines(c)
        spans = tokens(line)
        cur = c.pick(['', '', '  ', '    ', '\t', ' \t']) if white else line[:spans[0][0]]
        if breaks and c.draw(12) == 11:
            out.append(cur + '\\' + c.pick(['', '', ' ', '\t']))
            cur = c.pick(['', '  ', '\t'])
        for k, (a, b) in enumerate(spans):
            if k:
                gap = line[spans[k - 1][1]:a]
                if breaks and c.draw(breaks) == breaks - 1:
                    out.append(cur + c.pick(['', ' ', '  ', '\t']) + '\\' + c.pick(['', '', '', ' ', '\t ']))
                    if noise:
                        out += noise_lines(c)
                    cur = c.pick(['', '    ', ' ', '\t'])
                elif white and c.draw(5) == 4:
                    cur += c.pick(SPACES)
                else:
                    cur += gap
            cur += line[a:b]
        if white:
            cur += c.pick(['', '', ' ', '\t', '   '])
        out.append(cur)
    if noise:
        out += noise_lines(c)
    return out


def text_of(c, physical, ends=None):
    """One string with LF, CRLF or mixed line ends."""
    mode = c.draw(3) if ends is None else ends
    if mode == 0:
        return '\n'.join(physical)
    if mode == 1:
        return '\r\n'.join(physical)
    return ''.join(p + ('\r\n' if c.draw(2) else '\n') for p in physical)


FORMS = ['list', 'tuple', 'generator', 'iterator', 'map', 'file', 'parsing']
OTHERS = ['x = 1 + \\', 'if a:', 'function ff(a):\nwhile b:\nendwhile\nendfunction', 'for v in a:\nbreak', 'a +', 'x = (a\n', 'endif', "include 'a'\ninclude 'b'"]


def parsing(chunks):
    """Chunks from a generator that parses other texts between them."""
    for i, chunk in enumerate(chunks):
        for text in (OTHERS[i % len(OTHERS)], OTHERS[-1 - i % 3]) if i < 20 else ():
            try:
                parse_script(text)
                parse_expression(text)
            except BareScriptParserError:
                pass
        yield chunk


def chunked(c, physical, cuts=None):
    """The lines as a sequence of chunks."""
    n = len(physical)
    count = c.draw(7) if cuts is None else cuts
    at = sorted({1 + c.draw(n - 1) for _ in range(count)}) if n > 1 else []
    if c.draw(8) == 7:
        at = list(range(1, n))
    ends = c.pick(['\n', '\r\n'])
    keep = c.draw(2)
    chunks = []
    for a, b in zip([0] + at, at + [n]):
        chunks.append(ends.join(physical[a:b]) + (ends if keep else ''))
    form = c.pick(FORMS)
    if form == 'tuple':
        return tuple(chunks), repr(chunks)
    if form == 'generator':
        return (x for x in chunks), repr(chunks)
    if form == 'iterator':
        return iter(chunks), repr(chunks)
    if form == 'map':
        return map(str, chunks), repr(chunks)
    if form == 'parsing':
        return parsing(chunks), repr(chunks)
    return chunks, repr(chunks)


def equal(c, want, what, source, start=None):
    """parse_script(source) must be the model `want`."""
    try:
        got = parse_script(source) if start is None else parse_script(source, start)
    except BareScriptParserError as exc:
        return c.fail(f'{what} is rejected: {exc.error}, line {exc.line_number}\n{str(exc)[:400]}')
    if got != want:
        c.fail(f'{what} gives another model\n  {got!r}\nexpected\n  {want!r}'[:6000])
    return got


def layouts(c, logical, want, texts=2):
    """Several layouts of one program."""
    c.weight = 0
    plain = '\n'.join(logical)
    total = sum(len(tokens(x)) for x in logical)
    for _ in range(texts):
        kind = c.draw(6)
        physical = rewrite(c, logical, breaks=0 if kind == 1 else c.pick([2, 4, 10]) if kind != 2 else 0, white=kind != 3, noise=kind != 4)
        if kind == 5:
            physical = list(logical)
        if c.draw(2):
            source = text_of(c, physical)
            what = source
        else:
            source, what = chunked(c, physical)
        if total >= 2 and what != plain:
            c.nontrivial(what)
        c.weight += 1
        if c.draw(12) == 11 and not isinstance(source, str):
            with tempfile.TemporaryFile('w+', encoding='utf-8', newline='') as fh:
                fh.write(''.join(p + '\n' for p in physical))
                fh.seek(0)
                equal(c, want, f'file of lines\n{what}', fh)
            continue
        equal(c, want, f'layout\n{what}', source, c.pick([None, None, 1, 7, 100]))
    c.sample(what)


# -- every statement kind -------------------------------------------------------------------

TEMPLATES = [
    'x = 1', 'x = a + b * 2', 'x=foo ( a , b )', "x = 'a b' + \"c # d\"", 'x = [a b] - 1', 'foo(a, -1.5, [x y])', 'x = !a && (b || -c)', "foo('\\\\')",
    "x = 'it\\'s' + '#'", 'return', 'return a', 'return -a ** 2', 'l1:', 'l1 :', 'jump l1', 'jumpif (a) l1', 'jumpif(a == b) l1', 'jumpif ((a) || foo(b)) l1',
    "include 'x.bare'", 'include <x.bare>', "include 'a b/x.bare'", 'async_ = 1', 'iff = 1', 'a + b', 'a', "'x'", '1', 'foo()', 'foo(bar(baz()), qux)',
    "x = 'a\u2028b' + 'c\x0bd\x0c\x85'", 'x = 1e+3 * 1.5e-3', 'x = a<b', 'x = a<=b', 'x = a != !b', 'x = (a)', 'x = a % b / c', 'returnx = 1', 'jumpx = 2',
    'function ff():\nendfunction', 'function ff(a):\nreturn a\nendfunction', 'function ff ( a , b ):\nx = a\nendfunction', 'function ff(a, b...):\nendfunction',
    'function ff(a ...) :\nendfunction', 'async function ff(a):\nendfunction', 'async   function ff():\nl:\njump l\nendfunction', 'function ff(...):\nendfunction',
    'if a:\nx = 1\nendif', 'if (a) :\nelif b == c:\nelse:\nx = 1\nendif', "if a == ':':\nelse :\nendif", 'while a < 3:\nbreak\ncontinue\nendwhile',
    'while (a):\nif b:\nbreak\nelse:\ncontinue\nendif\nendwhile', 'for v in a:\nfoo(v)\nendfor', 'for v , i in foo(a):\ncontinue\nendfor',
    'for v, ix in arrayNew(1, 2):\nfor w in v:\nbreak\nendfor\nendfor',
    "include 'a.bare'\ninclude <b.bare>\ninclude 'c.bare'", "include 'a.bare'\nx = 1\ninclude 'b.bare'",
    'function ff(a):\nif a:\nwhile a:\nfor b in a:\nreturn b\nendfor\nendwhile\nendif\nendfunction\nx = ff(1)',
]

BREAKS = ['\\\n', ' \\\n', '\\\n    ', ' \\  \n\t', '\\\r\n', '\\\t\r\n ', '\\\n\n', '\\\n# c\n', '\\\n  # c \\\n\t\n  ', '\\\n\\\n', '\\\n  \\\n# c\\\n\\ \n']


def template_items(_tier):
    for t, text in enumerate(TEMPLATES):
        lines = text.split('\n')
        gaps = [(i, k) for i, line in enumerate(lines) for k in range(len(tokens(line)))]
        for b in range(len(BREAKS)):
            for gap in gaps:
                yield t, b, (gap,)
            yield t, b, tuple(gaps)
        for pair in itertools.combinations(gaps, 2):
            yield t, (pair[0][1] * 5 + pair[1][1]) % len(BREAKS), pair


def broken(text, brk, gaps):
    out = []
    for i, line in enumerate(text.split('\n')):
        spans = tokens(line)
        cur = ''
        for k, (a, b) in enumerate(spans):
            prev = spans[k - 1][1] if k else 0
            cur += (brk if (i, k) in gaps else line[prev:a]) + line[a:b]
        out.append(cur)
    return '\n'.join(out)


def template_check(c, item):
    t, b, gaps = item
    text = TEMPLATES[t]
    new = broken(text, BREAKS[b], set(gaps))
    c.sample(new)
    c.nontrivial(new)
    want = parse_script(text)
    equal(c, want, f'broken line\n{new!r}', new)


def insertion_items(_tier):
    for t, text in enumerate(TEMPLATES):
        n = len(text.split('\n'))
        for i in range(n + 1):
            for k in range(len(NOTHING)):
                yield t, i, k
    for t, text in enumerate(TEMPLATES):
        for k in range(42):
            yield t, -1, k


EDGES = [('', ' '), ('', '\t'), ('', '   '), (' ', ''), ('\t', ''), ('        ', '  '), (' \t', '\t '), ('\r', '')]


def insertion_check(c, item):
    """Blank/comment lines at every place, and every indentation/trailing white space/line end combination."""
    t, i, k = item
    rows = TEMPLATES[t].split('\n')
    want = parse_script(TEMPLATES[t])
    if i >= 0:
        rows[i:i] = [NOTHING[k]]
        new = '\n'.join(rows)
    else:
        left, right = EDGES[k % 7]
        end = ['\n', '\r\n'][k // 7 % 2]
        new = end.join(left + r + right for r in rows) + ['', end, end * 3][k // 14 % 3]
    c.sample(new)
    c.nontrivial(new)
    equal(c, want, f'layout\n{new!r}', new)


MULTI = [
    "function ff(a, b...):\n  x = a + \\\n\n  # in between\n    arrayLength(b)\nreturn x\nendfunction\nff(1)",
    "if a:\nfor v, i in b:\n\ninclude 'x.bare'\n# c\ninclude <y.bare>\nendfor\nendif",
    'while \\\na \\\n:\n# x\n\nbreak\nendwhile\nl:\njump l',
]


def cut_items(_tier):
    for m, text in enumerate(MULTI):
        n = len(text.split('\n'))
        for count in range(0, min(7, n)):
            for at in itertools.combinations(range(1, n), count):
                for keep in range(4):
                    yield m, at, keep


def cut_check(c, item):
    m, at, keep = item
    text = MULTI[m]
    rows = text.split('\n')
    end = '\r\n' if keep & 2 else '\n'
    chunks = [end.join(rows[a:b]) + (end if keep & 1 else '') for a, b in zip((0,) + at, at + (len(rows),))]
    c.sample(repr(chunks))
    c.nontrivial(repr(chunks))
    equal(c, parse_script(text), f'chunks {chunks!r}', chunks)


# -- only a line feed, or a carriage return and a line feed, ends a line --------------------

ODD = '\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2028\u2029\u202f\u205f\u3000\x00\x07\x08\x1a\x1b\x7f\ufeff\u200b\U0001f600\ud800'
HOLDERS = [
    ("x = 'a{}b'", lambda s: {'expr': {'name': 'x', 'expr': {'string': f'a{s}b'}}}),
    ('"{}"', lambda s: {'expr': {'expr': {'string': s}}}),
    ('x = [a{}b]', lambda s: {'expr': {'name': 'x', 'expr': {'variable': f'a{s}b'}}}),
    ("return '{}' + 'b'", lambda s: {'return': {'expr': {'binary': {'op': '+', 'left': {'string': s}, 'right': {'string': 'b'}}}}}),
    ("include 'a{}b.bare'", lambda s: {'include': {'includes': [{'url': f'a{s}b.bare'}]}}),
    ('include <a{}b.bare>', lambda s: {'include': {'includes': [{'url': f'a{s}b.bare', 'system': True}]}}),
    ("foo('{}', 'b')", lambda s: {'expr': {'expr': {'function': {'name': 'foo', 'args': [{'string': s}, {'string': 'b'}]}}}}),
    ('# a{}b = 1', None), ("# {}'", None),
]


def odd_items(_tier):
    for h in range(len(HOLDERS)):
        for ch in ODD:
            for n in (1, 2):
                for form in range(6):
                    yield h, ch * n, form


def odd_check(c, item):
    """Other white space and control characters within strings, names and comments are kept and end no line."""
    h, chars, form = item
    text, model = HOLDERS[h]
    text = text.format(chars)
    one = {'expr': {'name': 'one', 'expr': {'number': 1}}}
    two = {'expr': {'name': 'two', 'expr': {'number': 2}}}
    want = {'statements': [one] + ([model(chars)] if model else []) + [two]}
    rows = ['one = 1', text, 'two = 2']
    source = ('\n'.join(rows), '\r\n'.join(rows), rows, [r + '\r\n' for r in rows], ['\n'.join(rows[:2]), rows[2]], iter([rows[0], '\n'.join(rows[1:])]))[form]
    c.sample(repr(rows))
    c.nontrivial(repr(item))
    equal(c, want, f'form {form} of {rows!r}', source)


# -- generated programs ---------------------------------------------------------------------

def program_lines(c):
    gen = P.ProgramGen(c, max_depth=c.int(1, 5), budget=c.int(3, 40), max_functions=3, redefine=c.draw(3) == 0)
    toks = P.lines(odd_names(c, gen.program(), 8, KEEP)[0], c)
    rows = [P.plain_line(t) for t in toks]
    for row, (_d, want) in zip(rows, toks):
        if [row[a:b] for a, b in tokens(row)] != [t for _r, t in want] and "'" not in row and '"' not in row and '[' not in row:
            have = ''.join(row[a:b] for a, b in tokens(row))
            if have != ''.join(t for _r, t in want).replace(' ', ''):
                raise HarnessError(f'tokens of {row!r}')
    extra = ["include 'lib.bare'", 'include <sys.bare>', "include '../a b.bare'", 'jump lab', 'lab:', 'jumpif (a || foo(b)) lab', "systemLog('# \\\\ x')",
             'x = "a \\" b" + [a b]', "y = 'a\\\\'", 'return']
    for _ in range(c.draw(4)):
        rows.insert(c.draw(len(rows) + 1), c.pick(extra))
    return rows


def programs(c):
    rows = program_lines(c)
    layouts(c, rows, parse_script('\n'.join(rows)), texts=3)


def expressions(c):
    """Long single lines: expression statements, assignments and conditions broken everywhere."""
    from checks.c02 import tree
    e = E.normal(tree(c, c.int(1, 4)))
    text = E.render(e)
    kind = c.draw(6)
    if kind == 0:
        rows = [f'x = {text}']
    elif kind == 1:
        rows = [f'return {text}']
    elif kind == 2:
        rows = [f'if {text} :', 'x = 1', f'elif {text} :', 'endif']
    elif kind == 3:
        rows = [f'for v , i in {text} :', f'while {text} :', 'endwhile', 'endfor']
    elif kind == 4:
        rows = [f'jumpif ( {text} ) lab', 'lab :']
    else:
        rows = [f'foo ( {text} , {text} )']
    layouts(c, rows, parse_script('\n'.join(rows)), texts=3)


# -- shipped scripts ------------------------------------------------------------------------

def shipped_case(c, name, text, window):
    physical = S.split_lines(text)
    logical = [ln.text for ln in S.logical_lines(physical)]
    want = parse_script(text)
    if not window:
        equal(c, want, f'{name}: one line per statement', '\n'.join(logical))
    source = rewrite(c, logical, breaks=c.pick([0, 3, 8]), white=bool(c.draw(4)), noise=bool(c.draw(4)))
    if c.draw(2):
        src = what = text_of(c, source)
    else:
        src, what = chunked(c, source)
    c.sample(f'{name} rewritten:\n' + what[:1500])
    c.nontrivial(what)
    equal(c, want, f'{name} rewritten\n{what}'[:3000], src)


def shipped_random(c):
    name, text = c.pick(SHIPPED)
    shipped_case(c, name, text, True)


def shipped_items(tier):
    for ix in range(len(SHIPPED)):
        for k in range(2 if tier == 'quick' else 12):
            yield ix, k


def shipped_check(c, item):
    import random
    from core import Case
    name, text = SHIPPED[item[0]]
    sub = Case(rng=random.Random(repr(item)))
    shipped_case(sub, name, text, False)
    c.sample(sub.text)
    c.keys = sub.keys
    rows = S.split_lines(text)
    want = parse_script(text)
    for source in ('\r\n'.join(rows), rows, [r + '\n' for r in rows], [text], iter(rows), '\n\n'.join(rows), '\n# x\n'.join(rows) + '\n#'):
        c.weight += 1
        equal(c, want, f'{name} with another line splitting', source)


# -- determinism ----------------------------------------------------------------------------

BAD = ['if a:', 'function ff():', 'endif', 'x = (', 'while a:\nfunction ff():', 'for v in a:\nendwhile', 'x = 1 \\', 'function ff():\nfunction gg():\nendfunction',
       "foo('a", 'break', 'include <a.bare>\nx = )', 'a b', 'if a:\nelse:\nelse:\nendif', 'x = 1 \\\n\\', 'jumpif () x', '(' * 3000]


def scramble(c, value):
    """Modify a returned model in place."""
    if isinstance(value, dict):
        for k in list(value):
            scramble(c, value[k])
            if not c.draw(3):
                value[k] = None
        value['extra'] = 1
    elif isinstance(value, list):
        for v in value:
            scramble(c, v)
        if c.draw(2):
            value.append(value[0] if value else 'x')
        else:
            value.clear()


def deep_copy(v):
    if isinstance(v, dict):
        return {k: deep_copy(x) for k, x in v.items()}
    if isinstance(v, list):
        return [deep_copy(x) for x in v]
    return v


def outcome(fn, *args):
    try:
        return fn(*args)
    except BareScriptParserError as exc:
        return (exc.error, exc.line, exc.column_number, exc.line_number, str(exc))


def history(c):
    """A sequence of parses: what one text gives never depends on what was parsed before."""
    from checks.c02 import tree
    first = []
    for _ in range(c.int(2, 6)):
        k = c.draw(5)
        if k == 0:
            item = (parse_script, c.pick(BAD))
        elif k == 1:
            item = (parse_expression, E.render(E.normal(tree(c, c.int(1, 4))), c))
        elif k == 2:
            item = (parse_expression, c.pick(['a +', '(a', 'foo(a,', "'x", 'a b', ')', '']))
        else:
            item = (parse_script, '\n'.join(program_lines(c)))
        got = outcome(*item)
        first.append((item, deep_copy(got)))
        if not isinstance(got, tuple) and c.draw(2):
            scramble(c, got)
    c.weight = 2 * len(first)
    c.sample('\n---\n'.join(item[1][:300] for item, _ in first))
    c.nontrivial(repr([item[1] for item, _ in first]))
    for i in c.shuffle(range(len(first))):
        item, want = first[i]
        got = outcome(*item)
        if got != want:
            c.fail(f'a second parse differs:\n{item[1]!r}\n  {got!r}\nfirst\n  {want!r}'[:4000])


# -- long texts -------------------------------------------------------------------------------

def long_items(tier):
    for n in (17, 33, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 500, 513, 1000, 1001, 1023, 1025, 2049, 4096, 4097, 5000) + ((10001, 65537) if tier == 'thorough' else ()):
        for shape in ('lines', 'chunks', 'blank', 'comments', 'blanks within', 'parts', 'parts of a block', 'indent', 'trail', 'break indent', 'gap', 'long comment', 'empty chunks',
                      'one by one', 'includes', 'history', 'block'):
            for k in range(4):
                yield n, shape, k


def long_check(c, item):
    """Hundreds and thousands of lines, chunks, continuations, blanks: models built by hand."""
    n, shape, k = item
    end = '\r\n' if k % 2 else '\n'
    one = lambda i: {'expr': {'name': f'x{i}', 'expr': {'number': float(i)}}}  # noqa: E731
    last = {'return': {'expr': {'variable': 'a'}}}
    rows, model = [f'x{i} = {i}' for i in range(n)], [one(i) for i in range(n)]
    short, few = ['x0 = 0', 'return a'], [one(0), last]
    if shape == 'lines':
        source, want = end.join(rows) + (end if k > 1 else ''), model
    elif shape == 'chunks':
        size = [1, 2, 7, max(1, n // 3)][k]
        chunks = [end.join(rows[i:i + size]) + (end if n % 2 else '') for i in range(0, n, size)]
        source, want = chunks if n % 3 else tuple(chunks), model
    elif shape == 'one by one':
        source, want = (row + ['', end, ' ' + end, end + end][k] for row in rows), model
    elif shape == 'empty chunks':
        fill = [['', '\n', ' ', '# c'][k]] * n
        source, want = fill + ['x0 = 0'] + fill + ['return a'] + fill, few
    elif shape in ('blank', 'comments'):
        fill = ([['', ' ', '\t', '   '][k]] if shape == 'blank' else [['# c', '#', '  # x = 1 \\', '# if a:'][k]]) * n
        source, want = end.join(fill + ['x0 = 0'] + fill + ['return a'] + fill), few
    elif shape == 'blanks within':
        fill = [['', '# c', ' \t', '# c \\'][k]] * n
        source, want = end.join(['x0 \\'] + fill + ['= \\'] + fill + ['0', 'return a']), few
    elif shape in ('parts', 'parts of a block'):
        m = n if n <= 5000 else 5000
        call = {'function': {'name': 'foo', 'args': [{'number': float(i)} for i in range(m)]}}
        if shape == 'parts':
            source = (['x0 = 0', 'foo( \\'] + [f'    {i}{"," if i < m - 1 else ""} \\' for i in range(m)] + [')', 'return a'])
            want = [one(0), {'expr': {'expr': call}}, last]
        else:
            source = (['function ff(a):', 'return foo(\\'] + [f'{i}{"," if i < m - 1 else ")"}{" " * (i % 3)}\\' for i in range(m)] + ['', 'endfunction'])
            source[-3] = source[-3][:-1]
            del source[-2]
            want = [{'function': {'name': 'ff', 'args': ['a'], 'statements': [{'return': {'expr': call}}]}}]
        source = end.join(source) if k < 2 else source
    elif shape == 'indent':
        source, want = end.join([' \t'[k // 2] * n + r for r in short]), few
    elif shape == 'trail':
        source, want = end.join([r + ' \t'[k // 2] * n for r in short]), few
    elif shape == 'break indent':
        source, want = end.join(['x0 =' + ' ' * n + '\\' + '\t' * n, ' ' * n + '0', 'return \\', '\t' * n + 'a']), few
    elif shape == 'gap':
        gap = [' ', '\t', ' \t', '  '][k] * n
        source, want = f'x0{gap}={gap}0\nreturn{gap}a{gap}', few
    elif shape == 'long comment':
        source, want = end.join(['x0 = 0', '#' + ' x = 1' * n, 'return \\', '# ' + 'y ' * n, 'a', '#' * n]), few
    elif shape == 'includes':
        names = [f'd/f{i}.bare' for i in range(n)]
        rows = [f"include '{v}'" if i % 2 else f'include <{v}>' for i, v in enumerate(names)]
        if k > 1:
            rows = [row + end + ['', '# c', '   '][i % 3] for i, row in enumerate(rows)]
        source, want = end.join(rows), [{'include': {'includes': [{'url': v} if i % 2 else {'url': v, 'system': True} for i, v in enumerate(names)]}}]
    elif shape == 'history':
        for i in range(min(n, 300)):
            try:
                parse_script([f'x{i} = {i}', f'while a{i}:\nendwhile', f"include 'x{i}.bare'", f'x = {i} \\', f'if a{i}:', f'function f{i}():', f'x{i} = ('][(i + k) % 7])
            except BareScriptParserError:
                pass
        source, want = end.join(short), few
    else:
        source = end.join(['function ff():'] + [' ' * (i % 9) + row for i, row in enumerate(rows)] + ['endfunction'])
        want = [{'function': {'name': 'ff', 'statements': model}}]
        source = source if k < 2 else source.split(end)
    what = f'{item}'
    c.sample(what)
    c.nontrivial(item)
    try:
        got = parse_script(source)
    except BareScriptParserError as exc:
        c.fail(f'{what} is rejected: {exc.error}, line {exc.line_number}\n{str(exc)[:400]}')
    if got != {'statements': want}:
        c.fail(f'{what} gives another model of {len(got.get("statements", []))} statements, expected {len(want)}\n  {repr(got)[:1000]}\nexpected\n  {repr(want)[:1000]}')


def sections(tier):
    return [
        Enum('every gap of every statement', template_items, template_check),
        Enum('insertions and edges', insertion_items, insertion_check),
        Enum('every chunking', cut_items, cut_check),
        Enum('long texts', long_items, long_check, complete=False),
        Enum('no line ends', odd_items, odd_check),
        Enum('shipped scripts', shipped_items, shipped_check, complete=False),
        Gen('programs', programs, 16000),
        Gen('expressions', expressions, 20000),
        Gen('shipped rewrites', shipped_random, 300),
        Gen('history', history, 4000),
    ]
