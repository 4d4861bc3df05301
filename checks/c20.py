"""C20: diffLines reconstructs both inputs; the shipped scripts parse, validate and are lint-clean."""

import copy
import itertools
import json
import os
import re
import shutil
import tempfile

from bare_script import execute_script, lint_script, parse_script, validate_script

from core import REPO, Enum, Gen
from ref.values import show

from checks.c06 import SHIPPED
from checks.c17 import command

RULE = ('All pairs of line lists of length <=6 over three letters (quick: up to renaming of the letters, thorough: all), random pairs up to 40 '
        'lines (also 150) over small and large alphabets with lines that look alike, as arrays, LF strings, CRLF strings and mixtures, through '
        'include <diff.bare> - in process and by the command line. The result must be a list of {type, lines}: Identical+Remove is the left, '
        'Identical+Add the right, no block is empty, equal inputs give only Identical. unittestDeepEqual is run on the same kind of texts: its '
        '---/+++ lines must lie in order in both texts and leave the same rest. Every shipped .bare file is parsed, validated, linted, included '
        'and run alone, after and twice with each other. '
        'Long texts (255 to 5000 lines; thorough 17000) are included. '
        'Non-trivial: the inputs differ and share a line; distinct by inputs.')
ASSUMPTIONS = ['A text is split at LF and CRLF; the lines of an array that contain line breaks are split too (as the function documents).']

PREFIX = ':bare-include:/'


def fetch(request):
    """The system includes, as the command line fetches them."""
    url = request['url']
    if not url.startswith(PREFIX):
        raise OSError(url)
    with open(os.path.join(REPO, 'src', 'bare_script', 'include', url[len(PREFIX):]), 'rb') as fh:
        return fh.read().decode('utf-8')


def run(text, globals_, max_statements=None):
    options = {'globals': globals_, 'fetchFn': fetch, 'systemPrefix': PREFIX, 'logFn': lambda _t: None, 'debug': len(repr(globals_)) % 4 == 3}
    if max_statements:
        options['maxStatements'] = max_statements
    return execute_script(parse_script(text), options)


MANY = parse_script('''
include <diff.bare>
out = arrayNew()
for r in rights:
    arrayPush(out, diffLines(left, r))
endfor
for r in rights:
    arrayPush(out, diffLines(r, left))
endfor
return out
''')


def split(value):
    """The lines of an input."""
    if isinstance(value, str):
        return re.split('\r?\n', value)
    return [line for part in value for line in re.split('\r?\n', part)]


def verify(c, left, right, diffs, what=None):
    """The property for one pair."""
    a, b = split(left), split(right)

    def bad(msg):
        c.fail(f'{what or "diffLines"}({left!r}, {right!r})\n{msg}\n  gave {show(diffs, 1500)}')
    if not isinstance(diffs, list):
        bad('is no list')
    got_a, got_b = [], []
    for d in diffs:
        if not isinstance(d, dict) or set(d) != {'type', 'lines'} or d['type'] not in ('Identical', 'Add', 'Remove'):
            bad(f'block {show(d)}')
        lines = d['lines']
        if not isinstance(lines, list) or not lines or not all(isinstance(s, str) for s in lines):
            bad(f'lines of block {show(d)}')
        if d['type'] != 'Add':
            got_a += lines
        if d['type'] != 'Remove':
            got_b += lines
    if got_a != a:
        bad(f'Identical and Remove lines are {got_a}, the left is {a}')
    if got_b != b:
        bad(f'Identical and Add lines are {got_b}, the right is {b}')
    if a == b and any(d['type'] != 'Identical' for d in diffs):
        bad('the inputs are equal')


# -- all small pairs ---------------------------------------------------------------------------

LETTERS = [('a', 'b', 'c'), ('', 'x', ' '), ('{', '}', '    "k": 1,'), ('null', '0', 'false')]


def canonical(seq):
    """Letters in order of first appearance."""
    top = 0
    for x in seq:
        if x > top:
            return False
        top = max(top, x + 1)
    return True


def words(n):
    for k in range(n + 1):
        yield from itertools.product(range(3), repeat=k)


def small_items(tier):
    out = []
    for left in words(6):
        if tier == 'thorough' or canonical(left):
            # in pieces, for balance
            pieces = 1 if len(left) < 4 else 4
            out += [(left, p, pieces, tier == 'thorough') for p in range(pieces)]
    return out


def small_check(c, item):
    left, piece, pieces, every = item
    letters = LETTERS[(len(left) + sum(left)) % len(LETTERS)]
    rights = []
    for i, right in enumerate(words(6)):
        if i % pieces != piece:
            continue
        # each unordered pair once (both orders are run)
        if len(right) > len(left) or not (every or canonical(left + right)):
            continue
        rights.append(right)
    a = [letters[x] for x in left]
    bs = [[letters[x] for x in r] for r in rights]
    globals_ = {'left': list(a), 'rights': copy.deepcopy(bs)}
    out = execute_script(MANY, {'globals': globals_, 'fetchFn': fetch, 'systemPrefix': PREFIX, 'logFn': lambda _t: None, 'debug': len(bs) % 2 == 1})
    if not isinstance(out, list) or len(out) != 2 * len(bs):
        c.fail(f'{len(bs)} calls gave {show(out)}')
    if globals_['left'] != a or globals_['rights'] != bs:
        c.fail('an input was modified')
    for b, diffs in zip(bs, out):
        verify(c, a, b, diffs)
    for b, diffs in zip(bs, out[len(bs):]):
        verify(c, b, a, diffs)
    for r in rights:
        if r != left and set(r) & set(left):
            c.nontrivial(bytes(left) + b'|' + bytes(r))
    c.weight = 2 * len(bs)
    c.sample(f'{a} against {len(bs)} lists, both ways')


# -- random pairs ----------------------------------------------------------------------------------

ALPHABETS = [
    ['a', 'b', 'c'], ['a', 'b'], [''], ['', ' ', '  '], ['a', 'A', 'a ', ' a', 'á', 'a\u0301'], ['0', '0.0', '-0', 'null', 'false', 'true', '1'],
    ['{', '}', '    "a": 1,', '    "a": 1', '    "b": 2', '    ]', '    ['], ['x\ry', 'x', 'y', '\r', 'x\x0b', '\u2028', '\x85', '\x0c', '\x1c'],
    ['\\', "'", '"', '[', ']', '$', '^', '.*'], [chr(97 + i) * (1 + i % 3) for i in range(26)], [str(i) for i in range(60)],
    ['Identical', 'Add', 'Remove', 'type', 'lines'], ['--- a', '+++ a', 'a', '```'],
]


def line_list(c, n, alphabet):
    return [c.pick(alphabet) for _ in range(n)]


def near(c, lines, alphabet):
    """An edited copy: the usual input of a diff."""
    out = list(lines)
    for _ in range(c.draw(6)):
        k = c.draw(5)
        i = c.draw(len(out) + 1)
        if k == 0:
            out[i:i] = [c.pick(alphabet) for _ in range(1 + c.draw(3))]
        elif k == 1:
            del out[i:i + 1 + c.draw(4)]
        elif k == 2 and out:
            out[min(i, len(out) - 1)] = c.pick(alphabet)
        elif k == 3:
            j = c.draw(len(out) + 1)
            out[i:i] = out[min(i, j):max(i, j)][:8]
        else:
            # a block moved
            block = out[i:i + 3]
            del out[i:i + 3]
            j = c.draw(len(out) + 1)
            out[j:j] = block
    return out


def pair(c, most=40):
    alphabet = c.pick(ALPHABETS)
    n = c.draw(most + 1) if c.draw(3) == 0 else c.draw(9)
    left = line_list(c, n, alphabet)
    if c.draw(3):
        right = near(c, left, alphabet)[:most]
    else:
        right = line_list(c, c.draw(most + 1) if c.draw(3) == 0 else c.draw(9), alphabet)
    return left, right


def form(c, lines):
    """The lines as an input: an array, a text with LF or CRLF, an array of texts."""
    k = c.draw(6)
    if k <= 1:
        return list(lines)
    if not lines:
        return c.pick([[], '', [''], '\n', '\r\n'])
    # a line ending in CR would take part in the line break
    if any(s.endswith('\r') for s in lines):
        return list(lines)
    if k == 2:
        return '\n'.join(lines)
    if k == 3:
        return '\r\n'.join(lines)
    if k == 4:
        return ''.join(s + c.pick(['\n', '\r\n']) for s in lines)
    out, i = [], 0
    while i < len(lines):
        n = 1 + c.draw(4)
        out.append(c.pick(['\n', '\r\n']).join(lines[i:i + n]))
        i += n
    return out


def randoms(c, most=40, runs=4):
    pairs = []
    for _ in range(runs):
        a, b = pair(c, most)
        left, right = form(c, a), form(c, b)
        if c.draw(8) == 7:
            right = copy.deepcopy(left) if c.draw(2) else left
        pairs.append((left, right))
    text = ['include <diff.bare>', 'out = arrayNew()']
    globals_ = {}
    for i, (left, right) in enumerate(pairs):
        globals_[f'a{i}'] = copy.deepcopy(left)
        globals_[f'b{i}'] = globals_[f'a{i}'] if right is left else copy.deepcopy(right)
        text.append(f'arrayPush(out, diffLines(a{i}, b{i}))')
    if c.draw(4) == 3:
        text.insert(2, 'include <diff.bare>')
    what = f'{pairs}'
    c.sample(what)
    out = run('\n'.join(text + ['return out']), globals_)
    c.weight = len(pairs)
    for i, (left, right) in enumerate(pairs):
        if globals_[f'a{i}'] != left or globals_[f'b{i}'] != right:
            c.fail(f'an input was modified: {globals_[f"a{i}"]!r}, {globals_[f"b{i}"]!r}, before {left!r}, {right!r}')
        verify(c, left, right, out[i] if isinstance(out, list) and i < len(out) else None)
        a, b = split(left), split(right)
        if a != b and set(a) & set(b):
            c.nontrivial(repr((left, right)))
        c.tag('forms ' + '/'.join('array' if isinstance(v, list) else 'crlf' if '\r\n' in v else 'lf' for v in (left, right)))
        if a == b:
            c.tag('equal lines')


def long_pairs(c):
    randoms(c, 150, 1)


def again(c):
    """The diff of the parts: results that are passed on, changed and diffed again in one run."""
    a, b = pair(c, 12)
    globals_ = {'a': list(a), 'b': list(b)}
    c.sample(f'{a} {b}')
    out = run('''include <diff.bare>
d = diffLines(a, b)
again = diffLines(a, b)
same = jsonStringify(d) == jsonStringify(again)
for x in d:
    arrayPush(objectGet(x, 'lines'), 'changed by the caller')
endfor
third = diffLines(a, b)
return arrayNew(d, again, third, same, schemaValidate(diffTypes, 'Differences', again), a, b)
''', globals_)
    if not isinstance(out, list) or len(out) != 7 or out[3] is not True:
        c.fail(f'diffLines twice of {a}, {b}: {show(out, 1500)}')
    verify(c, a, b, out[1], 'the second diffLines')
    verify(c, a, b, out[2], 'diffLines after the caller changed a result')
    if out[4] != out[1]:
        c.fail(f'the differences of {a}, {b} are not valid against the schema of diff.bare: {show(out[4])}')
    if out[5] != a or out[6] != b:
        c.fail(f'the inputs {a}, {b} became {out[5]}, {out[6]}')
    if a != b and set(a) & set(b):
        c.nontrivial(repr((a, b)))


# -- the command line -----------------------------------------------------------------------------------

def cli(c):
    """The same through the command line: inline code and files, the lines as literals, variables and JSON."""
    pairs = []
    for _ in range(1 + c.draw(6)):
        a, b = pair(c, 14)
        pairs.append((form(c, a), form(c, b)))
    text = 'include <diff.bare>\n'
    how = c.draw(3)
    data = json.dumps(pairs)
    if how == 0:
        text += f"pairs = jsonParse({literal(data)})\n"
    else:
        text += 'pairs = jsonParse(data)\n'
    text += ("for p in pairs:\n    systemLog(jsonStringify(diffLines(arrayGet(p, 0), arrayGet(p, 1))))\nendfor\n")
    argv = [] if how == 0 else ['-v', 'data', literal(data)]
    if c.draw(4) == 3:
        argv = ['-m'] + argv
    root = tempfile.mkdtemp(prefix='c20-')
    try:
        if c.draw(2):
            argv = argv + ['-c', text]
        else:
            with open(os.path.join(root, 'main.bare'), 'w', encoding='utf-8', newline='') as fh:
                fh.write(text)
            argv = argv + ['main.bare'] if not argv or argv == ['-m'] else ['main.bare'] + argv
        status, out = command(argv, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    what = f'bare {argv}'
    c.sample(what)
    rows = out.split('\n')
    if status != 0 or len(rows) != len(pairs) + 1 or rows[-1]:
        c.fail(f'{what}\nstatus {status}, output {out!r}')
    for (left, right), row in zip(pairs, rows):
        try:
            diffs = json.loads(row)
        except ValueError:
            c.fail(f'{what}\noutput {row!r}')
        verify(c, left, right, diffs)
        if left != right:
            c.nontrivial(repr((left, right)))
    c.weight = len(pairs)


def literal(s):
    return "'" + s.replace('\\', '\\\\').replace("'", "\\'") + "'"


# -- unittestDeepEqual -------------------------------------------------------------------------------------

def deep_value(c, depth=3):
    k = c.draw(7) if depth else c.draw(4)
    if k <= 1:
        return float(c.draw(4))
    if k == 2:
        return c.pick(['a', 'b', '', 'x"y', 'two\nlines'])
    if k == 3:
        return c.pick([None, True, False])
    if k <= 5:
        return {n: deep_value(c, depth - 1) for n in ('a', 'b', 'c', 'dd')[:c.draw(5)]}
    return [deep_value(c, depth - 1) for _ in range(c.draw(5))]


def changed(c, v, depth=3):
    """A copy with a difference somewhere (perhaps)."""
    if c.draw(4) == 0:
        return deep_value(c, 1)
    if isinstance(v, dict) and v:
        out = dict(v)
        k = c.pick(list(v))
        if c.draw(4) == 0:
            del out[k]
        else:
            out[k] = changed(c, v[k], depth - 1)
        return out
    if isinstance(v, list) and v:
        out = list(v)
        i = c.draw(len(v))
        k = c.draw(4)
        if k == 0:
            del out[i]
        elif k == 1:
            out.insert(i, deep_value(c, 1))
        else:
            out[i] = changed(c, v[i], depth - 1)
        return out
    return v


def deep_equal(c):
    values = []
    for _ in range(1 + c.draw(4)):
        if c.draw(3) == 0:
            a, b = pair(c, 10)
            values.append(('\n'.join(a), '\n'.join(b)))
        else:
            v = deep_value(c)
            values.append((v, copy.deepcopy(v) if c.draw(4) == 0 else changed(c, v)))
    lines = ['include <unittest.bare>', 'vTest = null', 'function testIt():']
    globals_ = {'markdownEscape': lambda args, _o: args[0]}
    for i, (a, b) in enumerate(values):
        globals_[f'a{i}'], globals_[f'b{i}'] = copy.deepcopy(a), copy.deepcopy(b)
        lines.append(f"    unittestDeepEqual(a{i}, b{i})")
    lines += ['endfunction', "unittestRunTest('testIt')", "texts = arrayNew()"]
    for i in range(len(values)):
        lines.append(f'arrayPush(texts, arrayNew(if(systemType(a{i}) == \'string\', a{i}, jsonStringify(a{i}, 4)), '
                     f'if(systemType(b{i}) == \'string\', b{i}, jsonStringify(b{i}, 4))))')
    lines.append("return arrayNew(objectGet(unittestTests, 'testIt'), texts)")
    what = f'unittestDeepEqual of {values}'
    c.sample(what)
    out = run('\n'.join(lines), globals_)
    if not isinstance(out, list) or not isinstance(out[0], list):
        c.fail(f'{what}\ngave {show(out)}')
    failures = list(out[0])
    for i, (left, right) in enumerate(out[1]):
        if left == right:
            continue
        c.nontrivial(repr((left, right)))
        if not failures:
            c.fail(f'{what}\nno failure reported for {left!r} and {right!r}: {show(out[0])}')
        got = failures.pop(0)
        if not isinstance(got, list) or not all(isinstance(s, str) for s in got):
            c.fail(f'{what}\nfailure {show(got)}')
        a, b = split(left), split(right)
        block, gone, came = False, [], []
        for s in got:
            if s == '```':
                block = not block
            elif block and s.startswith('--- '):
                gone.append(s[4:])
            elif block and s.startswith('+++ '):
                came.append(s[4:])
            elif block:
                c.fail(f'{what}\nline {s!r} of {got}')
        if a == b:
            if gone or came:
                c.fail(f'{what}\nequal lines, but {got}')
        elif not (gone or came) or len(a) - len(gone) != len(b) - len(came) or not explains(a, gone, b, came):
            c.fail(f'{what}\nremoved {gone} and added {came} do not turn\n{left}\ninto\n{right}')
    if failures:
        c.fail(f'{what}\nfailures without a difference: {show(failures)}')


def explains(a, gone, b, came):
    """Is there a common rest of a without `gone` and b without `came` (all in order)?"""
    frontier = {(0, 0, 0, 0)}
    seen = set(frontier)
    while frontier:
        new = set()
        for i, g, j, k in frontier:
            if i == len(a) and j == len(b) and g == len(gone) and k == len(came):
                return True
            if i < len(a) and g < len(gone) and a[i] == gone[g]:
                new.add((i + 1, g + 1, j, k))
            if j < len(b) and k < len(came) and b[j] == came[k]:
                new.add((i, g, j + 1, k + 1))
            if i < len(a) and j < len(b) and a[i] == b[j]:
                new.add((i + 1, g, j + 1, k))
        frontier = new - seen
        seen |= frontier
    return False


# -- the shipped scripts -------------------------------------------------------------------------------------

def shipped_items(tier):
    names = [name for name, _ in SHIPPED]
    return [('file', n) for n in names] + [('cli', n) for n in names] + [('pair', a, b) for a in names for b in names] + [('shuffle', k) for k in range(20)]


def shipped_check(c, item):
    names = [name for name, _ in SHIPPED]
    texts = dict(SHIPPED)
    c.sample(str(item))
    c.nontrivial(item)
    if not names or 'diff.bare' not in names:
        c.fail(f'the shipped scripts are {names}')
    if item[0] == 'file':
        text = texts[item[1]]
        for t in (text, text.replace('\n', '\r\n'), text.split('\n')):
            model = parse_script(t)
            if validate_script(copy.deepcopy(model)) != model:
                c.fail(f'{item[1]}: validation changed the model')
            warnings = lint_script(model)
            if warnings:
                c.fail(f'{item[1]}: {warnings}')
        return
    if item[0] == 'cli':
        path = os.path.join(REPO, 'src', 'bare_script', 'include', item[1])
        status, out = command(['-s', path], '/')
        if status != 0 or 'OK' not in out or 'warning' in out:
            c.fail(f'bare -s {item[1]}: status {status}\n{out}')
        status, out = command(['-c', f'include <{item[1]}>'], '/')
        if status != 0 or out:
            c.fail(f"include <{item[1]}>: status {status}\n{out}")
        return
    order = [item[1], item[2]] if item[0] == 'pair' else shuffled(names, item[1])
    globals_ = {}
    text = ''.join(f'include <{n}>\n' for n in order)
    text += "include <diff.bare>\nreturn diffLines(arrayNew('a', 'b', 'c'), arrayNew('a', 'x', 'c', 'd'))\n"
    verify(c, ['a', 'b', 'c'], ['a', 'x', 'c', 'd'], run(text, globals_), f'{order}: diffLines')
    # and once more in the same globals
    verify(c, ['a', 'b', 'c'], ['a', 'x', 'c', 'd'], run(text, globals_), f'{order} again: diffLines')


def shuffled(names, k):
    out = list(names)
    for i in range(len(out) - 1, 0, -1):
        k = (k * 1103515245 + 12345) % (1 << 31)
        j = k % (i + 1)
        out[i], out[j] = out[j], out[i]
    return out


def edge_items(tier):
    inputs = ['', '\n', '\r\n', '\n\n', 'a', 'a\n', '\na', 'a\r\n', 'a\nb', 'a\r\nb', 'a\rb', 'a\r\r\nb', 'a\n\r\nb', '\r', [], [''], ['', ''], ['a'], ['a', ''],
              ['', 'a'], ['a\nb'], ['a\r\nb', 'c'], ['a', 'b'], ['a\n'], ['\n', 'a'], ['\r\n'], 'a\nb\nc', 'c\nb\na', ['c', 'a', 'b'], 'a\n\n\nb', ['a', '', '', 'b']]
    return [(a, b) for a in inputs for b in inputs]


def edge_check(c, item):
    a, b = copy.deepcopy(item)
    verify(c, item[0], item[1], run('include <diff.bare>\nreturn diffLines(a, b)', {'a': a, 'b': b}))
    if split(item[0]) != split(item[1]):
        c.nontrivial(repr(item))
    c.sample(repr(item))


# -- long texts ----------------------------------------------------------------------------------------------

SIZES = (255, 256, 257, 300, 511, 513, 1000, 1023, 1025, 1300, 2047, 2049, 3000, 4100, 5000)


def long_items(tier):
    sizes = SIZES + ((10001, 17000) if tier == 'thorough' else ())
    return [(n, shape, k) for n in sizes for shape in ('equal', 'insert', 'remove', 'replace', 'twice', 'one', 'unlike', 'same line') for k in range(6)]


def long_check(c, item):
    """Hundreds and thousands of lines, alike but for a few (a line of the left that is gone is looked for in all of the right)."""
    n, shape, k = item
    if shape == 'same line':
        left = ['same'] * n
        right = ['same'] * (n - k if k % 2 else n + k)
    elif shape == 'one':
        left, right = [f'line {i}' for i in range(n)], [f'line {n - 1 if k % 2 else 0}']
        if k > 3:
            left, right = right, left
    elif shape == 'unlike':
        left, right = [f'line {i}' for i in range(n)], [['x'], [''], ['x', 'y'], [f'line {n}'], ['line'], ['x'] * 5][k]
        if k % 2:
            left, right = right, left
    else:
        left = [f'line {i}' if not 20 <= i < 23 else '' for i in range(n)]
        right = list(left)
        at = [0, n // 3, n // 2, n - 3, n - 1, min(n - 1, 256)][k]
        if shape == 'insert':
            right[at:at] = [f'new {i}' for i in range(1 + k * 40)]
        elif shape == 'remove':
            del right[at:at + 1 + k % 3]
        elif shape == 'replace':
            right[at] = 'other'
        elif shape == 'twice':
            right[n - 2 - k] = 'other'
            right[3 + k:3 + k] = ['new']
    forms = [list, '\n'.join, '\r\n'.join, lambda v: ['\n'.join(v[:len(v) // 2]), '\n'.join(v[len(v) // 2:])]]
    make = forms[(k + n) % 4]
    left = make(left)
    right = make(right) if k % 2 else forms[(k + n + 1) % 4](right)
    globals_ = {'a': copy.deepcopy(left), 'b': copy.deepcopy(right)}
    diffs = run('include <diff.bare>\nreturn diffLines(a, b)', globals_)
    if globals_ != {**globals_, 'a': left, 'b': right}:
        c.fail(f'{item}: an input was modified')
    a, b = split(left), split(right)
    what = f'{item}: {len(a)} lines and {len(b)} lines: diffLines'
    try:
        verify(c, left, right, diffs, what)
    except Exception as exc:
        if not isinstance(diffs, list):
            raise
        blocks = [(d.get('type'), len(d['lines'])) for d in diffs if isinstance(d, dict) and isinstance(d.get('lines'), list)]
        exc.args = (f'{what} gave the blocks {blocks[:20]}',) + exc.args[1:]
        raise
    if a != b and set(a) & set(b):
        c.nontrivial(item)
    c.sample(what)


def sections(tier):
    return [
        Enum('long texts', long_items, long_check),
        Enum('small pairs', small_items, small_check),
        Enum('edges', edge_items, edge_check),
        Gen('random pairs', randoms, 2500),
        Gen('long pairs', long_pairs, 300),
        Gen('again', again, 700),
        Gen('command line', cli, 900),
        Gen('unittestDeepEqual', deep_equal, 1000),
        Enum('shipped', shipped_items, shipped_check),
    ]
