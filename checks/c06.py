"""C06: the parser is total and its diagnostics point at the offending source."""

import itertools
import os

from bare_script import BareScriptParserError, parse_script

from core import REPO, Enum, Gen
from gen import expr as E
from gen import program as P
from gen.rename import KEEP, odd_names
from ref import script as S

RULE = ('Texts: line soups, mutated generated programs and shipped scripts, exhaustive short sequences of structural lines, '
        'expression faults planted at token gaps of every statement kind (with padding to 400 characters and continuations), every line of up to two characters and every one-character edit of one line of each statement '
        'kind, faults behind up to 100000 lines, closers '
        'removed, logical lines deleted, prefixes prepended, carets at every column of lines of length 0-400, deep nesting. Oracle: an '
        'independent line grammar (accept/reject, error line, column span, leaves present in order). Non-trivial: the text has at least '
        'two logical lines or the line has at least 3 tokens; distinct by text.')
ASSUMPTIONS = ['Error columns may point at the blank before the offending token as well as at the token.',
               'When a closing keyword and an opening line disagree, the reported line may be either of the two.',
               'Block keywords followed by nothing but white space before ":" are only checked for totality.']


def target(text, *args):
    """('ok', model) or ('error', BareScriptParserError); anything else propagates as a violation of totality."""
    try:
        return 'ok', parse_script(text, *args)
    except BareScriptParserError as exc:
        return 'error', exc


def flat(model):
    """Every statement of every scope, in order."""
    out = []
    functions = 0
    for st in model['statements']:
        key, = st
        if key == 'function':
            f = st['function']
            out.append((0, ('function', f['name'], tuple(f.get('args', ())), bool(f.get('lastArgArray')), bool(f.get('async')))))
            functions += 1
            for inner in f['statements']:
                out += [(functions, x) for x in leaf(inner)]
        else:
            out += [(0, x) for x in leaf(st)]
    return out


def leaf(st):
    key, = st
    if key == 'expr':
        e = st['expr']
        return [('assign', e['name'], e['expr']) if 'name' in e else ('expr', e['expr'])]
    if key == 'jump':
        return [('jump', st['jump']['label'], st['jump'].get('expr'))]
    if key == 'return':
        return [('return', st['return'].get('expr'))]
    if key == 'label':
        return [('label', st['label'])]
    if key == 'include':
        return [('include', i['url'], bool(i.get('system'))) for i in st['include']['includes']]
    if key == 'function':
        return [('function', st['function']['name'])]
    raise AssertionError(key)


def has_expr(part, want):
    """Does the expression `part` contain `want`?"""
    if part == want:
        return True
    if not isinstance(part, dict):
        return False
    key, = part
    sub = part[key]
    if key == 'binary':
        return has_expr(sub['left'], want) or has_expr(sub['right'], want)
    if key == 'unary':
        return has_expr(sub['expr'], want)
    if key == 'group':
        return has_expr(sub, want)
    if key == 'function':
        return any(has_expr(a, want) for a in sub['args'])
    return False


def accounts(c, leaves, model):
    """Every leaf of the text shows up in the model, in order, in its scope."""
    with c.inspect('parse_script'):
        have = flat(model)
    i = 0
    for scope, lf in leaves:
        kind = lf[0]
        if kind == 'else':
            continue
        while True:
            if i == len(have):
                c.fail(f'the model has nothing (in order) for {lf!r} in scope {scope}\n  model {model!r}')
            got_scope, got = have[i]
            i += 1
            if got_scope != scope:
                continue
            if kind in ('if', 'elif', 'while'):
                if got[0] == 'jump' and got[2] is not None and has_expr(got[2], lf[1]):
                    break
            elif kind == 'for':
                if got[0] == 'assign' and has_expr(got[2], lf[3]):
                    break
            elif kind in ('break', 'continue'):
                if got[0] == 'jump' and got[2] is None:
                    break
            elif got == lf:
                break


def check_error(c, text, exc, start=1, want=None):
    """The attributes and the message of an error, for a text given as one string."""
    physical = S.split_lines(text)
    number, line, column = exc.line_number, exc.line, exc.column_number
    where = f'error {exc.error!r} line_number={number!r} column={column!r} line={line!r}'
    if not isinstance(number, int) or isinstance(number, bool):
        c.fail(f'{where}: no line number\n{text}')
    if not isinstance(column, int) or not 1 <= column <= len(line) + 1:
        c.fail(f'{where}: column outside the line\n{text}')
    logical = {ln.number + start: ln for ln in S.logical_lines(physical)}
    ln = logical.get(number)
    if ln is None:
        c.fail(f'{where}: no logical line starts there\n{text}')
    if line != ln.text and not (len(ln.parts) > 1 and ' '.join(line.split()) == ' '.join(ln.text.split())):
        c.fail(f'{where}: the text of that line is {ln.text!r}')
    if str(number) not in str(exc) or exc.error not in str(exc):
        c.fail(f'{where}: the message lacks the error or its line number: {exc}')
    caret(c, str(exc), line, column)
    if want is not None:
        if number not in want.lines:
            c.fail(f'{where}: the fault ({want.what}) is on line {sorted(want.lines)}\n{text}')
        if want.spans is not None and not any(a <= column <= b for a, b in want.spans):
            c.fail(f'{where}: the fault ({want.what}) is at column {want.spans}\n{text}')


def caret(c, message, line, column):
    """The caret under the (possibly elided) line marks the same character."""
    parts = message.split('\n')
    if len(parts) < 3 or parts[-1] != '' or parts[-2].strip() != '^':
        c.fail(f'no caret line in {message!r}')
    pos = parts[-2].index('^')
    shown = parts[-3]
    if column <= len(line):
        if pos >= len(shown) or shown[pos] != line[column - 1]:
            c.fail(f'column {column} of {line!r}: caret at {pos} of {shown!r}')
        # the text around the caret is the text around the column
        a, b = pos, column - 1
        left = shown[max(0, a - 3):a]
        if shown.startswith('... ') and len(line) > 120:
            left = shown[max(4, a - 3):a]
        if line[max(0, b - len(left)):b] != left:
            c.fail(f'column {column} of {line!r}: caret at {pos} of {shown!r}')
    else:
        core = shown[:-4] if shown.endswith(' ...') and len(line) > 120 else shown
        if pos != len(core) or (line and core[-1:] != line[-1]):
            c.fail(f'column {column} (the end) of {line!r}: caret at {pos} of {shown!r}')


def agree(c, text, start=1, full=True):
    """The target against the line grammar."""
    args = () if start == 1 else (start,)
    kind, got = target(text, *args)
    want = None
    try:
        leaves = S.analyse(S.split_lines(text), start)
    except S.Bad as bad:
        want = bad
    except S.Unsure:
        if kind == 'error':
            check_error(c, text, got, start)
        c.tag('unsure')
        return None
    if kind == 'ok':
        if want is not None:
            c.fail(f'accepted although line {sorted(want.lines)} is wrong ({want.what})\n{text}')
        if full:
            accounts(c, leaves, got)
        return got
    if want is None:
        c.fail(f'rejected ({got.error}, line {got.line_number}, column {got.column_number}) a correct text\n{text}')
    check_error(c, text, got, start, want)
    return None


# -- exhaustive structure ---------------------------------------------------------------

STRUCT = ['if a:', 'elif b:', 'else:', 'endif', 'while c:', 'endwhile', 'for v in w:', 'endfor', 'function ff():', 'endfunction',
          'break', 'continue', 'lab:', 'x = 1']


def struct_items(tier):
    length = 5 if tier == 'quick' else 6
    for n in range(0, length - 2):
        for head in itertools.product(range(len(STRUCT)), repeat=n):
            yield (0,) + head
    # the rest in blocks: a head, then every two-line tail
    for head in itertools.product(range(len(STRUCT)), repeat=length - 2):
        yield (1,) + head


def struct_check(c, item):
    head = [STRUCT[i] for i in item[1:]]
    if item[0] == 0:
        tails = [()]
    else:
        tails = [()] + [(a,) for a in STRUCT] + [(a, b) for a in STRUCT for b in STRUCT]
    c.weight = 0
    # a head that fails before its last line fails the same way with any tail
    for tail in tails:
        text = '\n'.join(head + list(tail))
        c.weight += 1
        got = agree(c, text, (1, 7, 2)[(c.weight + len(head)) % 3])
        if got is not None and len(head) + len(tail) >= 2:
            c.nontrivial(text)
            c.tag('structure:accepted')
        else:
            c.tag('structure:rejected')
    if len(head) >= 2:
        c.nontrivial('\n'.join(head))
    c.sample(' / '.join(head))


# -- caret ------------------------------------------------------------------------------

def unique_line(n):
    """n different characters, none of them a dot or blank."""
    return ''.join(chr(0x4E00 + i) for i in range(n))


def caret_items(tier):
    return range(0, 401)


def caret_check(c, n):
    line = unique_line(n)
    c.weight = 0
    for column in range(1, n + 2):
        for args in ((), (7,), (12345, 'Included from "x.bare"')):
            exc = BareScriptParserError('Some error', line, column, *args)
            c.weight += 1
            caret(c, str(exc), line, column)
            if exc.error != 'Some error' or exc.line != line or exc.column_number != column \
                    or exc.line_number != (args[0] if args else None):
                c.fail(f'attributes of the error are {exc.error!r} {exc.line!r} {exc.column_number!r} {exc.line_number!r}')
            if len(args) == 2 and not str(exc).startswith(args[1] + '\n'):
                c.fail(f'prefix missing: {exc}')
    c.nontrivial(n)
    c.sample(f'length {n}')


# -- faults at token gaps ---------------------------------------------------------------

FAULTS = ['@', '$', '`', '~', '?', ';', '{', '\\x', '"open', "'open"]


def small_expr(c, depth=3):
    k = c.weighted([(2, 0), (1, 1), (1, 2), (4, 3), (2, 4), (2, 5), (3, 6)]) if depth > 0 else c.draw(3)
    if k == 0:
        return E.var(c.pick(['a', 'bb', 'A B', 'null']))
    if k == 1:
        return E.num(c.pick([0, 1, 2.5]))
    if k == 2:
        return E.string(c.pick(['', 's', "it's", 'a, b)']))
    if k == 3:
        return E.binary(c.pick(['+', '-', '*', '**', '<', '<=', '==', '&&', '||']), small_expr(c, depth - 1), small_expr(c, depth - 1))
    if k == 4:
        return E.unary(c.pick('!-'), small_expr(c, depth - 1))
    if k == 5:
        return E.group(small_expr(c, depth - 1))
    return E.call(c.pick(['ff', 'mathMax', 'if']), *[small_expr(c, depth - 1) for _ in range(c.draw(4))])


KINDS = ['assign', 'expr', 'return', 'if', 'elif', 'while', 'for', 'fori', 'jumpif']


def host_lines(c, kind, gap):
    """(lines before, text before the expression, text after it, lines after)."""
    ind = c.pick(['', '    ', '\t', '  '])
    s = ' ' * (1 + c.small(3))
    z = ' ' * c.small(2)
    if kind == 'assign':
        return [], f'{ind}name{z}={z}', '', []
    if kind == 'expr':
        return [], ind, '', []
    if kind == 'return':
        return [], f'{ind}return{s}', '', []
    if kind == 'if':
        return [], f'{ind}if{s}', f'{z}:{z}', ['endif']
    if kind == 'elif':
        return ['if first:', '    x = 1'], f'{ind}elif{s}', f'{z}:{z}', ['endif']
    if kind == 'while':
        return [], f'{ind}while{s}', f'{z}:{z}', ['endwhile']
    if kind == 'for':
        return [], f'{ind}for{s}v{s}in{s}', f'{z}:{z}', ['endfor']
    if kind == 'fori':
        return [], f'{ind}for{s}v{z},{z}ix{s}in{s}', f'{z}:{z}', ['endfor']
    return [], f'{ind}jumpif{z}({z}', f'{z}){s}lab{z}', ['lab:']


def faults(c):
    """A good expression in every statement kind with one fault character at a token gap."""
    kind = c.pick(KINDS)
    expr = E.normal(small_expr(c))
    if kind == 'expr' and 'function' not in expr and 'group' not in expr:
        expr = E.group(expr)
    toks = E.tokens(expr, c)
    if c.draw(4) == 3:
        # a long line
        pad = c.pick([40, 100, 118, 119, 120, 121, 122, 200, 300, 380])
        toks = E.tokens(E.normal(E.call('ff', E.string('p' * pad), expr) if c.draw(2) else E.call('ff', expr, E.string('p' * pad))), c)
    before, head, tail, after = host_lines(c, kind, None)
    fault = c.pick(FAULTS) if c.draw(2) else '@'
    at = c.draw(len(toks) + 1)
    text = ''
    opens = []
    prev_end = 0
    pos = None
    first_open = None
    for i, tok in enumerate(toks + [None]):
        gap = E.GAPS[c.draw(5)] if i else ''
        if i == at:
            text += gap
            pos = len(text)
            if opens:
                first_open = opens[0]
            end_before = prev_end
            text += fault + ' '
            gap = ''
        if tok is None:
            break
        text += gap
        if tok == '(':
            opens.append(len(text))
        elif tok == ')':
            opens.pop()
        text += tok
        prev_end = len(text)
    line = head + text + tail
    lead = [c.pick(['', '# note', 'y = 2', 'ff(1)', '  ', 'z = ff(1, \\', ]) for _ in range(c.small(4, 1, 2))]
    pre = []
    for x in lead:
        pre.append(x)
        if x.endswith('\\'):
            pre.append('    2)')
    inside = c.draw(3) == 2
    if inside:
        pre.append('function wrap(a):')
    rows = pre + before
    start = c.pick([1, 1, 0, 100, 7])
    number = start + len(rows)
    full = '\n'.join(rows + [line] + after + (['endfunction'] if inside else []))
    c.sample(full)
    c.nontrivial(full)
    c.tag('fault:' + kind)
    status, exc = target(full, *(() if start == 1 else (start,)))
    if status == 'ok':
        c.fail(f'accepted a stray {fault!r} at column {len(head) + pos + 1} of line {number}\n{full}')
    lo = len(head) + end_before + 1
    if first_open is not None:
        lo = min(lo, len(head) + first_open + 1)
        # a group is reported from the blank before its parenthesis
        while lo > 1 and line[lo - 2].isspace():
            lo -= 1
    hi = len(head) + pos + 1
    if end_before == 0 and pos == 0:
        lo = len(head) + 1
        while lo > 1 and line[lo - 2].isspace():
            lo -= 1
    if exc.line_number != number or exc.line != line:
        c.fail(f'stray {fault!r} on line {number}, reported on line {exc.line_number} with text {exc.line!r}\n{full}')
    if fault[0] not in '"\'' and not lo <= exc.column_number <= hi:
        c.fail(f'stray {fault!r} at column {hi} (acceptable {lo}..{hi}), reported at column {exc.column_number}\n{line}')
    check_error(c, full, exc, start)
    agree(c, full, start)


# -- soups ------------------------------------------------------------------------------

VOCAB = ['if', 'elif', 'else', 'endif', 'while', 'endwhile', 'for', 'in', 'endfor', 'function', 'endfunction', 'async', 'break', 'continue',
         'jump', 'jumpif', 'return', 'include', 'a', 'b', 'name', 'ff(', '(', ')', ':', ',', '=', '==', '+', '-', '!', '1', '2.5', "'s'", '"t"',
         "'u.bare'", '<v.bare>', '...', '\\', '#', '[x y]', '@', "'", '&&', '<', '>', 'null', 'é', '\u00a0', '\x0c', '\r', '.']
GOODISH = ['if a:', 'if (a) :', 'elif b + 1:', 'else:', 'else :', 'endif', 'while ff(a):', 'endwhile', 'for v in w:', 'for v, i in ff(w):',
           'for a ,b in c :', 'endfor', 'function ff(a, b):', 'function gg():', 'function gg(a...):', 'async function hh(a , b ...) :', 'endfunction',
           'break', 'continue', 'lab:', 'lab :', 'endif:', 'jump lab', 'jumpif (a) lab', 'jumpif(a && (b)) lab', 'return', 'return a', 'return(a)',
           "include 'x.bare'", 'include <y.bare>', "include 'it\\'s'", 'x = 1', 'if = 5', 'a = b == c', 'ff(a)', 'a', '(a)', '# c', '', '   ',
           'x = ff(1, \\', '    2)', 'a + \\', '  b', '\\', 'if a: b', 'else', 'if', 'a == b', 'return = 1', 'jump', 'jump  l  ', 'function ff(a,):',
           'function (a):', 'function f(a b):', 'for in x:', 'for v in:', 'include x', 'include "x"', 'break:', 'x =', 'x = ', 'x  =  y  ', 'return  ',
           'while (a:', 'a)', "'abc", 'jumpif a b', 'jumpif () b', '@', 'if a', 'functionf():', 'iffy:', 'endfor endfor', 'a b', 'return a b']


def soup_line(c):
    n = 1 + c.draw(7)
    return ''.join(c.pick(['', ' ', ' ', '  ']) + c.pick(VOCAB) for _ in range(n)) + c.pick(['', '', '', ':', '\\', ' '])


def soup(c):
    n = 1 + c.draw(6)
    rows = [soup_line(c) if c.draw(3) == 2 else c.pick(GOODISH) for _ in range(n)]
    text = c.pick(['\n', '\n', '\n', '\r\n']).join(rows)
    c.sample(text)
    c.nontrivial(text)
    got = agree(c, text, c.pick([1, 1, 1, 5, 0]))
    c.tag('soup:accepted' if got is not None else 'soup:rejected')


def line_soup(c):
    text = soup_line(c)
    c.sample(text)
    c.nontrivial(text)
    got = agree(c, text)
    c.tag('line:accepted' if got is not None else 'line:rejected')


CHARS = 'ab1 \t=:()+-!,\'"\\#<>[].\r\n\n@éif'


def chars(c):
    n = c.draw(30)
    text = ''.join(c.pick(CHARS) for _ in range(n))
    c.sample(text)
    if n >= 3:
        c.nontrivial(text)
    got = agree(c, text)
    c.tag('chars:accepted' if got is not None else 'chars:rejected')


def garbage(c):
    """Arbitrary code points: only totality and well-formed errors."""
    n = c.draw(60)
    out = []
    for _ in range(n):
        k = c.draw(6)
        if k == 0:
            out.append(chr(c.draw(0x110000)))
        elif k == 1:
            out.append(chr(c.draw(0x100)))
        elif k == 2:
            out.append('\n')
        else:
            out.append(c.pick(VOCAB))
    text = ''.join(out)
    c.nontrivial(text)
    c.sample(text)
    kind, got = target(text)
    if kind == 'error':
        check_error(c, text, got)
    else:
        with c.inspect('parse_script'):
            flat(got)
    c.tag('garbage:' + kind)


# -- programs ---------------------------------------------------------------------------

def program_lines(c, budget=25):
    """Rows of a generated program, with jump-level statements, includes, comments and continuations sprinkled in."""
    gen = P.ProgramGen(c, max_depth=4, budget=budget, redefine=c.draw(3) == 0)
    rows = [P.plain_line(ln) for ln in P.lines(odd_names(c, gen.program(), 8, KEEP)[0], c)]
    out = []
    for row in rows:
        k = c.draw(16)
        if k == 11:
            out.append(c.pick(['# comment', '', '   # x', '\t']))
        elif k == 12:
            out.append(c.pick(['lab:', 'jump lab', 'jumpif (g0) lab', "include 'a.bare'", 'include <b.bare>', 'return g0', 'ff(1)']))
        elif k == 13 and ', ' in row:
            i = row.index(', ') + 1
            out.append(row[:i] + ' \\')
            if c.draw(3) == 2:
                out.append('# inside')
            row = '        ' + row[i:]
        out.append(row)
    return out


def texts(c):
    """Generated programs are accepted and accounted for."""
    rows = program_lines(c)
    text = '\n'.join(rows)
    c.sample(text)
    c.nontrivial(text)
    got = agree(c, text)
    if got is None:
        c.fail(f'rejected\n{text}')


def mutated(c):
    rows = program_lines(c, 12)
    for _ in range(1 + c.draw(2)):
        i = c.draw(len(rows))
        k = c.draw(9)
        row = rows[i]
        if k == 0:
            del rows[i]
        elif k == 1:
            rows.insert(i, row)
        elif k == 2:
            rows.insert(i, c.pick(GOODISH))
        elif k == 3:
            j = c.draw(len(rows))
            rows[i], rows[j] = rows[j], rows[i]
        elif k == 4:
            rows[-1] += ' \\'
        elif k == 5:
            rows[i] = row + c.pick([' \\', '\\\\', '\\\\\\', ' \\ \\'])
        elif k == 6:
            cut = c.draw(len(row) + 1)
            rows[i] = row[:cut] + c.pick(VOCAB) + row[cut:]
        elif k == 7:
            cut = c.draw(len(row) + 1)
            rows[i] = row[:cut] + row[cut + 1:]
        else:
            words = row.split(' ')
            w = c.draw(len(words))
            if c.draw(2):
                del words[w]
            else:
                words[w] = c.pick(VOCAB)
            rows[i] = ' '.join(words)
        if not rows:
            rows = ['']
    text = '\n'.join(rows)
    c.sample(text)
    c.nontrivial(text)
    got = agree(c, text)
    c.tag('mutated:accepted' if got is not None else 'mutated:rejected')


def closers(c):
    """Without one of its closing lines a program is rejected; cut anywhere with a block open it is rejected."""
    rows = program_lines(c)
    at = [i for i, r in enumerate(rows) if r.strip() in ('endif', 'endwhile', 'endfor', 'endfunction')]
    if not at:
        rows += ['if a:', '    b()', 'endif']
        at = [len(rows) - 1]
    i = c.pick(at)
    cut = c.draw(2)
    if cut:
        j = i - 1
        text = '\n'.join(rows[:j + 1])
    else:
        text = '\n'.join(rows[:i] + rows[i + 1:])
    c.sample(text)
    c.nontrivial(text)
    kind, got = target(text)
    if kind == 'ok':
        c.fail(f'a program without its {rows[i].strip()!r} (line {i + 1}) was accepted\n{text}')
    check_error(c, text, got)
    agree(c, text)


def deleted(c):
    """Deleting any one logical line changes the model or is rejected: no line is silently dropped."""
    rows = program_lines(c, 12)
    kind, whole = target('\n'.join(rows))
    if kind != 'ok':
        c.fail(f'rejected {whole}')
    logical = S.logical_lines(rows)
    c.weight = 0
    for ln in logical:
        parts = set(ln.parts)
        # comments inside a continuation stay
        text = '\n'.join(r for i, r in enumerate(rows) if i not in parts)
        c.weight += 1
        kind, got = target(text)
        if kind == 'ok' and got == whole:
            c.fail(f'line {ln.number + 1} {ln.text!r} leaves no trace in the model\n' + '\n'.join(rows))
    c.nontrivial('\n'.join(rows))
    c.sample('\n'.join(rows))


PREFIX = ['# comment', '', '   ', '\t# x', 'p = 1', 'ff(1, 2)', "p = 'a' + \\\n    'b'", 'pp()', '#\\', "  q = [a b]", 'zz:', 'return 1 + 2', 'pp = (1)']


def shifted(c):
    """A prefix of simple lines, or another start line, moves the line number and changes nothing else."""
    if c.draw(3) == 0:
        rows = program_lines(c, 8)
        i = c.draw(len(rows))
        row = rows[i]
        cut = c.draw(len(row) + 1)
        rows[i] = row[:cut] + c.pick(['@', ')', '(', ' a b ', '\\x', "'"]) + row[cut:]
        if c.draw(4) == 3:
            rows = rows[:1 + c.draw(len(rows))]
    else:
        rows = [c.pick(GOODISH) if c.draw(4) else soup_line(c) for _ in range(1 + c.draw(4))]
    text = '\n'.join(rows)
    kind, base = target(text)
    n = c.small(6, 3, 4)
    prefix = [c.pick(PREFIX) for _ in range(n)]
    shift = sum(1 + p.count('\n') for p in prefix)
    start = c.pick([1, 0, 2, 10, 1000, -5])
    shifted_text = '\n'.join(prefix + [text])
    c.sample(shifted_text)
    c.nontrivial(shifted_text)
    c.tag('shift:' + kind)
    kind2, got = target(shifted_text, start)
    if kind != kind2:
        c.fail(f'{kind} without and {kind2} with a prefix of {shift} lines\n{shifted_text}\n{got if kind2 == "error" else base}')
    if kind == 'error':
        want = (base.error, base.line, base.column_number, base.line_number + shift + start - 1)
        have = (got.error, got.line, got.column_number, got.line_number)
        if want != have:
            c.fail(f'with {shift} lines before it and start line {start} the error is {have}, expected {want}\n{shifted_text}')
        check_error(c, shifted_text, got, start)
    else:
        with c.inspect('parse_script'):
            a, b = flat(base), flat(got)
            extra = len(b) - len(a)
            if b[extra:] != a:
                c.fail(f'the prefix changed the model of the rest\n{shifted_text}\n  {base!r}\n  {got!r}')
            want = flat(parse_script('\n'.join(prefix)))
            if b[:extra] != want:
                c.fail(f'the prefix itself is not accounted for\n{shifted_text}\n  {got!r}')


def deep_items(tier):
    for kind in ('if', 'while', 'for', 'mixed', 'paren', 'call', 'unary', 'not', 'chain', 'bracket'):
        for depth in (1, 2, 5, 10, 25, 50, 51, 100, 250, 1000, 5000, 20000):
            for fault in (0, 1, 2):
                yield kind, depth, fault


def deep_check(c, item):
    kind, depth, fault = item
    if kind in ('if', 'while', 'for', 'mixed'):
        if depth > 1000:
            c.weight = 0
            return
        openers = {'if': ('if a:', 'endif'), 'while': ('while a:', 'endwhile'), 'for': ('for v in a:', 'endfor')}
        pairs = [openers[kind if kind != 'mixed' else ('if', 'while', 'for')[i % 3]] for i in range(depth)]
        rows = [o for o, _ in pairs] + ['xx()' if fault != 1 else 'xx() @'] + [e for _, e in reversed(pairs)]
        if fault == 2:
            del rows[-1 - depth // 2]
        agree(c, '\n'.join(rows))
    else:
        good = {'paren': '(' * depth + 'a' + ')' * depth, 'call': 'ff(' * depth + 'a' + ')' * depth, 'unary': '-' * depth + 'a',
                'not': 'x = ' + '! ' * depth + 'a', 'chain': 'x = ' + ' + '.join(['a'] * depth), 'bracket': 'x = [' + 'a' * depth + ']'}[kind]
        text = good if fault == 0 else good + ' @' if fault == 1 else good[:-1]
        status, got = target(text)
        if status == 'error':
            check_error(c, text, got)
        if depth <= 50:
            agree(c, text)
        elif fault == 1 and status == 'ok':
            c.fail('accepted a fault after a deep expression')
        c.tag(f'deep:{kind}:{status}')
    c.nontrivial(item)
    c.sample(f'{kind} {depth} fault {fault}')


def backslash_items(tier):
    lines = ['aa()', 'x = 1', "x = 's'", 'ff(a,', 'if a:', '# c', '']
    for line in lines:
        for n in range(0, 9):
            for after in ('', ' ', '  \t'):
                for nxt in (None, 'b)', 'endif', '# c', '', '\\', '@', 'b)\\'):
                    yield line, n, after, nxt


def backslash_check(c, item):
    line, n, after, nxt = item
    rows = [line + '\\' * n + after]
    if nxt is not None:
        rows.append(nxt)
    for text in ('\n'.join(rows), 'yy()\n' + '\n'.join(rows), '\n'.join(rows) + '\n', '\n'.join(rows) + '\nzz()'):
        agree(c, text)
    c.weight = 4
    c.nontrivial(item)
    c.sample('\n'.join(rows))


def shipped():
    base = os.path.join(REPO, 'src', 'bare_script', 'include')
    out = []
    if os.path.isdir(base):
        for name in sorted(os.listdir(base)):
            if name.endswith('.bare'):
                with open(os.path.join(base, name), encoding='utf-8') as fh:
                    out.append((name, fh.read()))
    return out


SHIPPED = shipped()


def shipped_items(tier):
    """Every line of every shipped script: deleted, cut, and with a stray character."""
    for ix, (_name, text) in enumerate(SHIPPED):
        n = len(S.split_lines(text))
        step = 1 if tier == 'thorough' else 5
        for i in range(ix % step, n, step):
            yield ix, i


def shipped_check(c, item):
    ix, i = item
    name, text = SHIPPED[ix]
    rows = S.split_lines(text)
    comment = S.is_comment(rows[i])
    c.weight = 4
    agree(c, '\n'.join(rows[:i] + rows[i + 1:]), full=False)
    agree(c, '\n'.join(rows[:i + 1]), full=False)
    agree(c, '\n'.join(rows[:i] + [rows[i] + ' @'] + rows[i + 1:]), full=False)
    agree(c, '\n'.join(rows[:i] + ['endif'] + rows[i:]), full=False)
    if not comment:
        c.nontrivial((ix, i))
    c.sample(f'{name}:{i + 1} {rows[i]}')


def chunked(c):
    """An iterable of chunks: the line numbers count the lines of the chunks."""
    chunks = []
    for _ in range(1 + c.draw(4)):
        chunks.append('\n'.join(c.pick(GOODISH) for _ in range(1 + c.draw(3))))
    text = '\n'.join(chunks)
    form = c.draw(3)
    given = [list(chunks), tuple(chunks), iter(chunks)][form]
    kind, got = target(text)
    kind2, got2 = target(given)
    c.nontrivial(text)
    c.sample(text)
    if kind != kind2:
        c.fail(f'{kind} as one text, {kind2} in chunks {chunks!r}')
    if kind == 'ok' and got != got2:
        c.fail(f'chunks {chunks!r} give another model')
    if kind == 'error' and (got.line_number, got.column_number, got.line, got.error) != \
            (got2.line_number, got2.column_number, got2.line, got2.error):
        c.fail(f'chunks {chunks!r} give the error {got2!r} instead of {got!r}')


# -- every short line, every one-character edit -------------------------------------------

ODD = '\x00\x0b\x0c\x1c\x7f\x85\xa0\xe9\xaa\xb2\u2028\u3000\u4e2d\ufeff\U0001f600'
ASCII = [chr(k) for k in range(32, 127)] + ['\t']
PUNCT = ';:,.#\\\'"()[]{}<>=!&|+-*/%^~@$?` a1'


def short_items(tier):
    for ch in [chr(k) for k in range(256)] + list(ODD):
        yield ch
    for a in ASCII + list(ODD):
        for b in ASCII + list(ODD):
            yield a + b
    for a in PUNCT:
        for b in PUNCT:
            for d in (PUNCT if tier == 'thorough' else ';:,#\\\'()[]=-!a 1'):
                yield a + b + d
    for ch in ASCII + list(ODD):
        for n in (3, 4, 5, 8):
            yield ch * n
            yield (ch + ' ') * n


def short_check(c, line):
    agree(c, line)
    agree(c, 'yy()\n' + line + '\nzz()')
    c.weight = 2
    c.nontrivial(line)
    c.sample(repr(line))


EDITED = [('', "x = ff(1, 'a')", ''), ('', 'ff(a)', ''), ('', 'function ff(a, b):', '\nendfunction'), ('', 'async function hh(a, b...):', '\nendfunction'),
          ('function gg():\n', 'endfunction', ''), ('', 'if a:', '\nendif'), ('if a:\n', 'elif b == 1:', '\nendif'), ('if a:\n', 'else:', '\nendif'),
          ('if a:\n', 'endif', ''), ('', 'while a < 2:', '\nendwhile'), ('while a:\n', 'endwhile', ''), ('', 'for v in w:', '\nendfor'),
          ('', 'for v, ix in ff(w):', '\nendfor'), ('for v in w:\n', 'endfor', ''), ('while a:\n', 'break', '\nendwhile'),
          ('for v in w:\n', 'continue', '\nendfor'), ('', 'lab:', '\njump lab'), ('lab:\n', 'jump lab', ''), ('lab:\n', 'jumpif (a) lab', ''),
          ('', 'return', ''), ('', 'return a + 1', ''), ('', "include 'x.bare'", ''), ('', 'include <y.bare>', ''), ('', "[a b] + 'it' + \"x\"", ''),
          ('', '-(a + 2) ** !b', ''), ('', '1.5e+3', ''), ('', '# note', '')]


def edit_items(tier):
    for k, (_, line, _) in enumerate(EDITED):
        for i in range(len(line) + 1):
            yield k, i


def edit_check(c, item):
    k, i = item
    before, line, after = EDITED[k]
    texts = [line[:i] + ch + line[i:] for ch in ASCII + list(ODD)]
    if i < len(line):
        texts += [line[:i] + line[i + 1:], line[:i] + line[i] + line[i:], line[:i] + line[i + 1:i + 2] + line[i] + line[i + 2:],
                  line[:i] + line[i].swapcase() + line[i + 1:]]
        texts += [line[:i] + ch + line[i + 1:] for ch in PUNCT]
    c.weight = 0
    for text in texts:
        agree(c, before + text + after)
        c.weight += 1
    c.nontrivial(item)
    c.sample(repr(texts[c.weight // 2]))


# -- long scripts ------------------------------------------------------------------------------

LONG_FAULTS = [('x = @', 0), ('endif', 0), ('if a:', 0), ('for v in w:\n  y = 1', 0), ('function ff():', 0), ('ff(a, \\\n  b', 0), ('while a:\nelse:\nendwhile', 1),
               ('zz = 1 + \\\n# c\n\n  $', 0), ("include 'x", 0)]
PREFIXES = ['x = 1', '', '# c', 'ff(a)', 'ff(a, \\\n   b)', 'if a:\n  x = 1\nelse:\n  break_ = 2\nendif', 'function gg():\n  return 1\nendfunction', "include 'x.bare'",
            'for v in w:\n  continue\nendfor']


def long_items(tier):
    for n in (9, 10, 99, 100, 255, 256, 999, 1000, 1023, 1024, 2048, 4095, 4096, 4097, 5000, 9999, 10000) + ((32768, 65535, 65536, 100000) if tier == 'thorough' else (33000,)):
        for k in range(len(LONG_FAULTS)):
            if tier == 'thorough' or n < 3000 or (n + k) % 4 == 0:
                yield n, k


def long_check(c, item):
    n, k = item
    fault, _ = LONG_FAULTS[k]
    short_kind, short = target(fault)
    if short_kind != 'error':
        c.fail(f'{fault!r} accepted')
    c.weight = 0
    for prefix, newline, tail in ((PREFIXES[(n + k) % len(PREFIXES)], '\n', ''), (PREFIXES[(n + 3 * k + 1) % len(PREFIXES)], '\r\n', '\n'),
                                  ('', '\n', '\n\n'), ('x = 1', '\n', '\n')):
        height = prefix.count('\n') + 1
        text = newline.join([prefix] * (n // height) + [fault]) + tail
        what = f'{n // height} times {prefix!r}, then {fault + tail!r}'
        for start in (1, 17):
            kind, got = target(text, start)
            c.weight += 1
            if kind != 'error':
                c.fail(f'accepted: {what}')
            want = short.line_number + n // height * height + start - 1
            if got.line_number != want or (got.error, got.line, got.column_number) != (short.error, short.line, short.column_number):
                c.fail(f'{got.error!r} {got.line!r} line {got.line_number} column {got.column_number}, expected {short.error!r} {short.line!r} line {want} '
                       f'column {short.column_number}: {what}')
    c.nontrivial(item)
    c.sample(what)


def sections(tier):
    return [
        Enum('long scripts', long_items, long_check, complete=False),
        Enum('short lines', short_items, short_check),
        Enum('one character edited', edit_items, edit_check),
        Enum('structures', struct_items, struct_check),
        Enum('carets', caret_items, caret_check),
        Enum('backslashes', backslash_items, backslash_check),
        Enum('deep nesting', deep_items, deep_check, complete=False),
        Enum('shipped scripts', shipped_items, shipped_check, complete=False),
        Gen('faults at token gaps', faults, 36000),
        Gen('line soup', line_soup, 72000),
        Gen('text soup', soup, 72000),
        Gen('characters', chars, 60000),
        Gen('garbage', garbage, 24000),
        Gen('programs', texts, 4800),
        Gen('mutated programs', mutated, 24000),
        Gen('closing lines removed', closers, 7200),
        Gen('lines deleted', deleted, 2400),
        Gen('line shifts', shifted, 36000),
        Gen('chunks', chunked, 9000),
    ]
