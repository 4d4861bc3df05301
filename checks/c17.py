"""C17: includes resolve relative to the including file and run in global scope."""

import contextlib
import functools
import io
import os
import re
import shutil
import tempfile

from bare_script import (BareScriptParserError, BareScriptRuntimeError, bare, execute_script, parse_script, url_file_relative,
                         validate_script)

from core import Enum, Gen
from harness import LIBRARY, debug_options
from ref.values import show

RULE = ('Random include trees and DAGs (depth <= 6, fan-out <= 4) over a virtual file system with path, absolute-path and URL bases, relative, ./ ../ '
        'absolute, URL and system references, adjacent includes, includes in loops, after jumps, in functions called from anywhere (directly, '
        'through partials and callbacks), return statements, missing, throwing and broken files, and the same trees as real files through the '
        'command line. A simulator with its own resolver predicts the interleaved sequence of fetches and log lines, the globals and the end of the '
        'run. '
        'Blank files, up to 2049 includes of one script, chains of 33 and long paths are included. '
        'Non-trivial: at least 3 fetches from 2 directories or an error below the first level; distinct by files and base.')
ASSUMPTIONS = ['Locations are compared as locations (dot segments removed), messages must name the location as it was requested.',
               'URL schemes are lowercase letters.']


# -- locations ------------------------------------------------------------------------------------

def is_url(t):
    i = 0
    while i < len(t) and 'a' <= t[i] <= 'z':
        i += 1
    return i > 0 and t[i:i + 1] == ':'


def dots(segments, rooted):
    out = []
    for s in segments:
        if s in ('', '.'):
            continue
        if s == '..' and out and out[-1] != '..':
            out.pop()
        elif s == '..' and rooted:
            continue
        else:
            out.append(s)
    return out


def norm(location):
    """The canonical name of a location."""
    m = re.match(r'([a-z]+:)(//[^/]*)?(/?)(.*)\Z', location, re.S)
    if m:
        return m.group(1) + (m.group(2) or '') + m.group(3) + '/'.join(dots(m.group(4).split('/'), bool(m.group(3))))
    rooted = location.startswith('/')
    return ('/' if rooted else '') + '/'.join(dots(location.split('/'), rooted))


def resolve(base, ref):
    """Where ref points to from the file (or prefix) base; base None: nowhere in particular."""
    if is_url(ref) or ref.startswith('/') or base is None:
        return norm(ref)
    return norm(base[:base.rfind('/') + 1] + ref)


# -- virtual files ----------------------------------------------------------------------------------

class File:
    """A generated file: rows of (kind, ...) statements, or a failure kind."""

    def __init__(self, location):
        self.location = location
        self.rows = []
        self.failure = None
        self.done = False


class Stop(Exception):
    """A run ended by an error: (kind, requested location)."""


class Return(Exception):
    pass


NAMES = ['a.bare', 'b.bare', 'c.bare', "it's.bare", "it\\'s.bare", 'a\\b.bare', 'a\\\\b.bare', 'x y.bare', 'é.bare', 'noext', 'a.b.bare', '%41.bare', 'q&r=1.bare', '#h.bare', '\U0001f600.bare']
DIRS = ['a', 'b', 'lib', 'a b', '..', '.', 'é', 'a.b', '...']
BASES = ['main.bare', 'app/main.bare', 'app/src/main.bare', '/root/app/main.bare', '/main.bare', './main.bare', '../main.bare', 'http://h.local/app/main.bare',
         'https://h.local/main.bare', 'http://h.local:8080/a/b/c/main.bare', 'file:///x/y/main.bare', 'foo:/x/main.bare', None]
PREFIXES = ['sys/', '/opt/sys/', ':bare-include:/', 'http://cdn.local/lib/', 'https://cdn.local/a/b/', 'sys/deep/', 'sys/prefix', '/opt/x', '', None]
THROWS = [ValueError('no'), OSError('gone'), KeyError('url'), RuntimeError('boom'), UnicodeDecodeError('utf-8', b'x', 0, 1, 'bad'), RecursionError('deep'),
          BareScriptRuntimeError('inner'), KeyboardInterrupt(), SystemExit(3), TypeError(), BareScriptParserError('inner', 'x', 1, 1)]
BROKEN = ['a = (1', 'if true:', 'endif', 'function f(', "x = 'a", "systemLog('never')\nwhile true:\n", "include 'x.bare", 'a b c', 'break', 'x = 1 +']


class World:
    """Generates the files while deciding what they refer to."""

    def __init__(self, c, depth, fan, probe=True, urls=True):
        self.c = c
        self.files = {}
        self.depth = depth
        self.fan = fan
        self.marks = 0
        self.fns = 0
        self.budget = 24
        self.probe = probe
        self.urls = urls
        self.functions = []      # names of functions defined somewhere
        self.failures = True
        self.changing = False    # a file has a new text whenever it is fetched

    def reference(self, base, prefix):
        """(text, system) of a reference."""
        c = self.c
        name = c.pick(NAMES)
        k = c.draw(10)
        if k <= 3:
            ref = name
        elif k <= 6:
            ref = '/'.join([c.pick(DIRS) for _ in range(c.int(1, 3))] + [name])
            if k == 6:
                ref = './' + ref
        elif k == 7:
            ref = '/' + '/'.join([c.pick(['root', 'app', 'a', 'b']) for _ in range(c.draw(3))] + [name])
        elif k == 8 and self.urls:
            ref = c.pick(['http', 'https', 'file', 'x']) + '://' + c.pick(['h.local', 'other.org', 'h.local:8080']) + '/' + \
                '/'.join([c.pick(['app', 'a', 'b']) for _ in range(c.draw(3))] + [name])
        else:
            ref = '../' * c.int(1, 2) + name
        system = c.draw(5) == 0
        if self.files and c.draw(4) == 0:
            # an existing file, by an absolute reference
            loc = c.pick(list(self.files))
            if (is_url(loc) or loc.startswith('/')) and self.files[loc].done:
                ref = loc
        if system:
            ref = ref.replace('>', '')
            if '/..' in (prefix or '') + ref and not (prefix or '').count('/') > 3:
                ref = ref.replace('../', '')
        return ref, system

    def location(self, base, prefix, ref, system):
        return resolve(prefix if system and prefix is not None else base, ref)

    def make(self, location, base, prefix, depth):
        """The file at a location (generated once; only finished files are reused: no cycles)."""
        c = self.c
        f = self.files.get(location)
        if f is not None:
            return f if f.done else None
        f = self.files[location] = File(location)
        self.budget -= 1
        if self.failures and c.draw(30) == 0:
            f.failure = c.pick(['missing', 'throw', 'broken'])
            f.detail = c.draw(len(BROKEN) if f.failure == 'broken' else len(THROWS))
            f.done = True
            return f
        if c.draw(14) == 13:
            # nothing to run
            f.rows, f.detail = [], c.draw(len(BLANK))
        else:
            f.rows = self.rows(location if base != 'top' else base, location, prefix, depth, False)
        f.done = True
        return f

    def mark(self):
        self.marks += 1
        return f'm{self.marks}'

    def include(self, base, prefix, depth):
        """('include', [(ref, system, location)...]) or None"""
        items = []
        for _ in range(1 if self.c.draw(3) else self.c.int(2, 3)):
            if depth <= 0 or self.budget <= 0:
                break
            ref, system = self.reference(base, prefix)
            loc = self.location(base, prefix, ref, system)
            if loc.endswith('/') or loc in ('', '.', '..'):
                continue
            f = self.make(loc, None, prefix, depth - 1)
            if f is None:
                continue
            items.append((ref, system, loc))
        return ('include', items) if items else None

    def rows(self, base, location, prefix, depth, in_function):
        c = self.c
        out = [('log', self.mark())]
        for _ in range(c.int(1, self.fan + 1)):
            k = c.draw(14)
            if k <= 5:
                inc = self.include(location, prefix, depth)
                if inc:
                    out.append(inc)
                    out.append(('log', self.mark()))
            elif k == 6:
                out.append(('set', c.pick(['g1', 'g2', 'loc']), self.mark()))
            elif k == 7:
                out.append(('show', c.pick(['g1', 'g2', 'loc'])))
            elif k == 8 and not in_function and depth > 0:
                self.fns += 1
                name = f'ff{self.fns}'
                body = self.rows(base, location, prefix, depth - 1, True)
                out.append(('function', name, body))
                self.functions.append(name)
                if c.draw(2):
                    out.append(('call', name, c.draw(4)))
            elif k == 9 and self.functions and not in_function:
                out.append(('call', c.pick(self.functions), c.draw(4)))
            elif k == 10 and self.probe and not in_function:
                ref, _ = self.reference(location, None)
                out.append(('fetch', ref))
            elif k == 11:
                inc = self.include(location, prefix, min(depth, 1))
                if inc:
                    self.marks += 1
                    # a while loop, a for loop or a for loop with an index
                    out.append(('loop', c.int(0, 3), inc, self.marks, c.draw(3)))
            elif k == 12:
                out.append(('trace', self.mark()))
            elif k == 13 and c.draw(3) == 0:
                inc = self.include(location, prefix, depth)
                out.append(('skip', inc) if inc else ('log', self.mark()))
        if c.draw(5) == 0:
            out.append(('return', c.draw(2)))
            out.append(('log', self.mark()))
        return out


def quote(s):
    return "'" + s.replace('\\', '\\\\').replace("'", "\\'") + "'"


CALLS = ['{0}()', 'call1 = systemPartial({0}, 1)\ncall1()', 'arrayIndexOf(arrayNew(1), {0})', 'alias1 = {0}\nalias1(1, 2)']


def text_of(rows, indent=''):
    """The script text of rows."""
    out = []
    for row in rows:
        kind = row[0]
        if kind == 'log':
            out.append(f"systemLog('{row[1]}')")
        elif kind == 'include':
            out += ['include ' + (f'<{ref}>' if system else quote(ref)) for ref, system, _ in row[1]]
        elif kind == 'set':
            out.append(f"{row[1]} = '{row[2]}'")
        elif kind == 'show':
            out.append(f"systemLog('{row[1]}=' + {row[1]})")
        elif kind == 'trace':
            out.append(f"trace = if(trace == null, '', trace) + '{row[1]}'")
        elif kind == 'function':
            out += [f'function {row[1]}(p):', "    loc = 'local'"] + text_of(row[2], '    ') + ["    systemLog('own ' + loc)", 'endfunction']
        elif kind == 'call':
            out += CALLS[row[2]].format(row[1]).split('\n')
        elif kind == 'fetch':
            out.append(f"systemLog(systemFetch({quote(row[1])}))")
        elif kind == 'loop':
            i = f'ix{row[3]}'
            if row[4]:
                over = 'arrayNew(' + ', '.join(str(k) for k in range(row[1])) + ')'
                out += [f'for el{row[3]}{", " + i if row[4] == 2 else ""} in {over}:'] + text_of([row[2]], '    ') + \
                    [f'    systemLog({i if row[4] == 2 else "el" + str(row[3])})', 'endfor']
            else:
                out += [f'{i} = 0', f'while {i} < {row[1]}:'] + text_of([row[2]], '    ') + [f'    {i} = {i} + 1', 'endwhile']
        elif kind == 'skip':
            out += ['if false:'] + text_of([row[1]], '    ') + ['endif']
        elif kind == 'return':
            out.append('return 7' if row[1] else 'return')
    return [indent + s for s in out]


BLANK = ['', '\n', ' ', '# comment', '#', '\r\n', '\n\n', '    # comment\n', '\t']


class Simulator:
    """Runs the rows: events, globals, how it ends."""

    def __init__(self, world, prefix):
        self.world = world
        self.prefix = prefix
        self.events = []
        self.globals = {}
        self.functions = {}
        self.fetches = {}
        self.fuel = 400

    def fetch(self, location):
        self.events.append(('fetch', location))
        f = self.world.files[location]
        if f.failure in ('missing', 'throw'):
            raise Stop('runtime', location)
        if f.failure == 'broken':
            raise Stop('parser', location)
        if self.world.changing:
            self.fetches[location] = self.fetches.get(location, 0) + 1
            self.events.append(('log', f'v{self.fetches[location] % 7}'))
        self.file(f, location)

    def file(self, f, base):
        try:
            self.run(f.rows, base, None)
        except Return:
            pass

    def run(self, rows, base, locals_):
        for row in rows:
            self.fuel -= 1
            if self.fuel < 0:
                raise Stop('fuel', '')
            kind = row[0]
            if kind == 'log':
                self.events.append(('log', row[1]))
            elif kind == 'include':
                for _ref, _system, loc in row[1]:
                    self.fetch(loc)
            elif kind == 'set':
                (self.globals if locals_ is None else locals_)[row[1]] = row[2]
            elif kind == 'show':
                v = locals_[row[1]] if locals_ is not None and row[1] in locals_ else self.globals.get(row[1])
                self.events.append(('log', f'{row[1]}={"null" if v is None else v}'))
            elif kind == 'trace':
                v = locals_['trace'] if locals_ is not None and 'trace' in locals_ else self.globals.get('trace')
                (self.globals if locals_ is None else locals_)['trace'] = (v or '') + row[1]
            elif kind == 'function':
                self.functions[row[1]] = (row[2], base)
            elif kind == 'call':
                if row[1] in self.functions:
                    body, where = self.functions[row[1]]
                    loc = {'loc': 'local'}
                    try:
                        self.run(body, where, loc)
                        self.events.append(('log', 'own ' + loc['loc']))
                    except Return:
                        pass
                elif row[2] == 1 or row[2] == 3 or row[2] == 0:
                    if row[2] != 1:
                        raise Stop('undefined', row[1] if row[2] == 0 else 'alias1')
                    raise Stop('undefined', 'call1')
            elif kind == 'fetch':
                loc = resolve(base, row[1])
                self.events.append(('fetch', loc))
                self.events.append(('log', answer(loc)))
            elif kind == 'loop':
                for k in range(row[1]):
                    self.run([row[2]], base, locals_)
                    if row[4]:
                        self.events.append(('log', str(k)))
            elif kind == 'return':
                raise Return(7 if row[1] else None)


def answer(loc):
    return f'text of {loc}'


def host_url(base, ref):
    """A host's own urlFn."""
    return resolve(base, ref)


def build(c, depth, fan, bases, prefixes, **kw):
    base, prefix = c.pick(bases), c.pick(prefixes)
    w = World(c, depth, fan, **kw)
    top = File('top')
    w.budget = 24
    top.rows = w.rows('top', base, prefix, depth, False)
    return base, prefix, w, top


def target_files(w):
    """Script text of every file; a failure kind instead for the failing ones."""
    out = {}
    for loc, f in w.files.items():
        if f.failure == 'broken':
            out[loc] = BROKEN[f.detail]
        elif f.failure:
            out[loc] = (f.failure, f.detail)
        else:
            out[loc] = '\n'.join(text_of(f.rows)) + '\n' if f.rows else BLANK[f.detail]
    return out


def describe(base, prefix, top, files):
    out = [f'# base {base!r} prefix {prefix!r}', '\n'.join(text_of(top.rows))]
    for loc, t in files.items():
        out.append(f'# --- {loc}\n{t}')
    return '\n'.join(out)


def predict(w, prefix, top, base):
    sim = Simulator(w, prefix)
    end = ('ok', None)
    try:
        sim.run(top.rows, base, None)
    except Return as exc:
        end = ('ok', exc.args[0])
    except Stop as exc:
        end = exc.args
    return sim, end


def interesting(c, sim, text):
    fetched = [loc for kind, loc in sim.events if kind == 'fetch']
    if len(fetched) >= 3 and len({loc[:loc.rfind('/') + 1] for loc in fetched}) >= 2:
        c.nontrivial(text)
    c.tag(f'{min(len(fetched), 12)} fetches')


def everything(w, top):
    """Every row of every file."""
    todo = list(top.rows)
    for f in w.files.values():
        todo += f.rows or []
    while todo:
        row = todo.pop()
        yield row
        todo += row[2] if row[0] == 'function' else [row[2]] if row[0] == 'loop' else []


def trees(c):
    base, prefix, w, top = build(c, c.int(1, 5), c.int(1, 4), BASES, PREFIXES)
    files = target_files(w)
    text = '\n'.join(text_of(top.rows)) + '\n'
    what = describe(base, prefix, top, files)
    c.sample(what)
    w.changing = not any(kind == 'fetch' for kind, *_ in everything(w, top)) and c.draw(2) == 1
    sim, end = predict(w, prefix, top, base)
    if end[0] == 'fuel':
        c.tag('too long')
        return
    interesting(c, sim, what)
    versions = {}
    c.tag(f'ends {end[0]}')
    events = []
    requests = []

    def fetch(request):
        loc = norm(request['url'])
        events.append(('fetch', loc))
        requests.append(request['url'])
        if not isinstance(request, dict) or set(request) - {'url', 'body', 'headers'} or request.get('body') is not None:
            c.fail(f'fetch request {request!r}\n{what}')
        t = files.get(loc)
        if t is None:
            return answer(loc)
        if isinstance(t, tuple):
            if t[0] == 'missing':
                return None
            raise THROWS[t[1]].with_traceback(None)
        if w.changing and t not in BROKEN:
            versions[loc] = versions.get(loc, 0) + 1
            return f"systemLog('v{versions[loc] % 7}')\n{t}"
        return t
    # a probed location that is also a file answers with the file's text
    debug = c.draw(4) == 0
    options = {'globals': {}, 'fetchFn': fetch, 'logFn': lambda t: t.startswith('BareScript:') or events.append(('log', t)), 'debug': debug}
    mode = c.draw(3)
    if base is not None:
        options['urlFn'] = functools.partial(url_file_relative, base) if mode else functools.partial(host_url, base)
    elif mode:
        options['urlFn'] = None
    if prefix is not None or mode == 1:
        options['systemPrefix'] = prefix
    want = [(k, files[v[8:]] if k == 'log' and v.startswith('text of ') and isinstance(files.get(v[8:]), str) else v) for k, v in sim.events]
    want = [(k, 'null' if k == 'log' and v.startswith('text of ') and isinstance(files.get(v[8:]), tuple) else v) for k, v in want]
    want = [(k, v) for k, v in want if not (k == 'log' and v.startswith('BareScript:'))]
    model = parse_script(text)
    kept = dict(options)
    end_of_run(c, model, options, events, requests, want, end, what)
    for k in ('urlFn', 'systemPrefix', 'fetchFn', 'logFn', 'debug'):
        if options.get(k) is not kept.get(k):
            c.fail(f'option {k} is {options.get(k)!r} after the run, {kept.get(k)!r} before\n{what}')
    got = {k: v for k, v in options['globals'].items() if isinstance(v, str)}
    if got != sim.globals:
        c.fail(f'globals {got}, expected {sim.globals}\n{what}')


def end_of_run(c, model, options, events, requests, want, end, what):
    try:
        value = execute_script(model, options)
        got = ('ok', value)
    except BareScriptRuntimeError as exc:
        got = ('runtime', str(exc))
    except BareScriptParserError as exc:
        got = ('parser', str(exc))
    except BaseException as exc:  # pylint: disable=broad-exception-caught
        c.fail(f'{type(exc).__name__} escaped: {exc}\n{what}')
    if events != want:
        i = 0
        while i < min(len(events), len(want)) and events[i] == want[i]:
            i += 1
        c.fail(f'event {i + 1} is {events[i:i + 3]}, expected {want[i:i + 3]} (run ended {got})\n{what}')
    kind, detail = end
    if kind == 'undefined':
        if got[0] != 'runtime' or detail not in got[1]:
            c.fail(f'run ended {got}, expected undefined function {detail}\n{what}')
    elif kind == 'ok':
        if got[0] != 'ok' or got[1] != detail or isinstance(got[1], bool):
            c.fail(f'run ended {got}, expected the value {show(detail)}\n{what}')
    elif got[0] != kind:
        c.fail(f'run ended {got}, expected a {kind} error for {detail}\n{what}')
    elif requests[-1] not in got[1] or norm(requests[-1]) != detail:
        c.fail(f'run ended {got}: the message does not name {requests[-1]!r} ({detail})\n{what}')


# -- systematic resolution --------------------------------------------------------------------------

REFS = ['x.bare', './x.bare', '../x.bare', '../../x.bare', 'd/x.bare', 'd/../x.bare', 'd/e/x.bare', './d/./x.bare', '/x.bare', '/d/x.bare', 'http://o.org/x.bare',
        'https://o.org/d/x.bare', 'file:///x.bare', 'zz:x.bare', 'd//x.bare', 'd.bare/x', 'x', '.x', '..x', 'http/x.bare', 'a:b/x.bare', 'É:x', '%2e%2e/x.bare', 'x.bare?y=1']


def pair_items(_tier):
    for base in BASES:
        for prefix in PREFIXES:
            for one in REFS:
                for system in (False, True):
                    yield base, prefix, one, system


def pair_check(c, item):
    """Every base and prefix, every pair of references two levels deep, and the includer's resolution afterwards."""
    base, prefix, one, system = item
    c.weight = 0
    for two in REFS:
        for system2 in (False, True):
            if clamp(base, prefix, one, system) or (system and prefix is not None and '..' in one):
                continue
            a = resolve(prefix if system and prefix is not None else base, one)
            b = resolve(prefix if system2 and prefix is not None else a, two)
            if (system2 and prefix is not None and '..' in two) or clamp(a, prefix, two, system2):
                continue
            after = resolve(base, 'after.bare')
            if len({a, b, after}) < 3:
                continue
            c.weight += 1
            inc = (lambda ref, sy: f'include <{ref}>' if sy else f"include '{ref}'")
            files = {a: inc(two, system2) + "\nsystemLog('a')\nreturn 5\nsystemLog('never')", b: "systemLog('b')\nbb = 1\nreturn", after: "systemLog('after')\n"}
            text = inc(one, system) + "\nsystemLog('top')\nx = systemFetch('data.txt')\ninclude 'after.bare'\nreturn bb + 1\n"
            data = resolve(base, 'data.txt')
            want = [('fetch', a), ('fetch', b), ('log', 'b'), ('log', 'a'), ('log', 'top'), ('fetch', data), ('fetch', after), ('log', 'after')]
            events = []

            def fetch(request):
                events.append(('fetch', norm(request['url'])))
                return files.get(norm(request['url']))
            options = {'fetchFn': fetch, **debug_options(f'{base}{text}', lambda t: events.append(('log', t)))}
            if base is not None:
                options['urlFn'] = functools.partial(url_file_relative, base)
            if prefix is not None:
                options['systemPrefix'] = prefix
            what = f'base {base!r} prefix {prefix!r}: {text!r} and {files[a]!r} at {a}'
            c.sample(what)
            c.nontrivial(f'{base} {prefix} {one} {system} {two} {system2}')
            try:
                value = execute_script(parse_script(text), options)
            except (BareScriptRuntimeError, BareScriptParserError) as exc:
                c.fail(f'{exc} after {events}, expected {want}\n{what}')
            if events != want or value != 2:
                c.fail(f'{events} value {value!r}, expected {want}\n{what}')


def clamp(base, prefix, ref, system):
    """A reference that leaves the root of a URL or an opaque prefix."""
    root = prefix if system and prefix is not None else base
    return root is not None and (is_url(root) or root.startswith(':')) and not is_url(ref) and \
        dots((dirs(root) + ref).split('/'), False)[:1] == ['..']


def dirs(root):
    m = re.match(r':?[a-z-]+:(//[^/]*)?/?(.*/)?', root, re.S)
    return (m.group(2) or '') if m else ''


# -- models -----------------------------------------------------------------------------------------

def models(c):
    """Include statements built as models (system flag present, absent, false; several per statement), in functions and jumps."""
    n = c.int(1, 4)
    incs, want = [], []
    files = {}
    for k in range(n):
        name = f'{c.pick(["", "d/", "../"])}f{k}.bare'
        system = c.pick([None, False, True])
        inc = {'url': name}
        if system is not None:
            inc['system'] = system
        incs.append(inc)
        loc = resolve('/sys/lib/' if system else '/app/main.bare', name)
        files[loc] = f"systemLog('f{k}')\ngv = {k}\nreturn 1"
        want += [('fetch', loc), ('log', f'f{k}')]
    body = [{'include': {'includes': incs}}, {'return': {'expr': {'variable': 'gv'}}}]
    kind = c.draw(3)
    if kind == 0:
        model = {'statements': body}
    elif kind == 1:
        model = {'statements': [{'function': {'name': 'ff', 'args': ['gx'], 'statements': [{'expr': {'name': 'gv', 'expr': {'string': 'local'}}}] + body}},
                                {'expr': {'name': 'rr', 'expr': {'function': {'name': 'ff'}}}},
                                {'return': {'expr': {'function': {'name': 'arrayNew', 'args': [{'variable': 'rr'}, {'variable': 'gv'}]}}}}]}
    else:
        model = {'statements': [{'jump': {'label': 'there'}}, {'include': {'includes': [{'url': 'never.bare'}]}}, {'label': 'there'}] + body}
    validate_script(model)
    value = float(n - 1) if kind != 1 else ['local', float(n - 1)]
    if want.count(want[-2]) > 1:
        return
    events = []

    def fetch(request):
        events.append(('fetch', norm(request['url'])))
        return files.get(norm(request['url']))
    c.sample(f'{model}')
    if n > 1:
        c.nontrivial(f'{model}')
    try:
        got = execute_script(model, {'fetchFn': fetch, **debug_options(repr(model), lambda t: events.append(('log', t))), 'systemPrefix': '/sys/lib/',
                                     'urlFn': functools.partial(url_file_relative, '/app/main.bare')})
    except (BareScriptRuntimeError, BareScriptParserError) as exc:
        c.fail(f'{exc} for {model} after {events}')
    if events != want or got != value:
        c.fail(f'{model}: {events} value {got!r}, expected {want} value {value!r}')


# -- errors -----------------------------------------------------------------------------------------

def error_items(_tier):
    for level in range(1, 5):
        for k in range(len(THROWS) + 1 + len(BROKEN)):
            for where in range(4):
                yield level, k, where


def error_check(c, item):
    """A failing file at some depth: the error names it, nothing runs afterwards."""
    level, k, where = item
    base = ['main.bare', '/root/main.bare', 'http://h.local/p/main.bare', 'd/main.bare'][(level + k) % 4]
    files, loc = {}, base
    refs = []
    for i in range(1, level + 1):
        ref = f'd{i}/f{i}.bare'
        refs.append(ref)
        loc = resolve(loc, ref)
        nxt = f"include 'd{i + 1}/f{i + 1}.bare'\nsystemLog('never')" if i < level else ''
        files[loc] = f"systemLog('{i}')\n{wrap(nxt, where)}"
    bad = loc
    files[bad] = THROWS[k] if k < len(THROWS) else None if k == len(THROWS) else BROKEN[k - len(THROWS) - 1]
    kind = 'runtime' if k <= len(THROWS) else 'parser'
    requests, log = [], []

    def fetch(request):
        requests.append(request['url'])
        v = files.get(norm(request['url']))
        if isinstance(v, BaseException):
            raise v.with_traceback(None)
        return v
    text = wrap("include 'd1/f1.bare'\nsystemLog('never')", where) + "\nsystemLog('never')\n"
    what = f'base {base}: {files}\n{text}'
    c.sample(what)
    c.nontrivial(f'{item}')
    try:
        execute_script(parse_script(text), {'fetchFn': fetch, 'logFn': log.append, 'urlFn': functools.partial(url_file_relative, base)})
        c.fail(f'no error for {bad}\n{what}')
    except BareScriptRuntimeError as exc:
        got = ('runtime', str(exc))
    except BareScriptParserError as exc:
        got = ('parser', str(exc))
        if not exc.error or exc.line_number is None or exc.line is None:
            c.fail(f'{exc!r} has no error, line or line number\n{what}')
    except BaseException as exc:  # pylint: disable=broad-exception-caught
        c.fail(f'{type(exc).__name__} escaped: {exc}\n{what}')
    if got[0] != kind or norm(requests[-1]) != bad or requests[-1] not in got[1]:
        c.fail(f'ended {got}, expected a {kind} error that names {bad}\n{what}')
    if log != [str(i) for i in range(1, level)] or len(requests) != level:
        c.fail(f'log {log}, requests {requests}\n{what}')
    if k == 0 and where == 0:
        # no fetch function at all
        for options in ({}, {'fetchFn': None}, {'urlFn': functools.partial(url_file_relative, base)}):
            try:
                execute_script(parse_script(text), options)
                c.fail(f'no error without a fetch function\n{what}')
            except BareScriptRuntimeError as exc:
                if 'd1/f1.bare' not in str(exc):
                    c.fail(f'{exc} does not name the location')


def wrap(text, where):
    if not text:
        return ''
    if where == 1:
        return 'if true:\n' + text + '\nendif'
    if where == 2:
        return 'for v in arrayNew(1, 2):\n' + text + '\nendfor'
    if where == 3:
        n = re.search(r'd(\d)', text).group(1)
        return f'function fn{n}():\n' + text + f'\nendfunction\narraySort(arrayNew(1, 2), fn{n})'
    return text


# -- the command line -------------------------------------------------------------------------------

def write(root, path, text):
    full = os.path.join(root, path)
    os.makedirs(os.path.dirname(full) or root, exist_ok=True)
    with open(full, 'w', encoding='utf-8') as fh:
        fh.write(text)


def command(argv, cwd):
    """bare.main; (status, output)"""
    out = io.StringIO()
    old = os.getcwd()
    os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try:
                bare.main(argv)
                status = None
            except SystemExit as exc:
                status = exc.code
    finally:
        os.chdir(old)
    return status, out.getvalue()


SHIPPED = {'diff.bare': 'diffLines', 'args.bare': 'argsParse', 'unittest.bare': 'unittestRunTest', 'forms.bare': 'formsTextElements', 'pager.bare': 'pagerMain'}


def cli(c):
    """The same trees as real files, through the command line."""
    root = tempfile.mkdtemp(prefix='c17-')
    try:
        base = c.pick(['main.bare', 'app/main.bare', './app/main.bare', 'app/src/main.bare', 'app/../main.bare', root + '/app/main.bare'])
        w = World(c, c.int(1, 4), c.int(1, 3), probe=False, urls=False)
        top = File('top')
        w.reference = functools.partial(cli_reference, w, root)
        top.rows = w.rows('top', base, None, w.depth, False)
        code = c.draw(4) == 0
        if code:
            # the same text as inline code: relative to the working directory
            w = World(c, c.int(1, 3), 2, probe=False, urls=False)
            w.reference = functools.partial(cli_reference, w, root)
            top.rows = w.rows('top', None, None, w.depth, False)
            base = None
        for loc, f in w.files.items():
            if f.failure == 'throw':
                f.failure = 'missing'
        if any(os.path.relpath(loc, root if loc.startswith('/') else '.').startswith('..') for loc in list(w.files) + [base or 'main.bare']):
            c.tag('outside')
            return
        text = '\n'.join(text_of(top.rows)) + '\n'
        shipped = c.pick(list(SHIPPED))
        text += f"include <{shipped}>\nsystemLog(systemType({SHIPPED[shipped]}))\n"
        files = target_files(w)
        clash = any(os.path.commonpath([os.path.join(root, a), os.path.join(root, b)]) in (os.path.join(root, a), os.path.join(root, b)) and a != b
                    for a in files for b in files)
        if clash or any(norm(os.path.join(root, p)) == norm(os.path.join(root, base or 'main.bare')) for p in files):
            return
        for loc, t in files.items():
            if isinstance(t, str):
                write(root, loc, f'include <{c.pick(list(SHIPPED))}>\n{t}' if c.draw(2) else t)
            else:
                os.makedirs(os.path.dirname(os.path.join(root, loc)) or root, exist_ok=True)
        what = describe(base, 'command line', top, files)
        c.sample(what)
        sim, end = predict(w, None, top, base)
        if end[0] == 'fuel':
            return
        interesting(c, sim, what)
        if base is not None:
            os.makedirs(os.path.dirname(os.path.join(root, base)), exist_ok=True)
            write(root, base, text)
        status, out = command(['-c', text] if base is None else [base], root)
        want = [v for k, v in sim.events if k == 'log']
        lines = out.splitlines()
        if end[0] == 'ok' and end[1] is None and ('return', 0) not in top.rows:
            want.append('function')
            if status != 0:
                c.fail(f'status {status}\n{out}\n{what}')
        elif end == ('ok', 7) and status != 7:
            c.fail(f'status {status}, expected 7\n{out}\n{what}')
        if lines[:len(want)] != want:
            c.fail(f'output {lines}, expected {want}\n{what}')
        rest = '\n'.join(lines[len(want):])
        if end[0] == 'ok':
            if rest:
                c.fail(f'output {lines}, expected {want}\n{what}')
        elif status != 1 or (end[0] != 'undefined' and not any(norm(t) == end[1] for t in re.findall(r'"([^"]*)"', rest))):
            c.fail(f'status {status}, output {rest!r}, expected an error that names {end[1]}\n{what}')
    finally:
        shutil.rmtree(root, ignore_errors=True)


def cli_reference(w, root, base, _prefix):
    c = w.c
    name = c.pick(NAMES)
    k = c.draw(8)
    if k <= 2:
        return name, False
    if k <= 5:
        return '/'.join([c.pick(['a', 'b', 'lib', '.', 'a b']) for _ in range(c.int(1, 2))] + [name]), False
    if k == 6:
        return f'{root}/abs/{name}', False
    return '../' + name, False


# -- many includes ------------------------------------------------------------------------------------

def many_items(tier):
    for n in (8, 9, 16, 17, 31, 32, 33, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 500, 513, 999, 1000, 1001, 1025, 2049) + ((4097, 10001) if tier == 'thorough' else ()):
        for shape in ('same', 'different', 'lines', 'loop', 'long text', 'long path', 'dots', 'fan', 'calls', 'chain', 'up and down', 'last fails'):
            for k in range(4):
                if shape not in ('chain', 'up and down') or n <= 33:
                    yield n, shape, k


def many_check(c, item):
    """Hundreds of fetches, long texts and long paths."""
    n, shape, k = item
    base = ['main.bare', '/root/app/main.bare', 'http://h.local/p/main.bare', 'd/e/main.bare'][k]
    files, want, value = {}, [], None

    def add(ref, body, frm=base):
        loc = resolve(frm, ref)
        files[loc] = body
        return loc
    if shape in ('same', 'lines', 'loop', 'calls', 'last fails'):
        loc = add('d/a.bare', "x = if(x == null, 0, x) + 1\nsystemLog('a' + x)\nreturn 'r'\nx = 99")
        if shape == 'loop':
            text = f"for v in arrayNewSize({n}, 0):\n    include 'd/a.bare'\nendfor\nreturn x"
        elif shape == 'calls':
            text = f"function ff(v):\n    include 'd/a.bare'\nendfunction\narrayIndexOf(arrayNewSize({n}, 0), ff)\nreturn x"
        else:
            text = "\n".join(["include 'd/a.bare'" + ("\nx = x + 0" if shape == 'lines' else '')] * n + (["include 'd/b.bare'"] if shape == 'last fails' else []) + ['return x'])
        for i in range(n):
            want += [('fetch', loc), ('log', f'a{i + 1}')]
        value = n
        if shape == 'last fails':
            value = resolve(base, 'd/b.bare')
            want.append(('fetch', value))
    elif shape in ('different', 'fan'):
        rows = []
        for i in range(n):
            ref = f'd{i % 7}/f{i}.bare' if shape == 'different' else f'f{i}.bare'
            loc = add(ref, f"systemLog('f{i}')\nx = {i}")
            rows.append(f"include '{ref}'")
            want += [('fetch', loc), ('log', f'f{i}')]
        text = '\n'.join(rows + ['return x'])
        value = n - 1
        if shape == 'fan':
            # the same from a file in another directory
            mid = add('sub/mid.bare', '\n'.join(rows + ['return 1']))
            files = {mid: files[mid], **{resolve(mid, f'f{i}.bare'): files[resolve(base, f'f{i}.bare')] for i in range(n)}}
            text = "include 'sub/mid.bare'\nreturn x"
            want = [('fetch', mid)] + [e for i in range(n) for e in (('fetch', resolve(mid, f'f{i}.bare')), ('log', f'f{i}'))]
    elif shape == 'long text':
        loc = add('a.bare', '\n'.join([f'x = {i}' if i % 3 else '# comment' for i in range(n)] + ["include 'z/b.bare'", "systemLog('end')"]))
        last = add('z/b.bare', "systemLog('b')", loc)
        want = [('fetch', loc), ('fetch', last), ('log', 'b'), ('log', 'end')]
        text = "include 'a.bare'\nreturn 5"
        value = 5
    elif shape in ('long path', 'dots'):
        ref = 'd' * n + '/f.bare' if k % 2 else 'd/' * n + 'f.bare'
        if shape == 'dots':
            ref = './' * n + 'f.bare' if k % 2 else 'd/../' * n + 'f.bare'
        loc = add(ref, "include 'g.bare'\nsystemLog('f')")
        after = add('g.bare', "systemLog('g')", loc)
        third = add('h.bare', "systemLog('h')")
        want = [('fetch', loc), ('fetch', after), ('log', 'g'), ('log', 'f'), ('fetch', third), ('log', 'h')]
        text = f"include '{ref}'\ninclude 'h.bare'\nreturn 5"
        value = 5
    else:
        loc = base
        tail = []
        for i in range(n):
            ref = f'd{i}/f{i}.bare' if shape == 'chain' or i % 2 == 0 else f'../f{i}.bare'
            nxt = f'd{i + 1}/f{i + 1}.bare' if shape == 'chain' or i % 2 else f'../f{i + 1}.bare'
            loc = add(ref, f"systemLog('f{i}')\n" + (f"include '{nxt}'\n" if i < n - 1 else '') + f"include 'leaf.bare'\nsystemLog('g{i}')\nreturn {i}", loc)
            leaf = add('leaf.bare', f"systemLog('l{i}')", loc)
            want += [('fetch', loc), ('log', f'f{i}')]
            tail = [('fetch', leaf), ('log', f'l{i}'), ('log', f'g{i}')] + tail
            if shape != 'chain' and i % 2 == 1:
                # one directory up: the leaf of that level again
                files[leaf] = "systemLog('leaf')"
        if shape != 'chain':
            tail = [('log', 'leaf') if e[0] == 'log' and e[1].startswith('l') else e for e in tail]
            files = {f: "systemLog('leaf')" if f.endswith('leaf.bare') else t for f, t in files.items()}
        want += tail
        text = "include 'd0/f0.bare'\nreturn 5"
        value = 5
    events = []

    def fetch(request):
        loc_ = norm(request['url'])
        events.append(('fetch', loc_))
        return files.get(loc_)
    what = f'{shape}, {n}, base {base}'
    c.sample(what)
    c.nontrivial(item)
    options = {'fetchFn': fetch, **debug_options(what, lambda t: events.append(('log', t)))}
    options['urlFn'] = functools.partial(url_file_relative, base)
    try:
        got = execute_script(parse_script(text), options)
    except (BareScriptRuntimeError, BareScriptParserError) as exc:
        got = [m for m in re.findall(r'"([^"]*)"', str(exc)) if norm(m) == value] if isinstance(exc, BareScriptRuntimeError) else None
        if not got:
            c.fail(f'{what}: {exc}, after {events[-3:]} ({len(events)} events)')
        got = value
    want = [(kind, norm(v) if kind == 'fetch' else v) for kind, v in want]
    if got != value or events != want:
        i = next((i for i, (a, b) in enumerate(zip(events, want)) if a != b), min(len(events), len(want)))
        c.fail(f'{what}: gave {show(got)} and {len(events)} events, expected {show(value)} and {len(want)}; event {i} is {events[i:i + 1]}, expected {want[i:i + 1]}')


def sections(tier):
    return [
        Enum('bases', pair_items, pair_check),
        Gen('trees', trees, 20000),
        Gen('models', models, 4000),
        Enum('many includes', many_items, many_check, complete=False),
        Enum('errors', error_items, error_check),
        Gen('command line', cli, 1500),
    ]
