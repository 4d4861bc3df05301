"""The choice-sequence property engine: generation, replay, shrinking, sharding, evidence."""

import contextlib
import gc
import hashlib
import importlib
import json
import os
import random
import re
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
TARGET_SRC = os.path.join(REPO, 'src')
SHARDS = 8
MAX_CHOICES = 20000
HANG_CPU_S = 8.0
HANG_CONFIRM_CPU_S = 40.0


def setup_target():
    """Import the code under test from the working tree, never from stale byte code."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(VERIF, '.no-pycache')
    sys.path.insert(0, TARGET_SRC)
    try:
        import schema_markdown  # noqa: F401
    except ImportError:
        sys.path.append('/opt/venv/lib/python3.12/site-packages')
    import bare_script
    where = os.path.realpath(bare_script.__file__)
    if not where.startswith(os.path.realpath(TARGET_SRC) + os.sep):
        raise RuntimeError(f'bare_script imported from {where}, not from {TARGET_SRC}')


class Violation(Exception):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The harness itself is wrong (never a verdict on the target)."""


class Reject(Exception):
    """The generated case is outside the property's domain."""


class Hang(BaseException):
    """The case exceeded its CPU limit (BaseException: the target must not swallow it)."""


class _Inspect:
    """Context: an exception while walking a target result means that the result is malformed."""

    def __init__(self, what):
        self.what = what

    def __enter__(self):
        return self

    def __exit__(self, typ, exc, tb):
        if exc is not None and isinstance(exc, Exception) and not isinstance(exc, (Violation, Reject, HarnessError)):
            raise Violation(f'{self.what}: malformed result ({type(exc).__name__}: {exc})') from exc
        return False


class Case:
    """One case: a choice source plus what the case reports about itself."""

    __slots__ = ('rng', 'forced', 'pos', 'choices', 'stats', 'tags', 'keys', 'text', 'features', 'params', 'finds', 'weight')

    def __init__(self, rng=None, forced=None, params=None):
        self.rng = rng
        self.forced = forced
        self.pos = 0
        self.choices = []
        self.tags = []
        self.keys = []
        self.text = None
        self.features = []
        self.finds = []
        self.weight = 1
        self.params = params or {}

    # -- choices ---------------------------------------------------------------------
    def draw(self, n):
        """An integer in [0, n); 0 is the simplest."""
        if self.forced is not None:
            if self.pos < len(self.forced):
                v = self.forced[self.pos]
                if v >= n:
                    v = n - 1
            elif self.rng is not None:
                v = self.rng.randrange(n)
            else:
                v = 0
        else:
            v = self.rng.randrange(n)
        self.pos += 1
        self.choices.append(v)
        if self.pos > MAX_CHOICES:
            raise Reject('too many choices')
        return v

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def bool(self, num=1, den=2):
        """True with probability num/den; False is the simplest."""
        return self.draw(den) >= den - num

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)...]; the first is the simplest."""
        total = 0
        for w, _ in pairs:
            total += w
        v = self.draw(total)
        for w, value in pairs:
            if v < w:
                return value
            v -= w
        return pairs[-1][1]

    def small(self, hi, num=1, den=2):
        """A geometric-ish integer in [0, hi] (each step drawn, so shrinking deletes steps)."""
        n = 0
        while n < hi and self.draw(den) >= den - num:
            n += 1
        return n

    def shuffle(self, items):
        items = list(items)
        for i in range(len(items) - 1, 0, -1):
            j = i - self.draw(i + 1)
            items[i], items[j] = items[j], items[i]
        return items

    # -- reporting -------------------------------------------------------------------
    def tag(self, name):
        self.tags.append(name)

    def nontrivial(self, key):
        """Declare this case non-trivial; `key` identifies it for the distinct count."""
        if isinstance(key, str):
            key = key.encode('utf-8', 'surrogatepass')
        elif not isinstance(key, bytes):
            key = repr(key).encode('utf-8', 'surrogatepass')
        self.keys.append(int.from_bytes(hashlib.blake2b(key, digest_size=8).digest(), 'big'))

    def sample(self, text):
        self.text = text

    def feature(self, key):
        self.features.append(key)

    def known(self, finding):
        self.finds.append(finding)

    @staticmethod
    def inspect(what):
        return _Inspect(what)

    @staticmethod
    def fail(msg):
        raise Violation(msg)


class Gen:
    """A generated section: fn(case)."""
    kind = 'gen'

    def __init__(self, name, fn, quick, thorough=None, guided=True, params=None):
        self.name, self.fn, self.quick = name, fn, quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.guided = guided
        self.params = params

    def run(self, case):
        self.fn(case)


class Enum:
    """An enumerated section: fn(case, item) for each item of items(tier)."""
    kind = 'enum'

    def __init__(self, name, items, fn, complete=True, describe=None):
        self.name, self.items, self.fn, self.complete = name, items, fn, complete
        self.describe = describe


# -- coverage (sys.monitoring) ---------------------------------------------------------

class Coverage:
    """Global line and branch novelty over the files of the target package."""

    def __init__(self):
        self.lines = set()
        self.branches = set()
        self.new = 0
        self.tool = None

    def start(self):
        mon = sys.monitoring
        self.tool = 3
        mon.use_tool_id(self.tool, 'verif')
        prefix = os.path.join(os.path.realpath(TARGET_SRC), '')
        disable = mon.DISABLE
        ids = {}
        half = {}

        def code_id(code):
            cid = ids.get(code)
            if cid is None:
                cid = ids[code] = len(ids) if os.path.realpath(code.co_filename).startswith(prefix) else -1
            return cid

        def on_line(code, line):
            cid = code_id(code)
            if cid >= 0:
                self.lines.add((cid, line))
                self.new += 1
            return disable

        def on_branch(code, offset, dest):
            cid = code_id(code)
            if cid < 0:
                return disable
            key = (cid, offset, dest)
            if key not in self.branches:
                self.branches.add(key)
                self.new += 1
            seen = half.setdefault((cid, offset), set())
            seen.add(dest)
            return disable if len(seen) > 1 else None

        mon.register_callback(self.tool, mon.events.LINE, on_line)
        mon.register_callback(self.tool, mon.events.BRANCH, on_branch)
        mon.set_events(self.tool, mon.events.LINE | mon.events.BRANCH)

    def stop(self):
        if self.tool is not None:
            sys.monitoring.set_events(self.tool, 0)
            sys.monitoring.free_tool_id(self.tool)
            self.tool = None


# -- running one case -------------------------------------------------------------------

class Outcome:
    __slots__ = ('status', 'message', 'case')

    def __init__(self, status, message, case):
        self.status, self.message, self.case = status, message, case


def _through_target(exc):
    prefix = os.path.join(os.path.realpath(TARGET_SRC), '')
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(prefix):
                return True
            tb = tb.tb_next
        exc = exc.__cause__
    return False


def _on_hang(_signum, _frame):
    raise Hang()


def run_case(fn, case, cpu_limit=HANG_CPU_S):
    """Run one case to an Outcome: ok, reject, fail, hang or harness."""
    from ref import values
    values.WORK[0] = 0
    signal.signal(signal.SIGVTALRM, _on_hang)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu_limit, 0.05)
    try:
        try:
            fn(case)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return Outcome('ok', None, case)
    except Reject as exc:
        return Outcome('reject', str(exc), case)
    except Violation as exc:
        return Outcome('fail', str(exc), case)
    except Hang:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return Outcome('hang', f'no result after {cpu_limit} s of CPU time', case)
    except HarnessError as exc:
        return Outcome('harness', ''.join(traceback.format_exception(exc)), case)
    except MemoryError as exc:
        if _through_target(exc):
            return Outcome('fail', 'MemoryError in the target', case)
        # The harness itself (a reference asked for an enormous string, say) ran out: no verdict.
        return Outcome('reject', 'MemoryError outside the target', case)
    except Exception as exc:  # pylint: disable=broad-exception-caught
        if _through_target(exc):
            tail = ''.join(traceback.format_exception(exc)[-4:])
            return Outcome('fail', f'unexpected {type(exc).__name__}: {exc}\n{tail}', case)
        return Outcome('harness', ''.join(traceback.format_exception(exc)), case)


def settle(section_fn, make_case):
    """Run a case; a hang is retried with a larger limit before it counts."""
    out = run_case(section_fn, make_case())
    if out.status == 'hang':
        again = run_case(section_fn, make_case(), HANG_CONFIRM_CPU_S)
        if again.status == 'hang':
            again.status = 'fail'
            again.message = 'hang: ' + again.message
        out = again
    return out


# -- shrinking --------------------------------------------------------------------------

def shrink(fn, choices, params, budget_s=25.0):
    """Greedy choice-sequence shrinking; returns (choices, outcome)."""
    deadline = time.monotonic() + budget_s
    best = list(choices)
    best_out = None

    def attempt(cand):
        nonlocal best, best_out
        if time.monotonic() > deadline:
            return False
        out = run_case(fn, Case(forced=cand, params=params), 4.0)
        if out.status == 'fail':
            used = out.case.choices
            if (len(used), used) <= (len(best), best):
                best, best_out = list(used), out
                return True
        return False

    attempt(best)
    improved = True
    while improved and time.monotonic() < deadline:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.monotonic() < deadline:
            i = len(best) - size
            while i >= 0 and time.monotonic() < deadline:
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                    i = min(i, len(best) - size)
                else:
                    i -= max(1, size // 2)
            size //= 2
        size = 8
        while size >= 1:
            i = 0
            while i < len(best) and time.monotonic() < deadline:
                seg = best[i:i + size]
                if any(seg) and attempt(best[:i] + [0] * len(seg) + best[i + size:]):
                    improved = True
                i += size
            size //= 2
        i = 0
        while i < len(best) and time.monotonic() < deadline:
            lo, hi = 0, best[i]
            while lo < hi and i < len(best) and time.monotonic() < deadline:
                mid = (lo + hi) // 2
                if attempt(best[:i] + [mid] + best[i + 1:]):
                    improved = True
                    hi = min(mid, best[i]) if i < len(best) else lo
                else:
                    lo = mid + 1
            i += 1
    return best, best_out


# -- one shard --------------------------------------------------------------------------

class Stats:
    def __init__(self):
        self.evals = {}
        self.rejects = 0
        self.keys = set()
        self.tags = {}
        self.samples = []
        self.truncated = []
        self.known = {}
        self.guided = {}
        self.features = set()

    def add(self, section, case):
        self.evals[section] = self.evals.get(section, 0) + case.weight
        self.keys.update(case.keys)
        for t in case.tags:
            self.tags[t] = self.tags.get(t, 0) + 1
        for k in case.finds:
            self.known[k] = self.known.get(k, 0) + 1
        if case.text is not None and case.keys:
            n = sum(1 for s in self.samples if s[0] == section)
            if n < 2:
                self.samples.append((section, case.text[:700]))


def _mutate(rng, choices, corpus):
    out = list(choices)
    for _ in range(1 + rng.randrange(3)):
        op = rng.randrange(6)
        if not out:
            break
        i = rng.randrange(len(out))
        if op == 0:
            out[i] = rng.randrange(1 << rng.choice((1, 2, 3, 5, 8)))
        elif op == 1:
            del out[i:i + 1 + rng.randrange(6)]
        elif op == 2:
            j = min(len(out), i + 1 + rng.randrange(8))
            out[i:i] = out[i:j]
        elif op == 3 and corpus:
            other = rng.choice(corpus)
            if other:
                k = rng.randrange(len(other))
                out[i:] = other[k:]
        elif op == 4:
            out = out[:i]
        else:
            out[i] = 0
    return out


def run_shard(prop, sections, tier, seed, shard, shards, opts):
    stats = Stats()
    failures = []
    t0 = time.monotonic()
    soft = opts['budget']
    mult = opts.get('mult', 1.0)
    timing = {}

    def out_of_time():
        return time.monotonic() - t0 > soft

    def bad(section, out, replay, index=None):
        if out.status == 'harness':
            raise HarnessError(f'{prop}/{section.name}: {out.message}\nchoices={out.case.choices[:200]} index={index}')
        failures.append({'section': section.name, 'message': out.message, 'choices': replay, 'index': index,
                         'text': out.case.text})

    for section in sections:
        ts = time.monotonic()
        if section.kind == 'enum':
            for index, item in enumerate(section.items(tier)):
                if index % shards != shard:
                    continue
                if index & 0xff == shard and out_of_time():
                    stats.truncated.append(section.name)
                    break
                # The hang timer is armed per block of work, cheap cases stay cheap
                out = settle(lambda c, s=section, it=item: s.fn(c, it), Case)
                if out.status == 'ok':
                    stats.add(section.name, out.case)
                elif out.status == 'reject':
                    stats.rejects += 1
                else:
                    if out.case.text is None:
                        out.case.text = repr(item)[:2000]
                    bad(section, out, None, index)
                    if not opts['keep_going'] or len(failures) > 200:
                        break
        else:
            rng = random.Random(f'{seed}:{prop}:{section.name}:{shard}')
            total = section.quick if tier == 'quick' else section.thorough
            total = max(1, int(total * mult))
            mine = total // shards + (1 if shard < total % shards else 0)
            guided_n = mine // 2 if tier == 'thorough' and section.guided else 0
            corpus = []
            cov = None
            if guided_n:
                cov = Coverage()
                cov.start()
            for i in range(mine):
                if i & 0x1f == 0 and out_of_time():
                    stats.truncated.append(section.name)
                    break
                caseseed = rng.getrandbits(64)
                forced = None
                if guided_n and i >= mine - guided_n and corpus:
                    forced = _mutate(random.Random(caseseed), rng.choice(corpus), corpus)

                def make(cs=caseseed, fz=forced):
                    return Case(rng=random.Random(cs), forced=fz, params=section.params)

                before = cov.new if cov else 0
                out = settle(section.fn, make)
                if out.status == 'ok':
                    stats.add(section.name, out.case)
                    if cov:
                        fresh = cov.new > before
                        for f in out.case.features:
                            if f not in stats.features:
                                stats.features.add(f)
                                fresh = True
                        if fresh and len(out.case.choices) < 4000:
                            corpus.append(out.case.choices)
                elif out.status == 'reject':
                    stats.rejects += 1
                else:
                    if out.status == 'fail' and not opts['keep_going']:
                        best, best_out = shrink(section.fn, out.case.choices, section.params)
                        if best_out is not None:
                            out = best_out
                        bad(section, out, best)
                        break
                    bad(section, out, out.case.choices)
                    if len(failures) > 200:
                        break
            if cov:
                cov.stop()
                stats.guided[section.name] = {'corpus': len(corpus), 'lines': len(cov.lines), 'branches': len(cov.branches)}
        timing[section.name] = round(time.monotonic() - ts, 2)
        if failures and not opts['keep_going']:
            break
    return {
        'evals': stats.evals, 'rejects': stats.rejects, 'keys': stats.keys, 'tags': stats.tags,
        'samples': stats.samples, 'truncated': stats.truncated, 'known': stats.known, 'guided': stats.guided,
        'failures': failures, 'timing': timing, 'wall': time.monotonic() - t0
    }


def _fork_shards(prop, sections, tier, seed, opts):
    import pickle
    shards = SHARDS
    children = []
    sys.stdout.flush()
    sys.stderr.flush()
    gc.collect()
    gc.freeze()
    for shard in range(shards):
        path = os.path.join(opts['tmp'], f'shard{shard}')
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
                sys.setrecursionlimit(1000)
                result = run_shard(prop, sections, tier, seed, shard, shards, opts)
                with open(path + '.tmp', 'wb') as fh:
                    pickle.dump(result, fh)
                os.rename(path + '.tmp', path)
                code = 0
            except BaseException as exc:  # pylint: disable=broad-exception-caught
                with contextlib.suppress(Exception):
                    with open(path + '.err', 'w', encoding='utf-8') as fh:
                        fh.write(''.join(traceback.format_exception(exc)))
            finally:
                os._exit(code)
        children.append((pid, path))
    results, errors = [], []
    pending = dict(children)
    while pending:
        pid, _status = os.wait()
        path = pending.pop(pid, None)
        if path is None:
            continue
        if os.path.exists(path):
            with open(path, 'rb') as fh:
                result = pickle.load(fh)
            results.append(result)
            if result['failures'] and not opts['keep_going']:
                # One violation decides the run; the other shards need not finish
                for other in list(pending):
                    with contextlib.suppress(ProcessLookupError):
                        os.kill(other, signal.SIGKILL)
                for other in list(pending):
                    with contextlib.suppress(ChildProcessError):
                        os.waitpid(other, 0)
                pending.clear()
        else:
            err = f'worker died (status {_status})'
            if os.path.exists(path + '.err'):
                with open(path + '.err', encoding='utf-8') as fh:
                    err = fh.read()
            errors.append(err)
    return results, errors


def read_known(prop):
    """The committed known-findings file: {key: description} for open findings of this property."""
    path = os.path.join(VERIF, 'known_findings.txt')
    found = {}
    if os.path.exists(path):
        with open(path, encoding='utf-8') as fh:
            for line in fh:
                match = re.match(r'^open: property=(\S+) key=(\S+) (.*)$', line.strip())
                if match and match.group(1) == prop:
                    found[match.group(2)] = match.group(3)
    return found


def main(argv):
    import argparse
    parser = argparse.ArgumentParser()
    parser.add_argument('prop')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    parser.add_argument('--section')
    parser.add_argument('--keep-going', action='store_true')
    parser.add_argument('--replay')
    parser.add_argument('--mult', type=float, default=1.0)
    parser.add_argument('--budget', type=float)
    parser.add_argument('--no-evidence', action='store_true')
    args = parser.parse_args(argv)
    t0 = time.monotonic()
    os.environ['TZ'] = 'UTC'
    time.tzset()
    sys.path.insert(0, VERIF)
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    prop = args.prop.upper()
    try:
        try:
            setup_target()
            module = importlib.import_module(f'checks.{prop.lower()}')
        except SyntaxError as exc:
            if str(exc.filename).startswith(TARGET_SRC):
                # The tree does not even import: nothing was decided
                print(f'ERROR: the tree does not import: {exc}')
            raise
        return _main(args, prop, tier, module, t0)
    except SystemExit:
        raise
    except BaseException:  # pylint: disable=broad-exception-caught
        traceback.print_exc()
        return 2


def _main(args, prop, tier, module, t0):
    import shutil
    import tempfile
    known = read_known(prop)
    module.KNOWN = known
    sections = module.sections(tier)
    names = [s.name for s in sections]
    if len(set(names)) != len(names):
        raise HarnessError('duplicate section names')
    if args.section:
        sections = [s for s in sections if re.search(args.section, s.name)]

    if args.replay:
        with open(args.replay, encoding='utf-8') as fh:
            rep = json.load(fh)
        section = next(s for s in module.sections(rep.get('tier', tier)) if s.name == rep['section'])
        if section.kind == 'enum':
            item = next(it for i, it in enumerate(section.items(rep.get('tier', tier))) if i == rep['index'])
            out = settle(lambda c: section.fn(c, item), Case)
        else:
            out = settle(section.fn, lambda: Case(forced=rep['choices'], params=section.params))
        print(out.status, out.message or '')
        print(out.case.text or '')
        if out.status == 'fail':
            print(f'VIOLATION property={prop} replay={args.replay}')
            return 1
        return 0 if out.status in ('ok', 'reject') else 2

    budget = args.budget or (300.0 if tier == 'quick' else 760.0)
    tmp = tempfile.mkdtemp(prefix='verif-')
    opts = {'keep_going': args.keep_going, 'budget': budget, 'mult': args.mult, 'tmp': tmp}
    try:
        results, errors = _fork_shards(prop, sections, tier, args.seed, opts)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    evals, tags, timing, guided, known_hits = {}, {}, {}, {}, {}
    keys = set()
    rejects = 0
    samples, failures, truncated = [], [], set()
    for r in results:
        for k, v in r['evals'].items():
            evals[k] = evals.get(k, 0) + v
        for k, v in r['tags'].items():
            tags[k] = tags.get(k, 0) + v
        for k, v in r['known'].items():
            known_hits[k] = known_hits.get(k, 0) + v
        for k, v in r['timing'].items():
            timing[k] = max(timing.get(k, 0), v)
        for k, v in r['guided'].items():
            cur = guided.setdefault(k, {'corpus': 0, 'lines': 0, 'branches': 0})
            cur['corpus'] += v['corpus']
            cur['lines'] = max(cur['lines'], v['lines'])
            cur['branches'] = max(cur['branches'], v['branches'])
        keys |= r['keys']
        rejects += r['rejects']
        truncated.update(r['truncated'])
        samples.extend(r['samples'])
        failures.extend(r['failures'])

    per_section = {}
    for section, text in samples:
        per_section.setdefault(section, [])
        if len(per_section[section]) < 2:
            per_section[section].append(text)
    sample_list = [{'section': k, 'case': t} for k, v in per_section.items() for t in v][:24]
    wall = round(time.monotonic() - t0, 2)
    enum_done = {s.name: (s.name not in truncated and s.complete) for s in sections if s.kind == 'enum'}
    evidence = {
        'property': prop,
        'tier': tier,
        'seed': args.seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': sum(evals.values()),
            'distinct_nontrivial': len(keys),
            'rule': module.RULE,
            'samples': sample_list or [{'section': 'none', 'case': 'no case was completed'}],
            'per_section': evals,
            'classes': dict(sorted(tags.items())),
            'rejected': rejects,
            'sections_enumerated_completely': sorted(k for k, v in enum_done.items() if v),
            'sections_cut_by_budget': sorted(truncated),
            'coverage_guided': guided,
            'section_wall_s': timing
        },
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
        'wall_s': wall,
        'violations': len(failures)
    }
    if not args.no_evidence and not args.section:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', f'{prop}.json')
        with open(path + '.tmp', 'w', encoding='utf-8') as fh:
            json.dump(evidence, fh, indent=1, ensure_ascii=True)
            fh.write('\n')
        os.replace(path + '.tmp', path)

    for key, desc in known.items():
        if known_hits.get(key):
            print(f'KNOWN-FINDING: property={prop} key={key} {desc}')
    print(f'{prop} {tier} seed={args.seed}: {sum(evals.values())} cases, {len(keys)} distinct non-trivial, '
          f'{rejects} rejected, {wall} s' + (f', cut: {sorted(truncated)}' if truncated else ''))
    if args.keep_going or args.section:
        print(json.dumps({'timing': timing, 'tags': tags, 'evals': evals}))
    code = 0
    if failures:
        failures.sort(key=lambda f: (len(f['choices'] or ()), f['section']))
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        limit = len(failures) if args.keep_going else 3
        for n, failure in enumerate(failures[:limit]):
            rel = os.path.join('replays', f'{prop}-{n}.json')
            with open(os.path.join(VERIF, rel), 'w', encoding='utf-8') as fh:
                json.dump({'property': prop, 'tier': tier, 'seed': args.seed, **failure}, fh, indent=1)
            print(f'--- {failure["section"]}: {failure["message"]}')
            if failure['text']:
                print(failure['text'][:3000])
            print(f'VIOLATION property={prop} replay={rel}')
        code = 1
    if errors and not failures:
        for err in errors[:2]:
            print(err, file=sys.stderr)
        code = 2
    return code
