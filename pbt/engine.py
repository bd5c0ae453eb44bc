"""Choice-sequence property testing: generation, execution, integrated shrinking, replay, evidence.

Every random decision of a case goes through one recorded sequence of integers (G). A failing case is
shrunk by editing that sequence and regenerating, so whatever is reported is itself a generated case,
and a replay file holds the sequence together with the concrete input.
"""
import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import struct
import subprocess
import sys
import time
import traceback
from collections import Counter

from . import build

VERIF = build.VERIF


class Discard(Exception):
    """The generator produced something it did not mean to; the case is dropped and counted."""


class G:
    """Source of choices: random, or a replayed prefix followed by zeros."""

    def __init__(self, rng=None, rot=None, replay=None):
        self.rng, self.rot, self.replay = rng, rot, replay
        self.choices = []
        self.spans = []
        self.scope = ''
        # settings used by the statement generators
        self.reuse = True
        self.outside = None
        self.targets = ()

    def _next(self, n, label):
        if self.replay is not None:
            i = len(self.choices)
            v = self.replay[i] if i < len(self.replay) else 0
            return v if v < n else n - 1
        r = self.rng
        if label is not None and n <= 512 and r.random() < 0.5:
            # systematic sweep of this choice within its scope, on top of the random draws
            key = (self.scope, label, n)
            c = self.rot.get(key)
            if c is None:
                c = r.randrange(n)
            self.rot[key] = c + 1
            return c % n
        return r.randrange(n)

    def pick(self, n, label=None):
        if n <= 1:
            return 0
        v = self._next(n, label)
        self.choices.append(v)
        return v

    def big(self, n):
        return self.pick(n, None)

    def chance(self, num, den, label=None):
        """True with probability num/den; False is the simple outcome."""
        return self.pick(den, label) >= den - num

    def choose(self, seq, label=None):
        return seq[self.pick(len(seq), label)]

    def many(self, lo, hi, label='more', avg=None):
        """Iterate lo..hi times; each round is a span that shrinking can delete."""
        avg = avg if avg is not None else (lo + hi) / 2
        n = 0
        while n < hi:
            start = len(self.choices)
            if n >= lo:
                # continue with probability such that the mean is about avg
                cont = 1000 - int(1000 / (1 + max(avg - lo, 0.001)))
                if self.pick(1000, None) < 1000 - cont:
                    break
            idx = len(self.spans)
            self.spans.append(None)
            yield n
            self.spans[idx] = (start, len(self.choices))
            n += 1

    def target(self, st):
        """Label to branch to, or None for a numeric address."""
        if not self.targets:
            return None
        k = self.pick(len(self.targets) * 3 + 1, None)
        return None if k == 0 else self.targets[(k - 1) % len(self.targets)]


ANSI = re.compile(rb'\x1b\[[0-9;]*m')


def message_text(err):
    """What a message says after colours and the 'file:line:column: error:' in front of it."""
    e = ANSI.sub(b'', err)
    head, sep, rest = e.partition(b'error:')
    return (rest if sep else e).strip()


class Resp:
    __slots__ = ('how', 'code', 'results', 'err', 'out')

    @property
    def ok(self):
        return self.how == 0

    @property
    def words(self):
        return self.results[0] if self.results else None

    @property
    def clean_error(self):
        """Ended by the tool's own error path: failure status and a message."""
        return self.how == 1 and self.code == 1 and len(message_text(self.err)) > 0

    def describe(self):
        if self.how == 0:
            return 'ok: ' + ' | '.join(' '.join('%016x' % w for w in r[:40]) for r in self.results[:4])
        what = {1: 'exit status', 2: 'killed by signal'}[self.how]
        return '%s %d, stderr: %s' % (what, self.code, self.err[-2000:].decode('utf8', 'replace').strip())


class Worker:
    def __init__(self, exe, cpu=30, mem_mb=0):
        self.cmd = [exe, str(cpu), str(mem_mb)]
        self.p = None

    def start(self):
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=0'
        env['UBSAN_OPTIONS'] = 'print_stacktrace=0:halt_on_error=1:exitcode=77'
        if build.locales():
            env['LOCPATH'] = build.locales()
        env['TSAN_OPTIONS'] = 'exitcode=66:halt_on_error=1'
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)

    def stop(self):
        if self.p:
            self.p.stdin.close()
            self.p.stdout.close()
            self.p.wait()
            self.p = None

    def _read(self, n):
        b = self.p.stdout.read(n)
        if len(b) != n:
            raise RuntimeError('worker died')
        return b

    def run(self, reqs):
        """reqs: list of Req. Returns list of Resp. Requests are sent in slices small enough for the pipe."""
        if self.p is None:
            self.start()
        out = []
        i = 0
        while i < len(reqs):
            buf = []
            size = 0
            j = i
            while j < len(reqs) and (j == i or size + reqs[j].size() < 50000):
                b = reqs[j].encode()
                size += len(b)
                buf.append(b)
                j += 1
            self.p.stdin.write(b''.join(buf))
            self.p.stdin.flush()
            for q in reqs[i:j]:
                r = self._recv()
                n = len(q.items)
                if r.how == 0 and len(r.results) != {2: n * n, 3: n - 1}.get(q.kind, n):
                    # the process ended with status 0 before the calls returned
                    r.how, r.code = 1, 0
                out.append(r)
            i = j
        return out

    def _recv(self):
        r = Resp()
        how, code, n = struct.unpack('<BiI', self._read(9))
        raw = self._read(n)
        r.err = self._read(struct.unpack('<I', self._read(4))[0])
        r.out = self._read(struct.unpack('<I', self._read(4))[0])
        r.how, r.code = how, code
        r.results = []
        p = 0
        while p < len(raw):
            k = struct.unpack_from('<I', raw, p)[0]
            r.results.append(list(struct.unpack_from('<%dQ' % k, raw, p + 4)))
            p += 4 + 8 * k
        return r


class Req:
    __slots__ = ('kind', 'param', 'file', 'items')

    def __init__(self, text, file='file', kind=0, param=0):
        self.kind, self.param, self.file = kind, param, file
        self.items = [text] if isinstance(text, (str, bytes)) else list(text)

    def size(self):
        return sum(len(x) for x in self.items) * 2 + 64

    def encode(self):
        f = self.file.encode('utf8')
        b = [struct.pack('<BII', self.kind, self.param, len(f)), f, struct.pack('<I', len(self.items))]
        for t in self.items:
            t = t.encode('latin-1') if isinstance(t, str) else t
            b += [struct.pack('<I', len(t)), t]
        return b''.join(b)


class Case:
    """requests: what to run; judge(resps) -> None or a message; sample: JSON-able description."""

    def __init__(self, requests, judge, sample, key=None, nontrivial=True, tags=(), execute=None):
        self.requests, self.judge, self.sample = requests, judge, sample
        self.key = key if key is not None else repr(sample)
        self.nontrivial, self.tags, self.execute = nontrivial, tags, execute


class Prop:
    id = None
    flavour = 'plain'
    rule = ''
    assumptions = []
    quick, thorough = 40000, 800000       # cases
    quick_cap, thorough_cap = 300, 5400   # seconds (a run cut short says so in its evidence)
    batch = 48
    cpu, mem_mb = 30, 4096
    procs = 8

    def prepare(self):
        """Runs once in the parent, after the build."""

    def start(self, ctx):
        """Runs once in every process."""

    def gen(self, g):
        raise NotImplementedError

    def confirm(self, run_once):
        """A failure counts when it happens again three times out of three."""
        return all(run_once() for _ in range(3))

    def extra(self, tier, seed):
        """Additional deterministic part run in the parent: (evaluations, failure or None, info)."""
        return None


class Ctx:
    def __init__(self, exe, prop):
        self.worker = Worker(exe, prop.cpu, prop.mem_mb)
        self.prop = prop

    def execute(self, case):
        if case.execute:
            return case.execute()
        return self.worker.run(case.requests)


def run_case(ctx, prop, choices):
    g = G(replay=choices)
    case = prop.gen(g)
    msg = case.judge(ctx.execute(case))
    return msg, g, case


def shrink(ctx, prop, choices, spans, budget=45.0):
    """Smallest failing choice sequence found within the budget."""
    end = time.time() + budget
    best = list(choices)
    best_spans = list(spans)
    seen = set()

    def attempt(c):
        nonlocal best, best_spans
        key = tuple(c)
        if key in seen or time.time() > end:
            return False
        seen.add(key)
        try:
            msg, g, _ = run_case(ctx, prop, c)
        except Exception:
            return False
        used = g.choices
        if msg and (len(used), sum(min(x, 1 << 40) for x in used)) < (len(best), sum(min(x, 1 << 40) for x in best)):
            best, best_spans = list(used), list(g.spans)
            return True
        return False

    improved = True
    while improved and time.time() < end:
        improved = False
        # whole spans
        for s in sorted([s for s in best_spans if s], key=lambda s: s[0] - s[1]):
            if s[1] <= len(best) and attempt(best[:s[0]] + best[s[1]:]):
                improved = True
                break
        if improved:
            continue
        for size in (64, 32, 16, 8, 4, 2, 1):
            i = len(best) - size
            while i >= 0:
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                i -= size
        for i in range(len(best)):
            if i >= len(best) or best[i] == 0:
                continue
            if attempt(best[:i] + [0] + best[i + 1:]):
                improved = True
                continue
            lo, hi = 0, best[i]
            while i < len(best) and lo + 1 < hi and time.time() < end:
                mid = (lo + hi) // 2
                if attempt(best[:i] + [mid] + best[i + 1:]):
                    hi = mid
                    improved = True
                else:
                    lo = mid
    return best


def h64(s):
    return int.from_bytes(hashlib.blake2b(s.encode('utf8', 'surrogateescape'), digest_size=8).digest(), 'little')


def proc_main(prop, exe, seed, index, ncases, deadline, stop, q):
    try:
        ctx = Ctx(exe, prop)
        prop.start(ctx)
        rng = random.Random('%s/%d/%d' % (prop.id, seed, index))
        rot = {}
        done = 0
        keys = set()
        tags = Counter()
        samples = []
        failure = None
        flaky = 0
        discarded = 0
        cut = False
        while done < ncases and failure is None:
            if stop.is_set():
                break
            if time.time() > deadline:
                cut = True
                break
            cases = []
            for _ in range(min(prop.batch, ncases - done)):
                g = G(rng=rng, rot=rot)
                try:
                    cases.append((g, prop.gen(g)))
                except Discard as e:
                    discarded += 1
                    if discarded > 20 + ncases // 100:
                        raise RuntimeError('too many discarded cases, the last one: %s' % e)
            reqs = []
            where = []
            for g, c in cases:
                if c.execute:
                    where.append(None)
                else:
                    where.append((len(reqs), len(reqs) + len(c.requests)))
                    reqs += c.requests
            resps = ctx.worker.run(reqs) if reqs else []
            for (g, c), w in zip(cases, where):
                rs = c.execute() if w is None else resps[w[0]:w[1]]
                msg = c.judge(rs)
                done += 1
                for t in c.tags:
                    tags[t] += 1
                if c.nontrivial:
                    keys.add(h64(c.key))
                    if len(samples) < 3 and len(str(c.sample)) < 3000:
                        samples.append(c.sample)
                if msg:
                    # make sure it is real before anything else, on the original choices
                    def again(ch=list(g.choices)):
                        m, _, _ = run_case(ctx, prop, ch)
                        return m
                    if not prop.confirm(again):
                        flaky += 1
                        sys.stderr.write('not reproducible, ignored: %s\n' % msg)
                        continue
                    stop.set()
                    best = shrink(ctx, prop, g.choices, g.spans)
                    if prop.confirm(lambda: run_case(ctx, prop, best)[0]):
                        final = best
                    else:
                        final = list(g.choices)
                    m, g2, c2 = run_case(ctx, prop, final)
                    if not m:
                        m, g2, c2 = msg, g, c
                    failure = {'property': prop.id, 'message': m, 'sample': c2.sample, 'choices': g2.choices,
                               'original_message': msg, 'original_sample': c.sample, 'seed': seed}
                    break
        ctx.worker.stop()
        q.put({'evals': done, 'keys': keys, 'tags': tags, 'samples': samples, 'failure': failure,
               'flaky': flaky, 'cut': cut, 'discarded': discarded, 'error': None})
    except Exception:
        q.put({'error': traceback.format_exc()})


def write_replay(prop, failure):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    name = '%s-%s.json' % (prop.id, hashlib.sha1(json.dumps(failure['sample'], sort_keys=True, default=str)
                                                 .encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        json.dump(failure, f, indent=1, default=str)
        f.write('\n')
    return path


def write_evidence(prop, tier, seed, cov, wall, violations, assumptions):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop.id + '.json'), 'w') as f:
        json.dump({'property': prop.id, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
                   'assumptions': assumptions, 'wall_s': round(wall, 2), 'violations': violations}, f, indent=1,
                  default=str)
        f.write('\n')


def replay_file(prop, path):
    exe = build.worker(prop.flavour)
    prop.prepare()
    ctx = Ctx(exe, prop)
    prop.start(ctx)
    with open(path) as f:
        failure = json.load(f)
    if failure.get('text') is not None:
        msg = prop.replay_text(ctx, failure['text'])
        case_sample = failure['text']
    elif failure.get('extra'):
        _, fail, _ = prop.extra(failure.get('tier', 'quick'), failure['seed'])
        msg = fail['message'] if fail else None
        case_sample = failure['sample']
    else:
        msg, _, case = run_case(ctx, prop, failure['choices'])
        case_sample = case.sample
    ctx.worker.stop()
    print(json.dumps(case_sample, indent=1, default=str))
    if msg:
        print(msg)
        print('VIOLATION property=%s replay=%s' % (prop.id, path))
        return 1
    print('no violation')
    return 0


def main(prop, argv):
    t0 = time.time()
    if argv[:1] == ['--replay']:
        return replay_file(prop, argv[1])
    tier = argv[0] if argv else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    total = prop.thorough if tier == 'thorough' else prop.quick
    if os.environ.get('VERIF_CASES'):
        total = int(os.environ['VERIF_CASES'])
    cap = prop.thorough_cap if tier == 'thorough' else prop.quick_cap
    exe = build.worker(prop.flavour)
    prop.prepare()
    built = time.time()
    stop = mp.Event()
    q = mp.Queue()
    n = prop.procs
    deadline = built + cap
    ps = []
    for i in range(n):
        share = total // n + (1 if i < total % n else 0)
        p = mp.Process(target=proc_main, args=(prop, exe, seed, i, share, deadline, stop, q))
        p.start()
        ps.append(p)
    res = [q.get() for _ in ps]
    for p in ps:
        p.join()
    errors = [r['error'] for r in res if r['error']]
    if errors:
        sys.stderr.write(errors[0])
        return 2
    keys = set()
    tags = Counter()
    samples = []
    for r in res:
        keys |= r['keys']
        tags += r['tags']
        samples += r['samples'][:2]
    evals = sum(r['evals'] for r in res)
    failures = [r['failure'] for r in res if r['failure']]
    cov = {'evaluations': evals, 'distinct_nontrivial': len(keys), 'rule': prop.rule,
           'samples': samples[:8], 'classes': dict(sorted(tags.items(), key=lambda kv: -kv[1])[:60]),
           'planned': total, 'cut_short_by_time': any(r['cut'] for r in res),
           'not_reproducible': sum(r['flaky'] for r in res), 'discarded': sum(r['discarded'] for r in res), 'exhaustive': False,
           'build_s': round(built - t0, 2)}
    if not failures:
        ex = prop.extra(tier, seed)
        if ex:
            n_ex, fail, info = ex
            cov['evaluations'] += n_ex
            cov['additional'] = info
            if fail:
                fail['extra'] = True
                fail['tier'] = tier
                failures.append(fail)
    write_evidence(prop, tier, seed, cov, time.time() - t0, len(failures), prop.assumptions)
    if failures:
        failures.sort(key=lambda f: len(str(f['sample'])))
        f = failures[0]
        path = write_replay(prop, f)
        print('%s: %s' % (prop.id, f['message']))
        print(json.dumps(f['sample'], indent=1, default=str)[:4000])
        print('VIOLATION property=%s replay=%s' % (prop.id, path))
        return 1
    print('%s held on %d cases (%d distinct non-trivial), %.1f s' % (prop.id, cov['evaluations'], len(keys),
                                                                    time.time() - t0))
    return 0
