"""C15 C16: the command line tool, and independence of calls."""
import errno
import os
import random
import resource
import shutil
import signal
import struct
import subprocess
import tempfile

from .common import *      # noqa: F401,F403
from .common import (Case, Prop, Req, PredVal, address, gen_program, gen_stmt, hexs, must_accept, must_reject, render,
                     render_program, try_assemble, model, FORMS, inner)
from .. import build
from ..engine import Worker, G, message_text
from .mutate import mutate

NAMES = ['in.s', 'prog.nxas', 'a', 'with space', '%s%n%d', '-x', 'x-o', 'in.out', 'caf\u00e9', 'n' * 120, '--', 'o', '.hidden', '-', '-oo']
OUTS = ['out.bin', 'b', 'o u t', '%n%s', '-y', 'out', 'result.dksh', '\u00fc', 'm' * 120, '.out', '-o', '--help']


class C15(Prop):
    id = 'C15'
    quick, thorough = 20000, 250000
    rule = ('one case is one run of the command line tool in a scratch directory of its own: good and bad programs, argument '
            'lists, input kinds (file, missing, directory, unreadable, pipe, links, other directories) and output faults (missing directory, directory, '
            'read-only, full device, size limit at a chosen byte), with or without an older output file; every case is '
            'non-trivial; distinct = distinct program and arguments')
    assumptions = ['what the tool must write is taken from the library (C01-C11 judge the library)',
                   'read errors in the middle of a regular input file are not injected']
    batch = 16
    limit_s = 20

    def prepare(self):
        self.tool = build.tool(build.build('plain'))
        root = build.scratch()
        os.chmod(root, 0o711)
        d = os.path.dirname(self.tool)
        while len(d) >= len(root):
            os.chmod(d, 0o755 if d != root else 0o711)
            d = os.path.dirname(d)
        self.base = tempfile.mkdtemp(prefix='cli-', dir=root)
        os.chmod(self.base, 0o711)
        self.user = None
        if os.getuid() == 0:
            r = None
            try:
                r = subprocess.run([self.tool], user=65534, group=65534, extra_groups=[], stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE)
            except (PermissionError, OSError, subprocess.SubprocessError):
                pass
            if r is not None and r.returncode == 1:
                self.user = 65534
        self.unpriv = self.user is not None or os.getuid() != 0

    def start(self, ctx):
        self.ctx = ctx

    def text(self, g):
        k = g.pick(12, 'tk')
        if k == 0:
            return ''
        if k == 1:
            n = 1 + g.pick(4000, None)
            if g.pick(40, 'huge') == 39:
                n *= 16
            return 'NOP;\n' * n
        if k == 2:
            return '.dksh compute\nmain:\n' + 'NOP;\n' * (1 + g.pick(30, None))
        prog, tail, _ = gen_program(g, 1, 12, 4)
        t = render_program(prog, tail, g, 1)
        k2 = g.pick(6, 'eol')
        if k2 == 4:
            t = t.replace('\n', '\r\n')
        elif k2 == 5:
            t = t.rstrip('\n')
        k3 = g.pick(6, 'pad')
        if k3 == 5:
            # the last statement ends on, just before or just after a buffer boundary
            size = (512, 1024, 4096, 4096, 8192, 8192, 16384, 65536)[g.pick(8, 'padto')] + g.pick(5, 'padd') - 2
            if g.pick(60, 'padhuge') == 59:
                size = (100000, 262144, 1000000, 1 << 20, 3 << 20, 1 << 22)[g.pick(6, 'padmb')] + g.pick(100, 'paddh')
            if g.pick(4, 'padend'):
                t = t.rstrip() if t.rstrip().endswith(';') else t.rstrip() + ' NOP;'
            t = (' ' if g.pick(2, 'padc') else '\n') * (size - len(t) - 1) + '\n' + t
        return t

    def gen(self, g):
        g.scope = 'c15'
        iname = NAMES[g.pick(len(NAMES), 'iname')]
        oname = OUTS[g.pick(len(OUTS), 'oname')]
        text = self.text(g)
        g.scope = 'c15'
        kind = g.pick(16, 'kind')
        old = (None, b'', b'old contents', b'x' * 5000, b'z' * 100000)[g.pick(5, 'old')]
        good = True
        words, p = try_assemble(text)
        if words is None:
            raise Discard('generator and model disagree: %s\n%s' % (p, text))
        spec = {'kind': 'ok', 'input': iname, 'output': oname, 'old': None if old is None else len(old), 'limit': None}
        order = g.pick(2, 'order')
        args = [iname, '-o', oname] if order == 0 else ['-o', oname, iname]
        if kind in (4, 5):
            spec['kind'] = 'assembly error'
            s = gen_stmt(g)
            mutate(g, s)
            text = text + render(s.toks) + '\n'
            nul = g.pick(6, 'nul')
            if nul == 5:
                text = text + '\0NOP;\n'
            elif nul == 4:
                # nothing in the input is skipped, at its start or its end
                text = text[:len(text) - len(render(s.toks)) - 1]
                odd = ('\x1a', '\x04', '\0', '\xff', '\xef\xbb\xbf', '#', '//', '\xfe\xff', '\x0c', '\\', '$', '\x1aNOP;', '#!x\n')[g.pick(13, 'odd')]
                text = odd + text if g.pick(2, 'oddat') else text + odd
            w2, p2 = try_assemble(text)
            if w2 is not None:
                spec['kind'] = 'ok' if not p2.quirk else 'open'
        elif kind == 6:
            spec['kind'] = 'arguments'
            args = [[], [iname], ['-o', oname], ['-o'], [iname, '-o'], [iname, iname, '-o', oname], [iname, '-o', oname, '-o', oname],
                    [iname, oname], ['-o', oname, '-o', iname], [iname, '-o', oname, 'other'], [iname, '-o', oname, '-o'],
                    ['-o', oname, iname, iname]][g.pick(12, 'args')]
        elif kind == 7:
            spec['kind'] = ('missing input', 'directory input', 'unreadable input', 'empty input name')[g.pick(4, 'ink')]
            if spec['kind'] == 'unreadable input' and not self.unpriv:
                spec['kind'] = 'missing input'
            if spec['kind'] == 'empty input name':
                args = ['' if a == iname else a for a in args]
        elif kind == 8:
            spec['kind'] = 'pipe input'
            args = ['/dev/stdin' if a == iname else a for a in args]
        elif kind == 9:
            spec['kind'] = ('output directory missing', 'output is a directory', 'read-only output', 'empty output name',
                            'output directory read-only')[g.pick(5, 'outk')]
            if spec['kind'] in ('read-only output', 'output directory read-only') and not self.unpriv:
                spec['kind'] = 'output is a directory'
            if spec['kind'] == 'output directory missing':
                spec['output'] = oname2 = 'nodir/' + oname
                args = [oname2 if a == oname and a != '-o' else a for a in args]
                if oname == '-o':
                    spec['kind'] = 'ok'
                    spec['output'] = oname
            elif spec['kind'] == 'empty output name':
                if oname == '-o':
                    spec['kind'] = 'ok'
                else:
                    args = ['' if a == oname else a for a in args]
            elif spec['kind'] == 'output directory read-only':
                old = None
        elif kind == 10:
            spec['kind'] = 'full device'
            oname = spec['output'] = '/dev/full'
            args = [iname, '-o', '/dev/full'] if order == 0 else ['-o', '/dev/full', iname]
        elif kind in (11, 12):
            spec['kind'] = 'size limit'
            size = len(words) * 8
            c = [0, 1, size - 1, size, size + 1, size // 2, 4096, 8191, 8192, 7, 8]
            j = g.pick(len(c) + 2, 'lim')
            spec['limit'] = max(0, c[j]) if j < len(c) else g.pick(size + 64, None)
        elif kind == 13:
            spec['kind'] = 'in place'
            args = [a if a != oname or a == '-o' else iname for a in args]
            if oname == '-o' or iname == '-o':
                spec['kind'] = 'ok'
            else:
                spec['output'] = iname
                old = None
        elif kind == 14 and oname != '-o' and iname != '-o':
            # other ways to name the files; the failing ones must still leave the output alone
            v = g.pick(6, 'paths')
            spec['paths'] = ('symlink output', 'dangling symlink output', 'subdirectories', './ in front', 'symlink input',
                             'hard link output')[v]
            if v == 2:
                spec['output'] = 'sub/' + oname
                args = ['sub/' + oname if a == oname else 'in put/' + iname if a == iname else a for a in args]
                iname = 'in put/' + iname
                old = None
            elif v == 3:
                args = ['./' + a if a in (iname, oname) else a for a in args]
            if g.pick(3, 'pathbad') == 2:
                spec['kind'] = 'assembly error'
                text = text + 'NOP R0;\n'
        quirk = p.quirk
        data = text.encode('latin-1')
        spec['args'] = args
        sample = {'spec': spec, 'text': text[:1500]}

        def execute():
            return [self.run_tool(spec, args, iname, data, old)]

        def judge(rs):
            return self.judge(rs[0], spec, args, iname, data, old, quirk)
        return Case([], judge, sample, key=repr((spec, text)), tags=[spec['kind']], execute=execute)

    def run_tool(self, spec, args, iname, data, old):
        d = tempfile.mkdtemp(prefix='r-', dir=self.base)
        try:
            kind = spec['kind']
            paths = spec.get('paths')
            ipath = os.path.join(d, iname)
            if paths == 'subdirectories':
                os.mkdir(os.path.join(d, 'sub'))
                os.mkdir(os.path.join(d, 'in put'))
            elif paths == 'symlink input':
                os.symlink('source', ipath)
            if kind == 'directory input':
                os.mkdir(ipath)
            elif kind not in ('missing input', 'pipe input', 'empty input name'):
                with open(ipath, 'wb') as f:
                    f.write(data)
                if kind == 'unreadable input':
                    os.chmod(ipath, 0)
            opath = os.path.join(d, spec['output'])
            if paths in ('symlink output', 'dangling symlink output'):
                os.symlink('real output', opath)
            elif paths == 'hard link output':
                with open(os.path.join(d, 'real output'), 'wb') as f:
                    f.write(b'linked')
                os.link(os.path.join(d, 'real output'), opath)
            if paths in ('dangling symlink output', 'hard link output'):
                pass
            elif kind == 'output is a directory':
                os.mkdir(opath)
            elif old is not None and os.path.dirname(opath) == d and kind != 'in place':
                with open(opath, 'wb') as f:
                    f.write(old)
                if kind == 'read-only output':
                    os.chmod(opath, 0o444)
            elif kind == 'read-only output':
                open(opath, 'wb').close()
                os.chmod(opath, 0o444)
            before = self.snapshot(d)
            if self.user is not None:
                for root, dirs, files in os.walk(d):
                    for n in dirs + files:
                        os.chown(os.path.join(root, n), self.user, self.user, follow_symlinks=False)
                os.chown(d, self.user, self.user)
            if kind == 'output directory read-only':
                os.chmod(d, 0o555)
            limit = spec['limit']

            def pre():
                resource.setrlimit(resource.RLIMIT_CPU, (self.limit_s, self.limit_s + 5))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                if limit is not None:
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            kw = {}
            if self.user is not None:
                kw = dict(user=self.user, group=self.user, extra_groups=[])
            p = subprocess.Popen([self.tool] + args, cwd=d, stdin=subprocess.PIPE if kind == 'pipe input' else subprocess.DEVNULL,
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, restore_signals=limit is None, **kw)
            out, err = p.communicate(data if kind == 'pipe input' else None)
            os.chmod(d, 0o755)
            if p.returncode in (-signal.SIGXCPU, -signal.SIGKILL):
                self.limit_s = 3        # once something hangs, do not wait as long for the rest
            return {'code': p.returncode, 'out': out, 'err': err, 'before': before, 'after': self.snapshot(d)}
        finally:
            os.chmod(d, 0o755)
            shutil.rmtree(d, ignore_errors=True)

    def snapshot(self, d):
        s = {}
        for root, dirs, files in os.walk(d):
            for n in dirs:
                s[os.path.relpath(os.path.join(root, n), d)] = None
            for n in files:
                path = os.path.join(root, n)
                if not os.path.exists(path):
                    continue            # symbolic link to nothing
                with open(path, 'rb') as f:
                    s[os.path.relpath(path, d)] = f.read()
        return s

    def judge(self, r, spec, args, iname, data, old, quirk):
        kind = spec['kind']
        if quirk or kind == 'open':
            return None
        out = spec['output']
        failed = r['code'] != 0
        what = 'exit status %d, stderr %r' % (r['code'], r['err'][-300:])
        if r['code'] < 0:
            return 'the tool was killed by signal %d (%s)' % (-r['code'], kind)
        if failed and not message_text(r['err']):
            return 'failed without a message (%s)' % kind
        changed = {n for n in set(r['before']) | set(r['after']) if r['before'].get(n, 0) != r['after'].get(n, 0) or
                   (n in r['before']) != (n in r['after'])}
        # behind a link, another name of the output may change with it
        if changed - {out} - ({'real output'} if spec.get('paths') else set()):
            return 'files other than the output changed: %s (%s)' % (sorted(changed - {out}), kind)
        want = None
        if kind in ('ok', 'pipe input', 'in place', 'size limit'):
            lib = self.ctx.worker.run([Req(data, file=iname)])[0]
            if lib.ok:
                want = struct.pack('<%dQ' % len(lib.words), *lib.words)
        if kind in ('ok', 'in place') and want is not None:
            if failed:
                return 'a good program was not assembled: ' + what
        elif kind == 'size limit' and want is not None:
            if len(want) > spec['limit'] and not failed:
                return 'exit status 0 although the output could not be written completely (%d of %d bytes)' % (
                    spec['limit'], len(want))
            if len(want) <= spec['limit'] and failed:
                return 'a good program was not assembled: ' + what
        elif kind == 'full device':
            if not failed and data.strip() and self.nonempty(data, iname):
                return 'exit status 0 although nothing could be written to the full device'
        elif kind == 'pipe input':
            pass
        elif not failed:
            return 'exit status 0 in spite of: ' + kind
        if not failed:
            if kind == 'full device':
                return None
            if want is None:
                return 'exit status 0 for a program the library does not assemble'
            got = r['after'].get(out)
            if got is None:
                return 'exit status 0 but there is no output file'
            if got != want:
                return 'the output file does not hold the assembled program: %d bytes, expected %d: %s... expected %s...' % (
                    len(got), len(want), got[:64].hex(), want[:64].hex())
            return None
        if kind in ('assembly error', 'arguments', 'missing input', 'directory input', 'unreadable input', 'empty input name',
                    'pipe input') and changed:
            return 'the output file was created or modified although the failure is not in writing (%s)' % kind
        return None

    def nonempty(self, data, iname):
        r = self.ctx.worker.run([Req(data, file=iname)])[0]
        return r.ok and len(r.words) > 0


FLOAT_FORMS = [f for f in FORMS if any(inner(e).kind == 'float' for e in f.elems)]


class C16(Prop):
    id = 'C16'
    quick, thorough = 16000, 250000
    rule = ('one case is a history of 2-10 calls in one process (repeats and near twins included, with other left-over memory '
            'contents and errno, each text in its own buffer or all in the same one, sometimes ending in a rejected text), or 2-6 '
            'threads that each assemble all texts several times, or a history of 250-1450 calls, or calls in a process that uses '
            'another locale (decimal comma and others), compared with the result of each text alone in a fresh process under '
            'other file names; every case is non-trivial; distinct = distinct history. Part of the concurrent '
            'cases also run under the thread sanitizer')
    assumptions = ['thread schedules are those the operating system produces (8 cores); data races are also looked for with the '
                   'thread sanitizer']
    batch = 8

    def prepare(self):
        self.locales = build.make_locales()
        if self.locales:
            w = Worker(build.worker(self.flavour), 30, 0)
            self.locales = [n for n in self.locales if w.run([Req(['NOP;', n], kind=3)])[0].ok]
            w.stop()

    def in_locale(self, g):
        """The same calls in a process that has set another locale."""
        if g.pick(2, 'oddtext'):
            return self.odd_in_locale(g)
        ts = self.texts(g, 1, 4, floats=True)
        name = self.locales[g.pick(len(self.locales), 'locale')]
        reqs = [Req(ts + [name], kind=3)] + [Req(t) for t in ts]

        def judge(rs):
            for r in rs[1:]:
                m = must_accept(r)
                if m:
                    return m
            if not rs[0].ok:
                return 'rejected in a process that uses the locale %s: %s' % (name, rs[0].describe()[-1500:])
            for i, r in enumerate(rs[1:]):
                if rs[0].results[i] != r.words:
                    return 'text %d gives %s in the locale %s and %s in the C locale' % (
                        i, hexs(rs[0].results[i][:12]), name, hexs(r.words[:12]))
        return Case(reqs, judge, {'texts': ts, 'locale': name}, tags=['locale'])

    def odd_in_locale(self, g):
        """A text with letters outside ASCII: what is a letter, a digit or a blank must not depend on the locale."""
        g.scope = 'c16odd'
        c = '\xe9\xdf\xa0\x85\xff\xb5\xaa\xc0\xdd\xfd\x95\xb2\xa3\xf6'[g.pick(14, 'oddc')]
        k = g.pick(5, 'oddk')
        prog, tail, lab = gen_program(g, 1, 5, 3)
        t = render_program(prog, tail, g, 1)
        g.scope = 'c16odd'
        if k == 0:
            # in a name, everywhere the same way
            n = ('x' + c, c + 'x', c, 'a' + c + '1')[g.pick(4, 'oddn')]
            t = (n + ':\n' + t + 'BRA ' + n + ';\n', t + 'BRA ' + n + ';\n' + n + ':\n')[g.pick(2, 'oddp')]
        else:
            i = g.pick(len(t), None)
            t = t[:i] + c + t[i + (k == 2):]
        name = self.locales[g.pick(len(self.locales), 'locale')]

        def judge(rs):
            a, b = rs
            if a.ok != b.ok or (a.ok and a.results[0] != b.words):
                return 'in the locale %s: %s; in the C locale: %s' % (
                    name, hexs(a.results[0][:12]) if a.ok else a.describe()[-600:], hexs(b.words[:12]) if b.ok else b.describe()[-600:])
        return Case([Req([t, name], kind=3), Req(t)], judge, {'texts': [t], 'locale': name}, tags=['locale, letters outside ASCII'])

    def long_history(self, g):
        """Hundreds of calls in one process: the first and the last must agree."""
        ts = self.texts(g, 1, 4)
        g.scope = 'c16'
        n = 250 + g.pick(1200, 'calls')
        seq = [ts[(i * 7 + i // 5) % len(ts)] for i in range(n)]
        reqs = [Req(seq, kind=1, param=g.pick(2, 'buffer') << 16)] + [Req(t) for t in ts]

        def judge(rs):
            for r in rs[1:]:
                m = must_accept(r)
                if m:
                    return m
            if not rs[0].ok:
                return self.what(rs[0])
            for i, got in enumerate(rs[0].results):
                w = rs[1 + (i * 7 + i // 5) % len(ts)].words
                if got != w:
                    return 'call %d of %d gives %s, alone it gives %s' % (i + 1, n, hexs(got[:12]), hexs(w[:12]))
        return Case(reqs, judge, {'texts': ts, 'calls': n}, tags=['long history'])

    def texts(self, g, lo, hi, floats=False):
        out = []
        for _ in g.many(lo, hi, avg=(lo + hi) / 2):
            g.scope = 'c16'
            k = g.pick(12, 'tk')
            if floats and k < 8:
                t = render(gen_stmt(g, 8, {}, FLOAT_FORMS).toks) + '\n'
            elif k == 0:
                t = ('', '\n', 'x:\n')[g.pick(3, 'e')]
            elif k == 1:
                t = '.dksh compute\n.num_gprs %d\n.workgroup_size %d 2 3\n.shared_memory %d\n.local_memory %d\nmain:\nNOP;\n' % (
                    g.pick(256, None), g.pick(100, None), g.pick(5000, None), g.pick(5000, None))
            elif k == 2:
                t = '.dksh compute\nmain:\n' + 'NOP;\n' * (1 + g.pick(9, None))
            elif k == 3:
                t = '.type compute\nNOP;\nl:\nBRA l;\n'
            else:
                prog, tail, _ = gen_program(g, 1, 10, 4)
                t = render_program(prog, tail, g, 1)
            w, p = try_assemble(t)
            if w is None:
                raise Discard('generator and model disagree: %s\n%s' % (p, t))
            out.append(t)
            if g.pick(4, 'twin') == 3:
                out += self.twin(g, t)
        return out

    def twin(self, g, t):
        """Texts that are nearly t: one character changed, cut or continued."""
        k = g.pick(5, 'twk')
        at = [i for i, c in enumerate(t) if c in '0123456789']
        if k < 3 and at:
            # a twin of the same length
            i = at[g.pick(len(at), None)]
            u = t[:i] + '0123456789'[g.pick(10, 'twd')] + t[i + 1:]
        elif k == 3:
            u = t + 'NOP;\n'
        else:
            u = t[:t.find(';') + 1]
        w, p = try_assemble(u)
        return [u] if w is not None and not p.quirk else []

    def gen(self, g):
        g.scope = 'c16'
        k = g.pick(20, 'kind')
        if k >= 15:
            return self.threads(g, 1 + g.pick(3, 'rounds'))
        if k >= 12 and self.locales:
            return self.in_locale(g)
        if k == 11 and g.pick(8, 'long') == 7:
            return self.long_history(g)
        ts = self.texts(g, 2, 6)
        g.scope = 'c16'
        hist = []
        for _ in g.many(2, 10, avg=5):
            hist.append(g.pick(len(ts), None))
        seq = [ts[i] for i in hist]
        bad = None
        if g.pick(4, 'bad') == 3:
            s = gen_stmt(g)
            mutate(g, s)
            t = render(s.toks)
            w, p = try_assemble(t)
            if w is None:
                bad = t
        fn = ('file', 'other.s', 'x')[g.pick(3, 'fn')]
        # what the process left behind: memory contents and errno
        soil = (0, 1 + g.pick(255, None), 255, 1)[g.pick(4, 'soil')]
        soil |= (0, errno.ERANGE, errno.EINVAL, errno.ENOENT)[g.pick(4, 'errno')] << 8 if soil else 0
        # all texts in the same place in memory, or each in its own
        soil |= g.pick(2, 'buffer') << 16
        reqs = [Req(seq, file=fn, param=soil)] + [Req(t, file='n%d' % i) for i, t in enumerate(ts)]
        if bad is not None:
            reqs += [Req(seq + [bad], file='e', param=soil), Req(bad, file='e')]

        def judge(rs):
            alone = rs[1:1 + len(ts)]
            for r in alone:
                m = must_accept(r)
                if m:
                    return m
            r = rs[0]
            if not r.ok:
                return self.what(r)
            if len(r.results) != len(seq):
                return 'some calls did not return'
            for pos, i in enumerate(hist):
                if r.results[pos] != alone[i].words:
                    return 'call %d of the history gives %s, alone it gives %s' % (
                        pos + 1, hexs(r.results[pos][:12]), hexs(alone[i].words[:12]))
            if bad is not None:
                a, b = rs[-2], rs[-1]
                if a.ok or b.ok or a.err != b.err or a.code != b.code:
                    return 'a rejected text behaves differently after other calls: %s / %s' % (a.describe()[:500], b.describe()[:500])
        return Case(reqs, judge, {'texts': ts, 'history': hist, 'memory and errno before the calls, same buffer': hex(soil), 'rejected at the end': bad}, tags=['history'])

    def what(self, r):
        if r.how == 1 and r.code == 97:
            return 'a call modified its input text'
        if r.how == 1 and r.code == 96:
            return 'repeated concurrent calls gave different results'
        return 'calls that succeed alone fail together: ' + r.describe()[-1500:]

    def threads(self, g, rounds):
        ts = self.texts(g, 2, 6)
        n = len(ts)
        reqs = [Req(ts, kind=2, param=rounds)] + [Req(t) for t in ts]

        def judge(rs):
            for r in rs[1:]:
                m = must_accept(r)
                if m:
                    return m
            if not rs[0].ok:
                return self.what(rs[0])
            if len(rs[0].results) != n * n:
                return 'some calls did not return'
            for t in range(n):
                for i in range(n):
                    if rs[0].results[t * n + i] != rs[1 + i].words:
                        return 'text %d assembled in thread %d next to others gives %s, alone %s' % (
                            i, t, hexs(rs[0].results[t * n + i][:12]), hexs(rs[1 + i].words[:12]))
        return Case(reqs, judge, {'texts': ts, 'threads': n, 'rounds': rounds}, tags=['threads'])

    def extra(self, tier, seed):
        w = Worker(build.worker('tsan'), 60, 0)
        info = {}
        probe = w.run([Req('NOP;'), Req(['NOP;', 'EXIT;'], kind=2, param=2)])
        if not probe[0].ok:
            w.stop()
            return 0, None, {'thread sanitizer': 'not usable here: ' + probe[0].describe()[-300:]}
        count = 160 if tier == 'quick' else 6000
        rng = random.Random('C16-tsan-%d' % seed)
        rot = {}
        fail = None
        for i in range(count):
            g = G(rng=rng, rot=rot)
            g.scope = 'c16'
            c = self.threads(g, 3)
            rs = w.run(c.requests)
            msg = c.judge(rs)
            if msg:
                # a data race need not show every time: two of five more runs are enough
                again = sum(bool(c.judge(w.run(c.requests))) for _ in range(5))
                if again >= 2:
                    fail = {'property': self.id, 'message': msg, 'sample': c.sample, 'seed': seed, 'choices': g.choices}
                    break
        w.stop()
        info['concurrent cases under the thread sanitizer'] = i + 1
        return i + 1, fail, info

    def confirm(self, run_once):
        # schedules vary: once more within many repetitions
        return any(run_once() for _ in range(30))
