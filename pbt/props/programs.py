"""C08 C09 C10: labels, branches, directives and the dksh container."""
import random
import struct

from .common import *      # noqa: F401,F403
from .common import (Case, Prop, Req, FORMS, NOP_WORD, IntVal, address, build_stmt, gen_program, gen_stmt, gen_values,
                     hexs, must_accept, must_reject, outside_int, pick_form, pick_int, render, same_words, slots,
                     spell_int, try_assemble, model)
from .. import build
from ..engine import Worker
from ..gen import LABEL_NAMES, gen_name

BRANCH = [f for f in FORMS if any(e.kind == 'target' for e in f.elems)]
PLAIN = [f for f in FORMS if f.mnemonic in ('NOP', 'MOV', 'EXIT', 'IADD', 'LDG', 'BRK', 'SYNC', 'TEX', 'FFMA')]
NAMES = LABEL_NAMES + ('Rest', 'Phi', 'P10', 'Pt_', 'R2x', 'p', 'P', 'R', 'NOP', 'S', 'S_', 'SS', 'l', 'main_', 'Main', 'MAIN',
                       'R1_', 'PT0', 'D', 'x0', 'd1D', 'E1', 'e', 'F', 'zz9')


class C08(Prop):
    id = 'C08'
    quick, thorough = 100000, 1500000
    rule = ('one case is a program of 1-40 statements (now and then with up to 9000 more NOPs in between, or up to 120 labels) with '
            'labels on any of them (several on one, or at the end) and '
            'branches to labels, to absolute addresses (bounds of the 24-bit range in particular), to undefined labels or out '
            'of range; non-trivial when it has at least one branch; distinct = distinct source text. Additionally programs of '
            'about 780000 instructions put a label just inside and just outside the 24-bit range, forward and backward')
    assumptions = ['a label stands in the first column of a line', 'duplicate labels are not generated']
    batch = 32

    def gen(self, g):
        g.scope = 'c08'
        n = len([0 for _ in g.many(1, 40, avg=8)])
        # now and then a long run of NOPs pushes the rest to large addresses
        fp, fc = n + 1, 0
        if g.pick(150, 'filler') == 149:
            fp = g.pick(n + 1, None)
            fc = 1 + pick_int(g, 0, 9000, 'fillern')

        def address(i):
            return model.address(i + (fc if i >= fp else 0))
        places, lab = {}, {}
        many = g.pick(60, 'manylabels') == 59
        for _ in g.many(0, 120 if many else 10, avg=80 if many else 3):
            name = gen_name(g, NAMES)
            if name in lab:
                continue
            at = g.pick(n + 1, None)
            places.setdefault(at, []).append(name)
            lab[name] = address(at)
        bad = None
        spoil = g.pick(6, 'spoil') == 5
        bad_at = g.pick(n, None) if spoil else -1
        out = []
        want = []
        same_line = g.pick(3, 'sameline')
        col0 = True
        nb = 0
        for i in range(n):
            if i == fp:
                out.append('NOP;' * fc + '\n')
                col0 = True
            for l in places.get(i, []):
                if not col0:
                    out.append('\n')
                out.append(l + ':')
                sep = ('\n', '\n', ' ', '\n\n', '\r\n')[g.pick(5, 'lsep')]
                out.append(sep)
                col0 = sep.endswith('\n')
            g.scope = 'c08'
            if i == bad_at or g.pick(3, 'isbr'):
                f = BRANCH[g.pick(len(BRANCH), 'br')]
                g.scope = f.sig
                st = {'pc': address(i)}
                vals = []
                for e in f.elems:
                    if e.kind != 'target':
                        vals.append(e.gen(g, st))
                        continue
                    k = g.pick(4, 'tk')
                    if i == bad_at:
                        if k < 2:
                            und = self.undefined(g, lab)
                            vals.append(('lab', und))
                            bad = 'undefined label ' + und
                        else:
                            pc = address(i) + 8
                            v = outside_int(g, pc - (1 << 23), pc + (1 << 23) - 1, 'tgo')
                            vals.append(('num', IntVal.make(v, spell_int(g, v))))
                            bad = 'target out of range'
                    elif k and lab:
                        names = sorted(lab)
                        name = names[g.pick(len(names), None)]
                        vals.append(('lab', name))
                        want.append((i, lab[name], 'label ' + name))
                    else:
                        v = address(i) + 8 + pick_int(g, -(1 << 23), (1 << 23) - 1, 'tgt')
                        vals.append(('num', IntVal.make(v, spell_int(g, v))))
                        want.append((i, v, 'address %#x' % v))
                nb += 1
                s = build_stmt(f, vals)
            else:
                s = gen_stmt(g, address(i), lab, PLAIN)
            out.append(render(s.toks, g, 2 if g.pick(4, 'lay') == 3 else 0))
            sep = '\n' if not same_line else ('\n', ' ', '', '\r\n')[g.pick(4, 'ssep')]
            out.append(sep)
            col0 = sep.endswith('\n')
        if fp == n:
            out.append('NOP;' * fc + '\n')
            col0 = True
        for l in places.get(n, []):
            if not col0:
                out.append('\n')
            out.append(l + ':')
            sep = ('\n', '', ' ')[g.pick(3, 'tsep')] if l == places[n][-1] else '\n'
            out.append(sep)
            col0 = sep.endswith('\n')
        text = ''.join(out)
        p, why = try_assemble(text)
        if (p is None) != bool(bad):
            raise Discard('generator and model disagree: %s / %s\n%s' % (bad, why, text))
        quirk = p is not None and why.quirk

        def judge(rs):
            r = rs[0]
            if bad:
                return must_reject(r, bad)
            if quirk:
                return None
            m = must_accept(r)
            if m:
                return m
            got = slots(r.words)
            if got is None or len(got) < n + fc:
                return 'output is not made of complete groups'
            for i, target, what in want:
                off = got[i + (fc if i >= fp else 0)][0] >> 20 & 0xFFFFFF
                off -= (off >> 23) << 24
                reach = address(i) + 8 + off
                if reach != target:
                    return 'the branch in statement %d (at %#x) reaches %#x instead of %s (%#x)' % (
                        i + 1, address(i), reach, what, target)
        shown = text if fc < 50 else text.replace('NOP;' * fc, '<%d times NOP;>' % fc, 1)
        return Case([Req(text)], judge, shown, nontrivial=nb > 0,
                    tags=['large program' if fc else 'small program', 'rejected' if bad else 'accepted', 'branches:%d' % min(nb, 8)])

    def undefined(self, g, lab):
        """A name that is not defined, close to one that is."""
        names = sorted(lab) or ['x']
        base = names[g.pick(len(names), None)]
        c = [base + '_', base + '0', base[:-1], base[0] + base, base.swapcase(), 'undefined', '_' + base, base + base,
             base[1:], base[0], base + '$', '.' + base]
        n = c[g.pick(len(c), 'und')]
        if not n or n in lab or n[0] in 'R0123456789+-' or n[0] in 'Pp' or n == 'CC':
            return 'undefined_1' if 'undefined_1' not in lab else 'undefined_2'
        return n

    def big_cases(self, rng, count):
        """(text pieces, branch index, expected target or None): distances around the bounds."""
        # forward: branch at index i, label at index m; offset = address(m) - address(i) - 8
        res = []
        for k in range(count):
            i = rng.randrange(0, 40)
            backward = k % 2
            mult = (1 << 23) // 32 * 3
            if not backward:
                m = i + mult - 6
                while address(m + 1) - address(i) - 8 <= (1 << 23) - 1:
                    m += 1
                m += (k // 2) % 2 + (rng.randrange(0, 3) if k >= 4 else 0)
                ok = address(m) - address(i) - 8 <= (1 << 23) - 1
                text = 'NOP;' * i + 'BRA far;\n' + 'NOP;' * (m - i - 1) + '\nfar:\nNOP;\n'
                res.append((text, i, address(m) if ok else None))
            else:
                b = i + mult - 6
                while address(i) - address(b + 1) - 8 >= -(1 << 23):
                    b += 1
                b += (k // 2) % 2 + (rng.randrange(0, 3) if k >= 4 else 0)
                ok = address(i) - address(b) - 8 >= -(1 << 23)
                text = 'NOP;' * i + '\nfar:\n' + 'NOP;' * (b - i) + '\nBRA far;\n'
                res.append((text, b, address(i) if ok else None))
        return res

    def extra(self, tier, seed):
        rng = random.Random('C08-big-%d' % seed)
        w = Worker(build.worker(self.flavour), 120, 0)
        n = 4 if tier == 'quick' else 24
        info = {'large programs': n}
        for text, i, want in self.big_cases(rng, n):
            r = w.run([Req(text)])[0]
            sample = {'instructions': text.count(';'), 'branch at statement': i + 1, 'label at': want,
                      'head': text[:80], 'tail': text[-80:]}
            msg = None
            if want is None:
                msg = must_reject(r, 'label out of the 24-bit range')
            else:
                msg = must_accept(r)
                if not msg:
                    off = r.words[address(i) // 8] >> 20 & 0xFFFFFF
                    off -= (off >> 23) << 24
                    if address(i) + 8 + off != want:
                        msg = 'the branch at %#x reaches %#x instead of %#x' % (address(i), address(i) + 8 + off, want)
            if msg:
                w.stop()
                return n, {'property': self.id, 'message': msg[:2000], 'sample': sample, 'seed': seed, 'choices': []}, info
        w.stop()
        return n, None, info


def u32(b, at):
    return struct.unpack_from('<I', b, at)[0]


NEARLY = ('main2', 'Main', 'main_', 'mai', 'MAIN', 'amain', 'entry', 'start', 'mainmain', 'compute', 'dksh')


class C09(Prop):
    id = 'C09'
    quick, thorough = 80000, 900000
    rule = ('one case is a compute program of 1-70 statements (now and then 15000 more) with a group-aligned label main (one in six: misaligned or missing, '
            'which must be rejected) and random directives, assembled as dksh and again without directives; every case is non-trivial; distinct = distinct source text')
    assumptions = ['local memory is rounded up to 16 bytes and shared memory to 256, per-warp scratch is 32 times the local '
                   'size plus 0x800 (what the loader of the format expects)']
    batch = 32

    def gen(self, g):
        g.scope = 'c09'
        n = 1 + g.pick(70, 'n') if g.pick(3, 'long') == 2 else 1 + g.pick(12, 'nshort')
        main = 3 * g.pick((n + 2) // 3, None)
        bad = None
        k = g.pick(16, 'entry')
        if k == 15:
            bad, main = 'no label main', -1
        elif k >= 13:
            main += 1 + g.pick(2, 'mis')
            bad = 'main is not group aligned' if main <= n else 'no label main'
        elif k == 12:
            main = n // 3 * 3            # may be the end of the program
        vals = {'num_gprs': 8, 'wg': [1, 1, 1], 'shared': 0, 'local': 0}
        dirs = []
        tname = '.dksh' + (' ', '  ', '\t')[g.pick(3, 'sp')] + 'compute'
        dirs.append(tname)
        if g.pick(4, 'hasg'):
            vals['num_gprs'] = v = g.pick(256, 'gprs')
            dirs.append('.num_gprs ' + spell_int(g, v))
        if g.pick(4, 'haswg'):
            vals['wg'] = w = [pick_int(g, 0, model.I32_MAX if g.pick(4, 'wgbig') == 3 else 1024, 'wg') for _ in range(3)]
            dirs.append('.workgroup_size ' + ' '.join(spell_int(g, v) for v in w))
        if g.pick(4, 'hassh'):
            vals['shared'] = v = pick_int(g, 0, model.I32_MAX - 255 if g.pick(4, 'shbig') == 3 else 70000, 'shared')
            dirs.append('.shared_memory ' + spell_int(g, v))
        if g.pick(4, 'hasloc'):
            vals['local'] = v = pick_int(g, 0, model.LOCAL_MAX if g.pick(4, 'lobig') == 3 else 5000, 'local')
            dirs.append('.local_memory ' + spell_int(g, v))
        if not bad and g.pick(20, 'over') == 19:
            # sizes the container cannot describe
            name, hi = (('.local_memory', model.LOCAL_MAX), ('.shared_memory', model.I32_MAX - 255))[g.pick(2, 'ovk')]
            dirs = [d for d in dirs if not d.startswith(name)]
            dirs.append('%s %s' % (name, spell_int(g, outside_int(g, 0, hi, 'ov'))))
            bad = 'size that cannot be described'
        order = []
        while dirs:
            order.append(dirs.pop(g.pick(len(dirs), 'dord')))
        # directives may stand anywhere between statements
        spread = g.pick(3, 'spread') == 2
        where = {}
        for d in order:
            where.setdefault(g.pick(n + 1, None) if spread else 0, []).append(d)
        forms = PLAIN if g.pick(2, 'plainf') else None
        # now and then a long program: whole groups of NOPs in front
        fill = 0
        if g.pick(300, 'fill') == 299:
            fill = 3 * pick_int(g, 1, 5000, 'filln')

        def address(i):
            return model.address(i + fill)
        full, raw = [], []
        free = list(NEARLY[:1 + g.pick(len(NEARLY), 'nearly')])
        for i in range(n):
            for d in where.get(i, []):
                full.append(d + '\n')
            if i == 0 and fill:
                full.append('NOP;' * fill + '\n')
                raw.append('NOP;' * fill + '\n')
            if i == main:
                full.append('main:\n')
                raw.append('main:\n')
            if g.pick(12, 'near') == 11 and free:
                # names that are nearly main
                full.append(free[-1] + ':\n')
                raw.append(free.pop() + ':\n')
            g.targets = ('main',) if 0 <= main <= n else ()
            s = gen_stmt(g, address(i), {'main': address(main)}, forms)
            t = render(s.toks) + '\n'
            full.append(t)
            raw.append(t)
        g.targets = ()
        if main == n:
            full.append('main:\n')
            raw.append('main:\n')
        for d in where.get(n, []):
            full.append(d + '\n')
        a, b = ''.join(full), ''.join(raw)
        w, p = try_assemble(b)
        if w is None:
            raise Discard('generator and model disagree: %s\n%s' % (p, b))
        quirk = p.quirk

        def judge(rs):
            if quirk:
                return None
            if bad:
                return must_reject(rs[0], bad) or must_accept(rs[1])
            m = must_accept(rs[0]) or must_accept(rs[1])
            if m:
                return m
            f = struct.pack('<%dQ' % len(rs[0].words), *rs[0].words)
            code = struct.pack('<%dQ' % len(rs[1].words), *rs[1].words)
            return self.check(f, code, vals, (main + fill) // 3 * 32)
        return Case([Req(a), Req(b)], judge, a if not fill else a.replace('NOP;' * fill, '<%d times NOP;>' % fill, 1), tags=['rejected' if bad else 'accepted', 'groups%%8=%d' % (-(-n // 3) % 8)])

    def check(self, f, code, vals, entry):
        if len(f) < 256:
            return 'file of %d bytes is too short for a header' % len(f)
        local = -(-vals['local'] // 16) * 16
        shared = -(-vals['shared'] // 256) * 256
        padded = -(-len(code) // 256) * 256
        want = {'magic': (0, 0x48534B44), 'header size': (4, 24), 'control size': (8, 256), 'code size': (12, padded),
                'programs offset': (16, 24), 'number of programs': (20, 1), 'type': (24, 5), 'entry point': (28, entry),
                'num_gprs': (32, vals['num_gprs']), 'constbuf1 offset': (36, 0), 'constbuf1 size': (40, 0),
                'per-warp scratch': (44, local * 32 + 0x800), 'workgroup x': (48, vals['wg'][0]),
                'workgroup y': (52, vals['wg'][1]), 'workgroup z': (56, vals['wg'][2]), 'shared memory': (60, shared),
                'local memory': (64, local), 'negative local memory': (68, 0), 'call stack': (72, 0x800),
                'barriers': (76, 0)}
        for k, (at, v) in want.items():
            if u32(f, at) != v:
                return '%s is %#x, expected %#x' % (k, u32(f, at), v)
        if any(f[80:256]):
            return 'unused header bytes are not zero'
        if u32(f, 8) + u32(f, 12) != len(f):
            return 'control size %d + code size %d do not make up the file (%d bytes)' % (u32(f, 8), u32(f, 12), len(f))
        sec = f[256:]
        if sec[:len(code)] != code:
            return 'the code section is not the raw program'
        if any(sec[len(code):]):
            return 'the padding after the code is not zero'


ARGWORDS = ['compute', 'vertex', 'fragment', 'geometry', 'tess_control', 'tess_eval', 'hull', 'domain', 'pixel', 'Compute', 'comput',
            'computed', 'foo', 'R0', 'P0', '1.5', '-', '+', '@', ',', ';', '[', 'NOP;', '0x', 'main:', '.', '.type', 'c', '!P0',
            'RZ', '5']
DIRS = ['.dksh', '.type', '.num_gprs', '.workgroup_size', '.shared_memory', '.local_memory']
ODD = ['.dksH', '.Type', '.num_gpr', '.num_gprs_', '.workgroup', '.sharedmemory', '.entrypoint', '.', '..', '.text', '.global',
       '.local', '.dksh:', '.NOP', '.shared', '.num_barriers', '.align', '.workgroup_sizes', '.2D', '.0', '.NUM_GPRS', '.Dksh', '.DKSH', '.TYPE', '.Local_memory', '.Workgroup_Size', '.shared_Memory', '.num_gprS']
LIMIT = {'.num_gprs': 255, '.workgroup_size': model.I32_MAX, '.shared_memory': model.I32_MAX - 255,
         '.local_memory': model.LOCAL_MAX}


class C10(Prop):
    id = 'C10'
    quick, thorough = 150000, 2000000
    rule = ('one case is a program of 0-8 statements, labels (main among them, or not) and 1-6 directive lines, legal or with '
            'wrong, missing, extra, split or out-of-range arguments; every case is non-trivial; distinct = distinct source text')
    assumptions = ['a directive repeated with another value: the last one counts', 'graphics program types cannot be written (the '
                   'header writer is not implemented) and are rejected', 'value limits: 255 registers, 32-bit fields']

    def gen(self, g):
        g.scope = 'c10'
        lines = []
        ok_bias = g.pick(3, 'bias')
        typed = False
        for _ in g.many(1, 6, avg=3):
            d, isbad = self.directive(g, ok_bias == 2, typed)
            if d.split() and d.split()[0] in ('.dksh', '.type'):
                typed = True
            lines.append(('d', d))
        stm = []
        n = len([0 for _ in g.many(0, 8, avg=3)])
        free = list(NEARLY[:1 + g.pick(len(NEARLY), 'nearly')])
        main = g.pick(n + 2, None)
        if g.pick(2, 'aligned'):
            main = main // 3 * 3
        for i in range(n):
            if i == main:
                stm.append(('l', 'main:'))
            elif g.pick(16, 'near') == 15 and free:
                stm.append(('l', free.pop() + ':'))
            s = gen_stmt(g, address(i), {}, PLAIN)
            stm.append(('s', render(s.toks)))
        if main == n:
            stm.append(('l', 'main:'))
        # merge, keeping the order of each
        out = []
        mode = g.pick(3, 'merge')
        if mode == 0:
            out = lines + stm
        else:
            a, b = list(lines), list(stm)
            while a or b:
                out.append(a.pop(0) if a and (not b or g.pick(2, 'mg')) else b.pop(0))
        text = ''
        for k, t in out:
            if k == 'd':
                text += ('', '', ' ', '\t')[g.pick(4, 'ind')] + t + ('\n', '\n', '\r\n', ' \n', '\n\n')[g.pick(5, 'eol')]
            elif k == 'l':
                text += t + ('\n', '\n\n', '\r\n')[g.pick(3, 'lsep')]
            else:
                text += t + '\n'
        if g.pick(12, 'noeol') == 11:
            text = text.rstrip('\n')
        words, p = try_assemble(text)
        quirk = words is not None and p.quirk

        def judge(rs):
            if quirk:
                return None
            if words is None:
                return must_reject(rs[0], str(p))
            return must_accept(rs[0]) or same_words(rs[0].words, words)
        return Case([Req(text)], judge, text, tags=['accepted' if words is not None else 'rejected: ' + str(p)])

    def directive(self, g, all_ok, typed):
        k = g.pick(12, 'dk')
        if all_ok or k < 7:
            d = DIRS[g.pick(6, 'dir')]
            if typed and d in ('.dksh', '.type') and (all_ok or g.pick(3, 'second')):
                d = DIRS[2 + g.pick(4, 'dir4')]
            if d in ('.dksh', '.type'):
                t = 'compute' if all_ok or g.pick(3, 'tk') else ARGWORDS[g.pick(9, 'tw')]
                return d + self.sp(g) + t, False
            cnt = 3 if d == '.workgroup_size' else 1
            args = [spell_int(g, pick_int(g, 0, LIMIT[d], d)) for _ in range(cnt)]
            return d + ''.join(self.sp(g) + a for a in args), False
        d = DIRS[g.pick(6, 'bdir')]
        cnt = 3 if d == '.workgroup_size' else 1
        ints = [str(pick_int(g, 0, 300, 'small')) for _ in range(cnt)]
        args = ['compute'] if d in ('.dksh', '.type') else ints
        if k == 7:
            d = ODD[g.pick(len(ODD), 'odd')]
            args = args[:g.pick(len(args) + 1, 'oddn')]
        elif k == 8 and d in LIMIT:
            v = outside_int(g, 0, LIMIT[d], 'dout')
            args[g.pick(cnt, None)] = spell_int(g, v)
        elif k == 9:
            args[g.pick(len(args), None)] = ARGWORDS[g.pick(len(ARGWORDS), 'argw')]
        elif k == 10:
            if g.pick(2, 'more'):
                args.append((ARGWORDS + ints)[g.pick(len(ARGWORDS) + len(ints), 'argx')])
            else:
                args.pop()
        else:
            # split over lines, or glued together
            j = g.pick(len(args), None)
            if g.pick(2, 'split'):
                args[j] = '\n' + args[j]
            else:
                args[j] += ' NOP;'
        return d + ''.join(self.sp(g) + a for a in args), True

    def sp(self, g):
        return (' ', ' ', '  ', '\t')[g.pick(4, 'sp')]
