"""C12 C13 C14: what happens to text that is not a legal program."""
import os
import re
import shutil
import subprocess
import sys

from .common import *      # noqa: F401,F403
from .common import (Case, Prop, Req, FORMS, BY_MNEMONIC, IntVal, address, build_stmt, gen_program, gen_stmt, gen_values,
                     hexs, inner, int_elems, must_accept, must_reject, outside_int, pick_form, pick_int, render,
                     same_words, spell_int, try_assemble, model)
from .. import build
from ..engine import Worker
from .mutate import mutate, WORDS, MODS
from .fuzz import Fuzzer
from .relations import CONTEXT_FORMS, spliced


class C12(Prop):
    id = 'C12'
    quick, thorough = 240000, 4000000
    rule = ('one case is a short program in which one statement was mutated token by token or character by character (1-3 '
            'mutations) or put together from operands of several legal ones, or a random sequence of tokens; the reference model says whether it is still legal; non-trivial '
            'when it is not; distinct = distinct source text')
    assumptions = ['the reference model decides legality (265 forms, token for token); texts whose status it leaves open '
                   '(duplicate labels, BRA with a lone comma, label tokens that are not names) are skipped and counted']

    def gen(self, g):
        g.scope = 'c12'
        k = g.pick(12, 'how')
        names = ['soup']
        if k >= 10:
            f = pick_form(g, CONTEXT_FORMS if k == 11 else None)
            s = build_stmt(f, spliced(g, f)[1])
            names = ['splice']
            if g.chance(1, 3, 'both'):
                g.scope = 'c12m'
                names += mutate(g, s)
            text = render(s.toks)
        elif k == 9:
            toks = []
            g.scope = 'soup'
            for _ in g.many(1, 14, avg=6):
                c = g.pick(6, 'sk')
                if c == 0:
                    toks.append(sorted(BY_MNEMONIC)[g.pick(len(BY_MNEMONIC), 'mn')])
                elif c == 1:
                    toks.append(MODS[g.pick(len(MODS), 'mod')])
                elif c == 2:
                    toks.append(('R0', 'R1', 'RZ', 'P0', '0x1', ',', ';')[g.pick(7, 'common')])
                elif c == 3:
                    toks.append(',')
                else:
                    toks.append(WORDS[g.pick(len(WORDS), 'word')])
            toks.append(';')
            text = render(toks, g, 1)
        else:
            s = gen_stmt(g)
            g.scope = 'c12m'
            names = mutate(g, s)
            if k == 8:
                # glue the tokens without the blanks they need
                text = ''.join(s.toks)
                names = names + ['glued']
            else:
                text = render(s.toks, g, 1 if k == 7 else 0)
        before = g.pick(8, 'before')
        before = before if before < 4 else 0
        after = g.pick(4, 'after') if g.pick(2, 'hasafter') else 0
        text = 'NOP;\n' * before + text + '\n' + 'NOP;\n' * after
        words, p = try_assemble(text)
        if words is None:
            return Case([Req(text)], lambda rs: must_reject(rs[0], str(p)), text, tags=['rejected'] + names)
        if p.quirk:
            return Case([Req(text)], lambda rs: None, text, nontrivial=False, tags=['unspecified: ' + p.quirk])
        return Case([Req(text)], lambda rs: must_accept(rs[0]) or same_words(rs[0].words, words), text, nontrivial=False,
                    tags=['still legal'])

    def extra(self, tier, seed):
        """Texts found by coverage-guided search, judged by the same model."""
        runs = 60000 if tier == 'quick' else 3000000
        f = Fuzzer(seed, runs, max_time=60 if tier == 'quick' else 1200)
        corpus, crashes, stats = f.run(minimise=False)
        w = Worker(build.worker(self.flavour), self.cpu, self.mem_mb)
        fail = None
        n = 0
        legal = 0
        try:
            for i in range(0, len(corpus), 200):
                part = [c.decode('latin-1') for c in corpus[i:i + 200]]
                rs = w.run([Req(t) for t in part])
                for t, r in zip(part, rs):
                    msg = self.judge_text(t, r)
                    n += 1
                    legal += r.ok
                    if msg and not fail:
                        again = [self.judge_text(t, w.run([Req(t)])[0]) for _ in range(3)]
                        if all(again):
                            t = self.reduce(w, t)
                            fail = {'property': self.id, 'message': self.judge_text(t, w.run([Req(t)])[0]), 'sample': t,
                                    'seed': seed, 'choices': [], 'text': t}
        finally:
            w.stop()
        stats.update({'corpus texts judged by the model': n, 'of these assembled': legal})
        return n, fail, stats

    def judge_text(self, text, r):
        words, p = try_assemble(text)
        if words is None:
            return must_reject(r, str(p))
        if p.quirk:
            return None
        return must_accept(r) or same_words(r.words, words)

    def reduce(self, w, t):
        """Greedy deletion of characters while the disagreement stays."""
        size = max(1, len(t) // 2)
        while size:
            i = 0
            while i < len(t):
                c = t[:i] + t[i + size:]
                if self.judge_text(c, w.run([Req(c)])[0]):
                    t = c
                else:
                    i += size
            size //= 2
        return t

    def replay_text(self, ctx, text):
        return self.judge_text(text, ctx.worker.run([Req(text)])[0])


def crash_message(r):
    if r.ok or r.clean_error:
        return None
    return 'neither a result nor a clean error: ' + r.describe()[-3000:]


BYTES = bytes(range(256))
FRAGS = [b'R', b'RZ', b'R999999999999999999999', b'P', b'!', b'!P', b'!P9', b'@', b'@!', b'.', b'..', b':', b'::', b'foo:', b'0x', b'0',
         b'-', b'+', b'+-', b'1.', b'1..', b'-1.5.5', b'1.5e9', b'0x1.8', b'9' * 400, b'1.' + b'9' * 900, b'0' * 300, b'-0', b'0D', b'1D',
         b'+D', b'-D', b';', b';;', b',', b'[', b']', b'c[', b'c[0', b'c[0]', b'c[0][', b'|', b'||', b'~', b'~~', b'\0', b'\xff', b'\x80',
         b'\r', b'\t', b'\n', b'\v', b'\f', b'\x1b[31m', b'%s%n%d', b'.dksh', b'.dksh compute\nmain:\n', b'.type', b'.type 5', b'.type 1.5',
         b'.type ;', b'.num_gprs', b'.num_gprs 999999999999', b'.workgroup_size 1 2', b'.workgroup_size 4294967297 1 1',
         b'.shared_memory 2147483647\n', b'.local_memory 2147483647\n', b'.local_memory -1\n', b'.foo\n', b'INF', b'-INF', b'QNAN', b'CC',
         b'CC.', b'.reuse', b'BRA', b'BRA foo', b'BRA 0x7fffffffffffffff', b'BRA -0x8000000000000000', b'99999999999999999999.0',
         b'0.' + b'0' * 400 + b'1', b'NOP;', b'NOP', b'@P0 NOP;', b'S2R R0, 1.5;', b'S2R R0, [;', b'BRA 1.5;', b'main:', b'main:\n' * 3]


class C13(Prop):
    id = 'C13'
    flavour = 'asan'
    quick, thorough = 60000, 1200000
    cpu, mem_mb = 30, 0
    quick_cap = 240
    rule = ('one case is one byte string given to the assembler built with address and undefined-behaviour sanitizers: random '
            'bytes, fragments, mutated programs, legal programs, very long tokens, lines, literals and label lists; non-trivial '
            'when it has at least one token; distinct = distinct text. Additionally a libFuzzer campaign (coverage guided, '
            'same sanitizers); what it finds is confirmed on the separate worker before it counts')
    assumptions = ['a case that uses more than 30 s of CPU counts as a hang', 'memory use is not limited',
                   'sanitizers report undefined behaviour of the kinds they know']

    def gen(self, g):
        g.scope = 'c13'
        k = g.pick(12, 'how')
        if k == 0:
            data = bytes(g.pick(256, None) for _ in g.many(0, 60, avg=20))
        elif k <= 3:
            data = b''
            for _ in g.many(1, 12, avg=5):
                data += FRAGS[g.pick(len(FRAGS), 'frag')] + (b'', b' ', b'\n')[g.pick(3, 'fsep')]
        elif k == 4:
            data = self.long(g)
        elif k <= 6:
            s = gen_stmt(g)
            g.scope = 'c13m'
            mutate(g, s, 1, 4)
            data = render(s.toks, g, 1).encode('latin-1')
        else:
            prog, tail, _ = gen_program(g, 1, 8, 3)
            from ..gen import render_program
            data = render_program(prog, tail, g, 2).encode('latin-1')
            g.scope = 'c13b'
            if k < 11:
                data = bytearray(data)
                for _ in g.many(1, 6, avg=2):
                    if not data:
                        break
                    i = g.pick(len(data), None)
                    m = g.pick(6, 'bm')
                    if m == 0:
                        data[i] = g.pick(256, 'byte')
                    elif m == 1:
                        del data[i]
                    elif m == 2:
                        data[i:i] = FRAGS[g.pick(len(FRAGS), 'frag')]
                    elif m == 3:
                        del data[i:]
                    elif m == 4:
                        j = g.pick(len(data), None)
                        data[i:i] = data[min(i, j):max(i, j)]
                    else:
                        data[i] ^= 1 << g.pick(8, 'bit')
                data = bytes(data)
        name = FILES[g.pick(len(FILES), 'fname')]
        return Case([Req(data, file=name)], lambda rs: crash_message(rs[0]), data.decode('latin-1')[:4000],
                    key=repr(data), nontrivial=len(data.strip()) > 0, tags=['kind:%d' % k])

    def long(self, g):
        n = (100, 1000, 5000, 70000)[g.pick(4, 'len')]
        k = g.pick(14, 'lk')
        return [b'A' * n + b';', b'R' + b'1' * n, b'P' * n, b'9' * n, b'0x' + b'f' * n, b'1.' + b'3' * n, b'\n' * n + b'NOP;',
                b' ' * n, b'a: ' * n, b''.join(b'l%d:\n' % i for i in range(n // 4)) + b'BRA l1;', b';' * n, b'NOP;' * (n // 4),
                b'MOV R0,' + b'[' * n, b'NOP' + b' @DEP 1' * n][k]

    def huge(self):
        """Inputs of a few megabytes, one of each shape."""
        n = 1 << 18
        return {'instructions': b'NOP;\n' * n, 'instructions on one line': b'NOP;' * n, 'blanks': b' ' * (8 * n) + b'NOP;',
                'lines': b'\n' * (8 * n) + b'NOP;', 'an error after many lines': b'\n' * (4 * n) + b'NOP R0;',
                'an error after many instructions': b'NOP;\n' * n + b'MOV R0, R1',
                'a long name': b'x' * (12 * n), 'a long statement': b'MOV ' + b'R0, ' * (2 * n) + b';', 'a long number': b'MOV32I R0, ' + b'7' * (8 * n) + b';',
                'a long fraction': b'FADD R0, R1, 0.' + b'1' * (4 * n) + b';', 'a long fraction with an exponent beyond all': b'FADD R0, R1, ' + b'1' * n + b'.0;',
                'labels': b''.join(b'l%d:\n' % i for i in range(n)) + b'NOP;', 'directives': b'.num_gprs 8\n' * (n // 2), 'a long label': b'a' * (4 * n) + b':\nNOP;',
                'semicolons': b';' * (4 * n), 'brackets': b'LD R0, ' + b'[' * (4 * n), 'guards': b'@P0 ' * n,
                'annotations': b'NOP ' + b'@Y ' * n + b';', 'modifiers': b'IADD' + b'.X' * n + b' R0, R1, R2;', 'any bytes': bytes(range(1, 256)) * (n // 64)}

    def extra(self, tier, seed):
        # very large inputs, on the plain build (usual stack size) and the sanitized one
        huge = self.huge()
        for flavour in ('plain', self.flavour):
            w = Worker(build.worker(flavour), 120, 0)
            for name, data in huge.items():
                msg = crash_message(w.run([Req(data)])[0])
                if msg:
                    w.stop()
                    return 0, {'property': self.id, 'message': msg[-2000:], 'sample': 'very large input: ' + name, 'seed': seed,
                               'choices': []}, {'very large inputs': list(huge)}
            w.stop()
        runs = 150000 if tier == 'quick' else 20000000
        f = Fuzzer(seed, runs, max_time=90 if tier == 'quick' else 2400)
        corpus, crashes, stats = f.run()
        w = Worker(build.worker(self.flavour), self.cpu, self.mem_mb)
        fail = self.builds_agree(w, corpus, seed, stats)
        for data in crashes:
            msgs = [crash_message(w.run([Req(data)])[0]) for _ in range(3)]
            if all(msgs):
                t = data.decode('latin-1')
                fail = {'property': self.id, 'message': msgs[0], 'sample': t, 'seed': seed, 'choices': [], 'text': t}
                break
            stats['crashes of the fuzz target not confirmed on the worker'] = stats.get(
                'crashes of the fuzz target not confirmed on the worker', 0) + 1
        w.stop()
        stats['very large inputs'] = list(huge)
        return stats['executions'] + 2 * len(huge), fail, stats

    def builds_agree(self, w, corpus, seed, stats):
        """What a text gives must not depend on compiler flags or on what unwritten memory holds: if it does, something read
        what it must not read (undefined behaviour the sanitizers do not know)."""
        plain = Worker(build.worker('plain'), self.cpu, self.mem_mb)
        texts = [t for t in corpus if len(t) < 100000] + [x + y for x in FRAGS for y in (b'', b';\n', b' R0;\n')]
        texts += [b'MOV R0, ' + x + b';' for x in FRAGS]
        fail = None
        try:
            for i in range(0, len(texts), 100):
                part = texts[i:i + 100]
                for t, msg in zip(part, self.differ(w, plain, part)):
                    if msg and all(self.differ(w, plain, [t])[0] for _ in range(3)):
                        t = self.smaller(w, plain, t).decode('latin-1')
                        return {'property': self.id, 'message': self.differ(w, plain, [t.encode('latin-1')])[0] or msg, 'sample': t,
                                'seed': seed, 'choices': [], 'text': t}
        finally:
            plain.stop()
            stats['texts with the same outcome in two builds and two states of unwritten memory'] = len(texts)
        return None

    def differ(self, w, plain, texts):
        a = w.run([Req(t) for t in texts])
        b = plain.run([Req(t, param=0x55) for t in texts])
        c = plain.run([Req(t, param=0x22aa) for t in texts])
        out = []
        for rs in zip(a, b, c):
            msg = next(filter(None, map(crash_message, rs)), None)
            if not msg:
                seen = [(r.ok, r.words if r.ok else None, None if r.ok else r.err) for r in rs]
                for x in seen[1:]:
                    if x != seen[0]:
                        msg = 'the outcome depends on undefined behaviour: %r with the sanitizers, %r without' % (
                            describe(seen[0]), describe(x))
            out.append(msg)
        return out

    def smaller(self, w, plain, t):
        size = max(1, len(t) // 2)
        while size:
            i = 0
            while i < len(t):
                c = t[:i] + t[i + size:]
                if self.differ(w, plain, [c])[0]:
                    t = c
                else:
                    i += size
            size //= 2
        return t

    def replay_text(self, ctx, text):
        msg = crash_message(ctx.worker.run([Req(text)])[0])
        if not msg:
            plain = Worker(build.worker('plain'), self.cpu, self.mem_mb)
            msg = self.differ(ctx.worker, plain, [text.encode('latin-1')])[0]
            plain.stop()
        return msg


def describe(x):
    return ('words ' + ' '.join('%016x' % w for w in x[1][:8])) if x[0] else x[2].decode('utf8', 'replace')[:300]


ANSI = re.compile(r'\x1b\[[0-9;]*m')
FILES = ('file', 'a.asm', 'dir/prog.nxas', 'with space.s', '%s%n%d.s', 'x:y', 'a', '../up', 'no ext', '100%', '-', 'caf\u00e9.s', 'long/' * 400 + 'x.s')


class C14(Prop):
    id = 'C14'
    quick, thorough = 150000, 2000000
    rule = ('one case is a program of legal statements, labels, directives and blank lines in any layout with one injected '
            'error of a known kind at a known token; every case is non-trivial; distinct = distinct source text')
    assumptions = ['for error kinds where more than one token can be blamed (wrong operand, missing punctuation) the position '
                   'must be that of a token of the offending statement or the one right after it']

    def gen(self, g):
        g.scope = 'c14'
        fname = FILES[g.pick(len(FILES), 'fname')]
        pre = ''
        n = 0
        for _ in g.many(0, 6, avg=2):
            g.scope = 'c14'
            k = g.pick(8, 'pre')
            if k == 0:
                pre += 'l%d:' % n + ('\n', ' ', '\n\n')[g.pick(3, 'lsep')]
                if not pre.endswith('\n'):
                    pre += 'NOP;\n'
                    n += 1
            elif k == 1:
                pre += ('\n', '\r\n', '  \n', '\t\n\n')[g.pick(4, 'blank')]
            elif k == 2 and (not pre or pre.endswith('\n')):
                pre += ('.num_gprs 5', '.shared_memory 0x40', '.workgroup_size 1 2 3', '.local_memory 7')[g.pick(4, 'dir')] + '\n'
            else:
                s = gen_stmt(g, address(n), {}, sched=True)
                pre += render(s.toks, g, 2 if g.pick(3, 'lay') == 2 else 0) + ('\n', ' ', '\n\t', '\t\t', '\r\n')[g.pick(5, 'ssep')]
                n += 1
            if model.find_labels(pre)[1]:
                pre = ''
                n = 0
        g.scope = 'c14'
        kind, toks, at = self.broken(g, address(n))
        if kind.startswith('directive') and pre and not pre.endswith('\n'):
            pre += '\n'
        pre += ('', ' ', '\t', '\n', '   \t')[g.pick(5, 'indent')]
        far = g.pick(400, 'far') - 300
        if far >= 97:
            pre += ('\n', ' ', '\t')[far - 97] * (100 + g.pick(70000, 'farn'))
        offs = []
        if kind.startswith('directive'):
            text = render(toks, None, 0, offs)
        else:
            text = render(toks, g, 2 if g.pick(3, 'lay2') == 2 else 0, offs)
        tail = ''
        if g.pick(2, 'tail'):
            tail = '\n' + ('NOP;\n', 'foo:\nNOP;', 'BRA 0;', '$$$;', '.unknown\n', '0x;')[g.pick(6, 'tk')]
        full = pre + text + tail
        words, p = try_assemble(full)
        if words is not None:
            # the change left a legal statement
            return Case([Req(full, file=fname)], lambda rs: None, full, nontrivial=False, tags=['still legal'])
        base = len(pre)
        places = [model.advance(full, 0, base + o, 0, 0) for o in offs]
        if at is None:
            # any token of the statement, or what follows it
            stmt_end = model.advance(full, 0, base + len(text), 0, 0)
            pos = model.positions(full, base)
            inside = [q for q in pos if q < stmt_end]
            allowed = [(l + 1, c + 1) for l, c in inside + [q for q in pos if q >= stmt_end][:1]]
        else:
            allowed = [(l + 1, c + 1) for l, c in (places[i] for i in (at if isinstance(at, list) else [at]))]

        def judge(rs):
            r = rs[0]
            if r.ok:
                return 'accepted although it must be rejected (%s)' % kind
            if not r.clean_error:
                return 'not a clean error: ' + r.describe()[:1500]
            if r.out:
                return 'printed on standard output: %r' % r.out[:200]
            e = ANSI.sub('', r.err.decode('utf8', 'replace'))
            prefix = fname + ':'
            if not e.startswith(prefix):
                return 'the message does not start with the file name: %r' % e[:300]
            m = re.match(r'(\d+):(\d+):? *error: *(.*)', e[len(prefix):], re.S)
            if not m:
                return 'the message does not give a line and column: %r' % e[:300]
            if not m.group(3).strip():
                return 'the message is empty: %r' % e[:300]
            pos = (int(m.group(1)), int(m.group(2)))
            if pos not in allowed:
                return 'error (%s) reported at %d:%d, but it is at %s: %r' % (
                    kind, pos[0], pos[1], ' or '.join('%d:%d' % a for a in allowed[:6]), e[:300])
        return Case([Req(full, file=fname)], judge, full, tags=[kind] + (['far down or right'] if far >= 97 else []))

    def broken(self, g, pc):
        """(kind, tokens, index of the token at fault, or of those that can be blamed, or None)."""
        k = g.pick(12, 'kind')
        if k == 0:
            s = gen_stmt(g, pc)
            i = 2 * s.explicit_guard
            m = ('NOPE', 'nop', 'MOVE', 'X', 'FADDD', 'Rfoo', 'Pfoo', 'IADD4', '2D', '_', '$', 'NOP:x', 'Mov')[g.pick(13, 'unk')]
            s.toks[i] = m
            return 'unknown mnemonic', s.toks, i
        if k == 1 or k == 2:
            # a token that cannot be read at all, in place of an operand
            bad = ('R256', 'R255', 'R99999999999999999999', 'RZZ', 'P7', 'P9', '!P8', '!', '!x', '0x', '08', '1z', '0x1g', '1.5x', '0x1.5',
                   '99999999999999999999', '1-2', '-0x8000000000000001', '1.5.', '0b2', 'RZ0', '5P', '12abx')[g.pick(23, 'lex')]
            for _ in range(6):
                s = gen_stmt(g, pc)
                cand = [i for i, t in enumerate(s.toks) if t[0] in 'RP!0123456789+-' and len(t) > 1 and i > 2 * s.explicit_guard]
                if cand:
                    i = cand[g.pick(len(cand), None)]
                    if bad == '1.5.':
                        bad = '1.5_'
                    s.toks[i] = bad
                    return 'unreadable token', s.toks, i
            return 'unknown mnemonic', ['NOPE', ';'], 0
        if k == 3 or k == 4:
            # an integer out of range
            f = pick_form(g, SIMPLE_INT)
            es = [e for e in f.elems if e.kind == 'int' and e.name != 'zero']
            e = es[g.pick(len(es), 'which')]
            vals = gen_values(g, f, pc)
            j = f.elems.index(e)
            v = outside_int(g, e.lo, e.hi, 'out')
            if abs(v) >= 1 << 63:
                v = (1 << 62) + 1
            vals[j] = IntVal.make(v, spell_int(g, v))
            before = sum(len(x.toks(y)) for x, y in zip(f.elems[:j], vals[:j]))
            s = build_stmt(f, vals)
            return 'integer out of range', s.toks, 1 + before
        if k == 5:
            f = pick_form(g, TARGET_FORMS)
            vals = gen_values(g, f, pc)
            j = [i for i, e in enumerate(f.elems) if e.kind == 'target'][0]
            if g.pick(2, 'tnum'):
                v = outside_int(g, pc + 8 - (1 << 23), pc + 8 + (1 << 23) - 1, 'out')
                vals[j] = ('num', IntVal.make(v if abs(v) < 1 << 63 else 1 << 40, spell_int(g, v if abs(v) < 1 << 63 else 1 << 40)))
                kind = 'target out of range'
            else:
                vals[j] = ('lab', ('nowhere', 'undefined_label', 'x1', 'L', 'main')[g.pick(5, 'und')])
                kind = 'undefined label'
            s = build_stmt(f, vals)
            return kind, s.toks, 1 + sum(len(x.toks(y)) for x, y in zip(f.elems[:j], vals[:j]))
        if k == 6:
            s = gen_stmt(g, pc, sched=False)
            i = len(s.toks) - 1
            w, hi = (('WAIT', 15), ('WB', 5), ('RB', 5), ('DEP', 5))[g.pick(4, 'ann')]
            v = outside_int(g, 0, hi, 'out')
            if abs(v) >= 1 << 63:
                v = -1
            s.toks[i:] = ['@', w, spell_int(g, v), ';']
            return 'annotation out of range', s.toks, i + 2
        if k == 7:
            d = g.pick(4, 'dk')
            if d == 0:
                return 'directive unknown', [('.foo', '.entry', '.num_gpr', '.x')[g.pick(4, 'dn')], '1'], 0
            if d == 1:
                v = outside_int(g, 0, 255, 'out')
                v = v if abs(v) < 1 << 63 else -5
                return 'directive value', ['.num_gprs', spell_int(g, v)], 1
            if d == 2:
                return 'directive type', [('.type', '.dksh')[g.pick(2, 'td')], ('foo', 'Compute', 'COMPUTE', 'x')[g.pick(4, 'tn')]], 1
            return 'directive argument', [('.num_gprs', '.shared_memory', '.local_memory')[g.pick(3, 'da')],
                                          ('R0', 'x', 'P0', ',')[g.pick(4, 'dw')]], 1
        if k == 8 or k == 9:
            # a bank or offset out of range or misaligned, or a number the precision cannot hold
            f = pick_form(g, VALUE_FORMS)
            es = [e for e in f.elems if can_be_outside(e)]
            e = es[g.pick(len(es), 'which')]
            g.outside = inner(e)
            vals = gen_values(g, f, pc)
            g.outside = None
            s = build_stmt(f, vals)
            j = f.elems.index(e)
            before = 1 + sum(len(x.toks(y)) for x, y in zip(f.elems[:j], vals[:j]))
            own = e.toks(vals[j])
            num = [i for i, t in enumerate(own) if t.lstrip('+-')[:1].isdigit()]
            val = vals[j][1] if e is not inner(e) else vals[j]
            if inner(e).kind == 'cbuf' and not isinstance(val, str):
                bank, off = int(val[0]), int(val[1])
                if 0 <= bank <= 31 and -32768 <= off <= 32767:
                    return 'misaligned offset', s.toks, [before + i for i in range(len(own))]
                return 'bank or offset out of range', s.toks, before + (num[0] if not 0 <= bank <= 31 else num[-1])
            return 'value of ' + inner(e).kind, s.toks, [before + i for i in num]
        if k == 10 and g.pick(2, 'again'):
            # an annotation that was given before
            s = gen_stmt(g, pc, sched=False)
            i = len(s.toks) - 1
            w = ('WAIT', 'WB', 'RB', 'DEP', 'Y', 'YIELD')[g.pick(6, 'ann')]
            v = [str(g.pick(6, 'annv'))] if w[0] != 'Y' else []
            mid = ['@', ('RB', 'WB', 'DEP', 'RB', 'WAIT', 'WB')[g.pick(6, 'annm') if w == 'DEP' else 0], '1'] if w in ('DEP', 'WB') and g.pick(2, 'mid') else []
            if mid and mid[1] == w:
                mid = []
            v2 = v if w == 'DEP' or not v else [str(g.pick(6, 'annv2'))]
            s.toks[i:] = ['@', w] + v + mid + ['@', ('Y', 'YIELD')[g.pick(2, 'y')] if w[0] == 'Y' else w] + v2 + [';']
            first = i + 2 + len(v) + len(mid)
            return 'annotation again', s.toks, list(range(first, first + 2 + len(v)))
        s = gen_stmt(g, pc)
        g.scope = 'c14m'
        if g.pick(3, 'multi'):
            mutate(g, s, 1, 1)
        else:
            mutate(g, s, 1, 3)
        toks = [x for t in s.toks for x in t.split()]
        # a mutation may end the statement early and start another one: keep to one statement
        if ';' in toks[:-1] or any(c in t and t != c for t in toks for c in ';') or '@' in toks[:-1] and toks.index('@') > 2:
            toks = [t for t in toks if ';' not in t and '@' not in t] + [';']
        return 'mutated', toks, None


SIMPLE_INT = [f for f in FORMS if any(e.kind == 'int' and e.name != 'zero' for e in f.elems)]
TARGET_FORMS = [f for f in FORMS if any(e.kind == 'target' for e in f.elems)]


def can_be_outside(e):
    i = inner(e)
    return i.kind == 'cbuf' or i.kind == 'mem' and has_number(i) or i.kind == 'float' and i.fmt in ('f20', 'f32')


VALUE_FORMS = [f for f in FORMS if any(can_be_outside(e) for e in f.elems)]
