"""C01 C02 C03 C05 C06 C07 C17 C18: what an accepted statement becomes."""
import random

from .common import *      # noqa: F401,F403
from .common import (Case, Place, Prop, Req, FORMS, PredVal, RegVal, IntVal, NOP_WORD, PAD_SCHED, address, build_stmt,
                     front, gen_guard, gen_program, gen_sched, gen_stmt, gen_values, hexs, inner, int_elems, must_accept,
                     must_reject, pick_form, render, render_program, same_words, sched_bits, slots, spell_int,
                     try_assemble, model, outside_int, M21)
from .. import build
from ..engine import G, Worker


class C01(Prop):
    id = 'C01'
    quick, thorough = 180000, 2500000
    rule = ('one case is a program of 1-14 statements drawn over all 265 forms (every form, keyword, register and '
            'predicate choice is swept as well as drawn at random); it counts when at least one statement has '
            'an operand or a modifier; distinct = distinct source text')
    assumptions = ['the reference encodings in pbt/isa.py are the Maxwell encodings (they reproduce all 1085 '
                   'accepting test vectors of the repository)', 'branch offsets are judged in C08 as well',
                   'a group is one control word followed by three instruction words (C07)']

    def gen(self, g):
        prog, tail, lab = gen_program(g, 1, 14, 7, labels=False)
        text = render_program(prog, tail, g, 1, fronts=True)
        words, p = try_assemble(text)
        if words is None:
            raise Discard('generator and model disagree: %s\n%s' % (p, text))
        quirk = p.quirk

        def judge(rs):
            if quirk:
                return None
            bad = must_accept(rs[0])
            if bad:
                return bad
            got = slots(rs[0].words)
            if got is None or len(got) < len(p.insns):
                return 'output is not made of complete groups: ' + hexs(rs[0].words)
            for (w, _), ins in zip(got, p.insns):
                if w != ins.word:
                    return 'instruction on line %d (%s) is %016x, expected %016x (differs in %016x)' % (
                        ins.line + 1, ins.form.mnemonic, w, ins.word, w ^ ins.word)
        # what unwritten memory and errno hold before the call does not matter
        soil = (0, 0xA5, 0xFF, 0x2201)[g.pick(4, 'soil')]
        return Case([Req(text, param=soil)], judge, text, nontrivial=any(len(s.toks) > 2 for _, s in prog),
                    tags=['form:' + s.form.mnemonic for _, s in prog])


INT_FORMS = [f for f in FORMS if int_elems(f)]


class C02(Prop):
    id = 'C02'
    quick, thorough = 250000, 3000000
    rule = ('one case is one statement with an integer operand (or scheduling count), alone or guarded, annotated and among other statements; half of the cases put one '
            'integer outside its range: one past a bound, a power of two away from a legal value, near 2^31, '
            '2^32, 2^63, 2^64 and beyond; every case is non-trivial; distinct = distinct source text')
    assumptions = ['operand ranges are those of the reference model (the field widths of the encoding)']

    def gen(self, g):
        g.scope = 'c02'
        kind = g.pick(12, 'kind')
        if kind == 11:
            return self.gen_sched(g)
        f = pick_form(g, INT_FORMS)
        es = int_elems(f)
        e = es[g.pick(len(es), 'which')]
        out = kind >= 5
        place = Place(g)
        if out:
            g.outside = inner(e)
        vals = gen_values(g, f, place.pc)
        g.outside = None
        text = place.text(g, place.stmt(g, f, vals).toks)
        words, judge = place.judge(text)
        return Case([Req(text)], judge, text, tags=['%s:%s' % ('out' if out else 'in', inner(e).name),
                                                    'accepted' if words is not None else 'rejected'])

    def gen_sched(self, g):
        word, hi = (('WAIT', 15), ('WB', 5), ('RB', 5), ('DEP', 5))[g.pick(4, 'sw')]
        if g.pick(2, 'sout'):
            v = outside_int(g, 0, hi, 'so')
        else:
            v = g.pick(hi + 1, 'si')
        return self.case('NOP @%s %s;' % (word, spell_int(g, v)), ['sched:' + word])

    def case(self, text, tags):
        words, p = try_assemble(text)
        tags = tags + ['accepted' if words is not None else 'rejected']
        if words is None:
            judge = lambda rs: must_reject(rs[0], str(p))
        elif p.quirk:
            judge = lambda rs: None
        else:
            def judge(rs):
                return must_accept(rs[0]) or same_words(rs[0].words, words)
        return Case([Req(text)], judge, text, tags=tags)


FLOAT_FORMS = [f for f in FORMS if any(inner(e).kind == 'float' for e in f.elems)]


class C03(Prop):
    id = 'C03'
    quick, thorough = 250000, 3000000
    rule = ('one case is one statement with a floating-point immediate (alone or guarded, annotated and among other statements); literals are decimal expansions around '
            'representable points of half, single and double precision (exact, tie, just above or below a tie, '
            'subnormal, overflow), short fractions, integers, signed zero, INF and QNAN; every case is '
            'non-trivial; distinct = distinct source text')
    assumptions = ['half-precision immediates are rounded from the literal\'s single-precision value',
                   'pbt/numfmt.py rounds rationals to IEEE formats exactly (independent of the C library)']

    def gen(self, g):
        g.scope = 'c03'
        out = g.chance(1, 10, 'out')
        f = pick_form(g, FLOAT_FORMS)
        es = [e for e in f.elems if inner(e).kind == 'float']
        e = es[g.pick(len(es), 'which')]
        if out:
            g.outside = inner(e)
        g.scope = 'c03' + inner(e).fmt
        vals = gen_values(g, f)
        g.outside = None
        place = Place(g)
        text = place.text(g, place.stmt(g, f, vals).toks)
        words, judge = place.judge(text)
        v = vals[f.elems.index(e)]
        v = v[1] if e is not inner(e) else v
        return Case([Req(text)], judge, text,
                    tags=['%s:%s' % (inner(e).fmt, v[0]), 'accepted' if words is not None else 'rejected'])


BAD_GUARDS = ['P7', 'P8', 'P9', '!P7', 'P', '!', '!!P0', 'R0', 'RZ', '0', '1', 'PX', 'P-1', 'P00', 'P10', 'PT0', 'CC',
              '!R0', '!0', 'PTT', 'P0.reuse', '-P0', '~P0', '|P0|', '[P0]', '@P0', 'P0,', 'P0;', '!PT1', 'P0x',
              '.P0', 'P0 P1', 'P0 @P1', '']


class C05(Prop):
    id = 'C05'
    quick, thorough = 150000, 1500000
    rule = ('one case is one statement (alone or among others) assembled without a guard and with one of the 16 guards (in any spelling) '
            'or a malformed one; distinct = distinct guarded source text')
    assumptions = []

    def gen(self, g):
        g.scope = 'c05'
        bad = g.chance(1, 5, 'bad')
        f = pick_form(g)
        place = Place(g)
        pre, post = ['\n'.join(render(x.toks) if x else 'NOP;' for x in xs) for xs in (place.before, place.after)]
        pre += '\n' if pre else ''
        pre += front(g, set(), 8)
        at = place.index // 3 * 4 + 1 + place.index % 3
        vals = gen_values(g, f, place.pc)
        groups, sv = gen_sched(g)
        plain = build_stmt(f, vals, None, 0, groups, sv)
        own = render(plain.toks) + '\n' + post
        base = pre + own
        p, why = try_assemble(base)
        if p is None:
            raise Discard('generator and model disagree: %s\n%s' % (why, base))
        quirk = why.quirk
        if bad:
            gt = BAD_GUARDS[g.pick(len(BAD_GUARDS), 'gbad')]
            text = pre + '@' + gt + (' ' if g.pick(2, 'gsp') or not gt else '\t') + own

            def judge(rs):
                m = None if quirk else must_accept(rs[0])
                return m or must_reject(rs[1], 'malformed guard')
            return Case([Req(base), Req(text)], judge, [base, text], tags=['malformed'])
        idx, neg = g.pick(8, 'gidx'), g.pick(2, 'gneg')
        sp = g.pick(4, 'gspell')
        name = ('T' if sp < 2 else 't') if idx == 7 else str(idx)
        gt = '@' + (' ' if g.pick(6, 'gsp0') == 5 else '') + ('!' if neg else '') + ('P' if sp % 2 == 0 else 'p') + name
        text = pre + gt + (' ', '  ', '\t', '\n')[g.pick(4, 'gsp1')] + own
        legal = not f.nopred or (idx == 7 and not neg)

        def judge(rs):
            if quirk:
                return None
            m = must_accept(rs[0])
            if m:
                return m
            if not legal:
                return must_reject(rs[1], f.mnemonic + ' cannot be predicated')
            m = must_accept(rs[1])
            if m:
                return m
            a, b = rs[0].words, rs[1].words
            if len(a) != len(b) or len(a) <= at:
                return 'output size changed with the guard'
            want = list(a)
            if a[at] >> 16 & 15 != 7:
                return 'without a guard the guard field is %x, not PT' % (a[at] >> 16 & 15)
            want[at] = a[at] & ~(15 << 16) | (idx | neg << 3) << 16
            return same_words(b, want)
        return Case([Req(base), Req(text)], judge, [base, text], tags=['legal' if legal else 'not predicable'])


    def extra(self, tier, seed):
        """Long programs: the guard of every statement is the one it has alone (PT when none is written)."""
        return long_programs(self, tier, seed, 'C05-big', lambda x: x[0] >> 16 & 15,
                             lambda rng: render(gen_stmt(G(rng=rng, rot={}), 8, {}, NOBRANCH, sched=False).toks), guards=True)


ANN = ('WAIT', 'WB', 'RB', 'DEP')


class C06(Prop):
    id = 'C06'
    quick, thorough = 100000, 1200000
    rule = ('one case is a program of 1-16 statements (one in 150: up to 3000, and a few of 65000-200000) with annotations in random order (or one such program with a '
            'repeated, unknown or out-of-range annotation); non-trivial when at least one statement carries an '
            'annotation or a reuse hint; distinct = distinct source text')
    assumptions = []

    def gen(self, g):
        g.scope = 'c06'
        bad = g.chance(1, 4, 'bad')
        prog, tail, lab = gen_program(g, 1, 16, 5, rich_sched=True, labels=False)
        g.scope = 'c06'
        if not bad and g.pick(150, 'long') == 149:
            # the same few statements many times (absolute targets would leave their range)
            base = [x for x in prog if not any(e.kind == 'target' for e in x[1].form.elems)] or [([], gen_stmt(g, 8, {}, NOBRANCH))]
            prog = []
            for _ in g.many(20, 3000, avg=600):
                prog.append(base[g.pick(len(base), None)])
        if bad:
            self.spoil(g, prog)
        text = render_program(prog, tail, g, 1, fronts=len(prog) < 50)
        words, p = try_assemble(text)

        def judge(rs):
            r = rs[0]
            if words is None:
                return must_reject(r, str(p))
            if p.quirk:
                return None
            m = must_accept(r)
            if m:
                return m
            if len(r.words) != len(words):
                return 'expected %d words, got %d' % (len(words), len(r.words))
            for i in range(0, len(words), 4):
                for s in range(3):
                    a, b = r.words[i] >> 21 * s & M21, words[i] >> 21 * s & M21
                    if a != b:
                        n = i // 4 * 3 + s
                        return 'scheduling bits of %s are %06x, expected %06x' % (
                            'instruction %d' % (n + 1) if n < len(p.insns) else 'padding slot %d' % s, a, b)
                if r.words[i] >> 63:
                    return 'control word %d has bit 63 set' % i
        return Case([Req(text)], judge, text, tags=['rejected' if words is None else 'accepted'],
                    nontrivial=any('@' in s.toks or '.reuse' in s.toks for _, s in prog))

    def extra(self, tier, seed):
        """A few very long programs of annotated statements."""
        return long_programs(self, tier, seed, 'C06-big', lambda x: x[1],
                             lambda rng: render(gen_stmt(G(rng=rng, rot={}), 8, {}, NOBRANCH, rich_sched=True).toks))

    def spoil(self, g, prog):
        s = prog[g.pick(len(prog), None)][1]
        t = s.toks
        assert t[-1] == ';'
        k = g.pick(6, 'spoil')
        word = ANN[g.pick(4, 'sw')]
        hi = 15 if word == 'WAIT' else 5
        if k == 0:                      # twice
            v = str(g.pick(hi + 1, 'sv'))
            v2 = v if word == 'DEP' else str(g.pick(hi + 1, 'sv2'))
            new = ['@', word, v, '@', word, v2]
        elif k == 1:
            y = ('Y', 'YIELD')
            new = ['@', y[g.pick(2, 'y1')], '@', y[g.pick(2, 'y2')]]
        elif k == 2:
            new = ['@', word, spell_int(g, outside_int(g, 0, hi, 'so'))]
        elif k == 3:
            new = ['@', ('wait', 'STALL', 'W', 'YIELDS', 'WBB', 'R', 'DEPS', 'P0', '0', ',', 'WAITS', 'D')[
                g.pick(12, 'unk')], '1']
        elif k == 4:
            new = ['@', word, ('R0', 'P0', '1.0', 'x', '-', '@', ',', '')[g.pick(8, 'arg')]]
            new = [x for x in new if x]
        else:
            new = [('@', '@ @', '@WAIT', '@WB', 'WAIT 1', '1', ', @Y', '@Y,')[g.pick(8, 'frag')]]
        # inside the annotations, or after them
        t[-1:] = new + [';']


NOBRANCH = [f for f in FORMS if not any(e.kind == 'target' for e in f.elems)]


def long_programs(prop, tier, seed, name, part, stmt, guards=False):
    """Programs of many thousand statements: `part` of every slot is what the statement has alone."""
    rng = random.Random('%s-%d' % (name, seed))
    w = Worker(build.worker(prop.flavour), 120, 0)
    # with one and with two padding slots
    sizes = [65533 + rng.randrange(6), 180001 + 3 * rng.randrange(9), 98000 + 3 * rng.randrange(9)]
    if tier != 'quick':
        sizes += [rng.randrange(1000, 300000) for _ in range(20)]
    fail = None
    for n in sizes:
        base = [stmt(rng) for _ in range(5)]
        if guards:
            base = [('', '@PT ', '@P0 ', '@!P6 ', '@!PT ')[i] + b.split(' ', 1)[1] if b.startswith('@') else
                    ('', '@PT ', '@P0 ', '@!P6 ', '@!PT ')[i] + b for i, b in enumerate(base)]
        order = [rng.randrange(5) for _ in range(n)]
        text = ''.join(base[i] + '\n' for i in order)
        rs = w.run([Req(base, kind=1), Req(text)])
        msg = must_accept(rs[0]) or must_accept(rs[1])
        if not msg:
            alone = [(r[1], r[0] & M21) for r in rs[0].results]
            if guards:
                alone = [(g << 16, 0) for g in (7, 7, 0, 14, 15)]
            got = slots(rs[1].words)
            if got is None or len(got) != -(-n // 3) * 3:
                msg = '%d statements gave %d words' % (n, len(rs[1].words))
            else:
                for i, x in enumerate(got):
                    want = alone[order[i]] if i < n else (NOP_WORD, PAD_SCHED)
                    if part(x) != part(want):
                        msg = 'statement %d of %d (%s) is %016x/%06x, alone %016x/%06x' % (
                            (i + 1, n, base[order[i]] if i < n else 'padding') + x + want)
                        break
        if msg:
            fail = {'property': prop.id, 'message': msg, 'sample': {'statements': base, 'count': n}, 'seed': seed,
                    'choices': []}
            break
    w.stop()
    return len(sizes), fail, {'programs of this many statements': sizes}


class C07(Prop):
    id = 'C07'
    quick, thorough = 60000, 300000
    rule = ('one case is a program of 0-60 statements (sometimes several hundred) and each of its statements alone, '
            'assembled in one process, and a few programs of 65000-200000 statements; non-trivial when the program has at least two statements; distinct = distinct '
            'source text')
    assumptions = ['statements with a branch target are compared except for their 24-bit offset']
    batch = 16

    def gen(self, g):
        g.scope = 'c07'
        mode = g.pick(40, 'mode')
        if mode == 0:
            text = self.empty(g)
            return Case([Req(text)], lambda rs: must_accept(rs[0]) or same_words(rs[0].words, []), text,
                        nontrivial=False, tags=['empty'])
        hi, avg = (600, 300) if mode == 1 else (60, 20) if mode < 10 else (9, 5)
        if mode == 1:
            # few distinct statements, many times
            base, _, _ = gen_program(g, 2, 6, 4, labels=False)
            prog = []
            for i in g.many(10, hi, avg=avg):
                prog.append(base[g.pick(len(base), None)])
        else:
            prog, _, _ = gen_program(g, 1, hi, avg, labels=False)
        prog = [([], s) for _, s in prog]
        # number targets become relative to the position; keep them near 0 so that they are legal anywhere
        for _, s in prog:
            for e, v in zip(s.form.elems, s.values):
                if e.kind == 'target' and v[0] == 'num':
                    near = '0x%x' % (abs(int(v[1])) % 0x10000)
                    s.toks[:] = [near if t == v[1].spelled() else t for t in s.toks]
        lines = [render(s.toks) for _, s in prog]
        # labels, directives and blank lines in between, and several statements on a line
        used = set()
        text = ''
        dense = mode % 3 == 2
        for l in lines:
            if mode != 1 and (not text or text.endswith('\n')):
                text += front(g, used, 8)
            text += l + ('\n' if not dense else ('\n', ' ', '', '\t')[g.pick(4, 'ssep')])
        uniq = sorted(set(lines))
        branchy = {l for l, (_, s) in zip(lines, prog) if any(e.kind == 'target' for e in s.form.elems)}
        n = len(lines)

        def judge(rs):
            m = must_accept(rs[0]) or must_accept(rs[1])
            if m:
                return m
            alone = {}
            for l, w in zip(uniq, rs[1].results):
                if len(w) != 4:
                    return '%r alone gives %d words' % (l, len(w))
                alone[l] = (w[1], w[0] & M21)
                if w[2:] != [NOP_WORD] * 2 or w[0] >> 21 != PAD_SCHED | PAD_SCHED << 21:
                    return '%r alone is not padded with NOPs: %s' % (l, hexs(w))
            got = slots(rs[0].words)
            if got is None or len(got) != -(-n // 3) * 3:
                return '%d statements gave %d words' % (n, len(rs[0].words))
            for i, (w, sch) in enumerate(got):
                if i >= n:
                    if w != NOP_WORD or sch != PAD_SCHED:
                        return 'padding slot %d holds %016x / %06x' % (i, w, sch)
                    continue
                aw, asch = alone[lines[i]]
                mask = ~(0xFFFFFF << 20) if lines[i] in branchy else -1
                if w & mask != aw & mask or sch != asch:
                    return 'statement %d (%s) is %016x/%06x in the program and %016x/%06x alone' % (
                        i + 1, lines[i], w, sch, aw, asch)
            if any(w >> 63 for w in rs[0].words[::4]):
                return 'control word with bit 63 set'
        return Case([Req(text), Req(uniq, kind=1)], judge, text, nontrivial=n > 1, tags=['n%%3=%d' % (n % 3)])

    def extra(self, tier, seed):
        """A few very long programs of known statements."""
        return long_programs(self, tier, seed, 'C07-big', lambda x: x,
                             lambda rng: render(gen_stmt(G(rng=rng, rot={}), 8, {}, NOBRANCH).toks))

    def empty(self, g):
        out = []
        long = g.pick(4, 'elong') == 3
        for i in g.many(0, 80 if long else 6, avg=40 if long else 2):
            out.append((' ', '\n', '\t', '\r\n', 'foo%d:\n' % i, 'a%d:\nb%d:\n' % (i, i), '\n\n', ' ' * 100, '\n' * 50)[g.pick(9, 'e')])
        t = ''.join(out)
        return '' if model.find_labels(t)[1] else t


MEM_FORMS = [f for f in FORMS if any(inner(e).kind in ('mem', 'cbuf') for e in f.elems)]


class C17(Prop):
    id = 'C17'
    quick, thorough = 250000, 2500000
    rule = ('one case is one statement with a memory, attribute or constant-buffer operand (alone or guarded, annotated and among other statements), a third of them with a bank '
            'or offset out of range or misaligned; every case is non-trivial; distinct = distinct source text')
    assumptions = ['offsets are signed when a base register other than RZ is written, unsigned otherwise']

    def gen(self, g):
        g.scope = 'c17'
        out = g.pick(3, 'out') == 2
        f = pick_form(g, MEM_FORMS)
        es = [e for e in f.elems if inner(e).kind in ('mem', 'cbuf')]
        e = es[g.pick(len(es), 'which')]
        if out:
            g.outside = inner(e)
        vals = gen_values(g, f)
        g.outside = None
        place = Place(g)
        toks = list(place.stmt(g, f, vals).toks)
        if g.pick(12, 'var') == 11:
            self.vary(g, toks)
        text = place.text(g, toks)
        words, judge = place.judge(text)
        return Case([Req(text)], judge, text,
                    tags=['%s:%s' % (f.mnemonic if inner(e).kind == 'mem' else 'cbuf', inner(e).name),
                          'accepted' if words is not None else 'rejected'])

    def vary(self, g, toks):
        """Odd spellings of an address: sign as a separate token, doubled or missing parts."""
        i = [k for k, t in enumerate(toks) if t in '[]']
        if not i:
            return
        k = g.pick(6, 'vk')
        at = i[g.pick(len(i), None)]
        if k == 0:
            toks.insert(at + 1, '-')
        elif k == 1:
            toks.insert(at + 1, '+')
        elif k == 2:
            del toks[at]
        elif k == 3:
            toks.insert(at, '+0x4')
        elif k == 4:
            toks.insert(at, '-')
        else:
            toks.insert(at + 1, 'RZ')


class C18(Prop):
    id = 'C18'
    quick, thorough = 120000, 1500000
    rule = ('one case is a program of 1-7 (one in 150: up to 1500) statements without reuse hints and the same program with .reuse written after '
            'a random subset of its registers (some of them without a reuse slot); non-trivial when at least one hint is '
            'written; distinct = distinct source text')
    assumptions = ['reuse slots are the source registers encoded at bits 8, 20 and 39 (mask bits 1, 2, 4)']

    def gen(self, g):
        g.scope = 'c18'
        g.reuse = False
        prog, tail, _ = gen_program(g, 1, 7, 3, labels=False)
        g.scope = 'c18'
        if g.pick(150, 'long') == 149:
            base = [x for x in prog if not any(e.kind == 'target' for e in x[1].form.elems)] or [([], gen_stmt(g, 8, {}, NOBRANCH))]
            g.scope = 'c18'
            prog = []
            for _ in g.many(20, 1500, avg=400):
                prog.append(base[g.pick(len(base), None)])
        base, hinted = [], []
        masks = []
        illegal = None
        count = 0
        used = set()
        for _, s in prog:
            fr = front(g, used, 10) if len(prog) <= 20 else ''
            base.append(fr + render(s.toks))
            mask, toks, bad = self.hint(g, s, len(prog) > 20)
            masks.append(mask)
            count += toks.count('.reuse')
            illegal = illegal or bad
            hinted.append(fr + render(toks))
        a, b = '\n'.join(base) + '\n', '\n'.join(hinted) + '\n'
        quirk = False
        p, why = try_assemble(a)
        if p is None:
            raise Discard('generator and model disagree: %s\n%s' % (why, a))
        quirk = why.quirk

        def judge(rs):
            if quirk:
                return None
            m = must_accept(rs[0])
            if m:
                return m
            if illegal:
                return must_reject(rs[1], illegal)
            m = must_accept(rs[1])
            if m:
                return m
            want = list(rs[0].words)
            if len(want) < len(masks):
                return 'output too short'
            for i, mk in enumerate(masks):
                c = i // 3 * 4
                want[c] |= mk << (21 * (i % 3) + 17)
                if rs[0].words[c] >> (21 * (i % 3) + 17) & 15:
                    return 'reuse bits are set without a hint'
            return same_words(rs[1].words, want)
        return Case([Req(a), Req(b)], judge, b, nontrivial=count > 0,
                    tags=['rejected' if illegal else 'accepted', 'hints:%d' % min(count, 6)])

    def extra(self, tier, seed):
        """A few very long programs with hints."""
        def stmt(rng):
            while True:
                g = G(rng=rng, rot={})
                g.reuse = False
                s = gen_stmt(g, 8, {}, NOBRANCH)
                mask, toks, bad = self.hint(g, s)
                if mask and not bad:
                    return render(toks)
        return long_programs(self, tier, seed, 'C18-big', lambda x: x, stmt)

    def hint(self, g, s, legal=False):
        """(mask, tokens, reason if illegal) after adding hints."""
        t = ['@', s.guard.spelled()] if s.explicit_guard else []
        t.append(s.form.mnemonic)
        mask = 0
        illegal = None
        # illegal hints are rare, otherwise hardly any program would be legal
        allow_bad = g.pick(30, 'allowbad') == 29 and not legal
        for e, v in zip(s.form.elems, s.values):
            et = e.toks(v)
            regs = [k for k, x in enumerate(et) if x[0] == 'R' and (x == 'RZ' or x[1:].isdigit())]
            if regs and inner(e).kind in ('reg', 'mem'):
                shift = inner(e).shift if inner(e).kind == 'reg' else 8
                slot = {8: 1, 20: 2, 39: 4}.get(shift)
                if slot and g.pick(2, 'h%d' % shift):
                    mask |= slot
                    et = et[:regs[0] + 1] + ['.reuse'] + et[regs[0] + 1:]
                    if g.pick(24, 'dup') == 23 and allow_bad:
                        et = et[:regs[0] + 1] + ['.reuse'] + et[regs[0] + 1:]
                        illegal = '.reuse twice'
                elif not slot and allow_bad and g.pick(2, 'bad'):
                    et = et[:regs[0] + 1] + ['.reuse'] + et[regs[0] + 1:]
                    illegal = '.reuse on a register without a reuse slot'
            elif regs and inner(e).kind == 'mirror' and allow_bad and g.pick(2, 'badm'):
                et = et + ['.reuse']
                illegal = '.reuse on a register without a reuse slot'
            elif et and allow_bad and inner(e).kind in ('cbuf', 'int', 'pred') and g.pick(4, 'badc') == 3:
                et = et + ['.reuse']
                illegal = '.reuse on an operand that is not a register'
            t += et
        t += s.toks[len(t) - t.count('.reuse'):]
        return mask, t, illegal
