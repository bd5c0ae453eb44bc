"""C04 C11: relations between several assembled texts."""
from .common import *      # noqa: F401,F403
from .common import (Case, Prop, Req, FORMS, BY_MNEMONIC, PredVal, RegVal, build_stmt, gen_guard, gen_program,
                     gen_sched, gen_stmt, gen_values, hexs, inner, must_accept, must_reject, pick_form, render,
                     spell_int, try_assemble, model, same_words, address)
from ..gen import needs_space, LABEL_NAMES
from .mutate import mutate


def canon(form, vals, guard, sched):
    out = [form.idx, guard.idx, guard.neg, tuple(sched)]
    for e, v in zip(form.elems, vals):
        b = e.bits_at(v, 8, {}) if e.kind == 'target' else e.bits(v)
        out.append((tuple(map(tuple, b)), e.reuse(v)))
    return tuple(out)


def ident(e):
    n = getattr(e, 'names', ())
    return type(e).__name__, e.name, tuple(n) if isinstance(n, list) else ()


# forms in which what one operand may be depends on another
CONTEXT_FORMS = [f for f in FORMS if f.mnemonic in (
    'FFMA32I', 'HFMA2_32I', 'VMAD', 'VSETP', 'VMNMX', 'F2F', 'F2I', 'I2F', 'I2I', 'TEXS', 'TLDS', 'IADD', 'IADD32I',
    'ISCADD')]


def spliced(g, f):
    """(values, values of one form taken from three legal statements of it)."""
    v = gen_values(g, f), gen_values(g, f), gen_values(g, f)
    return v[0], [t[g.pick(3, 'from')] for t in zip(*v)]


class C04(Prop):
    id = 'C04'
    quick, thorough = 150000, 2500000
    rule = ('one case is a square of statements of one form (operand k in two values, all other operands in two '
            'contexts), a pair of statements of two forms, or a statement spliced from operands that are legal one by one, '
            'illegal together or not; every case is non-trivial; distinct = distinct sources')
    assumptions = ['which statements mean the same (default written out, LEA.LO, ...) is taken from the reference model; '
                   'the encodings compared are only those of the code under test']

    def gen(self, g):
        g.scope = 'c04'
        mode = g.pick(10, 'mode')
        if mode < 2:
            return self.cross(g)
        if mode < 4:
            return self.splice(g)
        f = pick_form(g)
        v1, v2 = gen_values(g, f), gen_values(g, f)
        (g1, x1), (g2, x2) = gen_guard(g, f), gen_guard(g, f)
        (s1, sv1), (s2, sv2) = gen_sched(g), gen_sched(g)
        ks = [i for i, e in enumerate(f.elems) if e.toks(v1[i]) or e.toks(v2[i]) or e.kind == 'mod']
        ks = [i for i in ks if f.elems[i].kind not in ('comma', 'mirror', 'fixed')]
        rows = []
        what = 'whole'
        if ks:
            k = ks[g.pick(len(ks), 'k')]
            what = f.elems[k].name
            a, b = v1[k], None
            for _ in range(3):
                alt = gen_values(g, f)
                b = alt[k]
                if canon(f, v1[:k] + [b] + v1[k + 1:], g1, sv1) != canon(f, v1, g1, sv1):
                    break
            for base, (gd, ex), (grp, sv) in ((v1, (g1, x1), (s1, sv1)), (v2, (g2, x2), (s2, sv2))):
                for val in (a, b):
                    vals = self.mirrored(f, base[:k] + [val] + base[k + 1:])
                    rows.append((vals, gd, ex, grp, sv))
        else:
            rows = [(v1, g1, x1, s1, sv1), (v2, g2, x2, s2, sv2)]
        texts, keys = [], []
        for vals, gd, ex, grp, sv in rows:
            text = render(build_stmt(f, vals, gd, ex, grp, sv).toks) + '\n'
            texts.append(text)
            w, p = try_assemble(text)
            if w is None or p.quirk or p.insns[0].form is not f:
                keys.append(None)
            else:
                # leaving out a keyword may hand the next one to another operand: read back what was written
                i = p.insns[0]
                key = canon(f, vals, gd, sv)
                keys.append(key if canon(f, i.values, i.guard, i.sched) == key else None)

        def judge(rs):
            got = []
            for r, key, t in zip(rs, keys, texts):
                if key is None:
                    got.append(None)
                    continue
                m = must_accept(r)
                if m:
                    return m
                if len(r.words) != 4:
                    return 'one statement gave %d words' % len(r.words)
                got.append((r.words[1], r.words[0] & 0x1FFFFF))
            for i in range(len(rows)):
                for j in range(i):
                    if got[i] is None or got[j] is None:
                        continue
                    if keys[i] != keys[j] and got[i] == got[j]:
                        return 'two different statements assemble to the same %016x/%06x: %r and %r' % (
                            got[i] + (texts[j], texts[i]))
                    if keys[i] == keys[j] and got[i] != got[j]:
                        return 'two spellings of one statement differ: %r and %r' % (texts[j], texts[i])
            if len(rows) == 4 and None not in got:
                for part in (0, 1):
                    d1, d2 = got[0][part] ^ got[1][part], got[2][part] ^ got[3][part]
                    if d1 != d2:
                        return ('changing %s alone changes %016x in one context and %016x in another: %r' %
                                (what, d1, d2, texts))
        return Case([Req(t) for t in texts], judge, texts, tags=['square' if len(rows) == 4 else 'pair',
                                                                'legal:%d' % sum(k is not None for k in keys)])

    def splice(self, g):
        """Operands and modifiers that are each legal somewhere in this form, thrown together."""
        f = pick_form(g, CONTEXT_FORMS if g.pick(3, 'ctx') else None)
        (gd, ex), (grp, sv) = gen_guard(g, f), gen_sched(g)
        v1, vals = spliced(g, f)
        text = render(build_stmt(f, vals, gd, ex, grp, sv).toks) + '\n'
        w, p = try_assemble(text)
        base = render(build_stmt(f, v1, gd, ex, grp, sv).toks) + '\n'
        wb, pb = try_assemble(base)
        differ = w is not None and wb is not None and w != wb and not p.quirk and not pb.quirk

        def judge(rs):
            if w is None:
                return must_reject(rs[0], 'operands that cannot be encoded together: %s' % p)
            if differ:
                m = must_accept(rs[0]) or must_accept(rs[1])
                if m:
                    return m
                if rs[0].words == rs[1].words:
                    return 'two different statements assemble to the same %s: %r' % (hexs(rs[0].words), [text, base])
        return Case([Req(text), Req(base)], judge, [text, base],
                    tags=['splice:' + ('legal' if w is not None else 'illegal')])

    def mirrored(self, f, vals):
        dst = None
        for e, v in zip(f.elems, vals):
            if e.key == 'dst':
                dst = v
        return [RegVal(dst.idx) if e.kind == 'mirror' and dst is not None else v for e, v in zip(f.elems, vals)]

    def cross(self, g):
        f = pick_form(g)
        same = [x for x in BY_MNEMONIC[f.mnemonic] if x is not f]
        if same and g.pick(3, 'samemn'):
            h = same[g.pick(len(same), 'h')]
        else:
            h = FORMS[g.pick(len(FORMS), 'hform')]
        va = gen_values(g, f)
        vb = gen_values(g, h)
        # reuse what fits, so that the two differ in as little as possible
        kinds = {}
        for e, v in zip(f.elems, va):
            kinds.setdefault(ident(e), v)
        if g.pick(3, 'align'):
            vb = [kinds.get(ident(e), v) for e, v in zip(h.elems, vb)]
            vb = self.mirrored(h, vb)
        texts, keys = [], []
        for form, vals in ((f, va), (h, vb)):
            t = render(build_stmt(form, vals).toks) + '\n'
            w, p = try_assemble(t)
            ok = w is not None and not p.quirk and p.insns[0].form is form
            texts.append(t)
            keys.append(tuple(w) if ok else None)

        def judge(rs):
            if None in keys or keys[0] == keys[1]:
                return None
            m = must_accept(rs[0]) or must_accept(rs[1])
            if m:
                return m
            if rs[0].words == rs[1].words:
                return 'two different statements assemble to the same %s: %r' % (hexs(rs[0].words), texts)
        return Case([Req(t) for t in texts], judge, texts, tags=['cross'])


NEW_NAMES = ('A', 'zeta', 'X9_', 'Q__1', 'm', 'label', 'MUFU', 'b2', 'Yield', 'WAIT', 'DEP', 'longer_label_name_1')


class C11(Prop):
    id = 'C11'
    quick, thorough = 100000, 1500000
    rule = ('one case is a program (1-8 statements, labels, directives; one in six with an injected mistake) in a plain '
            'spelling and in a random equivalent layout and spelling; non-trivial when the two texts differ; distinct = '
            'distinct respelled text')
    assumptions = ['labels start in the first column of a line', 'directives stand on a line of their own',
                   'cases whose meaning the reference model does not specify (duplicate labels) are skipped']

    def gen(self, g):
        prog, tail, lab = gen_program(g, 1, 8, 3)
        g.scope = 'c11'
        items = []
        if g.chance(1, 4, 'dir'):
            items.append(('dir', ['.type', 'compute']))
        if g.chance(1, 6, 'dir2'):
            items.append(('dir', ['.num_gprs', str(g.pick(256, 'ng'))]))
        respell_vals = []
        for labs, s in prog:
            for l in labs:
                items.append(('lab', l))
            items.append(('stmt', s))
        for l in tail:
            items.append(('lab', l))
        spoiled = g.chance(1, 6, 'spoil')
        if spoiled:
            k = g.pick(len(prog), None)
            mutate(g, prog[k][1])
        a = []
        for kind, x in items:
            if kind == 'dir':
                a.append(' '.join(x) + '\n')
            elif kind == 'lab':
                a.append(x + ':\n')
            else:
                a.append(render(x.toks) + '\n')
        a = ''.join(a)
        # rename labels
        names = {}
        if not spoiled and g.pick(2, 'rename'):
            free = [n for n in NEW_NAMES if n not in lab]
            for l in sorted(lab):
                names[l] = free.pop(g.pick(len(free), None))
        b = self.respell(g, items, names, spoiled)
        if spoiled:
            wa, pa = try_assemble(a)
            wb, pb = try_assemble(b)
            skip = (wa is None) != (wb is None) or (wa is not None and (pa.quirk or pb.quirk))
            want = None
        else:
            want, pa = try_assemble(a)
            wb, pb = try_assemble(b)
            if want is None or want != wb:
                raise Discard('respelling changed the meaning in the model: %r %r\n%s----\n%s' % (pa, pb, a, b))
            skip = pa.quirk or pb.quirk

        def judge(rs):
            if skip:
                return None
            r1, r2 = rs
            if r1.ok != r2.ok:
                return 'one spelling is accepted, the other is not: %s / %s' % (show1(r1), show1(r2))
            if not r1.ok:
                return None if r1.clean_error and r2.clean_error else 'not a clean error: ' + show1(r1) + show1(r2)
            return same_words(r2.words, r1.words, 'respelled output')
        return Case([Req(a), Req(b)], judge, {'plain': a, 'respelled': b}, nontrivial=a != b,
                    tags=['skipped' if skip else 'rejected' if wb is None else 'accepted'])

    def respell(self, g, items, names, spoiled):
        out = ['', '\n', ' \n', '\t\r\n'][g.pick(4, 'lead')]
        for kind, x in items:
            if kind == 'dir':
                if out and not out.endswith('\n'):
                    out += '\n'
                ind = ('', ' ', '\t')[g.pick(3, 'ind')]
                toks = [self.tok(g, t) for t in x]
                out += ind + (' ', '  ', '\t')[g.pick(3, 'dsp')].join(toks) + ('\n', ' \n', '\r\n', '\n\n')[g.pick(4, 'deol')]
            elif kind == 'lab':
                if out and not out.endswith('\n'):
                    out += ('\n', '\r\n', ' \n')[g.pick(3, 'eol')]
                out += names.get(x, x) + ':' + ('\n', ' ', '\t', '\n\n', '', '\r\n')[g.pick(6, 'lsp')]
            else:
                toks = list(x.toks)
                if not spoiled:
                    toks = self.stmt(g, x, names)
                toks = [('Y', 'YIELD')[g.pick(2, 'y')] if t in ('Y', 'YIELD') and toks[i - 1] == '@' else self.tok(g, t)
                        for i, t in enumerate(toks)]
                text = render(toks, g, 2)
                if g.pick(120, 'gap') == 119:
                    # a very long gap between two tokens
                    i = g.pick(len(toks) - 1, None) + 1
                    gap = (' ', '\t', '\n', '\r\n', ' \n')[g.pick(5, 'gapc')] * (100 + g.pick(9000, 'gapn'))
                    text = render(toks[:i], g, 2) + gap + render(toks[i:], g, 2)
                if out.endswith(':') and text[0] != '@':
                    out += ' '
                out += text + ('\n', ' ', '', '\n\n', '\t', '\r\n')[g.pick(6, 'ssp')]
        return out

    def stmt(self, g, s, names):
        """Tokens of the statement with defaults written out or left out."""
        t = []
        if s.explicit_guard or g.pick(4, 'pt') == 3:
            if not (s.guard.idx == 7 and not s.guard.neg and g.pick(2, 'nopt')):
                t += ['@', s.guard.spelled()]
        t.append(s.form.mnemonic)
        n_body = len(s.body)
        first = 2 * s.explicit_guard + 1
        for e, v in zip(s.form.elems, s.values):
            if type(e).__name__ == 'Tab' and e.default is not None:
                if v is None and e.default in e.opts and g.pick(2, 'wr'):
                    v = e.default
                elif v == e.default and g.pick(2, 'om'):
                    v = None
            elif type(e).__name__ == 'OptLit' and g.pick(2, 'opt'):
                v = 1 - v
            t += [names.get(x, x) for x in e.toks(v)] if e.kind == 'target' else e.toks(v)
        return t + s.toks[first + n_body:]

    def tok(self, g, t):
        if t[0] in 'PpR!0123456789+-' and len(t) > 1 or t[0] in '0123456789':
            try:
                l = model.lex(t)
            except model.LexError:
                return t
            if len(l) != 2:
                return t
            l = l[0]
            if l.kind == 'int' and g.pick(2, 'ri'):
                sp = spell_int(g, l.val)
                if l.val >= 0 and sp[0] != '+' and t[0] == '+':
                    sp = '+' + sp
                return sp
            if l.kind == 'float' and g.pick(2, 'rf'):
                sign = t[0] if t[0] in '+-' else ''
                body = t[len(sign):]
                if sign == '' and g.pick(4, 'fplus') == 3:
                    sign = '+'
                return sign + '0' * g.pick(3, 'lz') + body + '0' * g.pick(4, 'tz')
            if l.kind == 'reg' and l.val != 255 and g.pick(3, 'rr') == 2:
                return 'R' + '0' * (1 + g.pick(4, 'rz') if g.pick(4, 'rzmany') else 5 + g.pick(40, 'rzz')) + str(l.val)
            if l.kind == 'pred' and g.pick(2, 'rp'):
                neg = '!' if t[0] == '!' else ''
                body = t[len(neg):]
                return neg + ('p', 'P')[g.pick(2, 'pc')] + (
                    ('T', 't')[g.pick(2, 'tc')] if body[1] in 'Tt' else body[1])
        return t


def show1(r):
    return r.describe()[:600]
