"""Pieces shared by the properties."""
from ..engine import Case, Discard, G, Prop, Req       # noqa: F401
from .. import gen, model
from ..elems import *                          # noqa: F401,F403
from ..elems import PredVal, RegVal, IntVal, Reject, spell_int, pick_int, outside_int   # noqa: F401
from ..isa import FORMS, BY_MNEMONIC           # noqa: F401
from ..model import address, try_assemble, NOP_WORD, PAD_SCHED, sched_bits   # noqa: F401
from ..gen import (build_stmt, form_toks, gen_guard, gen_program, gen_sched, gen_stmt, gen_values, pick_form,
                   front, render, render_program)     # noqa: F401

M21 = (1 << 21) - 1


def hexs(words):
    return ' '.join('%016x' % w for w in words)


def slots(words):
    """[(instruction word, 21 scheduling bits)] of raw code, or None if it is not made of groups."""
    if len(words) % 4:
        return None
    out = []
    for b in range(0, len(words), 4):
        for s in range(3):
            out.append((words[b + 1 + s], words[b] >> (21 * s) & M21))
    return out


def show(r):
    return r.describe()[:1500]


def must_accept(r):
    if not r.ok:
        return 'a legal program was not assembled: ' + show(r)
    return None


def must_reject(r, why):
    if r.ok:
        return 'accepted although it must be rejected (%s): %s' % (why, hexs(r.words[:16]))
    if not r.clean_error:
        return 'must be rejected with an error message and failure status (%s), got: %s' % (why, show(r))
    return None


def same_words(got, want, what='output'):
    if got == want:
        return None
    if len(got) != len(want):
        return '%s has %d words, expected %d: got %s, expected %s' % (what, len(got), len(want), hexs(got[:24]),
                                                                      hexs(want[:24]))
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b:
            return '%s word %d is %016x, expected %016x (differs in %016x)' % (what, i, a, b, a ^ b)


def model_judge(text):
    """Judge one response against the reference model. None if the expectation is unspecified."""
    words, p = try_assemble(text)
    if words is None:
        return words, (lambda rs: must_reject(rs[0], str(p)))
    if p.quirk:
        return words, None
    return words, (lambda rs: must_accept(rs[0]) or same_words(rs[0].words, words))


def elem_class(form, e):
    return '%s/%s' % (form.mnemonic, e.name)


def int_elems(form):
    """Elements of a form that hold an integer the user writes."""
    return [e for e in form.elems if inner(e).kind in ('int', 'cbuf', 'mem', 'target') and has_number(inner(e))]


def inner(e):
    return getattr(e, 'inner', e)


def has_number(e):
    if e.name == 'a[R]':
        return False
    if type(e).__name__ == 'Mem':
        return e.off
    return True


def form_words(prog):
    return [s.form.sig for _, s in prog]


class Place:
    """Where a statement under test stands: what is written around it and on it."""

    def __init__(self, g, forms=None):
        scope, g.scope = g.scope, 'place'
        self.kind = g.pick(6, 'place')
        self.before, self.after = [], []
        if self.kind == 5:
            for i in g.many(0, 7, avg=2):
                self.before.append(gen_stmt(g, address(len(self.before)), {}, PLAIN_FORMS))
            for i in g.many(0, 4, avg=1):
                self.after.append(gen_stmt(g, 8, {}, PLAIN_FORMS))
        elif self.kind == 4:
            for i in range(g.pick(7, 'lead')):
                self.before.append(None)
        g.scope = scope
        self.index = len(self.before)
        self.pc = address(self.index)

    def stmt(self, g, form, vals):
        """The statement, sometimes with a guard and annotations."""
        if self.kind < 3:
            return build_stmt(form, vals)
        gd, ex = gen_guard(g, form)
        groups, sv = gen_sched(g)
        return build_stmt(form, vals, gd, ex, groups, sv)

    def text(self, g, toks):
        style = (0, 0, 0, 1, 0, 2)[self.kind]
        out = [render(x.toks) + '\n' if x else 'NOP;\n' for x in self.before]
        if self.kind > 3:
            out.append(front(g, set()))
        out.append(render(toks, g, style) + '\n')
        out += [render(x.toks) + '\n' for x in self.after]
        return ''.join(out)

    def judge(self, text):
        """(expected words or None, judge, quirk) looking at the statement itself only."""
        words, p = try_assemble(text)
        if words is None:
            return None, (lambda rs: must_reject(rs[0], str(p)))
        if p.quirk:
            return words, (lambda rs: None)
        want = p.insns[self.index].word

        def judge(rs):
            m = must_accept(rs[0])
            if m:
                return m
            got = slots(rs[0].words)
            if got is None or len(got) <= self.index:
                return 'output is not made of complete groups: ' + hexs(rs[0].words[:24])
            w = got[self.index][0]
            if w != want:
                return 'the instruction is %016x, expected %016x (differs in %016x)' % (w, want, w ^ want)
        return words, judge


PLAIN_FORMS = [f for f in FORMS if not any(e.kind == 'target' for e in f.elems)]
