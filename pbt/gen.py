"""Generators of statements and programs (always through G, so everything shrinks and replays)."""
from .elems import PredVal, spell_int
from .isa import FORMS, BY_MNEMONIC
from .model import SEP, address

DIGITS = '0123456789'


def needs_space(a, b):
    """Would a and b written together lex differently from a and b apart?"""
    if a in ('+', '-') and b[0] in DIGITS:
        return True
    if a in ('+', '-', '~', '|', '[', ']', '@', ',', ';'):
        return False
    num = a[0] in DIGITS or (len(a) > 1 and a[0] in '+-')
    if num and not a[1:2] == 'D' and b[0] in '+-.':
        return True if '.' not in a else b[0] in DIGITS
    return b[0] not in SEP


def render(toks, g=None, style=0, offsets=None):
    """Token texts -> source text. style 0: compact and conventional; 1: random blanks; 2: any layout.

    offsets, if given, receives the character offset of every token."""
    out = []
    prev = None
    size = 0
    for t in toks:
        if prev is not None:
            must = needs_space(prev, t)
            if style == 0 or g is None:
                sp = ' ' if must or prev == ',' or (t == '@') else ''
            else:
                k = g.pick(8 if style == 1 else 16, 'ws')
                if k < 4:
                    sp = ' ' if must or prev == ',' else ''
                elif k < 6:
                    sp = ' '
                elif k == 6:
                    sp = '  '
                elif k == 7:
                    sp = '\t'
                elif k == 8:
                    sp = '\n'
                elif k == 9:
                    sp = '\r\n'
                elif k == 10:
                    sp = '\r'
                elif k == 11:
                    sp = ' \n\t '
                elif k == 12:
                    sp = '\n\n\n'
                else:
                    sp = ' ' * g.pick(12, 'wsn') or (' ' if must else '')
            out.append(sp)
            size += len(sp)
        if offsets is not None:
            offsets.append(size)
        out.append(t)
        size += len(t)
        prev = t
    return ''.join(out)


class Stmt:
    __slots__ = ('form', 'values', 'guard', 'sched', 'toks', 'explicit_guard', 'body')

    def all_toks(self):
        return self.toks


def gen_guard(g, form):
    if form.nopred:
        return (PredVal(7, 0), int(g.chance(1, 8, 'gnp')))
    k = g.pick(6, 'guardk')
    if k < 3:
        return (PredVal(7, 0), 0)
    if k == 3:
        return (PredVal(7, 0), 1)
    return (PredVal(g.pick(8, 'gidx'), g.pick(2, 'gneg')), 1)


def gen_sched(g, rich=False):
    """List of annotation token groups in random order, and the value they mean."""
    vals = {}
    if not rich and g.pick(3, 'schedk') < 2:
        return [], (0, 0, 7, 7, 0)
    groups = []
    if g.pick(2, 'hasw'):
        v = g.pick(16, 'stall')
        vals['stall'] = v
        groups.append(['@', 'WAIT', spell_int(g, v)])
    if g.pick(2, 'hasy'):
        vals['y'] = 1
        groups.append(['@', ('Y', 'YIELD')[g.pick(2, 'yname')]])
    if g.pick(2, 'haswb'):
        v = g.pick(6, 'wb')
        vals['wb'] = v
        groups.append(['@', 'WB', spell_int(g, v)])
    if g.pick(2, 'hasrb'):
        v = g.pick(6, 'rb')
        vals['rb'] = v
        groups.append(['@', 'RB', spell_int(g, v)])
    mask = g.pick(64, 'depmask') if g.pick(2, 'hasdep') else 0
    for b in range(6):
        if mask >> b & 1:
            groups.append(['@', 'DEP', spell_int(g, b)])
    # random order: repeatedly pick one of the rest
    order = []
    rest = list(groups)
    while rest:
        order.append(rest.pop(g.pick(len(rest), 'ord')))
    return order, (vals.get('stall', 0), vals.get('y', 0), vals.get('wb', 7), vals.get('rb', 7), mask)


def gen_values(g, form, pc=8, labels=None):
    st = {'pc': pc, 'labels': labels or {}}
    vals = []
    for e in form.elems:
        v = e.gen(g, st)
        if e.key:
            st[e.key] = v
        vals.append(v)
    return vals


def form_toks(form, vals):
    t = []
    for e, v in zip(form.elems, vals):
        t += e.toks(v)
    return t


def build_stmt(form, vals, guard=None, explicit=0, sched_groups=(), sched=(0, 0, 7, 7, 0)):
    s = Stmt()
    s.form, s.values, s.sched = form, vals, sched
    s.guard, s.explicit_guard = guard or PredVal(7, 0), explicit
    s.body = form_toks(form, vals)
    t = ['@', s.guard.spelled()] if explicit else []
    t.append(form.mnemonic)
    t += s.body
    for grp in sched_groups:
        t += grp
    t.append(';')
    s.toks = t
    return s


def pick_form(g, forms=None):
    forms = forms or FORMS
    g.scope = ''
    f = forms[g.pick(len(forms), 'form%d' % len(forms))]
    g.scope = f.sig
    return f


def gen_stmt(g, pc=8, labels=None, forms=None, rich_sched=False, sched=True, guard=True):
    f = pick_form(g, forms)
    gd, ex = gen_guard(g, f) if guard else (None, 0)
    vals = gen_values(g, f, pc, labels)
    groups, sv = gen_sched(g, rich_sched) if sched else ([], (0, 0, 7, 7, 0))
    return build_stmt(f, vals, gd, ex, groups, sv)


LABEL_NAMES = ('main', 'loop', 'end', 'L1', 'L10', 'L', 'exit_2', 'CC', 'MOV', 'c', 'a', 'INF', 'x', 'B0',
               'Loop', 'LOOP', 'f_', 'T', 'aVeryLongLabelNameThatNeverEnds_0123456789', 'BRA', 'Z9')



NAME_FIRST = 'abcdefghijklmnoqstuvwxyzABCDEFGHIJKLMNOQSTUVWXYZ'
NAME_REST = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789'


def gen_name(g, names=LABEL_NAMES):
    """A label name: from the list (names that look like other things), or random, short, long or nearly alike."""
    k = g.pick(9, 'namekind')
    if k == 8:
        # looks like a register or a predicate of another name
        return NAME_FIRST[g.pick(len(NAME_FIRST), 'nml')] + '0123456789ZTt'[g.pick(13, 'nmd')]
    if k < 6:
        return names[g.pick(len(names), 'lname')]
    if k == 6:
        n = NAME_FIRST[g.pick(len(NAME_FIRST), None)]
        for _ in range(g.pick(7, 'namelen')):
            n += NAME_REST[g.pick(len(NAME_REST), None)]
        return n
    # names that differ only after a long common part
    n = 'block' * (1 + g.pick(60, 'namerep'))
    return n + NAME_REST[g.pick(len(NAME_REST), 'nametail')]


def gen_program(g, lo=1, hi=12, avg=4, forms=None, labels=True, rich_sched=False, target_bias=False):
    """(list of (label names, Stmt)), trailing labels). Labels are chosen first so any may be targeted."""
    g.scope = 'prog'
    n = 0
    counts = []
    for _ in g.many(lo, hi, avg=avg):
        counts.append(1)
    n = len(counts)
    places = {}
    names = []
    if labels and n and g.chance(2, 3, 'haslab'):
        for i in g.many(0, min(6, n + 2), avg=2):
            name = gen_name(g)
            if name in names:
                continue
            names.append(name)
            places.setdefault(g.pick(n + 1, None), []).append(name)
    lab = {nm: address(pos) for pos, l in places.items() for nm in l}
    g.targets = sorted(lab)
    out = []
    for i in range(n):
        s = gen_stmt(g, address(i), lab, forms, rich_sched)
        out.append((places.get(i, []), s))
    return out, places.get(n, []), lab


FRONT_DIRS = ('.num_gprs 5', '.shared_memory 0x40', '.workgroup_size 1 2 3', '.local_memory 7', '.num_gprs 255', '.local_memory 0')


def front(g, used, rare=5):
    """What may stand before a statement that begins a line and has no effect on it: labels (on their own lines or on the
    statement's), directives, blank lines."""
    scope, g.scope = g.scope, 'front'
    out = ''
    if g.pick(rare, 'front') == rare - 1:
        for _ in g.many(1, 5, avg=2):
            k = g.pick(6, 'fk')
            if k < 4:
                n = gen_name(g)
                if n in used:
                    n = 'u%d' % len(used)
                used.add(n)
                out += n + ':' + ('\n', ' ', '\n\n', '\r\n', '\t')[g.pick(5, 'fsep')]
                if not out.endswith('\n'):
                    break
            elif k == 4:
                out += ('', ' ', '\t')[g.pick(3, 'fi')] + FRONT_DIRS[g.pick(len(FRONT_DIRS), 'fdir')] + ('\n', '\r\n', ' \n\n')[g.pick(3, 'fe')]
            else:
                out += ('\n', ' \n', '\t\r\n')[g.pick(3, 'fb')]
    g.scope = scope
    return out


def render_program(prog, tail, g=None, style=0, fronts=False):
    out = []
    used = {l for labs, _ in prog for l in labs} | set(tail)
    for labs, s in prog:
        if fronts:
            out.append(front(g, used, 8))
            if out[-1] and not out[-1].endswith('\n') and labs:
                out.append('\n')
        for l in labs:
            out.append(l + ':\n')
        out.append(render(s.toks, g, style))
        out.append('\n')
    for l in tail:
        out.append(l + ':\n')
    return ''.join(out)
