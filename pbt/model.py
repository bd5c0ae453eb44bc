"""Reference assembler: text -> words, or Reject. Written from the documented syntax, not from /repo's
data structures; it parses a token list, never looks at the code under test, and is exact."""
import re
import struct
from .elems import Reject, Tok, PredVal
from .isa import BY_MNEMONIC
from .numfmt import is_binary, parse_c_int, FLT_RE

OPERATORS = '+-~|[]@,;'
WS = ' \t\r\n'
SEP = set(WS + '.' + OPERATORS)
NOP_WORD = 0x50B0000000070F00
PAD_SCHED = 0x7E0
I64_MIN, I64_MAX = -(1 << 63), (1 << 63) - 1


class LexError(Reject):
    def __init__(self, msg, line, col):
        Reject.__init__(self, msg)
        self.line, self.col = line, col


def advance(text, i, j, line, col):
    for k in range(i, j):
        c = text[k]
        if c == '\n':
            line += 1
            col = 0
        elif c == '\t':
            col += 4
        else:
            col += 1
    return line, col


def positions(text, start):
    """(line, column) of every token from offset start on, up to and including the first bad one."""
    out = []
    try:
        lex(text, out)
        end = []
    except LexError as e:
        end = [(e.line, e.col)]
    first = advance(text, 0, start, 0, 0)
    return [p for p in [(t.line, t.col) for t in out] + end if p >= first]


def lex(text, out=None):
    """Token list ending in a 'none' token. Raises LexError at the first bad token.

    Columns follow the tool's convention: a tab counts for four columns.
    """
    out = [] if out is None else out
    i = line = col = 0
    n = len(text)
    while True:
        while i < n and text[i] in WS:
            line, col = advance(text, i, i + 1, line, col)
            i += 1
        if i >= n:
            out.append(Tok('none', None, '', line, col))
            return out
        c = text[i]
        nx = text[i + 1] if i + 1 < n else ''
        j = i + 1
        kind = val = None
        digit = nx != '' and nx in '0123456789'
        if c in OPERATORS and not (c in '+-' and digit):
            kind, val = 'op', c
        elif (c in '+-' or c in '0123456789') and nx != 'D':
            # number
            j = i
            while j < n and text[j] in '0123456789+-aAbBcCdDeEfFxX':
                j += 1
            if j < n and text[j] == '.':
                if re.search('[a-fA-FxX]', text[i:j]):
                    raise LexError('hex characters in a float', line, col)
                j += 1
                while j < n and text[j] in '0123456789':
                    j += 1
                if j < n and text[j] not in SEP:
                    raise LexError('no separator after immediate', line, col)
                if not FLT_RE.match(text[i:j]):
                    raise LexError('bad literal', line, col)
                kind, val = 'float', text[i:j]
            else:
                if j < n and text[j] not in SEP:
                    raise LexError('no separator after immediate', line, col)
                val = parse_c_int(text[i:j])
                if val is None or not I64_MIN <= val <= I64_MAX:
                    raise LexError('bad literal', line, col)
                kind = 'int'
        else:
            while j < n and text[j] not in SEP:
                j += 1
            word = text[i:j]
            kind, val = 'ident', word
            if c in '!Pp':
                if c == '!' and not (len(word) > 1 and word[1] in 'Pp'):
                    raise LexError("invalid usage of '!'", line, col)
                body = word[1:] if c == '!' else word
                if len(body) == 2 and body[1] in 'Tt0123456789':
                    idx = 7 if body[1] in 'Tt' else int(body[1])
                    if body[1] not in 'Tt' and idx > 6:
                        raise LexError('out of range predicate', line, col)
                    kind, val = 'pred', (idx, int(c == '!'))
            elif c == 'R':
                if word[1:2] == 'Z':
                    if word != 'RZ':
                        raise LexError('no separator after register', line, col)
                    kind, val = 'reg', 255
                elif len(word) > 1 and all(x in '0123456789' for x in word[1:]):
                    idx = int(word[1:])
                    if idx > 254:
                        raise LexError('register out of range', line, col)
                    kind, val = 'reg', idx
        out.append(Tok(kind, val, text[i:j], line, col))
        line, col = advance(text, i, j, line, col)
        i = j


class Cursor:
    def __init__(self, toks, pos=0):
        self.t, self.i = toks, pos

    def peek(self):
        return self.t[self.i]

    def next(self):
        t = self.t[self.i]
        if t.kind != 'none':
            self.i += 1
        return t

    def take(self, kind):
        t = self.peek()
        if t.kind != kind:
            raise Reject('expected ' + kind)
        return self.next()

    def op(self, text):
        t = self.peek()
        if t.kind != 'op' or t.text != text:
            raise Reject('expected ' + text)
        return self.next()

    def word(self, text):
        t = self.peek()
        if t.kind != 'ident' or t.text != text:
            raise Reject('expected ' + text)
        return self.next()

    def is_ident(self, text):
        t = self.peek()
        return t.kind == 'ident' and t.text == text

    def words_ahead(self, n):
        r = []
        for t in self.t[self.i:self.i + n]:
            r.append(t.text if t.kind == 'ident' else None)
        return r


def address(n):
    """Byte address of instruction n."""
    return (n // 3) * 32 + 8 + (n % 3) * 8


LABEL_RE = re.compile(r'([A-Za-z][A-Za-z0-9_]*):')


def find_labels(text):
    labels = {}
    dup = False
    count = 0
    for ln in text.split('\n'):
        m = LABEL_RE.match(ln)
        if m:
            if m.group(1) in labels:
                dup = True
            else:
                labels[m.group(1)] = address(count)
        count += ln.count(';')
    return labels, dup


class Insn:
    __slots__ = ('form', 'values', 'guard', 'sched', 'word', 'reuse', 'line', 'col')


def encode(form, values, guard, pc, labels):
    """(word, reuse mask) of one instruction."""
    w = form.opcode
    reuse = 0

    def put(shift, width, v):
        nonlocal w
        assert 0 <= v < (1 << width), (form, shift, width, v)
        b = v << shift
        assert w & b == 0, (form, shift, width, v)
        w |= b
    put(16, 3, guard.idx)
    put(19, 1, guard.neg)
    late = []
    for e, v in zip(form.elems, values):
        for f in (e.bits_at(v, pc, labels) if e.kind == 'target' else e.bits(v)):
            if f[0] == 'or':
                late.append(f)
            else:
                put(*f)
        r = e.reuse(v)
        assert reuse & r == 0
        reuse |= r
    for _, b, v in late:
        w |= v << b
    return w, reuse


SCHED_DEFAULT = (0, 0, 7, 7, 0)


def sched_bits(s):
    stall, yld, wb, rb, wait = s
    return stall | yld << 4 | wb << 5 | rb << 8 | wait << 11


def parse_sched(p):
    stall = wb = rb = None
    yld = wait = 0

    def num(hi):
        t = p.take('int')
        if not 0 <= t.val <= hi:
            raise Reject('sched range')
        return t.val
    while p.peek().kind == 'op' and p.peek().text == '@':
        p.next()
        t = p.take('ident')
        if t.text == 'WAIT':
            if stall is not None:
                raise Reject('twice')
            stall = num(15)
        elif t.text == 'WB':
            if wb is not None:
                raise Reject('twice')
            wb = num(5)
        elif t.text == 'RB':
            if rb is not None:
                raise Reject('twice')
            rb = num(5)
        elif t.text in ('Y', 'YIELD'):
            if yld:
                raise Reject('twice')
            yld = 1
        elif t.text == 'DEP':
            b = num(5)
            if wait >> b & 1:
                raise Reject('twice')
            wait |= 1 << b
        else:
            raise Reject('sched word')
    return (stall or 0, yld, 7 if wb is None else wb, 7 if rb is None else rb, wait)


def parse_statement(p, pc, labels):
    """One instruction, starting at its guard or mnemonic. Leaves the cursor after ';'."""
    t0 = p.peek()
    guard = PredVal(7, 0)
    if t0.kind == 'op' and t0.text == '@':
        p.next()
        guard = PredVal(*p.take('pred').val)
    m = p.take('ident')
    forms = BY_MNEMONIC.get(m.text)
    if not forms:
        raise Reject('unknown mnemonic')
    start = p.i
    last = None
    for form in forms:
        p.i = start
        st = {'pc': pc, 'labels': labels}
        try:
            if form.nopred and (guard.idx, guard.neg) != (7, 0):
                raise Reject('cannot be predicated')
            values = []
            for e in form.elems:
                v = e.parse(p, st)
                if e.key:
                    st[e.key] = v
                values.append(v)
            sched = parse_sched(p)
            p.op(';')
        except Reject as r:
            last = r
            continue
        i = Insn()
        i.form, i.values, i.guard, i.sched = form, values, guard, sched
        i.line, i.col = t0.line, t0.col
        i.word, i.reuse = encode(form, values, guard, pc, labels)
        return i
    raise last


TYPES = {'vertex': 0, 'tess_control': 1, 'hull': 1, 'tess_eval': 2, 'domain': 2, 'geometry': 3,
         'fragment': 4, 'pixel': 4, 'compute': 5}
I32_MAX = (1 << 31) - 1
# largest local memory whose per-warp scratch (aligned size * 32 + 0x800) fits 32 bits
LOCAL_MAX = ((((1 << 32) - 1 - 0x800) // 32) >> 4) << 4


class Program:
    def __init__(self):
        self.insns = []
        self.dksh = False
        self.type = None
        self.num_gprs = 8
        self.block = [1, 1, 1]
        self.shared = 0
        self.local = 0
        self.labels = {}
        self.quirk = None       # reason why the expectation is not specified, if any


def parse_directive(p, prog):
    d = p.next()
    line = d.line

    def arg(kind):
        t = p.peek()
        if t.kind != kind or t.line != line:
            raise Reject('directive argument')
        return p.next()

    def num(lo, hi):
        t = arg('int')
        if not lo <= t.val <= hi:
            raise Reject('directive range')
        return t.val
    if d.text in ('.dksh', '.type'):
        if prog.type is not None:
            raise Reject('type twice')
        if d.text == '.dksh':
            prog.dksh = True
        t = arg('ident')
        if t.text not in TYPES:
            raise Reject('type')
        prog.type = TYPES[t.text]
    elif d.text == '.num_gprs':
        prog.num_gprs = num(0, 255)
    elif d.text == '.workgroup_size':
        prog.block = [num(0, I32_MAX) for _ in range(3)]
    elif d.text == '.shared_memory':
        prog.shared = num(0, I32_MAX - 255)
    elif d.text == '.local_memory':
        prog.local = num(0, LOCAL_MAX)
    else:
        raise Reject('unknown directive')
    if p.peek().line == line:
        raise Reject('expected new line after directive')


def parse_program(text):
    if '\0' in text:
        raise Reject('NUL')
    prog = Program()
    prog.labels, dup = find_labels(text)
    if dup:
        prog.quirk = 'duplicate label'
    toks = lex(text)
    if any(t.kind == 'int' and is_binary(t.text) for t in toks):
        prog.quirk = 'binary literal'    # read or refused depending on the C library
    p = Cursor(toks)
    while True:
        while True:
            t = p.peek()
            if t.kind != 'ident':
                break
            if t.text.startswith('.'):
                parse_directive(p, prog)
            elif t.text.endswith(':'):
                if not LABEL_RE.fullmatch(t.text):
                    prog.quirk = 'label that is not a name'
                p.next()
            else:
                break
        if p.peek().kind == 'none':
            return prog
        n = len(prog.insns)
        ins = parse_statement(p, address(n), prog.labels)
        if ins.form.mnemonic == 'BRA' and len(ins.values) == 5 and ins.values[2] == 0:
            prog.quirk = 'BRA with a lone comma'
        prog.insns.append(ins)


def code_words(prog):
    words = []
    ins = prog.insns
    for b in range(0, len(ins), 3):
        ctl = 0
        group = ins[b:b + 3]
        for s in range(3):
            v = PAD_SCHED if s >= len(group) else sched_bits(group[s].sched) | group[s].reuse << 17
            ctl |= v << (21 * s)
        words.append(ctl)
        words += [i.word for i in group] + [NOP_WORD] * (3 - len(group))
    return words


def al(v, a):
    return (v + a - 1) // a * a


def dksh_bytes(prog, code):
    """A one-program DKSH file around the code."""
    if 'main' not in prog.labels:
        raise Reject('no entry point')
    entry = prog.labels['main']
    if entry % 32 != 8:
        raise Reject('entry point not aligned')
    if prog.type != 5:
        raise Reject('graphics header not supported')
    local = al(prog.local, 16)
    ph = struct.pack('<6I', 5, entry - 8, prog.num_gprs, 0, 0, local * 32 + 0x800)
    ph += struct.pack('<8I', *prog.block, al(prog.shared, 256), local, 0, 0x800, 0)
    codeb = b''.join(struct.pack('<Q', w) for w in code)
    codeb += b'\0' * (al(len(codeb), 256) - len(codeb))
    control = struct.pack('<6I', 0x48534B44, 24, 256, len(codeb), 24, 1) + ph
    assert len(control) <= 256
    return control.ljust(256, b'\0') + codeb


def assemble(text):
    """(words, prog); raises Reject."""
    prog = parse_program(text)
    if prog.type is not None and prog.type != 5:
        raise Reject('graphics header not supported')
    words = code_words(prog)
    if prog.dksh:
        b = dksh_bytes(prog, words)
        words = list(struct.unpack('<%dQ' % (len(b) // 8), b))
    return words, prog


def try_assemble(text):
    try:
        return assemble(text)
    except Reject as r:
        return None, r
