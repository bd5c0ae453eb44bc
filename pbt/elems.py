"""Operand and modifier kinds of the reference model.

Every kind knows how to
  gen(g, st)    draw a legal value (g: choice source, st: values already fixed in this statement)
  toks(v)       spell it as a list of token texts
  bits(v)       give its bit fields [(shift, width, value)]
  parse(p, st)  read it from a token cursor (raises Reject)
`st` carries only what the Maxwell encoding itself makes context dependent (formats, destination).
"""
from .numfmt import (dec_fraction, f16_from_f32, f32_bits, f32_value, f64_bits)
from fractions import Fraction


class Reject(Exception):
    """The statement is not legal."""


class Tok:
    __slots__ = ('kind', 'val', 'text', 'line', 'col')

    def __init__(self, kind, val, text, line, col):
        self.kind, self.val, self.text, self.line, self.col = kind, val, text, line, col

    def __repr__(self):
        return '%s(%r)@%d:%d' % (self.kind, self.text, self.line + 1, self.col + 1)


# ---------------------------------------------------------------------------------------------
# integer literals

def spell_int(g, v, signed_prefix=False):
    """One of the spellings of an integer literal."""
    mag = abs(v)
    k = g.pick(12, 'spell')
    if k < 5:
        body = hex(mag)
    elif k < 9:
        body = str(mag)
    elif k == 9:
        body = '0X%X' % mag
    elif k == 10:
        body = '0%o' % mag
    else:
        zeros = g.pick(14, 'zeros') + 1
        if zeros > 10:
            # more digits than any value needs
            zeros = 12 + g.pick(50, 'manyzeros')
        body = ('0x%0*x' if zeros % 3 else '0%0*o') % (zeros, mag)
    if v < 0:
        return '-' + body
    if signed_prefix or g.pick(8, 'plus') == 7:
        return '+' + body
    return body


def pick_int(g, lo, hi, label):
    """An integer in [lo, hi]: boundaries, powers of two, sweeps and uniform values."""
    n = hi - lo + 1
    if n <= 64:
        return lo + g.pick(n, label)
    k = g.pick(8, 'intmode')
    if k == 0:
        return min(max(0, lo), hi)
    if k == 1:
        c = [lo, hi, lo + 1, hi - 1, -1, 1, 2, 0]
        v = c[g.pick(len(c), label + 'b')]
        return min(max(v, lo), hi)
    if k <= 4:
        b = max(abs(lo), abs(hi)).bit_length()
        v = (1 << g.pick(b, label + 'p')) + (0, -1, 1)[g.pick(3, 'off')]
        if lo < 0 and g.pick(2, 'sgn'):
            v = -v
        return min(max(v, lo), hi)
    return lo + g.big(n)


def outside_int(g, lo, hi, label):
    """An integer outside [lo, hi]."""
    k = g.pick(10, label)
    if k == 0:
        return hi + 1
    if k == 1:
        return lo - 1
    if k == 2:
        return hi + 1 + g.big(hi - lo + 1)
    if k == 3:
        return lo - 1 - g.big(hi - lo + 1)
    if k <= 6:
        v = hi + (1 << (g.pick(70, label + 'p')))
        return v
    if k == 7:
        return lo - (1 << (g.pick(70, label + 'q')))
    if k == 8:
        # congruent to a legal value modulo a power of two: wrapping would hide it
        w = (8, 10, 11, 13, 16, 19, 20, 24, 32, 33, 63, 64, 65)[g.pick(13, label + 'w')]
        v = lo + g.big(hi - lo + 1)
        r = v + (1 << w) * (1 if g.pick(2, 'up') else -1)
        return r if not lo <= r <= hi else hi + 1
    c = [1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, -(1 << 63), (1 << 64) - 1, 1 << 64,
         -(1 << 63) - 1, (1 << 64) + 1, 10 ** 20, -10 ** 20, (1 << 128) + 5]
    v = c[g.pick(len(c), label + 'c')]
    return v if not lo <= v <= hi else hi + 1


class IntVal(int):
    """An integer that remembers its spelling."""
    text = None

    @staticmethod
    def make(v, text):
        r = IntVal(v)
        r.text = text
        return r

    def spelled(self):
        return self.text if self.text is not None else str(int(self))


# ---------------------------------------------------------------------------------------------

class Elem:
    name = ''          # label used by generators/statistics
    key = None         # key in st
    kind = 'other'

    def gen(self, g, st):
        return None

    def toks(self, v):
        return []

    def bits(self, v):
        return []

    def parse(self, p, st):
        return None

    def reuse(self, v):
        return 0


class Flag(Elem):
    kind = 'mod'

    def __init__(self, name, *bits):
        self.name, self.pos = '.' + name, bits

    def gen(self, g, st):
        return g.pick(2, self.name)

    def toks(self, v):
        return [self.name] if v else []

    def bits(self, v):
        return [(b, 1, v) for b in self.pos]

    def parse(self, p, st):
        if p.is_ident(self.name):
            p.next()
            return 1
        return 0


class Lit(Elem):
    """A required word; it may fix bits."""
    kind = 'mod'

    def __init__(self, text, *fields):
        self.name, self.fields = text, list(fields)

    def toks(self, v):
        return [self.name]

    def bits(self, v):
        return list(self.fields)

    def parse(self, p, st):
        if not p.is_ident(self.name):
            raise Reject('expected ' + self.name)
        p.next()


class OptLit(Elem):
    """An optional word without effect on the bits (e.g. LEA.LO)."""
    kind = 'mod'

    def __init__(self, text):
        self.name = text

    def gen(self, g, st):
        return g.pick(2, self.name)

    def toks(self, v):
        return [self.name] if v else []

    def parse(self, p, st):
        if p.is_ident(self.name):
            p.next()
            return 1
        return 0


class Tab(Elem):
    """A keyword from a table. v = None means left out (default)."""
    kind = 'mod'

    def __init__(self, shift, width, names, default=None, prefix='.', key=None, label=None):
        self.shift, self.width, self.default, self.prefix, self.key = shift, width, default, prefix, key
        self.names = names.split() if isinstance(names, str) else names
        self.opts = [i for i, n in enumerate(self.names) if n != '_']
        self.index = {prefix + self.names[i]: i for i in reversed(self.opts)}
        self.name = label or 'tab%d:%s' % (shift, self.names[self.opts[0]])
        assert max(self.opts + [default or 0]) < (1 << width)

    def gen(self, g, st):
        n = len(self.opts) + (self.default is not None)
        i = g.pick(n, self.name)
        if self.default is not None:
            if i == 0:
                return None
            i -= 1
        return self.opts[i]

    def toks(self, v):
        return [] if v is None else [self.prefix + self.names[v]]

    def bits(self, v):
        return [(self.shift, self.width, self.default if v is None else v)]

    def parse(self, p, st):
        t = p.peek()
        if t.kind == 'ident' and t.text in self.index:
            p.next()
            return self.index[t.text]
        if self.default is None:
            raise Reject('keyword expected')
        return None


class Comma(Elem):
    kind = 'comma'

    def toks(self, v):
        return [',']

    def parse(self, p, st):
        p.op(',')


REUSE = {8: 1, 20: 2, 39: 4}


class RegVal:
    __slots__ = ('idx', 'reuse', 'text')

    def __init__(self, idx, reuse=0, text=None):
        self.idx, self.reuse, self.text = idx, reuse, text

    def __eq__(self, o):
        return isinstance(o, RegVal) and (self.idx, self.reuse) == (o.idx, o.reuse)

    def __repr__(self):
        return 'R%d%s' % (self.idx, '.reuse' if self.reuse else '')

    def spelled(self):
        if self.text:
            return self.text
        return 'RZ' if self.idx == 255 else 'R%d' % self.idx


def gen_reg(g, label):
    k = g.pick(8, 'regmode')
    if k == 0:
        return 255
    if k <= 2:
        return (0, 1, 127, 128, 253, 254, 2, 64)[g.pick(8, label + 'b')]
    return g.pick(255, label)


class Reg(Elem):
    kind = 'reg'

    def __init__(self, shift, key=None):
        self.shift, self.key = shift, key
        self.name = 'R%d' % shift

    def gen(self, g, st):
        r = 0
        if self.shift in REUSE and g.reuse:
            r = int(g.pick(4, 'reuse') == 3)
        return RegVal(gen_reg(g, self.name), r)

    def toks(self, v):
        return [v.spelled()] + (['.reuse'] if v.reuse else [])

    def bits(self, v):
        return [(self.shift, 8, v.idx)]

    def reuse(self, v):
        return REUSE[self.shift] if v.reuse else 0

    def parse(self, p, st):
        t = p.take('reg')
        v = RegVal(t.val)
        if p.is_ident('.reuse'):
            if self.shift not in REUSE:
                raise Reject('register cannot be reused')
            p.next()
            v.reuse = 1
        return v


class Mirror(Elem):
    """A source register that must repeat the destination."""
    kind = 'mirror'
    name = 'mirror'

    def gen(self, g, st):
        return RegVal(st['dst'].idx)

    def toks(self, v):
        return [v.spelled()]

    def parse(self, p, st):
        t = p.take('reg')
        if p.is_ident('.reuse'):
            raise Reject('register cannot be reused')
        if t.val != st['dst'].idx:
            raise Reject('not mirrored')
        return RegVal(t.val)


class PredVal:
    __slots__ = ('idx', 'neg', 'text')

    def __init__(self, idx, neg=0, text=None):
        self.idx, self.neg, self.text = idx, neg, text

    def __eq__(self, o):
        return isinstance(o, PredVal) and (self.idx, self.neg) == (o.idx, o.neg)

    def __repr__(self):
        return self.spelled()

    def spelled(self):
        if self.text:
            return self.text
        return ('!' if self.neg else '') + ('PT' if self.idx == 7 else 'P%d' % self.idx)


class Pred(Elem):
    kind = 'pred'

    def __init__(self, shift, neg=False, inverted=False):
        self.shift, self.neg, self.inverted = shift, neg, inverted
        self.name = 'P%d' % shift

    def gen(self, g, st):
        return PredVal(g.pick(8, self.name), g.pick(2, 'pneg') if self.neg else 0)

    def toks(self, v):
        return [v.spelled()]

    def bits(self, v):
        r = [(self.shift, 3, 7 - v.idx if self.inverted else v.idx)]
        if self.neg:
            r.append((self.shift + 3, 1, v.neg))
        return r

    def parse(self, p, st):
        t = p.take('pred')
        v = PredVal(*t.val)
        if v.neg and not self.neg:
            raise Reject("predicate can't be negated")
        return v


class Sign(Elem):
    """An operator in front of an operand: '-' or '~'."""
    kind = 'sign'

    def __init__(self, op, bit, excl=None):
        self.opc, self.bit, self.excl = op, bit, excl
        self.name = op + str(bit)

    def gen(self, g, st):
        if self.excl is not None and (st.get('po') or st.get('neg%d' % self.excl)):
            return 0
        v = g.pick(2, self.name)
        st['neg%d' % self.bit] = v
        return v

    def toks(self, v):
        return [self.opc] if v else []

    def bits(self, v):
        return [(self.bit, 1, v)]

    def parse(self, p, st):
        t = p.peek()
        if t.kind == 'op' and t.text == self.opc:
            if self.excl is not None and (st.get('po') or st.get('neg%d' % self.excl)):
                raise Reject('negation collides with .PO')
            p.next()
            st['neg%d' % self.bit] = 1
            return 1
        return 0


class PostNegPo(Elem):
    """.NEG after an immediate, where both negations together would read as .PO."""
    kind = 'mod'
    name = '.NEG'

    def __init__(self, bit, excl):
        self.bit, self.excl = bit, excl

    def gen(self, g, st):
        if st.get('po') or st.get('neg%d' % self.excl):
            return 0
        return g.pick(2, self.name)

    def toks(self, v):
        return ['.NEG'] if v else []

    def bits(self, v):
        return [(self.bit, 1, v)]

    def parse(self, p, st):
        if p.is_ident('.NEG'):
            if st.get('po') or st.get('neg%d' % self.excl):
                raise Reject('negation collides with .PO')
            p.next()
            return 1
        return 0


class Po(Elem):
    kind = 'mod'
    name = '.PO'
    key = 'po'

    def __init__(self, b1, b2):
        self.b = (b1, b2)

    def gen(self, g, st):
        v = int(g.pick(3, self.name) == 2)
        return v

    def toks(self, v):
        return ['.PO'] if v else []

    def bits(self, v):
        # shares both negation bits; the negations are 0 when v is set
        return [('or', b, v) for b in self.b]

    def parse(self, p, st):
        if p.is_ident('.PO'):
            p.next()
            return 1
        return 0


class Abs(Elem):
    kind = 'abs'

    def __init__(self, bit, inner):
        self.bit, self.inner = bit, inner
        self.name = '|%d|' % bit + inner.name

    def gen(self, g, st):
        a = g.pick(2, '|%d' % self.bit)
        return (a, self.inner.gen(g, st))

    def toks(self, v):
        t = self.inner.toks(v[1])
        return ['|'] + t + ['|'] if v[0] else t

    def bits(self, v):
        return [(self.bit, 1, v[0])] + self.inner.bits(v[1])

    def reuse(self, v):
        return self.inner.reuse(v[1])

    def parse(self, p, st):
        t = p.peek()
        a = 0
        if t.kind == 'op' and t.text == '|':
            p.next()
            a = 1
        v = self.inner.parse(p, st)
        if a:
            p.op('|')
        return (a, v)


class Int(Elem):
    """Integer immediate in [lo, hi]; fields(v) says where the bits go."""
    kind = 'int'

    def __init__(self, lo, hi, fields, name):
        self.lo, self.hi, self.fields, self.name = lo, hi, fields, name

    def gen(self, g, st):
        if g.outside is self:
            v = outside_int(g, self.lo, self.hi, 'out')
        else:
            v = pick_int(g, self.lo, self.hi, self.name)
        return IntVal.make(v, spell_int(g, v))

    def toks(self, v):
        return [v.spelled()]

    def bits(self, v):
        return self.fields(int(v))

    def parse(self, p, st):
        t = p.take('int')
        if not self.lo <= t.val <= self.hi:
            raise Reject('out of range')
        return IntVal.make(t.val, t.text)


def UInt(width, shift):
    return Int(0, (1 << width) - 1, lambda v: [(shift, width, v)], 'u%d@%d' % (width, shift))


def SInt(width, shift):
    return Int(-(1 << (width - 1)), (1 << (width - 1)) - 1,
               lambda v: [(shift, width, v & ((1 << width) - 1))], 's%d@%d' % (width, shift))


def Imm20():
    """19 low bits at 20, sign at 56."""
    return Int(-(1 << 19), (1 << 19) - 1,
               lambda v: [(20, 19, v & 0x7FFFF), (56, 1, int(v < 0))], 's20')


def UExt20():
    """20-bit unsigned: 19 low bits at 20, top bit at 56."""
    return Int(0, (1 << 20) - 1, lambda v: [(20, 19, v & 0x7FFFF), (56, 1, v >> 19)], 'u20x')


class Zero(Elem):
    kind = 'int'
    name = 'zero'
    lo = hi = 0

    def gen(self, g, st):
        v = outside_int(g, 0, 0, 'out') if g.outside is self else 0
        return IntVal.make(v, spell_int(g, v))

    def toks(self, v):
        return [v.spelled()]

    def parse(self, p, st):
        t = p.take('int')
        if t.val != 0:
            raise Reject('expected 0')
        return IntVal.make(0, t.text)


# ---------------------------------------------------------------------------------------------
# floating point immediates: v = ('lit', text) | ('int', n, text) | ('inf'|'nan', sign token)

def gen_float(g, fmt):
    k = g.pick(16, 'fkind')
    if k == 0:
        return (('inf', 'nan')[g.pick(2, 'special')], ('', '+', '-')[g.pick(3, 'ssign')])
    if k <= 4:
        v = gen_float_int(g, fmt)
        return ('int', v, spell_int(g, v))
    sign = ('', '-', '+')[g.pick(3, 'fsign')]
    if k <= 6:
        ip, fp = g.pick(40, 'ip'), g.pick(1000, 'fp')
        return ('lit', '%s%d.%s' % (sign, ip, ('', str(fp), '%03d' % fp)[g.pick(3, 'fw')]))
    if k == 7:
        return ('lit', sign + gen_digits(g, fmt))
    if k == 8:
        return ('lit', sign + ('0.0', '0.', '00.000', '1.0', '0.5', '65504.0', '65519.99', '65520.0')[
            g.pick(8, 'flist')])
    if k <= 10:
        # few bits set: guard and sticky bits one at a time
        e = (-28 + g.pick(46, 'spe')) if fmt[0] == 'h' or g.pick(4, 'spn') else -155 + g.pick(290, 'spew')
        x = Fraction(1)
        for _ in range(g.pick(4, 'spc')):
            x += Fraction(1, 2 << g.pick(24 if fmt[0] != 'd' else 54, 'spb'))
        if g.pick(4, 'spt') == 3:
            x += Fraction(1, 2 << (24 + g.pick(100, 'spl')))
        return ('lit', sign + dec_text(x * Fraction(2) ** e, 0))
    # a value around an exactly representable point of one of the formats
    mant, emin, emax = ((10, -24, 16), (23, -149, 128), (52, -340, 400), (8, -30, 30), (9, -24, 16))[
        g.pick(5, 'ffmt')]
    e = emin - 2 + g.pick(emax - emin + 3, 'fexp')
    m = (1 << mant) + (g.big(1 << mant) if g.pick(4, 'fm') else (0, 1, (1 << mant) - 1, (1 << mant) - 2)[g.pick(4, 'fmb')])
    if g.pick(8, 'fdrop') == 0:
        m >>= g.pick(mant + 1, 'fdropn')
    x = Fraction(m) * Fraction(2) ** (e - mant)
    adj = g.pick(5, 'fadj')
    if adj == 1:
        x += Fraction(2) ** (e - mant - 1)            # half way: a tie
    elif adj == 2:
        x += Fraction(2) ** (e - mant - 1) + Fraction(2) ** (e - mant - 2 - g.pick(80, 'fdelta'))
    elif adj == 3:
        x += Fraction(2) ** (e - mant - 1) - Fraction(2) ** (e - mant - 2 - g.pick(80, 'fdelta'))
    return ('lit', sign + dec_text(x, g.pick(4, 'fdig')))


def gen_digits(g, fmt):
    """Literals by the look of their digits: powers of ten, repeated digits, zeros in front and behind, very long ones."""
    top = (12, 45, 330)[g.pick(3, 'dgtop')]
    ip = g.pick(top, None)
    fp = g.pick(top, None)
    k = g.pick(6, 'dgk')
    d = '123456789'[g.pick(9, 'dgd')]
    if k == 0:
        return d + '0' * ip + '.' + '0' * (fp % 5)
    if k == 1:
        return '0' * (ip % 4) + '.'.join(('0', '0' * fp + d))
    if k == 2:
        return d * (ip + 1) + '.' + d * fp
    if k == 3:
        return '0' * ip + d + '.' + d + '0' * fp
    if k == 4:
        return '10' * (ip // 2 + 1) + '.' + '01' * (fp // 2)
    return '0' * (ip % 3 + 1) + '.' + '0' * fp + ''.join(str(g.pick(10, None)) for _ in range(1 + g.pick(30, 'dgn')))


def dec_text(x, style):
    """Decimal text of a dyadic rational: exact, or cut to a number of digits."""
    ip = x.numerator // x.denominator
    fr = x - ip
    k = fr.denominator.bit_length() - 1
    digits = str(fr.numerator * 5 ** k).rjust(k, '0') if k else ''
    if style == 1:
        digits = digits[:20]
    elif style == 2:
        digits = digits[:60]
    return '%d.%s' % (ip, digits)


def gen_float_int(g, fmt):
    lim = 63
    k = g.pick(6, 'fik')
    if k <= 1:
        v = g.pick(2048, 'fi')
    else:
        b = g.pick(lim, 'fib')
        v = (1 << b)
        if k == 3:
            v += (1 << b >> 10) * g.pick(1024, 'fim')
        elif k == 4:
            v = v - 1
        elif k == 5:
            v += (1 << b >> 23) * g.big(1 << 23)
    if g.pick(2, 'fis'):
        v = -v
    if fmt in ('f20', 'f32'):
        # keep only what single precision holds exactly (the others are rejected, see C03)
        while abs(v) and f32_value(f32_bits(Fraction(abs(v)))) != abs(v):
            low = abs(v).bit_length() - 24
            v = (abs(v) >> low << low) * (1 if v > 0 else -1)
    return v


class FImm(Elem):
    kind = 'float'

    def __init__(self, fmt, shift=20, negbit=None):
        self.fmt, self.shift, self.negbit = fmt, shift, negbit
        self.name = 'fimm:%s@%d' % (fmt, shift)

    def gen(self, g, st):
        if g.outside is self and self.fmt in ('f20', 'f32'):
            b = 24 + g.pick(39, 'fob')
            v = (1 << b) + 1 + 2 * g.big(1 << (b - 1))
            if f32_value(f32_bits(Fraction(v))) == v:
                v = (1 << 24) + 1
            v = -v if g.pick(2, 'fos') else v
            return ('int', v, spell_int(g, v))
        if g.outside is self:
            v = (1 << (64 + g.pick(10, 'fob'))) + g.big(1 << 40)
            v = -v if g.pick(2, 'fos') else v
            return ('int', v, spell_int(g, v))
        return gen_float(g, self.fmt)

    def toks(self, v):
        if v[0] == 'lit':
            return [v[1]]
        if v[0] == 'int':
            return [v[2]]
        return ([v[1]] if v[1] else []) + ['INF' if v[0] == 'inf' else 'QNAN']

    def signmag(self, v):
        if v[0] == 'lit':
            return dec_fraction(v[1])
        return v[1] < 0, Fraction(abs(v[1]))

    def bits(self, v):
        special = v[0] in ('inf', 'nan')
        if special:
            neg = v[1] == '-'
        else:
            neg, mag = self.signmag(v)
        neg = int(neg)
        if self.fmt in ('f20', 'f32'):
            raw = (0x7F800000 if v[0] == 'inf' else 0x7FC00000) if special else f32_bits(mag)
            if self.fmt == 'f32':
                return [(20, 32, raw | neg << 31)]
            return [(20, 19, raw >> 12), (56, 1, neg)]
        if self.fmt == 'd20':
            raw = (0x7FF << 52 if v[0] == 'inf' else 0xFFF << 51) if special else f64_bits(mag)
            return [(20, 19, raw >> 44), (56, 1, neg)]
        raw = (0x7C00 if v[0] == 'inf' else 0x7FFF) if special else f16_from_f32(f32_bits(mag))
        if self.fmt == 'h16':
            return [(self.shift, 16, raw | neg << 15)]
        return [(self.shift, 9, raw >> 6), (self.negbit, 1, neg)]

    def parse(self, p, st):
        t = p.peek()
        if t.kind == 'float':
            p.next()
            return ('lit', t.text)
        if t.kind == 'int':
            if self.fmt in ('f20', 'f32') and f32_value(f32_bits(Fraction(abs(t.val)))) != abs(t.val):
                raise Reject('not representable')
            p.next()
            return ('int', t.val, t.text)
        sign = ''
        if t.kind == 'op' and t.text in '+-':
            sign = t.text
            p.next()
        if p.is_ident('INF'):
            p.next()
            return ('inf', sign)
        if p.is_ident('QNAN'):
            p.next()
            return ('nan', sign)
        raise Reject('float expected')


# ---------------------------------------------------------------------------------------------
# addresses

class Cbuf(Elem):
    kind = 'cbuf'
    name = 'cbuf'
    parts = 2

    def gen(self, g, st):
        bank = g.pick(32, 'bank')
        off = pick_int(g, -8192, 8191, 'cboff') * 4
        if g.outside is self:
            k = g.pick(4, 'cbout')
            if k == 0:
                bank = outside_int(g, 0, 31, 'cbo')
            elif k == 1:
                off = outside_int(g, -32768, 32767, 'cbo')
                off = off & ~3 if not -32768 <= (off & ~3) <= 32767 else off
            else:
                off += 1 + g.pick(3, 'mis')
                if off > 32767:
                    off -= 4
        return (IntVal.make(bank, spell_int(g, bank)), IntVal.make(off, spell_int(g, off)))

    def toks(self, v):
        return ['c', '[', v[0].spelled(), ']', '[', v[1].spelled(), ']']

    def bits(self, v):
        return [(20, 14, (v[1] >> 2) & 0x3FFF), (34, 5, int(v[0]))]

    def parse(self, p, st):
        p.word('c')
        p.op('[')
        b = p.take('int')
        if not 0 <= b.val <= 31:
            raise Reject('bank')
        p.op(']')
        p.op('[')
        o = p.take('int')
        if not -32768 <= o.val <= 32767 or o.val % 4:
            raise Reject('offset')
        p.op(']')
        return (IntVal.make(b.val, b.text), IntVal.make(o.val, o.text))


class Mem(Elem):
    """[Rn+offset]; v = (RegVal or None, IntVal or None)."""
    kind = 'mem'

    def __init__(self, off=True, shift=20, width=24, unit=1):
        self.off, self.shift, self.width, self.unit = off, shift, width, unit
        self.name = 'mem%d@%d' % (width, shift) if off else 'mem'

    def range(self, based):
        if based:
            return -(1 << (self.width - 1)), (1 << (self.width - 1)) - 1
        return 0, (1 << self.width) - 1

    def gen(self, g, st):
        base = None
        if g.pick(4, 'membase'):
            base = RegVal(gen_reg(g, self.name))
            if g.reuse:
                base.reuse = int(g.pick(4, 'reuse') == 3)
        off = None
        if self.off and (g.outside is self or g.pick(5, 'memoff')):
            lo, hi = self.range(base is not None and base.idx != 255)
            u = self.unit
            v = pick_int(g, -(-lo // u), hi // u, self.name) * u
            if g.outside is self:
                if u > 1 and g.pick(2, 'misal'):
                    v += 1 + g.pick(u - 1, 'mis')
                    v = v - u if v > hi else v
                else:
                    v = outside_int(g, lo, hi, 'mo')
            text = spell_int(g, v, signed_prefix=base is not None and v >= 0 and g.pick(8, 'mplus') != 7)
            off = IntVal.make(v, text)
        return (base, off)

    def toks(self, v):
        r = ['[']
        if v[0] is not None:
            r.append(v[0].spelled())
            if v[0].reuse:
                r.append('.reuse')
        if v[1] is not None:
            r.append(v[1].spelled())
        return r + [']']

    def bits(self, v):
        r = [(8, 8, 255 if v[0] is None else v[0].idx)]
        if self.off:
            o = 0 if v[1] is None else int(v[1])
            r.append((self.shift, self.width, (o // self.unit) & ((1 << self.width) - 1)))
        return r

    def reuse(self, v):
        return 1 if v[0] is not None and v[0].reuse else 0

    def parse(self, p, st):
        p.op('[')
        base = off = None
        t = p.peek()
        if t.kind == 'reg':
            p.next()
            base = RegVal(t.val)
            if p.is_ident('.reuse'):
                p.next()
                base.reuse = 1
        t = p.peek()
        if self.off and t.kind == 'int':
            lo, hi = self.range(base is not None and base.idx != 255)
            if not lo <= t.val <= hi or t.val % self.unit:
                raise Reject('offset')
            p.next()
            off = IntVal.make(t.val, t.text)
        p.op(']')
        return (base, off)


class LdcAddr(Elem):
    kind = 'mem'
    name = 'ldc'

    def __init__(self):
        self.mem = Mem(True, 20, 16)

    def gen(self, g, st):
        if g.outside is self:
            if g.pick(3, 'ldco') == 0:
                b = outside_int(g, 0, 31, 'lb')
                return (IntVal.make(b, spell_int(g, b)), self.mem.gen(g, st))
            g.outside = self.mem
            m = self.mem.gen(g, st)
            g.outside = self
            b = g.pick(32, 'bank')
            return (IntVal.make(b, spell_int(g, b)), m)
        b = g.pick(32, 'bank')
        return (IntVal.make(b, spell_int(g, b)), self.mem.gen(g, st))

    def toks(self, v):
        return ['c', '[', v[0].spelled(), ']'] + self.mem.toks(v[1])

    def bits(self, v):
        return [(36, 5, int(v[0]))] + self.mem.bits(v[1])

    def reuse(self, v):
        return self.mem.reuse(v[1])

    def parse(self, p, st):
        p.word('c')
        p.op('[')
        b = p.take('int')
        if not 0 <= b.val <= 31:
            raise Reject('bank')
        p.op(']')
        return (IntVal.make(b.val, b.text), self.mem.parse(p, st))


class AttrImm(Elem):
    kind = 'mem'
    name = 'a[imm]'

    def __init__(self):
        self.i = UInt(10, 20)

    def gen(self, g, st):
        if g.outside is self:
            v = outside_int(g, 0, 1023, 'ao')
            return IntVal.make(v, spell_int(g, v))
        return self.i.gen(g, st)

    def toks(self, v):
        return ['a', '['] + self.i.toks(v) + [']']

    def bits(self, v):
        return self.i.bits(v) + [(8, 8, 255)]

    def parse(self, p, st):
        p.word('a')
        p.op('[')
        v = self.i.parse(p, st)
        p.op(']')
        return v


class AttrPatch(Elem):
    kind = 'mem'
    name = 'a[R+imm]'

    def __init__(self):
        self.r, self.i = Reg(8), SInt(11, 20)

    def gen(self, g, st):
        r = self.r.gen(g, st)
        if g.outside is self:
            v = outside_int(g, -1024, 1023, 'apo')
        else:
            v = pick_int(g, -1024, 1023, 'patch')
        plus = g.pick(2, 'pplus')
        return (r, plus, IntVal.make(v, spell_int(g, v, signed_prefix=not plus and v >= 0)))

    def toks(self, v):
        return ['a', '['] + self.r.toks(v[0]) + (['+'] if v[1] else []) + [v[2].spelled(), ']']

    def bits(self, v):
        return self.r.bits(v[0]) + self.i.bits(v[2])

    def reuse(self, v):
        return self.r.reuse(v[0])

    def parse(self, p, st):
        p.word('a')
        p.op('[')
        r = self.r.parse(p, st)
        plus = 0
        if p.peek().kind == 'op' and p.peek().text == '+':
            p.next()
            plus = 1
        v = self.i.parse(p, st)
        p.op(']')
        return (r, plus, v)


class AttrPhys(Elem):
    kind = 'mem'
    name = 'a[R]'

    def __init__(self):
        self.r = Reg(8)

    def gen(self, g, st):
        return self.r.gen(g, st)

    def toks(self, v):
        return ['a', '['] + self.r.toks(v) + [']']

    def bits(self, v):
        return self.r.bits(v)

    def reuse(self, v):
        return self.r.reuse(v)

    def parse(self, p, st):
        p.word('a')
        p.op('[')
        v = self.r.parse(p, st)
        p.op(']')
        return v


class Target(Elem):
    """Branch target: v = ('num', IntVal) or ('lab', name)."""
    kind = 'target'
    name = 'target'

    def gen(self, g, st):
        pc = st['pc']
        k = g.target(st)
        if k is not None:
            return ('lab', k)
        lo, hi = pc + 8 - (1 << 23), pc + 8 + (1 << 23) - 1
        if g.outside is self:
            v = outside_int(g, lo, hi, 'tgo')
        else:
            d = pick_int(g, -(1 << 23), (1 << 23) - 1, 'tgt')
            v = pc + 8 + d
        return ('num', IntVal.make(v, spell_int(g, v)))

    def toks(self, v):
        return [v[1]] if v[0] == 'lab' else [v[1].spelled()]

    def bits_at(self, v, pc, labels):
        a = labels[v[1]] if v[0] == 'lab' else int(v[1])
        d = a - pc - 8
        return [(20, 24, d & 0xFFFFFF)]

    def parse(self, p, st):
        t = p.peek()
        if t.kind == 'ident':
            if t.text not in st['labels']:
                raise Reject('undefined label')
            a = st['labels'][t.text]
            v = ('lab', t.text)
        elif t.kind == 'int':
            a = t.val
            v = ('num', IntVal.make(t.val, t.text))
        else:
            raise Reject('target')
        if not -(1 << 23) <= a - st['pc'] - 8 < (1 << 23):
            raise Reject('target out of range')
        p.next()
        return v


class DefaultRZ(Elem):
    kind = 'fixed'

    def __init__(self, shift):
        self.shift = shift
        self.name = 'rz%d' % shift

    def bits(self, v):
        return [(self.shift, 8, 255)]
