"""Reference description of every instruction form (Maxwell ISA as nxas spells it).

This is a specification of its own: it is never read from /repo. Fields and opcodes were checked
against the public Maxwell encoding and the repository's test vectors; where the tree this was
written against deviated, DESIGN.md says so (those deviations were repaired in /repo).
"""
from .elems import *          # noqa: F401,F403
from .elems import Elem, Tab, Flag, Lit, OptLit, Reject, RegVal, Sign

FORMS = []


class Form:
    __slots__ = ('idx', 'opcode', 'mnemonic', 'elems', 'nopred', 'sig')

    def __init__(self, opcode, mnemonic, elems, nopred):
        self.idx = len(FORMS)
        self.opcode, self.mnemonic, self.elems, self.nopred = opcode, mnemonic, elems, nopred
        self.sig = '%s#%d' % (mnemonic, self.idx)

    def __repr__(self):
        return self.sig


def I(opcode, mnemonic, elems, nopred=False):
    FORMS.append(Form(opcode, mnemonic, [e() if callable(e) else e for e in elems], nopred))


# ---------------------------------------------------------------------------------------------
# plain kinds

def flag(name):
    return lambda *bits: Flag(name, *bits)


def lit(text, *fields):
    return lambda: Lit(text, *fields)


C = Comma
dgpr = lambda s: Reg(s, 'dst' if s == 0 else 'd28' if s == 28 else None)
sgpr = lambda s: Reg(s)
mirror_dgpr = lambda s: Mirror()
cbuf = Cbuf
imm = Imm20
uimm_extended = UExt20
uimm32 = lambda: UInt(32, 20)
simm32 = lambda: SInt(32, 20)
uimm16 = lambda: UInt(16, 20)
nop_mask = lambda: UInt(16, 20)
uinteger = UInt
sinteger = SInt
mask4 = lambda s: UInt(4, s)
zero = Zero
fimm = lambda: FImm('f20')
fimm32 = lambda: FImm('f32')
dimm20 = lambda: FImm('d20')
fimm9_low = lambda b: FImm('h9', 20, b)
fimm9_high = lambda b: FImm('h9', 30, b)
fimm16_low = lambda: FImm('h16', 20)
fimm16_high = lambda: FImm('h16', 36)
pred = lambda s, neg=False: Pred(s, neg)
inverted_pred = lambda s: Pred(s, False, True)
neg = lambda b, excl=None: Sign('-', b, excl)
tilde = lambda b: Sign('~', b)
abs_ = Abs
po = Po
post_neg = flag('NEG')
post_neg_po = PostNegPo
post_abs = flag('ABS')
default_rz = DefaultRZ
label = Target


def memory_address(off=True, shift=20, width=24, shr=0):
    return Mem(off, shift, width, 1 << shr)


ldc_address = LdcAddr
ald_imm_attr, ald_patch_attr, ald_phys_attr = AttrImm, AttrPatch, AttrPhys

cc = lambda b=47: Flag('CC', b)
psl, x, mrg, brev, ftz, sat = flag('PSL'), flag('X'), flag('MRG'), flag('BREV'), flag('FTZ'), flag('SAT')
bf, h_and, u, lmt, w, sh, inv = flag('BF'), flag('H_AND'), flag('U'), flag('LMT'), flag('W'), flag('SH'), flag('INV')
ndv, nodep, dc, aoffi, lc, ms, cl = (flag(n) for n in 'NDV NODEP DC AOFFI LC MS CL'.split())
al2p_o = ald_o = lambda: Flag('O', 32)
stg_e = lambda: Flag('E', 45)
atom_e = red_e = lambda: Flag('E', 48)
lds_u = lambda: Flag('U', 44)
nop_trig = lambda: Flag('TRIG', 13)
keeprefcount = lambda: Flag('KEEPREFCOUNT', 5)
image_ba = flag('BA')

ald_p = lit('.P', (31, 1, 1))
ald_phys = lit('.PHYS')
b2r_warp = lit('.WARP', (32, 4, 0xE), (8, 8, 0xFF))
b2r_result = lit('.RESULT', (32, 4, 0xD), (8, 8, 0xFF))
cc_text = lit('CC')
lop3_lut, lea_hi, shf_r, shf_l = lit('.LUT'), lit('.HI'), lit('.R'), lit('.L')
image_p = lit('.P')
image_d = lit('.D', (52, 1, 1))
b_text, lod_text = lit('.B'), lit('.LOD')
lea_lo = lambda: OptLit('.LO')


def tab(shift, width, names, default=None, **kw):
    return lambda: Tab(shift, width, names, default, **kw)


def tabs(width, names, default=None, **kw):
    return lambda shift: Tab(shift, width, names, default, **kw)


TESTS = ('F LT EQ LE GT NE GE NUM NAN LTU EQU LEU GTU NEU GEU T OFF LO SFF LS HI SFT HS OFT CSM_TA '
         'CSM_TR CSM_MX FCSM_TA FCSM_TR FCSM_MX RLE RGT')

half = tabs(1, 'H0 H1', 0)
byte_selector = tabs(2, 'B0 B1 B2 B3', 0)
fp_rounding = tabs(2, 'RN RM RP RZ', 0)
bop = tabs(2, 'AND OR XOR INVALIDBOP3')
float_compare = tabs(4, ' '.join(TESTS.split()[:16]))
integer_compare = tabs(3, 'F LT EQ LE GT NE GE T')
int_sign = tab(48, 1, 'U32 S32', 1)
memory_size = tab(48, 3, 'U8 S8 U16 S16 32 64 128', 4)
store_cache = tabs(2, '_ CG CS WT', 0)
load_cache = tabs(2, '_ CG CI CV', 0)
stl_cache = tab(44, 2, '_ CG CS WT', 0)
ldl_cache = tab(44, 2, '_ LU CI CV', 0)
ldg_cache = tab(46, 2, '_ CG CI CV', 0)
rro_mode = tab(39, 1, 'SINCOS EX2')
lop_bit_op = tabs(2, 'AND OR XOR PASS_B')
lop_pred_op = tab(44, 2, '_ T Z NZ', 0)
lop3_operation = tab(36, 2, '_ T Z NZ', 0)
amem_size = ald_size = tab(47, 2, '32 64 96 128', 0)
cc_tests = tab(8, 5, TESTS, 15)
xmad_mode_a = tab(50, 3, '_ CLO CHI CSFU CBCC', 0)
xmad_mode_b = tab(50, 2, '_ CLO CHI CSFU', 0)
shr_format = bfe_format = tab(48, 1, 'U32 S32', 1)
shr_mode = tab(39, 1, 'C W', 0)
shr_xmode = tab(43, 2, '_ INVALIDSHRXMODE1 X XHI', 0)
bpt_mode = tab(6, 3, 'DRAIN_ILLEGAL CAL PAUSE TRAP INT DRAIN')
fmul_fmz = tabs(2, '_ FTZ FMZ INVALIDFMZ3', 0)
fmul_scale = tab(41, 3, '_ D2 D4 D8 M8 M4 M2 INVALIDSCALE37', 0)
iadd3_shift = tab(37, 2, '_ RS LS', 0)
iadd3_half = tabs(2, '_ H0 H1', 0)
f2i_rounding = tab(39, 2, '_ FLOOR CEIL TRUNC', 0)
p2r_mode = tabs(1, 'PR CC', prefix='')
fp16_merge = tabs(2, '_ F32 MRG_H0 MRG_H1', 0)
fp16_control = tabs(2, '_ FTZ FMZ', 0)
fp16_swizzle = tabs(2, 'H1_H0 F32 H0_H0 H1_H1', 0)
mufu_operation = tab(20, 4, 'COS SIN EX2 LG2 RCP RSQ RCP64H RSQ64H SQRT')
imnmx_mode = tab(43, 2, '_ XLO XMED XHI', 0)
ldc_mode = tab(44, 2, '_ IL IS ISL', 0)
ldc_size = tab(48, 3, 'U8 S8 U16 S16 32 64')
image_type = tab(33, 3, '1D 1D_BUFFER 1D_ARRAY 2D 2D_ARRAY 3D')
image_rgba = tab(20, 4, '_ R G RG B RB GB RGB A RA GA RGA BA RBA GBA RGBA', 15)
image_size = tab(20, 3, 'U8 S8 U16 S16 32 64 128', 4)
image_clamp = tab(49, 2, 'IGN _ TRAP', 1)
shfl_mode = tab(30, 2, 'IDX UP DOWN BFLY')
atoms_operation = tab(52, 4, 'ADD MIN MAX INC DEC AND OR XOR EXCH')
atoms_size = tab(28, 2, 'U32 S32 U64 S64')
atom_operation = tab(52, 4, 'ADD MIN MAX INC DEC AND OR XOR EXCH SAFEADD')
vote_operation = tab(48, 2, 'ALL ANY EQ')
shf_max_shift = tab(37, 2, '32 INVALIDMAXSHIFT3 U64 S64', 0)
shf_xmode = tab(48, 2, '_ HI X XHI', 0)
noinc = tab(6, 1, 'NOINC INC', 1)
video_dest_sign = tab(54, 1, 'UD SD', 1)
video_mx = tabs(1, 'MN MX', 0)
video_vmnmx_op = tabs(3, 'MRG_16H MRG_16L MRG_8B0 MRG_8B2 ACC MIN MAX', 7)
vmad_scale = tab(51, 2, '_ SHR_7 SHR_15 INVALIDVMADSCALE3', 0)
red_operation = tab(23, 3, 'ADD MIN MAX INC DEC AND OR XOR', 0)
blod = tabs(3, '_ LZ LB LL INVALIDBLOD4 INVALIDBLOD5 LBA LLA', 0)
tex_type = tabs(3, '1D ARRAY_1D 2D ARRAY_2D 3D ARRAY_3D CUBE ARRAY_CUBE', prefix='')
sample_size = tabs(1, 'F16 _', 1)
sample_size_inv = tabs(1, '_ F16', 0)
tld4_component = tabs(2, 'R G B A')
tld4_offset = tabs(2, '_ AOFFI PTP', 0)
tld_lod = tabs(1, 'LZ LL')
txq_mode = tab(22, 6, '_ TEX_HEADER_DIMENSION TEX_HEADER_TEXTURE_TYPE _ _ TEX_HEADER_SAMPLER_POS', prefix='')


# ---------------------------------------------------------------------------------------------
# kinds whose spelling is more than one word, or depends on what precedes

class Words(Elem):
    """One of several spellings, each a list of words with fields; index 0 may be the empty one."""
    kind = 'mod'

    def __init__(self, name, choices, key=None):
        self.name, self.choices, self.key = name, choices, key

    def gen(self, g, st):
        return g.pick(len(self.choices), self.name)

    def toks(self, v):
        return list(self.choices[v][0])

    def bits(self, v):
        return list(self.choices[v][1])

    def parse(self, p, st):
        t = p.peek()
        first = t.text if t.kind == 'ident' else None
        cand = [i for i, c in enumerate(self.choices) if c[0] and c[0][0] == first]
        if not cand:
            for i, c in enumerate(self.choices):
                if not c[0]:
                    return i
            raise Reject('keyword expected')
        # longest match among those sharing the first word
        cand.sort(key=lambda i: -len(self.choices[i][0]))
        for i in cand:
            ws = self.choices[i][0]
            if p.words_ahead(len(ws)) == list(ws):
                for _ in ws:
                    p.next()
                return i
        raise Reject('incomplete keyword')


def xmad_signs():
    ch = [([], [(48, 1, 0), (49, 1, 0)])]
    for a in 0, 1:
        for b in 0, 1:
            ch.append((['.S16' if a else '.U16', '.S16' if b else '.U16'], [(48, 1, a), (49, 1, b)]))
    return Words('xmad', ch)


def ldg_size():
    ch = [([], [(48, 3, 4)])]
    for i, n in enumerate('U8 S8 U16 S16 32 64 128'.split()):
        ch.append((['.' + n], [(48, 3, i)]))
    ch.append((['.U', '.128'], [(48, 3, 7)]))
    return Words('ldgsize', ch)


def atomic_size(s):
    ch = [([], [(s, 3, 0)])]
    for i, n in enumerate(('.U32', '.S32', '.U64', '.F32 .FTZ .RN', '.F16x2 .RN', '.S64')):
        ch.append((n.split(), [(s, 3, i)]))
    return Words('atomsize', ch)


def flow_tests():
    ch = [([], [(0, 5, 15)])]
    for i, n in enumerate(TESTS.split()):
        ch.append((['CC', '.' + n], [(0, 5, i)]))
    return Words('flow', ch, 'flow')


SR = ('LANEID CLOCK VIRTCFG VIRTID PM0 PM1 PM2 PM3 PM4 PM5 PM6 PM7 - - - ORDERING_TICKET PRIM_TYPE '
      'INVOCATION_ID Y_DIRECTION THREAD_KILL - DIRECTCBEWRITEADDRESSLOW DIRECTCBEWRITEADDRESSHIGH '
      'DIRECTCBEWRITEENABLED MACHINE_ID_0 MACHINE_ID_1 MACHINE_ID_2 MACHINE_ID_3 AFFINITY '
      'INVOCATION_INFO WSCALEFACTOR_XY WSCALEFACTOR_Z TID TID.X TID.Y TID.Z CTA_PARAM CTAID.X CTAID.Y '
      'CTAID.Z NTID CirQueueIncrMinusOne NLATC - SM_SPA_VERSION MULTIPASSSHADERINFO LWINHI SWINHI SWINLO '
      'SWINSZ SMEMSZ SMEMBANKS LWINLO LWINSZ LMEMLOSZ LMEMHIOFF EQMASK LTMASK LEMASK GTMASK GEMASK '
      'REGALLOC BARRIERALLOC - GLOBALERRORSTATUS - WARPERRORSTATUS WARPERRORSTATUSCLEAR - - - - PM_HI0 '
      'PM_HI1 PM_HI2 PM_HI3 PM_HI4 PM_HI5 PM_HI6 PM_HI7 CLOCKLO CLOCKHI GLOBALTIMERLO GLOBALTIMERHI '
      + '- ' * 12 + 'HWTASKID CIRCULARQUEUEENTRYINDEX CIRCULARQUEUEENTRYADDRESSLOW '
      'CIRCULARQUEUEENTRYADDRESSHIGH ' + '- ' * 156).split()
assert len(SR) == 256


def s2r():
    ch = []
    for i, n in enumerate(SR):
        if i == 20:
            ws = ['SM_SHADER_TYPE']
        elif n == '-':
            ws = ['SR%d' % i]
        elif '.' in n:
            a, b = n.split('.')
            ws = ['SR_' + a, '.' + b]
        else:
            ws = ['SR_' + n]
        ch.append((ws, [(20, 8, i)]))
    return Words('s2r', ch)


class FloatFormat(Tab):
    """.F16/.F32/.F64, default .F32; with two in a row, only the second may be left out alone."""

    def __init__(self, shift):
        Tab.__init__(self, shift, 2, '_ F16 F32 F64', 2, key='ff%d' % shift)

    def gen(self, g, st):
        if self.shift == 10 and 'ff8' in st and st['ff8'] is None:
            return None
        return Tab.gen(self, g, st)


float_format = FloatFormat


class F2fRounding(Elem):
    kind = 'mod'
    name = 'f2fround'
    SAME = {'.ROUND': 8, '.FLOOR': 9, '.CEIL': 10, '.TRUNC': 11, '.PASS': 3}
    CONV = {'.RN': 0, '.RM': 1, '.RP': 2, '.RZ': 3}

    def names(self, st):
        d, s = st['ff8'], st['ff10']
        return self.SAME if (2 if d is None else d) == (2 if s is None else s) else self.CONV

    def gen(self, g, st):
        n = self.names(st)
        i = g.pick(len(n) + 1, self.name + str(len(n)))
        return (None, 0) if i == 0 else sorted(n.items())[i - 1]

    def toks(self, v):
        return [v[0]] if v[0] else []

    def bits(self, v):
        # 39..40 and, for integer rounding, bit 42 (bit 41 belongs to the half selector)
        return [(39, 2, v[1] & 3), (42, 1, v[1] >> 3)]

    def parse(self, p, st):
        n = self.names(st)
        t = p.peek()
        if t.kind == 'ident' and t.text in n:
            p.next()
            return (t.text, n[t.text])
        return (None, 0)


f2f_rounding = F2fRounding


class IntFormat(Elem):
    """.U8 ... .S64 with a size field and a sign bit."""
    kind = 'mod'

    def __init__(self, shift, sign, sizes, key=None, zero=None):
        self.shift, self.sign, self.key = shift, sign, key
        self.name = 'intfmt%d' % shift
        self.opts = {}
        for i, s in enumerate(sizes):
            for sg in 0, 1:
                n = '.%s%s' % ('US'[sg], s) if s is not None else '.INVALID%d' % sg
                self.opts[n] = (i, sg)
        self.order = list(self.opts)

    def gen(self, g, st):
        n = self.order[g.pick(len(self.order), self.name)]
        return (n,) + self.opts[n]

    def toks(self, v):
        return [v[0]]

    def bits(self, v):
        return [(self.shift, 2, v[1]), (self.sign, 1, v[2])]

    def parse(self, p, st):
        t = p.peek()
        if t.kind != 'ident' or t.text not in self.opts:
            raise Reject('format')
        p.next()
        return (t.text,) + self.opts[t.text]


f2i_int_format = lambda: IntFormat(8, 12, (None, 16, 32, 64))
i2f_int_format = lambda: IntFormat(10, 13, (8, 16, 32, 64), 'srcfmt')
i2i_format = lambda s, sg: IntFormat(s, sg, (8, 16, 32), 'srcfmt' if s == 10 else None)


class IntSelector(Elem):
    """Which byte or half of the source: halves for 16-bit sources, bytes otherwise."""
    kind = 'mod'
    name = 'intsel'
    BYTES = ('.B0', '.B1', '.B2', '.B3')
    HALVES = ('.H0', '.INVALIDSIZE1', '.H1', '.INVALIDSIZE3')

    def names(self, st):
        return self.HALVES if st['srcfmt'][1] == 1 else self.BYTES

    def gen(self, g, st):
        n = self.names(st)
        i = g.pick(5, self.name + n[0])
        return None if i == 0 else (n[i - 1], i - 1)

    def toks(self, v):
        return [v[0]] if v else []

    def bits(self, v):
        return [(41, 2, v[1] if v else 0)]

    def parse(self, p, st):
        t = p.peek()
        n = self.names(st)
        if t.kind == 'ident' and t.text in n:
            p.next()
            return (t.text, n.index(t.text))
        return None


i2f_selector = i2i_selector = IntSelector


class VideoFormat(Elem):
    """Source format of a video instruction; selectors share the field: 0-3 bytes, 4-5 halves, 6 word."""
    kind = 'mod'
    OPTS = {'.S8': (0, 1), '.S16': (2, 1), '.S32': (3, 1), '.U8': (0, 0), '.U16': (2, 0), '.U32': (3, 0)}

    def __init__(self, shift, sign):
        self.shift, self.sign, self.key = shift, sign, 'vf%d' % shift
        self.name = 'vfmt%d' % shift

    def gen(self, g, st):
        if self.shift == 29 and st['vf37'][0] is None:
            return (None, 3, 1)       # ".U8" alone would be read as the first format
        i = g.pick(7, self.name)
        if i == 0:
            return (None, 3, 1)
        n = sorted(self.OPTS)[i - 1]
        return (n,) + self.OPTS[n]

    def toks(self, v):
        return [v[0]] if v[0] else []

    def bits(self, v):
        return [(self.shift, 2, v[1]), (self.sign, 1, v[2])]

    def parse(self, p, st):
        t = p.peek()
        if t.kind == 'ident' and t.text in self.OPTS:
            p.next()
            return (t.text,) + self.OPTS[t.text]
        return (None, 3, 1)


video_src_format = VideoFormat


class VideoImmFormat(Elem):
    kind = 'mod'
    name = 'vimmfmt'

    def __init__(self, shift, sign):
        self.sign = sign

    def gen(self, g, st):
        if st['vf37'][0] is None:
            return None
        return (None, 0, 1)[g.pick(3, self.name)]

    def toks(self, v):
        return [] if v is None else ['.' + 'US'[v] + '16']

    def bits(self, v):
        return [(self.sign, 1, 1 if v is None else v)]

    def parse(self, p, st):
        for v in 0, 1:
            if p.is_ident('.' + 'US'[v] + '16'):
                p.next()
                return v
        return None


video_imm_format = VideoImmFormat


class VideoSelector(Elem):
    kind = 'mod'

    def __init__(self, shift, fmt):
        self.shift, self.fkey = shift, 'vf%d' % fmt
        self.name = 'vsel%d' % shift

    def names(self, st):
        return {0: ('.B0', '.B1', '.B2', '.B3'), 2: ('.H0', '.H1'), 3: ()}[st[self.fkey][1]]

    def gen(self, g, st):
        n = self.names(st)
        i = g.pick(len(n) + 1, self.name + str(len(n)))
        return None if i == 0 else (n[i - 1], i - 1)

    def toks(self, v):
        return [v[0]] if v else []

    def bits(self, v):
        v = v[1] if v else 0
        return [(self.shift, 1, v & 1), ('or', self.shift + 1, v >> 1)]

    def parse(self, p, st):
        n = self.names(st)
        t = p.peek()
        if t.kind == 'ident' and t.text in n:
            p.next()
            return (t.text, n.index(t.text))
        return None


video_selector = VideoSelector


class VsetpCompare(Elem):
    kind = 'mod'
    name = 'vsetpcmp'
    NAMES = ('.F', '.LT', '.EQ', '.LE', '.GT', '.NE', '.GE', '.T')

    def __init__(self, shift):
        self.shift = shift

    def gen(self, g, st):
        return g.pick(8, self.name)

    def toks(self, v):
        return [self.NAMES[v]]

    def bits(self, v):
        return [(self.shift, 2, v & 3), (self.shift + 4, 1, v >> 2)]

    def parse(self, p, st):
        t = p.peek()
        if t.kind != 'ident' or t.text not in self.NAMES:
            raise Reject('comparison')
        p.next()
        return self.NAMES.index(t.text)


vsetp_integer_compare = VsetpCompare


class TexsMode(Elem):
    kind = 'mod'
    name = 'texsmode'
    key = 'texsmode'

    def __init__(self, shift):
        pass

    def gen(self, g, st):
        return (('', 'LZ', 'LL')[g.pick(3, 'texslod')], g.pick(2, 'texsdc'))

    def toks(self, v):
        return (['.' + v[0]] if v[0] else []) + (['.DC'] if v[1] else [])

    def parse(self, p, st):
        lod = ''
        if p.is_ident('.LZ') or p.is_ident('.LL'):
            lod = p.next().text[1:]
        d = 0
        if p.is_ident('.DC'):
            p.next()
            d = 1
        return (lod, d)


texs_mode = TexsMode


class ModeType(Elem):
    """Texture type whose code also carries the modifiers."""
    kind = 'mod'

    def __init__(self, shift, name, table, mode):
        self.shift, self.name, self.table, self.mode = shift, name, table, mode

    def legal(self, st):
        m = self.mode(st)
        return {t: c for (t, mm), c in self.table.items() if mm == m}

    def gen(self, g, st):
        l = self.legal(st)
        n = sorted(l)[g.pick(len(l), self.name + str(self.mode(st)))]
        return (n, l[n])

    def toks(self, v):
        return [v[0]]

    def bits(self, v):
        return [(self.shift, 4, v[1])]

    def parse(self, p, st):
        t = p.peek()
        l = self.legal(st)
        if t.kind != 'ident' or t.text not in l:
            raise Reject('texture type')
        p.next()
        return (t.text, l[t.text])


TEXS = {('1D', ('LZ', 0)): 0, ('2D', ('', 0)): 1, ('2D', ('LZ', 0)): 2, ('2D', ('LL', 0)): 3,
        ('2D', ('', 1)): 4, ('2D', ('LL', 1)): 5, ('2D', ('LZ', 1)): 6, ('ARRAY_2D', ('', 0)): 7,
        ('ARRAY_2D', ('LZ', 0)): 8, ('ARRAY_2D', ('LZ', 1)): 9, ('3D', ('', 0)): 10,
        ('3D', ('LZ', 0)): 11, ('CUBE', ('', 0)): 12, ('CUBE', ('LL', 0)): 13}
texs_type = lambda s: ModeType(s, 'texstype', TEXS, lambda st: st['texsmode'])

# TLDS: (lod, aoffi, ms)
TLDS = {('1D', (0, 0, 0)): 0, ('1D', (1, 0, 0)): 1, ('2D', (0, 0, 0)): 2, ('2D', (0, 1, 0)): 4,
        ('2D', (1, 0, 0)): 5, ('2D', (0, 0, 1)): 6, ('3D', (0, 0, 0)): 7, ('ARRAY_2D', (0, 0, 0)): 8,
        ('2D', (1, 1, 0)): 12}
tlds_type = lambda s: ModeType(s, 'tldstype', TLDS, lambda st: (st['tl'], st['ta'], st['tm']))


class TldsFlag(Flag):
    """.AOFFI/.MS of TLDS: no bit of their own."""

    def __init__(self, name, key):
        Flag.__init__(self, name)
        self.key = key

    def gen(self, g, st):
        if self.key == 'tm' and (st['ta'] or st['tl']):
            return 0
        return Flag.gen(self, g, st)


tlds_aoffi, tlds_ms = (lambda: TldsFlag('AOFFI', 'ta')), (lambda: TldsFlag('MS', 'tm'))


class TldsLod(Tab):
    def __init__(self):
        Tab.__init__(self, 0, 1, 'LZ LL', key='tl', label='tldslod')

    def bits(self, v):
        return []


tlds_lod = TldsLod


class Swizzle(Elem):
    kind = 'mod'
    name = 'texswz'
    ONE = ('R', 'G', 'B', 'A', 'RG', 'RA', 'GA', 'BA')
    TWO = ('RGB', 'RGA', 'RBA', 'GBA', 'RGBA')

    def names(self, st):
        return self.ONE if st['d28'].idx == 255 else self.TWO

    def gen(self, g, st):
        n = self.names(st)
        i = g.pick(len(n), self.name + str(len(n)))
        return (n[i], i)

    def toks(self, v):
        return [v[0]]

    def bits(self, v):
        return [(50, 3, v[1])]

    def parse(self, p, st):
        t = p.peek()
        n = self.names(st)
        if t.kind != 'ident' or t.text not in n:
            raise Reject('swizzle')
        p.next()
        return (t.text, n.index(t.text))


texs_swizzle = Swizzle

# ---------------------------------------------------------------------------------------------
# the forms, in order of precedence

I(0xEFA0000000000000, 'AL2P', [al2p_o, amem_size, pred(44), C, dgpr(0), C, sgpr(8), C, sinteger(11, 20)])
I(0xEFA0700000000000, 'AL2P', [al2p_o, amem_size, dgpr(0), C, sgpr(8), C, sinteger(11, 20)])
I(0xEFA000000000FF00, 'AL2P', [al2p_o, amem_size, pred(44), C, dgpr(0), C, sinteger(11, 20)])
I(0xEFA070000000FF00, 'AL2P', [al2p_o, amem_size, dgpr(0), C, sinteger(11, 20)])
I(0xEFA0000000000000, 'AL2P', [al2p_o, amem_size, pred(44), C, dgpr(0), C, sgpr(8)])
I(0xEFA0700000000000, 'AL2P', [al2p_o, amem_size, dgpr(0), C, sgpr(8)])
I(0xEFA000000000FF00, 'AL2P', [al2p_o, amem_size, pred(44), C, dgpr(0)])
I(0xEFA070000000FF00, 'AL2P', [al2p_o, amem_size, dgpr(0)])
I(0xEFD8000000000000, 'ALD', [ald_o, ald_size, dgpr(0), C, ald_imm_attr, default_rz(39)])
I(0xEFD8000000000000, 'ALD', [ald_o, ald_size, dgpr(0), C, ald_imm_attr, C, sgpr(39)])
I(0xEFD8000000000000, 'ALD', [ald_o, ald_p, ald_size, dgpr(0), C, ald_patch_attr, default_rz(39)])
I(0xEFD8000000000000, 'ALD', [ald_o, ald_p, ald_size, dgpr(0), C, ald_patch_attr, C, sgpr(39)])
I(0xEFD8000000000000, 'ALD', [ald_o, ald_phys, ald_size, dgpr(0), C, ald_phys_attr, default_rz(39)])
I(0xEFD8000000000000, 'ALD', [ald_o, ald_phys, ald_size, dgpr(0), C, ald_phys_attr, C, sgpr(39)])
I(0xEFF0000000000000, 'AST', [ald_size, ald_imm_attr, C, sgpr(0), default_rz(39)])
I(0xEFF0000000000000, 'AST', [ald_size, ald_imm_attr, C, sgpr(0), C, sgpr(39)])
I(0xEFF0000000000000, 'AST', [ald_p, ald_size, ald_patch_attr, C, sgpr(0), default_rz(39)])
I(0xEFF0000000000000, 'AST', [ald_phys, ald_size, ald_phys_attr, C, sgpr(0), default_rz(39)])
I(0xEFF0000000000000, 'AST', [ald_phys, ald_size, ald_phys_attr, C, sgpr(0), C, sgpr(39)])
I(0xED00000000000000, 'ATOM', [atom_e, atom_operation, atomic_size(49), dgpr(0), C, memory_address(True, 28, 20, 0), C, sgpr(20)])
I(0xEC00000000000000, 'ATOMS', [atoms_operation, atoms_size, dgpr(0), C, memory_address(True, 30, 22, 2), C, sgpr(20)])
I(0xF0B8000000000000, 'B2R', [dgpr(0), C, uinteger(8, 8)])
I(0xF0B8000000000000, 'B2R', [b2r_warp, dgpr(0)])
I(0xF0B8000000000000, 'B2R', [b2r_result, dgpr(0), C, pred(45, True)])
I(0x5C00000000000000, 'BFE', [bfe_format, brev(40), dgpr(0), cc, C, sgpr(8), C, sgpr(20)])
I(0x4C00000000000000, 'BFE', [bfe_format, brev(40), dgpr(0), cc, C, sgpr(8), C, cbuf])
I(0x3800000000000000, 'BFE', [bfe_format, brev(40), dgpr(0), cc, C, sgpr(8), C, imm])
I(0x5BF0000000000000, 'BFI', [dgpr(0), cc, C, sgpr(8), C, sgpr(20), C, sgpr(39)])
I(0x53F0000000000000, 'BFI', [dgpr(0), cc, C, sgpr(8), C, sgpr(39), C, cbuf])
I(0x4BF0000000000000, 'BFI', [dgpr(0), cc, C, sgpr(8), C, cbuf, C, sgpr(39)])
I(0x36F0000000000000, 'BFI', [dgpr(0), cc, C, sgpr(8), C, imm, C, sgpr(39)])
I(0xE3A0000000000000, 'BPT', [bpt_mode, uinteger(20, 20)])
I(0xE3A0000000000000, 'BPT', [bpt_mode])
I(0x5098000000000000, 'CSET', [bf(44), cc_tests, bop(45), dgpr(0), cc, C, cc_text, C, pred(39, True)])
I(0x50A0000000000000, 'CSETP', [cc_tests, bop(45), pred(3), C, pred(0), C, cc_text, C, pred(39, True)])
I(0x5C70000000000000, 'DADD', [fp_rounding(39), dgpr(0), cc, C, neg(48), abs_(46, sgpr(8)), C, neg(45), abs_(49, sgpr(20))])
I(0x4C70000000000000, 'DADD', [fp_rounding(39), dgpr(0), cc, C, neg(48), abs_(46, sgpr(8)), C, neg(45), abs_(49, cbuf())])
I(0x3870000000000000, 'DADD', [fp_rounding(39), dgpr(0), cc, C, neg(48), abs_(46, sgpr(8)), C, dimm20, post_neg(45), post_abs(49)])
I(0x5B70000000000000, 'DFMA', [fp_rounding(50), dgpr(0), cc, C, sgpr(8), C, neg(48), sgpr(20), C, neg(49), sgpr(39)])
I(0x5370000000000000, 'DFMA', [fp_rounding(50), dgpr(0), cc, C, sgpr(8), C, neg(48), sgpr(39), C, neg(49), cbuf])
I(0x4B70000000000000, 'DFMA', [fp_rounding(50), dgpr(0), cc, C, sgpr(8), C, neg(48), cbuf, C, neg(49), sgpr(39)])
I(0x3670000000000000, 'DFMA', [fp_rounding(50), dgpr(0), cc, C, sgpr(8), C, dimm20, post_neg(48), C, neg(49), sgpr(39)])
I(0x5C50000000000000, 'DMNMX', [dgpr(0), cc, C, neg(48), abs_(46, sgpr(8)), C, neg(45), abs_(49, sgpr(20)), C, pred(39, True)])
I(0x4C50000000000000, 'DMNMX', [dgpr(0), cc, C, neg(48), abs_(46, sgpr(8)), C, neg(45), abs_(49, cbuf()), C, pred(39, True)])
I(0x3850000000000000, 'DMNMX', [dgpr(0), cc, C, neg(48), abs_(46, sgpr(8)), C, dimm20, post_neg(45), post_abs(49), C, pred(39, True)])
I(0x5C80000000000000, 'DMUL', [fp_rounding(39), dgpr(0), cc, C, sgpr(8), C, neg(48), sgpr(20)])
I(0x4C80000000000000, 'DMUL', [fp_rounding(39), dgpr(0), cc, C, sgpr(8), C, neg(48), cbuf])
I(0x3880000000000000, 'DMUL', [fp_rounding(39), dgpr(0), cc, C, sgpr(8), C, dimm20, post_neg(48)])
I(0x5900000000000000, 'DSET', [bf(52), float_compare(48), bop(45), dgpr(0), cc, C, neg(43), abs_(54, sgpr(8)), C, neg(53), abs_(44, sgpr(20)), C, pred(39, True)])
I(0x4900000000000000, 'DSET', [bf(52), float_compare(48), bop(45), dgpr(0), cc, C, neg(43), abs_(54, sgpr(8)), C, neg(53), abs_(44, cbuf()), C, pred(39, True)])
I(0x3200000000000000, 'DSET', [bf(52), float_compare(48), bop(45), dgpr(0), cc, C, neg(43), abs_(54, sgpr(8)), C, dimm20, post_neg(53), post_abs(44), C, pred(39, True)])
I(0x5B80000000000000, 'DSETP', [float_compare(48), bop(45), pred(3), C, pred(0), C, neg(43), abs_(7, sgpr(8)), C, neg(6), abs_(44, sgpr(20)), C, pred(39, True)])
I(0x4B80000000000000, 'DSETP', [float_compare(48), bop(45), pred(3), C, pred(0), C, neg(43), abs_(7, sgpr(8)), C, neg(6), abs_(44, cbuf()), C, pred(39, True)])
I(0x3680000000000000, 'DSETP', [float_compare(48), bop(45), pred(3), C, pred(0), C, neg(43), abs_(7, sgpr(8)), C, dimm20, post_neg(6), post_abs(44), C, pred(39, True)])
I(0x50B0000000000F00, 'NOP', [nop_trig])
I(0x50B0000000000000, 'NOP', [nop_trig, cc_text, cc_tests])
I(0x50B0000000000F00, 'NOP', [nop_trig, nop_mask])
I(0x50B0000000000000, 'NOP', [nop_trig, cc_text, cc_tests, C, nop_mask])
I(0x5C98078000000000, 'MOV', [dgpr(0), C, sgpr(20)])
I(0x5C98000000000000, 'MOV', [dgpr(0), C, sgpr(20), C, mask4(39)])
I(0x4C98078000000000, 'MOV', [dgpr(0), C, cbuf])
I(0x4C98000000000000, 'MOV', [dgpr(0), C, cbuf, C, mask4(39)])
I(0x3898078000000000, 'MOV', [dgpr(0), C, imm])
I(0x3898000000000000, 'MOV', [dgpr(0), C, imm, C, mask4(39)])
I(0x010000000000F000, 'MOV32I', [dgpr(0), C, uimm32])
I(0x0100000000000000, 'MOV32I', [dgpr(0), C, uimm32, C, mask4(12)])
I(0x5080000000000000, 'MUFU', [mufu_operation, sat(50), dgpr(0), C, neg(48), abs_(46, sgpr(8))])
I(0xF0C8000000000000, 'S2R', [dgpr(0), C, s2r])
I(0x5C58000000000000, 'FADD', [ftz(44), fp_rounding(39), sat(50), dgpr(0), cc, C, neg(48), abs_(46, sgpr(8)), C, neg(45), abs_(49, sgpr(20))])
I(0x4C58000000000000, 'FADD', [ftz(44), fp_rounding(39), sat(50), dgpr(0), cc, C, neg(48), abs_(46, sgpr(8)), C, neg(45), abs_(49, cbuf())])
I(0x3858000000000000, 'FADD', [ftz(44), fp_rounding(39), sat(50), dgpr(0), cc, C, neg(48), abs_(46, sgpr(8)), C, fimm, post_neg(45), post_abs(49)])
I(0x0800000000000000, 'FADD32I', [ftz(55), dgpr(0), cc(52), C, neg(56), abs_(54, sgpr(8)), C, fimm32, post_neg(53), post_abs(57)])
I(0x5980000000000000, 'FFMA', [fmul_fmz(53), fp_rounding(51), sat(50), dgpr(0), cc, C, sgpr(8), C, neg(48), sgpr(20), C, neg(49), sgpr(39)])
I(0x5180000000000000, 'FFMA', [fmul_fmz(53), fp_rounding(51), sat(50), dgpr(0), cc, C, sgpr(8), C, neg(48), sgpr(39), C, neg(49), cbuf])
I(0x4980000000000000, 'FFMA', [fmul_fmz(53), fp_rounding(51), sat(50), dgpr(0), cc, C, sgpr(8), C, neg(48), cbuf, C, neg(49), sgpr(39)])
I(0x3280000000000000, 'FFMA', [fmul_fmz(53), fp_rounding(51), sat(50), dgpr(0), cc, C, sgpr(8), C, fimm, post_neg(48), C, neg(49), sgpr(39)])
I(0x0C00000000000000, 'FFMA32I', [fmul_fmz(53), sat(55), dgpr(0), cc(52), C, neg(56), sgpr(8), C, fimm32, C, neg(57), mirror_dgpr(0)])
I(0x5C60000000000000, 'FMNMX', [ftz(44), dgpr(0), cc, C, neg(48), abs_(46, sgpr(8)), C, neg(45), abs_(49, sgpr(20)), C, pred(39, True)])
I(0x4C60000000000000, 'FMNMX', [ftz(44), dgpr(0), cc, C, neg(48), abs_(46, sgpr(8)), C, neg(45), abs_(49, cbuf()), C, pred(39, True)])
I(0x3860000000000000, 'FMNMX', [ftz(44), dgpr(0), cc, C, neg(48), abs_(46, sgpr(8)), C, fimm, post_neg(45), post_abs(49), C, pred(39, True)])
I(0x5C68000000000000, 'FMUL', [fmul_fmz(44), fmul_scale, fp_rounding(39), sat(50), dgpr(0), cc, C, sgpr(8), C, neg(48), sgpr(20)])
I(0x4C68000000000000, 'FMUL', [fmul_fmz(44), fmul_scale, fp_rounding(39), sat(50), dgpr(0), cc, C, sgpr(8), C, neg(48), cbuf])
I(0x3868000000000000, 'FMUL', [fmul_fmz(44), fmul_scale, fp_rounding(39), sat(50), dgpr(0), cc, C, sgpr(8), C, fimm, post_neg(48)])
I(0x1E00000000000000, 'FMUL32I', [fmul_fmz(53), sat(55), dgpr(0), cc(52), C, sgpr(8), C, fimm32])
I(0x5800000000000000, 'FSET', [bf(52), float_compare(48), ftz(55), bop(45), dgpr(0), cc, C, neg(43), abs_(54, sgpr(8)), C, neg(53), abs_(44, sgpr(20)), C, pred(39, True)])
I(0x4800000000000000, 'FSET', [bf(52), float_compare(48), ftz(55), bop(45), dgpr(0), cc, C, neg(43), abs_(54, sgpr(8)), C, neg(53), abs_(44, cbuf()), C, pred(39, True)])
I(0x3000000000000000, 'FSET', [bf(52), float_compare(48), ftz(55), bop(45), dgpr(0), cc, C, neg(43), abs_(54, sgpr(8)), C, fimm, post_neg(53), post_abs(44), C, pred(39, True)])
I(0x5BB0000000000000, 'FSETP', [float_compare(48), ftz(47), bop(45), pred(3), C, pred(0), C, neg(43), abs_(7, sgpr(8)), C, neg(6), abs_(44, sgpr(20)), C, pred(39, True)])
I(0x4BB0000000000000, 'FSETP', [float_compare(48), ftz(47), bop(45), pred(3), C, pred(0), C, neg(43), abs_(7, sgpr(8)), C, neg(6), abs_(44, cbuf()), C, pred(39, True)])
I(0x36B0000000000000, 'FSETP', [float_compare(48), ftz(47), bop(45), pred(3), C, pred(0), C, neg(43), abs_(7, sgpr(8)), C, fimm, post_neg(6), post_abs(44), C, pred(39, True)])
I(0x5B00000000000000, 'XMAD', [xmad_signs, psl(36), xmad_mode_a, mrg(37), x(38), dgpr(0), cc, C, sgpr(8), half(53), C, sgpr(20), half(35), C, sgpr(39)])
I(0x5100000000000000, 'XMAD', [xmad_signs, xmad_mode_b, x(54), dgpr(0), cc, C, sgpr(8), half(53), C, sgpr(39), half(52), C, cbuf])
I(0x4E00000000000000, 'XMAD', [xmad_signs, psl(55), xmad_mode_b, mrg(56), x(54), dgpr(0), cc, C, sgpr(8), half(53), C, cbuf, half(52), C, sgpr(39)])
I(0x3600000000000000, 'XMAD', [xmad_signs, psl(36), xmad_mode_a, mrg(37), x(38), dgpr(0), cc, C, sgpr(8), half(53), C, uimm16, C, sgpr(39)])
I(0x5C28000000000000, 'SHR', [shr_format, shr_mode, shr_xmode, brev(40), dgpr(0), cc, C, sgpr(8), C, sgpr(20)])
I(0x4C28000000000000, 'SHR', [shr_format, shr_mode, shr_xmode, brev(40), dgpr(0), cc, C, sgpr(8), C, cbuf])
I(0x3828000000000000, 'SHR', [shr_format, shr_mode, shr_xmode, brev(40), dgpr(0), cc, C, sgpr(8), C, imm])
I(0x5CF8000000000000, 'SHF', [shf_r, w(50), shf_max_shift, shf_xmode, dgpr(0), cc, C, sgpr(8), C, sgpr(20), C, sgpr(39)])
I(0x5BF8000000000000, 'SHF', [shf_l, w(50), shf_max_shift, shf_xmode, dgpr(0), cc, C, sgpr(8), C, sgpr(20), C, sgpr(39)])
I(0x38F8000000000000, 'SHF', [shf_r, w(50), shf_max_shift, shf_xmode, dgpr(0), cc, C, sgpr(8), C, uinteger(6, 20), C, sgpr(39)])
I(0x36F8000000000000, 'SHF', [shf_l, w(50), shf_max_shift, shf_xmode, dgpr(0), cc, C, sgpr(8), C, uinteger(6, 20), C, sgpr(39)])
I(0x5CA8000000000000, 'F2F', [ftz(44), float_format(8), float_format(10), f2f_rounding, sat(50), dgpr(0), cc, C, neg(45), abs_(49, sgpr(20)), half(41)])
I(0x4CA8000000000000, 'F2F', [ftz(44), float_format(8), float_format(10), f2f_rounding, sat(50), dgpr(0), cc, C, neg(45), abs_(49, cbuf()), half(41)])
I(0x38A8000000000000, 'F2F', [ftz(44), float_format(8), float_format(10), f2f_rounding, sat(50), dgpr(0), cc, C, fimm, post_neg(45), post_abs(49), half(41)])
I(0x5CB0000000000000, 'F2I', [ftz(44), f2i_int_format, float_format(10), f2i_rounding, dgpr(0), cc, C, neg(45), abs_(49, sgpr(20)), half(41)])
I(0x4CB0000000000000, 'F2I', [ftz(44), f2i_int_format, float_format(10), f2i_rounding, dgpr(0), cc, C, neg(45), abs_(49, cbuf()), half(41)])
I(0x5CB8000000000000, 'I2F', [float_format(8), i2f_int_format, fp_rounding(39), dgpr(0), cc, C, neg(45), abs_(49, sgpr(20)), i2f_selector])
I(0x4CB8000000000000, 'I2F', [float_format(8), i2f_int_format, fp_rounding(39), dgpr(0), cc, C, neg(45), abs_(49, cbuf()), i2f_selector])
I(0x38B8000000000000, 'I2F', [float_format(8), i2f_int_format, fp_rounding(39), dgpr(0), cc, C, imm, post_neg(45), post_abs(49), i2f_selector])
I(0x5CE0000000000000, 'I2I', [i2i_format(8, 12), i2i_format(10, 13), sat(50), dgpr(0), cc, C, neg(45), abs_(49, sgpr(20)), i2i_selector])
I(0x4CE0000000000000, 'I2I', [i2i_format(8, 12), i2i_format(10, 13), sat(50), dgpr(0), cc, C, neg(45), abs_(49, cbuf()), i2i_selector])
I(0x38E0000000000000, 'I2I', [i2i_format(8, 12), i2i_format(10, 13), sat(50), dgpr(0), cc, C, imm, post_neg(45), post_abs(49)])
I(0x5D10000000000000, 'HADD2', [fp16_merge(49), ftz(39), sat(32), dgpr(0), C, neg(43), abs_(44, sgpr(8)), fp16_swizzle(47), C, neg(31), abs_(30, sgpr(20)), fp16_swizzle(28)])
I(0x7A80000000000000, 'HADD2', [fp16_merge(49), ftz(39), sat(52), dgpr(0), C, neg(43), abs_(44, sgpr(8)), fp16_swizzle(47), C, neg(56), abs_(54, cbuf())])
I(0x7A00000000000000, 'HADD2', [fp16_merge(49), ftz(39), sat(52), dgpr(0), C, neg(43), abs_(44, sgpr(8)), fp16_swizzle(47), C, fimm9_high(56), C, fimm9_low(29)])
I(0x2C00000000000000, 'HADD2_32I', [ftz(55), sat(52), dgpr(0), C, neg(56), sgpr(8), fp16_swizzle(53), C, fimm16_high, C, fimm16_low])
I(0x7080000000000000, 'HFMA2', [fp16_merge(49), fp16_control(57), sat(52), dgpr(0), C, sgpr(8), fp16_swizzle(47), C, neg(56), cbuf, C, neg(51), sgpr(39), fp16_swizzle(53)])
I(0x7000000000000000, 'HFMA2', [fp16_merge(49), fp16_control(57), sat(52), dgpr(0), C, sgpr(8), fp16_swizzle(47), C, fimm9_high(56), C, fimm9_low(29), C, neg(51), sgpr(39), fp16_swizzle(53)])
I(0x6080000000000000, 'HFMA2', [fp16_merge(49), fp16_control(57), sat(52), dgpr(0), C, sgpr(8), fp16_swizzle(47), C, neg(56), sgpr(39), fp16_swizzle(53), C, neg(51), cbuf])
I(0x5D00000000000000, 'HFMA2', [fp16_merge(49), fp16_control(37), sat(32), dgpr(0), C, sgpr(8), fp16_swizzle(47), C, neg(31), sgpr(20), fp16_swizzle(28), C, neg(30), sgpr(39), fp16_swizzle(35)])
I(0x2800000000000000, 'HFMA2_32I', [fp16_control(55), dgpr(0), C, sgpr(8), fp16_swizzle(53), C, fimm16_high, C, fimm16_low, C, neg(52), mirror_dgpr(0)])
I(0x5D08000000000000, 'HMUL2', [fp16_merge(49), fp16_control(39), sat(32), dgpr(0), C, abs_(44, sgpr(8)), fp16_swizzle(47), C, neg(31), abs_(30, sgpr(20)), fp16_swizzle(28)])
I(0x7880000000000000, 'HMUL2', [fp16_merge(49), fp16_control(39), sat(52), dgpr(0), C, abs_(44, sgpr(8)), fp16_swizzle(47), C, neg(43), abs_(54, cbuf())])
I(0x7800000000000000, 'HMUL2', [fp16_merge(49), fp16_control(39), sat(52), dgpr(0), C, neg(43), abs_(44, sgpr(8)), fp16_swizzle(47), C, fimm9_high(56), C, fimm9_low(29)])
I(0x2A00000000000000, 'HMUL2_32I', [fp16_control(55), sat(52), dgpr(0), C, sgpr(8), fp16_swizzle(53), C, fimm16_high, C, fimm16_low])
I(0x5D18000000000000, 'HSET2', [bf(49), float_compare(35), ftz(50), bop(45), dgpr(0), C, neg(43), abs_(44, sgpr(8)), fp16_swizzle(47), C, neg(31), abs_(30, sgpr(20)), fp16_swizzle(28), C, pred(39, True)])
I(0x7C80000000000000, 'HSET2', [bf(53), float_compare(49), ftz(54), bop(45), dgpr(0), C, neg(43), abs_(44, sgpr(8)), fp16_swizzle(47), C, neg(56), cbuf, C, pred(39, True)])
I(0x7C00000000000000, 'HSET2', [bf(53), float_compare(49), ftz(54), bop(45), dgpr(0), C, neg(43), abs_(44, sgpr(8)), fp16_swizzle(47), C, fimm9_high(56), C, fimm9_low(29), C, pred(39, True)])
I(0x5D20000000000000, 'HSETP2', [float_compare(35), h_and(49), ftz(6), bop(45), pred(3), C, pred(0), C, neg(43), abs_(44, sgpr(8)), fp16_swizzle(47), C, neg(31), abs_(30, sgpr(20)), fp16_swizzle(28), C, pred(39, True)])
I(0x7E80000000000000, 'HSETP2', [float_compare(49), h_and(53), ftz(6), bop(45), pred(3), C, pred(0), C, neg(43), abs_(44, sgpr(8)), fp16_swizzle(47), C, neg(56), abs_(54, cbuf()), C, pred(39, True)])
I(0x7E00000000000000, 'HSETP2', [float_compare(49), h_and(53), ftz(6), bop(45), pred(3), C, pred(0), C, neg(43), abs_(44, sgpr(8)), fp16_swizzle(47), C, fimm9_high(56), C, fimm9_low(29), C, pred(39, True)])
I(0x5090000000000000, 'PSETP', [bop(24), bop(45), pred(3), C, pred(0), C, pred(12, True), C, pred(29, True), C, pred(39, True)])
I(0x5088000000000000, 'PSET', [bf(44), bop(24), bop(45), dgpr(0), cc, C, pred(12, True), C, pred(29, True), C, pred(39, True)])
I(0x5CE8000000000000, 'P2R', [byte_selector(41), dgpr(0), C, p2r_mode(40), C, sgpr(8), C, sgpr(20)])
I(0x4CE8000000000000, 'P2R', [byte_selector(41), dgpr(0), C, p2r_mode(40), C, sgpr(8), C, cbuf])
I(0x38E8000000000000, 'P2R', [byte_selector(41), dgpr(0), C, p2r_mode(40), C, sgpr(8), C, imm])
I(0x5CF0000000000000, 'R2P', [p2r_mode(40), C, sgpr(8), byte_selector(41), C, sgpr(20)])
I(0x4CF0000000000000, 'R2P', [p2r_mode(40), C, sgpr(8), byte_selector(41), C, cbuf])
I(0x38F0000000000000, 'R2P', [p2r_mode(40), C, sgpr(8), byte_selector(41), C, imm])
I(0x5C10000000000000, 'IADD', [po(48, 49), sat(50), x(43), dgpr(0), cc, C, neg(49, 48), sgpr(8), C, neg(48, 49), sgpr(20)])
I(0x4C10000000000000, 'IADD', [po(48, 49), sat(50), x(43), dgpr(0), cc, C, neg(49, 48), sgpr(8), C, neg(48, 49), cbuf])
I(0x3810000000000000, 'IADD', [po(48, 49), sat(50), x(43), dgpr(0), cc, C, neg(49, 48), sgpr(8), C, imm, post_neg_po(48, 49)])
I(0x1C00000000000000, 'IADD32I', [po(55, 56), sat(54), x(53), dgpr(0), cc(52), C, neg(56, 55), sgpr(8), C, simm32])
I(0x5CC0000000000000, 'IADD3', [iadd3_shift, x(48), dgpr(0), cc, C, neg(51), sgpr(8), iadd3_half(35), C, neg(50), sgpr(20), iadd3_half(33), C, neg(49), sgpr(39), iadd3_half(31)])
I(0x4CC0000000000000, 'IADD3', [x(48), dgpr(0), cc, C, neg(51), sgpr(8), C, neg(50), cbuf, C, neg(49), sgpr(39)])
I(0x38C0000000000000, 'IADD3', [x(48), dgpr(0), cc, C, neg(51), sgpr(8), C, uimm_extended, post_neg(50), C, neg(49), sgpr(39)])
I(0x5B40000000000000, 'ICMP', [integer_compare(49), int_sign, dgpr(0), C, sgpr(8), C, sgpr(20), C, sgpr(39)])
I(0x5340000000000000, 'ICMP', [integer_compare(49), int_sign, dgpr(0), C, sgpr(8), C, sgpr(39), C, cbuf])
I(0x4B40000000000000, 'ICMP', [integer_compare(49), int_sign, dgpr(0), C, sgpr(8), C, cbuf, C, sgpr(39)])
I(0x3640000000000000, 'ICMP', [integer_compare(49), int_sign, dgpr(0), C, sgpr(8), C, imm, C, sgpr(39)])
I(0x5C20000000000000, 'IMNMX', [int_sign, imnmx_mode, dgpr(0), cc, C, sgpr(8), C, sgpr(20), C, pred(39, True)])
I(0x4C20000000000000, 'IMNMX', [int_sign, imnmx_mode, dgpr(0), cc, C, sgpr(8), C, cbuf, C, pred(39, True)])
I(0x3820000000000000, 'IMNMX', [int_sign, imnmx_mode, dgpr(0), cc, C, sgpr(8), C, imm, C, pred(39, True)])
I(0x5C18000000000000, 'ISCADD', [po(48, 49), dgpr(0), cc, C, neg(49, 48), sgpr(8), C, neg(48, 49), sgpr(20), C, uinteger(5, 39)])
I(0x4C18000000000000, 'ISCADD', [po(48, 49), dgpr(0), cc, C, neg(49, 48), sgpr(8), C, neg(48, 49), cbuf, C, uinteger(5, 39)])
I(0x3818000000000000, 'ISCADD', [po(48, 49), dgpr(0), cc, C, neg(49, 48), sgpr(8), C, neg(48, 49), imm, C, uinteger(5, 39)])
I(0x5B50000000000000, 'ISET', [bf(44), integer_compare(49), int_sign, x(43), bop(45), dgpr(0), cc, C, sgpr(8), C, sgpr(20), C, pred(39, True)])
I(0x4B50000000000000, 'ISET', [bf(44), integer_compare(49), int_sign, x(43), bop(45), dgpr(0), cc, C, sgpr(8), C, cbuf, C, pred(39, True)])
I(0x3650000000000000, 'ISET', [bf(44), integer_compare(49), int_sign, x(43), bop(45), dgpr(0), cc, C, sgpr(8), C, imm, C, pred(39, True)])
I(0x5B60000000000000, 'ISETP', [integer_compare(49), int_sign, x(43), bop(45), pred(3), C, pred(0), C, sgpr(8), C, sgpr(20), C, pred(39, True)])
I(0x4B60000000000000, 'ISETP', [integer_compare(49), int_sign, x(43), bop(45), pred(3), C, pred(0), C, sgpr(8), C, cbuf, C, pred(39, True)])
I(0x3660000000000000, 'ISETP', [integer_compare(49), int_sign, x(43), bop(45), pred(3), C, pred(0), C, sgpr(8), C, imm, C, pred(39, True)])
I(0x5C30000000000000, 'FLO', [int_sign, sh(41), dgpr(0), cc, C, tilde(40), sgpr(20)])
I(0x4C30000000000000, 'FLO', [int_sign, sh(41), dgpr(0), cc, C, tilde(40), cbuf])
I(0x3830000000000000, 'FLO', [int_sign, sh(41), dgpr(0), cc, C, imm, inv(40)])
I(0x5C08000000000000, 'POPC', [dgpr(0), C, tilde(40), sgpr(20)])
I(0x4C08000000000000, 'POPC', [dgpr(0), C, tilde(40), cbuf])
I(0x3808000000000000, 'POPC', [dgpr(0), C, imm, inv(40)])
I(0xEF90000000000000, 'LDC', [ldc_size, ldc_mode, dgpr(0), C, ldc_address])
I(0x5BDF000000000000, 'LEA', [lea_hi, x(38), dgpr(0), cc, C, neg(37), sgpr(8), C, sgpr(20), C, sgpr(39)])
I(0x5BDF000000000000, 'LEA', [lea_hi, x(38), dgpr(0), cc, C, neg(37), sgpr(8), C, sgpr(20), C, sgpr(39), C, uinteger(5, 28)])
I(0x5BD8000000000000, 'LEA', [lea_hi, x(38), pred(48), C, dgpr(0), cc, C, neg(37), sgpr(8), C, sgpr(20), C, sgpr(39)])
I(0x5BD8000000000000, 'LEA', [lea_hi, x(38), pred(48), C, dgpr(0), cc, C, neg(37), sgpr(8), C, sgpr(20), C, sgpr(39), C, uinteger(5, 28)])
I(0x1807000000000000, 'LEA', [lea_hi, x(57), dgpr(0), cc, C, neg(56), sgpr(8), C, cbuf, C, sgpr(39)])
I(0x1807000000000000, 'LEA', [lea_hi, x(57), dgpr(0), cc, C, neg(56), sgpr(8), C, cbuf, C, sgpr(39), C, uinteger(5, 51)])
I(0x1800000000000000, 'LEA', [lea_hi, x(57), pred(48), C, dgpr(0), cc, C, neg(56), sgpr(8), C, cbuf, C, sgpr(39)])
I(0x1800000000000000, 'LEA', [lea_hi, x(57), pred(48), C, dgpr(0), cc, C, neg(56), sgpr(8), C, cbuf, C, sgpr(39), C, uinteger(5, 51)])
I(0x5BD7000000000000, 'LEA', [lea_lo, x(46), dgpr(0), cc, C, neg(45), sgpr(8), C, sgpr(20)])
I(0x5BD7000000000000, 'LEA', [lea_lo, x(46), dgpr(0), cc, C, neg(45), sgpr(8), C, sgpr(20), C, uinteger(5, 39)])
I(0x5BD0000000000000, 'LEA', [lea_lo, x(46), pred(48), C, dgpr(0), cc, C, neg(45), sgpr(8), C, sgpr(20)])
I(0x5BD0000000000000, 'LEA', [lea_lo, x(46), pred(48), C, dgpr(0), cc, C, neg(45), sgpr(8), C, sgpr(20), C, uinteger(5, 39)])
I(0x4BD7000000000000, 'LEA', [lea_lo, x(46), dgpr(0), cc, C, neg(45), sgpr(8), C, cbuf])
I(0x4BD7000000000000, 'LEA', [lea_lo, x(46), dgpr(0), cc, C, neg(45), sgpr(8), C, cbuf, C, uinteger(5, 39)])
I(0x4BD0000000000000, 'LEA', [lea_lo, x(46), pred(48), C, dgpr(0), cc, C, neg(45), sgpr(8), C, cbuf])
I(0x4BD0000000000000, 'LEA', [lea_lo, x(46), pred(48), C, dgpr(0), cc, C, neg(45), sgpr(8), C, cbuf, C, uinteger(5, 39)])
I(0x36D7000000000000, 'LEA', [lea_lo, x(46), dgpr(0), cc, C, neg(45), sgpr(8), C, imm])
I(0x36D7000000000000, 'LEA', [lea_lo, x(46), dgpr(0), cc, C, neg(45), sgpr(8), C, imm, C, uinteger(5, 39)])
I(0x36D0000000000000, 'LEA', [lea_lo, x(46), pred(48), C, dgpr(0), cc, C, neg(45), sgpr(8), C, imm])
I(0x36D0000000000000, 'LEA', [lea_lo, x(46), pred(48), C, dgpr(0), cc, C, neg(45), sgpr(8), C, imm, C, uinteger(5, 39)])
I(0x5C40000000000000, 'LOP', [lop_bit_op(41), x(43), lop_pred_op, pred(48), C, dgpr(0), cc, C, tilde(39), sgpr(8), C, tilde(40), sgpr(20)])
I(0x4C40000000000000, 'LOP', [lop_bit_op(41), x(43), lop_pred_op, pred(48), C, dgpr(0), cc, C, tilde(39), sgpr(8), C, tilde(40), cbuf])
I(0x3840000000000000, 'LOP', [lop_bit_op(41), x(43), lop_pred_op, pred(48), C, dgpr(0), cc, C, tilde(39), sgpr(8), C, tilde(40), imm])
I(0x0400000000000000, 'LOP32I', [lop_bit_op(53), x(57), dgpr(0), cc(52), C, tilde(55), sgpr(8), C, uimm32, inv(56)])
I(0x5BE0000000000000, 'LOP3', [lop3_lut, x(38), lop3_operation, pred(48), C, dgpr(0), cc, C, sgpr(8), C, sgpr(20), C, sgpr(39), C, uinteger(8, 28)])
I(0x5BE7000000000000, 'LOP3', [lop3_lut, x(38), lop3_operation, dgpr(0), cc, C, sgpr(8), C, sgpr(20), C, sgpr(39), C, uinteger(8, 28)])
I(0x3C00000000000000, 'LOP3', [lop3_lut, dgpr(0), cc, C, sgpr(8), C, imm, C, sgpr(39), C, uinteger(8, 48)])
I(0x0200000000000000, 'LOP3', [lop3_lut, dgpr(0), cc, C, sgpr(8), C, cbuf, C, sgpr(39), C, uinteger(8, 48)])
I(0x5BA0000000000000, 'FCMP', [float_compare(48), ftz(47), dgpr(0), C, sgpr(8), C, sgpr(20), C, sgpr(39)])
I(0x53A0000000000000, 'FCMP', [float_compare(48), ftz(47), dgpr(0), C, sgpr(8), C, sgpr(39), C, cbuf])
I(0x4BA0000000000000, 'FCMP', [float_compare(48), ftz(47), dgpr(0), C, sgpr(8), C, cbuf, C, sgpr(39)])
I(0x36A0000000000000, 'FCMP', [float_compare(48), ftz(47), dgpr(0), C, sgpr(8), C, fimm, C, sgpr(39)])
I(0x5CA0000000000000, 'SEL', [dgpr(0), C, sgpr(8), C, sgpr(20), C, pred(39, True)])
I(0x4CA0000000000000, 'SEL', [dgpr(0), C, sgpr(8), C, cbuf, C, pred(39, True)])
I(0x38A0000000000000, 'SEL', [dgpr(0), C, sgpr(8), C, imm, C, pred(39, True)])
I(0xEF10000000000000, 'SHFL', [shfl_mode, pred(48), C, dgpr(0), C, sgpr(8), C, sgpr(20), C, sgpr(39)])
I(0xEF10000010000000, 'SHFL', [shfl_mode, pred(48), C, dgpr(0), C, sgpr(8), C, uinteger(5, 20), C, sgpr(39)])
I(0xEF10000020000000, 'SHFL', [shfl_mode, pred(48), C, dgpr(0), C, sgpr(8), C, sgpr(20), C, uinteger(13, 34)])
I(0xEF10000030000000, 'SHFL', [shfl_mode, pred(48), C, dgpr(0), C, sgpr(8), C, uinteger(5, 20), C, uinteger(13, 34)])
I(0x5C48000000000000, 'SHL', [w(39), x(43), dgpr(0), cc, C, sgpr(8), C, sgpr(20)])
I(0x4C48000000000000, 'SHL', [w(39), x(43), dgpr(0), cc, C, sgpr(8), C, cbuf])
I(0x3848000000000000, 'SHL', [w(39), x(43), dgpr(0), cc, C, sgpr(8), C, imm])
I(0xF0F8000000000000, 'SYNC', [flow_tests])
I(0xE350000000000000, 'CONT', [flow_tests])
I(0xE340000000000000, 'BRK', [flow_tests])
I(0xE330000000000000, 'KIL', [flow_tests])
I(0xE320000000000000, 'RET', [flow_tests])
I(0xE310000000000000, 'LONGJMP', [flow_tests])
I(0xE300000000000000, 'EXIT', [keeprefcount, flow_tests])
I(0x5C90000000000000, 'RRO', [rro_mode, dgpr(0), C, neg(45), abs_(49, sgpr(20))])
I(0x4C90000000000000, 'RRO', [rro_mode, dgpr(0), C, neg(45), abs_(49, cbuf())])
I(0x3890000000000000, 'RRO', [rro_mode, dgpr(0), C, fimm, post_neg(45), post_abs(49)])
I(0xEB20000000000000, 'SUST', [image_p, image_type, store_cache(24), image_rgba, image_clamp, memory_address(False), C, sgpr(0), C, sgpr(39)])
I(0xEB28000000000000, 'SUST', [image_p, image_type, store_cache(24), image_rgba, image_clamp, memory_address(False), C, sgpr(0), C, uinteger(13, 36)])
I(0xEB20000000000000, 'SUST', [image_d, image_ba(23), image_type, store_cache(24), image_size, image_clamp, memory_address(False), C, sgpr(0), C, sgpr(39)])
I(0xEB28000000000000, 'SUST', [image_d, image_ba(23), image_type, store_cache(24), image_size, image_clamp, memory_address(False), C, sgpr(0), C, uinteger(13, 36)])
I(0xEB00000000000000, 'SULD', [image_p, image_type, load_cache(24), image_rgba, image_clamp, dgpr(0), C, memory_address(False), C, sgpr(39)])
I(0xEB08000000000000, 'SULD', [image_p, image_type, load_cache(24), image_rgba, image_clamp, dgpr(0), C, memory_address(False), C, uinteger(13, 36)])
I(0xEB00000000000000, 'SULD', [image_d, image_ba(23), image_type, load_cache(24), image_size, image_clamp, dgpr(0), C, memory_address(False), C, sgpr(39)])
I(0xEB08000000000000, 'SULD', [image_d, image_ba(23), image_type, load_cache(24), image_size, image_clamp, dgpr(0), C, memory_address(False), C, uinteger(13, 36)])
I(0x50D8000000000000, 'VOTE', [vote_operation, dgpr(0), C, pred(45, False), C, pred(39, True)])
I(0x5F04000000000000, 'VMAD', [video_src_format(37, 48), video_src_format(29, 49), po(53, 54), vmad_scale, sat(55), dgpr(0), cc, C, neg(54, 53), sgpr(8), video_selector(36, 37), C, sgpr(20), video_selector(28, 29), C, neg(53, 54), sgpr(39)])
I(0x5F00000000000000, 'VMAD', [video_src_format(37, 48), video_imm_format(29, 49), po(53, 54), vmad_scale, sat(55), dgpr(0), cc, C, neg(54, 53), sgpr(8), video_selector(36, 37), C, uinteger(16, 20), C, neg(53, 54), sgpr(39)])
I(0x3A04000000000000, 'VMNMX', [video_dest_sign, video_src_format(37, 48), video_src_format(29, 49), video_mx(56), sat(55), video_vmnmx_op(51), dgpr(0), cc, C, sgpr(8), video_selector(36, 37), C, sgpr(20), video_selector(28, 29), C, sgpr(39)])
I(0x3A00000000000000, 'VMNMX', [video_dest_sign, video_src_format(37, 48), video_imm_format(29, 49), video_mx(56), sat(55), video_vmnmx_op(51), dgpr(0), cc, C, sgpr(8), video_selector(36, 37), C, uinteger(16, 20), C, sgpr(39)])
I(0x50F4000000000000, 'VSETP', [vsetp_integer_compare(43), video_src_format(37, 48), video_src_format(29, 49), bop(45), pred(3), C, pred(0), C, sgpr(8), video_selector(36, 37), C, sgpr(20), video_selector(28, 29), C, pred(39, True)])
I(0x50F0000000000000, 'VSETP', [vsetp_integer_compare(43), video_src_format(37, 48), video_imm_format(29, 49), bop(45), pred(3), C, pred(0), C, sgpr(8), video_selector(36, 37), C, uinteger(16, 20), C, pred(39, True)])
I(0xEED8000000000000, 'STG', [stg_e, store_cache(46), memory_size, memory_address, C, sgpr(0)])
I(0xEF58000000000000, 'STS', [memory_size, memory_address, C, sgpr(0)])
I(0xEF50000000000000, 'STL', [stl_cache, memory_size, memory_address, C, sgpr(0)])
I(0xC000000000000000, 'TEX', [ndv(35), nodep(49), aoffi(54), blod(55), dc(50), lc(58), pred(51), C, dgpr(0), C, sgpr(8), C, sgpr(20), C, uinteger(13, 36), C, tex_type(28), C, uinteger(4, 31)])
I(0xDE80000000000000, 'TEX', [b_text, ndv(35), nodep(49), aoffi(36), blod(37), dc(50), lc(40), pred(51), C, dgpr(0), C, sgpr(8), C, sgpr(20), C, zero, C, tex_type(28), C, uinteger(4, 31)])
I(0xD000000000000000, 'TEXS', [sample_size(59), texs_mode(53), nodep(49), dgpr(28), C, dgpr(0), C, sgpr(8), C, sgpr(20), C, uinteger(13, 36), C, texs_type(53), C, texs_swizzle])
I(0xC800000000000000, 'TLD4', [tld4_component(56), tld4_offset(54), dc(50), ndv(35), nodep(49), pred(51), C, dgpr(0), C, sgpr(8), C, sgpr(20), C, uinteger(13, 36), C, tex_type(28), C, uinteger(4, 31)])
I(0xDEC0000000000000, 'TLD4', [tld4_component(38), b_text, tld4_offset(36), dc(50), ndv(35), nodep(49), pred(51), C, dgpr(0), C, sgpr(8), C, sgpr(20), C, zero, C, tex_type(28), C, uinteger(4, 31)])
I(0xDF00000000000000, 'TLD4S', [sample_size_inv(55), tld4_component(52), aoffi(51), dc(50), nodep(49), dgpr(28), C, dgpr(0), C, sgpr(8), C, sgpr(20), C, uinteger(13, 36)])
I(0xDC00000000000000, 'TLD', [tld_lod(55), aoffi(35), ms(50), cl(54), nodep(49), pred(51), C, dgpr(0), C, sgpr(8), C, sgpr(20), C, uinteger(13, 36), C, tex_type(28), C, uinteger(4, 31)])
I(0xDD00000000000000, 'TLD', [b_text, tld_lod(55), aoffi(35), ms(50), cl(54), nodep(49), pred(51), C, dgpr(0), C, sgpr(8), C, sgpr(20), C, zero, C, tex_type(28), C, uinteger(4, 31)])
I(0xD200000000000000, 'TLDS', [sample_size(59), tlds_lod, tlds_aoffi, tlds_ms, nodep(49), dgpr(28), C, dgpr(0), C, sgpr(8), C, sgpr(20), C, uinteger(13, 36), C, tlds_type(53), C, texs_swizzle])
I(0xDF58000000000000, 'TMML', [lod_text, ndv(35), nodep(49), dgpr(0), C, sgpr(8), C, uinteger(13, 36), C, tex_type(28), C, uinteger(4, 31)])
I(0xDF60000000000000, 'TMML', [b_text, lod_text, ndv(35), nodep(49), dgpr(0), C, sgpr(8), C, sgpr(20), C, zero, C, tex_type(28), C, uinteger(4, 31)])
I(0xDE00000000000000, 'TXD', [lc(50), aoffi(35), nodep(49), pred(51), C, dgpr(0), C, sgpr(8), C, sgpr(20), C, uinteger(13, 36), C, tex_type(28), C, uinteger(4, 31)])
I(0xDE40000000000000, 'TXD', [b_text, lc(50), aoffi(35), nodep(49), pred(51), C, dgpr(0), C, sgpr(8), C, sgpr(20), C, zero, C, tex_type(28), C, uinteger(4, 31)])
I(0xDF48000000000000, 'TXQ', [nodep(49), dgpr(0), C, sgpr(8), C, txq_mode, C, uinteger(13, 36), C, uinteger(4, 31)])
I(0xDF50000000000000, 'TXQ', [b_text, nodep(49), dgpr(0), C, sgpr(8), C, txq_mode, C, zero, C, uinteger(4, 31)])
I(0xEED0000000000000, 'LDG', [stg_e, ldg_cache, ldg_size, dgpr(0), C, memory_address])
I(0xEEC8000000000000, 'LDG', [stg_e, ldg_cache, ldg_size, inverted_pred(41), C, dgpr(0), C, memory_address(True, 20, 20)])
I(0xEF48000000000000, 'LDS', [lds_u, memory_size, dgpr(0), C, memory_address])
I(0xEF40000000000000, 'LDL', [ldl_cache, memory_size, dgpr(0), C, memory_address])
I(0xEBF8000000000000, 'RED', [red_e, red_operation, atomic_size(20), memory_address(True, 28, 20, 0), C, sgpr(0)])
I(0xE240000000000000, 'BRA', [u(7), lmt(6), flow_tests, C, label])
I(0xE24000000000000F, 'BRA', [u(7), lmt(6), label])
I(0xE2A0000000000000, 'PBK', [label], nopred=True)
I(0xE290000000000000, 'SSY', [label], nopred=True)
I(0xE260000000000000, 'CAL', [noinc, label], nopred=True)
I(0xE2B0000000000000, 'PCNT', [label], nopred=True)

BY_MNEMONIC = {}
for _f in FORMS:
    BY_MNEMONIC.setdefault(_f.mnemonic, []).append(_f)
