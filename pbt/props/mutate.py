"""Token-level mutations of a statement."""
import random

from .. import gen
from ..engine import G
from ..isa import FORMS, BY_MNEMONIC

WORDS = ['R0', 'RZ', 'R255', 'R256', 'R4294967297', 'R', 'RX', 'P0', '!P1', 'PT', 'P7', 'P', '!', '0', '1', '-1', '0x7', '1.0', '-0.5',
         'INF', 'QNAN', ',', ';', '@', '[', ']', '|', '-', '+', '~', 'c', 'a', '.', '.reuse', '.CC', '.X', '.FTZ', '.NEG',
         '.ABS', '.S32', '.U32', '.H1', '.B1', '.E', 'CC', '.T', '.RN', '.SAT', '.PO', 'foo', 'foo:', '2D', '1D', 'SR0',
         '.64', '.B', '.reuse.reuse', 'NOP', '0x', '08', '1e', '99999999999999999999', 'c[0]', 'NOP;', '#', '/', '//',
         '"', '(', ')', '{', '}', '*', '=', '_', '$', '%', '^', '&', '<', '>', '?', '`', "'", '\\', 'R0x', 'r0', 'Rz',
         '.reus', 'P6', '.F', '.AND', '.LO', '.HI', '.P', '.D', '.U', '.W', '.R', '.L', '...', '..', '.CC.X']



def _collect():
    """Every modifier word that occurs in some form (fixed seed, so always the same list)."""
    rng = random.Random(0)
    out = set()
    for f in FORMS:
        for _ in range(30):
            g = G(rng=rng, rot={})
            g.scope = f.sig
            out |= {t for t in gen.form_toks(f, gen.gen_values(g, f)) if t[0] == '.'}
    return sorted(out)


MODS = _collect()


def is_mod(t):
    return len(t) > 1 and t[0] == '.'


def is_operand(t):
    return t not in ('@', ',', ';', '[', ']', '|', '-', '~', '+') and not is_mod(t)


def one(g, t, first):
    """One mutation of the token list t (in place); first: index of the mnemonic. Returns its name."""
    k = g.pick(18, 'mut')
    n = len(t)
    i = g.pick(n, None)
    if k == 0:
        del t[i]
        return 'delete'
    if k == 1:
        t.insert(i, t[i])
        return 'duplicate'
    if k == 2 and n > 1:
        j = i % (n - 1)
        t[j], t[j + 1] = t[j + 1], t[j]
        return 'swap neighbours'
    if k == 3:
        t.insert(i, WORDS[g.pick(len(WORDS), 'word')])
        return 'insert'
    if k == 4:
        t[i] = WORDS[g.pick(len(WORDS), 'word')]
        return 'replace'
    if k == 5:
        mods = [j for j in range(n) if is_mod(t[j])]
        if mods:
            j = mods[g.pick(len(mods), None)]
            del t[j]
            return 'drop modifier'
    if k == 6:
        t.insert(first + 1 if g.pick(2, 'modat') == 0 else i, MODS[g.pick(len(MODS), 'mod')])
        return 'add modifier'
    if k == 7:
        mods = [j for j in range(n) if is_mod(t[j])]
        if mods:
            t[mods[g.pick(len(mods), None)]] = MODS[g.pick(len(MODS), 'mod')]
            return 'change modifier'
    if k == 8:
        mods = [j for j in range(n) if is_mod(t[j])]
        if len(mods) > 1:
            j = g.pick(len(mods) - 1, None)
            a, b = mods[j], mods[j + 1]
            t[a], t[b] = t[b], t[a]
            return 'swap modifiers'
    if k == 9:
        ops = [j for j in range(n) if is_operand(t[j]) and j != first]
        if len(ops) > 1:
            j = g.pick(len(ops) - 1, None)
            a, b = ops[j], ops[j + 1]
            t[a], t[b] = t[b], t[a]
            return 'swap operands'
    if k == 10:
        commas = [j for j in range(n) if t[j] == ',']
        if commas:
            j = commas[g.pick(len(commas), None)]
            e = j + 1
            while e < n and t[e] not in (',', '@', ';'):
                e += 1
            if g.pick(2, 'operand'):
                del t[j:e]
                return 'drop operand'
            t[j:j] = t[j:e]
            return 'repeat operand'
    if k == 11:
        names = sorted(BY_MNEMONIC)
        if first < n:
            t[first] = names[g.pick(len(names), 'mn')]
            return 'other mnemonic'
    if k == 12:
        w = t[i]
        j = g.pick(len(w), None)
        c = g.pick(6, 'edit')
        if c == 0:
            w = w[:j] + w[j + 1:]
        elif c == 1:
            w = w[:j] + w[j].swapcase() + w[j + 1:]
        elif c == 2:
            w = w[:j] + '0123456789ABCDEFXZRPT_.'[g.pick(23, 'ch')] + w[j:]
        elif c == 3:
            w = w + '0123456789ABCDEFXZRPT_'[g.pick(22, 'ch')]
        elif c == 4:
            w = w[:j] + chr(33 + g.pick(94, 'any')) + w[j + 1:]
        else:
            w = w[::-1]
        if w:
            t[i] = w
        else:
            del t[i]
        return 'edit characters'
    if k == 13:
        del t[i:]
        return 'truncate'
    if k == 14:
        # a negation, complement or absolute value somewhere
        c = g.pick(3, 'un')
        if c == 2:
            t[i:i + 1] = ['|', t[i], '|']
        else:
            t.insert(i, '-~'[c])
        return 'unary'
    if k == 15:
        ops = [j for j in range(n) if is_operand(t[j]) and j != first]
        if ops:
            j = ops[g.pick(len(ops), None)]
            t[j] = ('R1', 'RZ', 'P1', '!P1', 'PT', '0x1', '-0x1', '1.5', 'foo', 'c[0x0][0x0]', 'a[0x0]', '[R1]', 'CC',
                    'R255', 'R300', 'P7', '0x100000', '0x100000000', 'R4294967296', 'R4294967301', 'R65536', 'R18446744073709551617', 'R511',
                    'LETTER', 'LETTER', 'R99999999999999999999', 'P10', 'P256', 'R00256', 'R2147483648', 'R0255', 'R0000255',
                    'R000000000000000256', 'R' + '0' * 40 + '255', 'P00', 'P03')[g.pick(36, 'opnd')]
            if t[j] == 'LETTER':
                t[j] = chr(65 + g.pick(26, 'lett') + 32 * g.pick(2, 'lettc')) + '0123456789ZTt'[g.pick(13, 'lettd')]
            return 'replace operand'
    if k == 16:
        t[i] = t[i] + ' ' + WORDS[g.pick(len(WORDS), 'word')]
        return 'append'
    if k == 17:
        # some tokens of the statement once more, there or elsewhere; the guard in particular
        j = 0 if first and g.pick(2, 'copyguard') else i
        part = t[j:j + 1 + g.pick(4, 'copyn')] if j != 0 or not first else t[:first]
        at = j if g.pick(2, 'copyat') else g.pick(n + 1, None)
        t[at:at] = part
        return 'copy'
    t.insert(i, WORDS[g.pick(len(WORDS), 'word')])
    return 'insert'


def mutate(g, s, lo=1, hi=3):
    """Mutates s.toks; returns the names of what was done."""
    names = []
    for _ in g.many(lo, hi, avg=1.3):
        if not s.toks:
            break
        first = 2 * s.explicit_guard
        names.append(one(g, s.toks, min(first, len(s.toks) - 1)))
    if not s.toks:
        s.toks.append(';')
    return names
