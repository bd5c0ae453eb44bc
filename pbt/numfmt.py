"""Exact number helpers for the reference model (no use of the code under test).

All rounding is done on rationals, so the model does not depend on the C library's strtof/strtod or
on any hardware float conversion.
"""
from fractions import Fraction
import re

INT_RE = re.compile(r'[+-]?(?:0[bB][01]+|0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)\Z')
FLT_RE = re.compile(r'[+-]?[0-9]+\.[0-9]*\Z')


def parse_c_int(text):
    """Value of a C integer literal (base 0), or None if the text is not one."""
    if not INT_RE.match(text):
        return None
    sign = 1
    body = text
    if body[0] in '+-':
        sign = -1 if body[0] == '-' else 1
        body = body[1:]
    if body[:2] in ('0x', '0X'):
        return sign * int(body, 16)
    if body[:2] in ('0b', '0B'):
        return sign * int(body, 2)       # some C libraries read these; see is_binary
    if len(body) > 1 and body[0] == '0':
        return sign * int(body, 8)
    return sign * int(body, 10)


def is_binary(text):
    return text.lstrip('+-')[:2] in ('0b', '0B')


def dec_fraction(text):
    """(negative, magnitude) of a decimal fraction literal."""
    neg = text[0] == '-'
    body = text.lstrip('+-')
    ip, _, fp = body.partition('.')
    return neg, Fraction(int((ip or '0') + fp), 10 ** len(fp))


def round_ieee(mag, mant, ebits):
    """Round a non-negative rational to an IEEE format, nearest even.

    mant: explicit mantissa bits; ebits: exponent bits. Returns the encoding without the sign bit.
    """
    bias = (1 << (ebits - 1)) - 1
    if mag == 0:
        return 0
    # floor(log2(mag))
    n, d = mag.numerator, mag.denominator
    e = n.bit_length() - d.bit_length()
    if (n >> e if e >= 0 else n << -e) < d:
        e -= 1
    assert Fraction(2) ** e <= mag < Fraction(2) ** (e + 1)
    emin = 1 - bias
    q = max(e, emin) - mant          # exponent of one unit in the last place
    scaled = mag / (Fraction(2) ** q)
    m = scaled.numerator // scaled.denominator
    rest = scaled - m
    half = Fraction(1, 2)
    if rest > half or (rest == half and (m & 1)):
        m += 1
    # m may have grown to the next binade: the addition below carries correctly.
    if max(e, emin) == emin and m < (1 << mant):
        return m                     # subnormal (or zero)
    enc = ((max(e, emin) + bias) << mant) + (m - (1 << mant))
    if enc >= ((1 << ebits) - 1) << mant:
        return ((1 << ebits) - 1) << mant   # infinity
    return enc


def f32_bits(mag):
    return round_ieee(mag, 23, 8)


def f64_bits(mag):
    return round_ieee(mag, 52, 11)


def f32_value(bits):
    """Rational value of a finite, non-negative single-precision encoding."""
    e = bits >> 23
    m = bits & 0x7FFFFF
    if e == 255:
        return None
    if e == 0:
        return Fraction(m) * Fraction(2) ** -149
    return Fraction(m | 0x800000) * Fraction(2) ** (e - 150)


def f16_from_f32(bits):
    """Half-precision encoding (no sign) nearest to a non-negative single-precision encoding."""
    v = f32_value(bits)
    if v is None:
        return 0x7C00
    return round_ieee(v, 10, 5)
