"""Evaluable operations of the term algebra: bit operations, IEEE operations on bit patterns, calendar,
Duration scaling, number parsing, UTF-8/UTF-16 units."""
import math, struct, re
from fractions import Fraction
from terms import *
import terms as T_

def _rng(w): return (0, (1 << w) - 1)
def reg(name, f, iv=None): FN[name] = (f, iv)

# ---- bit operations -----------------------------------------------------------------------------
def _bitiv(name, args):
    w = int(name.split(':')[1])
    a = args
    if all(x.lo >= 0 for x in a):
        hi = max(x.hi for x in a).bit_length()
        if name.startswith('band'): return (0, min(x.hi for x in a))
        return (0, (1 << hi) - 1)
    return (-(1 << (w-1)), (1 << w) - 1)
reg('band', lambda n, v, s: v[0] & v[1], _bitiv)
reg('bor', lambda n, v, s: v[0] | v[1], _bitiv)
reg('bxor', lambda n, v, s: v[0] ^ v[1], _bitiv)
def _w(n): return int(n.split(':')[1])
reg('shl', lambda n, v, s: (v[0] << v[1]) & ((1 << _w(n))-1), lambda n, a: _rng(_w(n)))
reg('shr', lambda n, v, s: v[0] >> v[1], lambda n, a: (min(a[0].lo, 0), max(a[0].hi, 0)))
reg('rotl', lambda n, v, s: ((v[0] << v[1]) | (v[0] >> (_w(n)-v[1]))) & ((1 << _w(n))-1), lambda n, a: _rng(_w(n)))
reg('tdiv', lambda n, v, s: None if v[1] == 0 else (abs(v[0]) // abs(v[1])) * (1 if (v[0] < 0) == (v[1] < 0) else -1),
    lambda n, a: (lambda m: (-m if (a[0].lo < 0 or a[1].lo < 0) else 0, m))(max(abs(a[0].lo), abs(a[0].hi))))
reg('trem', lambda n, v, s: None if v[1] == 0 else v[0] - v[1]*((abs(v[0]) // abs(v[1])) * (1 if (v[0] < 0) == (v[1] < 0) else -1)),
    lambda n, a: (lambda m: (-m if a[0].lo < 0 else 0, m))(min(max(abs(a[0].lo), abs(a[0].hi)), max(abs(a[1].lo), abs(a[1].hi)))))
reg('ctpop', lambda n, v, s: bin(v[0]).count('1'), lambda n, a: (0, _w(n)))
reg('clz', lambda n, v, s: _w(n) - v[0].bit_length(), lambda n, a: (0, _w(n)))
reg('ctz', lambda n, v, s: (v[0] & -v[0]).bit_length()-1 if v[0] else _w(n), lambda n, a: (0, _w(n)))
reg('teq', lambda n, v, s: v[0] == v[1])

def _div2(t):
    """largest power of two dividing every coefficient"""
    c, d = lin(t)
    g = c
    for _, k in d: g = math.gcd(g, k)
    return g & -g if g else 1 << 200
def band(a, b, w):
    if b.op == 'c' and a.op != 'c': a, b = b, a
    if a.op == 'c':
        m = a.a
        if b.op == 'c': return I(m & b.a)
        if m < 0 and b.lo >= 0: m &= (1 << max(b.hi.bit_length(), 1)) - 1
        if m == 0: return ZERO
        if m > 0:
            # contiguous runs of ones
            r = ZERO; n = 0; i = 0
            while m >> i:
                if (m >> i) & 1:
                    j = i
                    while (m >> j) & 1: j += 1
                    n += 1
                    if n > 8: return fn(f'band:{w}', (a, b))
                    r = add(r, mulc(mod(fdiv(b, 1 << i), 1 << (j-i)), 1 << i))
                    i = j
                else: i += 1
            return r
        if m == -1: return b
    if a is b: return a
    if a.op == 'ite' and is_const(a.a[1]) and is_const(a.a[2]): return ite(a.a[0], band(a.a[1], b, w), band(a.a[2], b, w))
    if b.op == 'ite' and is_const(b.a[1]) and is_const(b.a[2]): return ite(b.a[0], band(a, b.a[1], w), band(a, b.a[2], w))
    if b.id < a.id: a, b = b, a
    return fn(f'band:{w}', (a, b))
def bor(a, b, w):
    if a.op == 'c' and b.op == 'c': return I(a.a | b.a)
    if a is b: return a
    for x, y in ((a, b), (b, a)):
        if x.op == 'c' and x.a == 0: return y
        if y.lo >= 0 and y.hi < _div2(x): return add(x, y)
    if a.op == 'c' or b.op == 'c':
        k, x = (a, b) if a.op == 'c' else (b, a)
        if k.a > 0 and x.lo >= 0:   # x | k = x - (x & k) + k
            r = band(k, x, w)
            if not (r.op == 'fn'): return add(sub(x, r), k)
    if b.id < a.id: a, b = b, a
    return fn(f'bor:{w}', (a, b))
def bxor(a, b, w):
    if a.op == 'c' and b.op == 'c': return I(a.a ^ b.a)
    if a is b: return ZERO
    for x, y in ((a, b), (b, a)):
        if x.op == 'c' and x.a == 0: return y
        if x.op == 'c' and x.a == -1: return sub(I(-1), y)
        if y.lo >= 0 and y.hi < _div2(x) and x.lo >= 0: return add(x, y)
        if x.op == 'c' and x.a > 0 and y.lo >= 0:
            if x.a == (1 << w) - 1: return sub(x, y)
            r = band(x, y, w)
            if r.op != 'fn': return add(add(y, x), r, -2)
    if b.id < a.id: a, b = b, a
    return fn(f'bxor:{w}', (a, b))
def bnot(a, w, signed): return sub(I(-1), a) if signed else sub(I((1 << w)-1), a)
def shl(x, n, w, signed):
    if n.op == 'c':
        return wrap(mulc(x, 1 << n.a), w, signed)
    if n.op == 'ite': return ite(n.a[0], shl(x, n.a[1], w, signed), shl(x, n.a[2], w, signed))
    return wrap(fn(f'shl:{w}', (wrap(x, w, False), n)), w, signed)
def shr(x, n, w):
    if n.op == 'c': return fdiv(x, 1 << n.a)
    if n.op == 'ite': return ite(n.a[0], shr(x, n.a[1], w), shr(x, n.a[2], w))
    return fn(f'shr:{w}', (x, n))
def rotl(x, n, w):
    n = mod(n, w)
    if n.op == 'c':
        k = n.a
        if k == 0: return x
        hi = fdiv(x, 1 << (w-k))
        return add(mulc(sub(x, mulc(hi, 1 << (w-k))), 1 << k), hi)
    return fn(f'rotl:{w}', (x, n))
def rotr(x, n, w):
    n = mod(n, w)
    if n.op == 'c': return rotl(x, I((w - n.a) % w), w)
    return rotl(x, sub(I(w), n), w)
def bswap(x, w):
    n = w // 8
    r = ZERO
    for i in range(n):
        d = mod(fdiv(x, 256**i), 256) if i < n-1 else fdiv(x, 256**i)
        r = add(r, d, 256**(n-1-i))
    return r
REBUILD.update({
 'band': lambda n, a, t: band(a[0], a[1], _w(n)), 'bor': lambda n, a, t: bor(a[0], a[1], _w(n)),
 'bxor': lambda n, a, t: bxor(a[0], a[1], _w(n)),
 'shl': lambda n, a, t: wrap(mulc(a[0], 1 << a[1].a), _w(n), False) if a[1].op == 'c' else fn(n, a),
 'shr': lambda n, a, t: shr(a[0], a[1], _w(n)), 'rotl': lambda n, a, t: rotl(a[0], a[1], _w(n)),
 'tdiv': lambda n, a, t: tdiv(a[0], a[1]), 'trem': lambda n, a, t: trem(a[0], a[1]),
})

# ---- floats -------------------------------------------------------------------------------------
def inf_bits(w): return 0x7f800000 if w == 32 else 0x7ff << 52
def f_sign(x, w): return le(I(1 << (w-1)), x)
def f_mag(x, w): return mod(x, 1 << (w-1))
def f_isnan(x, w): return gt(f_mag(x, w), I(inf_bits(w)))
def f_key(x, w): return ite(f_sign(x, w), mulc(f_mag(x, w), -1), f_mag(x, w))
def f_lt(a, b, w): return and_(not_(f_isnan(a, w)), not_(f_isnan(b, w)), lt(f_key(a, w), f_key(b, w)))
def f_le(a, b, w): return and_(not_(f_isnan(a, w)), not_(f_isnan(b, w)), le(f_key(a, w), f_key(b, w)))
def f_eq(a, b, w): return and_(not_(f_isnan(a, w)), not_(f_isnan(b, w)), eq(f_key(a, w), f_key(b, w)))
def f_neg(a, w): return ite(f_sign(a, w), add(a, I(-(1 << (w-1)))), add(a, I(1 << (w-1))))
def f_abs(a, w): return f_mag(a, w)
def _nan(w): return 0x7fc00000 if w == 32 else 0x7ff8 << 48
def fl(name, f):
    def e(n, v, s):
        w = int(n.split(':')[1])
        try: r = f(*[bits2f(x, w) for x in v])
        except (ValueError, ZeroDivisionError): return _nan(w)
        except OverflowError: return inf_bits(w)
        if r != r: return _nan(w)
        return f2bits(r, w)
    reg('f.' + name, e, lambda n, a: _rng(_w(n)))
def fop(name, w, *a): return fn(f'f.{name}:{w}', a)
fl('add', lambda a, b: a+b); fl('sub', lambda a, b: a-b); fl('mul', lambda a, b: a*b)
def _fdiv(a, b):
    if b == 0: return math.nan if a == 0 or a != a else math.copysign(math.inf, a)*math.copysign(1, b)
    return a/b
fl('div', _fdiv); fl('rem', lambda a, b: math.fmod(a, b))
def _ln(f):
    def g(x):
        if x == 0: return -math.inf
        return f(x)
    return g
def _trig(f): return lambda x: f(x)
for k, f in dict(sqrt=math.sqrt, ln=_ln(math.log), log10=_ln(math.log10), log2=_ln(math.log2), exp=math.exp, exp2=lambda x: 2.0**x, exp_m1=math.expm1, ln_1p=lambda x: math.log1p(x),
        sin=math.sin, cos=math.cos, tan=math.tan, asin=math.asin, acos=math.acos, atan=math.atan, sinh=math.sinh, cosh=math.cosh, tanh=math.tanh,
        atan2=math.atan2, cbrt=lambda x: math.copysign(abs(x)**(1/3), x), hypot=math.hypot).items(): fl(k, f)
def _pow(a, b):
    try: return math.pow(a, b)
    except OverflowError:
        return math.inf if a > 0 or b % 2 == 0 else -math.inf
    except ValueError:
        if a == 0 and b < 0:
            return math.copysign(math.inf, a) if (b == int(b) and int(b) % 2) else math.inf
        return math.nan
fl('powf', _pow)
def _rnd(f):
    def g(x):
        if x != x or math.isinf(x): return x
        return math.copysign(float(f(x)), x)
    return g
fl('floor', _rnd(math.floor)); fl('ceil', _rnd(math.ceil)); fl('trunc', _rnd(math.trunc))
fl('round', _rnd(lambda x: math.floor(abs(x)+0.5) if abs(abs(x) % 1 - 0.5) > 1e-9 or abs(x) % 1 >= 0.5 else math.floor(abs(x))))
fl('round_even', _rnd(lambda x: round(abs(x))))
def _fmax(a, b): return b if a != a else a if b != b else (b if a < b else a)
def _fmin(a, b): return b if a != a else a if b != b else (b if b < a else a)
fl('max', _fmax); fl('min', _fmin)
def _powi(n, v, s):
    w = _w(n); a = bits2f(v[0], w); k = v[1]
    r = _pow(a, float(k))
    return _nan(w) if r != r else f2bits(r, w)
reg('f.powi', _powi, lambda n, a: _rng(_w(n)))
# casts  f.cvt:FROM:TO , f.ofint:w , f.toint:w:bits:signed
def _cvt(n, v, s):
    _, a, b = n.split(':')
    x = bits2f(v[0], int(a))
    return _nan(int(b)) if x != x else f2bits(x, int(b))
reg('f.cvt', _cvt, lambda n, a: _rng(int(n.split(':')[2])))
def _ofint(n, v, s):
    w = _w(n)
    if w == 64: return f2bits(float(v[0]), 64)
    # direct rounding to binary32
    x = v[0]; m = abs(x)
    if m.bit_length() > 24:
        sh = m.bit_length() - 24
        q, r = m >> sh, m & ((1 << sh)-1); h = 1 << (sh-1)
        if r > h or (r == h and q & 1): q += 1
        m = q << sh
    return f2bits(float(-m if x < 0 else m), 32)
reg('f.ofint', _ofint, lambda n, a: _rng(_w(n)))
def _toint(n, v, s):
    _, w, b, sg = n.split(':'); b = int(b)
    x = bits2f(v[0], int(w)); lo, hi = (-(1 << (b-1)), (1 << (b-1))-1) if sg == '1' else (0, (1 << b)-1)
    if x != x: return 0
    if math.isinf(x): return hi if x > 0 else lo
    return min(max(math.trunc(x), lo), hi)
reg('f.toint', _toint, lambda n, a: (lambda b, sg: (-(1 << (b-1)), (1 << (b-1))-1) if sg == '1' else (0, (1 << b)-1))(int(n.split(':')[2]), n.split(':')[3]))
def f_cvt(x, a, b):
    if a == b: return x
    return fn(f'f.cvt:{a}:{b}', (x,))

# ---- Duration scaling ---------------------------------------------------------------------------
def _round_half_even(q):
    f = math.floor(q); r = q - f
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and f & 1): f += 1
    return f
def _dur(op, w):
    def secs(n):
        if w == 64: return (n // 10**9) + (n % 10**9)/1e9
        f32 = lambda x: bits2f(f2bits(x, 32), 32)
        s = bits2f(_ofint('f.ofint:32', [n // 10**9], 'i'), 32); ns = bits2f(_ofint('f.ofint:32', [n % 10**9], 'i'), 32)
        return f32(s + f32(ns/f32(1e9)))
    def val(v):
        n, b = v
        x = bits2f(b, w); s = secs(n)
        try: r = x*s if op == 'mul' else _fdiv(s, x)
        except OverflowError: r = math.inf
        if w == 32: r = bits2f(f2bits(r, 32), 32) if r == r and not math.isinf(r) else r
        if r != r or math.isinf(r) or r < 0 : return None
        q = _round_half_even(Fraction(r)*10**9)
        if q // 10**9 >= 1 << 64: return None
        return q
    return val
for op in ('mul', 'div'):
    for w in (32, 64):
        g = _dur(op, w)
        reg(f'dur.{op}{w}', lambda n, v, s, g=g: (lambda r: 0 if r is None else r)(g(v)), lambda n, a: (0, (1 << 64)*10**9-1))
        reg(f'dur.{op}{w}.ok', lambda n, v, s, g=g: g(v) is not None)

def _durreb(n, a, t):
    k = n.split('.')[1]
    if len(a) == 2 and a[1].op == 'c' and a[1].a == 0:            # scaling by zero
        ok = n.endswith('.ok')
        if k.startswith('mul'): return TRUE if ok else ZERO
        return FALSE if ok else ZERO
    return fn(n, a, t.s)
for _op in ('mul', 'div'):
    for _w_ in (32, 64): REBUILD[f'dur.{_op}{_w_}'] = _durreb; REBUILD[f'dur.{_op}{_w_}.ok'] = _durreb
# ---- calendar -----------------------------------------------------------------------------------
def civil(d):
    z = d + 719468; era = z // 146097; doe = z - era*146097
    yoe = (doe - doe//1460 + doe//36524 - doe//146096)//365
    doy = doe - (365*yoe + yoe//4 - yoe//100); mp = (5*doy+2)//153
    dd = doy - (153*mp+2)//5 + 1; m = mp + 3 if mp < 10 else mp - 9
    return yoe + era*400 + (m <= 2), m, dd
def days(y, m, d):
    y -= m <= 2; era = y // 400; yoe = y - era*400
    doy = (153*(m + (-3 if m > 2 else 9))+2)//5 + d - 1; doe = yoe*365 + yoe//4 - yoe//100 + doy
    return era*146097 + doe - 719468
def _leap(y): return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
def ymd_ok(y, m, d):
    return -262143 <= y <= 262142 and 1 <= m <= 12 and 1 <= d <= [31, 29 if _leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m-1]
def _yiv(n, a):
    lo, hi = max(a[0].lo, -10**8), min(a[0].hi, 10**8)
    return (civil(lo)[0], civil(hi)[0])
reg('cal.year', lambda n, v, s: civil(v[0])[0], _yiv)
reg('cal.month', lambda n, v, s: civil(v[0])[1], lambda n, a: (1, 12))
reg('cal.day', lambda n, v, s: civil(v[0])[2], lambda n, a: (1, 31))
reg('cal.ok', lambda n, v, s: ymd_ok(*v))
reg('cal.days', lambda n, v, s: days(*v) if ymd_ok(*v) else 0, lambda n, a: (days(max(a[0].lo, -262143), 1, 1), days(min(max(a[0].hi, -262143), 262142), 12, 31)) if a[0].lo <= 262142 else (0, 0))

# ---- unicode ------------------------------------------------------------------------------------
def _u8(n, v, s):
    _, k, w = n.split(':'); return _enc8(v[0])[int(k)] if len(_enc8(v[0])) == int(w) else None
def _enc8(c):
    if c < 0x80: return [c]
    if c < 0x800: return [0xC0 | c >> 6, 0x80 | c & 63]
    if c < 0x10000: return [0xE0 | c >> 12, 0x80 | (c >> 6) & 63, 0x80 | c & 63]
    return [0xF0 | c >> 18, 0x80 | (c >> 12) & 63, 0x80 | (c >> 6) & 63, 0x80 | c & 63]
def utf8_units(c, w):
    """units of a scalar term known to have UTF-8 width w"""
    if c.op == 'c': return [I(x) for x in _enc8(c.a)]
    if w == 1: return [c]
    lead = {2: 0xC0, 3: 0xE0, 4: 0xF0}[w]
    r = [add(fdiv(c, 64**(w-1)), I(lead))]
    for k in range(1, w): r.append(add(mod(fdiv(c, 64**(w-1-k)), 64), I(0x80)))
    return r
def utf8_width(c):
    """width as a term"""
    return ite(lt(c, I(0x80)), I(1), ite(lt(c, I(0x800)), I(2), ite(lt(c, I(0x10000)), I(3), I(4))))
def utf16_units(c, w):
    if c.op == 'c': return [c] if c.a < 0x10000 else [I(0xD800 + ((c.a-0x10000) >> 10)), I(0xDC00 + ((c.a-0x10000) & 0x3ff))]
    if w == 1: return [c]
    x = add(c, I(-0x10000))
    return [add(fdiv(x, 1024), I(0xD800)), add(mod(x, 1024), I(0xDC00))]
# ---- text of unit lists, number parsing ---------------------------------------------------------
reg('bytes', lambda n, v, s: bytes(v))
reg('prior', lambda n, v, s: 0x41 + v[0] % 7)      # a possible prior content of a destination
def _trim(n, v, s):
    x = v[0].decode('utf-8', 'replace'); k = n.split(':')[1]; ws = ''.join(chr(c) for c in range(0x3001) if chr(c).isspace() and c not in (0x1c, 0x1d, 0x1e, 0x1f))
    return (x.strip(ws) if k == 'both' else x.lstrip(ws) if k == 'start' else x.rstrip(ws)).encode()
reg('text.trim', _trim)
def _recase(n, v, s):
    x = v[0]
    return x.upper() if n.endswith('upper') else x.lower()
reg('text.case', _recase)
def text_of(units): return fn('bytes', tuple(units), 't') if units else EMPTY
def _pint(n, v):
    _, bits, sg, radix = n.split(':'); bits = int(bits); radix = int(radix)
    s = v[0]
    neg = False
    if s[:1] in (b'+', b'-'):
        neg = s[:1] == b'-'
        if neg and sg == '0' : return None
        s = s[1:]
    if not s: return None
    x = 0
    for ch in s:
        c = chr(ch)
        d = int(c, 36) if c.isascii() and c.isalnum() else 99
        if d >= radix: return None
        x = x*radix + d
    x = -x if neg else x
    lo, hi = (-(1 << (bits-1)), (1 << (bits-1))-1) if sg == '1' else (0, (1 << bits)-1)
    return x if lo <= x <= hi else None
def _piv(n, a):
    _, bits, sg, radix = n.split(':'); bits = int(bits)
    return (-(1 << (bits-1)), (1 << (bits-1))-1) if sg == '1' else (0, (1 << bits)-1)
reg('parse.int.ok', lambda n, v, s: _pint(n, v) is not None)
reg('parse.int', lambda n, v, s: (lambda r: 0 if r is None else r)(_pint(n, v)), _piv)
_FRE = re.compile(rb'^[+-]?(inf|infinity|nan|(\d+(\.\d*)?|\.\d+)(e[+-]?\d+)?)$', re.I)
def _pfl(n, v):
    w = _w(n)
    if not _FRE.match(v[0]): return None
    x = v[0].decode()
    if w == 64: return f2bits(float(x), 64)
    f = float(x)
    if f != f or math.isinf(f) and 'inf' in x.lower(): return f2bits(f, 32)
    from fractions import Fraction
    q = Fraction(x); sign = 0x80000000 if x.startswith('-') else 0
    a = abs(q)
    if a == 0: return sign
    # nearest single-precision value, ties to even, without rounding through double precision
    lo, hi = 0, 0x7f800000
    val = lambda b: Fraction(bits2f(b, 32)) if b < 0x7f800000 else Fraction(2)**128
    while hi - lo > 1:
        m = (lo + hi)//2
        if val(m) <= a: lo = m
        else: hi = m
    if a >= val(hi): lo = hi
    if lo == 0x7f800000: return sign | lo
    d1, d2 = a - val(lo), val(lo+1) - a
    return sign | (lo if d1 < d2 or d1 == d2 and lo % 2 == 0 else lo+1)
reg('parse.float.ok', lambda n, v, s: _pfl(n, v) is not None)
reg('parse.float', lambda n, v, s: (lambda r: 0 if r is None else r)(_pfl(n, v)), lambda n, a: _rng(_w(n)))
