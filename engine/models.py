"""Models of compiler intrinsics and of the library functions whose bodies are not interpreted: formatting, clocks,
Duration, chrono, number parsing, UTF-8 validation and libm."""
import re
from terms import *
import ops
from interp import *

REG = {}; PAT = []
def m(*names):
    def d(f):
        for n in names: REG[n] = f
        return f
    return d
def pat(rx):
    def d(f): PAT.append((re.compile(rx), f)); return f
    return d
INTR = {}
def intr(*names):
    def d(f):
        for n in names: INTR[n] = f
        return f
    return d

_memo = {}
def last(name):
    """last path segment without generic arguments"""
    out = []; d = 0
    for ch in name:
        if ch == '<': d += 1
        elif ch == '>': d -= 1
        elif d == 0: out.append(ch)
    return [x for x in ''.join(out).split('::') if x][-1]
class Models:
    def __init__(self, extra=None): self.extra = extra or {}
    def find(self, cal):
        k = cal.get('intr')
        if k and k in INTR: return INTR[k]
        key = (cal['idef'], cal['name'])
        if key in _memo: return _memo[key]
        r = REG.get(cal['idef']) or REG.get(cal['name'])
        if r is None:
            for rx, f in PAT:
                if rx.search(cal['name']) or rx.search(cal['idef']): r = f; break
        _memo[key] = r
        return r

def some(x): return En(ONE, {1: (x,)})
NONE = En(ZERO, {0: ()})
def opt(c, x): return En(ite(c, ONE, ZERO), {0: (), 1: (x,)})      # Some iff c
def res(c, ok, err): return En(ite(c, ZERO, ONE), {0: (ok,), 1: (err,)})   # Ok iff c
def deref(I_, st, v):
    v = I_.force(st, v); 
    while isinstance(v, Agg) and len(v.f): v = v.f[0]
    if isinstance(v, VIte): return vlift(v, lambda x: deref(I_, st, x))
    if isinstance(v, Ptr): return I_.force(st, I_.read(st, v.obj, v.path))
    return v
def argtys(cal, t): return (t or {}).get('atys') or []
def garg(I_, cal, n=0):
    a = [x for x in (cal.get('iargs') or []) if isinstance(x, int)]
    return a[n] if n < len(a) else None

# ---------------------------------------------------------------- panics
@pat(r'^(core|std)::(panicking|rt)::|::(unwrap_failed|expect_failed|expect_none_failed)|unwrap_failed_inner|slice_index_fail|slice_error_fail|_len_fail|_index_order_fail|radix_panic|^core::slice::index::slice_|panic_const|len_mismatch_fail|std::process::(abort|exit)|begin_panic|panic_bounds_check|panic_on_ord_violation|panic_misaligned|cell::panic_')
def _panic(I_, st, cal, args, t):
    n = cal['name']
    if t and t.get('dty') is not None and I_.p.ty(t['dty'])['k'] != 'never': return NotImplemented
    if 'nounwind' in n: I_.ub(st, 'violated precondition of an unsafe function'); return None
    I_.panic(st, 'panic', (t or {}).get('sp'))
    return None

# Euclidean division by a constant is floor division
@pat(r'^core::num::<impl i(8|16|32|64|128|size)>::(div|rem)_euclid$|^core::num::i\w*::(div|rem)_euclid$')
def _euclid(I_, st, cal, args, t):
    mm = re.search(r'<impl (i\w+)>', cal['name'])
    x, y = I_.asint(args[0]), st.ctx.simp(I_.asint(args[1]))
    if not (y.op == 'c' and y.a not in (0, -1)) or not mm: return NotImplemented
    k = y.a
    if last(cal['name']).startswith('rem'): return mod(x, abs(k)), st
    return (fdiv(x, k) if k > 0 else sub(ZERO, fdiv(x, -k))), st

# ---------------------------------------------------------------- intrinsics
@intr('assert_inhabited', 'assert_zero_valid', 'assert_mem_uninitialized_valid', 'cold_path', 'assume', 'forget', 'black_box_unit', 'va_end')
def _unit(I_, st, cal, args, t): return UNIT, st
@intr('likely', 'unlikely', 'black_box')
def _id(I_, st, cal, args, t): return args[0], st
@intr('abort', 'breakpoint', 'unreachable')
def _abort(I_, st, cal, args, t):
    if cal['intr'] == 'abort': I_.panic(st, 'abort', (t or {}).get('sp'))
    return None
def gint(I_, cal, t): return I_.intinfo(garg(I_, cal))
@intr('bswap')
def _bswap(I_, st, cal, args, t):
    b, sg = gint(I_, cal, t); return wrap(ops.bswap(wrap(args[0], b, False), b), b, sg), st
@intr('bitreverse')
def _bitrev(I_, st, cal, args, t):
    b, sg = gint(I_, cal, t); x = wrap(args[0], b, False); r = ZERO
    for i in range(b): r = add(r, mod(fdiv(x, 1 << i), 2) if i < b-1 else fdiv(x, 1 << i), 1 << (b-1-i))
    return wrap(r, b, sg), st
@intr('ctpop', 'ctlz', 'cttz', 'ctlz_nonzero', 'cttz_nonzero')
def _cnt(I_, st, cal, args, t):
    b, sg = gint(I_, cal, t); k = {'ctpop': 'ctpop', 'ctlz': 'clz', 'cttz': 'ctz'}[cal['intr'][:5].rstrip('_')[:4] if False else cal['intr'].split('_')[0]]
    x = st.ctx.simp(wrap(args[0], b, False))
    return fn(f'{k}:{b}', (x,)), st
@intr('rotate_left', 'rotate_right')
def _rot(I_, st, cal, args, t):
    b, sg = gint(I_, cal, t); x = wrap(args[0], b, False)
    return wrap((ops.rotl if cal['intr'] == 'rotate_left' else ops.rotr)(x, args[1], b), b, sg), st
@intr('disjoint_bitor')
def _dbor(I_, st, cal, args, t):
    b, sg = gint(I_, cal, t); return ops.bor(args[0], args[1], b), st
@intr('unchecked_funnel_shl', 'unchecked_funnel_shr')
def _fun(I_, st, cal, args, t):
    b, sg = gint(I_, cal, t); hi, lo, n = args
    if hi is lo: return (ops.rotl if cal['intr'].endswith('shl') else ops.rotr)(hi, n, b), st
    return NotImplemented
def _bin(op):
    def f(I_, st, cal, args, t):
        b, sg = gint(I_, cal, t); a, c = I_.asint(args[0]), I_.asint(args[1])
        r = {'add': add, 'sub': sub, 'mul': mul}[op](a, c)
        return a, c, r, b, sg
    return f
for _o in ('add', 'sub', 'mul'):
    def mk3(o):
        g = _bin(o)
        def w(I_, st, cal, args, t): a, c, r, b, sg = g(I_, st, cal, args, t); return wrap(r, b, sg), st
        def ov(I_, st, cal, args, t):
            a, c, r, b, sg = g(I_, st, cal, args, t)
            lo, hi = rng(b, sg)
            return Agg([wrap(r, b, sg), or_(lt(r, I(lo)), gt(r, I(hi)))]), st
        def sat(I_, st, cal, args, t):
            a, c, r, b, sg = g(I_, st, cal, args, t); lo, hi = rng(b, sg)
            return ite(gt(r, I(hi)), I(hi), ite(lt(r, I(lo)), I(lo), r)), st
        INTR['wrapping_' + o] = w; INTR['unchecked_' + o] = w; INTR[o + '_with_overflow'] = ov; INTR['saturating_' + o] = sat
    mk3(_o)
def rng(b, sg): return (-(1 << (b-1)), (1 << (b-1))-1) if sg else (0, (1 << b)-1)
@intr('unchecked_div', 'exact_div')
def _udiv(I_, st, cal, args, t):
    b, sg = gint(I_, cal, t); return I_.sdiv(st, args[0], args[1], b, sg), st
@intr('unchecked_rem')
def _urem(I_, st, cal, args, t): return I_.srem(st, args[0], args[1]), st
@intr('unchecked_shl', 'unchecked_shr')
def _ush(I_, st, cal, args, t):
    b, sg = gint(I_, cal, t)
    return (ops.shl(args[0], args[1], b, sg) if cal['intr'].endswith('l') else ops.shr(args[0], args[1], b)), st
@intr('integer_min', 'integer_max')
def _imin(I_, st, cal, args, t):
    a, b = args; c = lt(b, a) if cal['intr'] == 'integer_min' else lt(a, b)
    return ite(c, b, a), st
@intr('three_way_compare')
def _twc(I_, st, cal, args, t):
    x, y = I_.asint(args[0]), I_.asint(args[1])
    return I_.ordering(ite(lt(x, y), I(-1), ite(eq(x, y), ZERO, ONE))), st
@intr('size_of', 'min_align_of', 'align_of', 'pref_align_of')
def _size(I_, st, cal, args, t):
    l = I_.p.ty(garg(I_, cal))['layout']; return I(l['size'] if cal['intr'] == 'size_of' else l['align']), st
@intr('needs_drop')
def _nd(I_, st, cal, args, t): return FALSE, st
@intr('ptr_offset_from_unsigned', 'ptr_offset_from')
def _pof(I_, st, cal, args, t): return st.ctx.simp(I_.ptr_diff(st, args[0], args[1])), st
@intr('offset', 'arith_offset')
def _off(I_, st, cal, args, t): return I_.ptr_add(st, args[0], I_.asint(args[1])), st
@intr('read_via_copy', 'volatile_load', 'unaligned_volatile_load')
def _rvc(I_, st, cal, args, t): return deref(I_, st, args[0]), st
@intr('write_via_move', 'volatile_store', 'unaligned_volatile_store')
def _wvm(I_, st, cal, args, t):
    p = I_.unwrapp(I_.force(st, args[0]))
    if not isinstance(p, Ptr): raise Unsup('store')
    I_.write(st, p.obj, p.path, args[1]); return UNIT, st
@intr('transmute', 'transmute_unchecked')
def _tr(I_, st, cal, args, t): return I_.transmute(args[0], garg(I_, cal, 0), garg(I_, cal, 1)), st
@intr('copy_nonoverlapping', 'copy')
def _cpy(I_, st, cal, args, t): I_.memcpy(st, args[0], args[1], I_.asint(args[2])); return UNIT, st
@intr('write_bytes')
def _wb(I_, st, cal, args, t):
    p = I_.unwrapp(I_.force(st, args[0])); n = st.ctx.simp(args[2])
    if n.op != 'c' or n.a > 4096: raise Unsup('fill of unknown length')
    e = I_.p.ty(garg(I_, cal)); sz = I_.size(garg(I_, cal))
    v = ZERO
    for i in range(sz): v = add(v, args[1], 256**i)
    I_.put(st, p, [v]*n.a); return UNIT, st
@intr('select_unpredictable')
def _sel(I_, st, cal, args, t): return vite(I_.asb(args[0]), args[1], args[2]), st
@intr('raw_eq')
def _req(I_, st, cal, args, t):
    a = deref(I_, st, args[0]); b = deref(I_, st, args[1])
    def f(x, y):
        if isinstance(x, T): return eq(x, y)
        return and_(*[f(p, q) for p, q in zip(x.f, y.f)])
    return f(a, b), st
@intr('discriminant_value')
def _dv(I_, st, cal, args, t): 
    v = deref(I_, st, args[0])
    return I_.discr(v, garg(I_, cal)), st
@intr('const_eval_select')
def _ces(I_, st, cal, args, t): raise Unsup('const_eval_select')
@intr('compare_bytes')
def _cb(I_, st, cal, args, t):
    n = st.ctx.simp(I_.asint(args[2]))
    return cmp_units(I_, st, args[0], args[1], n), st
def cmp_units(I_, st, a, b, n):
    if n is ZERO: return ZERO
    a = I_.unwrapp(I_.force(st, a)); b = I_.unwrapp(I_.force(st, b))
    if n.op != 'c':
        l, h = st.ctx.interval(n)
        if h - l > 40: raise Unsup('comparison of unknown length')
        r = ZERO
        for k in range(h, l-1, -1): r = ite(eq(n, I(k)), cmp_units(I_, st, a, b, I(k)), r)
        return r
    def items(p):
        """the elements at p and their size in bytes"""
        if p.path and p.path[-1][0] == 'as':
            w = I_.p.ty(p.path[-1][1])
            if w['k'] != 'int' or w['bits'] % 8: raise Unsup('comparison of bytes of ' + w['s'])
            w = w['bits']//8
            if n.a % w: raise Unsup('comparison of part of an element')
            return I_.units(st, Ptr(p.obj, p.path[:-1]), I(n.a//w)), w
        return I_.units(st, p, n), 1
    (x, wx), (y, wy) = items(a), items(b)
    if wx != wy: raise Unsup('comparison of elements of different size')
    if wx > 1:        # bytes in memory order: the lowest first
        r = ZERO
        for p, q in reversed(list(zip(x, y))):
            if p.s == 't' or q.s == 't': raise Unsup('comparison of texts')
            d = ONE
            for k in range(wx-1, -1, -1):
                a8, b8 = (mod(fdiv(z, 256**k) if k else z, 256) for z in (p, q))
                d = ite(lt(a8, b8), I(-1), ite(lt(b8, a8), ONE, d))
            r = ite(eq(p, q), r, d)
        return r
    if any(q.s == 't' for q in x + y): raise Unsup('comparison of texts')
    r = ZERO
    for p, q in reversed(list(zip(x, y))):
        r = ite(lt(p, q), I(-1), ite(eq(p, q), r, ONE))
    return r

# ---------------------------------------------------------------- floats
_FI = dict(sqrt='sqrt', sin='sin', cos='cos', tan='tan', exp='exp', exp2='exp2', log='ln', log10='log10', log2='log2', powf='powf', floor='floor', ceil='ceil', trunc='trunc', round='round',
           rint='round_even', nearbyint='round_even', round_ties_even='round_even')
def _fw(I_, cal, t, args):
    a = garg(I_, cal)
    if a is not None: return I_.p.ty(a)['bits']
    n = cal['intr']
    return 32 if n.endswith('f32') else 64
def _mkf(op):
    def f(I_, st, cal, args, t): return ops.fop(op, _fw(I_, cal, t, args), *args), st
    return f
for k, v in _FI.items():
    for sfx in ('', 'f32', 'f64'): INTR[k + sfx] = _mkf(v)
@intr('powi', 'powif32', 'powif64')
def _powi(I_, st, cal, args, t): return fn(f'f.powi:{_fw(I_, cal, t, args)}', tuple(args)), st
@intr('fabs', 'fabsf32', 'fabsf64')
def _fabs(I_, st, cal, args, t): return ops.f_abs(args[0], _fw(I_, cal, t, args)), st
@intr('copysign', 'copysignf32', 'copysignf64')
def _cps(I_, st, cal, args, t):
    w = _fw(I_, cal, t, args)
    return add(ops.f_mag(args[0], w), ite(ops.f_sign(args[1], w), I(1 << (w-1)), ZERO)), st
def _minmax(op, w):
    def f(I_, st, cal, args, t): return fminmax(op, w, *args), st
    return f
def fminmax(op, w, a, b):
    """maximum / minimum of numbers: a NaN operand is ignored; the sign of equal zeros is left to the platform"""
    r = ops.fop(op, w, a, b)
    return r
for w in (32, 64):
    for o in ('maximum', 'minimum'):
        for nm in ('_number_nsz', '_number'): INTR[f'{o}{nm}_f{w}'] = _minmax(o[:3], w)
    INTR[f'maxnumf{w}'] = _minmax('max', w); INTR[f'minnumf{w}'] = _minmax('min', w)
_LIBM = dict(sin='sin', cos='cos', tan='tan', asin='asin', acos='acos', atan='atan', atan2='atan2', exp='exp', exp2='exp2', expm1='exp_m1', log='ln', log10='log10', log2='log2', log1p='ln_1p', pow='powf',
             sqrt='sqrt', floor='floor', ceil='ceil', trunc='trunc', round='round', rint='round_even', roundeven='round_even', sinh='sinh', cosh='cosh', tanh='tanh', cbrt='cbrt', hypot='hypot', fmod='rem')
@pat(r'libm::(likely_available::)?\w+$|^std::sys::cmath::\w+$')
def _libm(I_, st, cal, args, t):
    n = cal['name'].split('::')[-1]
    if n.startswith('__powi'):
        w = 32 if n[6] == 's' else 64; return fn(f'f.powi:{w}', tuple(args)), st
    w = 64
    if n not in _LIBM and n.endswith('f') and n[:-1] in _LIBM: n = n[:-1]; w = 32
    if n not in _LIBM: raise Unsup('libm ' + n)
    return ops.fop(_LIBM[n], w, *args), st

# ---------------------------------------------------------------- text
def str_items(I_, st, v):
    """items of a &str / String / text-like value"""
    v = I_.force(st, v)
    while isinstance(v, Agg) and len(v.f) == 1: v = v.f[0]
    if isinstance(v, Lib) and v.k == 'string': return list(v.f[0].items)
    if isinstance(v, Ptr):
        if v.meta is None:
            return str_items(I_, st, I_.read(st, v.obj, v.path))
        n = st.ctx.simp(v.meta) if isinstance(v.meta, T) else v.meta
        return I_.units(st, v, n) if n is not ZERO else []
    if isinstance(v, VIte):
        a, b = (items_term(str_items(I_, st.fork(st.ctx.assume(v.c, w), st.path), x)) for x, w in ((v.a, True), (v.b, False)))
        return text_items(ite(v.c, a, b))
    raise Unsup('text of ' + type(v).__name__)
@pat(r'^(core|std)::fmt::rt::Argument::<\'_>::new_(display|debug|lower_hex|upper_hex|binary|octal|lower_exp|upper_exp)::')
def _fa(I_, st, cal, args, t):
    k = re.search(r'new_(\w+)::', cal['name']).group(1)
    return Lib('fmtarg', k, garg(I_, cal), args[0]), st
@pat(r'^(core|std)::fmt::rt::Argument::<\'_>::(from_usize|none|new)')
def _fa2(I_, st, cal, args, t):
    if 'from_usize' in cal['name']: return Lib('fmtarg', 'usize', None, args[0]), st
    raise Unsup('format argument')
@pat(r'^(core|std)::fmt::Arguments::<\'_>::new(::|$)|^(core|std)::fmt::Arguments::<\'.*>::new::')
def _fargs(I_, st, cal, args, t): return Lib('fmtargs', args[0], args[1]), st
@pat(r'^(core|std)::fmt::Arguments::<.*>::(from_str|new_const|from_str_nonconst)')
def _fargs2(I_, st, cal, args, t): return Lib('fmtargs', args[0], None), st
def render(I_, st, fa):
    if not isinstance(fa, Lib) or fa.k != 'fmtargs': raise Unsup('format arguments')
    if fa.f[1] is None: return str_items(I_, st, fa.f[0])
    tp = I_.unwrapp(I_.force(st, fa.f[0])); ap = I_.unwrapp(I_.force(st, fa.f[1]))
    tv = I_.read(st, tp.obj, tp.path)
    by = [x.a for x in tv.f]; av = I_.read(st, ap.obj, ap.path)
    out = []; i = 0; arg = 0
    while i < len(by):
        b = by[i]; i += 1
        if b == 0: break
        if b < 0x80: out += [I(x) for x in by[i:i+b]]; i += b
        elif b == 0x80:
            n = by[i] | by[i+1] << 8; i += 2; out += [I(x) for x in by[i:i+n]]; i += n
        elif b >= 0xC0:
            fl = 0; width = prec = None
            if b & 1: fl = int.from_bytes(bytes(by[i:i+4]), 'little'); i += 4
            if b & 2: width = by[i] | by[i+1] << 8; i += 2
            if b & 4: prec = by[i] | by[i+1] << 8; i += 2
            if b & 8: arg = by[i] | by[i+1] << 8; i += 2
            if b & 0x30: raise Unsup('indirect width or precision')
            out += fmt_arg(I_, st, av.f[arg], fl, width, prec); arg += 1
        else: raise Unsup('format template')
    return out
def fmt_arg(I_, st, a, fl, width, prec):
    if not isinstance(a, Lib) or a.k != 'fmtarg': raise Unsup('format argument')
    kind, ty, p = a.f
    t = I_.p.ty(ty)
    v = deref(I_, st, p) if t['k'] not in ('str', 'slice') else I_.unwrapp(I_.force(st, p))
    while t['k'] == 'ref':
        ty = t['to']; t = I_.p.ty(ty)
        if t['k'] not in ('str', 'slice'): v = deref(I_, st, v)
    zero = bool(fl & (1 << 24)); plus = bool(fl & (1 << 21)); 
    other = fl & ~((1 << 24) | (1 << 21) | (1 << 29) | (1 << 30) | (1 << 31) | 0x1fffff | (3 << 29) | (1 << 27) | (1 << 28))
    if kind == 'display' and t['k'] == 'int':
        if plus: raise Unsup('explicit plus sign')
        if width and zero: return text_items(dec(v, width))
        if width: raise Unsup('padding')
        return text_items(dec(v))
    if t['k'] == 'float' and kind in ('display', 'lower_exp'):
        if width or plus: raise Unsup('float padding')
        k = ('e' if kind == 'lower_exp' else '') + ('' if prec is None else '.%d' % prec)
        return text_items(ffmt(v, k, t['bits']))
    if kind == 'display' and t['k'] == 'char':
        raise Unsup('char display')
    if width or prec is not None: raise Unsup('padding')
    if kind == 'display' and (t['k'] == 'str' or t['s'] in ('std::string::String', 'alloc::string::String')): return str_items(I_, st, v)
    if kind in ('display', 'debug') and isinstance(v, Lib): return lib_text(I_, st, v)
    raise Unsup(f'{kind} of {t["s"][:40]}')
def lib_text(I_, st, v):
    if v.k == 'date': return date_text(v.f[0])
    if v.k == 'time': return time_text(v.f[0], v.f[1])
    if v.k == 'string': return list(v.f[0].items)
    if v.k == 'dfmt': return dfmt_text(*v.f)
    raise Unsup('display of ' + v.k)
def date_text(d):
    y = fn('cal.year', (d,)); 
    if y.lo < 0 or y.hi > 9999: raise Unsup('year beyond four digits')
    return text_items(cat(dec(y, 4), lit(b'-'), dec(fn('cal.month', (d,)), 2), lit(b'-'), dec(fn('cal.day', (d,)), 2)))
def time_text(s, f):
    leap = ge(f, I(10**9))
    sec = add(mod(s, 60), ite(leap, ONE, ZERO)); f = ite(leap, sub(f, I(10**9)), f)
    frac = ite(eq(f, ZERO), EMPTY, ite(eq(mod(f, 10**6), ZERO), cat(lit(b'.'), dec(fdiv(f, 10**6), 3)), ite(eq(mod(f, 1000), ZERO), cat(lit(b'.'), dec(fdiv(f, 1000), 6)), cat(lit(b'.'), dec(f, 9)))))
    r = text_items(cat(dec(fdiv(s, 3600), 2), lit(b':'), dec(mod(fdiv(s, 60), 60), 2), lit(b':'), dec(sec, 2)))
    return r + text_items(frac) if frac is not EMPTY else r
@pat(r'as (std::io|std::fmt|core::fmt)::Write>::write_fmt|io::Write::write_fmt')
def _wfmt(I_, st, cal, args, t):
    items = render(I_, st, args[1])
    return write_to(I_, st, args[0], items, cal, t)
@pat(r"(<(&mut \[u8\]|.*Vec<u8>|.*Cursor<.*>) as std::io::Write>|<impl std::io::Write for .*>)::(write_all|write)$")
def _wall(I_, st, cal, args, t):
    return write_to(I_, st, args[0], str_items(I_, st, args[1]), cal, t)
def vec_extend(I_, st, v, ty, items):
    """a Vec<u8> or String value with the items appended"""
    t = I_.p.ty(ty)
    if isinstance(v, Lib) and v.k == 'string': return Lib('string', Text(list(v.f[0].items) + list(items)))
    fs = [n for n, _ in t['variants'][0]['fields']]
    if 'vec' in fs:
        j = fs.index('vec'); w = vec_extend(I_, st, v.f[j], t['variants'][0]['fields'][j][1], items)
        return Agg([w if q == j else x for q, x in enumerate(v.f)])
    j, k = fs.index('buf'), fs.index('len')
    n = I_.asint(I_.force(st, v.f[k])); buf = v.f[j]
    ry = t['variants'][0]['fields'][j][1]
    rt = I_.p.ty(ry); rf = [n_ for n_, _ in rt['variants'][0]['fields']]
    inner = buf.f[rf.index('inner')]; iy = rt['variants'][0]['fields'][rf.index('inner')][1]
    q = I_.strip(inner.f[[n_ for n_, _ in I_.p.ty(iy)['variants'][0]['fields']].index('ptr')])
    if isinstance(q, Ptr) and q.obj is None:
        inner = rawvec(I_, st, iy); buf = Agg([inner if n_ == 'inner' else x for n_, x in zip(rf, buf.f)])
        q = I_.strip(inner.f[[n_ for n_, _ in I_.p.ty(iy)['variants'][0]['fields']].index('ptr')])
    if not (isinstance(q, Ptr) and q.obj[0] == 'heap'): raise Unsup('vector allocation')
    if items: I_.put(st, Ptr(q.obj, q.path[:-1] + (('i', add(q.path[-1][1], n)),)), items)
    return Agg([buf if z == j else add(n, items_len(items)) if z == k else x for z, x in enumerate(v.f)])
def write_to(I_, st, selfp, items, cal, t):
    """append to a writer: a slice of bytes, a cursor over one, a vector or a string"""
    a = argtys(cal, t); ty = I_.p.ty(a[0]) if a else None
    wt = I_.p.ty(ty['to']) if ty and 'to' in ty else None
    okv = UNIT if 'write_all' in cal['name'] or 'fmt' in cal['name'] else items_len(items)
    if wt and wt['k'] == 'adt' and (wt['s'] in ('std::string::String', 'alloc::string::String') or wt['s'].endswith('Vec<u8>')):
        p = I_.unwrapp(I_.force(st, selfp)); v = I_.force(st, I_.read(st, p.obj, p.path))
        if isinstance(v, VIte): raise Unsup('conditional writer')
        I_.write(st, p.obj, p.path, vec_extend(I_, st, v, ty['to'], items))
        return En(ZERO, {0: (okv,)}), st
    if wt and wt['k'] == 'adt' and wt['name'].endswith('Cursor'):
        fs = [n for n, _ in wt['variants'][0]['fields']]
        p = I_.unwrapp(I_.force(st, selfp)); v = I_.force(st, I_.read(st, p.obj, p.path))
        sl = v.f[fs.index('inner')]; pos = I_.asint(v.f[fs.index('pos')])
        if not isinstance(sl, Ptr) or not isinstance(sl.meta, T): raise Unsup('cursor')
        pos = st.ctx.simp(ite(lt(pos, sl.meta), pos, sl.meta)); n = items_len(items)
        over = st.ctx.simp(gt(add(pos, n), sl.meta))
        if over is not FALSE: raise Unsup('cursor may be full')
        if items: I_.put(st, Ptr(sl.obj, sl.path[:-1] + ((sl.path[-1][0], add(sl.path[-1][1], pos)),)), items)
        I_.write(st, p.obj, p.path + (('f', fs.index('pos')),), add(pos, n))
        return En(ZERO, {0: (okv,)}), st
    return write_slice(I_, st, selfp, items, cal)
def write_slice(I_, st, selfp, items, cal):
    if '<&mut [u8] as' not in cal['name'] and 'for &mut [u8]>' not in cal['name']: raise Unsup('writer ' + cal['name'])
    p = I_.unwrapp(I_.force(st, selfp))
    sl = I_.force(st, I_.read(st, p.obj, p.path))
    if not isinstance(sl, Ptr): raise Unsup('writer target')
    n = st.ctx.simp(items_len(items))
    over = st.ctx.simp(gt(n, sl.meta))
    ctx = st.ctx
    if over is not FALSE:
        # formatting stops with an error when the slice is full
        c_ok = st.ctx.assume(over, False)
        if c_ok.dead: return En(ONE, {1: (Lib('ioerror'),)}), st
        ok = st.fork(c_ok, st.path); I_.put(ok, sl, items)
        bad = dict(st.mem)
        bad[sl.obj] = Undef
        m2 = {}
        for k in ok.mem: m2[k] = ok.mem[k]
        st.mem = m2
    else: I_.put(st, sl, items)
    I_.write(st, p.obj, p.path, Ptr(sl.obj, sl.path[:-1] + ((sl.path[-1][0], add(sl.path[-1][1], n)),), sub(sl.meta, n)))
    okv = UNIT if 'write_all' in cal['name'] or 'fmt' in cal['name'] else n
    return En(ite(over, ONE, ZERO), {0: (okv,), 1: (Lib('ioerror'),)}), st
@pat(r'as std::string::ToString>::to_string$|as std::string::SpecToString>::spec_to_string$')
def _tos(I_, st, cal, args, t):
    v = I_.unwrapp(I_.force(st, args[0]))
    ty = garg(I_, cal); 
    if ty is None: raise Unsup('to_string')
    return Lib('string', Text(fmt_arg(I_, st, Lib('fmtarg', 'display', ty, v), 0, None, None))), st
@pat(r'^(std|alloc)::fmt::format$')
def _format(I_, st, cal, args, t): return Lib('string', Text(render(I_, st, args[0]))), st
def string_slice(I_, st, v):
    s = deref(I_, st, v)
    if not isinstance(s, Lib) or s.k != 'string': raise Unsup('string')
    I_.fresh += 1; obj = ('str', I_.fresh); st.mem[obj] = s.f[0]
    return Ptr(obj, (('i', ZERO),), items_len(s.f[0].items))
# ---- allocations of vectors: the element array grows with what is written; its capacity is never the reason to fail
BIG = 1 << 40
def rawvec(I_, st, ty, old=None):
    I_.fresh += 1; obj = ('heap', I_.fresh)
    st.mem[obj] = Heap(old or ())
    t = I_.p.ty(ty)
    f = []
    for n, ft in t['variants'][0]['fields']:
        f.append(I_.wrapto(Ptr(obj, (('i', ZERO),)), ft) if n == 'ptr' else I_.wrapto(I(BIG), ft) if n == 'cap' else I_.zst(ft))
    return Agg(f)
@pat(r'raw_vec::RawVecInner(::<.*>)?::(with_capacity_in|with_capacity_zeroed_in)$')
def _rvnew(I_, st, cal, args, t):
    if 'zeroed' in cal['name']: raise Unsup('zeroed allocation')
    return rawvec(I_, st, t['dty']), st
@pat(r'raw_vec::RawVecInner(::<.*>)?::(try_allocate_in)$')
def _rvtry(I_, st, cal, args, t):
    ty = I_.p.ty(t['dty'])['variants'][0]['fields'][0][1]
    if isinstance(args[1], En) and I_.force(st, args[1]).d is not ZERO: raise Unsup('zeroed allocation')
    return En(ZERO, {0: (rawvec(I_, st, ty),)}), st
@pat(r'raw_vec::RawVecInner(::<.*>)?::(grow_one|reserve|reserve_exact|grow_amortized|try_reserve)(::do_reserve_and_handle)?(::<.*>)?$|raw_vec::RawVec::<.*>::(grow_one|reserve|reserve_exact|try_reserve)$')
def _rvgrow(I_, st, cal, args, t):
    p = I_.unwrapp(I_.force(st, args[0])); v = I_.force(st, I_.read(st, p.obj, p.path))
    inner = argtys(cal, t)[0]; ty = I_.p.ty(I_.p.ty(inner)['to'])
    def go(v, ty):
        if ty['name'].endswith('RawVecInner'):
            fs = [n for n, _ in ty['variants'][0]['fields']]; q = I_.strip(v.f[fs.index('ptr')])
            if not isinstance(q, Ptr): raise Unsup('allocation')
            if q.obj is not None and q.obj[0] == 'heap': return v
            if q.obj is not None: raise Unsup('growing an allocation of a box')
            return rawvec(I_, st, I_.p.types.index(ty))
        fs = ty['variants'][0]['fields']
        return Agg([go(x, I_.p.ty(ft)) if n == 'inner' else x for x, (n, ft) in zip(v.f, fs)])
    nv = go(v, ty)
    if nv is not v: I_.write(st, p.obj, p.path, nv)
    rt = I_.p.ty(t['dty'])
    return (UNIT if rt['k'] == 'tuple' else En(ZERO, {0: (UNIT,)})), st
@pat(r'raw_vec::RawVecInner(::<.*>)?::(shrink_to_fit|shrink|shrink_unchecked)$|raw_vec::RawVec::<.*>::(shrink_to_fit)$')
def _rvshr(I_, st, cal, args, t): return UNIT, st
@pat(r'std::alloc::Layout::(for_value|array|new)|std::alloc::Layout::is_size_align_valid')
def _lay(I_, st, cal, args, t): return NotImplemented
def libstr(I_, st, v):
    v = I_.force(st, v)
    while isinstance(v, Ptr):
        v = I_.force(st, I_.read(st, v.obj, v.path)) if v.obj is not None else None
    return v if isinstance(v, Lib) and v.k == 'string' else None
@pat(r'std::string::String::(as_str|as_bytes|as_mut_str|as_ptr|as_mut_ptr)$|<std::string::String as std::ops::Deref>::deref$|<std::string::String as std::convert::AsRef<.*>>::as_ref$')
def _sas(I_, st, cal, args, t):
    if libstr(I_, st, args[0]) is None: return NotImplemented
    r = string_slice(I_, st, args[0])
    return (Ptr(r.obj, r.path) if '_ptr' in cal['name'] else r), st
@pat(r'std::string::String::(len|is_empty)$')
def _slen(I_, st, cal, args, t):
    s = libstr(I_, st, args[0])
    if s is None: return NotImplemented
    n = items_len(s.f[0].items)
    return (n if cal['name'].endswith('len') else eq(n, ZERO)), st
@pat(r'std::string::String::(push|push_str)$|<std::string::String as std::ops::AddAssign<&str>>::add_assign$|<std::string::String as std::ops::Add<&str>>::add$')
def _spush(I_, st, cal, args, t):
    s = libstr(I_, st, args[0])
    if s is None: return NotImplemented
    if cal['name'].endswith('::push'):
        c = st.ctx.simp(args[1])
        if st.ctx.interval(c)[1] > 127: raise Unsup('push of a character of unknown width')
        more = [c]
    else: more = str_items(I_, st, args[1])
    n = Lib('string', Text(list(s.f[0].items) + list(more)))
    if cal['name'].endswith('::add'): return n, st
    p = I_.unwrapp(I_.force(st, args[0])); I_.write(st, p.obj, p.path, n)
    return UNIT, st
@pat(r'<std::string::String as (std|core)::clone::Clone>::clone$')
def _scl(I_, st, cal, args, t):
    s = libstr(I_, st, args[0])
    return (NotImplemented if s is None else (s, st))
@pat(r'^(std|core)::str::from_utf8$|^(std|core)::str::converts::from_utf8$')
def _fu8(I_, st, cal, args, t):
    v = I_.unwrapp(I_.force(st, args[0]))
    if isinstance(v, VIte): raise Unsup('from_utf8 of conditional slice')
    n = st.ctx.simp(v.meta)
    if n.op != 'c': 
        c = I_.objval(st, v.obj)
        raise Cases(n, 'from_utf8 of unknown length')
    us = [st.ctx.simp(x) for x in I_.units(st, v, n)] if n is not ZERO else []
    ok = utf8_valid(st, us)
    return res(ok, Ptr(v.obj, v.path, v.meta), Lib('utf8error')), st
@pat(r'^(std|alloc)::string::String::from_utf8_lossy$')
def _fu8l(I_, st, cal, args, t):
    v = I_.unwrapp(I_.force(st, args[0]))
    if isinstance(v, VIte): raise Unsup('from_utf8_lossy of conditional slice')
    n = st.ctx.simp(v.meta)
    if n.op != 'c': raise Cases(n, 'from_utf8_lossy of unknown length')
    us = [st.ctx.simp(x) for x in I_.units(st, v, n)] if n is not ZERO else []
    if utf8_valid(st, us) is not TRUE: raise Unsup('from_utf8_lossy of bytes that need not be UTF-8')
    return En(ZERO, {0: (Ptr(v.obj, v.path, v.meta),)}), st
def utf8_valid(st, us, j=0):
    """condition under which the units are well-formed UTF-8"""
    L = lambda x: st.ctx.interval(x)
    while j < len(us) and st.ctx.simp(le(us[j], I(0x7F))) is TRUE: j += 1
    us = us[j:]
    if not us: return TRUE
    u = us[0]
    def cont(k, lo=0x80, hi=0xBF):
        if len(us) <= k: return FALSE
        return st.ctx.simp(and_(ge(us[k], I(lo)), le(us[k], I(hi))))
    r = FALSE
    # one-byte
    c1 = st.ctx.simp(le(u, I(0x7F)))
    def guard(c, f):
        c = st.ctx.simp(c)
        if c is FALSE: return FALSE
        return and_(c, f())
    def sub_(k): return utf8_valid(st, us, k)
    r = guard(c1, lambda: sub_(1))
    r = or_(r, guard(and_(ge(u, I(0xC2)), le(u, I(0xDF)), cont(1)), lambda: sub_(2)))
    if len(us) >= 3:
        # decode and test the scalar, which also covers the restricted second bytes
        v = add(add(mulc(sub(u, I(0xE0)), 4096), sub(us[1], I(0x80)), 64), sub(us[2], I(0x80)))
        r = or_(r, guard(and_(ge(u, I(0xE0)), le(u, I(0xEF)), cont(1), cont(2), ge(v, I(0x800)), or_(le(v, I(0xD7FF)), ge(v, I(0xE000)))), lambda: sub_(3)))
    if len(us) >= 4:
        v = add(add(add(mulc(sub(u, I(0xF0)), 262144), sub(us[1], I(0x80)), 4096), sub(us[2], I(0x80)), 64), sub(us[3], I(0x80)))
        r = or_(r, guard(and_(ge(u, I(0xF0)), le(u, I(0xF4)), cont(1), cont(2), cont(3), ge(v, I(0x10000)), le(v, I(0x10FFFF))), lambda: sub_(4)))
    return st.ctx.simp(r)
def text_fn(name):
    def f(I_, st, cal, args, t):
        v = I_.unwrapp(I_.force(st, args[0]))
        tx = items_term(str_items(I_, st, v))
        r = fn(name, (tx,), 't') if tx is not EMPTY else EMPTY
        obj = ('text', name, tx.id if hasattr(tx, 'id') else id(tx))
        st.mem[obj] = Text(text_items(r))
        return Ptr(obj, (('i', ZERO),), items_len(text_items(r))), st
    return f
for _k, _n in (('trim', 'both'), ('trim_start', 'start'), ('trim_end', 'end')):
    pat(r'^core::str::<impl str>::' + _k + '$')(text_fn('text.trim:' + _n))
@pat(r'^core::str::count::(char_count_general_case|do_count_chars|count_chars)$')
def _cc(I_, st, cal, args, t):
    v = I_.unwrapp(I_.force(st, args[0])); n = st.ctx.simp(v.meta)
    if n.op != 'c': raise Cases(n, 'character count of unknown length')
    r = ZERO
    for u in (I_.units(st, v, n) if n is not ZERO else []):
        r = add(r, ite(st.ctx.simp(and_(ge(u, I(0x80)), le(u, I(0xBF)))), ZERO, ONE))
    return r, st
@pat(r'num::<impl [iu]\d+>::from_str_radix$|num::<impl [iu]size>::from_str_radix$|<[iu](8|16|32|64|128|size) as .*(FromStr|Num)>::(from_str|from_str_radix)$|^core::num::imp::.*from_ascii_radix|num::<impl \w+>::from_ascii_radix$')
def _fsr(I_, st, cal, args, t):
    ty = I_.p.ty(t['dty'])
    # Result<int, ParseIntError>
    it = I_.p.ty(ty['variants'][0]['fields'][0][1])
    return parse_int(I_, st, args[0], args[1] if len(args) > 1 else I(10), it['bits'], it['signed'])
def parse_int(I_, st, s, radix, bits, sg):
    radix = st.ctx.simp(radix)
    if radix.op != 'c': raise Cases(radix, 'unknown radix')
    if not 2 <= radix.a <= 36: I_.panic(st, 'panic', I_.cursp); return None
    s = I_.unwrapp(I_.force(st, s))
    if isinstance(s, VIte):
        a = parse_int(I_, st, s.a, radix, bits, sg); b = parse_int(I_, st, s.b, radix, bits, sg)
        return vite(s.c, a[0], b[0]), st
    if isinstance(s, Ptr) and isinstance(s.meta, T) and not isinstance(st.mem.get(s.obj), Text):
        n = st.ctx.simp(s.meta)
        if n.op != 'c': raise Cases(n, 'number text of unknown length')
    tx = items_term(str_items(I_, st, s))
    nm = f':{bits}:{int(sg)}:{radix.a}'
    ok = fn('parse.int.ok' + nm, (tx,), 'b')
    return res(ok, fn('parse.int' + nm, (tx,)), Lib('parseerror')), st
@pat(r'<f(32|64) as (std|core)::str::FromStr>::from_str$|dec2flt|^core::num::float_parse|<f(32|64) as core::num::.*::from_str')
def _ffs(I_, st, cal, args, t):
    ty = I_.p.ty(t['dty'])
    w = I_.p.ty(ty['variants'][0]['fields'][0][1])['bits']
    s = I_.unwrapp(I_.force(st, args[0]))
    if isinstance(s, Ptr) and isinstance(s.meta, T) and not isinstance(st.mem.get(s.obj), Text):
        n = st.ctx.simp(s.meta)
        if n.op != 'c': raise Cases(n, 'number text of unknown length')
    tx = items_term(str_items(I_, st, s))
    return res(fn(f'parse.float.ok:{w}', (tx,), 'b'), fn(f'parse.float:{w}', (tx,)), Lib('parseerror')), st

# ---------------------------------------------------------------- time
def todur(v):
    if isinstance(v, Lib) and v.k == 'dur': return v.f[0]
    raise Unsup('duration')
DMAX = (1 << 64)*10**9 - 1
def dur(n): return Lib('dur', n)
@m('std::time::Duration::from_nanos', 'core::time::Duration::from_nanos')
def _dfn(I_, st, cal, args, t): return dur(args[0]), st
@m('std::time::Duration::from_micros')
def _dfu(I_, st, cal, args, t): return dur(mulc(args[0], 1000)), st
@m('std::time::Duration::from_millis')
def _dfm(I_, st, cal, args, t): return dur(mulc(args[0], 10**6)), st
@m('std::time::Duration::from_secs')
def _dfs(I_, st, cal, args, t): return dur(mulc(args[0], 10**9)), st
@m('std::time::Duration::new')
def _dnew(I_, st, cal, args, t): return dur(add(mulc(args[0], 10**9), args[1])), st
def _D(I_, st, v): return todur(deref(I_, st, v))
@m('std::time::Duration::as_nanos')
def _dan(I_, st, cal, args, t): return _D(I_, st, args[0]), st
@m('std::time::Duration::as_micros')
def _dau(I_, st, cal, args, t): return fdiv(_D(I_, st, args[0]), 1000), st
@m('std::time::Duration::as_millis')
def _dam(I_, st, cal, args, t): return fdiv(_D(I_, st, args[0]), 10**6), st
@m('std::time::Duration::as_secs')
def _das(I_, st, cal, args, t): return fdiv(_D(I_, st, args[0]), 10**9), st
@m('std::time::Duration::subsec_nanos')
def _dsn(I_, st, cal, args, t): return mod(_D(I_, st, args[0]), 10**9), st
@m('std::time::Duration::subsec_micros')
def _dsu(I_, st, cal, args, t): return fdiv(mod(_D(I_, st, args[0]), 10**9), 1000), st
@m('std::time::Duration::subsec_millis')
def _dsm(I_, st, cal, args, t): return fdiv(mod(_D(I_, st, args[0]), 10**9), 10**6), st
@m('std::time::Duration::is_zero')
def _dz(I_, st, cal, args, t): return eq(_D(I_, st, args[0]), ZERO), st
@pat(r'std::time::Duration::(mul|div)_f(32|64)$')
def _dmf(I_, st, cal, args, t):
    op, w = re.search(r'(mul|div)_f(\d+)$', cal['name']).groups()
    d = todur(args[0]); x = args[1]
    nm = f'dur.{op}{w}'
    ok = st.ctx.simp(fn(nm + '.ok', (d, x), 'b'))
    # a negative scale is rejected by construction of the result
    if not ensure(I_, st, ok, 'panic'): return None
    return dur(fn(nm, (d, x))), st
def ensure(I_, st, ok, kind):
    ok = st.ctx.simp(ok)
    if ok is TRUE: return True
    c3 = st.ctx.assume(ok, False)
    if not c3.dead: I_.panic(St(st.mem, st.ctx, and_(st.path, not_(ok))), kind, I_.cursp)
    if ok is FALSE: return False
    st.ctx = st.ctx.assume(ok, True); st.path = and_(st.path, ok)
    return not st.ctx.dead
@pat(r'<std::time::(Duration|Instant) as (std|core)::cmp::(PartialOrd|PartialEq|Ord)>::(lt|le|gt|ge|eq|ne|cmp|partial_cmp|max|min)$|<std::time::(Duration|Instant) as (std|core)::cmp::(PartialOrd|PartialEq|Ord)(<.*>)?>::(lt|le|gt|ge|eq|ne|cmp|partial_cmp|max|min)$')
def _dcmp(I_, st, cal, args, t):
    op = cal['name'].split('::')[-1]
    a = deref(I_, st, args[0]); b = deref(I_, st, args[1])
    x, y = a.f[0], b.f[0]
    if op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'): return {'lt': lt, 'le': le, 'gt': gt, 'ge': ge, 'eq': eq, 'ne': ne}[op](x, y), st
    if op == 'max': return Lib(a.k, ite(lt(y, x), x, y)), st
    if op == 'min': return Lib(a.k, ite(lt(y, x), y, x)), st
    o = I_.ordering(ite(lt(x, y), I(-1), ite(eq(x, y), ZERO, ONE)))
    return (o if op == 'cmp' else some(o)), st
@pat(r'std::time::Duration::(checked|saturating)_(add|sub)$|<std::time::Duration as (std|core)::ops::(Add|Sub)>::(add|sub)$|std::time::Duration::abs_diff$')
def _dar(I_, st, cal, args, t):
    n = cal['name'].split('::')[-1]; a, b = todur(args[0]), todur(args[1])
    if n == 'abs_diff': return dur(ite(le(b, a), sub(a, b), sub(b, a))), st
    op = n[-3:]; r = add(a, b) if op == 'add' else sub(a, b)
    ok = and_(ge(r, ZERO), le(r, I(DMAX)))
    if n.startswith('checked'): return opt(ok, dur(r)), st
    if n.startswith('saturating'): return dur(ite(ok, r, I(DMAX) if op == 'add' else ZERO)), st
    if not ensure(I_, st, ok, 'panic'): return None
    return dur(r), st
@pat(r'std::time::Duration::checked_(mul|div)$|<std::time::Duration as (std|core)::ops::(Mul|Div)<u32>>::(mul|div)$|std::time::Duration::saturating_mul$')
def _dmi(I_, st, cal, args, t):
    n = cal['name'].split('::')[-1]; a = todur(args[0]); b = args[1]
    if n.endswith('mul'): r = mul(a, b); ok = le(r, I(DMAX))
    else: r = tdiv(a, b) if b.op == 'c' and b.a else fn('tdiv', (a, b)); ok = ne(b, ZERO)
    if n.startswith('checked'): return opt(ok, dur(r)), st
    if n.startswith('sat'): return dur(ite(ok, r, I(DMAX))), st
    if not ensure(I_, st, ok, 'panic'): return None
    return dur(r), st
CLK = ('clk',)
def NOW(I_, st=None):
    """a reading of the monotonic clock. Where the memory counts readings (CLK), the one numbered clk_main is `now` and every other
    one of the same call is a later (earlier) instant of its own; elsewhere all readings of a call coincide"""
    ep = getattr(I_, 'epoch', ''); base = var('now' + ep, 0, (1 << 63) - 1)
    if st is None or CLK not in st.mem: return base
    n = st.ctx.simp(st.mem[CLK]); st.mem[CLK] = add(n, ONE); main = getattr(I_, 'clk_main', 0)
    def nth(k):
        if k == main: return base
        x = var(f'now{ep}.{k}', 0, (1 << 63) - 1); f = le(base, x) if k > main else le(x, base)
        facts = [f] + ([le(var(f'now{ep}.{k-1}', 0, (1 << 63) - 1), x)] if k - 1 > main or 0 < k < main else [])
        for f in facts:
            if f not in I_.clkfacts: I_.clkfacts.append(f)
            st.ctx = st.ctx.assume(f)
        return x
    if n.op == 'c': return nth(n.a)
    r = nth(3)
    for k in (2, 1, 0): r = ite(eq(n, I(k)), nth(k), r)
    return r
@m('std::time::Instant::now')
def _inow(I_, st, cal, args, t):
    I_.clock.append('Instant'); return Lib('inst', NOW(I_, st)), st
def _since(a, b): return ite(le(b, a), sub(a, b), ZERO)
@m('std::time::Instant::elapsed')
def _iel(I_, st, cal, args, t):
    I_.clock.append('Instant'); s = deref(I_, st, args[0]); now = NOW(I_, st); return dur(st.ctx.simp(_since(now, s.f[0]))), st
@m('std::time::Instant::duration_since', 'std::time::Instant::saturating_duration_since')
def _ids(I_, st, cal, args, t):
    a = deref(I_, st, args[0]); b = args[1]; return dur(st.ctx.simp(_since(a.f[0], b.f[0]))), st
@m('std::time::Instant::checked_duration_since')
def _icds(I_, st, cal, args, t):
    a = deref(I_, st, args[0]).f[0]; b = args[1].f[0]; return opt(le(b, a), dur(_since(a, b))), st
@pat(r'<std::time::Instant as (std|core)::ops::Sub(<std::time::Instant>)?>::sub$')
def _isub(I_, st, cal, args, t): return dur(_since(args[0].f[0], args[1].f[0])), st
@pat(r'<std::time::Instant as (std|core)::ops::(Add|Sub)<std::time::Duration>>::(add|sub)$|std::time::Instant::checked_(add|sub)$')
def _iadd(I_, st, cal, args, t):
    a = args[0]; a = deref(I_, st, a); d = todur(args[1]); n = cal['name'].split('::')[-1]
    r = add(a.f[0], d) if n.endswith('add') else sub(a.f[0], d)
    if n.startswith('checked'): return some(Lib('inst', r)), st
    return Lib('inst', r), st
@pat(r'<std::time::(Instant|Duration) as (std|core)::clone::Clone>::clone$|<chrono::\w+(<.*>)? as (std|core)::clone::Clone>::clone$')
def _clone(I_, st, cal, args, t): return deref(I_, st, args[0]), st
@pat(r'<std::time::Duration as (std|core)::default::Default>::default$')
def _ddef(I_, st, cal, args, t): return dur(ZERO), st

# chrono
DAY = 86400*10**9
@pat(r'chrono::Local::now$')
def _lnow(I_, st, cal, args, t):
    k = sum(1 for x in I_.clock if x.startswith('Local')); I_.clock.append('Local')
    s = '' if k == 0 else str(k)
    return Lib('ldt', var('now.secs' + s, 0, 86399), var('now.frac' + s, 0, 1999999999)), st
@pat(r'chrono::Utc::now$')
def _unow(I_, st, cal, args, t):
    I_.clock.append('Utc'); return Lib('dt', var('utcnow', -(1 << 63), (1 << 63)-1)), st
LOCAL = r'chrono::(offset::)?(local::)?Local\b'
def local_dt(I_, n, wall=False):
    """an instant seen in the local time zone, whose offset from UTC is unknown and may differ between instants"""
    k = sum(1 for x in I_.clock if x == 'Offset'); I_.clock.append('Offset')
    off = mulc(var('local.off' + (str(k) if k else ''), -86399, 86399), 10**9)
    return Lib('dtz', sub(n, off) if wall else n, off)
@pat(r'<' + LOCAL + r' as chrono::TimeZone>::\w+$|^chrono::(DateTime|NaiveDateTime)(::)?<.*>::(with_timezone|and_local_timezone|to_utc|naive_utc|naive_local)(::<.*>)?$|^chrono::NaiveDateTime::and_local_timezone(::<.*>)?$')
def _local(I_, st, cal, args, t):
    n = last(cal['name'])
    if cal['name'].startswith('<'):
        fake = '<chrono::Utc as chrono::TimeZone>::' + n; fake = dict(cal, name=fake, idef=fake)
        f = Models().find(fake)
        if f is None: raise Unsup('chrono local ' + n)
        r = f(I_, st, fake, args, t)
        if r is None: return None
        v, st = r; wall = n in ('with_ymd_and_hms', 'from_local_datetime', 'from_local_date')
        if isinstance(v, Lib): return local_dt(I_, nanos(I_, v), wall), st
        if isinstance(v, En) and not wall: x = local_dt(I_, nanos(I_, v.v[0][0])); return En(v.d, {0: (x,), 1: (x, x), 2: ()}), st
        raise Unsup('chrono local ' + n)
    v = chron(I_, st, args[0])
    if n == 'naive_utc' or n == 'to_utc': return (Lib('dt', nanos(I_, v)) if v.k != 'ldt' else v), st
    if n == 'naive_local':
        d, s, f = dt_parts(v); return Lib('ndt', need(d), s, f), st
    out = I_.p.ty(t['dty'])['s'] if t and t.get('dty') is not None else ''
    if n == 'with_timezone' and 'Local' in out: return local_dt(I_, nanos(I_, v)), st
    if n == 'with_timezone' and 'Utc' in out: return Lib('dt', nanos(I_, v)), st
    if n == 'and_local_timezone' and 'Utc' in out: return single(TRUE, v), st
    raise Unsup('chrono ' + n + ' ' + out)
@pat(r'chrono::TimeZone>::timestamp_nanos$|chrono::DateTime::<chrono::Utc>::from_timestamp_nanos$|chrono::DateTime::from_timestamp_nanos$')
def _tsn(I_, st, cal, args, t): return Lib('dt', args[-1]), st
def dt_parts(v):
    """(days, second of day, nanosecond) of a date-time-like value"""
    if v.k == 'dt':
        n = v.f[0]; return fdiv(n, DAY), sub(fdiv(n, 10**9), mulc(fdiv(n, DAY), 86400)), mod(n, 10**9)
    if v.k == 'dtz':
        n = add(*v.f); return fdiv(n, DAY), sub(fdiv(n, 10**9), mulc(fdiv(n, DAY), 86400)), mod(n, 10**9)
    if v.k == 'ndt': return v.f
    if v.k == 'date': return v.f[0], None, None
    if v.k == 'time': return None, v.f[0], v.f[1]
    if v.k == 'ldt': return None, v.f[0], v.f[1]
    raise Unsup('date of ' + v.k)
@pat(r'chrono::(Datelike|Timelike)>::\w+$')
def _dl(I_, st, cal, args, t):
    v = chron(I_, st, args[0]); d, s, f = dt_parts(v); n = cal['name'].split('::')[-1]
    if n == 'num_days_from_ce': return add(need(d), I(719163)), st
    if n in ('year', 'month', 'day'): return fn('cal.' + n, (need(d),)), st
    if n == 'month0': return sub(fn('cal.month', (need(d),)), ONE), st
    if n == 'day0': return sub(fn('cal.day', (need(d),)), ONE), st
    if n == 'weekday': return En(mod(add(need(d), I(3)), 7), {k: () for k in range(7)}), st
    if n == 'hour': return fdiv(need(s), 3600), st
    if n == 'minute': return mod(fdiv(need(s), 60), 60), st
    if n == 'second': return mod(need(s), 60), st
    if n == 'nanosecond': return need(f), st
    if n == 'num_seconds_from_midnight': return need(s), st
    raise Unsup('chrono ' + n)
def need(x):
    if x is None: raise Unsup('component of a partial date')
    return x
@pat(r'chrono::Weekday::\w+$')
def _wd(I_, st, cal, args, t):
    v = deref(I_, st, args[0]); n = cal['name'].split('::')[-1]; d = v.d
    if n == 'num_days_from_monday': return d, st
    if n == 'number_from_monday': return add(d, ONE), st
    x = ite(eq(d, I(6)), ZERO, add(d, ONE))
    y = mod(add(d, ONE), 7)
    if n == 'num_days_from_sunday': return y, st
    if n == 'number_from_sunday': return add(y, ONE), st
    raise Unsup('chrono ' + n)
def civil(y, m, d):
    """days since 1970-01-01 of a proleptic Gregorian date"""
    y -= m <= 2
    era, yoe = divmod(y, 400)
    doy = (153*(m + (-3 if m > 2 else 9)) + 2)//5 + d - 1
    return era*146097 + yoe*365 + yoe//4 - yoe//100 + doy - 719468
def flatc(v):
    if isinstance(v, Agg): return [x for w in v.f for x in flatc(w)]
    if isinstance(v, En): return [v]
    return [v]
def chron(I_, st, v):
    """a chrono value; constants come as the library's own representation"""
    v = deref0(I_, st, v)
    if isinstance(v, Lib): return v
    xs = [x for x in flatc(v) if isinstance(x, T)]
    def date(x):
        x = st.ctx.simp(x)
        if x.op != 'c': raise Unsup('packed date')
        return I(civil(x.a >> 13, 1, 1) + ((x.a >> 4) & 0x1ff) - 1)
    if len(xs) == 1: return Lib('date', date(xs[0]))
    if len(xs) == 2: return Lib('time', *xs)
    if len(xs) == 3: return Lib('ndt', date(xs[0]), xs[1], xs[2])
    raise Unsup('chrono constant')
def deref0(I_, st, v):
    v = I_.force(st, v)
    while isinstance(v, Ptr): v = I_.force(st, I_.read(st, v.obj, v.path))
    if isinstance(v, Agg) and len(v.f):
        w = I_.force(st, v.f[0])
        if isinstance(w, (Ptr, Lib)): return deref0(I_, st, w)
    return v
def nanos(I_, v):
    """nanoseconds since the epoch (of an instant), since midnight (of a time)"""
    if v.k in ('dt', 'td', 'dtz'): return v.f[0]
    if v.k == 'ndt': return add(mulc(v.f[0], DAY), add(mulc(v.f[1], 10**9), v.f[2]))
    if v.k == 'date': return mulc(v.f[0], DAY)
    if v.k == 'time':
        if v.f[1].hi >= 10**9: raise Unsup('leap second')
        return add(mulc(v.f[0], 10**9), v.f[1])
    raise Unsup('instant of ' + v.k)
DLO, DHI = civil(-262143, 1, 1), civil(262142, 12, 31)
def in_dates(d): return and_(ge(d, I(DLO)), le(d, I(DHI)))
def single(c, x): return En(ite(c, ZERO, I(2)), {0: (x,), 1: (x, x), 2: ()})      # MappedLocalTime
@pat(r'^chrono::(offset::)?(LocalResult|MappedLocalTime)::<.*>::(single|earliest|latest|unwrap|expect)$')
def _lres(I_, st, cal, args, t):
    n = last(cal['name']); e = I_.force(st, args[0])
    if not isinstance(e, En): raise Unsup('chrono ' + n)
    d = st.ctx.simp(e.d); x = e.v[0][0]      # the calls modelled here never answer Ambiguous
    if not st.ctx.assume(eq(d, ONE)).dead: raise Unsup('ambiguous local time')
    if n in ('unwrap', 'expect'):
        if not ensure(I_, st, eq(d, ZERO), 'panic'): return None
        return x, st
    return opt(eq(d, ZERO), x), st
def td_shift(I_, st, v, td):
    """(condition, instant) of v + td nanoseconds"""
    td = st.ctx.simp(td)
    if v.k == 'date': r = add(v.f[0], tdiv(td, I(DAY))); return in_dates(r), Lib('date', r)
    if v.k == 'time': r = mod(add(nanos(I_, v), td), DAY); return TRUE, Lib('time', fdiv(r, 10**9), mod(r, 10**9))
    r = add(nanos(I_, v), td)
    return in_dates(fdiv(r, DAY)), Lib('dt', r)
@pat(r'^chrono::(DateTime|NaiveDateTime|NaiveDate|NaiveTime)(::<.*>)?::(checked_add_signed|checked_sub_signed|overflowing_add_signed|overflowing_sub_signed)$|^<chrono::(DateTime<.*>|NaiveDateTime|NaiveDate|NaiveTime) as (std|core)::ops::(Add|Sub)(<.*>)?>::(add|sub)$|^chrono::(DateTime|NaiveDateTime|NaiveDate|NaiveTime)(::<.*>)?::signed_duration_since')
def _dshift(I_, st, cal, args, t):
    n = last(cal['name']); v = chron(I_, st, args[0]); o = deref(I_, st, args[1])
    o = chron(I_, st, args[1]) if not isinstance(o, Lib) else o
    if o.k == 'td':
        td = o.f[0] if 'add' in n else sub(ZERO, o.f[0])
        ok, r = td_shift(I_, st, v, td)
        if n.startswith('overflowing'): raise Unsup('chrono ' + n)
        if n.startswith('checked'): return opt(ok, r), st
        if not ensure(I_, st, ok, 'panic'): return None
        return r, st
    if n in ('sub', 'signed_duration_since') and {v.k, o.k} <= {'dt', 'ndt'} or v.k == o.k:
        return Lib('td', sub(nanos(I_, v), nanos(I_, o))), st
    raise Unsup('chrono ' + n)
@pat(r'^chrono::DateTime::(<.*>::)?(from_timestamp|from_timestamp_secs|from_timestamp_millis|from_timestamp_micros)$|^chrono::NaiveDateTime::(from_timestamp_opt|from_timestamp_millis|from_timestamp_micros|from_timestamp_nanos)$|chrono::TimeZone>?::(timestamp_opt|timestamp_millis_opt|timestamp_micros)$')
def _fts(I_, st, cal, args, t):
    n = last(cal['name']); a = [st.ctx.simp(I_.asint(x)) for x in (args[1:] if 'TimeZone' in cal['name'] else args)]
    if 'millis' in n or 'micros' in n:
        k = 1000 if 'millis' in n else 10**6
        x = a[0]; secs = fdiv(x, k); f = mulc(mod(x, k), 10**9//k)
    elif 'nanos' in n: secs = fdiv(a[0], 10**9); f = mod(a[0], 10**9)
    else: secs, f = a[0], a[1] if len(a) > 1 else ZERO
    d = fdiv(secs, 86400); s_ = mod(secs, 86400)
    ok = and_(in_dates(d), lt(f, I(2*10**9)), or_(lt(f, I(10**9)), eq(mod(s_, 60), I(59))))
    x = Lib('ndt', d, s_, f)
    if 'TimeZone' in cal['name']: return single(ok, x), st
    return opt(ok, x), st
@pat(r'chrono::TimeZone>?::with_ymd_and_hms$')
def _wymd(I_, st, cal, args, t):
    a = [st.ctx.simp(I_.asint(x)) for x in args[1:]]
    ok, s_, f = hms(I_, st, a[3], a[4], a[5], ZERO)
    return single(and_(fn('cal.ok', a[:3], 'b'), ok), Lib('ndt', fn('cal.days', a[:3]), s_, f)), st
@pat(r'chrono::TimeZone>?::from_utc_datetime$|^chrono::DateTime::<chrono::Utc>::(from_utc|from_naive_utc_and_offset)$|^chrono::NaiveDateTime::(and_utc|and_local_timezone)')
def _futc(I_, st, cal, args, t):
    v = chron(I_, st, args[1] if 'TimeZone' in cal['name'] else args[0])
    return (single(TRUE, v) if last(cal['name']) == 'and_local_timezone' else v), st
@pat(r'^<chrono::(NaiveTime|NaiveDate|NaiveDateTime|TimeDelta|DateTime<chrono::Utc>) as (std|core)::default::Default>::default$')
def _cdef(I_, st, cal, args, t):
    return {'NaiveTime': Lib('time', ZERO, ZERO), 'NaiveDate': Lib('date', ZERO), 'TimeDelta': Lib('td', ZERO)}.get(re.search(r'chrono::(\w+)', cal['name']).group(1), Lib('ndt', ZERO, ZERO, ZERO)), st
@pat(r'^chrono::NaiveDate::(from_num_days_from_ce_opt|from_epoch_days|to_epoch_days)$')
def _ced(I_, st, cal, args, t):
    n = last(cal['name'])
    if n == 'to_epoch_days': return chron(I_, st, args[0]).f[0], st
    d = st.ctx.simp(sub(I_.asint(args[0]), I(719163 if 'ce' in n else 0)))
    return opt(in_dates(d), Lib('date', d)), st
@pat(r'^chrono::NaiveTime::from_num_seconds_from_midnight_opt$')
def _nsm(I_, st, cal, args, t):
    a = [st.ctx.simp(I_.asint(x)) for x in args]
    return opt(and_(lt(a[0], I(86400)), lt(a[1], I(2*10**9)), or_(lt(a[1], I(10**9)), eq(mod(a[0], 60), I(59)))), Lib('time', *a)), st
@pat(r'^<chrono::(NaiveTime|NaiveDate|NaiveDateTime|TimeDelta|DateTime<.*>) as (std|core)::cmp::(PartialEq|PartialOrd|Ord)(<.*>)?>::(eq|ne|lt|le|gt|ge|cmp|partial_cmp)$')
def _ccmp(I_, st, cal, args, t):
    n = last(cal['name'])
    x, y = (chron(I_, st, a) for a in args); x, y = nanos(I_, x), nanos(I_, y)
    if n in ('cmp', 'partial_cmp'):
        o = I_.ordering(ite(lt(x, y), I(-1), ite(eq(x, y), ZERO, ONE)))
        return (o if n == 'cmp' else some(o)), st
    return {'eq': eq, 'ne': ne, 'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[n](x, y), st
@pat(r'^<chrono::(DateTime<.*>|NaiveDateTime|NaiveTime) as chrono::Timelike>::with_(hour|minute|second|nanosecond)$')
def _with(I_, st, cal, args, t):
    n = last(cal['name'])[5:]; v = chron(I_, st, args[0]); x = st.ctx.simp(I_.asint(args[1])); d, s_, f = dt_parts(v)
    if n == 'hour': ok, s_ = lt(x, I(24)), add(mod(s_, 3600), x, 3600)
    elif n == 'minute': ok, s_ = lt(x, I(60)), add(add(mulc(fdiv(s_, 3600), 3600), mod(s_, 60)), x, 60)
    elif n == 'second': ok, s_ = lt(x, I(60)), add(mulc(fdiv(s_, 60), 60), x)
    else: ok, f = lt(x, I(2*10**9)), x
    return opt(ok, Lib('time', s_, f) if d is None else Lib('ndt', d, s_, f)), st
@pat(r'^chrono::(DateTime|NaiveDateTime|NaiveDate|NaiveTime)(::<.*>)?::format$')
def _cfmt(I_, st, cal, args, t):
    v = chron(I_, st, args[0])
    items = str_items(I_, st, args[1])
    if not all(isinstance(x, T) and x.op == 'c' for x in items): raise Unsup('chrono format string')
    return Lib('dfmt', v, ''.join(chr(x.a) for x in items)), st
def dfmt_text(v, f):
    d, s_, fr = dt_parts(v); r = []; i = 0
    def two(x): return text_items(dec(need(x), 2))
    def year():
        y = fn('cal.year', (need(d),))
        if y.lo < 0 or y.hi > 9999: raise Unsup('year beyond four digits')
        return text_items(dec(y, 4))
    def frac(dot, k): return ([I(ord('.'))] if dot else []) + text_items(dec(fdiv(need(fr), 10**(9-k)), k))
    if fr is not None and fr.hi >= 10**9: raise Unsup('leap second')
    L = lambda c: [I(ord(x)) for x in c]
    one = {'Y': year, 'm': lambda: two(fn('cal.month', (need(d),))), 'd': lambda: two(fn('cal.day', (need(d),))), 'H': lambda: two(fdiv(need(s_), 3600)), 'M': lambda: two(mod(fdiv(need(s_), 60), 60)), 'S': lambda: two(mod(need(s_), 60)),
           'F': lambda: year() + L('-') + one['m']() + L('-') + one['d'](), 'T': lambda: one['H']() + L(':') + one['M']() + L(':') + one['S'](), 'R': lambda: one['H']() + L(':') + one['M'](), 'f': lambda: frac(False, 9), '%': lambda: L('%')}
    while i < len(f):
        if f[i] != '%': r.append(I(ord(f[i]))); i += 1; continue
        m_ = re.match(r'%(\.?)([369]?)f', f[i:])
        if m_ and m_.group(0) != '%f':
            dot, k = m_.group(1), m_.group(2)
            if k: r += frac(dot, int(k))
            else: r += text_items(ite(eq(need(fr), ZERO), EMPTY, cat(lit(b'.'), ite(eq(mod(fr, 10**6), ZERO), dec(fdiv(fr, 10**6), 3), ite(eq(mod(fr, 1000), ZERO), dec(fdiv(fr, 1000), 6), dec(fr, 9))))))
            i += len(m_.group(0)); continue
        if f[i+1] not in one: raise Unsup('chrono format %' + f[i+1])
        r += one[f[i+1]](); i += 2
    return r
@pat(r'^chrono::DateTime::(<.*>::)?\w+|^chrono::NaiveDateTime::\w+')
def _dtm(I_, st, cal, args, t):
    n = last(cal['name'])
    if n == 'new': return Lib('ndt', chron(I_, st, args[0]).f[0], *chron(I_, st, args[1]).f), st
    v = chron(I_, st, args[0])
    if not isinstance(v, Lib): raise Unsup('chrono ' + n)
    if v.k == 'dtz' and n.startswith('timestamp'): v = Lib('dt', v.f[0])
    if v.k == 'dt' and n in ('timestamp_nanos', 'timestamp_nanos_opt'):
        r = v.f[0]; ok = and_(ge(r, I(-(1 << 63))), le(r, I((1 << 63)-1)))
        if n.endswith('opt'): return opt(ok, r), st
        if not ensure(I_, st, ok, 'panic'): return None
        return r, st
    d, s, f = dt_parts(v)
    if n in ('date_naive', 'date'): return Lib('date', need(d)), st
    if n == 'time': return Lib('time', need(s), f), st
    if n == 'naive_utc' or n == 'naive_local': return Lib('ndt', need(d), s, f), st
    if n == 'timestamp_subsec_nanos': return need(f), st
    if n == 'timestamp_subsec_micros': return fdiv(need(f), 1000), st
    if n == 'timestamp_subsec_millis': return fdiv(need(f), 10**6), st
    secs = add(mulc(need(d), 86400), s)
    if n == 'timestamp': return secs, st
    if n == 'timestamp_millis': return add(mulc(secs, 1000), fdiv(f, 10**6)), st
    if n == 'timestamp_micros': return add(mulc(secs, 10**6), fdiv(f, 1000)), st
    if n in ('timestamp_nanos', 'timestamp_nanos_opt'):
        r = add(mulc(secs, 10**9), f); ok = and_(ge(r, I(-(1 << 63))), le(r, I((1 << 63)-1)))
        if n.endswith('opt'): return opt(ok, r), st
        if not ensure(I_, st, ok, 'panic'): return None
        return r, st
    raise Unsup('chrono ' + n)
@pat(r'chrono::NaiveDate::from_ymd_opt$')
def _ymd(I_, st, cal, args, t):
    a = [st.ctx.simp(x) for x in args]
    return opt(fn('cal.ok', a, 'b'), Lib('date', fn('cal.days', a))), st
def hms(I_, st, h, mi, s, f):
    ok = and_(lt(h, I(24)), lt(mi, I(60)), lt(s, I(60)), lt(f, I(2*10**9)), or_(lt(f, I(10**9)), eq(s, I(59))))
    return ok, add(add(mulc(h, 3600), mulc(mi, 60)), s), f
@pat(r'chrono::NaiveDate::and_hms(_milli|_micro|_nano)?(_opt)?$|chrono::NaiveTime::from_hms(_milli|_micro|_nano)?(_opt)?$|^chrono::NaiveDate::from_ymd$')
def _hms(I_, st, cal, args, t):
    n = cal['name']; a = [x if isinstance(x, (Lib, Agg, Ptr)) else st.ctx.simp(I_.asint(x)) for x in args]
    if n.endswith('from_ymd'): ok, r = fn('cal.ok', a, 'b'), Lib('date', fn('cal.days', a))
    else:
        d = a.pop(0) if 'NaiveDate::' in n else None
        if d is not None: d = chron(I_, st, d)
        k = 10**6 if '_milli' in n else 1000 if '_micro' in n else 1
        f = mulc(a[3], k) if len(a) > 3 else ZERO
        ok, s, f = hms(I_, st, a[0], a[1], a[2], f)
        # the milli- and microsecond forms multiply in 32 bits (checked)
        ok = and_(ok, le(f, I((1 << 32)-1)))
        r = Lib('ndt', d.f[0], s, f) if d is not None else Lib('time', s, f)
    if n.endswith('_opt'): return opt(ok, r), st
    if not ensure(I_, st, ok, 'panic'): return None
    return r, st
@pat(r'chrono::NaiveDate::and_time$')
def _at(I_, st, cal, args, t):
    d = chron(I_, st, args[0]); tm = chron(I_, st, args[1]); return Lib('ndt', d.f[0], tm.f[0], tm.f[1]), st
# ---- TimeDelta: a count of nanoseconds within ±i64::MAX milliseconds
TDM = ((1 << 63)-1)*10**6
TDU = {'weeks': 7*DAY, 'days': DAY, 'hours': 3600*10**9, 'minutes': 60*10**9, 'seconds': 10**9, 'milliseconds': 10**6, 'microseconds': 1000, 'nanoseconds': 1}
def td_ok(n): return and_(ge(n, I(-TDM)), le(n, I(TDM)))
@pat(r'^chrono::(TimeDelta|Duration)::(try_)?(weeks|days|hours|minutes|seconds|milliseconds|microseconds|nanoseconds)$')
def _tdn(I_, st, cal, args, t):
    n = last(cal['name']); r = mulc(I_.asint(args[0]), TDU[n.replace('try_', '')]); ok = td_ok(r)
    if n.startswith('try_'): return opt(ok, Lib('td', r)), st
    if not ensure(I_, st, ok, 'panic'): return None
    return Lib('td', r), st
@pat(r'^chrono::(TimeDelta|Duration)::(num_(weeks|days|hours|minutes|seconds|milliseconds|microseconds|nanoseconds)|subsec_(nanos|micros|millis)|zero|is_zero|abs)$')
def _tdnn(I_, st, cal, args, t):
    m_ = last(cal['name'])
    if m_ == 'zero': return Lib('td', ZERO), st
    n = chron(I_, st, args[0]).f[0]
    if m_ == 'is_zero': return eq(n, ZERO), st
    if m_ == 'abs': return Lib('td', ite(lt(n, ZERO), sub(ZERO, n), n)), st
    if m_.startswith('subsec'): return tdiv(trem(n, I(10**9)), I({'nanos': 1, 'micros': 1000, 'millis': 10**6}[m_[7:]])), st
    q = tdiv(n, I(TDU[m_[4:]]))
    if m_ in ('num_nanoseconds', 'num_microseconds'): return opt(and_(ge(q, I(-(1 << 63))), le(q, I((1 << 63)-1))), q), st
    return q, st
@pat(r'^chrono::TimeDelta::checked_(add|sub)$|^<chrono::TimeDelta as (std|core)::ops::(Add|Sub)>::(add|sub)$')
def _tda(I_, st, cal, args, t):
    a, b = chron(I_, st, args[0]).f[0], chron(I_, st, args[1]).f[0]; n = cal['name'].split('::')[-1]
    r = add(a, b) if n.endswith('add') else sub(a, b)
    ok = td_ok(r)
    if n.startswith('checked'): return opt(ok, Lib('td', r)), st
    if not ensure(I_, st, ok, 'panic'): return None
    return Lib('td', r), st
@pat(r'^<chrono::TimeDelta as (std|core)::ops::Neg>::neg$')
def _tdneg(I_, st, cal, args, t): return Lib('td', sub(ZERO, chron(I_, st, args[0]).f[0])), st
@pat(r'^chrono::TimeDelta::checked_mul$|^<chrono::TimeDelta as (std|core)::ops::Mul<i32>>::mul$')
def _tdm(I_, st, cal, args, t):
    a = chron(I_, st, args[0]).f[0]; b = I_.asint(args[1]); n = cal['name'].split('::')[-1]
    r = mul(a, b); ok = td_ok(r)
    if n == 'checked_mul': return opt(ok, Lib('td', r)), st
    if not ensure(I_, st, ok, 'panic'): return None
    return Lib('td', r), st
# ---- sorting: a network of compare-and-exchange steps over the elements (stable)
@pat(r'^(std|alloc|core)::slice::stable_sort::<|slice::sort::(stable|unstable)::sort::<')
def _sort(I_, st, cal, args, t):
    s = I_.unwrapp(I_.force(st, args[0]))
    if not isinstance(s, Ptr) or s.obj is None: return (UNIT, st) if isinstance(s, Ptr) and s.meta is ZERO else NotImplemented
    n = st.ctx.simp(s.meta)
    if n.op != 'c': raise Cases(n, 'sort of unknown length')
    if n.a > 40: raise Unsup('sort of many elements')
    fty = argtys(cal, t)[1]
    def at(j): return Ptr(s.obj, s.path[:-1] + (('i', st.ctx.simp(add(s.path[-1][1], I(j)))),))
    for end in range(n.a - 1, 0, -1):
        for j in range(end):
            x, y = at(j), at(j+1)
            r = I_.apply(st, args[1], fty, Agg((y, x)), t)
            if r is None: return None
            c, st = r
            c = st.ctx.simp(I_.asb(I_.force(st, c)))
            if c is FALSE: continue
            a = I_.read(st, x.obj, x.path); b = I_.read(st, y.obj, y.path)
            I_.write(st, x.obj, x.path, vite(c, b, a)); I_.write(st, y.obj, y.path, vite(c, a, b))
    return UNIT, st

# ---------------------------------------------------------------- the library's own precondition checks (only reached with ubchecks)
@pat(r'^core::ub_checks::maybe_is_aligned(::runtime)?$|ptr::(const|mut)_ptr::<impl \*(const|mut) .*>::is_aligned_to$')
def _ubal(I_, st, cal, args, t): return TRUE, st     # casts between element widths are outside the analysed fragment (Unsup)
@pat(r'^core::ub_checks::maybe_is_nonoverlapping(::runtime)?$')
def _ubno(I_, st, cal, args, t):
    a = I_.unwrapp(I_.force(st, args[0])); b = I_.unwrapp(I_.force(st, args[1])); n = st.ctx.simp(args[3])
    if n is ZERO: return TRUE, st
    if isinstance(a, Ptr) and isinstance(b, Ptr) and None not in (a.obj, b.obj) and a.obj != b.obj: return TRUE, st
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.obj is not None:
        pa, pb = a.path, b.path
        if not (pa and pa[-1][0] in ('i', 'one')): pa = pa + (('one', ZERO),)
        if not (pb and pb[-1][0] in ('i', 'one')): pb = pb + (('one', ZERO),)
        if pa[:-1] == pb[:-1]:
            x, y = pa[-1][1], pb[-1][1]
            return st.ctx.simp(or_(ge(sub(x, y), n), ge(sub(y, x), n))), st
    raise Unsup('overlap of two pointers')
