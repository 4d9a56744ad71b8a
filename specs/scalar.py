"""Specifications of the scalar functions: what every exported function without buffers must compute."""
import re, struct, math
from verify import *
INTS = {'SINT': (8, 1), 'USINT': (8, 0), 'INT': (16, 1), 'UINT': (16, 0), 'DINT': (32, 1), 'UDINT': (32, 0), 'LINT': (64, 1), 'ULINT': (64, 0)}
BITS = {'BYTE': 8, 'WORD': 16, 'DWORD': 32, 'LWORD': 64}
FL = {'REAL': 32, 'LREAL': 64}
I64 = (-(1 << 63), (1 << 63)-1)
def V(n, bits, sg): return var(n, *rng(bits, sg))
def fits(x, bits=64, sg=True):
    lo, hi = rng(bits, sg); return and_(ge(x, I(lo)), le(x, I(hi)))
def sigof(P, e):
    """types of the arguments and of the result as the C interface sees them (a reference is an address)"""
    def s(i):
        t = P.ty(i)
        while t['k'] == 'adt' and t['adt'] == 'struct' and len(t['variants'][0]['fields']) == 1: t = P.ty(t['variants'][0]['fields'][0][1])
        return '*' + s(t['to']) if t['k'] in ('ref', 'ptr') else t['s']
    return tuple(s(i) for i in e['inputs']) + (s(e['output']),)
def simple(P, sym, spec, panic=None, floats=(), assume=None, sig=None, **kw):
    """scalar function: spec(args) is its result, panic(args) the condition under which it must panic"""
    e = P.exports.get(sym)
    if e is None: return verify(P, sym)
    if sig is not None:
        got = sigof(P, e)
        if got != tuple(sig): return Res(sym=sym, status='VIOLATION', loc=loc(P, sym), msg=f'{sym} has the signature {got}, expected {tuple(sig)}', witness={}, cells=0, fns=[], steps=0, calls=0)
    a = scalar_args(P, sym)
    want = spec(*a); pw = panic(*a) if panic else FALSE
    return verify(P, sym, args=a, want_panic=pw, outs=lambda r: [('result', flag(r.ret), want)], floats=floats, assume=assume(*a) if assume else (), **kw)
def T1(name, sym, spec, **kw): return (name, simple, dict(sym=sym, spec=spec, **kw))
def rty(bits, sg): return ('i' if sg else 'u') + str(bits)

# ------------------------------------------------------------------------------------ C01
@prop('C01', 36)
def c01(tier):
    r = []
    for F, w in FL.items():
        f = f'f{w}'
        for n, o in dict(SQRT='sqrt', LN='ln', LOG='log10', EXP='exp', SIN='sin', COS='cos', TAN='tan', ASIN='asin', ACOS='acos', ATAN='atan', ROUND='round').items():
            r.append(T1(f'{n}__{F}', f'{n}__{F}', lambda x, o=o, w=w: ops.fop(o, w, x), floats=[('result', w)], sig=(f, f)))
        r.append(T1(f'ATAN2__{F}', f'ATAN2__{F}', lambda y, x, w=w: ops.fop('atan2', w, y, x), floats=[('result', w)], sig=(f, f, f)))
        r.append(T1(f'EXPT__{F}__DINT', f'EXPT__{F}__DINT', lambda x, n, w=w: fn(f'f.powi:{w}', (x, n)), floats=[('result', w)], sig=(f, 'i32', f)))
        for G, v in FL.items():
            r.append(T1(f'EXPT__{F}__{G}', f'EXPT__{F}__{G}', lambda x, y, w=w, v=v: ops.fop('powf', w, x, ops.f_cvt(y, v, w)), floats=[('result', w)], sig=(f, f'f{v}', f)))
        for n, val in (('PI', math.pi), ('FRAC_PI_2', math.pi/2), ('FRAC_PI_4', math.pi/4), ('E', math.e)):
            r.append((f'{n}_{F}', constant, dict(sym=f'{n}_{F}', val=val, w=w)))
    return r
def constant(P, sym, val, w):
    base = Res(sym=sym, status='PROVED', cells=1, fns=[], steps=0, calls=0, loc='src/arithmetic_functions.rs')
    for s in P.d['statics']:
        if s['sym'] == sym:
            base['loc'] = P.where(s['sp']) if s.get('sp') else base['loc']
            if P.ty(s['ty'])['s'] != f'f{w}': return Res(base, status='VIOLATION', msg=f'constant {sym} has type {P.ty(s["ty"])["s"]}', witness={})
            dat = s['data'][1] if len(s['data']) > 1 else s['data']
            got = bytes(dat['bytes']); want = struct.pack('<f' if w == 32 else '<d', val)
            if got != want: return Res(base, status='VIOLATION', msg=f'constant {sym} is {struct.unpack("<f" if w == 32 else "<d", got)[0]!r}, nearest value is {val!r}', witness={})
            return base
    return Res(base, status='VIOLATION', msg=f'exported constant {sym} is missing', witness={})
# ------------------------------------------------------------------------------------ C02
@prop('C02', 4)
def c02(tier):
    ident = lambda x: x
    return [T1(s, s, ident, sig=g) for s, g in (('LWORD_TO_LREAL', ('u64', 'f64')), ('DWORD_TO_REAL', ('u32', 'f32')), ('LREAL_TO_LWORD', ('f64', 'u64')), ('REAL_TO_DWORD', ('f32', 'u32')))]
# ------------------------------------------------------------------------------------ C03, C04
def bytype(sym, i, lo, hi, mk):
    """list of obligations with the second argument in lo..hi-1 as constants and one for the rest"""
    return None
@prop('C03', 8)
def c03(tier):
    r = []
    for B, w in BITS.items():
        for op in ('SHL', 'SHR'):
            def spec(x, n, w=w, op=op):
                v = ZERO
                for k in range(w-1, -1, -1):
                    v = ite(eq(n, I(k)), mod(mulc(x, 1 << k), 1 << w) if op == 'SHL' else fdiv(x, 1 << k), v)
                return v
            r.append(('%s__%s' % (op, B), shifted, dict(sym=f'{op}__{B}', w=w, sg=(f'u{w}', 'u32', f'u{w}'), val=lambda x, k, w=w, op=op: ZERO if k is None else (mod(mulc(x, 1 << k), 1 << w) if op == 'SHL' else fdiv(x, 1 << k)), period=None)))
    return r
def shifted(P, sym, w, sg, val, period):
    """one obligation per shift count below the width, and one for all counts from the width on"""
    e = P.exports.get(sym)
    if e is None: return verify(P, sym)
    got = sigof(P, e)
    if got != sg: return Res(sym=sym, status='VIOLATION', loc=loc(P, sym), msg=f'{sym} has the signature {got}', witness={}, cells=0, fns=[], steps=0, calls=0)
    x = V('in1', w, False); n = V('in2', 32, False)
    tot = None
    cases = [(I(k), [], val(x, k)) for k in range(w)]
    if period is None: cases.append((n, [ge(n, I(w))], val(x, None)))
    else: cases += [(add(mulc(q, w), I(k)), [], val(x, k)) for q in [var('turns', 0, (1 << 32)//w - 1)] for k in range(w)]
    for a, assume, want in cases:
        r = verify(P, sym, args=[x, a], assume=assume, outs=lambda run: [('result', flag(run.ret), want)])
        if tot is None: tot = r
        else:
            for k in ('cells', 'steps', 'calls'): tot[k] += r[k]
        if r['status'] != 'PROVED':
            if 'witness' in r and a.op == 'c': r['witness']['in2'] = a.a
            if r['status'] == 'VIOLATION': return r
            tot['status'] = r['status']; tot['why'] = r.get('why')
    tot['cases'] = len(cases)
    return tot
@prop('C04', 8)
def c04(tier):
    r = []
    for B, w in BITS.items():
        for op in ('ROL', 'ROR'):
            def val(x, k, w=w, op=op):
                k = k % w if op == 'ROL' else (w - k) % w
                if k == 0: return x
                return add(mod(mulc(x, 1 << k), 1 << w), fdiv(x, 1 << (w-k)))
            r.append((f'{op}__{B}', shifted, dict(sym=f'{op}__{B}', w=w, sg=(f'u{w}', 'u32', f'u{w}'), val=val, period=w)))
    return r
# ------------------------------------------------------------------------------------ C06, C07
ELEM = {'BOOL': 'u8', 'BYTE': 'u8', 'CHAR': 'u8', 'WORD': 'u16', 'WCHAR': 'u16', 'DWORD': 'u32', 'LWORD': 'u64', 'SINT': 'i8', 'USINT': 'u8', 'INT': 'i16', 'UINT': 'u16', 'DINT': 'i32', 'UDINT': 'u32',
        'LINT': 'i64', 'ULINT': 'u64', 'DATE': 'i64', 'DATE_AND_TIME': 'i64', 'TIME': 'i64', 'TIME_OF_DAY': 'i64', 'REAL': 'f32', 'LREAL': 'f64'}
@prop('C06', 21)
def c06(tier):
    r = []
    for E, t in ELEM.items():
        w = int(t[1:])
        if t[0] == 'f': spec = lambda a, x, b, w=w: ite(ops.f_lt(x, a, w), a, ite(ops.f_lt(b, x, w), b, x))
        else: spec = lambda a, x, b: ite(lt(x, a), a, ite(gt(x, b), b, x))
        r.append(T1(f'LIMIT__{E}', f'LIMIT__{E}', spec, sig=(t, t, t, t), floats=[('result', w)] if t[0] == 'f' else ()))
    return r
@prop('C07', 6)
def c07(tier):
    r = [T1(f'IS_VALID__{F}', f'IS_VALID__{F}', lambda x, w=w: lt(ops.f_mag(x, w), I(ops.inf_bits(w))), sig=(f'f{w}', 'bool')) for F, w in FL.items()]
    for B, w in BITS.items():
        r.append(T1(f'IS_VALID_BCD__{B}', f'IS_VALID_BCD__{B}', lambda x, w=w: and_(*[le(mod(fdiv(x, 16**i), 16), I(9)) for i in range(w//4)]), sig=(f'u{w}', 'bool')))
    return r
# ------------------------------------------------------------------------------------ C08
ENDI = {'INT': 'i16', 'DINT': 'i32', 'LINT': 'i64', 'UINT': 'u16', 'UDINT': 'u32', 'ULINT': 'u64', 'WORD': 'u16', 'DWORD': 'u32', 'LWORD': 'u64', 'WCHAR': 'u16', 'DATE': 'i64', 'TIME_OF_DAY': 'i64', 'DATE_AND_TIME': 'i64', 'REAL': 'f32', 'LREAL': 'f64'}
@prop('C08', 60)
def c08(tier):
    r = []
    for E, t in ENDI.items():
        w = int(t[1:])
        for d in ('TO_BIG', 'TO_LITTLE', 'FROM_BIG', 'FROM_LITTLE'):
            swap = d in ('TO_BIG', 'FROM_LITTLE') and t[0] != 'f'
            spec = (lambda x, w=w, t=t: wrap(ops.bswap(wrap(x, w, False), w), w, t[0] == 'i')) if swap else (lambda x: x)
            r.append(T1(f'{d}_ENDIAN__{E}', f'{d}_ENDIAN__{E}', spec, sig=(t, t)))
    return r
# ------------------------------------------------------------------------------------ C16, C17, C18
@prop('C16', 9)
def c16(tier):
    r = []
    for s, k in (('ADD_TIME', 1), ('ADD_TOD_TIME', 1), ('ADD_DT_TIME', 1), ('SUB_TIME', -1), ('SUB_DATE_DATE', -1), ('SUB_TOD_TIME', -1), ('SUB_TOD_TOD', -1), ('SUB_DT_TIME', -1), ('SUB_DT_DT', -1)):
        r.append(T1(s, s, lambda a, b, k=k: add(a, b, k), panic=lambda a, b, k=k: not_(fits(add(a, b, k))), sig=('i64', 'i64', 'i64')))
    return r
def timeops(fam): return [f'{fam}__TIME__', f'{fam}_TIME__', f'{fam}_LTIME__']
@prop('C17', 48)
def c17(tier):
    r = []
    for pre in timeops('MUL') + timeops('DIV'):
        for N, (b, sg) in INTS.items():
            s = pre + N
            big = lambda x: gt(x, I(I64[1]))
            if s[:3] == 'MUL': spec = lambda t, x: mul(t, x); pn = lambda t, x: or_(gt(x, I(I64[1])), not_(fits(mul(t, x))))
            else: spec = lambda t, x: tdiv(t, x); pn = lambda t, x: or_(eq(x, ZERO), gt(x, I(I64[1])), and_(eq(t, I(I64[0])), eq(x, I(-1))))
            r.append(T1(s, s, spec, panic=pn, sig=('i64', rty(b, sg), 'i64')))
    return r
@prop('C18', 12)
def c18(tier):
    r = []
    for fam in ('MUL', 'DIV'):
        for pre in timeops(fam):
            for F, w in FL.items():
                nm = f'dur.{fam.lower()}{w}'
                def mag(t, x, nm=nm, w=w): return (ite(lt(t, ZERO), mulc(t, -1), t), ops.f_abs(x, w))
                def spec(t, x, nm=nm, w=w, mag=mag):
                    m = fn(nm, mag(t, x)); neg = ne(b2i(lt(t, ZERO)), b2i(ops.f_sign(x, w)))
                    return ite(neg, mulc(m, -1), m)
                def pn(t, x, nm=nm, w=w, mag=mag):
                    a = mag(t, x); return or_(not_(fn(nm + '.ok', a, 'b')), gt(fn(nm, a), I(I64[1])))
                r.append(T1(pre + F, pre + F, spec, panic=pn, sig=('i64', f'f{w}', 'i64')))
    return r
# ------------------------------------------------------------------------------------ C19
DAY = 86400*10**9
def dok(y, m, d): return fn('cal.ok', (y, m, d), 'b')
def dns(y, m, d): return mulc(fn('cal.days', (y, m, d)), DAY)
@prop('C19', 17)
def c19(tier):
    r = []
    def dspec(y, m, d): return dns(y, m, d)
    def inr(x, bits, sg): return fits(x, bits, sg)
    def dpan(y, m, d): return not_(and_(dok(y, m, d), fits(dns(y, m, d))))
    for N in ('INT', 'UINT', 'DINT', 'UDINT', 'LINT', 'ULINT'):
        t = rty(*INTS[N]); r.append(T1(f'CONCAT_DATE__{N}', f'CONCAT_DATE__{N}', dspec, panic=dpan, sig=(t, t, t, 'i64')))
    r.append(T1('concat_date', 'concat_date', dspec, panic=dpan, sig=('i32', 'u32', 'u32', 'i64')))
    def tok(h, m, s, ms): return and_(*[and_(ge(x, ZERO), lt(x, I(n))) for x, n in ((h, 24), (m, 60), (s, 60), (ms, 1000))])
    def tspec(h, m, s, ms): return add(mulc(add(add(mulc(h, 3600), mulc(m, 60)), s), 10**9), mulc(ms, 10**6))
    leap = lambda h, m, s, ms: [not_(and_(eq(s, I(59)), ge(ms, I(1000)), lt(ms, I(2000))))]      # chrono's leap-second notation is not a time of day of this library
    for N in ('SINT', 'USINT', 'INT', 'UINT', 'DINT', 'UDINT', 'LINT', 'ULINT'):
        t = rty(*INTS[N]); r.append(T1(f'CONCAT_TOD__{N}', f'CONCAT_TOD__{N}', tspec, panic=lambda *a: not_(tok(*a)), assume=leap, sig=(t, t, t, t, 'i64')))
    r.append(T1('concat_tod', 'concat_tod', tspec, panic=lambda *a: not_(tok(*a)), assume=leap, sig=('u32',)*4 + ('i64',)))
    def cdt(d, t): return add(mulc(fdiv(d, DAY), DAY), mod(t, DAY))
    r.append(T1('CONCAT_DATE_TOD', 'CONCAT_DATE_TOD', cdt, panic=lambda d, t: not_(fits(cdt(d, t))), sig=('i64', 'i64', 'i64')))
    return r
# ------------------------------------------------------------------------------------ C20
def fields(t):
    d = fdiv(t, DAY); tod = mod(t, DAY)
    return dict(year=fn('cal.year', (d,)), month=fn('cal.month', (d,)), day=fn('cal.day', (d,)), hour=fdiv(tod, 3600*10**9), minute=mod(fdiv(tod, 60*10**9), 60), second=mod(fdiv(tod, 10**9), 60), milli=mod(fdiv(tod, 10**6), 1000))
def split(P, sym, names, ty):
    e = P.exports.get(sym)
    if e is None: return verify(P, sym)
    got = sigof(P, e)
    want = ('i64',) + tuple(f'*{ty}' for _ in names) + ('i16',)
    if got != want: return Res(sym=sym, status='VIOLATION', loc=loc(P, sym), msg=f'{sym} has the signature {got}', witness={}, cells=0, fns=[], steps=0, calls=0)
    t = V('in1', 64, True); bits, sg = int(ty[1:]), ty[0] == 'i'
    mem = {}; args = [t]
    for n in names: mem[('out', n)] = V('old.' + n, bits, sg); args.append(Ptr(('out', n), ()))
    f = fields(t)
    def outs(run): return [('result', flag(run.ret), ZERO)] + [(n, flag(run.mem(('out', n))), f[n]) for n in names]
    return verify(P, sym, args=args, mem=mem, outs=outs)
@prop('C20', 19)
def c20(tier):
    r = []
    for N in ('INT', 'UINT', 'DINT', 'UDINT', 'LINT', 'ULINT'):
        t = rty(*INTS[N])
        for s, n in (('SPLIT_DATE', ('year', 'month', 'day')), ('SPLIT_TOD', ('hour', 'minute', 'second', 'milli')), ('SPLIT_DT', ('year', 'month', 'day', 'hour', 'minute', 'second', 'milli'))):
            r.append((f'{s}__{N}', split, dict(sym=f'{s}__{N}', names=n, ty=t)))
    r.append(T1('DAY_OF_WEEK', 'DAY_OF_WEEK', lambda t: mod(add(fdiv(t, DAY), I(4)), 7), sig=('i64', 'i8')))
    return r
# ------------------------------------------------------------------------------------ C21
@prop('C21', 2)
def c21(tier):
    mid = lambda t: mulc(fdiv(t, DAY), DAY)
    return [T1('DATE_AND_TIME_TO_DATE', 'DATE_AND_TIME_TO_DATE', mid, panic=lambda t: not_(fits(mid(t))), sig=('i64', 'i64')),
            T1('DATE_AND_TIME_TO_TIME_OF_DAY', 'DATE_AND_TIME_TO_TIME_OF_DAY', lambda t: mod(t, DAY), sig=('i64', 'i64'))]
# ------------------------------------------------------------------------------------ C32 (characters), C39
def chars():
    def w2c(c):
        c = ite(and_(ge(c, I(0xD800)), le(c, I(0xDFFF))), I(0xFFFD), c)
        return ite(lt(c, I(0x80)), c, ite(lt(c, I(0x800)), add(fdiv(c, 64), I(0xC0)), add(fdiv(c, 4096), I(0xE0))))
    return [T1('CHAR_TO_WCHAR', 'CHAR_TO_WCHAR', lambda c: c, sig=('u8', 'u16')), T1('WCHAR_TO_CHAR', 'WCHAR_TO_CHAR', w2c, sig=('u16', 'u8'))]
@prop('C39', 1)
def c39(tier):
    s, f = var('now.secs', 0, 86399), var('now.frac', 0, 1999999999)
    return [T1('TIME', 'TIME', lambda: add(mulc(s, 10**9), f), assume=lambda: [lt(f, I(10**9))], sig=('i64',))]
