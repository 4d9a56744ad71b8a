"""C36-C38: the Structured Text declarations against the compiled exports (signatures, layouts) and the ST bodies."""
import os, re
from verify import *
from scalar import *
import stparse
ROOT = os.environ.get('VERIF_ST', '/repo/iec61131-st')
_ld = {}
def src():
    if ROOT not in _ld:
        p, c, b = stparse.load(ROOT); _ld[ROOT] = (p, c, b)
    return _ld[ROOT]
REAL_ = {'REAL': 32, 'LREAL': 64}
INT_ = {'SINT': (8, True), 'INT': (16, True), 'DINT': (32, True), 'LINT': (64, True), 'USINT': (8, False), 'UINT': (16, False), 'UDINT': (32, False), 'ULINT': (64, False)}
BIT_ = {'BYTE': (8, False), 'WORD': (16, False), 'DWORD': (32, False), 'LWORD': (64, False), 'CHAR': (8, False), 'WCHAR': (16, False)}
DUR_ = {k: (64, True) for k in ('TIME', 'LTIME', 'DATE', 'LDATE', 'TOD', 'LTOD', 'TIME_OF_DAY', 'LTIME_OF_DAY', 'LONG_TIME_OF_DAY', 'DT', 'LDT', 'DATE_AND_TIME', 'LDATE_AND_TIME', 'LONG_DATE_AND_TIME', 'LONG_TIME', 'LONG_DATE')}
SYN = {'TOD': 'TIME_OF_DAY', 'DT': 'DATE_AND_TIME', 'LTIME': 'TIME', 'LONG_TIME': 'TIME', 'LDATE': 'DATE', 'LONG_DATE': 'DATE', 'LTOD': 'TIME_OF_DAY', 'LTIME_OF_DAY': 'TIME_OF_DAY', 'LONG_TIME_OF_DAY': 'TIME_OF_DAY', 'LDT': 'DATE_AND_TIME', 'LDATE_AND_TIME': 'DATE_AND_TIME', 'LONG_DATE_AND_TIME': 'DATE_AND_TIME', 'LONG_DATE_AND_TIME': 'DATE_AND_TIME'}
def scalar_of(name):
    """('int', bits, signed) | ('float', bits) | ('bool',)"""
    if name == 'BOOL': return ('bool',)
    if name in REAL_: return ('float', REAL_[name])
    for d in (INT_, BIT_, DUR_):
        if name in d: return ('int',) + d[name]
    return None
NATURE = {'ANY_REAL': ['REAL', 'LREAL'], 'ANY_BIT': ['BYTE', 'WORD', 'DWORD', 'LWORD'], 'ANY_STRING': ['STRING', 'WSTRING'], 'ANY_ELEMENTARY': list(ELEM)}
# -- parameter passing: what a Rust argument or result type is at the C ABI
def abi(P, ti):
    t = P.ty(ti); k = t['k']
    if k == 'bool': return ('bool',)
    if k == 'int': return ('int', t['bits'], bool(t['signed']))
    if k == 'float': return ('float', t['bits'])
    if k == 'char': return ('int', 32, False)
    if k in ('ptr', 'ref'): return ('ptr', t['to']) if t['layout']['size'] == 8 else ('unsafe', 'wide pointer ' + t['s'])
    if k == 'tuple' and not t['elems']: return ('unit',)
    if k == 'adt':
        if t['name'].endswith('option::Option') and len(t['args'] or []) == 1 and t['layout']['size'] == 8:
            a = t['variants'][1]['fields'][0][1]
            q = P.ty(a)
            if q['k'] in ('ref', 'ptr'): return abi(P, a)
            if q['k'] == 'adt' and q['name'].endswith('NonNull'): return ('ptr', None)
        if t['adt'] == 'struct':
            fs = [f[1] for v in t['variants'] for f in v['fields'] if P.ty(f[1])['layout']['size']]
            if len(fs) == 1 and P.ty(fs[0])['layout']['size'] == t['layout']['size'] <= 8: return abi(P, fs[0])
        if t['adt'] == 'enum' and t.get('repr_c'): return ('int', t['layout']['size']*8, True)
    return ('unsafe', t['s'])
def describe(a):
    if a[0] == 'int': return f"{'signed' if a[2] else 'unsigned'} {a[1]}-bit integer"
    if a[0] == 'float': return f'{a[1]}-bit float'
    if a[0] == 'ptr': return 'pointer'
    return {'bool': 'one-byte boolean', 'unit': 'nothing'}.get(a[0], a[-1])
def leaf(P, ti):
    """the scalar a pointer leads to: abi of the innermost single field, or None"""
    if ti is None: return None
    a = abi(P, ti)
    if a[0] != 'unsafe': return a
    t = P.ty(ti)
    if t['k'] == 'adt' and t['adt'] == 'union':
        fs = [f[1] for v in t['variants'] for f in v['fields'] if P.ty(f[1])['layout']['size']]
        return leaf(P, fs[0]) if len(fs) == 1 else None
    return None
def unit_bits(name): return 8 if name == 'STRING' else 16
def st_scalar(t):
    return scalar_of(SYN.get(t[1], t[1])) if t[0] == 'T' else None
def subst(t, env): return (('STR', env[t[1]], None) if env[t[1]] in ('STRING', 'WSTRING') else ('T', env[t[1]])) if t and t[0] == 'T' and t[1] in env else t
def expected(p, env):
    """the C signature of an external declaration: [(label, want)], result"""
    r = []; first = []
    for v in p.params():
        t = subst(v.ty, env); ref = v.ref or v.kind != 'VAR_INPUT'
        if t[0] == 'STR':
            one = ('ptr', 'unit', unit_bits(t[1])); many = ('ptr', 'ptr', unit_bits(t[1]))
            if v.variadic: r += [('number of ' + v.name, ('count',)), (v.name, many)]
            else: r.append((v.name, one))          # strings are passed by address either way
            continue
        s = st_scalar(t)
        if s is None: raise Unsup(f'type {t} of {v.name}')
        if v.variadic: r += [('number of ' + v.name, ('count',)), (v.name, ('ptr', 'scalar', s))]
        elif ref: r.append((v.name, ('ptr', 'scalar', s)))
        else: r.append((v.name, s))
    if p.ret is None: out = ('unit',)
    else:
        t = subst(p.ret, env)
        if t[0] == 'STR': first = [(p.name + ' (result)', ('ptr', 'unit', unit_bits(t[1])))]; out = ('unit',)
        else:
            out = st_scalar(t)
            if out is None: raise Unsup(f'result type {t}')
    return first + r, out
def same(P, got, want):
    """does a Rust argument type carry the declared value?"""
    if want[0] == 'count': return got[0] == 'int' and got[1] == 32
    if want[0] == 'ptr':
        if got[0] != 'ptr': return False
        l = leaf(P, got[1])
        if want[1] == 'ptr':
            if got[1] is None: return True
            return l is not None and l[0] == 'ptr' and same(P, l, ('ptr', 'unit', want[2]))
        if got[1] is not None and P.ty(got[1])['layout']['size'] in (0, 1) and (l is None or l[0] in ('unit', 'unsafe')): return True       # c_void
        if l is None: return got[1] is None
        if want[1] == 'unit': return l[0] == 'int' and l[1] == want[2]
        return same(P, l, want[2])
    if want == ('bool',): return got == ('bool',) or got == ('int', 8, False)
    return got == want
API = None
def cmp_sig(P, sym, p, env, what=None):
    rel_ = os.path.relpath(p.file, os.path.dirname(ROOT)) + f':{p.line}'
    base = Res(sym=sym, status='PROVED', cells=1, fns=[sym], steps=0, calls=1, loc=rel_, cases=1)
    bad = lambda m: Res(base, status='VIOLATION', msg=m, fn=sym, witness={'declaration': rel_, 'export': loc(P, sym) if sym in P.exports else None})
    e = P.exports.get(sym)
    if e is None: return bad(f'{p.name} is declared external at {rel_}, the library has no symbol {sym}')
    if e['conv'] != 'C': return bad(f'{sym} uses the {e["conv"]} calling convention')
    try: want, out = expected(p, env)
    except Unsup as x: return Res(base, status='UNDECIDED', why=f'{sym}: {x}')
    got = [abi(P, i) for i in e['inputs']]
    if len(got) != len(want): return bad(f'{sym} takes {len(got)} arguments, its declaration at {rel_} passes {len(want)}: {", ".join(l for l, _ in want)}')
    for i, (g, (l, w)) in enumerate(zip(got, want)):
        if not same(P, g, w): return bad(f'{sym}: argument {i+1} is a {P.ty(e["inputs"][i])["s"]} ({describe(g)}), the declaration at {rel_} passes {l} as {show_want(w)}')
    g = abi(P, e['output'])
    if not (same(P, g, out) or out == ('unit',) and g == ('unit',)): return bad(f'{sym} returns {P.ty(e["output"])["s"]} ({describe(g)}), the declaration at {rel_} expects {show_want(out)}')
    return base
def show_want(w):
    if w[0] == 'count': return '32-bit count'
    if w[0] == 'ptr': return {'unit': f'address of a string of {w[2]}-bit units', 'ptr': f'address of a list of strings of {w[2]}-bit units'}.get(w[1]) or 'address of a ' + describe(w[2])
    return describe(w)
# -- value graphs of bodies written in Structured Text
import zlib
from logic import Ctx
def _lib(n, v, s):
    h = zlib.crc32(repr((n, v)).encode()) * 2654435761 % (1 << 62)
    if s == 'b': return bool(h & 1)
    lo, hi = map(int, n.split(':')[-2:])
    return lo + h % (hi - lo + 1)
ops.reg('lib', _lib, lambda n, a: tuple(map(int, n.split(':')[-2:])) if n.count(':') >= 3 else None)
TOK = (0, (1 << 62)-1)
def libi(name, args, lo=TOK[0], hi=TOK[1]): return fn(f'lib:{name}:{lo}:{hi}', tuple(args))
def libb(name, args): return fn(f'lib:{name}', tuple(args), 'b')
class Ty:
    """scalar ST type: kind int|float|bool|str"""
    def __init__(s, kind, bits=0, signed=False, cap=0, name=''): s.kind = kind; s.bits = bits; s.signed = signed; s.cap = cap; s.name = name
    def rng(s): return rng(s.bits, s.signed) if s.kind == 'int' else (0, (1 << s.bits)-1) if s.kind == 'float' else TOK
def const(e):
    if e is None: return 80
    if e[0] == 'num': return stnum(e[1])
    if e[0] == 'id' and e[1].upper() in src()[1]: return const(src()[1][e[1].upper()][1])
    raise Unsup('length of a text')
def stnum(s):
    s = s.replace('_', '')
    if '#' in s: b, d = s.split('#'); return int(d, int(b))
    return float(s) if '.' in s else int(s)
def mkty(t):
    if t[0] == 'STR': return Ty('str', unit_bits(t[1]), cap=const(t[2]), name=t[1])
    if t[0] == 'PTR': return Ty('ptr', name=mkty(t[1]))
    if t[0] == 'T':
        s = scalar_of(t[1])
        if s is None: raise Unsup(f'type {t[1]}')
        return Ty(s[0], *(s[1:] or (8,)), name=t[1])
    raise Unsup(f'type {t[0]}')
DINT = Ty('int', 32, True, name='DINT'); LREAL = Ty('float', 64, name='LREAL'); BOOL = Ty('bool', 8, name='BOOL')
def conv(v, a, b):
    """implicit conversion on assignment or passing"""
    if a.kind == b.kind == 'ptr': return v
    if a.kind == 'int' and b.kind == 'int': return wrap(v, b.bits, b.signed)
    if a.kind == 'bool' and b.kind == 'int': return b2i(v)
    if a.kind == 'bool' and b.kind == 'bool': return v
    if a.kind == 'float' and b.kind == 'float': return cvt(v, a.bits, b.bits)
    if a.kind == 'int' and b.kind == 'float': return fn(f'f.ofint:{b.bits}', (v,))
    if a.kind == 'float' and b.kind == 'int': return toint(v, a.bits, b)
    if a.kind == 'str' and b.kind == 'str' and a.bits == b.bits: return v if a.cap <= b.cap else libi('cut' + str(b.cap), (v,))
    raise Unsup(f'{a.name} used as {b.name}')
def cvt(v, a, b):
    if a == b: return v
    if b < a and v.op == 'fn' and v.a[0] == f'f.cvt:{b}:{a}': return v.a[1][0]       # widening loses nothing
    return ops.f_cvt(v, a, b)
def toint(v, w, b):
    return fn(f'f.toint:{w}:{b.bits}:{int(b.signed)}', (v,))
def rnd(v, w):
    if v.op == 'fn' and v.a[0] == 'f.cvt:32:64': return ops.f_cvt(rnd(v.a[1][0], 32), 32, 64)      # rounding commutes with widening
    return ops.fop('round', w, v)
class Text:
    """a text variable's value is a token; a zeroed one is the token 0"""
def narrow(x): return libi('narrow', (x,))
def wide(x): return libi('wide', (x,))
def single(x): return libi('single', (x,))
SIDE = {}
class Flow(Exception): pass
class ST:
    """interpreter of one body over terms"""
    chain = ()
    def __init__(s, depth=0): s.pous = {p.name.upper(): p for p in src()[0]}; s.depth = depth; s.assume = []; s.used = set()
    # variables: name -> (term or address, Ty)
    def run(s, p, args):
        """args: values of the parameters in order. Returns (result, {output name: value})"""
        s.depth += 1
        if p.name in s.chain: raise OverRead(f'calls itself through {" and ".join(s.chain)} for ever')
        s.chain = s.chain + (p.name,)
        s.used.add(p.name)
        env = {}
        ps = p.params()
        for v, a in zip(ps, args): env[v.name.upper()] = (a, mkty(v.ty))
        for v in p.vars:
            if v not in ps:
                t = mkty(v.ty); z = FALSE if t.kind == 'bool' else ZERO
                env[v.name.upper()] = (conv(*s.expr(v.init, env), t) if v.init else z, t)
        rt = mkty(p.ret) if p.ret else None
        R = p.name.upper()
        if rt: env[R] = (FALSE if rt.kind == 'bool' else ZERO, rt)
        s.ret = R
        done = []
        live = s.block(p.body, [(TRUE, env)], done)
        ends = [x for x in done + live if x[0] is not FALSE]
        def join(n):
            t = ends[0][1][n][1]; r = None
            for g, e in ends: r = e[n][0] if r is None else ite(g, e[n][0], r)
            return r
        s.depth -= 1
        return (join(R) if rt else None), {v.name.upper(): join(v.name.upper()) for v in ps if v.kind != 'VAR_INPUT'}
    def block(s, stmts, paths, done):
        for st in stmts:
            nxt = []
            for g, env in paths: nxt += s.stmt(st, g, env, done)
            paths = nxt
            if len(paths) > 64: raise Unsup('too many paths')
        return paths
    def stmt(s, st, g, env, done):
        k = st[0]
        if k == '=': s.assign(st[1], s.expr(st[2], env), env); return [(g, env)]
        if k == 'call':
            if st[1][0] == 'call': s.expr(st[1], env)
            elif st[1][0] != 'id': raise Unsup('statement')
            return [(g, env)]
        if k == 'return': done.append((g, env)); return []
        if k == 'if':
            r = []
            for c, b in st[1]:
                c = s.cond(c, env)
                gt_ = and_(g, c); g = and_(g, not_(c))
                if gt_ is not FALSE: r += s.block(b, [(gt_, dict(env))], done)
            if g is not FALSE: r += s.block(st[2] or [], [(g, env)], done)
            return r
        if k == 'case':
            v, t = s.expr(st[1], env); r = []
            for vs, b in st[2]:
                c = or_(*[and_(le(s.expr(lo, env)[0], v), le(v, s.expr(hi, env)[0])) for lo, hi in vs])
                gt_ = and_(g, c); g = and_(g, not_(c))
                if gt_ is not FALSE: r += s.block(b, [(gt_, dict(env))], done)
            if g is not FALSE: r += s.block(st[3] or [], [(g, env)], done)
            return r
        if k == 'for':
            a, b, c = (s.expr(e, env)[0] for e in st[2:5])
            if not (a.op == b.op == c.op == 'c') or c.a == 0: raise Unsup('loop bound')
            paths = [(g, env)]
            for i in range(a.a, b.a + (1 if c.a > 0 else -1), c.a):
                for _, e in paths: e[st[1].upper()] = (I(i), e[st[1].upper()][1])
                paths = s.block(st[5], paths, done)
            return paths
        raise Unsup('statement ' + k)
    def cond(s, c, env):
        v, t = s.expr(c, env)
        if t.kind == 'bool': return v
        if t.kind == 'int': return ne(v, ZERO)
        raise Unsup('condition')
    def assign(s, l, vt, env):
        v, t = vt
        if l[0] == 'id':
            n = l[1].upper()
            if n not in env: raise Unsup('unknown variable ' + l[1])
            env[n] = (conv(v, t, env[n][1]), env[n][1]); return
        if l[0] == 'deref':
            a, pt = s.expr(l[1], env)
            if not isinstance(a, tuple): raise Unsup('pointer')
            old, ot = env[a[1]]; q = pt.name
            if q.kind == ot.kind and q.bits == ot.bits: env[a[1]] = (conv(v, t, q), ot); return
            if ot.kind == 'str' and q.kind == 'int' and q.bits == ot.bits and old is ZERO: env[a[1]] = (single(conv(v, t, q)), ot); return
        raise Unsup('assignment')
    def addr(s, e, env):
        if e[0] == 'id' and e[1].upper() in env: return ('addr', e[1].upper())
        raise Unsup('address')
    def expr(s, e, env):
        k = e[0]
        if k == 'id':
            n = e[1].upper()
            if n in env: return env[n]
            if n in ('TRUE', 'FALSE'): return (TRUE if n == 'TRUE' else FALSE), BOOL
            if n in src()[1] and src()[1][n][1]: return s.expr(src()[1][n][1], env)
            raise Unsup('unknown name ' + e[1])
        if k == 'num':
            v = stnum(e[1])
            if isinstance(v, float): return fconst(v, 64), LREAL
            return I(v), DINT if -(1 << 31) <= v < 1 << 31 else Ty('int', 64, True, name='LINT')
        if k == 'cast':
            t = mkty(('T', e[1])); v, a = s.expr(e[2], env)
            return conv(v, a, t), t
        if k == 'ref':
            a = s.addr(e[1], env); return a, Ty('ptr', name=env[a[1]][1])
        if k == 'deref':
            a, pt = s.expr(e[1], env)
            if not isinstance(a, tuple): raise Unsup('pointer')
            v, t = env[a[1]]; q = pt.name
            if q.kind == t.kind and q.bits == t.bits and (q.kind != 'str' or q.cap <= t.cap): return (wrap(v, q.bits, q.signed) if q.kind == 'int' else v), q
            if q.kind == 'int' and t.kind == 'int' and q.bits <= t.bits: return wrap(v, q.bits, q.signed), q
            if q.kind == 'int' and t.kind == 'str' and q.bits == t.bits: return wrap(libi('first', (v,), 0, (1 << q.bits)-1), q.bits, q.signed), q
            if q.kind == 'str' and t.kind == 'int' or q.kind == 'str' and t.kind == 'str' and q.cap > t.cap: raise OverRead(f'{q.name} is read through the address of {t.name} {a[1]}, beyond its end')
            raise Unsup('read through a pointer')
        if k == 'fld' and e[2].isdigit():
            v, t = s.expr(e[1], env); n = int(e[2])
            if t.kind != 'int': raise Unsup('bit access')
            return eq(mod(fdiv(wrap(v, t.bits, False), 1 << n), 2), ONE), BOOL
        if k == 'un':
            v, t = s.expr(e[2], env)
            if e[1] == 'NOT' and t.kind == 'bool': return not_(v), t
            if e[1] == '+': return v, t
            if e[1] == '-':
                if t.kind == 'int':
                    if t.bits < 32: t = DINT
                    return wrap(mulc(v, -1), t.bits, t.signed), t
                if t.kind == 'float': return (fconst(-float(bits2f(v.a, t.bits)), t.bits) if v.op == 'c' else ops.f_neg(v, t.bits)), t
            raise Unsup('operator ' + e[1])
        if k == 'bin': return s.bin(e[1], s.expr(e[2], env), s.expr(e[3], env))
        if k == 'call': return s.call(e, env)
        raise Unsup('expression ' + k)
    def bin(s, o, a, b):
        (x, t), (y, u) = a, b
        if o in ('AND', '&', 'OR', 'XOR'):
            if t.kind == u.kind == 'bool': return {'OR': or_(x, y), 'XOR': or_(and_(x, not_(y)), and_(y, not_(x)))}.get(o, and_(x, y)), t
            if t.kind == u.kind == 'int':
                w = max(t.bits, u.bits); tt = t if t.bits >= u.bits else u
                f = {'OR': ops.bor, 'XOR': ops.bxor}.get(o, ops.band)
                return wrap(f(wrap(x, w, False), wrap(y, w, False), w), w, tt.signed), tt
            raise Unsup('operator')
        if t.kind == 'bool': x, t = b2i(x), Ty('int', 8, False, name='BYTE')
        if u.kind == 'bool': y, u = b2i(y), Ty('int', 8, False, name='BYTE')
        if 'float' in (t.kind, u.kind):
            w = max([z.bits for z in (t, u) if z.kind == 'float'])
            if y.op == 'c' and u is LREAL and t.kind == 'float' or x.op == 'c' and t is LREAL and u.kind == 'float': w = min(z.bits for z in (t, u) if z.kind == 'float')
            q = Ty('float', w, name='LREAL' if w == 64 else 'REAL'); x, y = conv(x, t, q), conv(y, u, q)
            if o in ('<', '>', '<=', '>=', '=', '<>'):
                return {'<': lambda: ops.f_lt(x, y, w), '>': lambda: ops.f_lt(y, x, w), '<=': lambda: ops.f_le(x, y, w), '>=': lambda: ops.f_le(y, x, w), '=': lambda: ops.f_eq(x, y, w), '<>': lambda: not_(ops.f_eq(x, y, w))}[o](), BOOL
            if o == '*' and (x.op == 'c' and bits2f(x.a, w) == -1): return ops.f_neg(y, w), q
            if o == '*' and (y.op == 'c' and bits2f(y.a, w) == -1): return ops.f_neg(x, w), q
            if o == '-' and x.op == 'c' and bits2f(x.a, w) == 0: return ops.f_neg(y, w), q
            f = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}.get(o)
            if f: return ops.fop(f, w, x, y), q
            raise Unsup('operator ' + o)
        if t.kind == 'int' and u.kind == 'int':
            w = max(32, t.bits, u.bits); big = t if t.bits > u.bits else u if u.bits > t.bits else (t if t.signed else u)
            q = big if big.bits >= 32 else DINT
            x, y = wrap(x, q.bits, q.signed), wrap(y, q.bits, q.signed)
            c = {'<': lt, '>': gt, '<=': le, '>=': ge, '=': eq, '<>': ne}.get(o)
            if c: return c(x, y), BOOL
            r = {'+': add, '-': sub, '*': mul}.get(o)
            if r: return wrap(r(x, y), q.bits, q.signed), q
        raise Unsup('operator ' + o)
    # -- calls
    def call(s, e, env):
        if e[1][0] != 'id': raise Unsup('call')
        n = e[1][1].upper(); p = s.pous.get(n)
        if n in TYPENAMES and len(e[2]) == 1 and p is None: raise Unsup('conversion ' + n)
        if p is None:
            p = next((q for q in src()[0] if q.generics and n.startswith(q.name.upper() + '__')), None)
            if p is None: raise Unsup('call of ' + n)
            ts = n[len(p.name)+2:].split('__')
            gen = dict(zip([g for g, _ in p.generics], ts)); sym = n
        else: gen = None; sym = p.name
        ps = p.params(); va = [v for v in ps if v.variadic]
        # arguments to parameters
        acts = []
        named = [a for a in e[2] if a[0]]
        if named:
            if va: raise Unsup('named arguments')
            by = {a[0].upper(): a[1] for a in named}
            if len(named) != len(e[2]): raise Unsup('mixed arguments')
            for v in ps:
                if v.name.upper() not in by: raise Unsup('argument left out')
                acts.append((v, by[v.name.upper()]))
        else:
            if va:
                fixed = [v for v in ps if not v.variadic]
                # the list takes the place of its parameter
                k = 0
                for v in ps:
                    m = len(e[2]) - len(fixed) if v.variadic else 1
                    for _ in range(m): acts.append((v, e[2][k][1])); k += 1
            else:
                if len(e[2]) != len(ps): raise Unsup('number of arguments of ' + n)
                acts = list(zip(ps, [a[1] for a in e[2]]))
        vals = [(v, x, s.expr(x, env)) for v, x in acts]
        if p.generics and gen is None:
            gen = {}
            for g, nat in p.generics:
                c = [t for v, x, (_, t) in vals if v.ty == ('T', g)]
                if not c: raise Unsup('generic')
                b = max(c, key=lambda t: (t.kind == 'float', t.bits, t.signed))
                gen[g] = {'DINT': 'DINT'}.get(b.name, SYN.get(b.name, b.name))
            sym = p.name + ''.join('__' + gen[g] for g, _ in p.generics)
        q = s.pous.get(sym.upper())
        if q and q is not p:
            if len(q.params()) != len(ps): raise Unsup('specialisation ' + sym)
            p2 = q; gen2 = {}
        else: p2 = p; gen2 = gen or {}
        targs = []; outs = []
        formal = dict(zip([v.name for v in ps], p2.params()))
        for v, x, (val, t) in vals:
            f = formal[v.name]; ft = mkty(subst(f.ty, gen2))
            if f.kind != 'VAR_INPUT':
                a = s.addr(x, env) if x[0] != 'deref' else s.expr(x[1], env)[0]
                if not isinstance(a, tuple): raise Unsup('output argument')
                at = env[a[1]][1]
                if at.kind != ft.kind or at.bits != ft.bits: raise Unsup('output argument of another type')
                outs.append((f, a[1], ft)); targs.append(val)
                if f.kind == 'VAR_OUTPUT': targs[-1] = FALSE if ft.kind == 'bool' else ZERO
            elif f.ref and t.kind == 'str': targs.append(val)
            else: targs.append(conv(val, t, ft))
        rt = mkty(subst(p2.ret, gen2)) if p2.ret else None
        if p2.body and not p2.external:
            sub_ = ST(s.depth); sub_.used = s.used; sub_.chain = s.chain
            r, o = sub_.run(p2, targs)
            for f, name, ft in outs: env[name] = (o[f.name.upper()], env[name][1])
            return r, rt
        s.used.add(sym)
        inp = [a for (v, x, _), a in zip(vals, targs) if formal[v.name].kind != 'VAR_OUTPUT' and not (formal[v.name].kind == 'VAR_IN_OUT')]
        r, o = library(sym, gen or {}, inp, rt, outs)
        for (f, name, ft), v in zip(outs, o):
            if ft.kind == 'str' and sym.upper() in ('STRING_TO_WSTRING_EXT', 'WSTRING_TO_STRING_EXT'):
                c = vals[0][2][1].cap
                if env[name][1].cap < c: raise OverRead(f'{sym} writes the text of a {c}-character argument to {name}, which holds {env[name][1].cap}')
            env[name] = (v, env[name][1])
        return r, rt
class OverRead(Exception): pass
def base_of(sym): return sym.split('__')[0]
def library(sym, gen, a, rt, outs):
    """the operation a library function performs, as an operation on terms: (result, values of the outputs)"""
    b = base_of(sym)
    none = []
    if b == 'ROUND': return rnd(a[0], rt.bits), none
    if b in ('GT', 'LT', 'GE', 'LE', 'EQ', 'NE') and len(a) == 2:
        x, y = a
        le_ = lambda x, y: libb('less', (x, y))
        eq_ = lambda x, y: libb('same', tuple(sorted((x, y), key=show)))
        return {'GT': le_(y, x), 'LT': le_(x, y), 'GE': not_(le_(x, y)), 'LE': not_(le_(y, x)), 'EQ': eq_(x, y), 'NE': not_(eq_(x, y))}[b], none
    if b in ('ADD_TIME', 'ADD_TOD_TIME', 'ADD_DT_TIME'): return libi('ADD', tuple(sorted(a, key=show)), *I64), none
    if b.startswith('SUB_'): return libi('SUB', a, *I64), none
    text = {'BYTE_TO_STRING_EXT': 'dec', 'LWORD_TO_STRING_EXT': 'dec', 'LINT_TO_STRING_EXT': 'dec', 'STRING_TO_WSTRING_EXT': 'wide', 'WSTRING_TO_STRING_EXT': 'narrow'}.get(b, b)
    tag_ = text if b in ('CONCAT_DATE', 'CONCAT_TOD') else sym if text == b else text
    o = [libi(tag_ + ('' if len(outs) == 1 else f'.out{i}'), a, *ft.rng()) for i, (f, n, ft) in enumerate(outs)]
    r = None
    if rt is not None:
        r = libb(tag_ + '.result', a) if rt.kind == 'bool' else libi(tag_ + '.result', a, *rt.rng())
    return r, o
TYPENAMES = set()
# -- what the functions written in ST must compute
def cls(n):
    """scalar or text class of a type name in a function name"""
    if n in ('STRING', 'WSTRING'): return 'str'
    s = scalar_of(n)
    return s[0] if s else None
def specs_of(name, ins):
    """list of acceptable values: result or {output: value}; ins: [(term, Ty)]; None: not specified"""
    v = [x for x, _ in ins]
    def ty(n): return mkty(('T', n)) if n not in ('STRING', 'WSTRING') else Ty('str', 8 if n == 'STRING' else 16, cap=2048, name=n)
    def ret(r): return [(r, {})]
    F = lambda sym, rt, *a: library(sym, {}, list(a), ty(rt), [])[0]
    def out1(sym, *a): return library(sym, {}, list(a), DINT, [(None, '', Ty('str', 8))])[1][0]
    U = name.upper()
    m = re.fullmatch(r'([A-Z]+)_TO_([A-Z]+)', U)
    m = m if m and cls(m[1]) and cls(m[2]) else None
    if m:
        X, Y = m[1], m[2]; x = v[0]; t = ins[0][1]; cx, cy = cls(X), cls(Y); bx, by = SYN.get(X, X), SYN.get(Y, Y)
        if bx == 'DATE_AND_TIME' and by == 'DATE': return ret(F('DATE_AND_TIME_TO_DATE', 'DATE', x))
        if bx == 'DATE_AND_TIME' and by == 'TIME_OF_DAY': return ret(F('DATE_AND_TIME_TO_TIME_OF_DAY', 'TOD', x))
        if cx == 'int' and cy == 'bool': return ret(ne(x, ZERO)) if X in INT_ else ret(eq(mod(x, 2), ONE))
        if cx in ('int', 'bool') and cy == 'int': return ret(conv(x, t, ty(Y)))
        if cx == 'float' and cy == 'int' and Y not in BIT_: return ret(toint(rnd(x, t.bits), t.bits, ty(Y)))
        if cx in ('int', 'float') and cy == 'float' and X not in BIT_: return ret(conv(x, t, ty(Y)))
        if cy == 'str':
            if X == 'STRING' and Y == 'WSTRING': return ret(wide(x))
            if X == 'WSTRING' and Y == 'STRING': return ret(narrow(x))
            if X in ('CHAR', 'WCHAR'): return ret(single(x))
            k = {'BYTE': 'BYTE', 'LWORD': 'LWORD', 'DWORD': 'LWORD', 'LINT': 'LINT', 'DINT': 'LINT', 'DATE_AND_TIME': 'DT', 'TIME': 'TIME', 'DATE': 'DATE', 'TIME_OF_DAY': 'TOD', 'LREAL': 'LREAL', 'REAL': 'LREAL'}.get(bx)
            if k is None: return None
            if X == 'REAL': x = conv(x, t, LREAL)
            s = out1(f'{k}_TO_STRING_EXT', x)
            return ret(s if Y == 'STRING' else wide(s))
        if cx == 'str':
            if Y in ('CHAR', 'WCHAR') and unit_bits(X) == ty(Y).bits: return ret(wrap(libi('first', (x,), 0, (1 << t.bits)-1), t.bits, False))
            if X == 'WSTRING' and Y in ('LINT', 'DINT', 'LREAL', 'REAL'):
                p = narrow(x); r = ret(F('STRING_TO_' + Y, Y, p))
                if Y == 'DINT': r += ret(conv(F('STRING_TO_LINT', 'LINT', p), ty('LINT'), DINT))
                return r
        return None
    b, *sfx = U.split('__'); T_ = sfx[0] if sfx else None
    def one(f): return ret(f(*v))
    if b == 'EXPT' and len(sfx) == 2 and sfx[1] in INT_: return ret(F(f'EXPT__{sfx[0]}__DINT', sfx[0], v[0], conv(v[1], ins[1][1], DINT)))
    if b == 'TRUNC': return ret(toint(v[0], ins[0][1].bits, ty('LINT')))
    if b == 'ABS':
        x, t = ins[0]
        if t.kind == 'int': return ret(wrap(ite(lt(x, ZERO), mulc(x, -1), x), t.bits, t.signed))
        w = t.bits
        a = [ite(ops.f_lt(x, ZERO, w), ops.f_neg(x, w), x), ops.f_abs(x, w)]
        if w == 32: y = cvt(x, 32, 64); a += [ops.f_cvt(ite(ops.f_lt(y, ZERO, 64), ops.f_neg(y, 64), y), 64, 32)]
        return [(z, {}) for z in a]
    if b in ('ADD', 'SUB') and len(sfx) == 2 or re.fullmatch(r'(ADD|SUB)(_L[A-Z]+)+', U): return ret(F({'ADD': 'ADD_TIME', 'SUB': 'SUB_TIME'}[U[:3]], 'TIME', *v))
    dt = lambda d, t_: F('CONCAT_DATE_TOD', 'DT', d, t_)
    if b == 'CONCAT_LTOD': return ret(F('CONCAT_TOD', 'TOD', *v))
    if b == 'CONCAT_DATE_LTOD': return ret(dt(*v))
    if b in ('CONCAT_DT', 'CONCAT_LDT') and T_: return ret(dt(F('CONCAT_DATE', 'DATE', *v[:3]), F('CONCAT_TOD', 'TOD', *v[3:])))
    if b in ('SPLIT_LTOD', 'SPLIT_LDT') and T_:
        sym = {'SPLIT_LTOD': 'SPLIT_TOD', 'SPLIT_LDT': 'SPLIT_DT'}[b] + '__' + T_
        outs = ins[1:]
        r, o = library(sym, {}, v[:1], ty('INT'), [(None, '', t) for _, t in outs])
        return [(r, o)]
    if b in ('LEFT', 'RIGHT', 'MID', 'INSERT', 'DELETE', 'REPLACE') and T_: return ret(out1(f'{b}_EXT__{T_}', *v))
    q = re.fullmatch(r'W?STRING_(GREATER|EQUAL|LESS)', U)
    if q: return ret(library({'GREATER': 'GT', 'EQUAL': 'EQ', 'LESS': 'LT'}[q[1]], {}, v, BOOL, [])[0])
    return None
FROZEN = None
def api():
    """the functions and their parameters at the time this check was written: {name: dict}"""
    global FROZEN
    if FROZEN is None: FROZEN = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'st_api.json')))
    return FROZEN
import json
def shape(t):
    if t is None: return None
    if t[0] == 'STR': return [t[1], const(t[2])]
    if t[0] == 'T': return [t[1]]
    return [t[0]]
def tclass(t):
    """what of a declared type matters to callers"""
    if t is None: return None
    n = t[0]
    if n in ('STRING', 'WSTRING'): return n
    s = scalar_of(n); return s or n
def describe_api(p): return dict(kind=p.kind, external=p.external, generics=p.generics, ret=shape(p.ret), params=[[v.name, v.kind, v.ref, v.variadic, shape(v.ty)] for v in p.params()])
def rel(p): return os.path.relpath(p.file, os.path.dirname(ROOT)) + f':{p.line}'
def decl(name, kind='FUNCTION'):
    """the declaration, or (None, Res) when it is missing or could not be read"""
    p = [q for q in src()[0] if q.name.upper() == name.upper() and q.kind == kind]
    if p: return p[0], None
    if src()[2]: return None, Res(sym=name, status='UNDECIDED', why='; '.join(src()[2]), loc=ROOT, cells=0, fns=[], steps=0, calls=0)
    return None, Res(sym=name, status='VIOLATION', msg=f'{name} is not declared in the Structured Text files any more', loc=ROOT, witness={}, cells=0, fns=[], steps=0, calls=0)
def interface(name, p):
    """None or why callers of the documented interface are no longer served"""
    f = api()[name]; ps = p.params()
    if [tclass(x[4]) for x in f['params']] != [tclass(shape(v.ty)) for v in ps]: return 'takes ' + ', '.join(f'{v.name}: {shape(v.ty)[0]}' for v in ps) + ', documented are ' + ', '.join(f'{x[0]}: {x[4][0]}' for x in f['params'])
    if [x[1] for x in f['params']] != [v.kind for v in ps]: return 'has parameters of another direction'
    old, new = [x[0].upper() for x in f['params']], [v.name.upper() for v in ps]
    if old != new and sorted(old) == sorted(new): return 'takes ' + ', '.join(new) + ', documented are ' + ', '.join(old)
    if tclass(f['ret']) != tclass(shape(p.ret)): return f'returns {shape(p.ret)}, documented is {f["ret"]}'
    if f['ret'] and len(f['ret']) == 2 and shape(p.ret)[1] < f['ret'][1]: return f'returns a text of at most {shape(p.ret)[1]} characters, documented are {f["ret"][1]}'
    return None
def body(P, name):
    p, r = decl(name)
    if r: return r
    base = Res(sym=name, status='PROVED', cells=0, fns=[name], steps=len(p.body), calls=0, loc=rel(p), cases=1)
    bad = lambda m, **k: Res(base, status='VIOLATION', msg=f'{name} ({rel(p)}) {m}', fn=name, witness=k or {'declaration': rel(p)})
    i = interface(name, p)
    if i: return bad(i)
    if not p.body:
        if p.external: return base if name in P.exports else bad('is declared external, the library has no such symbol')
        return bad('has no body')
    try:
        ins = []
        for v in p.params():
            t = mkty(v.ty)
            if v.kind == 'VAR_OUTPUT': ins.append((FALSE if t.kind == 'bool' else ZERO, t))
            else: ins.append((bvar(v.name) if t.kind == 'bool' else var(v.name, *t.rng()), t))
        s = ST(); got, outs = s.run(p, [x for x, _ in ins])
        want = specs_of(name, ins)
        base['fns'] = sorted(s.used); base['calls'] = len(s.used)-1
        if want is None: return Res(base, status='UNDECIDED', why='no specification')
        on = [v.name.upper() for v in p.params() if v.kind != 'VAR_INPUT']
        first = None
        for w, wo in want:
            todo = [('result', got, w)] + [(n, outs[n], x) for n, x in zip(on, wo)]
            d = None
            for l, g, x in todo:
                if g.s != x.s: g, x = (b2i(g) if g.s == 'b' else g), (b2i(x) if x.s == 'b' else x)
                e = Eq(budget=5000)
                try: ok = e.run([g], [x], Ctx())
                except Budget: ok = None
                base['cells'] += e.cells
                if not ok: d = (l, g, x, ok); break
            if d is None: return base
            first = first or d
        if len(want) > 1:
            # several accepted values: a witness must differ from all
            def pred(env): return all(any(ev(g2, env, {}) != ev(x2, env, {}) for g2, x2 in [(got, w)]) for w, wo in want)
            env = find_valuation(pred, [got] + [w for w, _ in want], tries=2000)
        else:
            l, g, x, ok = first
            env = find_valuation(lambda env: ev(g, env, {}) != ev(x, env, {}), [g, x], tries=2000)
        l, g, x, ok = first
        if env is None: return Res(base, status='UNDECIDED', why=f'{l} not decided: {show(g)[:200]} against {show(x)[:200]}')
        return bad(f'computes {plain(g)} as its {l}, prescribed is {plain(x)}', **{k: str(v) for k, v in env.items()})
    except OverRead as x: return bad(str(x))
    except Unsup as x: return Res(base, status='UNDECIDED', why=str(x))
def plain(t): return re.sub(r':-?\d+:\d+\b', '', show(t))[:200].replace('lib:', '')
@prop('C38', 370)
def c38(tier):
    return [(n, body, dict(name=n, _once=True)) for n, f in api().items() if f['kind'] == 'FUNCTION' and not f['external'] and not f['generics']]

# ------------------------------------------------------------------------------------ C36
import itertools
EXPAND = {'EXPT': ['REAL__DINT', 'REAL__REAL', 'REAL__LREAL', 'LREAL__DINT', 'LREAL__REAL', 'LREAL__LREAL'],
 'CONCAT_DATE': ['INT', 'UINT', 'DINT', 'UDINT', 'LINT', 'ULINT'], 'CONCAT_TOD': list(INTS), 'MUL': ['TIME__' + n for n in list(INTS) + list(FL)], 'DIV': ['TIME__' + n for n in list(INTS) + list(FL)]}
for _n in ('MUL_TIME', 'MUL_LTIME', 'DIV_TIME', 'DIV_LTIME'): EXPAND[_n] = list(INTS) + list(FL)
for _n in ('TO_BIG', 'TO_LITTLE', 'FROM_BIG', 'FROM_LITTLE'): EXPAND[_n + '_ENDIAN'] = list(ENDI)
def instances(name, generics):
    """type arguments a generic declaration is expanded with"""
    if name in EXPAND: return EXPAND[name]
    if len(generics) == 1: return NATURE.get(generics[0][1], [])
    return []
def external(P, name, inst=None):
    """one symbol of an external (or library-provided generic) declaration"""
    p, r = decl(name)
    if r: return r
    base = Res(sym=name, status='PROVED', cells=1, fns=[name], steps=0, calls=0, loc=rel(p), cases=1)
    if name in api():
        i = interface(name, p)
        if i: return Res(base, status='VIOLATION', msg=f'{name} ({rel(p)}) {i}', fn=name, witness={'declaration': rel(p)})
    sym = name + ('__' + inst if inst else '')
    own = [q for q in src()[0] if q.name == sym and q is not p]
    if own and own[0].body and not own[0].external and sym not in P.exports: return base      # implemented in ST: C38
    if not p.external and not p.generics and p.body: return base                                # now implemented in ST
    if not p.external and not p.generics: return Res(base, status='VIOLATION', msg=f'{name} ({rel(p)}) is neither external nor has it a body', fn=name, witness={'declaration': rel(p)})
    return cmp_sig(P, sym, p, dict(zip([g for g, _ in p.generics], inst.split('__'))) if inst else {})
def block_sig(P, name):
    p, r = decl(name, 'FUNCTION_BLOCK')
    if r: return r
    base = Res(sym=name, status='PROVED', cells=1, fns=[name], steps=0, calls=0, loc=rel(p), cases=1)
    bad = lambda m: Res(base, status='VIOLATION', msg=m, fn=name, witness={'declaration': rel(p)})
    if not p.external: return bad(f'{name} is not declared external') if not p.body else base
    e = P.exports.get(name)
    if e is None: return bad(f'{name} is declared external at {rel(p)}, the library has no such symbol')
    if e['conv'] != 'C': return bad(f'{name} uses the {e["conv"]} calling convention')
    a = [abi(P, i) for i in e['inputs']]
    if len(a) != 1 or a[0][0] != 'ptr': return bad(f'{name} does not take the address of an instance')
    if abi(P, e['output']) != ('unit',): return bad(f'{name} returns {P.ty(e["output"])["s"]}, a function block call returns nothing')
    return base
def ffi(P):
    """all exports: calling convention and types"""
    base = Res(sym='exports', status='PROVED', cells=len(P.exports), fns=sorted(P.exports), steps=0, calls=0, loc='/repo/src', cases=len(P.exports))
    for s, e in sorted(P.exports.items()):
        if e['conv'] != 'C': return Res(base, status='VIOLATION', msg=f'{s} uses the {e["conv"]} calling convention', fn=s, loc=P.where(e['sp']), witness={'export': s})
        for i in list(e['inputs']) + [e['output']]:
            a = abi(P, i)
            if a[0] == 'unsafe':
                t = P.ty(i)
                if t['k'] == 'adt' and t.get('repr_c'): continue
                return Res(base, status='VIOLATION', msg=f'{s} passes {t["s"]}, which has no defined layout in C', fn=s, loc=P.where(e['sp']), witness={'export': s})
            if a[0] == 'ptr' and a[1] is not None:
                t = P.ty(a[1])
                if t['k'] == 'adt' and t['adt'] == 'struct' and not t.get('repr_c') and len([1 for f in t['variants'][0]['fields'] if P.ty(f[1])['layout']['size']]) > 1:
                    return Res(base, status='VIOLATION', msg=f'{s} takes the address of a {t["s"]}, whose layout is not the one of C', fn=s, loc=P.where(e['sp']), witness={'export': s})
    return base
def roles(P, sym, tasks):
    """the library gives its arguments the roles of the documented order: no exchange of two arguments of one
    kind would turn it into the documented function where it is not already"""
    if sym not in P.exports: return Res(sym=sym, status='PROVED', cells=0, fns=[], steps=0, calls=0, note='missing: reported with its declaration')
    def go():
        worst = 'PROVED'; last = None
        for f, kw in tasks:
            r = f(P, **kw)
            if r['status'] == 'VIOLATION': return r
            if r['status'] != 'PROVED': worst = 'UNDECIDED'; last = r
            last = last or r
        return last if worst == 'PROVED' else Res(last, status='UNDECIDED')
    PERM.pop(sym, None)
    r = go()
    if r['status'] != 'VIOLATION': return r
    a = [describe(x) + str(leaf(P, x[1]) if x[0] == 'ptr' else '') for x in (abi(P, i) for i in P.exports[sym]['inputs'])]
    n = len(a)
    sw = [p for p in itertools.permutations(range(n)) if p != tuple(range(n)) and all(a[i] == a[j] for i, j in enumerate(p))] if n < 6 else \
         [tuple(j if k == i else i if k == j else k for k in range(n)) for i in range(n) for j in range(i) if a[i] == a[j]]
    try:
        for p in sw:
            PERM[sym] = p
            q = go()
            if q['status'] == 'PROVED': return Res(r, msg=f'{sym} takes its arguments in the order {[i+1 for i in p]} of the declared ones', witness={'order': [i+1 for i in p]})
    finally: PERM.pop(sym, None)
    return Res(r, status='PROVED', why='behaves differently, but not by another order of its arguments')
def role_tasks():
    """exported functions with several arguments of one kind, and obligations that tell these apart"""
    src_ = {'C01': r'(ATAN2|EXPT)__.*', 'C03': r'SH[LR]__DWORD', 'C04': r'RO[LR]__DWORD', 'C06': r'LIMIT__.*', 'C17': r'DIV_.*|SUB_.*', 'C18': r'DIV_.*', 'C19': r'CONCAT_.*', 'C20': r'SPLIT_.*',
        'C23': r'FIND__\w+\[12\|2\]', 'C24': r'(LEFT|RIGHT|MID)_EXT__\w+\[14\]', 'C25': r'(DELETE_EXT__\w+\[14\]|(INSERT|REPLACE)_EXT__\w+\[12\|1\])', 'C26': r'CONCAT(_EXT)?__\w+\[1\|2\]x2', 'C32': r'STRING_TO_WSTRING_EXT\[12\]|WSTRING_TO_STRING_EXT\[12\]'}
    g = {}
    for pid, pat in src_.items():
        for n, f, kw in TASKS[pid][0]('quick'):
            kw = dict(kw)
            if kw.pop('_once', None): continue
            if re.fullmatch(pat, n) and kw.get('sym'): g.setdefault(kw['sym'], []).append((f, kw))
    return g
@prop('C36', 330)
def c36(tier):
    import strings, blocks
    r = [('all exports', ffi, dict(_once=True))]
    seen = set()
    decls = [(n, f['kind'], f['external'], f['generics']) for n, f in api().items()] + [(p.name, p.kind, p.external, p.generics) for p in src()[0] if p.external and p.name not in api()]
    have = {n for n, *_ in decls}
    for n, kind, ext, gen in decls:
        if kind == 'FUNCTION_BLOCK': r.append((n, block_sig, dict(name=n, _once=True))); continue
        if not ext and n not in EXPAND: continue
        if gen:
            for i in instances(n, gen):
                if f'{n}__{i}' not in have: r.append((f'{n}<{i}>', external, dict(name=n, inst=i, _once=True)))
        else: r.append((n, external, dict(name=n, _once=True)))
    for s, t in role_tasks().items(): r.append((f'order of the arguments of {s}', roles, dict(sym=s, tasks=t, _once=True)))
    return r
# ------------------------------------------------------------------------------------ C37
def st_layout(p):
    """C layout of an instance: [(variable, offset, size, scalar or None)], size of the instance"""
    off = 0; r = []; al = 1
    for kind in (('VAR_INPUT', 'VAR_OUTPUT', 'VAR_IN_OUT', 'VAR'),):
        for v in p.vars:
            if v.kind not in kind: continue
            n, a, s = st_size(v)
            off = (off + a - 1) // a * a; al = max(al, a)
            r.append((v, off, n, s)); off += n
    return r, (off + al - 1) // al * al
def st_size(v):
    t = v.ty
    if v.kind == 'VAR_IN_OUT' or v.ref: return 8, 8, ('ptr',)
    return ty_size(t)
def ty_size(t):
    if t[0] == 'STR': u = unit_bits(t[1]) // 8; return (const(t[2]) + 1) * u, u, None
    if t[0] == 'PTR': return 8, 8, ('ptr',)
    if t[0] == 'ARR':
        n, a, s = ty_size(t[3]); return n * (const(t[2]) - const(t[1]) + 1), a, None
    s = st_scalar(t)
    if s is None: raise Unsup(f'type {t[1]}')
    n = 1 if s == ('bool',) else s[1] // 8
    return n, n, s
def rust_leaves(P, ti, off=0):
    """scalars of a repr(C) structure with their offsets; opaque parts as (offset, size, None)"""
    t = P.ty(ti); a = abi(P, ti)
    if t['k'] == 'adt' and t['adt'] == 'struct' and t['layout'].get('off') is not None and (t.get('repr_c') or len(t['variants'][0]['fields']) < 2 or True):
        if t['name'].endswith(('time::Instant', 'time::Duration')): return [(off, t['layout']['size'], None, t['s'])]
        r = []
        for f, o in zip(t['variants'][0]['fields'], t['layout']['off']): r += rust_leaves(P, f[1], off + o)
        return r
    if not t['layout']['size']: return []
    return [(off, t['layout']['size'], a if a[0] in ('bool', 'int', 'float', 'ptr') else None, t['s'])]
def layout(P, name, fields, task=None):
    p, r = decl(name, 'FUNCTION_BLOCK')
    if r: return r
    base = Res(sym=name, status='PROVED', cells=1, fns=[name], steps=0, calls=0, loc=rel(p), cases=1)
    bad = lambda m, **k: Res(base, status='VIOLATION', msg=m, fn=name, witness=dict(k, declaration=rel(p)))
    e = P.exports.get(name)
    if e is None or len(e['inputs']) != 1 or abi(P, e['inputs'][0])[0] != 'ptr': return bad(f'the library has no function block {name}')
    f = api()[name]
    old, new = [x[0].upper() for x in f['params']], [v.name.upper() for v in p.params()]
    if [x[1] for x in f['params']] != [v.kind for v in p.params()]: return bad(f'{name} ({rel(p)}) has other inputs and outputs than documented')
    if old != new and sorted(old) == sorted(new): return bad(f'{name} ({rel(p)}) lays out {", ".join(new)}, documented are {", ".join(old)}')
    ti = abi(P, e['inputs'][0])[1]; t = P.ty(ti)
    if t['k'] != 'adt': return Res(base, status='UNDECIDED', why=f'{name} takes the address of {t["s"]}')
    if not t.get('repr_c'): return bad(f'{t["s"]} has no defined layout (not repr(C))')
    try: vs, size = st_layout(p)
    except Unsup as x: return Res(base, status='UNDECIDED', why=str(x))
    lv = rust_leaves(P, ti)
    base['cells'] = len(vs) + len(lv)
    if t['layout']['size'] > size: return bad(f'{name}: the library uses {t["layout"]["size"]} bytes ({t["s"]}), an instance declared at {rel(p)} has {size}', library=t['layout']['size'], instance=size)
    docs = 0
    for v, o, n, s in vs:
        if v.kind == 'VAR': continue
        c = [l for l in lv if l[0] == o]
        if not c: return bad(f'{name}: {v.name} lies at offset {o}, {t["s"]} has no field there', offset=o)
        _, m, a, ts = c[0]
        if m != n or a is not None and s is not None and not same(P, a, s): return bad(f'{name}: {v.name} at offset {o} is a {describe(s) if s else n}, the library has a {ts} there', offset=o)
    # hidden state of the library must lie in hidden variables
    docend = max(o + n for v, o, n, s in vs if v.kind != 'VAR')
    for o, n, a, ts in lv:
        hit = [v for v, vo, vn, s in vs if v.kind != 'VAR' and o < vo + vn and vo < o + n and not (o == vo and n == vn)]
        if hit: return bad(f'{name}: internal state {ts} at offset {o} overlaps {hit[0].name}', offset=o)
        if o + n > docend and not any(v.kind == 'VAR' for v, *_ in vs): return bad(f'{name}: internal state {ts} at offset {o} lies outside the declared variables', offset=o)
    # the field at each offset plays the documented role
    if task:
        fn_, kw = task
        r = fn_(P, **kw)
        base['fns'] = sorted(set(base['fns']) | set(r.get('fns') or [])); base['steps'] = r.get('steps', 0); base['cells'] += r.get('cells', 0)
        if r['status'] == 'VIOLATION':
            fl_ = kw['fields']
            for i in range(len(fl_)):
                for j in range(i):
                    if fl_[i][2] != fl_[j][2]: continue
                    g = list(fl_); a, b = g[i], g[j]; g[i], g[j] = b, a
                    try: q = fn_(P, **dict(kw, fields=g))
                    except Exception: continue
                    if q['status'] == 'PROVED': return bad(f'{name}: the library has {fl_[i][1]} where the instance has {fl_[j][1]} and the reverse')
    return base
@prop('C37', 31)
def c37(tier):
    import blocks
    task = {}
    for pid in ('C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15'):
        for n, f, kw in TASKS[pid][0]('quick'):
            if kw.get('sym') and 'fields' in kw and kw['sym'] not in task: task[kw['sym']] = (f, {k: v for k, v in kw.items() if k != '_once'})
    return [(n, layout, dict(name=n, fields=None, task=task.get(n), _once=True)) for n, f in api().items() if f['kind'] == 'FUNCTION_BLOCK']
