"""Hash-consed value-graph terms: mathematical integers in linear normal form over floor-division
atoms, booleans, IEEE floats (uninterpreted operations), texts. All constructors normalise."""
import math, struct, itertools
from fractions import Fraction

class T:
    __slots__ = ('op', 'a', 's', 'lo', 'hi', 'id', 'key')
    def __repr__(self): return show(self)

_tab = {}
_n = [0]
def mk(op, a, s, lo=None, hi=None):
    k = (op, a, s)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.a = a; t.s = s; t.lo = lo; t.hi = hi
        _n[0] += 1; t.id = _n[0]; t.key = None
        _tab[k] = t
    return t

NEG = -(1 << 400); POS = 1 << 400

# ------------------------------------------------------------------ integers
def I(n): return mk('c', int(n), 'i', int(n), int(n))
ZERO = I(0); ONE = I(1)
def var(name, lo, hi): return mk('v', (name, lo, hi), 'i', lo, hi)

def lin(t):
    """-> (const, {atom: coeff})"""
    if t.op == 'c': return t.a, ()
    if t.op == 'lin': return t.a[0], t.a[1]
    return 0, ((t, 1),)

def from_lin(c, d):
    """c: int, d: dict atom->coeff"""
    items = [(a, k) for a, k in d.items() if k]
    if not items: return I(c)
    if len(items) == 1 and items[0][1] == 1 and c == 0: return items[0][0]
    its = [(a, k) for a, k in items if a.op == 'ite']
    if its:
        byc = {}
        for a, k in its: byc.setdefault(a.a[0], []).append((a, k))
        ch = False
        d = dict(items)
        extra = []
        for cnd, g in byc.items():
            if len(g) > 1 or g[0][1] != 1:
                ch = True
                p = q = ZERO
                for a, k in g:
                    del d[a]
                    p = add(p, a.a[1], k); q = add(q, a.a[2], k)
                extra.append(ite(cnd, p, q))
        if ch:
            r = from_lin(c, d)
            for x in extra: r = add(r, x)
            return r
    items.sort(key=lambda x: x[0].id)
    key = (c, tuple(items))
    t = _tab.get(('lin', key, 'i'))
    if t is not None: return t
    lo, hi = lin_interval(c, items)
    if lo == hi and lo > NEG: return I(lo)
    return mk('lin', key, 'i', lo, hi)

def lin_interval(c, items, ctx=None):
    """interval of c + sum k*a, using mixed-radix grouping of fdiv atoms of the same dividend"""
    lo = hi = c
    groups = {}
    fd = [(a, k) for a, k in items if a.op == 'fdiv']
    if len(fd) > 1:
        # floor(z/m) and floor((z+s*m)/(r*m)) with coefficients k and -r*k: a remainder shifted by s
        for a, k in fd:
            for b, q in fd:
                m = a.a[1]
                if q % k or b.a[1] != -q//k*m or b.a[1] <= m or a.a[0] is b.a[0]: continue
                s = sub(b.a[0], a.a[0])
                if s.op != 'c' or s.a % m: continue
                s = s.a // m; r = -q//k
                x, y = k*(-s), k*(r-1-s)
                l2, h2 = lin_interval(c + 0, [z for z in items if z[0] is not a and z[0] is not b], ctx)
                return max(l2 + min(x, y), NEG), min(h2 + max(x, y), POS)
    for a, k in items:
        if a.op == 'fdiv': groups.setdefault(a.a[0], []).append((a.a[1], a, k))
    rest = []
    # an item a (not fdiv) that is itself the dividend of a group is digit position 1
    for a, k in items:
        if a.op == 'fdiv': continue
        if a in groups: groups[a].append((1, a, k))
        else: rest.append((a, k))
    # multi-atom dividends: leave as they are (their fdiv atoms are bounded on their own)
    for x, g in groups.items():
        g.sort(key=lambda z: z[0])
        i = 0
        carry = {}
        ok = True
        cur = [list(z) for z in g]
        if any(cur[j+1][0] % cur[j][0] for j in range(len(cur)-1)):
            for K, a, k in g:
                l, h = iv(a, ctx)
                lo += min(k*l, k*h); hi += max(k*l, k*h)
            continue
        for j in range(len(cur)-1):
            K, a, k = cur[j]
            if k == 0: continue
            r = cur[j+1][0] // K
            l, h = iv(a, ctx)
            nk = cur[j+1][2]
            # k*a + nk*b where b=floor(a/r): k*(a - r*b) + (nk + k*r)*b ; only worth it if signs differ
            if k * nk < 0:
                dl, dh = 0, r-1
                lb, hb = iv(cur[j+1][1], ctx)
                if lb == hb:
                    dl = max(dl, l - r*lb); dh = min(dh, h - r*lb)
                lo += min(k*dl, k*dh); hi += max(k*dl, k*dh)
                cur[j+1][2] = nk + k*r
            else:
                lo += min(k*l, k*h); hi += max(k*l, k*h)
        K, a, k = cur[-1]
        if k:
            l, h = iv(a, ctx)
            lo += min(k*l, k*h); hi += max(k*l, k*h)
    for a, k in rest:
        l, h = iv(a, ctx)
        lo += min(k*l, k*h); hi += max(k*l, k*h)
    return max(lo, NEG), min(hi, POS)

def iv(t, ctx=None):
    if ctx is None: return t.lo, t.hi
    return ctx.interval(t)

def add(a, b, k=1):
    """a + k*b"""
    ca, da = lin(a); cb, db = lin(b)
    if not da and not db: return I(ca + k*cb)
    d = dict(da)
    for x, c in db: d[x] = d.get(x, 0) + k*c
    return from_lin(ca + k*cb, d)
def sub(a, b): return add(a, b, -1)
def mulc(a, k):
    if k == 1: return a
    c, d = lin(a)
    return from_lin(c*k, {x: y*k for x, y in d})
def mul(a, b):
    if a.op == 'c': return mulc(b, a.a)
    if b.op == 'c': return mulc(a, b.a)
    ca, da = lin(a); cb, db = lin(b)
    if len(da)*len(db) <= 16:
        c = ca*cb; d = {}
        for x, k in da: d[x] = d.get(x, 0) + k*cb
        for y, k in db: d[y] = d.get(y, 0) + k*ca
        for x, k in da:
            for y, m in db:
                p = _prod(x, y); d[p] = d.get(p, 0) + k*m
        return from_lin(c, d)
    return _prod(a, b)
def _prod(x, y):
    if y.id < x.id: x, y = y, x
    v = [x.lo*y.lo, x.lo*y.hi, x.hi*y.lo, x.hi*y.hi]
    lo = min(v)
    if x is y: lo = max(lo, 0)
    return mk('mul', (x, y), 'i', lo, max(v))

def is_digit(a): return a.op == 'v' and a.a[0].startswith('dg.')
def fdiv(x, k):
    """floor(x / k), k a positive constant"""
    assert k > 0
    if k == 1: return x
    c, d = lin(x)
    if not d: return I(c // k)
    if len(d) > 1:
        # mixed-radix digit basis: digits whose weight is divisible by k move out exactly
        dg = digit_basis(dict(d))
        if dg is not None:
            outd = ZERO
            lo3 = hi3 = c
            for w, dterm, dl, dh in dg:
                if w % k == 0: outd = add(outd, dterm, w // k)
                else:
                    w2 = w % k if w > 0 else w
                    if w2 != w: outd = add(outd, dterm, w // k)
                    lo3 += min(w2*dl, w2*dh); hi3 += max(w2*dl, w2*dh)
            if lo3 // k == hi3 // k: return add(outd, I(lo3 // k))
    out = {}; rest = {}
    for a, q in d:
        qq, r = divmod(q, k)
        if q < 0 and r: # keep the sign of the remaining coefficient as it is unless divisible
            qq, r = 0, q
        elif q > 0 and r: qq, r = 0, q
        if qq: out[a] = qq
        if r: rest[a] = r
    co, cr = divmod(c, k)
    if rest:
        r = from_lin(cr, rest)
        lo, hi = r.lo, r.hi
        if lo // k == hi // k: return from_lin(co + lo // k, out)
        # nearest residues: sometimes the rest then stays within one quotient
        out2 = dict(out); rest2 = {}
        for a, q in rest.items():
            qq = (q + k // 2) // k
            if qq: out2[a] = out2.get(a, 0) + qq
            if q - qq*k: rest2[a] = q - qq*k
        if rest2 != rest:
            r2 = from_lin(cr, rest2)
            if r2.lo // k == r2.hi // k: return from_lin(co + r2.lo // k, out2)
        # ite distribution: floor((ite(c,a,b)+..)/k)
        cr2, dr = lin(r)
        g = 0
        for _, q in dr: g = math.gcd(g, q)
        g2 = math.gcd(g, k)
        if g2 > 1:
            r = from_lin(cr2 // g2, {a: q // g2 for a, q in dr})
            k = k // g2
            return add(from_lin(co, out), fdiv(r, k))
        if len(dr) == 1 and dr[0][1] == 1:
            a = dr[0][0]
            if a.op == 'fdiv':
                z, m = a.a
                return add(from_lin(co, out), fdiv(add(z, I(cr2*m)), m*k))
            if a.op == 'ite':
                p = fdiv(add(a.a[1], I(cr2)), k); q = fdiv(add(a.a[2], I(cr2)), k)
                return add(from_lin(co, out), ite(a.a[0], p, q))
        # several atoms, one of them an ite with simple branches: distribute (bounded)
        for a, q in dr:
            if a.op == 'ite' and len(dr) <= 3:
                d0 = {b: w for b, w in dr if b is not a}
                base = from_lin(cr2, d0)
                p = fdiv(add(base, a.a[1], q), k); w = fdiv(add(base, a.a[2], q), k)
                return add(from_lin(co, out), ite(a.a[0], p, w))
        if r.hi // k - r.lo // k == 1 and any(is_digit(a) for a, _ in dr):
            return add(from_lin(co + r.lo // k, out), b2i(le(I((r.hi // k)*k), r)))
        at = mk('fdiv', (r, k), 'i', r.lo // k, r.hi // k)
        out[at] = out.get(at, 0) + 1
    return from_lin(co, out)
def digit_basis(d):
    """{atom: coeff} -> [(weight, digit term, lo, hi)] if some atoms form a divisor chain, else None"""
    groups = {}
    for a, k in d.items():
        if a.op == 'fdiv': groups.setdefault(a.a[0], {})[a.a[1]] = k
    res = []; used = set(); any_ = False
    for x, g in groups.items():
        base = None
        if x.op != 'lin':
            if x in d: base = x; g[1] = d[x]
        else:
            cx, dx = lin(x)
            if cx == 0 and len(dx) == 1 and dx[0][0] in d and d[dx[0][0]] % dx[0][1] == 0: base = dx[0][0]; g[1] = d[base] // dx[0][1]
        ks = sorted(g)
        if len(ks) < 2 or any(ks[i+1] % ks[i] for i in range(len(ks)-1)): continue
        any_ = True
        w = 0
        for i, K in enumerate(ks):
            f = fdiv(x, K)
            used.add(base if K == 1 and base is not None else f)
            w = g[K] + (w*(K // ks[i-1]) if i else 0)
            if i+1 < len(ks):
                r = ks[i+1] // K
                dt = add(f, fdiv(x, ks[i+1]), -r); dl, dh = 0, r-1
            else: dt = f; dl, dh = f.lo, f.hi
            if w: res.append((w, dt, dl, dh))
    if not any_: return None
    for a, k in d.items():
        if a not in used: res.append((k, a, a.lo, a.hi))
    return res
def mod(x, k): return add(x, fdiv(x, k), -k)

def tdiv(a, b):
    if b.op == 'c':
        k = b.a
        if k < 0: return mulc(tdiv(a, I(-k)), -1)
        if a.lo >= 0: return fdiv(a, k)
        if a.hi <= 0: return mulc(fdiv(mulc(a, -1), k), -1)
        return ite(le(ZERO, a), fdiv(a, k), mulc(fdiv(mulc(a, -1), k), -1))
    return fn('tdiv', (a, b))
def trem(a, b):
    return sub(a, mul(b, tdiv(a, b))) if b.op == 'c' else fn('trem', (a, b))

def wrap(x, bits, signed):
    m = 1 << bits
    lo, hi = (-(m >> 1), (m >> 1)-1) if signed else (0, m-1)
    if x.lo >= lo and x.hi <= hi: return x
    if x.op == 'ite' and not (x.lo < lo - m or x.hi > hi + m):
        pass
    q = fdiv(add(x, I(-lo)), m)
    ql, qh = q.lo, q.hi
    if ql == qh: return add(x, I(-m*ql))
    if qh - ql == 1 and x.op != 'ite':
        # two pieces
        return ite(le(add(I(lo + m*qh), ZERO), x), add(x, I(-m*qh)), add(x, I(-m*ql)))
    return add(x, q, -m)

def ite(c, a, b):
    if c.op == 'true': return a
    if c.op == 'false': return b
    if a is b: return a
    if a.s == 'b': return or_(and_(c, a), and_(not_(c), b))
    if c.op == 'not': c, a, b = c.a[0], b, a
    if a.s == 'i':
        if a.op == 'ite' and a.a[0] is c: a = a.a[1]
        if b.op == 'ite' and b.a[0] is c: b = b.a[2]
        if a is b: return a
        ca, da = lin(a); cb, db = lin(b)
        # factor out the common linear part
        if da and db:
            common = {x: k for x, k in da if (x, k) in set(db)}
            if common:
                ra = from_lin(ca, {x: k for x, k in da if x not in common})
                rb = from_lin(cb, {x: k for x, k in db if x not in common})
                return add(from_lin(0, common), ite(c, ra, rb))
        cb = lin(b)[0]
        if cb:
            return add(ite(c, add(a, I(-cb)), add(b, I(-cb))), I(cb))
        return mk('ite', (c, a, b), 'i', min(a.lo, b.lo), max(a.hi, b.hi))
    if a.op == 'ite' and a.a[0] is c: a = a.a[1]
    if b.op == 'ite' and b.a[0] is c: b = b.a[2]
    if a is b: return a
    return mk('ite', (c, a, b), a.s)

# ------------------------------------------------------------------ booleans
TRUE = mk('true', (), 'b'); FALSE = mk('false', (), 'b')
def B(x): return TRUE if x else FALSE
def bvar(name): return mk('bv', (name,), 'b')
def not_(x):
    if x is TRUE: return FALSE
    if x is FALSE: return TRUE
    if x.op == 'not': return x.a[0]
    return mk('not', (x,), 'b')
def _flat(op, xs):
    r = []
    for x in xs:
        if x.op == op: r.extend(x.a)
        else: r.append(x)
    return r
def and_(*xs):
    s = {}
    for x in _flat('and', xs):
        if x is FALSE: return FALSE
        if x is TRUE: continue
        s[x] = 1
    for x in s:
        if not_(x) in s: return FALSE
    # absorption: x and (x or y) = x ; x and (not x or y) = x and y
    if len(s) > 1:
        ch = False
        for x in list(s):
            if x.op == 'or':
                if any(y in s for y in x.a): del s[x]; continue
                n = [y for y in x.a if not_(y) not in s]
                if len(n) != len(x.a):
                    del s[x]; s[or_(*n)] = 1; ch = True
        if ch: return and_(*s)
    if not s: return TRUE
    l = sorted(s, key=lambda t: t.id)
    if len(l) == 1: return l[0]
    return mk('and', tuple(l), 'b')
def or_(*xs):
    s = {}
    for x in _flat('or', xs):
        if x is TRUE: return TRUE
        if x is FALSE: continue
        s[x] = 1
    for x in s:
        if not_(x) in s: return TRUE
    if len(s) > 1:
        ch = False
        for x in list(s):
            if x.op == 'and':
                if any(y in s for y in x.a): del s[x]; continue
                n = [y for y in x.a if not_(y) not in s]
                if len(n) != len(x.a):
                    del s[x]; s[and_(*n)] = 1; ch = True
        if ch: return or_(*s)
        # (x and y) or (x and not y) = x
        l = [x for x in s if x.op == 'and']
        for i in range(len(l)):
            for j in range(i+1, len(l)):
                A = set(l[i].a); Bs = set(l[j].a)
                if len(A) == len(Bs):
                    da = A - Bs; db = Bs - A
                    if len(da) == 1 and len(db) == 1 and not_(next(iter(da))) is next(iter(db)):
                        r = [x for x in s if x is not l[i] and x is not l[j]]
                        return or_(and_(*(A & Bs)), *r)
    if not s: return FALSE
    l = sorted(s, key=lambda t: t.id)
    if len(l) == 1: return l[0]
    return mk('or', tuple(l), 'b')

def _pushite(t, f, depth=3):
    """apply f to t, distributing over a single-level ite atom inside the linear form"""
    c, d = lin(t)
    for a, k in d:
        if a.op == 'ite' and depth:
            base = from_lin(c, {x: q for x, q in d if x is not a})
            p = _pushite(add(base, a.a[1], k), f, depth-1)
            q = _pushite(add(base, a.a[2], k), f, depth-1)
            return or_(and_(a.a[0], p), and_(not_(a.a[0]), q))
    return f(t)

def le0(e):
    if e.hi <= 0: return TRUE
    if e.lo > 0: return FALSE
    return _pushite(e, _le0)
def _le0(e):
    if e.hi <= 0: return TRUE
    if e.lo > 0: return FALSE
    c, d = lin(e)
    g = 0
    for _, k in d: g = math.gcd(g, k)
    if g > 1:
        c = -((-c) // g); d = tuple((a, k // g) for a, k in d)
    if len(d) == 1 and d[0][0].op == 'fdiv' and abs(d[0][1]) == 1:
        a, k = d[0]; z, m = a.a
        if k == 1: # floor(z/m) <= -c  <=> z < m*(1-c)
            return le0(add(z, I(-m*(1-c)+1)))
        # -floor(z/m) + c <= 0 <=> floor(z/m) >= c <=> z >= m*c
        return le0(add(I(m*c), z, -1))
    if len(d) > 1 and all(is_digit(a) for a, _ in d):
        # c + K*A + rest <= 0  <=>  A <= ⌊(-c-rest)/K⌋ where that quotient is the same for every rest
        for K in sorted({abs(k) for _, k in d})[1:]:
            rest = [(a, k) for a, k in d if k % K]
            if not rest: continue
            lo = sum(min(k*a.lo, k*a.hi) for a, k in rest); hi = sum(max(k*a.lo, k*a.hi) for a, k in rest)
            if (-c-lo) // K == (-c-hi) // K: return le0(from_lin(-((-c-lo) // K), {a: k // K for a, k in d if k % K == 0}))
    r = _digit0(d)
    if r:
        z, m, k, S = r
        if k == 1: return le0(add(add(z, S, m), I(-m*(1-c)+1)))
        return le0(add(I(m*c), add(z, S, -m), -1))      # S carries the sign of e's other terms: ⌊z/m⌋ >= c + S
    # canonical sign: first atom positive
    if d[0][1] < 0:
        n = from_lin(1-c, {a: -k for a, k in d})
        return not_(mk('le0', (n,), 'b'))
    return mk('le0', (from_lin(c, dict(d)),), 'b')
def _digit0(d):
    """d = ±⌊z/m⌋ + S with S over ⌊z/mi⌋, m | mi  ->  (z, m, ±1, S): the digit moves into the numerator"""
    if len(d) < 2 or any(a.op != 'fdiv' for a, _ in d): return None
    a, k = min(d, key=lambda x: x[0].a[1]); z, m = a.a
    if abs(k) != 1 or any(b.a[0] is not z or b.a[1] % m for b, _ in d): return None
    return z, m, k, from_lin(0, {b: q for b, q in d if b is not a})
def le(a, b): return le0(sub(a, b))
def lt(a, b): return le0(add(sub(a, b), ONE))
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)
def eq(a, b):
    if a is b: return TRUE
    if a.s == 'b': return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.s != 'i': return teq(a, b)
    return eq0(sub(a, b))
def teq(a, b):
    if is_const(a) and is_const(b): return B(a is b)
    return fn('teq', (a, b), 'b')
def eq0(e):
    if e.op == 'c': return B(e.a == 0)
    if e.lo > 0 or e.hi < 0: return FALSE
    return _pushite(e, _eq0)
def _eq0(e):
    if e.op == 'c': return B(e.a == 0)
    if e.lo > 0 or e.hi < 0: return FALSE
    c, d = lin(e)
    g = 0
    for _, k in d: g = math.gcd(g, k)
    if c % g: return FALSE
    if g > 1: c //= g; d = tuple((a, k // g) for a, k in d)
    if d[0][1] < 0: c = -c; d = tuple((a, -k) for a, k in d)
    e = from_lin(c, dict(d))
    # at an interval end an equality is an inequality
    if e.lo == 0: return _le0(e)
    if e.hi == 0: return _le0(mulc(e, -1))
    if len(d) == 1 and d[0][0].op == 'fdiv':
        z, m = d[0][0].a; v = -c
        return and_(le0(add(I(m*v), z, -1)), le0(add(z, I(-m*(v+1)+1))))
    return mk('eq0', (e,), 'b')
def ne(a, b): return not_(eq(a, b))
def b2i(b): return ite(b, ONE, ZERO)

# ------------------------------------------------------------------ uninterpreted (evaluable) functions
FN = {}     # name -> (eval, interval fn or None)
def fn(name, args, s='i', lo=None, hi=None):
    args = tuple(args)
    f = FN.get(name.split(':')[0])
    if f and f[0] and all(isinstance(x, T) and is_const(x) for x in args):
        v = f[0](name, [const_val(x) for x in args], s)
        if v is not None: return from_val(v, s)
    if s == 'i' and lo is None:
        r = f[1](name, args) if f and f[1] else None
        lo, hi = r if r else (NEG, POS)
    t = mk('fn', (name, args), s, lo, hi)
    return t
def is_const(t): return t.op in ('c', 'true', 'false', 'lit')
def const_val(t):
    if t.op == 'c': return t.a
    if t.op == 'true': return True
    if t.op == 'false': return False
    if t.op == 'lit': return t.a
def from_val(v, s):
    if s == 'i': return I(v)
    if s == 'b': return B(v)
    if s == 't': return lit(v)
    raise ValueError(s)

# floats are represented by their bit pattern (an integer in [0, 2^w))
def bits2f(b, w):
    return struct.unpack('<f', struct.pack('<I', b))[0] if w == 32 else struct.unpack('<d', struct.pack('<Q', b))[0]
def f2bits(x, w):
    if w == 32:
        try: return struct.unpack('<I', struct.pack('<f', x))[0]
        except OverflowError: return 0x7f800000 if x > 0 else 0xff800000
    return struct.unpack('<Q', struct.pack('<d', x))[0]
def fconst(x, w): return I(f2bits(x, w))

# texts
def lit(b): return mk('lit', bytes(b), 't')
EMPTY = lit(b'')
def cat(*xs):
    r = []
    for x in xs:
        if x.op == 'cat': r.extend(x.a)
        elif x is EMPTY: continue
        else: r.append(x)
    o = []
    for x in r:
        if x.op == 'lit' and o and o[-1].op == 'lit': o[-1] = lit(o[-1].a + x.a)
        else: o.append(x)
    if not o: return EMPTY
    if len(o) == 1: return o[0]
    return mk('cat', tuple(o), 't')
def digits(n): return len(str(abs(n))) + (1 if n < 0 else 0)
def dec(v, pad=0):
    """decimal text of an integer, zero padded to pad digits"""
    if v.op == 'c':
        n = v.a
        return lit((('-' if n < 0 else '') + str(abs(n)).rjust(pad - (1 if n < 0 else 0), '0')).encode())
    return mk('dec', (v, pad), 't')
def tlen(t):
    if t.op == 'lit': return I(len(t.a))
    if t.op == 'cat':
        r = ZERO
        for x in t.a: r = add(r, tlen(x))
        return r
    if t.op == 'ite': return ite(t.a[0], tlen(t.a[1]), tlen(t.a[2]))
    if t.op == 'dec':
        v, pad = t.a
        h = max(digits(v.lo), digits(v.hi), pad)
        l = max(pad, 1)
        if v.lo > 0: l = max(l, digits(v.lo))
        if l == h: return I(l)
        return mk('tlen', (t,), 'i', l, h)
    if t.op == 'ffmt':
        f, kind, w = t.a
        if kind.startswith('e'): return mk('tlen', (t,), 'i', 3, 40)
        return mk('tlen', (t,), 'i', 3, 400)
    return mk('tlen', (t,), 'i', 0, 1 << 31)
def ffmt(f, kind, w):
    """float text of the bit pattern f: kind '.6' (fixed, 6 decimals), 'e.6', '' or 'e'"""
    if f.op == 'c': return lit(_fmtf(bits2f(f.a, w), kind, w))
    return mk('ffmt', (f, kind, w), 't')
def _fmtf(x, kind, w=64):
    if math.isnan(x): return b'NaN'
    if math.isinf(x): return b'inf' if x > 0 else b'-inf'
    if kind.startswith('e'):
        p = kind[2:]
        if p == '':
            from decimal import Decimal
            d = Decimal(repr(x)); sg, dg, ex = d.as_tuple()
            dg = list(dg)
            while len(dg) > 1 and dg[-1] == 0: dg.pop(); ex += 1
            e = ex + len(dg) - 1
            if x == 0: dg = [0]; e = 0
            r = str(dg[0]) + ('.' + ''.join(map(str, dg[1:])) if len(dg) > 1 else '') + 'e' + str(e)
            return (('-' if math.copysign(1, x) < 0 else '') + r).encode()
        r = ('%.' + p + 'e') % x
        m, e = r.split('e')
        return (m + 'e' + str(int(e))).encode()
    if kind.startswith('.'):
        return (('%.' + kind[1:] + 'f') % x).encode()
    from decimal import Decimal
    r = format(Decimal(repr(x)), 'f')
    if r.endswith('.0') and kind == '': r = r[:-2]
    return r.encode()

# ------------------------------------------------------------------ traversal
def kids(t):
    o = t.op
    if o in ('c', 'v', 'true', 'false', 'bv', 'lit'): return ()
    if o == 'lin': return tuple(a for a, _ in t.a[1])
    if o == 'fdiv': return (t.a[0],)
    if o == 'fn': return t.a[1]
    if o in ('dec', 'ffmt'): return (t.a[0],)
    return t.a
def rebuild(t, f):
    o = t.op
    if o in ('c', 'v', 'true', 'false', 'bv', 'lit'): return t
    if o == 'lin':
        c, d = t.a
        r = I(c)
        ch = False
        for a, k in d:
            n = f(a)
            r = add(r, n, k)
        return r
    if o == 'fdiv': return fdiv(f(t.a[0]), t.a[1])
    if o == 'mul': return mul(f(t.a[0]), f(t.a[1]))
    if o == 'ite': return ite(f(t.a[0]), f(t.a[1]), f(t.a[2]))
    if o == 'not': return not_(f(t.a[0]))
    if o == 'and': return and_(*[f(x) for x in t.a])
    if o == 'or': return or_(*[f(x) for x in t.a])
    if o == 'le0': return le0(f(t.a[0]))
    if o == 'eq0': return eq0(f(t.a[0]))
    if o == 'fn':
        name, args = t.a
        n = [f(x) for x in args]
        if all(p is q for p, q in zip(n, args)): return t
        rb = REBUILD.get(name.split(':')[0])
        if rb: return rb(name, n, t)
        if t.s == 'i':
            r = fn(name, n, 'i')
            if r.op == 'fn' and (r.lo <= NEG): r = fn_with(name, n, t.lo, t.hi)
            return r
        return fn(name, n, t.s)
    if o == 'cat': return cat(*[f(x) for x in t.a])
    if o == 'dec': return dec(f(t.a[0]), t.a[1])
    if o == 'ffmt': return ffmt(f(t.a[0]), t.a[1], t.a[2])
    if o == 'tlen': return tlen(f(t.a[0]))
    raise ValueError(o)
REBUILD = {}
def fn_with(name, args, lo, hi): return mk('fn', (name, tuple(args)), 'i', lo, hi)

def walk(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        st.extend(kids(x))
    return seen

# ------------------------------------------------------------------ evaluation
class NoEval(Exception): pass
def ev(t, env, memo=None):
    memo = {} if memo is None else memo
    if t in memo: return memo[t]
    o = t.op
    if o == 'c': r = t.a
    elif o == 'v':
        if t.a[0] not in env: raise NoEval(t.a[0])
        r = env[t.a[0]]
    elif o == 'bv':
        if t.a[0] not in env: raise NoEval(t.a[0])
        r = env[t.a[0]]
    elif o == 'true': r = True
    elif o == 'false': r = False
    elif o == 'lit': r = t.a
    elif o == 'lin':
        r = t.a[0]
        for a, k in t.a[1]: r += k*ev(a, env, memo)
    elif o == 'fdiv': r = ev(t.a[0], env, memo) // t.a[1]
    elif o == 'mul': r = ev(t.a[0], env, memo) * ev(t.a[1], env, memo)
    elif o == 'ite': r = ev(t.a[1], env, memo) if ev(t.a[0], env, memo) else ev(t.a[2], env, memo)
    elif o == 'not': r = not ev(t.a[0], env, memo)
    elif o == 'and':
        r = True
        for x in t.a:
            if not ev(x, env, memo): r = False; break
    elif o == 'or':
        r = False
        for x in t.a:
            if ev(x, env, memo): r = True; break
    elif o == 'le0': r = ev(t.a[0], env, memo) <= 0
    elif o == 'eq0': r = ev(t.a[0], env, memo) == 0
    elif o == 'fn':
        f = FN.get(t.a[0].split(':')[0])
        if not f or not f[0]: raise NoEval(t.a[0])
        r = f[0](t.a[0], [ev(x, env, memo) for x in t.a[1]], t.s)
        if r is None: raise NoEval(t.a[0])
    elif o == 'cat': r = b''.join(ev(x, env, memo) for x in t.a)
    elif o == 'dec':
        n = ev(t.a[0], env, memo); p = t.a[1]
        r = (('-' if n < 0 else '') + str(abs(n)).rjust(p - (1 if n < 0 else 0), '0')).encode()
    elif o == 'ffmt': r = _fmtf(bits2f(ev(t.a[0], env, memo), t.a[2]), t.a[1], t.a[2])
    elif o == 'tlen': r = len(ev(t.a[0], env, memo))
    else: raise NoEval(o)
    memo[t] = r
    return r

def show(t, d=0):
    o = t.op
    if d > 6: return '…'
    S = lambda x: show(x, d+1)
    if o == 'c': return str(t.a)
    if o in ('v', 'bv'): return str(t.a[0])
    if o in ('true', 'false'): return o
    if o == 'lit': return repr(t.a)
    if o == 'lin':
        r = []
        for a, k in t.a[1]: r.append(('' if k == 1 else '-' if k == -1 else f'{k}*') + S(a))
        if t.a[0]: r.append(str(t.a[0]))
        return '(' + ' + '.join(r) + ')'
    if o == 'fdiv': return f'⌊{S(t.a[0])}/{t.a[1]}⌋'
    if o == 'ite': return f'({S(t.a[0])} ? {S(t.a[1])} : {S(t.a[2])})'
    if o == 'not': return '!' + S(t.a[0])
    if o in ('and', 'or'): return '(' + (' & ' if o == 'and' else ' | ').join(S(x) for x in t.a) + ')'
    if o == 'le0':
        c, dd = lin(t.a[0])
        return f'{S(from_lin(0, dict(dd)))}<={-c}'
    if o == 'eq0':
        c, dd = lin(t.a[0])
        return f'{S(from_lin(0, dict(dd)))}=={-c}'
    if o == 'fn': return f"{t.a[0]}({', '.join(S(x) for x in t.a[1])})"
    if o == 'mul': return f'{S(t.a[0])}*{S(t.a[1])}'
    if o == 'cat': return '++'.join(S(x) for x in t.a)
    if o == 'dec': return f'dec({S(t.a[0])},{t.a[1]})'
    if o == 'ffmt': return f'ffmt({S(t.a[0])},{t.a[1]})'
    return f'{o}({t.a})'
