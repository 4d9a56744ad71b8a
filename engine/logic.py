"""Assumption contexts (partition cells), simplification under a cell, graph equality by partition
refinement, and refutation by constant folding both graphs at boundary valuations."""
import itertools, random, re
from terms import *
import ops

class Ctx:
    """an immutable set of assumptions; child contexts share their parent's tables by copy"""
    __slots__ = ('facts', 'bounds', 'subs', 'dead', 'memo', 'imemo', 'log')
    def __init__(self):
        self.facts = {}; self.bounds = {}; self.subs = {}; self.dead = False; self.memo = {}; self.imemo = {}; self.log = ()
    def copy(self):
        c = Ctx(); c.facts = dict(self.facts); c.bounds = dict(self.bounds); c.subs = dict(self.subs); c.dead = self.dead; c.log = self.log
        return c
    # ---- intervals
    def interval(self, t):
        r = self.imemo.get(t)
        if r: return r
        lo, hi = t.lo, t.hi
        self.imemo[t] = (lo, hi)        # what a nested request for the same term may rely on
        if t.op == 'lin':
            c, items = t.a
            l2, h2 = lin_interval(c, items, self)
            lo, hi = max(lo, l2), min(hi, h2)
            d = direction(t)
            if d:
                prim, k, c0 = d
                b = self.bounds.get(prim)
                if b:
                    l3, h3 = sorted((k*b[0], k*b[1])); lo = max(lo, l3+c0); hi = min(hi, h3+c0)
            # one-step combination with recorded directions
            for prim, b in self.bounds.items():
                if prim.op != 'lin': continue
                pd = dict(prim.a[1])
                td = dict(items)
                sh = [a for a in pd if a in td]
                if len(sh) < 2 and not (len(sh) == 1 and len(pd) > 1 and len(td) > 1): continue
                for a in sh[:2]:
                    if td[a] % pd[a]: continue
                    k = td[a] // pd[a]
                    rest = {x: td.get(x, 0) - k*pd.get(x, 0) for x in set(td) | set(pd)}
                    rest = [(x, v) for x, v in rest.items() if v]
                    if len(rest) >= len(td): continue
                    rl, rh = lin_interval(c, rest, _Base(self))
                    if len(rest) == 2:
                        rd = direction(from_lin(c, dict(rest))); rb = self.bounds.get(rd[0]) if rd else None
                        if rb: l4, h4 = sorted((rd[1]*rb[0], rd[1]*rb[1])); rl = max(rl, l4+rd[2]); rh = min(rh, h4+rd[2])
                    kl, kh = sorted((k*b[0], k*b[1]))
                    lo = max(lo, rl+kl); hi = min(hi, rh+kh)
        else:
            b = self.bounds.get(t)
            if b: lo = max(lo, b[0]); hi = min(hi, b[1])
            if t.op == 'fdiv':
                zl, zh = self.interval(t.a[0]); k = t.a[1]
                lo = max(lo, zl // k); hi = min(hi, zh // k)
            elif t.op == 'ite':
                c = self.simp(t.a[0])
                if c is TRUE: lo, hi = self.interval(t.a[1])
                elif c is FALSE: lo, hi = self.interval(t.a[2])
                else:
                    a = self.interval(t.a[1]); b2 = self.interval(t.a[2])
                    lo = max(lo, min(a[0], b2[0])); hi = min(hi, max(a[1], b2[1]))
            elif t.op == 'fn' and t.a[0] in IVFN and t.s == 'i':
                l, h = FN[t.a[0]][1](t.a[0], [_Iv(*self.interval(x)) for x in t.a[1]])
                lo = max(lo, l); hi = min(hi, h)
            elif t.op == 'tlen' and t.a[0].op == 'ffmt':
                h = self.ffmt_len(t.a[0])
                if h is not None: hi = min(hi, h)
        self.imemo[t] = (lo, hi)
        return lo, hi
    def ffmt_len(self, t):
        f, kind, w = t.a
        mag = ops.f_mag(f, w)
        l, h = self.interval(mag)
        if kind.startswith('e.'): return int(kind[2:]) + 8 if int(kind[2:]) else 8
        if kind.startswith('.'):
            if h >= ops.inf_bits(w):
                # magnitude not bounded below infinity (NaN and inf texts are short)
                x = None
                # NaN/inf branch excluded by the bound's shape: largest finite value
                fin = bits2f(ops.inf_bits(w)-1, w)
                return len('%.0f' % fin) + 2 + int(kind[1:])
            return len('%.0f' % bits2f(h, w)) + 2 + int(kind[1:])
        return None
    # ---- assumptions
    def assume(self, cond, val=True):
        c = self.copy()
        c._assume(cond, val)
        return c
    def _assume(self, t, val):
        if self.dead: return
        if t.op == 'not': return self._assume(t.a[0], not val)
        t0 = t
        t = self.simp(t)
        if t is TRUE or t is FALSE:
            if (t is TRUE) != val: self.dead = True
            self.facts[t0] = val
            return
        if t.op == 'not': return self._assume(t.a[0], not val)
        self.memo = {}; self.imemo = {}
        self.facts[t] = val; self.facts[t0] = val
        if (t.op == 'and' and val) or (t.op == 'or' and not val):
            for x in t.a: self._assume(x, val)
            return
        if t.op == 'or' or t.op == 'and':
            return
        if t.op == 'fn':
            f = ON_FACT.get(t.a[0].split(':')[0])
            if f: f(self, t, val)
        if t.op == 'le0':
            e = t.a[0]
            if val: self._bound(e, NEG, 0)
            else: self._bound(e, 1, POS)
        elif t.op == 'eq0':
            if val:
                e = t.a[0]
                self._bound(e, 0, 0)
                self._subst(e)
            else:
                # a disequality at an interval end tightens the interval
                e = t.a[0]
                l, h = self.interval(e)
                if l == 0: self._bound(e, 1, POS)
                elif h == 0: self._bound(e, NEG, -1)
        self._reprop()
    def _reprop(self):
        for f, v in list(self.facts.items()):
            if self.dead: return
            if f.op in ('or', 'and'):
                s = self._reval(f)
                if s is TRUE or s is FALSE:
                    if (s is TRUE) != v: self.dead = True
                elif s is not f and s not in self.facts and not (s.op == 'not' and s.a[0] in self.facts):
                    self._assume(s, v)
            elif f.op == 'eq0' and not v:
                e = f.a[0]; l, h = self.interval(e)
                if l == h == 0: self.dead = True
                elif l == 0: self._bound(e, 1, POS)
                elif h == 0: self._bound(e, NEG, -1)
    def _reval(self, f):
        xs = []
        for x in f.a:
            y = x
            if x in self.facts: y = B(self.facts[x])
            elif x.op == 'not' and x.a[0] in self.facts: y = B(not self.facts[x.a[0]])
            else: y = self.simp(x)
            xs.append(y)
        return and_(*xs) if f.op == 'and' else or_(*xs)
    def _subst(self, e):
        """e = 0: replace one of its atoms by the rest"""
        c, d = lin(e)
        for a, k in d:
            if abs(k) == 1 and a not in self.subs and a.op in ('v', 'fn', 'tlen') and not any(a in walk(b) for b, _ in d if b is not a):
                rest = self.simp(from_lin(c, {x: q for x, q in d if x is not a}))
                if any(x is a for x in walk(rest)): continue
                self.subs[a] = mulc(rest, -k)
                self.memo = {}; self.imemo = {}
                for p, (l, h) in list(self.bounds.items()):      # carry over what is known about a
                    if p.op != 'lin' or self.dead: continue
                    pc, pd = lin(p)
                    if any(x is a for x, _ in pd):
                        pd = dict(pd); q = pd.pop(a)
                        self._bound(add(from_lin(pc, pd), mulc(self.subs[a], q)), l, h, 1)
                break
        self.memo = {}; self.imemo = {}
    def _bound(self, e, lo, hi, depth=0):
        d = direction(e)
        if d is None: return
        prim, k, c0 = d
        # e = k*prim + c0 in [lo,hi]
        lo -= c0; hi -= c0
        if k > 0: pl, ph = (-(-lo // k) if lo > NEG//2 else NEG), (hi // k if hi < POS//2 else POS)
        else: pl, ph = (-(-hi // k) if hi < POS//2 else NEG), (lo // k if lo > NEG//2 else POS)
        o = self.bounds.get(prim, (NEG, POS))
        cur = self.interval(prim)
        n = (max(o[0], pl), min(o[1], ph))
        if n == o: return
        self.bounds[prim] = n
        self.imemo = {}; self.memo = {}
        l, h = max(cur[0], n[0]), min(cur[1], n[1])
        if l > h: self.dead = True; return
        if depth > 6: return
        if prim.op == 'lin' and n[0] == n[1]: self._subst(lin_shift(prim, -n[0]))
        if prim.op == 'fdiv':
            z, m = prim.a
            self._bound(z, l*m, h*m + m-1, depth+1)
        elif prim.op == 'lin':
            cc, items = prim.a
            if len(items) <= 6:
                for a, k in items:
                    rest = [(x, q) for x, q in items if x is not a]
                    rl, rh = lin_interval(cc, rest, self)
                    # k*a in [l-rh, h-rl]
                    al, ah = l - rh, h - rl
                    ol, oh = self.interval(a)
                    if k > 0: nl, nh = -(-al // k), ah // k
                    else: nl, nh = -(-ah // k), al // k
                    if nl > ol or nh < oh: self._bound(a, max(nl, ol), min(nh, oh), depth+1)
        elif prim.op == 'fn' and prim.a[0] == 'tdiv' and (l > 0 or h < 0):
            # |a/b| >= q > 0 bounds the divisor and, for divisor 1 or -1, the dividend
            q = l if l > 0 else -h; a, b = prim.a[1]
            al, ah = self.interval(a); bl, bh = self.interval(b)
            m = max(abs(al), abs(ah))
            if q > m: self.dead = True; return
            k = m // q
            if bl < -k or bh > k: self._bound(b, max(bl, -k), min(bh, k), depth+1)
            neg = l <= 0                      # sign of the quotient
            if ah < q: self._bound(a, al, -q, depth+1)
            elif al > -q: self._bound(a, q, ah, depth+1)
            al, ah = self.interval(a)
            if al > 0: self._bound(b, *((-k, -1) if neg else (1, k)), depth+1)
            elif ah < 0: self._bound(b, *((1, k) if neg else (-k, -1)), depth+1)
        elif prim.op == 'ite':
            # if one branch cannot meet the bound the condition is decided
            c, p, q = prim.a
            a = self.interval(p); b = self.interval(q)
            if a[1] < l or a[0] > h: self._assume(c, False)
            elif b[1] < l or b[0] > h: self._assume(c, True)
    # ---- simplification
    def simp(self, t):
        if t.op in ('c', 'true', 'false', 'lit'): return t
        r = self.memo.get(t)
        if r is not None: return r
        r = self._simp(t)
        self.memo[t] = r
        return r
    def _simp(self, t):
        if t.s == 'b':
            if t in self.facts: return B(self.facts[t])
            if t.op in ('le0', 'eq0'):
                l, h = self.interval(t.a[0])
                if t.op == 'le0':
                    if h <= 0: return TRUE
                    if l > 0: return FALSE
                elif l > 0 or h < 0: return FALSE
                elif l == h == 0: return TRUE
            elif t.op == 'fn' and t.a[0] == 'cal.ok':
                for x, (a, b) in zip(t.a[1], CALDOM):
                    l, h = self.interval(x)
                    if h < a or l > b: return FALSE
        elif t.s == 'i':
            if t in self.subs: return self.simp(self.subs[t])
            l, h = self.interval(t)
            if l == h: return I(l)
            if l > h: self.dead = True; return t
        r = rebuild(t, self.simp)
        if r is not t:
            if r.s == 'b' and r.op not in ('true', 'false'):
                if r in self.facts: return B(self.facts[r])
                if r.op == 'not' and r.a[0] in self.facts: return B(not self.facts[r.a[0]])
                if r.op in ('le0', 'eq0', 'not'):
                    q = r.a[0] if r.op == 'not' else r
                    if q.op in ('le0', 'eq0'):
                        l, h = self.interval(q.a[0]); v = None
                        if q.op == 'le0': v = True if h <= 0 else False if l > 0 else None
                        else: v = False if (l > 0 or h < 0) else True if l == h == 0 else None
                        if v is not None: return B(v != (r.op == 'not'))
            elif r.s == 'i':
                l, h = self.interval(r)
                if l == h: return I(l)
        return r

class _Iv:
    def __init__(self, lo, hi): self.lo = lo; self.hi = hi
IVFN = ('cal.days', 'cal.year', 'tdiv', 'trem')
CALDOM = ((-262143, 262142), (1, 12), (1, 31))
def _on_cal(ctx, t, val):
    # a valid date has its components in range
    if val:
        for x, (a, b) in zip(t.a[1], CALDOM): ctx._bound(x, a, b)
ON_FACT = {'cal.ok': _on_cal}

class _Base:
    """interval view of a context without the direction combination (avoids recursion)"""
    def __init__(self, ctx): self.c = ctx
    def interval(self, t):
        if t.op == 'lin': return lin_interval(t.a[0], t.a[1], self)
        return self.c.interval(t)

def lin_shift(e, k):
    c, d = lin(e)
    return from_lin(c + k, dict(d))
def direction(e):
    c, d = lin(e)
    if not d: return None
    g = 0
    for _, k in d: g = math.gcd(g, k)
    if d[0][1] < 0: g = -g
    return from_lin(0, {a: k // g for a, k in d}), g, c

# ------------------------------------------------------------------ graph equality
class Budget(Exception): pass

def split_atom(ts):
    """the innermost branch condition used by the graphs: an atom with no ite below it, else any atom"""
    seen = set()
    cand = []
    def rec(t, under):
        if t in seen: return
        seen.add(t)
        if t.op == 'ite': rec_c(t.a[0])
        elif t.s == 'b' and t.op in ('and', 'or', 'not'):
            for x in t.a: rec_c(x)
            return
        for k in kids(t): rec(k, under)
    def rec_c(c):
        if c in seen: return
        seen.add(c)
        if c.op in ('and', 'or', 'not'):
            for x in c.a: rec_c(x)
        elif c.op in ('true', 'false'): pass
        else:
            cand.append(c)
            for k in kids(c): rec(k, True)
    for t in ts:
        if t.s == 'b': rec_c(t)
        else: rec(t, False)
    if not cand: return None
    # prefer atoms without ite below
    best = None
    for c in cand:
        n = sum(1 for x in walk(c) if x.op == 'ite')
        m = (n, c.id)
        if best is None or m < best[0]: best = (m, c)
    return best[1]

def small_enum(ts, ctx):
    """an integer atom of a small range that is an argument of an opaque function"""
    best = None
    for t in ts:
        for x in walk(t):
            if x.op == 'fn' and x.a[0].split(':')[0] in ('rotl', 'shl', 'shr', 'band', 'bor', 'bxor', 'tdiv', 'trem'):
                for a in x.a[1]:
                    if a.s == 'i' and a.op != 'c':
                        l, h = ctx.interval(a)
                        if h - l <= 64 and (best is None or (h-l, a.id) < best[0]): best = ((h-l, a.id), a, l, h)
    return best

class Eq:
    def __init__(self, budget=4000): self.n = 0; self.budget = budget; self.cells = 0; self.fail = None
    def run(self, a, b, ctx):
        """a, b: equal-length lists of terms. True iff equal in every feasible cell"""
        self.n += 1
        if self.n > self.budget: raise Budget()
        a = [ctx.simp(x) for x in a]; b = [ctx.simp(x) for x in b]
        if ctx.dead: return True
        pairs = [(x, y) for x, y in zip(a, b) if x is not y]
        if not pairs: self.cells += 1; return True
        ts = [t for p in pairs for t in p]
        at = split_atom(ts)
        xs = [p[0] for p in pairs]; ys = [p[1] for p in pairs]
        if at is not None:
            for v in (True, False):
                c = ctx.assume(at, v)
                if c.dead: continue
                if not self.run(xs, ys, c): return False
            return True
        # pairs of integers: decide by interval of the difference
        left = []
        for x, y in pairs:
            if x.s == 'i':
                d = ctx.simp(sub(x, y))
                if d.op == 'c' and d.a == 0: continue
            left.append((x, y))
        if not left: self.cells += 1; return True
        e = small_enum(ts, ctx)
        if e:
            _, at, l, h = e
            for v in range(l, h+1):
                c = ctx.copy(); c._bound(at, v, v)
                if c.dead: continue
                c.subs[at] = I(v) if at.op != 'lin' else c.subs.get(at, I(v))
                c.memo = {}
                if not self.run(xs, ys, c): return False
            return True
        for cells in digit_cells([t for q in left for t in q], ctx):
            try:
                if all(self.run([q[0] for q in left], [q[1] for q in left], c) for c in cells): return True
            except Budget: pass
        self.fail = (left, ctx)
        return False
def digit_cells(ts, ctx):
    """the cell re-expressed in the mixed-radix digits of an atom whose quotients occur in several phases (sign, offset)"""
    ph = {}
    for t in ts:
        for x in walk(t):
            if x.op == 'fdiv':
                c, d = lin(x.a[0])
                if len(d) == 1 and abs(d[0][1]) == 1 and d[0][0].op in ('v', 'fn', 'mul', 'tlen') and d[0][0] not in ctx.subs and not is_digit(d[0][0]):
                    ph.setdefault(d[0][0], {}).setdefault(x.a[1], set()).add((d[0][1], c))
    for a, ks in ph.items():
        if not any(s != 1 or c for f in ks.values() for s, c in f): continue
        chain = []
        for k in sorted(ks):
            if k > 1 and (not chain or k % chain[-1] == 0): chain.append(k)
        if not chain: continue
        l, h = ctx.interval(a)
        if not (l > NEG and h < POS): continue
        n = show(a)
        e = mulc(var(f'dg.{n}.q', l // chain[-1], h // chain[-1]), chain[-1])
        lowk = 1
        for i, k in enumerate(chain):
            e = add(e, mulc(var(f'dg.{n}.{i}', 0, k // lowk - 1), lowk)); lowk = k
        c = Ctx(); c.subs[a] = e
        c._bound(e, l, h)
        for x, y in ctx.subs.items(): c.subs.setdefault(x, y)
        pend = list(ctx.facts.items()); cells = [c]
        for f, v in pend:
            nxt = []
            for c in cells:
                todo = [c]
                while todo and len(nxt) < 64:
                    c = todo.pop(); g = c.simp(f)
                    if c.dead: continue
                    at = split_atom([g.a[0]]) if g.op in ('le0', 'eq0') else None      # a condition inside the fact: one cell each
                    if at is None: c = c.assume(g, v); nxt += [] if c.dead else [c]
                    else: todo += [x for x in (c.assume(at, True), c.assume(at, False)) if not x.dead]
                if todo: return
            cells = nxt
        for c in cells:
            for x, (lo, hi) in ctx.bounds.items():
                if not c.dead: c._bound(c.simp(x), lo, hi)
        yield cells
        return

# ------------------------------------------------------------------ refutation
def consts_of(ts):
    r = set()
    for t in ts:
        for x in walk(t):
            if x.op == 'c': r.add(x.a)
            elif x.op == 'lin':
                r.add(x.a[0]); r.add(-x.a[0])
                if len(x.a[1]) == 1: k = x.a[1][0][1]; r.add(-x.a[0]//k)
            elif x.op == 'fdiv': r.add(x.a[1])
    return r

def variables(ts):
    r = {}
    for t in ts:
        for x in walk(t):
            if x.op in ('v', 'bv'): r[x.a[0]] = x
    return r

def boundary(v, cs, rnd):
    name, lo, hi = v.a
    s = {lo, hi, lo+1, hi-1, 0, 1, -1, 2, (lo+hi)//2}
    for c in cs:
        for d in (-1, 0, 1): s.add(c+d)
    if hi == (1 << 64)-1 or hi == (1 << 32)-1:
        # bit patterns of floats as well
        w = 64 if hi > 1 << 33 else 32
        for f in (0.0, -0.0, 0.5, 1.0, -1.0, 1.5, -2.5, 2.5, 0.1, 3.0, 1e6, 999999.9, -1e7, 1e14, -1e15, 1e300, 1e-300, 1e38, math.inf, -math.inf, math.nan, 12345.678):
            s.add(f2bits(f, w))
        s.add(1)
    for _ in range(12):
        s.add(rnd.randint(lo, hi))
        b = rnd.randint(0, 63)
        s.add(rnd.choice((1, -1))*((1 << b) + rnd.randint(-2, 2)))
        s.add(rnd.choice((1, -1))*rnd.randint(0, 10**rnd.randint(1, 18)))
    return sorted(x for x in s if lo <= x <= hi)

def find_valuation(pred, ts, assume=None, seed=1, tries=3000, cell=None):
    """a valuation of the free variables of ts at which pred(env) is true; env satisfies every term of assume"""
    assume = list(assume or [])
    vs = variables(list(ts) + assume)
    cs = {c for c in consts_of(list(ts) + assume) if abs(c) < 1 << 70}
    rnd = random.Random(seed)
    dom = {}
    for n, v in vs.items():
        dom[n] = [False, True] if v.op == 'bv' else boundary(v, cs, rnd)
    celldom = {}
    if cell is not None:
        for n, v in vs.items():
            if v.op == 'bv':
                c = cell.simp(v)
                celldom[n] = [True] if c is TRUE else [False] if c is FALSE else [False, True]
            else:
                l, h = cell.interval(v)
                l, h = max(l, v.a[1]), min(h, v.a[2])
                if l > h: celldom = {}; break
                d = [x for x in dom[n] if l <= x <= h]
                d += [x for x in (l, l+1, h, h-1, (l+h)//2) if l <= x <= h] + [rnd.randint(l, h) for _ in range(4)]
                celldom[n] = sorted(set(d))
    names = sorted(vs)
    comps = []; req = []
    seen = set()
    for t in list(ts) + assume:
        for x in walk(t, seen):
            if x.op in ('le0', 'eq0'): comps.append((x.op, x.a[0]))
    if cell is not None:
        req = [(x.op, x.a[0], v) for x, v in cell.facts.items() if x.op in ('le0', 'eq0')]
    req += [(a.op, a.a[0], True) if a.op != 'not' else (a.a[0].op, a.a[0].a[0], False) for a in assume if a.op in ('le0', 'eq0') or a.op == 'not' and a.a[0].op in ('le0', 'eq0')]
    def adjust(env, e, goal):
        # change one variable occurring linearly in e so that e becomes goal
        c, items = lin(e)
        cand = [(v, k) for v, k in items if v.op == 'v']
        if not cand: return
        v, k = rnd.choice(cand)
        try: cur = ev(e, env, {})
        except (NoEval, ZeroDivisionError, OverflowError, ValueError): return
        x = env[v.a[0]] + (goal - cur) // k
        if v.a[1] <= x <= v.a[2]: env[v.a[0]] = x
    def repair(env, i):
        if comps and i % 3 != 0:
            for _ in range(i % 3):
                op, e = rnd.choice(comps); adjust(env, e, rnd.choice((0, 0, 1, -1)))
        for _ in range(8):
            bad = []
            for op, e, v in req:
                try: x = ev(e, env, {})
                except (NoEval, ZeroDivisionError, OverflowError, ValueError): continue
                if ((x <= 0) if op == 'le0' else (x == 0)) != v: bad.append((op, e, v))
            if not bad: break
            op, e, v = rnd.choice(bad)
            adjust(env, e, 0 if v else rnd.choice((1, 1, 2, 1000, -1)) if op == 'eq0' else rnd.choice((1, 1, 2, 1000)))
        return env
    def ok(env):
        memo = {}
        for a in assume:
            if not ev(a, env, memo): return False
        return pred(env)
    total = 1
    for n in names: total *= len(dom[n])
    def texts():
        """valuations in which the ASCII characters spell numbers"""
        cs_ = sorted((v for v in vs.values() if v.op == 'v' and v.a[1] >= 1 and v.a[2] <= 127), key=lambda v: (re.sub(r'\d+$', '', v.a[0]), int((re.findall(r'\d+$', v.a[0]) or ['0'])[0])))
        n = len(cs_)
        if not n: return
        def rs(al, k): return ''.join(rnd.choice(al) for _ in range(k))
        for i in range(min(tries, 400)):
            k = i % 14
            x = ['1'*n, '0'*(n-1) + '1', '7'*n, rs('01', n), rs('01234567', n), rs('0123456789', n), rs('0123456789abcdefABCDEF', n), rs('+-', 1) + rs('0123456789', n-1), '-' + rs('01', n-1),
                 (rs('0123456789', 1) + '.' + rs('0123456789', n))[:n], (rs('0123456789', max(1, n-4)) + 'e-' + rs('0123', 2))[-n:], ('1.00000005960464478' + '0'*n)[:n], (' ' + '1'*n)[:n], ('1'*n)[:n-1] + ' '][k]
            if len(x) != n: continue
            env = {m: rnd.choice(dom[m]) for m in names}
            for v, c in zip(cs_, x):
                if v.a[1] <= ord(c) <= v.a[2]: env[v.a[0]] = ord(c)
            yield env
    cals = []
    for t in list(ts) + assume:
        for x in walk(t, set()):
            if x.op == 'fn' and x.a[0] in ('cal.ok', 'cal.days') and x.a[1] not in cals: cals.append(x.a[1])
    def dates():
        """valuations in which the arguments of the calendar are dates"""
        for i in range(min(tries, 600)):
            env = {n: rnd.choice(dom[n]) if i % 2 else (rnd.choice(dom[n]) if vs[n].op == 'bv' else max(vs[n].a[1], min(vs[n].a[2], rnd.randint(0, 59)))) for n in names}
            for a in rnd.sample(cals, len(cals)):
                for x, g in zip(a, (rnd.choice((1970, 2000, 2024, 1999, 1900, 2262, 1677, 1, rnd.randint(1, 28), rnd.randint(1700, 2200))), rnd.randint(1, 12), rnd.choice((1, 28, 29, 30, 31, rnd.randint(1, 28))))):
                    adjust(env, x, g + (rnd.choice((256, 1 << 16, 1 << 32)) if rnd.random() < .06 else 0))
            yield env
    wide = sorted(n for n in names if vs[n].op == 'v' and vs[n].a[2] - vs[n].a[1] > 1 << 20)
    def mags():
        """valuations in which all wide variables have random digits and about the same magnitude"""
        for i in range(tries if wide else 0):
            env = {n: rnd.choice(dom[n]) for n in names}; b = 63 - i % 60
            for n in wide:
                k = max(1, b - rnd.choice((0, 0, 0, 1, 2))); x = ((1 << (k-1)) | rnd.getrandbits(k)) * rnd.choice((1, 1, -1))
                if rnd.random() < .1: x |= ((1 << (k - 1)) - 1)
                lo, hi = vs[n].a[1], vs[n].a[2]
                if not lo <= x <= hi: x = -x
                if lo <= x <= hi: env[n] = x
            yield env
    def gen():
        if cals: yield from dates()
        if any(x.op == 'fn' and x.a[0].startswith('parse.') for t in ts for x in walk(t, set())): yield from texts()
        if celldom:
            order = [v for v in vs.values() if v in cell.subs]
            for i in range(tries):
                env = {n: rnd.choice(celldom[n]) for n in names}
                for v in order:
                    try:
                        x = ev(cell.simp(cell.subs[v]), env, {})
                        if v.a[1] <= x <= v.a[2]: env[v.a[0]] = x
                    except Exception: pass
                yield env
                if req or comps: yield repair(dict(env), i)
        if total <= tries:
            for c in itertools.product(*[dom[n] for n in names]): yield dict(zip(names, c))
            yield from mags()
            return
        ints = [n for n in names if vs[n].op == 'v']
        for i in range(tries):
            env = {n: rnd.choice(dom[n]) for n in names}
            m = i % 4
            if m == 1 and len(ints) > 1:      # correlated: equal / neighbouring values
                a, b = rnd.sample(ints, 2)
                x = env[a] + rnd.choice((-1, 0, 0, 1))
                if vs[b].a[1] <= x <= vs[b].a[2]: env[b] = x
            elif m == 2:                      # small values
                for n in ints:
                    lo, hi = vs[n].a[1], vs[n].a[2]
                    x = rnd.randint(-3, 12)
                    if lo <= x <= hi: env[n] = x
            elif m == 3 and len(ints) > 1:
                a, b = rnd.sample(ints, 2)
                lo, hi = vs[b].a[1], vs[b].a[2]
                for x in (hi - env[a], lo - env[a], -env[a], env[a]*2):
                    if lo <= x <= hi and rnd.random() < .5: env[b] = x
            yield env
            if comps: yield repair(dict(env), i+1)
        yield from mags()
    for env in gen():
        try:
            if ok(env): return env
        except NoEval: return None
        except (ZeroDivisionError, OverflowError, ValueError): continue
    return None
