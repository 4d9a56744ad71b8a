"""Abstract interpreter of rustc MIR over the value-graph domain. Every function is analysed once per context; branches
are joined at their post-dominator, so the result of a call is one guarded value graph per observable, not a set of paths."""
import json, sys, re
from terms import *
import ops
from ops import band, bor, bxor, bnot, shl, shr, rotl, rotr, bswap
from logic import Ctx

class Unsup(Exception): pass

# ------------------------------------------------------------------ values
class Val: __slots__ = ()
class Agg(Val):
    __slots__ = ('f',)
    def __init__(s, f): s.f = tuple(f)
class Arr(Val):
    __slots__ = ('f',)
    def __init__(s, f): s.f = tuple(f)
class Heap(Arr):
    """an allocation of a vector: as many elements as were written"""
    __slots__ = ()
class En(Val):
    __slots__ = ('d', 'v')
    def __init__(s, d, v): s.d = d; s.v = v          # d: variant index term, v: {variant: tuple}
class Ptr(Val):
    __slots__ = ('obj', 'path', 'meta')
    def __init__(s, obj, path=(), meta=None): s.obj = obj; s.path = tuple(path); s.meta = meta
class FnV(Val):
    __slots__ = ('key',)
    def __init__(s, key): s.key = key
class Lib(Val):
    """value of a modelled library type: kind and a tuple of fields"""
    __slots__ = ('k', 'f')
    def __init__(s, k, *f): s.k = k; s.f = tuple(f)
class VIte(Val):
    __slots__ = ('c', 'a', 'b')
    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b
class Undef_(Val):
    def __repr__(s): return 'undef'
Undef = Undef_()
UNIT = Agg(())

class Text(Val):
    """sequence of units (integers) and text chunks (terms of sort t)"""
    __slots__ = ('items',)
    def __init__(s, items): s.items = tuple(items)
def text_items(t):
    if t.op == 'lit': return [I(x) for x in t.a]
    if t.op == 'cat': return [y for x in t.a for y in text_items(x)]
    if t.op == 'fn' and t.a[0] == 'bytes': return list(t.a[1])
    return [t]
def items_len(items):
    r = ZERO
    for x in items: r = add(r, ONE if x.s == 'i' else tlen(x))
    return r
def items_term(items): return cat(*[ops.text_of([x]) if x.s == 'i' else x for x in items])

class Buf(Val):
    """destination memory: written segments (start, items) over unknown prior contents; cap in units"""
    __slots__ = ('segs', 'cap', 'name', 'hi')
    def __init__(s, name, cap, segs=(), hi=255): s.name = name; s.cap = cap; s.segs = tuple(segs); s.hi = hi

def vshow(v, d=0):
    if isinstance(v, T): return show(v)
    if d > 5: return '…'
    if isinstance(v, (Agg, Arr)): return ('(' if isinstance(v, Agg) else '[') + ', '.join(vshow(x, d+1) for x in v.f) + ')'
    if isinstance(v, En): return f'En({vshow(v.d)}; ' + ', '.join(f'{k}:{[vshow(y, d+1) for y in x]}' for k, x in v.v.items()) + ')'
    if isinstance(v, Ptr): return f'&{v.obj}{v.path}' + (f'#{vshow(v.meta)}' if v.meta is not None else '')
    if isinstance(v, Lib): return f'{v.k}{[vshow(x, d+1) for x in v.f]}'
    if isinstance(v, VIte): return f'({vshow(v.c)} ? {vshow(v.a, d+1)} : {vshow(v.b, d+1)})'
    if isinstance(v, Text): return f'T{list(v.items)}'
    if isinstance(v, Buf): return f'Buf{list(v.segs)}'
    return repr(v)

def same(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, T): return False
    if isinstance(a, (Agg, Arr)): return len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, En):
        return a.d is b.d and a.v.keys() == b.v.keys() and all(len(a.v[k]) == len(b.v[k]) and all(same(x, y) for x, y in zip(a.v[k], b.v[k])) for k in a.v)
    if isinstance(a, Ptr):
        return a.obj == b.obj and a.path == b.path and same(a.meta, b.meta)
    if isinstance(a, FnV): return a.key == b.key
    if isinstance(a, Lib): return a.k == b.k and len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, VIte): return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, Text): return a.items == b.items
    if isinstance(a, Buf): return a.segs == b.segs and a.name == b.name and a.cap == b.cap
    if isinstance(a, (str, int, type(None), bytes)): return a == b
    return False

def vite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if same(a, b): return a
    if a is Undef: return b
    if b is Undef: return a
    if isinstance(a, T) and isinstance(b, T) and a.s == b.s: return ite(c, a, b)
    if type(a) is type(b):
        if isinstance(a, Heap):
            n = max(len(a.f), len(b.f))
            return Heap(vite(c, x, y) for x, y in zip(a.f + (Undef,)*(n-len(a.f)), b.f + (Undef,)*(n-len(b.f))))
        if isinstance(a, (Agg, Arr)) and len(a.f) == len(b.f): return type(a)(vite(c, x, y) for x, y in zip(a.f, b.f))
        if isinstance(a, En):
            v = {}
            for k in set(a.v) | set(b.v):
                if k not in a.v: v[k] = b.v[k]
                elif k not in b.v: v[k] = a.v[k]
                else: v[k] = tuple(vite(c, x, y) for x, y in zip(a.v[k], b.v[k]))
            return En(ite(c, a.d, b.d), v)
        if isinstance(a, Ptr) and a.obj == b.obj and a.obj is not None and len(a.path) == len(b.path) and (a.meta is None) == (b.meta is None):
            p = []
            for x, y in zip(a.path, b.path):
                if x == y: p.append(x)
                elif x[0] == y[0] == 'i': p.append(('i', ite(c, x[1], y[1])))
                else: break
            else:
                m = a.meta if same(a.meta, b.meta) else ite(c, a.meta, b.meta) if isinstance(a.meta, T) and isinstance(b.meta, T) else False
                if m is not False: return Ptr(a.obj, p, m)
        if isinstance(a, Lib) and a.k == b.k and len(a.f) == len(b.f): return Lib(a.k, *[vite(c, x, y) for x, y in zip(a.f, b.f)])
        if isinstance(a, Text): return Text(merge_items(c, a.items, b.items))
        if isinstance(a, Buf): return merge_buf(c, a, b)
    return VIte(c, a, b)

def merge_items(c, a, b):
    n = 0
    while n < len(a) and n < len(b) and a[n] is b[n]: n += 1
    m = 0
    while m < len(a)-n and m < len(b)-n and a[-1-m] is b[-1-m]: m += 1
    x, y = a[n:len(a)-m], b[n:len(b)-m]
    if len(x) == len(y) and all(p.s == 'i' and q.s == 'i' for p, q in zip(x, y)):
        mid = [ite(c, p, q) for p, q in zip(x, y)]
    elif not x and not y: mid = []
    else: mid = [ite(c, items_term(x), items_term(y))]
    return list(a[:n]) + mid + list(a[len(a)-m:] if m else [])

def merge_buf(c, a, b):
    if a.name != b.name or a.cap != b.cap: return VIte(c, a, b)
    if len(a.segs) == len(b.segs):
        r = []
        for (s1, i1), (s2, i2) in zip(a.segs, b.segs):
            if s1 is s2: r.append((s1, tuple(merge_items(c, i1, i2))))
            else: return VIte(c, a, b)
        return Buf(a.name, a.cap, r, a.hi)
    if not a.segs or not b.segs:
        x, y = (a, b) if not a.segs else (b, a)
        if len(y.segs) == 1:
            s, it = y.segs[0]
            z = (s, tuple(merge_items(c, (), it) if x is a else merge_items(c, it, ())))
            # an empty chunk in the other branch leaves prior contents in place
            return Buf(a.name, a.cap, [z], a.hi)
    return VIte(c, a, b)

def vlift(v, f):
    """apply f to every leaf of a conditional value and merge the results"""
    if isinstance(v, VIte): return vite(v.c, vlift(v.a, f), vlift(v.b, f))
    return f(v)

# ------------------------------------------------------------------ program
class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d; self.types = d['types']; self.fns = d['fns']; self.allocs = d['allocs']; self.files = d['files']
        self.exports = {e['sym']: e for e in d['exports']}
        self.pd = {}
        self.tymemo = {}
    def ty(self, i): return self.types[i]
    def drops(self, glue):
        """dropping has an effect beyond releasing memory: a destructor of the repository or one that finishes a container operation"""
        if not hasattr(self, 'dropmemo'): self.dropmemo = {}
        if glue in self.dropmemo: return self.dropmemo[glue]
        self.dropmemo[glue] = False
        f = self.fns.get(glue); r = False
        for bb in ((f or {}).get('body') or {}).get('blocks', []):
            t = bb['t']
            if t['t'] == 'drop' and t.get('glue') and self.drops(t['glue']): r = True
            if t['t'] == 'call' and isinstance(t.get('fty'), int):
                c = self.ty(t['fty']).get('callee') or {}; g = self.fns.get(c.get('key')) or {}
                if g.get('local') or re.search(r'SetLenOnDrop|vec::drain|vec::splice|vec::Drain|vec::Splice|DropGuard|RetainGuard|BackshiftOnDrop', c.get('name', '')): r = True
        self.dropmemo[glue] = r
        return r
    def export_key(self, sym):
        if sym in self.fns: return sym
        raise KeyError(sym)
    def where(self, sp):
        try: return f'{self.files[sp[0]]}:{sp[1]}'
        except Exception: return '?'
    def postdom(self, key):
        if key in self.pd: return self.pd[key]
        b = self.fns[key]['body']; n = len(b['blocks'])
        succ = []
        for bb in b['blocks']:
            t = bb['t']; k = t['t']
            if k == 'goto': s = [t['to']]
            elif k == 'switch': s = [x[1] for x in t['br']] + [t['else']]
            elif k == 'return': s = [n]
            elif k in ('drop', 'call', 'assert'): s = [t['to']] if t['to'] is not None else []
            else: s = []
            succ.append(list(dict.fromkeys(s)))
        succ.append([])
        # blocks that can reach the return
        reach = {n}; ch = True
        while ch:
            ch = False
            for i in range(n):
                if i not in reach and any(x in reach for x in succ[i]): reach.add(i); ch = True
        # post-dominators by iteration over sets represented as bit masks
        full = (1 << (n+1)) - 1
        pd = [full]*(n+1); pd[n] = 1 << n
        order = list(range(n))[::-1]
        ch = True
        while ch:
            ch = False
            for i in order:
                if i not in reach: continue
                m = full
                for x in succ[i]:
                    if x in reach: m &= pd[x]
                m |= 1 << i
                if m != pd[i]: pd[i] = m; ch = True
        ip = {}
        for i in range(n):
            if i not in reach: ip[i] = n; continue
            c = pd[i] & ~(1 << i)
            # immediate: the post-dominator with the largest set
            best = None; bc = -1
            j = 0
            x = c
            while x:
                if x & 1:
                    k = bin(pd[j]).count('1')
                    if k > bc: bc = k; best = j
                x >>= 1; j += 1
            ip[i] = best if best is not None else n
        self.pd[key] = ip
        return ip

class St:
    __slots__ = ('mem', 'ctx', 'path', 'eff')
    def __init__(s, mem, ctx, path, eff=()): s.mem = mem; s.ctx = ctx; s.path = path; s.eff = eff
    def fork(s, ctx, path): return St(dict(s.mem), ctx, path, s.eff)

class Cases(Exception):
    """raised by a model that needs the value of a term: the call is analysed once per value in its interval"""
    def __init__(s, t, why): s.t = t; s.why = why

def same(x, y):
    """whether two values are built alike"""
    if x is y: return True
    if type(x) is not type(y): return False
    if isinstance(x, tuple): return len(x) == len(y) and all(map(same, x, y))
    if isinstance(x, dict): return x.keys() == y.keys() and all(same(x[k], y[k]) for k in x)
    if isinstance(x, Val): return all(same(getattr(x, a), getattr(y, a)) for c in type(x).__mro__ for a in getattr(c, '__slots__', ()))
    if isinstance(x, T): return False        # terms are shared
    return x == y
HANG = 'UB: does not return'
class Panic:
    def __init__(s, guard, kind, where, fn): s.guard = guard; s.kind = kind; s.where = where; s.fn = fn
    def __repr__(s): return f'{s.kind} at {s.where} when {s.guard}'

class Interp:
    def __init__(self, prog, models, budget=60000, loop_limit=600):
        self.p = prog; self.models = models
        self.panics = []; self.fid = 0; self.steps = 0; self.budget = budget; self.depth = 0
        self.stack = []; self.touched = set(); self.gobj = {}; self.writes = set(); self.calls = 0; self.reads = set()
        self.visits = {}; self.snaps = {}; self.idles = {}; self.traces = False; self.ubchecks = False; self.fresh = 0; self.locals = []; self.live = set(); self.clock = []; self.clkfacts = []; self.notes = []
    # ---- entry
    def call_key(self, st, key, args, sp=None):
        f = self.p.fns.get(key)
        if f is None: raise Unsup('no function ' + key)
        return self.call_fn(st, f, key, args, None)
    def panic(self, st, kind, sp):
        fn, w = self.site(sp)
        self.panics.append(Panic(st.path, kind, w, fn))
    def site(self, sp):
        """function and source line of the innermost frame that belongs to the repository"""
        for n, fr in enumerate(reversed(self.stack)):
            if fr[1]: return fr[0], self.p.where(sp if n == 0 and sp else fr[2]) if (fr[2] or sp) else '?'
        return '?', self.p.where(sp) if sp else '?'
    # ---- memory
    def objval(self, st, obj):
        if obj in st.mem: return st.mem[obj]
        if obj in self.gobj: return self.gobj[obj]
        if isinstance(obj, tuple) and obj[0] in self.live: return Undef       # a local not written yet
        raise Unsup(f'no object {obj}')
    def read(self, st, obj, path):
        if obj is None:
            if path and path[0][0] == 'addr' and st.ctx.simp(path[0][1]) is ZERO: self.ub(st, 'read through a null pointer'); return Undef
            raise Unsup('dereference of an integer address')
        if isinstance(obj, tuple) and obj[0] == 'in': self.reads.add(obj)
        return self.rd(st, self.objval(st, obj), path)
    def rd(self, st, v, path):
        for n, e in enumerate(path):
            if isinstance(v, VIte):
                rest = path[n:]
                c = st.ctx.simp(v.c)
                if c is TRUE: v = v.a
                elif c is FALSE: v = v.b
                else: return vite(v.c, self.rd(st, v.a, rest), self.rd(st, v.b, rest))
                return self.rd(st, v, rest)
            k = e[0]
            if k == 'f':
                if v is Undef: return Undef
                if isinstance(v, En): v = v.v[0][e[1]] if 0 in v.v else Undef
                elif isinstance(v, (Agg, Arr)):
                    v = v.f[e[1]] if e[1] < len(v.f) else Undef
                elif isinstance(v, (T, Ptr, FnV)) and e[1] == 0: pass      # transparent wrapper
                elif isinstance(v, tuple): v = v[e[1]] if e[1] < len(v) else Undef
                else: raise Unsup(f'field of {type(v).__name__} {getattr(v,"k","")}')
            elif k == 'd':
                if v is Undef: return Undef
                if not isinstance(v, En): raise Unsup('variant of ' + type(v).__name__)
                v = v.v.get(e[1], ())
            elif k == 'i': v = self.elem(st, v, e[1])
            elif k == 'w':
                if isinstance(v, Arr) and e[1].op == 'c': v = Arr(v.f[e[1].a:e[1].a+e[2]])
                else: v = Arr([self.elem(st, v, add(e[1], I(j))) for j in range(e[2])])
            elif k == 'one':
                k = st.ctx.simp(e[1])
                if k is not ZERO and k.op == 'c': self.ub(st, 'read outside an object'); return Undef
                if k is not ZERO: raise Unsup('element past a single object')
            elif k == 'as': v = self.transmute(v, e[1], e[2])
            else: raise Unsup('path ' + k)
        if isinstance(v, tuple): v = Agg(v)
        return v
    def elem(self, st, v, i):
        i = st.ctx.simp(i)
        if v is Undef: return Undef
        if isinstance(v, Arr):
            if i.op == 'c':
                if 0 <= i.a < len(v.f): return v.f[i.a]
                if isinstance(v, Heap) and i.a >= 0: return Undef
                self.ub(st, 'read outside an object'); return Undef
            l, h = st.ctx.interval(i)
            if l < 0 or h >= len(v.f):
                if h - l > 300: raise Unsup('unbounded index')
                self.ub(st, 'read outside an object', or_(lt(i, ZERO), ge(i, I(len(v.f)))))
                l = max(l, 0); h = min(h, len(v.f)-1)
                if l > h: return Undef
            if h - l > 300: raise Unsup('large symbolic index')
            r = v.f[h]
            for j in range(h-1, l-1, -1): r = vite(eq(i, I(j)), v.f[j], r)
            return r
        if isinstance(v, Text):
            pos = ZERO
            for x in v.items:
                if x.s == 'i':
                    if st.ctx.simp(sub(pos, i)) is ZERO: return x
                    pos = add(pos, ONE)
                else: pos = add(pos, tlen(x))
            raise Unsup('unit of a text at an unknown position')
        if isinstance(v, Buf):
            for s, items in v.segs:
                pos = s
                for x in items:
                    if x.s == 'i':
                        if st.ctx.simp(sub(pos, i)) is ZERO: return x
                        pos = add(pos, ONE)
                    else: pos = add(pos, tlen(x))
                l1, h1 = st.ctx.interval(sub(i, s)); l2, h2 = st.ctx.interval(sub(i, pos))
                if not (h1 < 0 or l2 >= 0): raise Unsup('read of written destination text')
            self.notes.append('prior destination contents read')
            return fn_with('prior:' + v.name, (i,), 0, v.hi)
        raise Unsup('element of ' + type(v).__name__)
    def ub(self, st, what, cond=TRUE):
        g = and_(st.path, cond)
        if st.ctx.simp(cond) is FALSE: return
        fn, w = self.site(self.cursp)
        self.panics.append(Panic(g, 'UB: ' + what, w, fn))
    def write(self, st, obj, path, val):
        if obj is None: raise Unsup('write through an integer address')
        if isinstance(obj, tuple) and obj[0] in ('in', 'out', 'alloc', 'static'): self.writes.add((obj, path[:1] if path and path[0][0] == 'f' else ()))
        if obj in st.mem: old = st.mem[obj]
        elif obj in self.gobj: old = self.gobj[obj]
        else: old = Undef
        st.mem[obj] = self.wr(st, old, path, val)
    def wr(self, st, v, path, val):
        if not path: return val
        e = path[0]; rest = path[1:]; k = e[0]
        if isinstance(v, VIte):
            c = st.ctx.simp(v.c)
            if c is TRUE: return self.wr(st, v.a, path, val)
            if c is FALSE: return self.wr(st, v.b, path, val)
            return vite(v.c, self.wr(st, v.a, path, val), self.wr(st, v.b, path, val))
        if k == 'f':
            if isinstance(v, En): # struct-like access of variant 0
                f = list(v.v.get(0, ())); 
                while len(f) <= e[1]: f.append(Undef)
                f[e[1]] = self.wr(st, f[e[1]], rest, val)
                return En(v.d, {**v.v, 0: tuple(f)})
            if isinstance(v, (T, Ptr, FnV)) and e[1] == 0: return self.wr(st, v, rest, val)
            f = [] if v is Undef else list(v.f) if isinstance(v, (Agg, Arr)) else list(v) if isinstance(v, tuple) else None
            if f is None: raise Unsup('field write into ' + type(v).__name__)
            while len(f) <= e[1]: f.append(Undef)
            f[e[1]] = self.wr(st, f[e[1]], rest, val)
            return Agg(f)
        if k == 'd':
            if v is Undef: v = En(I(e[1]), {})
            if not isinstance(v, En): raise Unsup('variant write into ' + type(v).__name__)
            old = v.v.get(e[1], ())
            r = self.wr(st, Agg(old), rest, val)
            return En(v.d, {**v.v, e[1]: r.f if isinstance(r, Agg) else (r,)})
        if k == 'i':
            i = st.ctx.simp(e[1])
            if isinstance(v, Arr):
                if isinstance(v, Heap):
                    if i.op != 'c':
                        l, h = st.ctx.interval(i)
                        if 0 <= l and h < 300 and h - l <= 40:
                            f = list(v.f) + [Undef]*(h + 1 - len(v.f))
                            for j in range(l, h+1): f[j] = vite(eq(i, I(j)), self.wr(st, f[j], rest, val), f[j])
                            return Heap(f)
                        return self.wr(st, self.heapbuf(v), (e,) + tuple(rest), val)
                    if not 0 <= i.a < 1 << 16: raise Unsup('far write into an allocation')
                    f = list(v.f) + [Undef]*(i.a + 1 - len(v.f)); f[i.a] = self.wr(st, f[i.a], rest, val); return Heap(f)
                if i.op == 'c':
                    if not 0 <= i.a < len(v.f): self.ub(st, 'write outside an object'); return v
                    f = list(v.f); f[i.a] = self.wr(st, f[i.a], rest, val); return Arr(f)
                l, h = st.ctx.interval(i)
                if l < 0 or h >= len(v.f):
                    if h - l > 300: raise Unsup('unbounded index')
                    self.ub(st, 'write outside an object', or_(lt(i, ZERO), ge(i, I(len(v.f))))); l = max(l, 0); h = min(h, len(v.f)-1)
                if h - l > 300: raise Unsup('large symbolic index')
                f = list(v.f)
                for j in range(l, h+1): f[j] = vite(eq(i, I(j)), self.wr(st, f[j], rest, val), f[j])
                return Arr(f)
            if isinstance(v, Buf):
                if rest or not isinstance(val, T): raise Unsup('structured write into a buffer')
                return self.bufput(st, v, i, (val,))
            raise Unsup('element write into ' + type(v).__name__)
        if k == 'w':
            r = v
            if not isinstance(val, Arr) or rest: raise Unsup('window write')
            for j, x in enumerate(val.f): r = self.wr(st, r, (('i', add(e[1], I(j))),), x)
            return r
        if k == 'one':
            if st.ctx.simp(e[1]) is not ZERO: raise Unsup('element past a single object')
            return self.wr(st, v, rest, val)
        if k == 'as':
            if rest:
                cur = self.transmute(v, e[1], e[2]); val = self.wr(st, cur, rest, val)
            return self.transmute(val, e[2], e[1])
        raise Unsup('path ' + k)
    def heapbuf(self, h):
        """an allocation that text of unknown length goes into"""
        k = next((j for j, x in enumerate(h.f) if not (isinstance(x, T) and x.s == 'i')), len(h.f))
        if any(x is not Undef for x in h.f[k:]): raise Unsup('text into a partly written allocation')
        self.fresh += 1
        return Buf(f'heap{self.fresh}', None, ((ZERO, tuple(h.f[:k])),) if k else ())
    def bufput(self, st, b, i, items):
        """write items starting at unit i"""
        n = items_len(items); end = add(i, n)
        l, h = st.ctx.interval(end)
        if b.cap is not None and h > b.cap:
            c = st.ctx.simp(gt(end, I(b.cap)))
            if c is not FALSE: self.ub(st, f'write beyond the {b.cap} units of the destination', gt(end, I(b.cap)))
        if st.ctx.interval(i)[0] < 0: self.ub(st, 'write before the destination', lt(i, ZERO))
        segs = list(b.segs)
        def iszero(t): return st.ctx.simp(t) is ZERO
        for j, (s, it) in enumerate(segs):
            # walk positions
            pos = s
            for q in range(len(it)+1):
                if iszero(sub(pos, i)):
                    # overlay items from here
                    k = q; rem = list(items); out = list(it[:q])
                    p2 = pos
                    while k < len(it):
                        # how much of the old item is covered
                        c = st.ctx.simp(ge(end, add(p2, ONE if it[k].s == 'i' else tlen(it[k]))))
                        if c is TRUE: p2 = add(p2, ONE if it[k].s == 'i' else tlen(it[k])); k += 1
                        elif iszero(sub(end, p2)): break
                        elif st.ctx.simp(le(end, p2)) is TRUE: break
                        else:
                            r = self.cutover(st, p2, end, it[k])
                            if r is None: raise Unsup('partial overwrite of a text')
                            out2 = list(items) + r + list(it[k+1:])
                            segs[j] = (s, tuple(out + out2)); return self.bufnorm(st, b, segs)
                    if k == len(it) and j+1 < len(segs):
                        # may run into the following segments
                        for (s2, it2) in segs[j+1:]:
                            c = st.ctx.simp(le(end, s2))
                            if c is not TRUE:
                                if iszero(sub(end, add(s2, items_len(it2)))): segs.remove((s2, it2)); continue
                                raise Unsup('overlapping writes')
                    segs[j] = (s, tuple(out + rem + list(it[k:]))); return self.bufnorm(st, b, segs)
                if q < len(it): pos = add(pos, ONE if it[q].s == 'i' else tlen(it[q]))
        for j, (s, it) in enumerate(segs):
            if iszero(sub(end, s)):
                segs[j] = (i, tuple(items) + it); return self.bufnorm(st, b, segs)
        for s, it in segs:
            e2 = add(s, items_len(it))
            if st.ctx.simp(ge(i, e2)) is not TRUE and st.ctx.simp(le(end, s)) is not TRUE: raise Unsup('write at an unknown position')
        segs.append((i, tuple(items)))
        return self.bufnorm(st, b, segs)
    def cutover(self, st, pos, end, item): return None
    def bufnorm(self, st, b, segs):
        if len(segs) > 1:
            segs.sort(key=lambda s: st.ctx.interval(s[0]))
            out = [segs[0]]
            for s in segs[1:]:
                p, it = out[-1]
                if st.ctx.simp(sub(add(p, items_len(it)), s[0])) is ZERO: out[-1] = (p, it + s[1])
                else: out.append(s)
            segs = out
        return Buf(b.name, b.cap, segs, b.hi)
    # ---- types
    def pointee(self, ty):
        t = self.p.ty(ty)
        while t['k'] == 'adt': 
            fs = t['variants'][0]['fields']
            t = self.p.ty(fs[0][1])
        if t['k'] == 'pat': return self.pointee(t['base'])
        return t.get('to')
    def intinfo(self, ty):
        t = self.p.ty(ty); k = t['k']
        if k == 'int': return t['bits'], t['signed']
        if k == 'bool': return 1, False
        if k == 'char': return 32, False
        if k == 'float': return t['bits'], False
        if k == 'pat': return self.intinfo(t['base'])
        if k == 'adt' and t['adt'] == 'struct' and len(t['variants'][0]['fields']) >= 1:
            return self.intinfo(t['variants'][0]['fields'][0][1])
        if k in ('ptr', 'ref', 'fnptr'): return 64, False
        return None
    def isfloat(self, ty): return self.p.ty(ty)['k'] == 'float'
    # ---- constants
    def const(self, st, c):
        if 'zst' in c: return self.zst(c['ty'])
        if 'alloc' in c: return self.decode(c['ty'], c['alloc']['bytes'], {o: a for o, a in c['alloc']['prov']}, 0)
        raise Unsup('opaque constant ' + str(c.get('opaque'))[:60])
    def zst(self, ty):
        t = self.p.ty(ty); k = t['k']
        if k == 'fndef': return FnV(t['callee']['key'])
        if k == 'closure': return Agg(())
        if k == 'adt' and t['adt'] == 'struct': return Agg([self.zst(f[1]) for f in t['variants'][0]['fields']])
        if k == 'adt' and t['adt'] == 'enum' and len(t['variants']) == 1: return En(ZERO, {0: tuple(self.zst(f[1]) for f in t['variants'][0]['fields'])})
        if k == 'adt' and t['adt'] == 'enum':
            live = [j for j, v in enumerate(t['variants']) if not any(self.empty(f[1]) for f in v['fields'])]
            if len(live) == 1: return En(I(live[0]), {live[0]: tuple(self.zst(f[1]) for f in t['variants'][live[0]]['fields'])})
        if k == 'array': return Arr([])
        return UNIT
    def empty(self, ty):
        """type without values"""
        t = self.p.ty(ty)
        if t['k'] == 'never' or t['s'] == '!': return True
        if t['k'] == 'adt' and t['adt'] == 'enum': return all(any(self.empty(f[1]) for f in v['fields']) for v in t['variants'])
        return False
    def size(self, ty): return (self.p.ty(ty).get('layout') or {}).get('size')
    def decode(self, ty, by, prov, off):
        t = self.p.ty(ty); k = t['k']
        def num(o, n, signed=False):
            bs = by[o:o+n]
            if any(x is None for x in bs): return None
            return int.from_bytes(bytes(bs), 'little', signed=signed)
        if k == 'int':
            n = num(off, t['bits']//8, t['signed']); return Undef if n is None else I(n)
        if k == 'bool': return B(num(off, 1) != 0)
        if k == 'char': return I(num(off, 4))
        if k == 'float': return I(num(off, t['bits']//8))
        if k in ('ptr', 'ref', 'fnptr'):
            if off in prov:
                return self.ptr_to_alloc(prov[off], t, num(off, 8), by, off)
            n = num(off, 8)
            sz = self.size(ty)
            return Ptr(None, (('addr', I(n)),), I(num(off+8, 8)) if sz == 16 else None)
        if k == 'array':
            es = self.size(t['elem'])
            return Arr([self.decode(t['elem'], by, prov, off + j*es) for j in range(t['len'])])
        if k == 'tuple':
            lo = t['layout'].get('off') or []
            return Agg([self.decode(e, by, prov, off + lo[j]) for j, e in enumerate(t['elems'])])
        if k == 'pat': return self.decode(t['base'], by, prov, off)
        if k == 'adt' and t['adt'] == 'struct':
            lo = t['layout'].get('off') or []
            r = []
            for j, f in enumerate(t['variants'][0]['fields']): r.append(self.decode(f[1], by, prov, off + (lo[j] if j < len(lo) else 0)))
            return Agg(r)
        if k == 'adt' and t['adt'] == 'enum':
            vs = t['variants']; sz = t['layout']['size']
            if sz == 0: return self.zst(ty)
            m = t['layout'].get('enum')
            if not m:        # a single inhabited variant
                live = [j for j, v in enumerate(vs) if not any(self.empty(f[1]) for f in v['fields'])]
                if len(live) == 1:
                    lo = t['layout'].get('off') or []
                    return En(I(live[0]), {live[0]: tuple(self.decode(f[1], by, prov, off + (lo[j] if j < len(lo) else 0)) for j, f in enumerate(vs[live[0]]['fields']))})
                raise Unsup('constant of enum ' + t['s'])
            to = (t['layout'].get('off') or [0])[0]; w = m['bytes']
            if 'niche' not in m:
                n = num(off + to, w)
                if n is None: return Undef
                j = next((j for j, v in enumerate(vs) if int(v['discr']) % (1 << (8*w)) == n), None)
            else:
                un, a, b, start = m['niche']; n = 1 if off + to in prov else num(off + to, w)
                if n is None: return Undef
                j = a + (n - int(start)) % (1 << (8*w))
                if off + to in prov or not a <= j <= b: j = un
            if j is None: raise Unsup('constant of enum ' + t['s'])
            return En(I(j), {j: tuple(self.decode(f[1], by, prov, off + m['vars'][j][q]) for q, f in enumerate(vs[j]['fields']))})
        if k == 'adt' and t['adt'] == 'union' and all(x is None for x in by[off:off + (self.size(ty) or 0)]): return Undef
        raise Unsup('constant of type ' + t['s'])
    def ptr_to_alloc(self, aid, t, off, by, o):
        a = self.p.allocs[aid]
        if a['k'] == 'fn': return FnV(a['key'])
        if a['k'] == 'static':
            obj = ('static', a['name']); self.gobj.setdefault(obj, Undef)
            return Ptr(obj, ())
        if a['k'] != 'mem': raise Unsup('pointer to ' + a['k'])
        to = self.p.ty(t['to']) if t['k'] != 'fnptr' else None
        data = a['data']; prov = {x: y for x, y in data['prov']}
        if to['k'] in ('slice', 'str'):
            et = to.get('elem'); es = self.size(et) if et is not None else 1
            n = int.from_bytes(bytes(by[o+8:o+16]), 'little')
            obj = ('alloc', aid, to['s'])
            if obj not in self.gobj:
                m = len(data['bytes'])//es if es else n
                self.gobj[obj] = Arr([self.decode(et, data['bytes'], prov, j*es) for j in range(m)]) if et is not None else Arr([I(x) for x in data['bytes']])
            return Ptr(obj, (('i', I(off//es if es else 0)),), I(n))
        obj = ('alloc', aid, to['s'], off)
        if obj not in self.gobj: self.gobj[obj] = self.decode(t['to'], data['bytes'], prov, off)
        return Ptr(obj, ())
    # ---- places
    def place(self, st, fr, p):
        """-> (obj, path, meta, type)"""
        l, proj = p
        obj = (fr, l); path = (); meta = None
        ty = self.locals[-1][l]
        for e in proj:
            if e == '*':
                v = self.read(st, obj, path)
                v = self.force(st, v)
                t = self.p.ty(ty)
                if isinstance(v, Agg) : # Box / wrapper around a pointer
                    while isinstance(v, Agg): v = v.f[0]
                if isinstance(v, VIte): return ('vite', v, proj[proj.index('*')+1:] if proj.count('*') == 1 else None, t.get('to'))
                if isinstance(v, Lib):     # reference to a modelled object held by value
                    raise Unsup('dereference of ' + v.k)
                if not isinstance(v, Ptr): raise Unsup('dereference of ' + type(v).__name__)
                obj, path, meta = v.obj, v.path, v.meta
                ty = t.get('to')
                if ty is None: ty = self.pointee(self.tyid(t))
            elif e[0] == 'f':
                path += (('f', e[1]),); ty = e[2]
                if self.p.ty(ty)['k'] in ('slice', 'str') and meta is not None: path += (('i', ZERO),)
            elif e[0] == 'd': path += (('d', e[1]),)
            elif e[0] in ('i', 'ci', 'ss'):
                t = self.p.ty(ty); sl = t['k'] == 'slice'
                n = meta if sl else I(t['len'])
                if e[0] == 'i': i = self.read(st, (fr, e[1]), ())
                elif e[0] == 'ci': i = sub(n, I(e[1])) if e[3] else I(e[1])
                else:
                    frm = I(e[1]); to = sub(n, I(e[2])) if e[3] else I(e[2])
                    if sl: path = path[:-1] + (('i', add(path[-1][1], frm)),); meta = sub(to, frm)
                    else: path = path + (('w', frm, sub(to, frm).a),); raise Unsup('array subslice')
                    continue
                if sl: path = path[:-1] + (('i', add(path[-1][1], i)),)
                elif path and path[-1][0] == 'w': path = path[:-1] + (('i', add(path[-1][1], i)),)
                else: path = path + (('i', i),)
                ty = t['elem']; meta = None
            elif e[0] == 'oc': ty = e[1]
            else: raise Unsup('projection ' + str(e))
        return obj, path, meta, ty
    def tyid(self, t): return self.p.types.index(t)
    def force(self, st, v):
        while isinstance(v, VIte):
            c = st.ctx.simp(v.c)
            if c is TRUE: v = v.a
            elif c is FALSE: v = v.b
            else: break
        return v
    def rdplace(self, st, fr, p):
        pl = self.place(st, fr, p)
        if pl[0] == 'vite':
            _, v, rest, ty = pl
            if rest is None or any(e == '*' or e[0] in ('i', 'ci', 'ss') for e in rest): raise Unsup('nested access through a conditional pointer')
            sub_ = tuple(('f', e[1]) if e[0] == 'f' else ('d', e[1]) for e in rest)
            def leaf(x):
                while isinstance(x, Agg): x = x.f[0]
                if not isinstance(x, Ptr) or x.obj is None: raise Unsup('deref')
                return self.read(st, x.obj, x.path + sub_)
            return vlift(v, leaf)
        obj, path, meta, ty = pl
        return self.read(st, obj, path)
    def wrplace(self, st, fr, p, val):
        pl = self.place(st, fr, p)
        if pl[0] == 'vite':
            _, v, rest, ty = pl
            if rest is None or any(e == '*' or e[0] in ('i', 'ci', 'ss') for e in rest): raise Unsup('nested access through a conditional pointer')
            sub_ = tuple(('f', e[1]) if e[0] == 'f' else ('d', e[1]) for e in rest)
            def go(x, cond):
                if isinstance(x, VIte): go(x.a, and_(cond, x.c)); go(x.b, and_(cond, not_(x.c))); return
                while isinstance(x, Agg): x = x.f[0]
                if not isinstance(x, Ptr) or x.obj is None: raise Unsup('write through conditional address')
                old = self.read(st, x.obj, x.path + sub_)
                self.write(st, x.obj, x.path + sub_, vite(cond, val, old))
            go(v, TRUE); return
        obj, path, meta, ty = pl
        if path and path[-1][0] == 'd' : pass
        self.write(st, obj, path, val)
    def operand(self, st, fr, o):
        if 'const' in o: return self.const(st, o['const'])
        if 'rtc' in o: return TRUE if self.ubchecks and o['rtc'] == 'UbChecks' else FALSE
        return self.rdplace(st, fr, o.get('copy') or o.get('move'))
    # ---- scalars
    def asint(self, v):
        if isinstance(v, T): return v if v.s == 'i' else b2i(v)
        if isinstance(v, (Agg,)) and v.f: 
            r = [x for x in v.f if not (isinstance(x, Agg) and not x.f)]
            return self.asint(r[0])
        if isinstance(v, Ptr):
            if v.obj is None: return v.path[0][1]
            return fn_with('addr', (I(hash((v.obj,)) & 0xffff),), 1, (1 << 64)-1) if False else self.addr(v)
        if isinstance(v, VIte): return ite(v.c, self.asint(v.a), self.asint(v.b))
        raise Unsup('integer of ' + type(v).__name__)
    def addr(self, v):
        """address of an object: some number other than 0, a function of the place"""
        if not isinstance(v, Ptr): raise Unsup('address of ' + type(v).__name__)
        idx = [e[1] for e in v.path if e[0] in ('i', 'one')]
        return fn_with('addr:%r:%s' % (v.obj, [e[0] for e in v.path]), tuple(idx), 1, (1 << 47)-1)
    def binop(self, st, op, a, b, aty, rty, checked=False):
        t = self.p.ty(aty)
        if op == 'Offset': return self.ptr_add(st, a, self.asint(b), aty)
        if t['k'] in ('ptr', 'ref', 'fnptr') or (isinstance(self.force(st, a), Ptr)):
            return self.ptr_cmp(st, op, a, b)
        a = self.force(st, a); b = self.force(st, b)
        if t['k'] == 'float': return self.fbin(op, a, b, t['bits'])
        if a is Undef or b is Undef: return Undef
        if isinstance(a, En) or isinstance(b, En): raise Unsup('comparison of enums')
        if t['k'] == 'bool':
            a = self.asb(a); b = self.asb(b)
            if op == 'BitAnd': return and_(a, b)
            if op == 'BitOr': return or_(a, b)
            if op == 'BitXor' or op == 'Ne': return not_(eq(a, b))
            if op == 'Eq': return eq(a, b)
            a, b = b2i(a), b2i(b)
        if t['k'] == 'tuple' and not t['elems']: return B(op in ('Eq', 'Le', 'Ge'))
        x = self.asint(a); y = self.asint(b)
        if op == 'Eq': return eq(x, y)
        if op == 'Ne': return ne(x, y)
        if op == 'Lt': return lt(x, y)
        if op == 'Le': return le(x, y)
        if op == 'Gt': return gt(x, y)
        if op == 'Ge': return ge(x, y)
        if op == 'Cmp': return self.ordering(ite(lt(x, y), I(-1), ite(eq(x, y), ZERO, ONE)))
        bits, sg = self.intinfo(aty)
        if op in ('Add', 'AddUnchecked'): r = add(x, y)
        elif op in ('Sub', 'SubUnchecked'): r = sub(x, y)
        elif op in ('Mul', 'MulUnchecked'): r = mul(x, y)
        elif op == 'Div': return self.sdiv(st, x, y, bits, sg)
        elif op == 'Rem': return self.srem(st, x, y)
        elif op in ('BitAnd', 'BitOr', 'BitXor'):
            f = {'BitAnd': band, 'BitOr': bor, 'BitXor': bxor}[op]
            return self.signed_bits(f, x, y, bits, sg)
        elif op in ('Shl', 'ShlUnchecked', 'Shr', 'ShrUnchecked'):
            y = self.shamt(st, y, bits)
            if op.startswith('Shl'): return shl(x, y, bits, sg)
            return shr(x, y, bits)
        else: raise Unsup('operator ' + op)
        if checked:
            w = wrap(r, bits, sg)
            lo, hi = (-(1 << (bits-1)), (1 << (bits-1))-1) if sg else (0, (1 << bits)-1)
            return Agg([w, or_(lt(r, I(lo)), gt(r, I(hi)))])
        return wrap(r, bits, sg)
    def shamt(self, st, y, bits):
        l, h = st.ctx.interval(y)
        if 0 <= l and h < bits: return y
        return mod(y, bits)
    def signed_bits(self, f, x, y, bits, sg):
        if not sg or (x.lo >= 0 and y.lo >= 0): return f(x, y, bits)
        for p, q in ((x, y), (y, x)):
            if p.op == 'c' and p.a == -1 and f is bxor: return sub(I(-1), q)
        r = f(wrap(x, bits, False), wrap(y, bits, False), bits)
        return wrap(r, bits, True)
    def sdiv(self, st, x, y, bits, sg):
        x = st.ctx.simp(x); y = st.ctx.simp(y)
        r = tdiv(x, y)
        lo, hi = (-(1 << (bits-1)), (1 << (bits-1))-1) if sg else (0, (1 << bits)-1)
        if (r.lo < lo or r.hi > hi) and sg and st.ctx.assume(and_(eq(x, I(lo)), eq(y, I(-1)))).dead: return r   # the only overflowing quotient is excluded
        return wrap(r, bits, sg)
    def srem(self, st, x, y): return trem(st.ctx.simp(x), st.ctx.simp(y))
    def asb(self, v):
        if isinstance(v, T): return v if v.s == 'b' else ne(v, ZERO)
        if isinstance(v, Agg) and len(v.f) == 1: return self.asb(v.f[0])
        raise Unsup('bool of ' + type(v).__name__)
    def ordering(self, t):
        """Ordering value of a term in {-1,0,1}: variants Less, Equal, Greater"""
        return En(add(t, ONE), {0: (), 1: (), 2: ()})
    def fbin(self, op, a, b, w):
        if op in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
            if op in ('Add', 'Mul') and b.id < a.id: a, b = b, a
            return ops.fop(op.lower(), w, a, b)
        if op == 'Lt': return ops.f_lt(a, b, w)
        if op == 'Le': return ops.f_le(a, b, w)
        if op == 'Gt': return ops.f_lt(b, a, w)
        if op == 'Ge': return ops.f_le(b, a, w)
        if op == 'Eq': return ops.f_eq(a, b, w)
        if op == 'Ne': return not_(ops.f_eq(a, b, w))
        raise Unsup('float operator ' + op)
    def unwrapp(self, v):
        while isinstance(v, Agg) and v.f: v = v.f[0]
        return v
    def ptr_add(self, st, p, n, pty=None):
        p = self.unwrapp(self.force(st, p)); n = st.ctx.simp(n)
        if n is ZERO: return p
        if isinstance(p, VIte): return vite(p.c, self.ptr_add(st, p.a, n), self.ptr_add(st, p.b, n))
        if not isinstance(p, Ptr): raise Unsup('pointer arithmetic on ' + type(p).__name__)
        if p.obj is None: return Ptr(None, (('addr', add(p.path[0][1], n)),), p.meta)
        if n.hi > 1 << 63: n = wrap(n, 64, True)
        if p.path and p.path[-1][0] in ('i', 'one'): return Ptr(p.obj, p.path[:-1] + ((p.path[-1][0], add(p.path[-1][1], n)),), p.meta)
        return Ptr(p.obj, p.path + (('one', n),), p.meta)
    def ptr_cmp(self, st, op, a, b):
        a = self.unwrapp(self.force(st, a)); b = self.unwrapp(self.force(st, b))
        if isinstance(a, VIte): return vite(a.c, self.ptr_cmp(st, op, a.a, b), self.ptr_cmp(st, op, a.b, b))
        if isinstance(b, VIte): return vite(b.c, self.ptr_cmp(st, op, a, b.a), self.ptr_cmp(st, op, a, b.b))
        if isinstance(a, T) and isinstance(b, T): return self.icmp(op, a, b)
        if isinstance(a, FnV) or isinstance(b, FnV): raise Unsup('function pointer comparison')
        if a.obj is None and b.obj is None: return self.icmp(op, a.path[0][1], b.path[0][1])
        if a.obj is None or b.obj is None:
            z = (a if a.obj is None else b).path[0][1]
            if z is ZERO:
                if op == 'Eq': return FALSE
                if op == 'Ne': return TRUE
            raise Unsup('pointer compared with an address')
        if a.obj != b.obj:
            if op == 'Eq': return FALSE
            if op == 'Ne': return TRUE
            raise Unsup('pointers to different objects compared')
        pa, pb = a.path, b.path
        if pa == pb: return self.icmp(op, ZERO, ZERO)
        while pa and pb and pa[-1][0] == 'as' and pa[-1] == pb[-1]: pa, pb = pa[:-1], pb[:-1]      # the same cast of both
        if not (pa and pa[-1][0] in ('i', 'one')): pa = pa + (('one', ZERO),)
        if not (pb and pb[-1][0] in ('i', 'one')): pb = pb + (('one', ZERO),)
        if pa[:-1] == pb[:-1]: return self.icmp(op, pa[-1][1], pb[-1][1])
        raise Unsup('unrelated pointers compared')
    def icmp(self, op, x, y):
        return {'Eq': eq, 'Ne': ne, 'Lt': lt, 'Le': le, 'Gt': gt, 'Ge': ge}[op](x, y)
    def ptr_diff(self, st, a, b):
        a = self.unwrapp(self.force(st, a)); b = self.unwrapp(self.force(st, b))
        if isinstance(a, VIte): return vite(a.c, self.ptr_diff(st, a.a, b), self.ptr_diff(st, a.b, b))
        if isinstance(b, VIte): return vite(b.c, self.ptr_diff(st, a, b.a), self.ptr_diff(st, a, b.b))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj is None and a.path == b.path: return ZERO
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.obj is not None:
            pa, pb = a.path, b.path
            if pa == pb: return ZERO
            if not (pa and pa[-1][0] in ('i', 'one')): pa = pa + (('one', ZERO),)
            if not (pb and pb[-1][0] in ('i', 'one')): pb = pb + (('one', ZERO),)
            if pa[:-1] == pb[:-1]: return sub(pa[-1][1], pb[-1][1])
        raise Unsup('pointer difference')
    def unop(self, st, op, a, ty, rty):
        t = self.p.ty(rty)
        a = self.force(st, a)
        if op == 'PtrMetadata':
            a = self.unwrapp(a)
            if isinstance(a, VIte): return vlift(a, lambda x: self.unop(st, op, x, ty, rty))
            if not isinstance(a, Ptr): raise Unsup('metadata of ' + type(a).__name__)
            return a.meta if a.meta is not None else UNIT
        if op == 'Not':
            if t['k'] == 'bool': return not_(self.asb(a))
            bits, sg = self.intinfo(rty); return bnot(self.asint(a), bits, sg)
        if op == 'Neg':
            if t['k'] == 'float': return ops.f_neg(a, t['bits'])
            bits, sg = self.intinfo(rty); return wrap(mulc(self.asint(a), -1), bits, sg)
        raise Unsup('operator ' + op)
    # ---- casts
    def cast(self, st, ck, v, fty, tty):
        f = self.p.ty(fty); t = self.p.ty(tty)
        v = self.force(st, v)
        if ck == 'IntToInt':
            if isinstance(v, En): v = self.discr(v, fty)
            x = self.asint(v)
            if t['k'] == 'char': return x
            bits, sg = self.intinfo(tty)
            return wrap(x, bits, sg)
        if ck == 'FloatToInt':
            bits, sg = self.intinfo(tty)
            return fn(f'f.toint:{f["bits"]}:{bits}:{int(sg)}', (v,))
        if ck == 'IntToFloat':
            return fn(f'f.ofint:{t["bits"]}', (self.asint(v),))
        if ck == 'FloatToFloat': return ops.f_cvt(v, f['bits'], t['bits'])
        if ck == 'Transmute': return self.transmute(v, fty, tty)
        if ck == 'Subtype': return v
        if ck.startswith('PtrToPtr') or ck == 'FnPtrToPtr': return vlift(v, lambda x: self.ptrcast(st, x, f, t))
        if ck.startswith('PointerCoercion(Unsize'):
            return vlift(v, lambda x: self.unsize(x, f, t))
        if ck.startswith('PointerCoercion(ReifyFnPointer'): return v
        if ck.startswith('PointerCoercion(ClosureFnPointer'):
            return FnV(('closure', fty))
        if ck.startswith('PointerCoercion('): return self.ptrcast(st, v, f, t)
        if ck.startswith('PointerWithExposedProvenance'):
            if isinstance(v, T): return Ptr(None, (('addr', v),))
        if ck.startswith('PointerExposeAddress') or ck.startswith('PointerExposeProvenance'): return self.asint(v)
        raise Unsup('cast ' + ck)
    def ptrcast(self, st, v, f, t):
        if isinstance(v, FnV): return v
        if not isinstance(v, Ptr): raise Unsup('pointer cast of ' + type(v).__name__)
        if v.obj is None: return Ptr(None, v.path, v.meta if self.p.ty(t['to'])['k'] in ('slice', 'str') else None)
        a = self.p.ty(f['to']); b = self.p.ty(t['to'])
        if isinstance(v.obj, tuple) and v.obj[0] == 'heap' and len(v.path) == 1 and a['k'] not in ('array',) and b['k'] not in ('array',): return Ptr(v.obj, v.path, v.meta if b['k'] in ('slice', 'str') else None)
        if a is b: return v
        if b['k'] in ('slice', 'str'): return v
        if a['k'] in ('slice', 'str'):
            # slice -> element
            if b['k'] == 'array' : 
                return Ptr(v.obj, v.path[:-1] + (('w', v.path[-1][1], b['len']),), None)
            return Ptr(v.obj, v.path, None)
        if a['k'] == 'array' and b['k'] != 'array' and a['elem'] == t['to']:
            if v.path and v.path[-1][0] == 'w': return Ptr(v.obj, v.path[:-1] + (('i', v.path[-1][1]),))
            return Ptr(v.obj, v.path + (('i', ZERO),))
        if b['k'] == 'array' and self.same_ty(b['elem'], f['to']) and v.path and v.path[-1][0] == 'i':
            return Ptr(v.obj, v.path[:-1] + (('w', v.path[-1][1], b['len']),))
        if self.same_ty(f['to'], t['to']): return v
        if b['s'] in ('()', 'u8') and a['s'] not in ('u8', 'i8', 'bool'):
            return Ptr(v.obj, v.path + (('as', f['to'], t['to']),), v.meta)
        if v.path and v.path[-1][0] == 'as' and self.same_ty(v.path[-1][1], t['to']): return Ptr(v.obj, v.path[:-1], v.meta)
        if self.leafy(f['to']) and self.leafy(f['to']) == self.leafy(t['to']): return v
        # a pointer to a struct whose first field is the target
        return Ptr(v.obj, v.path + (('as', f['to'], t['to']),), v.meta)
    def same_ty(self, a, b): return a == b or self.p.ty(a)['s'] == self.p.ty(b)['s']
    def leafy(self, ty):
        """name of the scalar a transparent wrapper type holds"""
        t = self.p.ty(ty)
        n = 0
        while n < 8:
            n += 1
            if t['k'] == 'adt' and t['adt'] == 'struct':
                fs = [x for x in t['variants'][0]['fields'] if self.size(x[1])]
                if len(fs) != 1: return None
                t = self.p.ty(fs[0][1])
            elif t['k'] == 'pat': t = self.p.ty(t['base'])
            else: break
        if t['k'] in ('int', 'float', 'bool', 'char'): return (t['k'], t.get('bits'), t.get('signed'))
        if t['k'] in ('ptr', 'ref'): return ('ptr',)
        return None
    def unsize(self, v, f, t):
        v = self.unwrapp(v)
        if not isinstance(v, Ptr): raise Unsup('unsize')
        a = self.p.ty(f['to']) if 'to' in f else None; b = self.p.ty(t['to']) if 'to' in t else None
        if a and a['k'] == 'array' and b['k'] == 'slice':
            if v.path and v.path[-1][0] == 'w': return Ptr(v.obj, v.path[:-1] + (('i', v.path[-1][1]),), I(a['len']))
            return Ptr(v.obj, v.path + (('i', ZERO),), I(a['len']))
        while a and b and a['k'] == b['k'] == 'adt' and a['variants'][0]['fields'] and b['variants'][0]['fields']:
            a = self.p.ty(a['variants'][0]['fields'][-1][1]); b = self.p.ty(b['variants'][0]['fields'][-1][1])
            if a['k'] == 'array' and b['k'] == 'slice': return Ptr(v.obj, v.path, I(a['len']))
        return Ptr(v.obj, v.path, ('dyn', f.get('to')))
    def transmute(self, v, fty, tty):
        if fty == tty: return v
        f = self.p.ty(fty); t = self.p.ty(tty)
        if isinstance(v, VIte): return vite(v.c, self.transmute(v.a, fty, tty), self.transmute(v.b, fty, tty))
        if v is Undef: return v
        fs, ts = self.leafy(fty), self.leafy(tty)
        # arrays of integers <-> integers
        if f['k'] == 'array' and ts and ts[0] in ('int', 'float', 'char') and isinstance(v, Arr):
            es = self.size(f['elem']); r = ZERO
            for j, x in enumerate(v.f): r = add(r, wrap(self.asint(x), 8*es, False), 1 << (8*es*j))
            return self.wrapto(wrap(r, ts[1] or 32, bool(ts[2])), tty)
        if t['k'] == 'array' and fs and fs[0] in ('int', 'float', 'char'):
            es = self.size(t['elem']); n = t['len']
            x = wrap(self.asint(self.strip(v)), 8*es*n, False)
            eb, esg = self.intinfo(t['elem'])
            return Arr([wrap(mod(fdiv(x, 1 << (8*es*j)), 1 << (8*es)) if j < n-1 else fdiv(x, 1 << (8*es*j)), eb, esg) for j in range(n)])
        if fs and ts and fs[0] != 'ptr' and ts[0] != 'ptr':
            x = self.strip(v)
            if x is Undef: return Undef
            x = self.asint(x)
            if ts[0] == 'bool': return self.wrapto(ne(x, ZERO), tty)
            return self.wrapto(wrap(x, ts[1] or 32, bool(ts[2])) if ts[0] != 'char' else x, tty)
        if ts == ('ptr',) and (fs == ('ptr',) or isinstance(self.strip(v), (Ptr, FnV))):
            x = self.strip(v)
            a, b = self.ptrty(fty), self.ptrty(tty)
            if a and b and isinstance(x, Ptr): x = self.ptrcast(None, x, a, b)
            return self.wrapto(x, tty)
        if ts == ('ptr',) and fs and isinstance(self.strip(v), T):
            return self.wrapto(Ptr(None, (('addr', self.strip(v)),)), tty)
        if fs == ('ptr',) and ts:
            x = self.strip(v)
            if isinstance(x, Ptr) and x.obj is None: return self.wrapto(x.path[0][1], tty)
            if isinstance(x, Ptr): return self.wrapto(x, tty) if False else self.addr(x)
        if isinstance(v, En) and ts and ts[0] == 'int':
            if all(not q['fields'] for q in f['variants']): return self.wrapto(wrap(self.discr(v, fty), ts[1], bool(ts[2])), tty)
        if isinstance(v, En) and ts == ('ptr',) and all(not q['fields'] for q in f['variants']):
            return self.wrapto(Ptr(None, (('addr', self.discr(v, fty)),)), tty)
        if t['k'] == 'adt' and t['adt'] == 'enum' and fs and all(not q['fields'] for q in t['variants']):
            x = self.asint(self.strip(v)); r = None
            sz = 8*self.size(tty)
            for j, q in enumerate(t['variants']):
                c = eq(wrap(x, sz, False), I(int(q['discr']) % (1 << sz)))
                r = I(j) if r is None else ite(c, I(j), r)
            return En(r, {j: () for j in range(len(t['variants']))})
        # option-like niche: non-null pointer / reference
        if t['k'] == 'adt' and t['adt'] == 'enum' and len(t['variants']) == 2 and not t['variants'][0]['fields'] and len(t['variants'][1]['fields']) == 1:
            x = self.strip(v)
            if isinstance(x, Ptr):
                if x.obj is None: return En(ite(eq(x.path[0][1], ZERO), ZERO, ONE), {0: (), 1: (self.wrapto(x, t['variants'][1]['fields'][0][1]),)})
                return En(ONE, {1: (self.wrapto(x, t['variants'][1]['fields'][0][1]),)})
            ft = t['variants'][1]['fields'][0][1]; lf = self.leafy(ft)
            if lf and lf[0] == 'char' and isinstance(x, T): return En(ite(gt(x, I(0x10ffff)), ZERO, ONE), {0: (), 1: (x,)})
            if lf and lf[0] == 'int' and isinstance(x, T) and 'NonZero' in self.p.ty(ft)['s']:
                return En(ite(eq(x, ZERO), ZERO, ONE), {0: (), 1: (self.wrapto(x, ft),)})
        if isinstance(v, En) and ts and f['k'] == 'adt' and len(f['variants']) == 2 and not f['variants'][0]['fields']:
            lf = self.leafy(f['variants'][1]['fields'][0][1])
            if lf and lf[0] == 'char':
                return self.wrapto(ite(eq(v.d, ZERO), I(0xffffffff), v.v[1][0]) if 1 in v.v else I(0xffffffff), tty)
        # same shape
        if f['k'] == 'array' and t['k'] == 'array' and isinstance(v, Arr) and self.size(f['elem']) == self.size(t['elem']):
            return Arr([self.transmute(x, f['elem'], t['elem']) for x in v.f])
        x = self.unwrap1(v, f)
        if x is not None:
            ft = [y for y in f['variants'][0]['fields'] if self.size(y[1])]
            return self.transmute(x, ft[0][1], tty)
        if t['k'] == 'adt' and t['adt'] in ('struct', 'union'):
            ft = [y for y in t['variants'][0]['fields'] if self.size(y[1])]
            if t['adt'] == 'union': ft = ft[-1:]
            if len(ft) == 1 and self.size(ft[0][1]) == self.size(fty):
                r = self.transmute(v, fty, ft[0][1])
                return Agg([r if y is ft[0] else self.zst(y[1]) for y in t['variants'][0]['fields']]) if t['adt'] == 'struct' else Agg([r]*len(t['variants'][0]['fields']))
        raise Unsup(f'transmute {f["s"][:50]} to {t["s"][:50]}')
    def unwrap1(self, v, f):
        if f['k'] == 'adt' and f['adt'] in ('struct', 'union') and isinstance(v, Agg):
            n = [j for j, y in enumerate(f['variants'][0]['fields']) if self.size(y[1])]
            if f['adt'] == 'union': n = n[-1:]
            if len(n) == 1 and n[0] < len(v.f): return v.f[n[0]]
        return None
    def ptrty(self, ty):
        t = self.p.ty(ty)
        for _ in range(8):
            if t['k'] in ('ptr', 'ref'): return t
            if t['k'] == 'pat': t = self.p.ty(t['base'])
            elif t['k'] == 'adt' and t['adt'] == 'struct':
                fs = [x for x in t['variants'][0]['fields'] if self.size(x[1])]
                if len(fs) != 1: return None
                t = self.p.ty(fs[0][1])
            else: return None
    def strip(self, v):
        while isinstance(v, Agg):
            n = [x for x in v.f if not (isinstance(x, Agg) and not x.f)]
            if len(n) != 1: return v
            v = n[0]
        return v
    def wrapto(self, x, ty):
        t = self.p.ty(ty)
        if t['k'] == 'adt' and t['adt'] == 'struct':
            return Agg([self.wrapto(x, f[1]) if self.size(f[1]) else self.zst(f[1]) for f in t['variants'][0]['fields']])
        return x
    def discr(self, v, ty):
        t = self.p.ty(ty)
        if v is Undef: return Undef
        vs = t['variants']
        r = None
        d = v.d
        if d.op == 'c': return I(self.sdisc(vs[d.a]['discr'], t))
        if all(self.sdisc(q['discr'], t) == j for j, q in enumerate(vs)): return d
        ds = [self.sdisc(q['discr'], t) for q in vs]
        if all(ds[j] == ds[0] + j for j in range(len(ds))): return add(d, I(ds[0]))
        r = I(ds[-1])
        for j in range(len(vs)-2, -1, -1): r = ite(eq(d, I(j)), I(ds[j]), r)
        return r
    def sdisc(self, s, t):
        n = int(s)
        if t['s'].endswith('Ordering') and n > 127: n -= 1 << (128 if n >= 1 << 64 else 64 if n >= 1 << 32 else 8)
        return n
    # ---- rvalues
    def opty(self, o):
        """static type of an operand"""
        if 'const' in o: return o['const']['ty']
        if 'rtc' in o: return None
        return self.plty(o.get('copy') or o.get('move'))
    def plty(self, p):
        ty = self.locals[-1][p[0]]
        for e in p[1]:
            t = self.p.ty(ty)
            if e == '*': ty = t.get('to')
            elif e[0] == 'f': ty = e[2]
            elif e[0] in ('i', 'ci'): ty = t['elem']
            elif e[0] == 'oc': ty = e[1]
        return ty
    def rvalue(self, st, fr, v):
        r = v['r']
        if r == 'use': return self.operand(st, fr, v['a'])
        if r in ('ref', 'addr', 'reborrow'):
            pl = self.place(st, fr, v['p'])
            if pl[0] == 'vite':
                _, x, rest, ty = pl
                if rest is None: raise Unsup('reborrow through conditional pointer')
                s2 = tuple(('f', e[1]) if e[0] == 'f' else ('d', e[1]) for e in rest if e[0] in 'fd')
                if len(s2) != len(rest): raise Unsup('reborrow through conditional pointer')
                return vlift(x, lambda q: Ptr(self.unwrapp(q).obj, self.unwrapp(q).path + s2, self.unwrapp(q).meta if not s2 else None))
            obj, path, meta, ty = pl
            if ty is not None and self.p.ty(ty)['k'] not in ('slice', 'str', 'dyn', 'adt'): 
                meta = None
            return Ptr(obj, path, meta)
        if r == 'cfd': return self.rdplace(st, fr, v['p'])
        if r == 'agg':
            xs = [self.operand(st, fr, o) for o in v['ops']]
            if v['kind'] == 'adt':
                t = self.p.ty(v['ty'])
                if t['adt'] == 'enum': return En(I(v['variant']), {v['variant']: tuple(xs)})
                if t['adt'] == 'union': return Agg([xs[0]]*len(t['variants'][0]['fields']))
                return Agg(xs)
            if v['kind'] == 'array': return Arr(xs)
            if v['kind'] == 'rawptr':
                p = self.unwrapp(self.force(st, xs[0])); m = xs[1]
                if isinstance(m, Agg): return p
                def leaf(q):
                    if not isinstance(q, Ptr): raise Unsup('raw pointer of ' + type(q).__name__)
                    if q.obj is not None and (not q.path or q.path[-1][0] not in ('i',)):
                        if q.path and q.path[-1][0] == 'one': raise Unsup('slice of one object')
                        return Ptr(q.obj, q.path + (('one', ZERO),), m)
                    return Ptr(q.obj, q.path, m)
                return vlift(p, leaf)
            return Agg(xs)
        if r in ('bin', 'cbin'):
            a = self.operand(st, fr, v['a']); b = self.operand(st, fr, v['b'])
            aty = self.opty(v['a'])
            op = v['op']
            return self.binop(st, op.replace('WithOverflow', ''), a, b, aty, v['ty'], r == 'cbin' or op.endswith('WithOverflow'))
        if r == 'un': return self.unop(st, v['op'], self.operand(st, fr, v['a']), None, v['ty'])
        if r == 'cast': return self.cast(st, v['ck'], self.operand(st, fr, v['a']), v['from'], v['ty'])
        if r == 'discr':
            x = self.force(st, self.rdplace(st, fr, v['p']))
            ty = self.plty(v['p'])
            t = self.p.ty(ty)
            if t['k'] == 'adt' and t['adt'] == 'enum':
                def leaf(q):
                    if q is Undef and self.size(ty) == 0:
                        return I([self.sdisc(x['discr'], t) for x in t['variants'] if not x['fields']][0])
                    if q is Undef: raise Unsup('discriminant of undefined')
                    if not isinstance(q, En): raise Unsup('discriminant of ' + type(q).__name__)
                    return self.discr(q, ty)
                return vlift(x, leaf)
            return ZERO
        if r == 'len':
            obj, path, meta, ty = self.place(st, fr, v['p'])
            t = self.p.ty(ty)
            return I(t['len']) if t['k'] == 'array' else meta
        if r == 'repeat':
            x = self.operand(st, fr, v['a']); return Arr([x]*v['n'])
        if r == 'tls': raise Unsup('thread local')
        raise Unsup('rvalue ' + r)
    # ---- control
    def call_fn(self, st, f, key, args, term):
        b = f.get('body')
        if not b: raise Unsup('no body: ' + f['name'])
        self.calls += 1
        if self.depth > 180: raise Unsup('recursion')
        self.fid += 1
        fr = self.fid
        argc = b['argc']
        if b.get('spread') is not None:
            sp = b['spread']   # last argument spread from a tuple local
            nfix = sp - 1; at = (term or {}).get('atys') or ()
            if not (len(args) == len(at) == argc and at[-1] == b['locals'][sp]):       # the caller's operand is that tuple already
                args = list(args[:nfix]) + [Agg(args[nfix:])]
        if len(args) != argc:
            if len(args) == 2 and isinstance(args[1], Agg) and 1 + len(args[1].f) == argc: args = [args[0]] + list(args[1].f)
            else: raise Unsup(f'argument count of {f["name"]}')
        for i, a in enumerate(args): st.mem[(fr, i+1)] = a
        self.locals.append(b['locals']); self.live.add(fr)
        self.stack.append([f['name'], f.get('local'), None])
        if f.get('local'): self.touched.add(f['name'])
        self.depth += 1
        base = st.ctx
        try:
            r = self.run(fr, key, b, 0, st, len(b['blocks']))
        finally:
            self.depth -= 1; self.locals.pop(); self.stack.pop(); self.live.discard(fr)
            for k in range(len(b['blocks'])):
                self.visits.pop((fr, k), None); self.snaps.pop((fr, k), None)
        if r is None: return None
        ret = r.mem.get((fr, 0), UNIT)
        for k in [k for k in r.mem if k[0] == fr]: del r.mem[k]
        return ret, r
    cursp = None
    def run(self, fr, key, body, bb, st, stop):
        blocks = body['blocks']
        while bb != stop:
            self.steps += 1
            if self.steps > self.budget: raise Unsup('analysis budget exceeded')
            if bb >= len(blocks): raise Unsup('control flow')
            n = self.visits[fr, bb] = self.visits.get((fr, bb), 0) + 1
            if n >= 16 and self.repeats(st, fr, bb, n, key, body): return None
            blk = blocks[bb]
            for s in blk['s']:
                k = s['t']
                if k == '=':
                    self.cursp = self.stack[-1][2] = s['sp']
                    self.wrplace(st, fr, s['p'], self.rvalue(st, fr, s['v']))
                elif k == 'dead': pass
                elif k == 'setd':
                    pl = self.place(st, fr, s['p'])
                    cur = self.read(st, pl[0], pl[1])
                    self.write(st, pl[0], pl[1], En(I(s['v']), cur.v if isinstance(cur, En) else {}))
                elif k == 'copy':
                    self.cursp = s['sp']
                    self.memcpy(st, self.operand(st, fr, s['src']), self.operand(st, fr, s['dst']), self.asint(self.operand(st, fr, s['n'])))
            t = blk['t']; k = t['t']
            if k == 'goto': bb = t['to']; continue
            if k == 'return': bb = len(blocks); continue
            if k == 'unreachable': return None
            if k in ('resume', 'abort'): return None
            self.cursp = t.get('sp')
            if self.cursp: self.stack[-1][2] = self.cursp
            if k == 'drop':
                if t.get('glue') and self.p.drops(t['glue']):
                    pl = self.place(st, fr, t['p'])
                    r = self.call_fn(st, self.p.fns[t['glue']], t['glue'], [Ptr(pl[0], pl[1])], None)
                    if r is None: return None
                    st = r[1]
                bb = t['to']; continue
            if k == 'assert':
                c = self.operand(st, fr, t['c'])
                c = self.asb(self.force(st, c))
                if not t['exp']: c = not_(c)
                c = st.ctx.simp(c)
                if c is FALSE:
                    self.panic(st, t['msg'], t['sp']); return None
                if c is not TRUE:
                    s2 = St(st.mem, st.ctx, and_(st.path, not_(c)))
                    c3 = st.ctx.assume(c, False)
                    if not c3.dead: self.panic(s2, t['msg'], t['sp'])
                    st.ctx = st.ctx.assume(c, True); st.path = and_(st.path, c)
                    if st.ctx.dead: return None
                bb = t['to']; continue
            if k == 'switch':
                d = self.force(st, self.operand(st, fr, t['d']))
                if d is Undef: raise Unsup('branch on undefined value')
                tk = self.p.ty(t['dty'])
                groups = {}
                rest = TRUE
                for val, to in t['br']:
                    n = int(val)
                    if isinstance(d, T) and d.s == 'b': c = d if n else not_(d)
                    elif isinstance(d, Ptr): raise Unsup('switch on pointer')
                    else:
                        if tk['k'] == 'int' and tk['signed'] and n >= 1 << (tk['bits']-1): n -= 1 << tk['bits']
                        x = self.asint(d)
                        c = eq(x, I(n))
                    c = st.ctx.simp(c)
                    groups[to] = or_(groups.get(to, FALSE), and_(rest, c)) if False else or_(groups.get(to, FALSE), c)
                    rest = and_(rest, not_(c))
                groups[t['else']] = or_(groups.get(t['else'], FALSE), st.ctx.simp(rest))
                live = []
                for to, c in groups.items():
                    c = st.ctx.simp(c)
                    if c is FALSE: continue
                    if blocks[to]['t']['t'] == 'unreachable' and not blocks[to]['s']: continue
                    live.append((to, c))
                if len(live) == 1: bb = live[0][0]; continue
                if not live: return None
                j = self.p.postdom(key)[bb]
                res = []
                if self.traces: j = stop
                for to, c in live:
                    c2 = st.ctx.assume(c, True)
                    if c2.dead: continue
                    s2 = st.fork(c2, and_(st.path, c))
                    r = self.run(fr, key, body, to, s2, j)
                    if self.traces and any(x.kind == HANG for x in self.panics): raise Unsup(HANG)
                    if r is not None: res.append((c, r))
                if not res: return None
                st = self.join(st, res)
                if st is None: return None
                bb = j
                continue
            if k == 'call':
                st2 = self.do_call(st, fr, t)
                if st2 is None: return None
                st = st2
                if t['to'] is None: return None
                bb = t['to']; continue
            raise Unsup('terminator ' + k)
        return st
    def idle(self, key, body):
        """the locals of a function which no branch, check, call, address or other memory depends on (a counter that is only counted)"""
        r = self.idles.get(key)
        if r is not None: return r
        def uses(v, out):
            if isinstance(v, dict):
                for x in v.values(): uses(x, out)
            elif isinstance(v, list):
                if len(v) == 2 and type(v[0]) is int and isinstance(v[1], list):
                    out.add(v[0])
                    for e in v[1]:
                        if isinstance(e, list) and e and e[0] not in ('f', 'd'): out.update(x for x in e if type(x) is int)
                else:
                    for x in v: uses(x, out)
            return out
        hot = set(); flows = []
        for b in body['blocks']:
            for s in b['s']:
                if s['t'] == 'dead': continue
                if s['t'] != '=' or s['p'][1] or s['v']['r'] not in ('use', 'bin', 'binop', 'cbin', 'un', 'unop', 'cast', 'agg'): uses(s, hot)
                else: flows.append((s['p'][0], uses(s['v'], set())))
                if s['t'] == '=':
                    for v in (s['p'],) + tuple(x for x in s['v'].values() if isinstance(x, (dict, list))):
                        if '"*"' in json.dumps(v): uses(v, hot)
            uses({k: v for k, v in b['t'].items() if k != 'dest'}, hot)
            if b['t'].get('dest'):
                if b['t']['dest'][1]: uses(b['t']['dest'], hot)
        more = True
        while more:
            more = False
            for d, u in flows:
                if d in hot and not u <= hot: hot |= u; more = True
        r = self.idles[key] = frozenset(range(len(body['locals']))) - hot
        return r
    def repeats(self, st, fr, bb, n, key, body):
        """the state of an earlier visit of this block on the same trace: the call does not return"""
        if n & (n-1) == 0: self.snaps[fr, bb] = (st.path, dict(st.mem)); return False
        o = self.snaps.get((fr, bb))
        if o is None or o[0] is not st.path: return False
        idle = None
        if o[1].keys() != st.mem.keys():
            idle = self.idle(key, body)
            if any(k[0] != fr or k[1] not in idle for k in o[1].keys() ^ st.mem.keys()): return False
        for k in sorted(st.mem, key=lambda k: k[0] != fr):
            if k in o[1] and not same(o[1][k], st.mem[k]):
                if k[0] != fr: return False
                if idle is None: idle = self.idle(key, body)
                if k[1] not in idle: return False
        self.ub(st, 'does not return'); return True
    def join(self, base, res):
        if len(res) == 1: return res[0][1]
        c, acc = res[-1]
        path = acc.path
        mem = acc.mem
        for c, r in reversed(res[:-1]):
            m = {}
            for k in set(mem) | set(r.mem):
                if k not in mem: m[k] = r.mem[k]
                elif k not in r.mem: m[k] = mem[k]
                else:
                    x, y = r.mem[k], mem[k]
                    m[k] = x if x is y else vite(c, x, y)
            mem = m
            path = or_(r.path, path)
        ctx = base.ctx
        if path is not base.path:
            # some inputs left the function on the way
            s = ctx.simp(path)
            if s is not TRUE: ctx = ctx.assume(s, True)
            if ctx.dead: return None
        return St(mem, ctx, path)
    # ---- calls
    def do_call(self, st, fr, t):
        fty = self.p.ty(t['fty'])
        args = [self.operand(st, fr, a) for a in t['args']]
        if fty['k'] == 'fndef':
            cal = fty['callee']; key = cal.get('key')
        else:
            v = self.force(st, self.operand(st, fr, t['f']))
            r = self.call_value(st, v, args, t)
            return self.finish(r, fr, t)
        if key is None: raise Unsup('unresolved callee ' + cal['def'])
        r = self.invoke(st, key, cal, args, t)
        return self.finish(r, fr, t)
    def finish(self, r, fr, t):
        if r is None: return None
        val, st = r
        if t['to'] is None: return None
        self.wrplace(st, fr, t['dest'], val)
        return st
    def call_value(self, st, v, args, t):
        v = self.force(st, v)
        if isinstance(v, FnV):
            key = v.key
            if isinstance(key, tuple):
                return self.apply(st, UNIT, key[1], Agg(args), t)
            f = self.p.fns[key]
            if f['kind'] == 'Shim' and 'call_once' in f['name'] and f.get('iargs') and self.p.ty(f['iargs'][0])['k'] == 'closure':
                return self.apply(st, UNIT, f['iargs'][0], Agg(args), t)
            cal = {'name': f['name'], 'idef': f['idef'], 'intr': f.get('intr'), 'kind': f['kind'], 'key': key}
            return self.invoke(st, key, cal, args, t)
        if isinstance(v, VIte):
            r = []
            for c, x in ((v.c, v.a), (not_(v.c), v.b)):
                c2 = st.ctx.assume(c, True)
                if c2.dead: continue
                q = self.call_value(st.fork(c2, and_(st.path, c)), x, args, t)
                if q is not None: r.append((c, q))
            if not r: return None
            for c, q in r: q[1].mem[('ret', 0)] = q[0]
            j = self.join(st, [(c, q[1]) for c, q in r])
            if j is None: return None
            return j.mem.pop(('ret', 0)), j
        raise Unsup('call of ' + type(v).__name__)
    def invoke(self, st, key, cal, args, t):
        name = cal['name']; f = self.p.fns.get(key)
        m = self.models.find(cal)
        if m:
            try: r = m(self, st, cal, args, t)
            except Cases as e: return self.split(st, key, cal, args, t, e)
            if r is not NotImplemented: return r
        if t and t.get('dty') is not None and self.p.ty(t['dty'])['k'] == 'never' and re.match(r'(core|std|alloc)::', name) and 'unreachable_unchecked' not in name and not (f or {}).get('local'):
            self.panic(st, 'panic', t.get('sp')); return None          # a library function that does not return
        if f is None: raise Unsup('unknown callee ' + name)
        if f.get('ctor') is not None and not f.get('body'):
            ty = self.p.ty(f['ctor'])
            if ty.get('adt') == 'struct': return Agg(args), st
            vs = [v['name'] for v in ty['variants']]; n = f['idef'].split('::')[-1]
            if ty.get('adt') != 'enum' or n not in vs: raise Unsup('constructor ' + f['name'])
            j = vs.index(n)
            return En(I(j), {j: tuple(args)}), st
        if cal.get('kind') == 'Shim' or not f.get('body'):
            r = self.shim(st, cal, f, args, t)
            if r is not NotImplemented: return r
        if not f.get('body'): raise Unsup('no model for ' + name)
        if '{closure' in f['name'].split('::')[-1] and t and len(t.get('atys') or ()) == 2 == len(args) and self.p.ty(t['atys'][1])['k'] == 'tuple':
            tup = args[1]          # arguments of a closure travel as one tuple
            args = [args[0]] + (list(tup.f) if isinstance(tup, (Agg, Arr)) else [tup])
        return self.call_fn(st, f, key, args, t)
    def split(self, st, key, cal, args, t, e):
        lo, hi = st.ctx.interval(e.t)
        if hi - lo > 400 or lo == hi: raise Unsup(e.why)
        r = []
        for v in range(lo, hi+1):
            c = st.ctx.simp(eq(e.t, I(v)))
            if c is FALSE: continue
            c2 = st.ctx.assume(c, True)
            if c2.dead: continue
            def at(x):
                if isinstance(x, T): return I(v) if st.ctx.simp(x) is e.t else x
                if isinstance(x, Ptr): return Ptr(x.obj, x.path, at(x.meta) if isinstance(x.meta, T) else x.meta)
                if isinstance(x, (Agg, Arr)): return type(x)([at(y) for y in x.f])
                return x
            a2 = [at(x) for x in args]
            if all(x is y or isinstance(x, Ptr) and x.meta is y.meta for x, y in zip(a2, args)): raise Unsup(e.why)
            q = self.invoke(st.fork(c2, and_(st.path, c)), key, cal, a2, t)
            if q is not None: r.append((c, q))
        if not r: return None
        if len(r) == 1: return r[0][1]
        for c, q in r: q[1].mem[('ret', 0)] = q[0]
        j = self.join(st, [(c, q[1]) for c, q in r])
        if j is None: return None
        return j.mem.pop(('ret', 0)), j
    def shim(self, st, cal, f, args, t):
        """calls through the Fn traits: closures, function items, function pointers, references to them"""
        d = cal.get('idef') or ''
        if not any(x in d for x in ('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')): return NotImplemented
        ia = cal.get('iargs') or []
        if not ia or not t or not t.get('atys'): 
            raise Unsup('shim without argument types')
        sty = t['atys'][0]
        return self.apply(st, args[0], sty, args[1], t)
    def apply(self, st, f, fty, tup, t):
        """call the callable f of type fty with the tuple of arguments"""
        ty = self.p.ty(fty); f0 = f
        n = 0
        ref = None
        while ty['k'] in ('ref', 'ptr'):
            ref = f0
            fty = ty['to']; ty = self.p.ty(fty)
            p = self.unwrapp(self.force(st, f0))
            if not isinstance(p, Ptr): raise Unsup('callable reference')
            f0 = self.read(st, p.obj, p.path); ref = p
        args = list(tup.f) if isinstance(tup, (Agg, Arr)) else [tup]
        if ty['k'] == 'fndef':
            cal = ty['callee']
            return self.invoke(st, cal['key'], cal, args, {'atys': [], 'to': 0})
        if ty['k'] == 'fnptr': return self.call_value(st, f0, args, t)
        if ty['k'] == 'closure':
            for key in ty['bodies']:
                g = self.p.fns.get(key) if key else None
                if g and g.get('body') and g['kind'] == 'Item':
                    b = g['body']
                    envty = self.p.ty(b['locals'][1])
                    if envty['k'] in ('ref', 'ptr'):
                        if ref is None:
                            self.fresh += 1
                            obj = ('env', self.fresh); st.mem[obj] = f0; ref = Ptr(obj, ())
                        env = ref
                    else: env = f0
                    return self.call_fn(st, g, key, [env] + args, t)
            raise Unsup('closure body')
        if ty['k'] == 'adt':
            raise Unsup('callable ' + ty['s'])
        raise Unsup('callable ' + ty['k'])
    # ---- bulk copies
    def memcpy(self, st, src, dst, n, move=False):
        src = self.unwrapp(self.force(st, src)); dst = self.unwrapp(self.force(st, dst)); n = st.ctx.simp(n)
        if n is ZERO: return
        if isinstance(src, VIte) or isinstance(dst, VIte): raise Unsup('copy through conditional pointers')
        items = self.units(st, src, n)
        self.put(st, dst, items)
    def units(self, st, p, n):
        """items of n elements at p"""
        v = self.objval(st, p.obj)
        if p.path and p.path[-1][0] == 'i':
            c = self.rd(st, v, p.path[:-1]); i = st.ctx.simp(p.path[-1][1])
            if isinstance(c, Text):
                if i is ZERO and st.ctx.simp(sub(n, items_len(c.items))) is ZERO: return list(c.items)
                if i.op == 'c' and n.op == 'c' and all(x.s == 'i' for x in c.items[:i.a+n.a]): return list(c.items[i.a:i.a+n.a])
                # prefix / suffix at a chunk boundary
                pos = ZERO; a = b = None
                for q in range(len(c.items)+1):
                    if st.ctx.simp(sub(pos, i)) is ZERO: a = q
                    if st.ctx.simp(sub(pos, add(i, n))) is ZERO: b = q
                    if q < len(c.items): pos = add(pos, ONE if c.items[q].s == 'i' else tlen(c.items[q]))
                if a is not None and b is not None: return list(c.items[a:b])
                raise Unsup('part of a text')
            if isinstance(c, Buf):
                for s, it in c.segs:
                    pos = s; a = b = None
                    for q in range(len(it)+1):
                        if a is None and st.ctx.simp(sub(pos, i)) is ZERO: a = q
                        if st.ctx.simp(sub(pos, add(i, n))) is ZERO: b = q
                        if q < len(it): pos = add(pos, ONE if it[q].s == 'i' else tlen(it[q]))
                    if a is not None and b is not None: return list(it[a:b])
            if n.op != 'c':
                raise Unsup('copy of unknown length')
            return [self.elem(st, c, add(i, I(j))) for j in range(n.a)]
        if n is ONE: return [self.read(st, p.obj, p.path)]
        raise Unsup('copy source')
    def put(self, st, p, items):
        if p.path and p.path[-1][0] == 'i':
            v = self.objval(st, p.obj)
            c = self.rd(st, v, p.path[:-1])
            if isinstance(c, Heap) and (any(isinstance(x, T) and x.s == 't' for x in items) or st.ctx.simp(p.path[-1][1]).op != 'c' and len(items) > 1): c = self.heapbuf(c)
            if isinstance(c, Buf):
                nb = self.bufput(st, c, st.ctx.simp(p.path[-1][1]), tuple(items))
                self.write(st, p.obj, p.path[:-1], nb)
                if not p.path[:-1]: self.writes.add((p.obj, ()))
                return
            i = p.path[-1][1]
            for j, x in enumerate(items):
                if isinstance(x, T) and x.s == 't': raise Unsup('text into an array')
                self.write(st, p.obj, p.path[:-1] + (('i', add(i, I(j))),), x)
            return
        if len(items) == 1: self.write(st, p.obj, p.path, items[0]); return
        raise Unsup('copy destination')
