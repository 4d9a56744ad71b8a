"""Function blocks: one call of a block against its automaton, for every reachable state (C09-C15)."""
import itertools
from verify import *
from scalar import INTS, V, rty
from models import CLK

# documented layout of each block (as its Structured Text declaration orders it): (role, name, type)
def lay(fields):
    """C layout: name -> offset"""
    off = 0; r = {}
    for role, n, t in fields:
        sz = 1 if t == 'bool' else int(t[1:]) // 8
        off = (off + sz - 1) // sz * sz; r[n] = off; off += sz
    return r
class Bad(Exception): pass
SIZE = {'bool': 1, **{s + str(b): b // 8 for s in 'iu' for b in (8, 16, 32, 64)}}
class Block:
    """fields of the instance by documented offset; everything else is internal state"""
    def __init__(self, P, sym, fields):
        self.P = P; self.sym = sym; self.fields = fields
        e = P.exports[sym]
        if len(e['inputs']) != 1: raise Bad(f'{sym} takes {len(e["inputs"])} arguments')
        t = P.ty(e['inputs'][0])
        if t['k'] not in ('ref', 'ptr') or P.ty(t['to'])['k'] != 'adt': raise Bad(f'{sym} does not take a block instance')
        self.ty = t['to']
        want = lay(fields); self.path = {}; self.fty = {}
        flat = list(self._flat(self.ty, (), 0))
        for role, n, ty in fields:
            at = [(p, ti) for p, ti, o in flat if o == want[n] and (P.ty(ti).get("layout") or {}).get("size", P.ty(ti).get("bits", 8) // 8) == SIZE[ty]]
            k = [x for x in at if P.ty(x[1])['s'] == ty]
            if len(k) != 1:
                if at: raise Unsup(f'{sym}: {P.ty(at[0][1])["s"]} where {n} of type {ty} is documented')
                raise Bad(f'{sym}: the instance has no {ty} at offset {want[n]} for {n}')
            self.path[n], self.fty[n] = k[0]
        docp = set(self.path.values())
        self.leaves = []          # (path, kind) of the internal leaves
        self.docp = {p: n for n, p in self.path.items()}
        self._leaves(self.ty, ())
    def _flat(self, ti, path, off):
        """(path, type, offset) of every part of the instance"""
        t = self.P.ty(ti); lo = (t.get('layout') or {}).get('off') or []
        if path: yield path, ti, off
        if t['k'] == 'adt' and t['adt'] == 'struct' and not t['name'].endswith(('time::Instant', 'time::Duration')):
            for n, f in enumerate(t['variants'][0]['fields']): yield from self._flat(f[1], path + (('f', n),), off + (lo[n] if n < len(lo) else 0))
        elif t['k'] == 'tuple':
            for n, e in enumerate(t.get('elems') or []): yield from self._flat(e, path + (('f', n),), off + (lo[n] if n < len(lo) else 0))
    def get(self, I_, st, m, n): return flag(I_.rd(st, m, self.path[n]))
    def put(self, v, n, x):
        def go(v, p):
            if not p: return x
            f = list(v.f); f[p[0][1]] = go(f[p[0][1]], p[1:]); return Agg(f)
        return go(v, self.path[n])
    def peek(self, v, n):
        for _, i in self.path[n]: v = v.f[i]
        return flag(v)
    def _leaves(self, ti, path):
        t = self.P.ty(ti)
        if path in self.docp: return
        if t['k'] == 'bool': self.leaves.append((path, 'bool', ti))
        elif t['k'] == 'int': self.leaves.append((path, 'int', ti))
        elif t['k'] == 'adt' and t['name'].endswith('time::Instant'): self.leaves.append((path, 'inst', ti))
        elif t['k'] == 'adt' and t['name'].endswith('time::Duration'): self.leaves.append((path, 'dur', ti))
        elif t['k'] == 'adt' and t['adt'] == 'struct':
            for n, f in enumerate(t['variants'][0]['fields']): self._leaves(f[1], path + (('f', n),))
        elif t['k'] == 'adt' and t['name'].endswith('option::Option') and self.P.ty(t['variants'][1]['fields'][0][1]).get('name', '').endswith('time::Instant'):
            self.leaves.append((path, 'optinst', ti))
        elif t['k'] == 'tuple':
            for n, e in enumerate(t.get('elems') or []): self._leaves(e, path + (('f', n),))
        else: self.leaves.append((path, 'other', ti))
    def zero(self, ti):
        t = self.P.ty(ti); k = t['k']
        if k == 'bool': return FALSE
        if k in ('int', 'float', 'char'): return ZERO
        if k == 'adt':
            if t['name'].endswith('time::Instant'): return Lib('inst', ZERO)
            if t['name'].endswith('time::Duration'): return Lib('dur', ZERO)
            if t['adt'] == 'struct': return Agg([self.zero(f[1]) for f in t['variants'][0]['fields']])
            if t['name'].endswith('option::Option'):
                p = t['variants'][1]['fields'][0][1]; q = self.P.ty(p)
                # a niche in a part that is 0 in a valid value makes the zeroed option Some
                if q['k'] in ('bool', 'char') or q.get('name', '').endswith(('time::Instant', 'time::Duration')): return En(ONE, {0: (), 1: (self.zero(p),)})
                if q['k'] in ('int', 'float'): return En(ZERO, {0: (), 1: (self.zero(p),)})
            if t['adt'] == 'enum' and all(not v['fields'] for v in t['variants']): return En(ZERO, {i: () for i in range(len(t['variants']))})
        if k == 'tuple': return UNIT
        raise Unsup('zeroed ' + t['s'])
    def build(self, doc, leafval):
        """instance value from documented fields and a function for the internal leaves"""
        def mk(ti, path):
            for lp, kind, lt_ in self.leaves:
                if lp == path: return leafval(lp, kind, lt_)
            if path in self.docp: return doc[self.docp[path]]
            t = self.P.ty(ti)
            if t['k'] == 'adt' and t['adt'] == 'struct': return Agg([mk(f[1], path + (('f', n),)) for n, f in enumerate(t['variants'][0]['fields'])])
            return UNIT
        return mk(self.ty, ())

OBJ = ('out', 'instance')
def fieldvar(n, ty, sfx=''): return bvar(n + sfx) if ty == 'bool' else V(n + sfx, int(ty[1:]), ty[0] == 'i')

def inductive(P, B, spec, assign, budget=30000, main=0):
    """one call from every state related to a ghost state; assign: ghost name per boolean leaf (or None)"""
    g = {n: bvar('ghost.' + n) for n in spec.bools}
    g['s'] = var('ghost.start', 0, (1 << 63)-1); now = var('now', 0, (1 << 63)-1)
    run = spec.running(g) if spec.timed else FALSE
    bl = [l for l in B.leaves if l[1] == 'bool']
    amap = {l[0]: a for l, a in zip(bl, assign)}
    cnt = [0]
    def leaf(path, kind, ti):
        if kind == 'bool':
            a = amap[path]
            if a: return g[a] if isinstance(a, str) else a(g)
            cnt[0] += 1; return bvar(f'free{cnt[0]}')
        cnt[0] += 1
        if kind == 'int':
            t = P.ty(ti); return V(f'free{cnt[0]}', t['bits'], t['signed'])
        free = var(f'free{cnt[0]}', 0, (1 << 63)-1)
        if kind == 'inst': return Lib('inst', ite(run, g['s'], free))
        if kind == 'optinst': return En(ite(or_(run, bvar(f'some{cnt[0]}')), ONE, ZERO), {0: (), 1: (Lib('inst', ite(run, g['s'], free)),)})
        raise Unsup('internal state of another type')
    doc = {n: fieldvar(n, ty) for _, n, ty in B.fields}
    assume = list(spec.assume(doc)) + list(spec.inv(g, doc)) + ([le(g['s'], now)] if spec.timed else [])
    g2, out = spec.step(g, doc, now)
    def outs(run_):
        m = run_.mem(OBJ)
        r = []
        for role, n, ty in B.fields:
            r.append((n, B.get(run_.I, run_.st, m, n), doc[n] if role == 'in' else out[n]))
        for lp, kind, ti in B.leaves:
            v = run_.I.rd(run_.st, m, lp)
            if kind == 'bool' and amap[lp]:
                a = amap[lp]; r.append(('state', flag(v), g2[a] if isinstance(a, str) else a(g2)))
            elif kind in ('inst', 'optinst') and spec.timed:
                run2 = spec.running(g2)
                some, w = startof(v, kind)
                r.append(('start is set', or_(not_(run2), some), TRUE)); r.append(('start', ite(run2, w, g2['s']), g2['s']))
        for i, c in enumerate(spec.inv(g2, out)): r.append((f'invariant {i}', c, TRUE))
        return r
    I_ = Interp(P, MODELS, budget=budget); I_.clk_main = main
    mem = {OBJ: B.build(doc, leaf)}
    if spec.timed: mem[CLK] = ZERO
    r = verify(P, B.sym, args=[Ptr(OBJ, ())], mem=mem, assume=assume, outs=outs, tries=1, budget=budget, interp=I_)
    r['readings'] = len(I_.clkfacts) and len({x for f in I_.clkfacts for x in logic.variables([f])}) or 1
    return r
def startof(v, kind):
    if isinstance(v, VIte):
        a, b = startof(v.a, kind), startof(v.b, kind); return ite(v.c, a[0], b[0]), ite(v.c, a[1], b[1])
    if kind == 'inst': return TRUE, v.f[0]
    some = eq(v.d, ONE)
    x = v.v.get(1)
    if not x: return some, ZERO
    return some, instterm(x[0])
def instterm(x):
    if isinstance(x, VIte): return ite(x.c, instterm(x.a), instterm(x.b))
    if x is Undef: return ZERO
    return x.f[0]

def unrolled(P, B, spec, k, seed=1, budget=60000, tries=6000, main=0):
    """k successive calls from the zero-initialised instance against the automaton"""
    I_ = Interp(P, MODELS, budget=budget); I_.clk_main = main
    doc = {n: (B.zero(B.fty[n])) for _, n, ty in B.fields}
    assume = []
    start = {}
    for role, n, ty in B.fields:
        if role == 'out' and n in spec.anyout: doc[n] = start[n] = fieldvar(n, ty, '_0')
    assume += list(spec.startassume(doc))
    mem = {OBJ: B.build(doc, lambda p, kind, ti: B.zero(ti))}
    g = {n: FALSE for n in spec.bools}; g['s'] = ZERO
    outs = []; ubs = []; panics = []
    prev = None; nf = 0
    c = Ctx()
    for a in assume: c = c.assume(a)
    pg = FALSE
    for j in range(1, k+1):
        sfx = f'_{j}'
        I_.epoch = sfx; now = var('now' + sfx, 0, (1 << 63)-1)
        if spec.timed:
            a = le(prev, now) if prev is not None else TRUE
            assume.append(a); c = c.assume(a); prev = now
            for f in I_.clkfacts[nf:]:        # a call begins after every reading of the one before
                assume.append(f); c = c.assume(f)
                for x in logic.variables([f]).values():
                    a = le(x, now); assume.append(a); c = c.assume(a)
            nf = len(I_.clkfacts)
        ins = {n: fieldvar(n, ty, sfx) for role, n, ty in B.fields if role == 'in'}
        for a in spec.assume(ins): assume.append(a); c = c.assume(a)
        if c.dead: break
        inst = mem[OBJ]
        for n, v in ins.items(): inst = B.put(inst, n, v)
        cur = {n: B.peek(inst, n) for _, n, _t in B.fields}
        old = {n: (out[n] if j > 1 else cur[n]) if role == 'out' else ins[n] for role, n, _t in B.fields}
        st = St({OBJ: inst, CLK: ZERO} if spec.timed else {OBJ: inst}, c, TRUE)
        np = len(I_.panics)
        r = I_.call_key(st, B.sym, [Ptr(OBJ, ())])
        for p in I_.panics[np:]:
            pg = or_(pg, p.guard); panics.append(p)
        if r is None: break
        g, out = spec.step(g, old, now)
        m = r[1].mem[OBJ]
        for role, n, ty in B.fields:
            outs.append((f'{n} after call {j}', B.get(I_, r[1], m, n), ins[n] if role == 'in' else out[n]))
        mem = {OBJ: m}
    class R: pass
    assume += [f for f in I_.clkfacts if f not in assume]
    for f in I_.clkfacts: c = c.assume(f)
    run = R(); run.I = I_; run.assume = assume; run.ctx0 = c; run.ubs = [p for p in panics if p.kind.startswith('UB')]; run.panics = [p for p in panics if not p.kind.startswith('UB')]
    run.pg = or_(*[p.guard for p in run.panics])
    return judge(P, B.sym, run, outs, FALSE, seed=seed, tries=tries)

def block(P, sym, fields, spec, k=3, tier='quick'):
    if sym not in P.exports or sym not in P.fns: return verify(P, sym)
    base = dict(sym=sym, loc=loc(P, sym), cells=0, fns=[], steps=0, calls=0, witness={})
    try: B = Block(P, sym, fields)
    except Bad as x: return Res(base, status='VIOLATION', msg=str(x))
    nb = sum(1 for l in B.leaves if l[1] == 'bool')
    cands = [None] + list(spec.bools)
    best = None; tried = 0; why = ''
    order = sorted(itertools.product(range(len(cands)), repeat=nb), key=lambda a: sum(1 for x in a if x == 0)) if nb <= 4 else []
    # where a call reads the clock several times, its outputs have to agree with one of the readings
    mains = [0]
    for main, a in ((m, a) for m in mains for a in order):
        if tried >= 40*len(mains): break
        tried += 1
        r = inductive(P, B, spec, [cands[x] for x in a], main=main)
        if r.get('readings', 1) > len(mains): mains.append(len(mains))
        if r['status'] == 'PROVED':
            r['cases'] = tried; r['relation'] = [cands[x] for x in a]; best = r; break
        why = r.get('why') or r.get('msg') or why
        if 'not decided' not in why and r['status'] == 'UNDECIDED' and tried > 2: break
    if best is not None and tier == 'quick': return best
    u = None
    for main in mains:
        try: u = unrolled(P, B, spec, k, main=main)
        except (Unsup, Budget, logic.Budget) as x: u = Res(base, status='UNDECIDED', why=str(x) or 'budget')
        if u['status'] != 'VIOLATION': break
    if best is not None:
        best['unrolled'] = u['status']
        if u['status'] == 'VIOLATION': return u
        return best
    if u['status'] == 'VIOLATION': return u
    return Res(u, status='UNDECIDED', why=f'no inductive relation found ({why[:200]}); histories of {k} calls: {u["status"]} {u.get("why", "")}')

class Spec:
    timed = False; bools = (); anyout = ()
    def assume(self, d): return ()
    def startassume(self, d): return ()
    def inv(self, g, d): return ()
    def running(self, g): return FALSE
# ---------------------------------------------------------------- C09
LATCH = [('in', 'SET', 'bool'), ('in', 'RESET', 'bool'), ('out', 'Q', 'bool')]
class SRs(Spec):
    anyout = ('Q',)
    def __init__(self, dom): self.dom = dom
    def step(self, g, d, now):
        if self.dom == 'S': q = or_(d['SET'], and_(d['Q'], not_(d['RESET'])))
        else: q = and_(not_(d['RESET']), or_(d['SET'], d['Q']))
        return g, {'Q': q}
@prop('C09', 2)
def c09(tier): return [('SR', block, dict(sym='SR', fields=LATCH, spec=SRs('S'), tier=tier)), ('RS', block, dict(sym='RS', fields=LATCH, spec=SRs('R'), tier=tier))]
# ---------------------------------------------------------------- C10
class Trig(Spec):
    bools = ('prev',); anyout = ('Q',)
    def __init__(self, rise): self.rise = rise
    def step(self, g, d, now):
        c, p = d['CLK'], g['prev']
        return dict(g, prev=c), {'Q': and_(c, not_(p)) if self.rise else and_(not_(c), p)}
TRIG = [('in', 'CLK', 'bool'), ('out', 'Q', 'bool')]
@prop('C10', 2)
def c10(tier): return [('R_TRIG', block, dict(sym='R_TRIG', fields=TRIG, spec=Trig(True), tier=tier)), ('F_TRIG', block, dict(sym='F_TRIG', fields=TRIG, spec=Trig(False), tier=tier))]
# ---------------------------------------------------------------- C11, C12
CT = {'': 'i16', '_INT': 'i16', '_DINT': 'i32', '_UDINT': 'u32', '_LINT': 'i64', '_ULINT': 'u64'}
class CTU(Spec):
    bools = ('prev',); anyout = ('CV', 'Q')
    def __init__(self, ty): self.lo, self.hi = rng(int(ty[1:]), ty[0] == 'i')
    def inv(self, g, d): return [ge(d['CV'], ZERO)]
    def startassume(self, d): return [ge(d['CV'], ZERO)]
    def step(self, g, d, now):
        edge = and_(d['CU'], not_(g['prev']))
        cv = ite(d['R'], ZERO, ite(and_(edge, lt(d['CV'], I(self.hi))), add(d['CV'], ONE), d['CV']))
        return dict(g, prev=ite_b(d['R'], g['prev'], d['CU'])), {'CV': cv, 'Q': ge(cv, d['PV'])}
class CTD(Spec):
    bools = ('prev',); anyout = ('CV', 'Q')
    def __init__(self, ty): self.lo, self.hi = rng(int(ty[1:]), ty[0] == 'i')
    def step(self, g, d, now):
        edge = and_(d['CD'], not_(g['prev']))
        cv = ite(d['LD'], d['PV'], ite(and_(edge, gt(d['CV'], I(self.lo))), sub(d['CV'], ONE), d['CV']))
        return dict(g, prev=ite_b(d['LD'], g['prev'], d['CD'])), {'CV': cv, 'Q': le(cv, ZERO)}
class CTUD(Spec):
    bools = ('up', 'down'); anyout = ('CV', 'QU', 'QD')
    def __init__(self, ty): self.lo, self.hi = rng(int(ty[1:]), ty[0] == 'i')
    def step(self, g, d, now):
        u = and_(d['CU'], not_(g['up'])); w = and_(d['CD'], not_(g['down'])); hold = or_(d['R'], d['LD'])
        cv = ite(d['R'], ZERO, ite(d['LD'], d['PV'], ite(and_(u, w), d['CV'], ite(u, ite(lt(d['CV'], I(self.hi)), add(d['CV'], ONE), d['CV']), ite(w, ite(gt(d['CV'], I(self.lo)), sub(d['CV'], ONE), d['CV']), d['CV'])))))
        return dict(g, up=ite_b(hold, g['up'], d['CU']), down=ite_b(hold, g['down'], d['CD'])), {'CV': cv, 'QU': ge(cv, d['PV']), 'QD': le(cv, ZERO)}
def ite_b(c, a, b): return or_(and_(c, a), and_(not_(c), b))
@prop('C11', 12)
def c11(tier):
    r = []
    for s, t in CT.items():
        r.append(('CTU' + s, block, dict(sym='CTU' + s, fields=[('in', 'CU', 'bool'), ('in', 'R', 'bool'), ('in', 'PV', t), ('out', 'Q', 'bool'), ('out', 'CV', t)], spec=CTU(t), tier=tier)))
        r.append(('CTD' + s, block, dict(sym='CTD' + s, fields=[('in', 'CD', 'bool'), ('in', 'LD', 'bool'), ('in', 'PV', t), ('out', 'Q', 'bool'), ('out', 'CV', t)], spec=CTD(t), tier=tier)))
    return r
@prop('C12', 6)
def c12(tier):
    return [('CTUD' + s, block, dict(sym='CTUD' + s, fields=[('in', 'CU', 'bool'), ('in', 'CD', 'bool'), ('in', 'R', 'bool'), ('in', 'LD', 'bool'), ('in', 'PV', t), ('out', 'QU', 'bool'), ('out', 'QD', 'bool'), ('out', 'CV', t)], spec=CTUD(t), k=3, tier=tier)) for s, t in CT.items()]
# ---------------------------------------------------------------- C13-C15
TIMER = [('in', 'IN', 'bool'), ('in', 'PT', 'i64'), ('out', 'Q', 'bool'), ('out', 'ET', 'i64')]
class Timer(Spec):
    timed = True; anyout = ()
    def assume(self, d): return [ge(d['PT'], ZERO)]
def tmin(a, b): return ite(lt(a, b), a, b)
class TPs(Timer):
    bools = ('prev', 'run')
    def running(self, g): return g['run']
    def inv(self, g, d): return [or_(g['run'], eq(d['ET'], ZERO))]
    def step(self, g, d, now):
        e = sub(now, g['s']); pt = d['PT']; i = d['IN']
        over = gt(e, pt); edge = and_(i, not_(g['prev']))
        q = or_(and_(g['run'], not_(over)), and_(not_(g['run']), edge))
        et = ite(g['run'], ite(and_(over, not_(i)), ZERO, tmin(e, pt)), ZERO)
        run = or_(and_(g['run'], not_(and_(over, not_(i)))), and_(not_(g['run']), edge))
        return dict(prev=i, run=run, s=ite(g['run'], g['s'], now)), {'Q': q, 'ET': et}
class TONs(Timer):
    bools = ('prev',)
    def running(self, g): return g['prev']
    def step(self, g, d, now):
        e = sub(now, g['s']); pt = d['PT']; i = d['IN']; stay = and_(i, g['prev'])
        return dict(prev=i, s=ite(stay, g['s'], now)), {'Q': and_(stay, gt(e, pt)), 'ET': ite(stay, tmin(e, pt), ZERO)}
class TOFs(Timer):
    bools = ('prev', 'run')
    def running(self, g): return g['run']
    def inv(self, g, d): return [not_(and_(g['prev'], g['run'])), or_(g['run'], eq(d['ET'], ZERO))]
    def step(self, g, d, now):
        e = sub(now, g['s']); pt = d['PT']; i = d['IN']; fall = and_(not_(i), g['prev']); wait = and_(not_(i), not_(g['prev']), g['run'])
        return dict(prev=i, run=and_(not_(i), or_(g['prev'], g['run'])), s=ite(fall, now, g['s'])), {'Q': or_(i, fall, and_(wait, le(e, pt))), 'ET': ite(wait, tmin(e, pt), ZERO)}
def timers(n, S, tier):
    return [(n + s, block, dict(sym=n + s, fields=TIMER, spec=S, k=4 if tier == 'quick' else 5, tier=tier)) for s in ('', '_TIME', '_LTIME')]
@prop('C13', 3)
def c13(tier): return timers('TP', TPs(), tier)
@prop('C14', 3)
def c14(tier): return timers('TON', TONs(), tier)
@prop('C15', 3)
def c15(tier): return timers('TOF', TOFs(), tier)
