"""Obligations: the value graph of an exported function, compared with the value graph the property prescribes."""
import sys, time, traceback, re, os
sys.setrecursionlimit(200000)
from terms import *
import ops, logic
from logic import Ctx, Eq, Budget, find_valuation
from interp import *
import models
from models import Models

PROGS = {}
MODELS = Models()
def prog(profile): return PROGS[profile]

PERM = {}         # exported function -> order in which the arguments are handed over (see specs/st.py, C36)
class Res(dict):
    """outcome of one obligation"""

def rng(bits, signed): return (-(1 << (bits-1)), (1 << (bits-1))-1) if signed else (0, (1 << bits)-1)
def argvar(P, ti, name):
    t = P.ty(ti); k = t['k']
    if k == 'bool': return bvar(name)
    if k == 'int': return var(name, *rng(t['bits'], t['signed']))
    if k == 'float': return var(name, 0, (1 << t['bits'])-1)
    if k == 'char': return var(name, 0, 0x10ffff)
    raise Unsup('argument type ' + t['s'])
NAMES = ['in1', 'in2', 'in3', 'in4', 'in5', 'in6', 'in7', 'in8']
def scalar_args(P, sym):
    return [argvar(P, i, NAMES[n]) for n, i in enumerate(P.exports[sym]['inputs'])]

def loc(P, sym):
    e = P.exports.get(sym)
    return P.where(e['sp']) if e else '?'

class Run:
    """one abstract execution of an exported function"""
    def __init__(self, P, sym, args, mem=None, assume=(), ctx=None, budget=60000, interp=None):
        self.P = P; self.sym = sym
        self.I = I_ = interp or Interp(P, MODELS, budget=budget)
        self.assume = list(assume)
        c = ctx or Ctx()
        for a in self.assume: c = c.assume(a)
        self.ctx0 = c
        self.ok = not c.dead
        st = St(dict(mem or {}), c, TRUE)
        np = len(I_.panics)
        if sym in PERM: args = [args[i] for i in PERM[sym]]
        r = I_.call_key(st, sym, args) if self.ok else None
        self.ret, self.st = r if r else (None, None)
        ps = I_.panics[np:]
        self.panics = [p for p in ps if not p.kind.startswith('UB')]
        self.ubs = [p for p in ps if p.kind.startswith('UB')]
        self.pg = or_(*[p.guard for p in self.panics])
    def mem(self, obj, path=()): return self.I.rd(self.st, self.I.objval(self.st, obj), path)

def flag(v):
    """a term from a scalar value"""
    if isinstance(v, T): return v
    if isinstance(v, Agg) and len(v.f) == 1: return flag(v.f[0])
    if isinstance(v, VIte): return ite(v.c, flag(v.a), flag(v.b))
    raise Unsup('observable of kind ' + type(v).__name__)

def envshow(env, fl=None):
    r = {}
    for k, v in sorted(env.items()): r[k] = v
    return r

def never(g, ctx):
    """whether case distinction shows that the guard is never met"""
    try: return Eq(budget=20000).run([g], [FALSE], ctx) is True
    except (Budget, RecursionError): return False
def judge(P, sym, run, outs, want_panic, floats=(), seed=1, tries=3000, what=''):
    """compare: returns Res. outs: list of (label, got, want); want_panic: term"""
    res = Res(sym=sym, loc=loc(P, sym), cells=0, fns=sorted(run.I.touched), steps=run.I.steps, calls=run.I.calls, status='PROVED', sites=len(run.panics))
    ctx = run.ctx0
    assume = run.assume
    if want_panic is None: want_panic = run.pg        # panics are not part of this obligation
    eqn = Eq(budget=20000)
    def refute(pred, ts, cell, kind):
        env = find_valuation(pred, ts, assume=assume, seed=seed, tries=tries, cell=cell)
        return env
    # memory safety
    for u in run.ubs:
        g = ctx.simp(and_(u.guard, not_(want_panic)))
        if g is FALSE or ctx.assume(g).dead: continue
        env = refute(lambda e: ev(g, e, {}), [g], ctx.assume(g), 'ub')
        if env is None and g is not TRUE:
            if never(g, ctx): continue
            res.update(status='UNDECIDED', why=f'{u.kind} at {u.where} not excluded'); continue
        res.update(status='VIOLATION', loc=u.where, fn=u.fn, msg=f'{sym}: {u.kind[4:]} at {u.where}', witness=envshow(env or {})); return res
    # panics
    try:
        okp = eqn.run([run.pg], [want_panic], ctx)
    except (Budget, RecursionError): okp = None
    if okp is not True:
        cell = eqn.fail[1] if okp is False and eqn.fail else None
        m = {}
        env = refute(lambda e: ev(run.pg, e, {}) != ev(want_panic, e, {}), [run.pg, want_panic], cell, 'panic')
        if env is not None:
            memo = {}
            got = ev(run.pg, env, memo)
            site = None
            for p in run.panics:
                try:
                    if ev(p.guard, env, {}): site = p
                except Exception: pass
            if got: msg = f'{sym} panics ({site.kind if site else "panic"} at {site.where if site else "?"}) where the property excludes it'
            else: msg = f'{sym} returns a value where the property demands a panic'
            res.update(status='VIOLATION', loc=site.where if site else res['loc'], fn=site.fn if site else None, msg=msg, witness=envshow(env)); return res
        res.update(status='UNDECIDED', why='panic condition not decided' + (' (budget)' if okp is None else f': got {show(run.pg)[:200]} want {show(want_panic)[:200]}'))
    if not outs:
        res['cells'] = eqn.cells; return res
    ctx1 = ctx.assume(want_panic, False)
    if run.pg is not want_panic and not ctx1.dead: ctx1 = ctx1.assume(run.pg, False)
    if ctx1.dead:
        res['cells'] = eqn.cells; return res
    for label, got, want in outs:
        if got.s != want.s:
            if got.s == 'b' and want.s == 'i': got = b2i(got)
            elif got.s == 'i' and want.s == 'b': got = ne(got, ZERO)
        e2 = Eq(budget=20000)
        try: ok = e2.run([got], [want], ctx1)
        except (Budget, RecursionError): ok = None
        eqn.cells += e2.cells
        if ok: continue
        w = dict(floats).get(label)
        def differ(e):
            memo = {}
            if ev(want_panic, e, memo) or ev(run.pg, e, memo): return False
            a, b = ev(got, e, memo), ev(want, e, memo)
            if a == b: return False
            if w:
                inf = ops.inf_bits(w); mask = (1 << (w-1))-1
                if (a & mask) > inf and (b & mask) > inf: return False
            return True
        cell = e2.fail[1] if ok is False and e2.fail else None
        env = refute(differ, [got, want, want_panic, run.pg], cell, label)
        if env is not None:
            memo = {}
            res.update(status='VIOLATION', fn=sym, msg=f'{sym}: {label} is {ev(got, env, memo)!r}, the property prescribes {ev(want, env, memo)!r}', witness=envshow(env)); return res
        res.update(status='UNDECIDED', why=f'{label} not decided' + (' (budget)' if ok is None else f': got {show(got)[:200]} want {show(want)[:200]}'))
    res['cells'] = eqn.cells
    return res

GAPS = (RecursionError, AttributeError, KeyError, IndexError, TypeError, AssertionError, ValueError, NotImplementedError, NoEval)
def traced(P, sym, args, mem, assume, excused, I_, what=''):
    """the analysis of all paths at once did not end: follow single traces, looking for one whose state repeats"""
    J = Interp(P, MODELS, budget=30000); J.traces = True; J.ubchecks = I_.ubchecks
    try: Run(P, sym, args, mem, assume, interp=J)
    except (Unsup, Budget) + GAPS: pass
    J.panics = [x for x in J.panics if x.kind == HANG]
    return early(P, sym, J, assume, excused, what)
def early(P, sym, I_, assume=(), excused=FALSE, what='', seed=1):
    """the analysis had to stop: an access outside an object met before that is a violation all the same"""
    c = Ctx()
    for a in assume: c = c.assume(a)
    for u in I_.panics:
        if not u.kind.startswith('UB'): continue
        try:
            g = c.simp(and_(u.guard, not_(excused)))
            if g is FALSE or c.assume(g).dead: continue
            env = {} if g is TRUE else find_valuation(lambda e: ev(g, e, {}), [g], assume=list(assume), seed=seed, tries=1000, cell=c.assume(g))
        except (Budget, Unsup) + GAPS: continue
        if env is None: continue
        return Res(sym=sym, status='VIOLATION', loc=u.where, fn=u.fn, msg=f'{sym}: {u.kind[4:]}' + what, witness=envshow(env), cells=0, fns=sorted(I_.touched), steps=I_.steps, calls=I_.calls)
def verify(P, sym, args=None, mem=None, assume=(), want_panic=FALSE, outs=None, floats=(), budget=60000, seed=1, tries=3000, interp=None):
    """analyse sym and judge it. outs: function(run) -> [(label, got, want)]"""
    if sym not in P.exports or sym not in P.fns:
        return Res(sym=sym, status='VIOLATION', loc='/repo/src', msg=f'exported function {sym} is missing', witness={}, cells=0, fns=[], steps=0, calls=0)
    if args is None: args = scalar_args(P, sym)
    I_ = interp or Interp(P, MODELS, budget=budget)
    try:
        run = Run(P, sym, args, mem, assume, interp=I_)
        if not run.ok: return Res(sym=sym, status='PROVED', cells=0, fns=[], steps=0, calls=0, note='empty domain')
        o = outs(run) if outs and run.st is not None else []
        return judge(P, sym, run, o, want_panic, floats, seed, tries)
    except Unsup as x:
        return early(P, sym, I_, assume, want_panic) or 'budget' in str(x) and traced(P, sym, args, mem, assume, want_panic, I_) or Res(sym=sym, status='UNDECIDED', why=str(x), loc=loc(P, sym), cells=0, fns=[], steps=0, calls=0)
    except Budget:
        return early(P, sym, I_, assume, want_panic) or traced(P, sym, args, mem, assume, want_panic, I_) or Res(sym=sym, status='UNDECIDED', why='budget', loc=loc(P, sym), cells=0, fns=[], steps=0, calls=0)
    except GAPS as x:
        tb = traceback.extract_tb(x.__traceback__)[-1]
        return early(P, sym, I_, assume, want_panic) or isinstance(x, RecursionError) and traced(P, sym, args, mem, assume, want_panic, I_) or Res(sym=sym, status='UNDECIDED', why=f'analysis gap: {type(x).__name__}: {x} ({os.path.basename(tb.filename)}:{tb.lineno})', loc=loc(P, sym), cells=0, fns=[], steps=0, calls=0)

TASKS = {}
def prop(pid, floor=1):
    """register the generator of the obligations of a property: f(tier) -> [(name, function, kwargs)]"""
    def d(f): TASKS[pid] = (f, floor); return f
    return d
