"""C44: calls read only their arguments. Every source object ends where the argument ends (a string at its terminator, a list at its
last element), the checks the standard library makes of the preconditions of its own unsafe functions are switched on in the analysed
code (UbChecks), and no read outside an object, no write outside one and no violated precondition may be reachable, whatever the
request. A null string pointer is the empty string."""
from verify import *
from scalar import V, ELEM, FL, INTS
import scalar, blocks, arrays, strings, effects
from strings import Str, ENC, DEST, DPTR, dest, acc, ranges, shapeset, tag, BIG, W32, NULL, APTR, ARGV
from effects import BLOCKSYMS, freestate, history, TIMER, strsyms
from blocks import Block, OBJ
def checked(P, budget=60000):
    i = Interp(P, MODELS, budget=budget); i.ubchecks = True; return i
def contained(P, sym, args, mem, assume=(), what='', budget=60000, seed=1, checks=True):
    """no access outside an object and no violated precondition in the value graph of the call; panics do not matter"""
    if sym not in P.exports or sym not in P.fns: return verify(P, sym)
    I_ = checked(P, budget) if checks and not RETURNS else Interp(P, MODELS, budget=budget)
    try: run = Run(P, sym, args, mem, assume, interp=I_)
    except (Unsup, Budget) + GAPS as x:
        I_.panics = [u for u in I_.panics if wanted(u)]
        return early(P, sym, I_, assume, FALSE, what, seed) or (str(x) == '' or 'budget' in str(x) or isinstance(x, RecursionError)) and traced(P, sym, args, mem, assume, FALSE, I_, what) or Res(sym=sym, status='UNDECIDED', why=str(x) or 'budget', loc=loc(P, sym), cells=0, fns=[], steps=0, calls=0)
    return ubfree(P, sym, run, what, seed)
RETURNS = False         # C45: whether the call returns is asked, not what it reads
def wanted(u): return u.kind.startswith('UB') and (u.kind == HANG) == RETURNS
def returns(P, sym, base, kw):
    """the same calls, asked whether they come to an end"""
    global RETURNS
    RETURNS = True
    try: return base(P, sym, **kw)
    finally: RETURNS = False
def ubfree(P, sym, run, what='', seed=1):
    res = Res(sym=sym, loc=loc(P, sym), cells=0, fns=sorted(run.I.touched), steps=run.I.steps, calls=run.I.calls, status='PROVED', sites=len(run.ubs))
    for u in run.ubs:
        if not wanted(u): continue
        g = run.ctx0.simp(u.guard)
        if g is FALSE or run.ctx0.assume(g).dead: continue
        env = find_valuation(lambda e: ev(g, e, {}), [g], assume=run.assume, seed=seed, tries=2000, cell=run.ctx0.assume(g))
        if env is None and g is not TRUE and never(g, run.ctx0): continue
        if env is None and g is not TRUE: res.update(status='UNDECIDED', why=f'{u.kind} at {u.where} not excluded'); continue
        res.update(status='VIOLATION', loc=u.where, fn=u.fn, msg=f'{sym}: {u.kind[4:]}' + what, witness=envshow(env or {})); return res
    return res
def exact(enc, shape, name): return Str(enc, shape, name, tail=0)
def vec(ptrs): return Arr(list(ptrs))
def requests(kind, s, t, n):
    """every request, inside and outside the string"""
    A = lambda *a: [s.ptr(), *a, DPTR]
    I32v = list(ranges(-1, n+1))
    if n > 8:      # long strings: the ends and the marks
        I32v = [(I(k), True) for k in sorted({-1, 0, 1, n-1, n, n+1, 127, 128, 255, 256} & set(range(-1, n+2)))] + [x for x in ranges(0, n+1) if x[0].op != 'c']
    v = [x for x, _ in I32v]
    if kind in ('LEFT', 'RIGHT'): return [A(k) for k in v]
    if kind in ('MID', 'DELETE'): return [A(k, p) for k in v for p in v]
    if kind == 'INSERT': return [A(t.ptr(), p) for p in v]
    if kind == 'REPLACE': return [A(t.ptr(), k, p) for k in v for p in v]
    if kind in ('NE', 'FIND'): return [[s.ptr(), t.ptr()], [t.ptr(), s.ptr()]]
    if kind in ('LEN', 'PARSE'): return [[s.ptr()]]
    return [A()]
TWO = ('INSERT', 'REPLACE', 'NE', 'FIND')
def reads(P, sym, enc, out, kind, shape):
    """one source shape, every request"""
    tot = Res(); budget = BIG if len(shape) > 20 else 60000; checks = len(shape) <= 20      # the library's own checks only for short strings
    if kind in ('CONCAT', 'CMP'):
        for lst in ([], [shape], [shape, '1'], ['1', shape], [shape, shape, '']):
            ss = [exact(enc, sh, f's{i}_') for i, sh in enumerate(lst)]
            mem = {ARGV: vec(s.ptr() for s in ss), **{s.obj: s.val for s in ss}}
            ns = [I(len(ss))] if ss else [ZERO, var('argc', -(1 << 31), -1)]
            for n in ns:
                if acc(tot, contained(P, sym, [DPTR, n, APTR] if kind == 'CONCAT' else [n, APTR], {**mem, DEST: dest(out or enc)}, what=f' for {len(lst)} strings', budget=budget, checks=checks)): return tot
        return tot
    if kind == 'PARSE':
        us = [(0x31, 0x39) if k == '1' else (1, 0x7f) for k in shape]; s = strings.Raw(us, 's'); s.val = Arr(s.flat + [ZERO])
        return contained(P, sym, [s.ptr()], {s.obj: s.val}, budget=budget, checks=checks)
    for sh2 in ('', '12', shape) if kind in TWO else ('',):
        s = exact(enc, shape, 's'); t = exact(enc, sh2, 't')
        if kind == 'FIND' and len(shape) > 20:
            s = strings.Span(enc, [strings.LOW]*len(shape), 's', tail=0); t = strings.Span(enc, [strings.HIGH], 't', tail=0)
        mem = {s.obj: s.val, t.obj: t.val}
        if out: mem[DEST] = dest(out)
        for a in requests(kind, s, t, s.n):
            req = ', '.join(show(x) for x in a if isinstance(x, T))
            if acc(tot, contained(P, sym, a, mem, what=f' for a string of {s.n} characters' + (f', request ({req})' if req else ''), budget=budget, checks=checks)): return tot
        if len(shape) > 8: break
    return tot
def widereads(P, sym, shape):
    obj = ('in', 's'); us = [u for i, k in enumerate(shape) for u in ops.utf16_units(var(f's{i}', *strings.W32[k][1:]), int(strings.W32[k][0]))]
    return contained(P, sym, [Ptr(obj, (('i', ZERO),)), DPTR], {obj: Arr(us + [ZERO]), DEST: dest('STRING')}, what=f' for a string of {len(us)} words', budget=BIG if len(shape) > 20 else 60000, checks=len(shape) <= 20)
def findreads(P, sym, enc, n, needle):
    """every text over two characters of n of them, searched for a text over the same two"""
    tot = Res(); t = strings.pattern(enc, needle, 'n', 0)
    for hay in strings.words(n, n):
        h = strings.pattern(enc, hay, 'h', 0)
        if acc(tot, contained(P, sym, [h.ptr(), t.ptr()], {h.obj: h.val, t.obj: t.val}, what=f' for {needle} in {hay}, for any two characters a < b', checks=False)): break
    return tot
def illformed(P, sym, enc, out, kind, spans):
    """a source that is not well-formed, with requests inside it"""
    tot = Res(); n = len(spans); w = ENC[enc][0]
    s = Str(enc, '', 's', tail=0); s.flat = [var(f's{i}', *x) for i, x in enumerate(spans)]; s.val = Arr(s.flat + [ZERO]); s.n = n
    t = exact(enc, '1', 't')
    mem = {s.obj: s.val, t.obj: t.val, ARGV: vec([s.ptr(), t.ptr()])}
    if out: mem[DEST] = dest(out)
    if kind == 'CONCAT': rq = [[DPTR, I(2), APTR]]
    elif kind == 'CMP': rq = [[I(2), APTR]]
    else:
        A = lambda *a: [s.ptr(), *a, DPTR]
        rq = {'LEFT': [A(I(1)), A(I(n))], 'RIGHT': [A(I(1)), A(I(n))], 'MID': [A(I(1), I(1)), A(I(1), I(n))], 'DELETE': [A(I(1), I(1)), A(I(1), I(n))],
              'INSERT': [A(t.ptr(), I(1)), [t.ptr(), s.ptr(), I(1), DPTR]], 'REPLACE': [A(t.ptr(), I(1), I(1)), [t.ptr(), s.ptr(), I(1), I(1), DPTR]],
              'NE': [[s.ptr(), t.ptr()]], 'FIND': [[s.ptr(), t.ptr()], [t.ptr(), s.ptr()]], 'LEN': [[s.ptr()]], 'PARSE': [[s.ptr()]]}.get(kind, [A()])
    for a in rq:
        if acc(tot, contained(P, sym, a, mem, what=' for a source that is not well-formed')): return tot
    return tot
class Null:
    """the null pointer in place of a string"""
    def __init__(self): self.n = 0; self.flat = []; self.units = []; self.obj = ('in', 'none'); self.val = Arr([])
    def ptr(self): return NULL
    def sl(self, a, b=None): return []
def nullcase(P, sym, enc, out, kind):
    """null sources count as empty strings: the result is that of the empty string"""
    tot = Res(); z = Null(); t = exact(enc, '12', 't'); PAN = 'panic'
    A = lambda *a: [z.ptr(), *a, DPTR]; B = lambda *a: [t.ptr(), *a, DPTR]
    rq = {'LEFT': [(A(ZERO), []), (A(ONE), PAN)], 'RIGHT': [(A(ZERO), []), (A(ONE), PAN)], 'MID': [(A(ZERO, ONE), PAN)], 'DELETE': [(A(ONE, ONE), PAN)],
          'INSERT': [(A(t.ptr(), ZERO), t.flat), (B(z.ptr(), ONE), t.flat), (A(z.ptr(), ZERO), [])], 'REPLACE': [(A(t.ptr(), ONE, ONE), PAN), (B(z.ptr(), ONE, ONE), t.sl(1))],
          'CONCAT': [([DPTR, I(2), APTR], t.flat)], 'CMP': [([I(2), APTR], None)], 'NE': [([z.ptr(), t.ptr()], TRUE), ([t.ptr(), z.ptr()], TRUE), ([z.ptr(), z.ptr()], FALSE)],
          'FIND': [([z.ptr(), t.ptr()], ZERO), ([t.ptr(), z.ptr()], ZERO), ([z.ptr(), z.ptr()], ZERO)], 'LEN': [([z.ptr()], ZERO)], 'PARSE': [([z.ptr()], PAN)]}.get(kind, [(A(), [])])
    if kind == 'CMP':
        op = sym.split('__')[0]; rq = [([I(2), APTR], TRUE if op in ('LE', 'LT') else FALSE)]
    for args, want in rq:
        mem = {t.obj: t.val, ARGV: vec([z.ptr(), t.ptr()])}
        if out: mem[DEST] = dest(out)
        ret = want if isinstance(want, T) else ZERO
        def outs(run):
            o = []
            if kind != 'CONCAT' or 'EXT' in sym: o.append(('result', flag(run.ret), ret))
            if isinstance(want, list): o += strings.units_out(run, want)
            return o
        if acc(tot, contained(P, sym, args, mem), 'a null source string'): return tot
        if RETURNS: continue
        r = verify(P, sym, args=args, mem=mem, want_panic=TRUE if want is PAN else FALSE, outs=None if want is PAN else outs, interp=checked(P))
        if acc(tot, r, 'a null source string'): return tot
    return tot
def listreads(P, sym, t, n):
    w = int(t[1:]); obj = ('in', 'list'); xs = [V(f'x{i}', w, t[0] == 'i') for i in range(n)]
    if n > 8: xs = [I(i % 7 if w > 1 else i % 2) for i in range(n)]
    tot = Res()
    for a in [[I(n), Ptr(obj, (('i', ZERO),))]] + ([[V('size', 32, False), NULL]] if n == 1 else []):
        if acc(tot, contained(P, sym, a, {obj: Arr(xs)}, what=f' for a list of {n} elements', checks=n <= 20)): return tot
    return tot
@effects.guarded
def blockreads(P, sym):
    if sym not in P.fns: return verify(P, sym)
    B = Block(P, sym, BLOCKSYMS[sym]); timed = BLOCKSYMS[sym] is TIMER
    doc, inst = freestate(P, B)
    r = contained(P, sym, [Ptr(OBJ, ())], {OBJ: inst}, assume=[ge(doc['PT'], ZERO)] if timed else ())
    if r['status'] == 'PROVED': return r
    run, _, _ = history(P, B, timed, 3)
    u = ubfree(P, sym, run, ' within three calls')
    if u['status'] == 'VIOLATION': return u
    return Res(u, status='UNDECIDED', why='accesses in an arbitrary state: ' + str(r.get('why') or r.get('msg')))
def plain(P, sym):
    """functions without source pointers: outputs are single variables of their type, a text destination has 81 bytes"""
    if sym not in P.exports or sym not in P.fns: return verify(P, sym)
    args = []; mem = {}; asm = []
    if sym == 'TIME_TO_STRING_EXT':
        tot = Res()
        for v, cond in strings.timecases():
            if acc(tot, contained(P, sym, [v, DPTR], {DEST: dest('STRING')}, cond)): break
        return tot
    for k, ti in enumerate(P.exports[sym]['inputs']):
        t = P.ty(ti)
        if t['k'] in ('ref', 'ptr'):
            e = P.ty(t['to'])
            if sym.endswith('_TO_STRING_EXT'): mem[DEST] = Buf('dest', None, (), 255, cap=81) if CAPBUF else dest('STRING'); args.append(DPTR); continue
            if e['k'] != 'int': raise Unsup('output of type ' + e['s'])
            mem[('out', k)] = V(f'old{k}', e['bits'], e['signed']); args.append(Ptr(('out', k), ()))
        else: args.append(argvar(P, ti, NAMES[k]))
    return contained(P, sym, args, mem, asm)
CAPBUF = False
BAD8 = {'lead byte before a letter': [(0xc2, 0xf4), (1, 0x7f)], 'lone continuation byte': [(0x80, 0xbf)], 'invalid lead byte': [(0xf8, 0xff)], 'truncated two-byte character': [(1, 0x7f), (0xc2, 0xdf)], 'truncated three-byte character': [(0xe1, 0xec), (0x80, 0xbf)], 'truncated four-byte character': [(0xf1, 0xf3), (0x80, 0xbf), (0x80, 0xbf)],
        'lead byte alone': [(0xf0, 0xf4)], 'overlong': [(0xc0, 0xc1), (0x80, 0xbf)], 'continuation after a letter': [(0x41, 0x5a), (0x80, 0xbf)]}
BAD16 = {'high surrogate at the end': [(1, 0x7f), (0xd800, 0xdbff)], 'low surrogate first': [(0xdc00, 0xdfff), (1, 0x7f)], 'two high surrogates': [(0xd800, 0xdbff)]*2}
@prop('C44', 1000)
def c44(tier): return calls(tier)
@prop('C45', 1000)
def c45(tier): return [(n, returns, dict(sym=k['sym'], base=f, kw={x: y for x, y in k.items() if x != 'sym'})) for n, f, k in calls(tier)]
def calls(tier):
    r = []; P = PROGS['dev']; q = tier == 'quick'; done = set()
    for sym, enc, out, k in strsyms():
        done.add(sym); two = k in ('MID', 'DELETE', 'REPLACE')
        sh = ['', '1', 'f', '2', '12', '111'] + (['3', '4', '121', '444'] if enc == 'STRING' else ['22', '121'])
        if not q: sh = shapeset(enc, tier, 2, sh + ['1'*5, '2'*4])
        if not two: sh += ['1'*90, '1'*130, '1'*300]
        elif not q: sh += ['1'*130, '1'*300]
        if q and k in ('FIND', 'CMP', 'INSERT'): sh = [x for x in sh if len(x) < 200]
        if k == 'PARSE': sh = ['', '1', '12', '11', '111', '1'*19] + ([] if q else ['22', '1'*90])
        if sym == 'WSTRING_TO_STRING_EXT':
            for x in ['', '12', '111', '1234flh', '1'*90, '3'*60] + list('1234fhl'): r.append((f'{sym}[{tag(x) or "empty"}]', widereads, dict(sym=sym, shape=x)))
            sh = []
        for x in sh: r.append((f'{sym}[{tag(x) or "empty"}]', reads, dict(sym=sym, enc=enc, out=out, kind=k, shape=x)))
        for n, sp in (BAD8 if enc == 'STRING' else BAD16).items(): r.append((f'{sym}[{n}]', illformed, dict(sym=sym, enc=enc, out=out, kind=k, spans=sp)))
        r.append((f'{sym}[null]', nullcase, dict(sym=sym, enc=enc, out=out, kind=k)))
    for enc in ENC:
        for w in [w for w in strings.words(4, 1) if w[0] == 'a']: r.append((f'FIND__{enc}[{w} in {5 if q else 7} of a, b]', findreads, dict(sym=f'FIND__{enc}', enc=enc, n=5 if q else 7, needle=w)))
    for E_, t in ELEM.items():
        for op in ('MAX', 'MIN'):
            done.add(f'{op}__{E_}')
            for n in (0, 1, 2, 5) + (() if t[0] == 'f' else (300,)): r.append((f'{op}__{E_}[{n} elements]', listreads, dict(sym=f'{op}__{E_}', t=t, n=n)))
    for s in BLOCKSYMS: done.add(s); r.append((s, blockreads, dict(sym=s)))
    for s in sorted(P.exports):
        if s in done: continue
        r.append((s, plain, dict(sym=s)))
    return r
