"""Specifications of the STRING/WSTRING functions, per shape: the number of characters and the encoded width of each is fixed,
the characters themselves are symbolic; requests (positions, counts) are split into each value inside and the two ranges outside."""
import itertools
from verify import *
from scalar import V, T1, simple, FL
CLS8 = {'1': (1, 1, 0x7f), '2': (2, 0x80, 0x7ff), '3': (3, 0x800, 0xd7ff), 'f': (3, 0xe000, 0xffff), '4': (4, 0x10000, 0x10ffff)}
CLS16 = {'1': (1, 1, 0xd7ff), 'f': (1, 0xe000, 0xffff), '2': (2, 0x10000, 0x10ffff)}
ENC = {'STRING': (8, CLS8, ops.utf8_units), 'WSTRING': (16, CLS16, ops.utf16_units)}
I32 = rng(32, True)
class Str:
    """a NUL-terminated string of symbolic characters, followed by arbitrary memory"""
    def __init__(self, enc, shape, name, tail=2):
        w, cls, un = ENC[enc]
        self.enc = enc; self.chars = []; self.units = []; self.obj = ('in', name); self.bits = w
        for i, k in enumerate(shape):
            uw, lo, hi = cls[k]
            c = var(f'{name}{i}', lo, hi); self.chars.append(c); self.units.append(un(c, uw))
        self.flat = [u for us in self.units for u in us]
        self.val = Arr(self.flat + [ZERO] + [V(f'{name}.after{j}', w, False) for j in range(tail)])
        self.n = len(shape)
    def ptr(self): return Ptr(self.obj, (('i', ZERO),))
    def sl(self, a, b=None): return [u for us in self.units[a:b] for u in us]
DEST = ('out', 'dest')
def dest(enc): return Buf('dest', None, (), (1 << ENC[enc][0])-1)
DPTR = Ptr(DEST, (('i', ZERO),))
def acc(tot, r, detail=None):
    """accumulate the cases of one obligation; True to stop"""
    if not tot: tot.update(r); tot['cases'] = 1
    else:
        for k in ('cells', 'steps', 'calls'): tot[k] = tot.get(k, 0) + r.get(k, 0)
        tot['cases'] += 1
        tot['fns'] = sorted(set(tot.get('fns', [])) | set(r.get('fns', [])))
    if r['status'] == 'VIOLATION' or r['status'] == 'UNDECIDED' and tot['status'] == 'PROVED':
        for k in ('status', 'why', 'msg', 'witness', 'loc', 'fn'):
            if k in r: tot[k] = r[k]
        if detail and 'msg' in tot and r['status'] == 'VIOLATION': tot['msg'] += ' for ' + detail
    return r['status'] == 'VIOLATION'
def units_out(run, want, terminated=True, obj=DEST):
    """observables: the units at the start of the destination"""
    b = run.mem(obj)
    w = list(want) + ([ZERO] if terminated else [])
    o = []
    for i, u in enumerate(w): o.append((f'unit {i} of the result', flag(run.I.rd(run.st, b, (('i', I(i)),))), u))
    return o
def case(P, sym, args, strs, enc, want, ret=ZERO, assume=(), panic=False, extra=None, **kw):
    """one request: want = units of the result, or panic"""
    mem = {s.obj: s.val for s in strs}
    mem[DEST] = dest(enc)
    if extra: mem.update(extra)
    def outs(run):
        o = [('result', flag(run.ret), ret)] if ret is not None else []
        if want is not None: o += units_out(run, want)
        return o
    return verify(P, sym, args=args, mem=mem, assume=assume, want_panic=TRUE if panic else FALSE, outs=outs if not panic else None, **kw)
def ranges(lo, hi):
    """a DINT argument: each value in lo..hi and the ranges outside"""
    for v in range(lo, hi+1): yield I(v), True
    if lo > I32[0]: yield var('low', I32[0], lo-1), False
    if hi < I32[1]: yield var('high', hi+1, I32[1]), False
ANY = lambda n: var(n, *I32)
# ------------------------------------------------------------------------------------ shapes
def shapes(enc, n):
    k = sorted(ENC[enc][1])
    return [''.join(s) for s in itertools.product(k, repeat=n)]
def shapeset(enc, tier, full, extra=()):
    r = []
    for n in range(full+1): r += shapes(enc, n)
    return r + [x for x in extra if x not in r]
# ------------------------------------------------------------------------------------ C22
def length(P, sym, enc, shape):
    s = Str(enc, shape, 's')
    return verify(P, sym, args=[s.ptr()], mem={s.obj: s.val}, outs=lambda run: [('result', flag(run.ret), I(s.n))], budget=BIG if s.n < 4000 else 10**8)
LONG = {'STRING': ['1'*40, '1234f'*4, '1'*90, '1'*130, '12'*70, '1'*300], 'WSTRING': ['1'*40, '12f'*6, '1'*90, '1'*130, '12'*70, '1'*300]}
@prop('C22', 30)
def c22(tier):
    r = []
    for enc in ENC:
        for sh in shapeset(enc, tier, 3 if tier == 'quick' else 5 if enc == 'STRING' else 7, LONG[enc]):
            r.append((f'LEN__{enc}[{tag(sh)}]', length, dict(sym=f'LEN__{enc}', enc=enc, shape=sh)))
        for n in (33000,) if tier == 'quick' else (5000, 33000, 66000): r.append((f'LEN__{enc}[{n} characters]', length, dict(sym=f'LEN__{enc}', enc=enc, shape='1'*n, _once=True)))
    return r
def tag(sh): return sh if len(sh) < 12 else f'{sh[:5]}..x{len(sh)}'
# ------------------------------------------------------------------------------------ long strings: a few requests around the limits of narrow integers and of the default STRING
BIG = 400000
def marks(n, lo=0, tier='quick'): return sorted({k for k in ((lo, 81, 129, 257, n) if tier == 'quick' else (lo, 1, 79, 80, 81, 82, 127, 128, 129, 254, 255, 256, 257, n-1, n)) if lo <= k <= n})
def longs(enc, tier):
    r = ['12'*70, '1'*300]
    return r if tier == 'quick' else r + ['1'*90, '2'*130, '1'*255, '1'*256, '1'*1100, '12f'*50] + (['1234'*40] if enc == 'STRING' else [])
def long_edit(P, sym, enc, shape, kind, tier):
    s = Str(enc, shape, 's'); t = Str(enc, '21', 't'); tot = Res(); n = s.n; T2 = [s, t]
    def req(args, strs, want, what): return acc(tot, case(P, sym, args, strs, enc, want, panic=want is None, budget=BIG), f'{n} characters, {what}')
    cnt = [k for k in (1, 81, 130, 257, n) if k <= n]
    if kind in ('LEFT', 'RIGHT'):
        for L in marks(n, 0, tier) + [n+1]:
            if req([s.ptr(), I(L), DPTR], [s], None if L > n else s.sl(0, L) if kind == 'LEFT' else s.sl(n-L), f'length {L}'): break
    elif kind == 'INSERT':
        for p in marks(n, 0, tier) + [n+1]:
            if req([s.ptr(), t.ptr(), I(p), DPTR], T2, None if p > n else s.sl(0, p) + t.flat + s.sl(p), f'position {p}'): break
        else: req([t.ptr(), s.ptr(), ONE, DPTR], T2, t.sl(0, 1) + s.flat + t.sl(1), 'inserted at position 1')
    else:
        for p in marks(n, 1, tier):
            stop = False
            for k in sorted({1, n-p+1} | ({n-p+2} if p in (1, 81) else set()) | ({c for c in cnt if p in (1, 81, 129) and c <= n-p+1} if tier != 'quick' or p == 1 else set())):
                ok = k <= n-p+1
                if kind == 'MID': a, w = [s.ptr(), I(k), I(p), DPTR], s.sl(p-1, p-1+k)
                elif kind == 'DELETE': a, w = [s.ptr(), I(k), I(p), DPTR], s.sl(0, p-1) + s.sl(p-1+k)
                else: a, w = [s.ptr(), t.ptr(), I(k), I(p), DPTR], s.sl(0, p-1) + t.flat + s.sl(p-1+k)
                if req(a, T2 if kind == 'REPLACE' else [s], w if ok else None, f'count {k}, position {p}'): stop = True; break
            if stop: break
        else:
            if kind == 'REPLACE': req([t.ptr(), s.ptr(), ONE, I(2), DPTR], T2, t.sl(0, 1) + s.flat, f'replacing character 2 of 2')
    return tot
# ------------------------------------------------------------------------------------ C24
def substr(P, sym, enc, shape, kind):
    s = Str(enc, shape, 's'); tot = Res()
    n = s.n
    if kind in ('LEFT', 'RIGHT'):
        for L, ok in ranges(0, n):
            want = (s.sl(0, L.a) if kind == 'LEFT' else s.sl(n-L.a)) if ok else None
            r = case(P, sym, [s.ptr(), L, DPTR], [s], enc, want, panic=not ok)
            if acc(tot, r, f'{n} characters, length {show(L)}'): break
    else:
        for p, okp in ranges(1, n):
            if not okp:
                if acc(tot, case(P, sym, [s.ptr(), ANY('len'), p, DPTR], [s], enc, None, panic=True), f'{n} characters, position {show(p)}'): break
                continue
            stop = False
            for L, ok in ranges(0, n-p.a+1):
                r = case(P, sym, [s.ptr(), L, p, DPTR], [s], enc, s.sl(p.a-1, p.a-1+L.a) if ok else None, panic=not ok)
                if acc(tot, r, f'{n} characters, length {show(L)}, position {p.a}'): stop = True; break
            if stop: break
    return tot
@prop('C24', 60)
def c24(tier):
    r = []
    for enc in ENC:
        for k in ('LEFT', 'RIGHT', 'MID'):
            for sh in shapeset(enc, tier, 2 if tier == 'quick' else 4, ['111', '1111', '1211', '12121'] + (['1234', '4321', '3f12'] if enc == 'STRING' else ['2f12', '2222'])):
                r.append((f'{k}_EXT__{enc}[{tag(sh)}]', substr, dict(sym=f'{k}_EXT__{enc}', enc=enc, shape=sh, kind=k)))
            for sh in longs(enc, tier): r.append((f'{k}_EXT__{enc}[{tag(sh)}]', long_edit, dict(sym=f'{k}_EXT__{enc}', enc=enc, shape=sh, kind=k, tier=tier)))
    return r
# ------------------------------------------------------------------------------------ C23
def find(P, sym, enc, hay, needle):
    h = Str(enc, hay, 'h'); n = Str(enc, needle, 'n')
    want = ZERO
    if n.n and h.n:
        for p in range(h.n-n.n, -1, -1):
            if hay[p:p+n.n] != needle: continue
            want = ite(and_(*[eq(a, b) for a, b in zip(h.sl(p, p+n.n), n.flat)]), I(p+1), want)
    return verify(P, sym, args=[h.ptr(), n.ptr()], mem={h.obj: h.val, n.obj: n.val}, outs=lambda run: [('position', flag(run.ret), want)])
class Span(Str):
    """characters of given ranges"""
    def __init__(self, enc, spans, name, tail=2):
        Str.__init__(self, enc, '1'*len(spans), name, tail)
        self.chars = [var(f'{name}{i}', *x) for i, x in enumerate(spans)]; self.flat = list(self.chars); self.units = [[c] for c in self.chars]
        self.val = Arr(self.flat + list(self.val.f[len(spans):]))
LOW, HIGH = (0x61, 0x6d), (0x6e, 0x7a)
def find_long(P, sym, enc, n, where, needle):
    """a long text of letters a..m with letters n..z at the given places, searched for letters n..z"""
    h = Span(enc, [HIGH if i in where else LOW for i in range(n)], 'h'); t = Span(enc, [HIGH]*needle, 'n')
    want = ZERO
    for p in sorted(where, reverse=True):
        if all(p+j in where for j in range(needle)): want = ite(and_(*[eq(h.flat[p+j], t.flat[j]) for j in range(needle)]), I(p+1), want)
    return verify(P, sym, args=[h.ptr(), t.ptr()], mem={h.obj: h.val, t.obj: t.val}, outs=lambda run: [('position', flag(run.ret), want)], budget=BIG)
def pattern(enc, pat, name, tail=2):
    """a text over two different characters: every occurrence of one is the same arbitrary character"""
    s = Span(enc, [LOW]*len(pat), name, tail)
    s.flat = s.chars = [var(k, *(LOW if k == 'a' else HIGH)) for k in pat]; s.units = [[c] for c in s.flat]
    s.val = Arr(s.flat + list(s.val.f[len(pat):])); return s
def words(n, m=0): return [''.join(w) for k in range(m, n+1) for w in itertools.product('ab', repeat=k)]
def find_pattern(P, sym, enc, n, needle):
    """every text over two characters of n of them, searched for a text over the same two"""
    tot = Res(); t = pattern(enc, needle, 'n')
    for hay in words(n, n):
        h = pattern(enc, hay, 'h')
        if acc(tot, verify(P, sym, args=[h.ptr(), t.ptr()], mem={h.obj: h.val, t.obj: t.val}, outs=lambda run: [('position', flag(run.ret), I(hay.find(needle)+1))]), f'{needle} in {hay}, for any two characters a < b'): break
    return tot
@prop('C23', 60)
def c23(tier):
    r = []
    for enc in ENC:
        n, m = (6, 4) if tier == 'quick' else (8, 5)
        for w in words(m, 1): r.append((f'FIND__{enc}[{w} in {n} of a, b]', find_pattern, dict(sym=f'FIND__{enc}', enc=enc, n=n, needle=w)))
    for enc in ENC:
        for n, where, k in [(90, {79, 80, 81, 89}, 1), (300, {127, 128}, 1), (300, {254, 255, 299}, 1), (300, {126, 127, 128, 255, 256}, 2)] + ([] if tier == 'quick' else [(1100, {1023, 1024, 1099}, 1), (600, {511, 512}, 2)]):
            r.append((f'FIND__{enc}[{n} characters, {len(where)} candidates for {k}]', find_long, dict(sym=f'FIND__{enc}', enc=enc, n=n, where=frozenset(where), needle=k)))
    for enc in ENC:
        hs = shapeset(enc, tier, 2 if tier == 'quick' else 3, ['111', '1111', '1212', '2121', '11211'])
        for h in hs:
            ns = {'', '1', '2', '11', '21', '12'} | {h[i:j] for i in range(len(h)) for j in range(i+1, len(h)+1)} | {h + '1'}
            for n in sorted(ns): r.append((f'FIND__{enc}[{h}|{n}]', find, dict(sym=f'FIND__{enc}', enc=enc, hay=h, needle=n)))
    return r
# ------------------------------------------------------------------------------------ C25
def insert(P, sym, enc, base, ins):
    s = Str(enc, base, 's'); t = Str(enc, ins, 't'); tot = Res()
    for p, ok in ranges(0, s.n):
        want = s.sl(0, p.a) + t.flat + s.sl(p.a) if ok else None
        if acc(tot, case(P, sym, [s.ptr(), t.ptr(), p, DPTR], [s, t], enc, want, panic=not ok), f'{s.n} characters, position {show(p)}'): break
    return tot
def delete(P, sym, enc, base, repl=None):
    s = Str(enc, base, 's'); t = Str(enc, repl, 't') if repl is not None else None; tot = Res()
    strs = [s] + ([t] if t else [])
    pre = [x.ptr() for x in strs]
    for p, okp in ranges(1, s.n):
        if not okp:
            if acc(tot, case(P, sym, pre + [ANY('count'), p, DPTR], strs, enc, None, panic=True), f'{s.n} characters, position {show(p)}'): return tot
            continue
        for n, ok in ranges(0, s.n-p.a+1):
            want = s.sl(0, p.a-1) + (t.flat if t else []) + s.sl(p.a-1+n.a) if ok else None
            if acc(tot, case(P, sym, pre + [n, p, DPTR], strs, enc, want, panic=not ok), f'{s.n} characters, count {show(n)}, position {p.a}'): return tot
    return tot
MIX = {'STRING': ['1211', '1234', 'f111', '12121'], 'WSTRING': ['1211', '2f12', '2222', '12121']}
@prop('C25', 150)
def c25(tier):
    r = []; q = tier == 'quick'
    for enc in ENC:
        bases = shapeset(enc, tier, 2 if q else 3, ['111', '1111'] + MIX[enc])
        adds = shapeset(enc, tier, 1 if q else 2, ['12', '211'])
        for b in bases:
            r.append((f'DELETE_EXT__{enc}[{b}]', delete, dict(sym=f'DELETE_EXT__{enc}', enc=enc, base=b)))
            for a in (adds if len(b) < 3 else ['', '1', '21']):
                r.append((f'INSERT_EXT__{enc}[{b}|{a}]', insert, dict(sym=f'INSERT_EXT__{enc}', enc=enc, base=b, ins=a)))
                r.append((f'REPLACE_EXT__{enc}[{b}|{a}]', delete, dict(sym=f'REPLACE_EXT__{enc}', enc=enc, base=b, repl=a)))
        for k in ('INSERT', 'DELETE', 'REPLACE'):
            for sh in longs(enc, tier): r.append((f'{k}_EXT__{enc}[{tag(sh)}]', long_edit, dict(sym=f'{k}_EXT__{enc}', enc=enc, shape=sh, kind=k, tier=tier)))
    return r
# ------------------------------------------------------------------------------------ C26
ARGV = ('in', 'argv'); APTR = Ptr(ARGV, (('i', ZERO),))
NULL = Ptr(None, (('addr', ZERO),))
def vector(strs): return Arr([s.ptr() for s in strs] + [Ptr(('in', 'beyond'), (('i', ZERO),))])
def beyond(enc): return {('in', 'beyond'): Str(enc, '1', 'beyond').val}
def concat(P, sym, enc, shapes, argc=None, ret=ZERO):
    ss = [Str(enc, sh, f's{i}_') for i, sh in enumerate(shapes)]
    n = I(len(ss)) if argc is None else argc
    want = [u for s in ss for u in s.flat]
    return case(P, sym, [DPTR, n, APTR], ss, enc, want, ret=ret, budget=BIG, extra={ARGV: vector(ss), **beyond(enc)})
def concat_null(P, sym, enc, which):
    s = Str(enc, '1', 's')
    args = [DPTR, ANY('argc'), APTR]
    if 'dest' in which: args[0] = NULL
    if 'argv' in which: args[2] = NULL
    return case(P, sym, args, [s], enc, None, panic=True, extra={ARGV: vector([s]), **beyond(enc)})
@prop('C26', 100)
def c26(tier):
    r = []; q = tier == 'quick'
    for enc in ENC:
        lists = [[]] + [[s] for s in shapeset(enc, tier, 2, MIX[enc])]
        one = shapeset(enc, tier, 1)
        lists += [list(x) for x in itertools.product(one, repeat=2)] + [['12', '21'], ['1', '', '1'], ['', '', ''], ['12', '1', '21'], ['1', '2', '1', '2'], ['1']*8]
        lists += [['1'*90, '2', '1'*90], ['1'*300, '12'*20], ['12'*70, '1', '12'*70], ['1']*40, ['1']*130, ['']*300, ['', '1']*20]
        if not q: lists += [list(x) for x in itertools.product(one, repeat=3)] + [['12']*12, ['1']*300, ['12']*130, ['1'*1100, '2'*100]]
        for ext in ('', '_EXT'):
            sym = f'CONCAT{ext}__{enc}'; ret = ZERO if ext else None
            for l in lists: r.append((f'{sym}[{"|".join(tag(x) for x in l[:6])}{"..." if len(l) > 6 else ""}]x{len(l)}', concat, dict(sym=sym, enc=enc, shapes=l, ret=ret)))
            r.append((f'{sym}[argc<0]', concat, dict(sym=sym, enc=enc, shapes=[], argc=var('argc', I32[0], -1), ret=ret)))
            for w in ('dest', 'argv', 'dest+argv'): r.append((f'{sym}[null {w}]', concat_null, dict(sym=sym, enc=enc, which=w)))
    return r
# ------------------------------------------------------------------------------------ C27
def order(a, b):
    """(less, equal) of two unit sequences in lexicographic order"""
    if not a and not b: return FALSE, TRUE
    if not a: return TRUE, FALSE
    if not b: return FALSE, FALSE
    l, e = order(a[1:], b[1:])
    return or_(lt(a[0], b[0]), and_(eq(a[0], b[0]), l)), and_(eq(a[0], b[0]), e)
REL = {'GT': lambda l, e: and_(not_(l), not_(e)), 'GE': lambda l, e: not_(l), 'EQ': lambda l, e: e, 'LE': or_, 'LT': lambda l, e: l}
def compare(P, sym, enc, op, shapes):
    ss = [Str(enc, sh, f's{i}_') for i, sh in enumerate(shapes)]
    mem = {s.obj: s.val for s in ss}
    if op == 'NE':
        want = not_(order(ss[0].flat, ss[1].flat)[1])
        return verify(P, sym, args=[ss[0].ptr(), ss[1].ptr()], mem=mem, outs=lambda run: [('result', flag(run.ret), want)])
    mem[ARGV] = vector(ss); mem.update(beyond(enc))
    want = and_(*[REL[op](*order(a.flat, b.flat)) for a, b in zip(ss, ss[1:])])
    return verify(P, sym, args=[I(len(ss)), APTR], mem=mem, outs=lambda run: [('result', flag(run.ret), want)])
def compare_long(P, sym, enc, op, n, at, more):
    """two texts of n characters that agree except at one place, and may end at different places"""
    a = Str(enc, '1'*(n+more[0]), 'a'); b = Str(enc, '1'*(n+more[1]), 'b')
    fb = [x if i < n and i != at else y for i, (x, y) in enumerate(zip(a.flat + b.flat[len(a.flat):], b.flat))]
    b.flat = fb; b.units = [[u] for u in fb]; b.val = Arr(fb + list(b.val.f[len(fb):]))
    la, eq_ = order(a.flat[at:at+1], b.flat[at:at+1]) if at is not None else (FALSE, TRUE)
    l2, e2 = order(a.flat[n:], b.flat[n:])
    l, e = or_(la, and_(eq_, l2)), and_(eq_, e2)
    mem = {a.obj: a.val, b.obj: b.val}
    if op == 'NE': return verify(P, sym, args=[a.ptr(), b.ptr()], mem=mem, outs=lambda run: [('result', flag(run.ret), not_(e))], budget=BIG)
    mem[ARGV] = vector([a, b]); mem.update(beyond(enc))
    return verify(P, sym, args=[I(2), APTR], mem=mem, outs=lambda run: [('result', flag(run.ret), REL[op](l, e))], budget=BIG)
def compare_many(P, sym, enc, op, n, at):
    """n texts of one character, equal but for three of them"""
    ss = [Str(enc, '1', f's{i}_') for i in range(n)]
    x = ss[0]
    for i, s in enumerate(ss):
        if i not in at: s.flat = x.flat; s.units = x.units; s.val = Arr(x.flat + list(s.val.f[1:]))
    mem = {s.obj: s.val for s in ss}; mem[ARGV] = vector(ss); mem.update(beyond(enc))
    want = and_(*[REL[op](*order(a.flat, b.flat)) for a, b in zip(ss, ss[1:])])
    return verify(P, sym, args=[I(n), APTR], mem=mem, outs=lambda run: [('result', flag(run.ret), want)], budget=BIG)
def few(P, sym, enc):
    s = Str(enc, '1', 's')
    return verify(P, sym, args=[var('argc', I32[0], 1), APTR], mem={s.obj: s.val, ARGV: vector([s]), **beyond(enc)}, want_panic=TRUE)
@prop('C27', 150)
def c27(tier):
    r = []; q = tier == 'quick'
    for enc in ENC:
        one = shapeset(enc, tier, 1)
        pairs = [list(x) for x in itertools.product(one, repeat=2)] + [['11', '11'], ['11', '1'], ['1', '11'], ['111', '111'], ['12', '12'], ['12', '21'], ['111', '1111'], ['21', '2']]
        if not q: pairs += [list(x) for x in itertools.product(shapeset(enc, tier, 2), repeat=2)]
        trip = [['1', '1', '1'], ['11', '1', '11'], ['', '1', '1'], ['1', '', '1'], ['2', '1', '2'], ['1', '1', '1', '1']]
        for op in list(REL) + ['NE']:
            sym = f'{op}__{enc}'
            for l in pairs + (trip if op != 'NE' else []): r.append((f'{sym}[{"|".join(l)}]', compare, dict(sym=sym, enc=enc, op=op, shapes=l)))
            for n, at, more in [(90, 85, (0, 0)), (90, None, (0, 0)), (90, None, (0, 1)), (82, None, (1, 0)), (300, 257, (0, 0)), (300, 299, (0, 0)), (256, None, (1, 0)), (128, None, (0, 2)), (300, None, (0, 0))] + ([] if q else [(1100, 1099, (0, 0)), (255, None, (0, 1)), (127, None, (1, 0)), (1024, None, (0, 1))]):
                r.append((f'{sym}[{n} characters in common{f" but number {at+1}" if at is not None else ""}, then {more[0]} and {more[1]}]', compare_long, dict(sym=sym, enc=enc, op=op, n=n, at=at, more=more)))
            if op != 'NE':
                for n, at in [(20, (17, 18, 19)), (140, (126, 129, 139)), (300, (130, 255, 299))]: r.append((f'{sym}[{n} strings]', compare_many, dict(sym=sym, enc=enc, op=op, n=n, at=at)))
            if op != 'NE': r.append((f'{sym}[argc<2]', few, dict(sym=sym, enc=enc)))
    return r
# ------------------------------------------------------------------------------------ text written by the fixed-format conversions
CAP = 81
def text_case(P, sym, args, want, assume=(), enc='STRING', panic=False, cap=None, floats=(), structure=False, seed=1):
    """want: text (term of sort t) the function writes, followed by one NUL"""
    mem = {DEST: dest(enc)}
    def outs(run):
        b = run.mem(DEST)
        return [('result', flag(run.ret), ZERO)] + text_obs(run, b, want)
    return verify(P, sym, args=list(args) + [DPTR], mem=mem, assume=assume, want_panic=TRUE if panic else FALSE, outs=None if panic else outs, floats=floats)
def leaves(v, c=TRUE):
    if isinstance(v, VIte): return leaves(v.a, and_(c, v.c)) + leaves(v.b, and_(c, not_(v.c)))
    return [(c, v)]
def buf_text(run, b):
    """the text in a destination buffer as one term: what was written from its start (None: nothing)"""
    r = None
    for c, x in reversed(leaves(b)):
        if not isinstance(x, Buf): raise Unsup('destination of kind ' + type(x).__name__)
        if len(x.segs) == 1 and run.st.ctx.simp(x.segs[0][0]) is ZERO: t = items_term(x.segs[0][1])
        elif not x.segs: t = EMPTY
        else: t = lit(b'<scattered writes>')
        r = t if r is None else ite(c, t, r)
    return r
def text_obs(run, b, want):
    return [('text written to the destination', buf_text(run, b), cat(want, lit(b'\0')))]
# ------------------------------------------------------------------------------------ C29
def decimal(P, sym, bits, signed):
    v = V('in1', bits, signed)
    return text_case(P, sym, [v], dec(v))
def real_text(P, sym, limit):
    v = V('in1', 64, False)
    fixed = lt(ops.f_mag(v, 64), I(f2bits(limit, 64)))
    return text_case(P, sym, [v], ite(fixed, ffmt(v, '.6', 64), ffmt(v, 'e.6', 64)), floats=[])
@prop('C29', 5)
def c29(tier):
    return [('BYTE_TO_STRING_EXT', decimal, dict(sym='BYTE_TO_STRING_EXT', bits=8, signed=False)), ('LWORD_TO_STRING_EXT', decimal, dict(sym='LWORD_TO_STRING_EXT', bits=64, signed=False)),
            ('LINT_TO_STRING_EXT', decimal, dict(sym='LINT_TO_STRING_EXT', bits=64, signed=True)),
            ('LREAL_TO_STRING_EXT', real_text, dict(sym='LREAL_TO_STRING_EXT', limit=1e14)), ('REAL_TO_STRING_EXT', real_text, dict(sym='REAL_TO_STRING_EXT', limit=1e6))]
# ------------------------------------------------------------------------------------ C30
def time_text(P, sym, sign, top):
    """one sign and one zero-ness of days and hours; every zero-ness of the other components"""
    units = [('d', 86400*10**9, 106751), ('h', 3600*10**9, 23), ('m', 60*10**9, 59), ('s', 10**9, 59), ('ms', 10**6, 999), ('us', 1000, 999), ('ns', 1, 999)]
    tot = Res()
    for low in itertools.product((0, 1), repeat=5):
        nz = tuple(top) + low; want = lit(b'-') if sign else EMPTY; m = ZERO
        if sign and not any(nz): continue
        for (u, w, hi), on in zip(units, nz):      # the argument is given by its components
            if on: x = var('in1.' + u, 1, hi); want = cat(want, dec(x), lit(u.encode())); m = add(m, x, w)
        A = [le(m, I((1 << 63) - (0 if sign else 1)))]
        if acc(tot, text_case(P, sym, [sub(ZERO, m) if sign else m], want, assume=A), 'non-zero components: ' + (', '.join(u[0] for u, on in zip(units, nz) if on) or 'none')): break
    return tot
def date_part(v):
    d = fdiv(v, 86400*10**9)
    return cat(dec(fn('cal.year', (d,)), 4), lit(b'-'), dec(fn('cal.month', (d,)), 2), lit(b'-'), dec(fn('cal.day', (d,)), 2))
def tod_part(v):
    t = mod(v, 86400*10**9); s = fdiv(t, 10**9); f = mod(t, 10**9)
    frac = ite(eq(f, ZERO), EMPTY, cat(lit(b'.'), ite(eq(mod(f, 10**6), ZERO), dec(fdiv(f, 10**6), 3), ite(eq(mod(f, 1000), ZERO), dec(fdiv(f, 1000), 6), dec(f, 9)))))
    return cat(dec(fdiv(s, 3600), 2), lit(b':'), dec(mod(fdiv(s, 60), 60), 2), lit(b':'), dec(mod(s, 60), 2), frac)
def instant_text(P, sym, parts):
    v = ZERO; A = []
    for u, w, lo, hi in (('days', 86400*10**9, -106752, 106751), ('h', 3600*10**9, 0, 23), ('m', 60*10**9, 0, 59), ('s', 10**9, 0, 59), ('ms', 10**6, 0, 999), ('us', 1000, 0, 999), ('ns', 1, 0, 999)):
        v = add(v, var('in1.' + u, lo, hi), w)          # the argument is given by its components
    A = [le(v, I((1 << 63)-1)), le(I(-(1 << 63)), v)]
    ts = [{'date': date_part, 'tod': tod_part}[p](v) for p in parts]
    w = ts[0]
    for t in ts[1:]: w = cat(w, lit(b'-'), t)
    return text_case(P, sym, [v], w, assume=A)
@prop('C30', 11)
def c30(tier):
    return [(f'TIME_TO_STRING_EXT[{"negative" if sg else "not negative"}, days {"not " if d else ""}zero, hours {"not " if h else ""}zero]', time_text, dict(sym='TIME_TO_STRING_EXT', sign=sg, top=(d, h)))
            for sg in (0, 1) for d in (0, 1) for h in (0, 1)] + [('DATE_TO_STRING_EXT', instant_text, dict(sym='DATE_TO_STRING_EXT', parts=['date'])),
            ('TOD_TO_STRING_EXT', instant_text, dict(sym='TOD_TO_STRING_EXT', parts=['tod'])), ('DT_TO_STRING_EXT', instant_text, dict(sym='DT_TO_STRING_EXT', parts=['date', 'tod']))]
# ------------------------------------------------------------------------------------ C31
PREFIX = [('16#', 16), ('0x', 16), ('0X', 16), ('8#', 8), ('2#', 2), ('0b', 2), ('0B', 2)]
class Lit(Str):
    """literal characters followed by symbolic ones"""
    def __init__(self, pre, shape, name, tail=2):
        Str.__init__(self, 'STRING', shape, name, tail)
        p = [I(ord(c)) for c in pre]
        self.chars = p + self.chars; self.units = [[u] for u in p] + self.units; self.n += len(p)
        self.flat = p + self.flat
        self.val = Arr(tuple(p) + self.val.f)
class Raw(Str):
    """bytes in given ranges, not necessarily a well-formed string"""
    def __init__(self, spans, name):
        self.enc = 'STRING'; self.obj = ('in', name); self.flat = [var(f'{name}{i}', *s) for i, s in enumerate(spans)]; self.n = len(spans)
        self.val = Arr(self.flat + [ZERO, V(f'{name}.after0', 8, False)])
def parse(P, sym, ty, pre, shape, radix):
    s = Lit(pre, shape, 's'); A = []
    if not pre:
        for p, r in PREFIX:
            if len(p) <= len(s.flat): A.append(not_(and_(*[eq(u, I(ord(c))) for u, c in zip(s.flat, p)])))
    kind, bits, sg = ty
    tx = items_term(s.flat[len(pre):])
    if kind == 'int':
        nm = f':{bits}:{int(sg)}:{radix}'
        ok = fn('parse.int.ok' + nm, (tx,), 'b'); val = fn('parse.int' + nm, (tx,))
    else: ok = fn(f'parse.float.ok:{bits}', (tx,), 'b'); val = fn(f'parse.float:{bits}', (tx,))
    return verify(P, sym, args=[s.ptr()], mem={s.obj: s.val}, assume=A, want_panic=not_(ok), outs=lambda run: [('value', flag(run.ret), val)], floats={'value': bits} if kind != 'int' else ())
BADUTF8 = {'lone continuation byte': [(0x80, 0xbf)], 'continuation after a digit': [(0x30, 0x39), (0x80, 0xbf)], 'invalid lead byte': [(0xf8, 0xff)], 'truncated two-byte character': [(0x31, 0x39), (0xc2, 0xdf)], 'overlong': [(0xc0, 0xc1), (0x80, 0xbf)]}
def reject(P, sym, spans):
    s = Raw(spans, 's')
    return verify(P, sym, args=[s.ptr()], mem={s.obj: s.val}, want_panic=TRUE)
@prop('C31', 100)
def c31(tier):
    r = []; q = tier == 'quick'
    rest = shapeset('STRING', tier, 2 if q else 3, ['111', '1111', '11111', '1'*10, '1'*19, '1'*20, '1'*24, '1'*64, '1'*90, '1'*130] + ([] if q else ['1'*n for n in range(6, 70)]))
    for sym, ty in (('STRING_TO_LINT', ('int', 64, True)), ('STRING_TO_DINT', ('int', 32, True)), ('STRING_TO_LREAL', ('float', 64, None)), ('STRING_TO_REAL', ('float', 32, None))):
        for pre, radix in [('', 10)] + (PREFIX if ty[0] == 'int' else []):
            for sh in rest: r.append((f'{sym}[{pre}{tag(sh) or "(empty)"}]', parse if ty[0] == 'int' else parse_float, dict(sym=sym, ty=ty, pre=pre, shape=sh, radix=radix)))
        for k, sp in BADUTF8.items(): r.append((f'{sym}[{k}]', reject, dict(sym=sym, spans=sp)))
    return r
def parse_float(P, sym, ty, pre, shape, radix):
    s = Str('STRING', shape, 's'); bits = ty[1]; tx = items_term(s.flat)
    return verify(P, sym, args=[s.ptr()], mem={s.obj: s.val}, want_panic=not_(fn(f'parse.float.ok:{bits}', (tx,), 'b')),
                  outs=lambda run: [('value', flag(run.ret), fn(f'parse.float:{bits}', (tx,)))], floats={'value': bits})
# ------------------------------------------------------------------------------------ C32
W32 = {'1': ('1', 1, 0x7f), '2': ('1', 0x80, 0x7ff), '3': ('1', 0x800, 0xd7ff), 'f': ('1', 0xe000, 0xffff), '4': ('2', 0x10000, 0x10ffff), 'h': ('1', 0xd800, 0xdbff), 'l': ('1', 0xdc00, 0xdfff)}
W8 = {'1': 1, '2': 2, '3': 3, 'f': 3, '4': 4}
def to_string(P, sym, shape):
    """WSTRING -> STRING; h, l: surrogates (a high one directly before a low one is a pair, listed as class 4 instead)"""
    units = []; want = []
    for i, k in enumerate(shape):
        n, lo, hi = W32[k]; c = var(f's{i}', lo, hi)
        units += ops.utf16_units(c, int(n))
        want += [I(0xef), I(0xbf), I(0xbd)] if k in 'hl' else ops.utf8_units(c, W8[k])
    obj = ('in', 's')
    mem = {obj: Arr(units + [ZERO] + [V(f's.after{j}', 16, False) for j in range(2)]), DEST: dest('STRING')}
    return verify(P, sym, args=[Ptr(obj, (('i', ZERO),)), DPTR], mem=mem, outs=lambda run: [('result', flag(run.ret), ZERO)] + units_out(run, want))
def to_wstring(P, sym, shape):
    s = Str('STRING', shape, 's')
    want = [u for c, k in zip(s.chars, shape) for u in ops.utf16_units(c, 2 if k == '4' else 1)]
    return case(P, sym, [s.ptr(), DPTR], [s], 'WSTRING', want)
@prop('C32', 100)
def c32(tier):
    import scalar
    r = list(scalar.chars()); n = 2 if tier == 'quick' else 4
    for sh in shapeset('STRING', tier, n, ['111', '1234f', '43211', '4444', '1'*40, '12'*30, '1'*90, '12'*70, '1'*300]): r.append((f'STRING_TO_WSTRING_EXT[{tag(sh)}]', to_wstring, dict(sym='STRING_TO_WSTRING_EXT', shape=sh)))
    sh2 = [''.join(x) for k in range(n+1) for x in itertools.product('1234fhl', repeat=k)] + ['111', '1234f', '43211', '4444', '1h1', 'h4l', '1l1', 'hh4', '4ll', 'h1l', '1'*40, '12'*30, '1'*90, '12'*70, '1'*300]
    for sh in dict.fromkeys(sh2):
        if 'hl' in sh: continue
        r.append((f'WSTRING_TO_STRING_EXT[{tag(sh)}]', to_string, dict(sym='WSTRING_TO_STRING_EXT', shape=sh)))
    return r
# ------------------------------------------------------------------------------------ C28
def structure(tot, P, sym, args, mem, cap, assume=(), what='', enc='STRING'):
    """the writes of one call form one run from the start of the buffer that ends with its first NUL"""
    mem = dict(mem); mem[DEST] = dest(enc)
    def outs(run):
        o = []
        for c, b in leaves(run.mem(DEST)):
            if not isinstance(b, Buf): raise Unsup('destination of kind ' + type(b).__name__)
            one = len(b.segs) == 1 and run.st.ctx.simp(b.segs[0][0]) is ZERO
            items = b.segs[0][1] if one else ()
            good = TRUE if one else FALSE
            if one:
                good = and_(good, eq(items[-1], ZERO) if items and items[-1].s == 'i' else FALSE)
                good = and_(good, *[ne(u, ZERO) for u in items[:-1] if u.s == 'i'])
                if cap: good = and_(good, le(items_len(items), I(cap)))
            o.append(('one run of units from the start of the buffer, ended by its only NUL' + (f', within {cap} bytes' if cap else ''), ite(c, ite(good, ONE, ZERO), ONE), ONE))
        return o
    return acc(tot, verify(P, sym, args=args, mem=mem, assume=assume, want_panic=None, outs=outs, budget=BIG), what)
def str_struct(P, sym, enc, out, kind, shape):
    s = Str(enc, shape, 's'); t = Str(enc, '1', 't'); tot = Res(); n = s.n
    A = lambda *a: [s.ptr(), *a, DPTR]
    if n > 3 and kind not in ('CONCAT', ''):
        reqs = {'LEFT': [A(I(k)) for k in marks(n)], 'INSERT': [A(t.ptr(), I(k)) for k in marks(n)], 'MID': [A(I(k), I(n-k+1)) for k in marks(n, 1)],
                'DELETE': [A(I(1), I(p)) for p in marks(n, 1)], 'REPLACE': [A(t.ptr(), I(1), I(p)) for p in marks(n, 1)]}[{'RIGHT': 'LEFT'}.get(kind, kind)]
    elif kind in ('LEFT', 'RIGHT'): reqs = [A(I(k)) for k in range(n+1)]
    elif kind == 'MID': reqs = [A(I(k), I(p)) for p in range(1, n+1) for k in range(n-p+2)]
    elif kind == 'INSERT': reqs = [A(t.ptr(), I(p)) for p in range(n+1)]
    elif kind == 'DELETE': reqs = [A(I(k), I(p)) for p in range(1, n+1) for k in range(n-p+2)]
    elif kind == 'REPLACE': reqs = [A(t.ptr(), I(k), I(p)) for p in range(1, n+1) for k in range(n-p+2)]
    elif kind == 'CONCAT': reqs = [[DPTR, I(k), APTR] for k in range(3)]
    else: reqs = [A()]
    mem = {s.obj: s.val, t.obj: t.val, ARGV: vector([s, t]), **beyond(enc)}
    for a in reqs:
        if structure(tot, P, sym, a, mem, None, what=f'{n} characters', enc=out): break
    return tot
def wide_struct(P, sym, shape):
    obj = ('in', 's'); tot = Res(); us = []
    for i, k in enumerate(shape): us += ops.utf16_units(var(f's{i}', *W32[k][1:]), int(W32[k][0]))
    if structure(tot, P, sym, [Ptr(obj, (('i', ZERO),)), DPTR], {obj: Arr(us + [ZERO, V('s.after0', 16, False)])}, None): return tot
    return tot
def timecases():
    """a TIME by sign and by which of its parts are zero"""
    for lo, hi in ((-(1 << 63), -1), (0, (1 << 63)-1)):
        for nz in itertools.product((0, 1), repeat=7):
            v = var('in1', lo, hi); m = sub(ZERO, v) if lo < 0 else v
            comps = [fdiv(m, 86400*10**9), mod(fdiv(m, 3600*10**9), 24), mod(fdiv(m, 60*10**9), 60), mod(fdiv(m, 10**9), 60), mod(fdiv(m, 10**6), 1000), mod(fdiv(m, 1000), 1000), mod(m, 1000)]
            yield v, [ne(x, ZERO) if on else eq(x, ZERO) for x, on in zip(comps, nz)]
def val_struct(P, sym, bits, signed, parts=()):
    v = V('in1', bits, signed); tot = Res()
    if 'time' in parts:
        for v, cond in timecases():
            if structure(tot, P, sym, [v, DPTR], {}, CAP, assume=cond): return tot
        return tot
    structure(tot, P, sym, [v, DPTR], {}, CAP)
    return tot
@prop('C28', 60)
def c28(tier):
    r = []
    for enc in ENC:
        for k in ('LEFT', 'RIGHT', 'MID', 'INSERT', 'DELETE', 'REPLACE', 'CONCAT'):
            for sh in shapeset(enc, tier, 1 if tier == 'quick' else 2, ['12', '21', '111'] + ['1'*90, '1'*300][k != 'CONCAT' and tier == 'quick':]):
                if not sh and k in ('MID', 'DELETE', 'REPLACE'): continue
                for sym in ([f'{k}_EXT__{enc}'] + ([f'{k}__{enc}'] if k == 'CONCAT' else [])): r.append((f'{sym}[{tag(sh)}]', str_struct, dict(sym=sym, enc=enc, out=enc, kind=k, shape=sh)))
    for sh in shapeset('STRING', tier, 1, ['12', '111', '1'*90]): r.append((f'STRING_TO_WSTRING_EXT[{tag(sh)}]', str_struct, dict(sym='STRING_TO_WSTRING_EXT', enc='STRING', out='WSTRING', kind='', shape=sh)))
    for sh in ['', '12', '111', '1234flh', '1'*90, '3'*60] + list('1234fhl'): r.append((f'WSTRING_TO_STRING_EXT[{tag(sh)}]', wide_struct, dict(sym='WSTRING_TO_STRING_EXT', shape=sh)))
    for sym, b, sg in (('BYTE', 8, False), ('LWORD', 64, False), ('LINT', 64, True), ('LREAL', 64, False), ('REAL', 64, False), ('DATE', 64, True), ('TOD', 64, True), ('DT', 64, True), ('TIME', 64, True)):
        r.append((f'{sym}_TO_STRING_EXT', val_struct, dict(sym=f'{sym}_TO_STRING_EXT', bits=b, signed=sg, parts=['time'] if sym == 'TIME' else [])))
    return r
