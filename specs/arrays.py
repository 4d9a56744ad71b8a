"""C05: MAX and MIN over arrays; the list has a fixed number of arbitrary elements and is followed by arbitrary memory."""
from verify import *
from scalar import V, ELEM
def spelled(t, w, memo):
    """f64::max and f64::min written out: NaN is ignored if the other is a number; of two equal zeros either one"""
    r = memo.get(t)
    if r is None:
        r = rebuild(t, lambda x: spelled(x, w, memo)) if kids(t) else t
        if r.op == 'fn' and r.a[0] in (f'f.max:{w}', f'f.min:{w}'):
            a, b = r.a[1]; nan = lambda x: gt(ops.f_mag(x, w), I(ops.inf_bits(w)))
            r = ite(nan(a), b, ite(nan(b), a, ite(ops.f_lt(a, b, w) if 'max' in r.a[0] else ops.f_lt(b, a, w), b, a)))
        memo[t] = r
    return r
def extreme(P, sym, op, t, n, long=0):
    """Total case distinction on which element is the extreme one. Case k assumes that element k is a number not exceeded by any other number and demands element k (as a value: equal zeros and NaN payloads are not told apart); the last case (floats) assumes only NaNs and demands a NaN."""
    w = int(t[1:]); obj = ('in', 'list'); fl = t[0] == 'f'
    xs = [V(f'x{i}', w, t[0] == 'i') for i in range(n)]
    if long:      # long lists: the other elements have one fixed value that is worse than the arbitrary ones
        lo, hi = rng(w, t[0] == 'i')
        worst = I((ops.inf_bits(w) | ((op == 'MAX') << (w-1))) if fl else lo if op == 'MAX' else hi)
        better = [gt(x, worst) if op == 'MAX' else lt(x, worst) for x in xs] if not fl else []
        xs.append(worst); n += 1
    nan = lambda x: gt(ops.f_mag(x, w), I(ops.inf_bits(w)))
    zero = lambda x: eq(ops.f_mag(x, w), ZERO)
    notworse = lambda r, x: (ge(r, x) if op == 'MAX' else le(r, x)) if not fl else not_(ops.f_lt(r, x, w) if op == 'MAX' else ops.f_lt(x, r, w))
    tot = None
    for k in range(n + (1 if fl else 0)):
        for nans in ([()] if not fl or k == n else [tuple((m >> i) & 1 for i in range(n)) for m in range(1 << n)]):
            if nans and nans[k]: continue
            if k == n: asm = [nan(x) for x in xs]
            else:
                asm = [(nan(x) if b else not_(nan(x))) for x, b in zip(xs, nans)]
                asm += [notworse(xs[k], x) for i, x in enumerate(xs) if i != k and not (nans and nans[i])]
            if long: asm += better
            def outs(run):
                r = spelled(flag(run.ret), w, {}) if fl else flag(run.ret)
                if k == n: return [('the extreme element', nan(r), TRUE)]
                if not fl: return [('the extreme element', r, xs[k])]
                return [('the extreme element', or_(eq(r, xs[k]), and_(zero(r), zero(xs[k]))), TRUE)]
            lst = xs if not long else [xs[0]] + [xs[-1]]*(long//2) + xs[1:2] + [xs[-1]]*(long - long//2 - 3) + [xs[2]]
            r = verify(P, sym, args=[I(len(lst)), Ptr(obj, (('i', ZERO),))], mem={obj: Arr(lst + [V('after', w, t[0] == 'i')])}, assume=asm, outs=outs)
            if r['status'] != 'PROVED': return r
            if tot is None: tot = r; tot['cases'] = 1
            else: tot['cases'] += 1; tot['cells'] += r['cells']; tot['steps'] += r['steps']; tot['calls'] += r['calls']
    return tot
def single(P, sym, op, t, n):
    """floats: a long list in which one element, at the first, middle or last place, exceeds the others"""
    w = int(t[1:]); obj = ('in', 'list')
    one = {32: 0x3f800000, 64: 0x3ff0000000000000}[w]; neg = 1 << (w-1)
    for at in (0, n//2, n-1):
        lst = [I(one if op == 'MIN' else one | neg)]*n; best = I(one if op == 'MAX' else one | neg); lst[at] = best
        r = verify(P, sym, args=[I(n), Ptr(obj, (('i', ZERO),))], mem={obj: Arr(lst + [V('after', w, False)])}, outs=lambda run: [('the extreme element', flag(run.ret), best)])
        if r['status'] != 'PROVED': return r
    r['cases'] = 3
    return r
def bad(P, sym, t, null):
    w = int(t[1:]); obj = ('in', 'list')
    mem = {obj: Arr([V('after', w, t[0] == 'i')])}
    args = [V('size', 32, False), Ptr(None, (('addr', ZERO),))] if null else [ZERO, Ptr(obj, (('i', ZERO),))]
    return verify(P, sym, args=args, mem=mem, want_panic=TRUE)
@prop('C05', 200)
def c05(tier):
    r = []
    for E, t in ELEM.items():
        for op in ('MAX', 'MIN'):
            sym = f'{op}__{E}'
            for n in range(1, (8 if t[0] != 'f' else 5) if tier == 'quick' else (9 if t[0] != 'f' else 6)): r.append((f'{sym}[{n} elements]', extreme, dict(sym=sym, op=op, t=t, n=n)))
            if t[0] == 'f':
                for n in (17, 300): r.append((f'{sym}[{n} elements, one extreme]', single, dict(sym=sym, op=op, t=t, n=n)))
            else:
             for n in (17, 300) if tier == 'quick' else (17, 300, 600): r.append((f'{sym}[{n} elements, 3 arbitrary]', extreme, dict(sym=sym, op=op, t=t, n=3, long=n)))
            r.append((f'{sym}[null]', bad, dict(sym=sym, t=t, null=True))); r.append((f'{sym}[empty]', bad, dict(sym=sym, t=t, null=False)))
    return r
