"""C34, C35, C40, C33: what a call may touch, what it may depend on, what may panic, and agreement of variants."""
import itertools, re
import verify as vmod
from verify import *
import scalar, blocks, arrays, strings
from scalar import V, INTS, BITS, FL, ELEM, ENDI, I64, DAY
from strings import Str, dest, DEST, DPTR, ENC, ARGV, APTR, vector, beyond, acc, leaves, shapeset, tag, ranges, ANY
from blocks import Block, Bad, OBJ, LATCH, TRIG, CT, TIMER, fieldvar

def result(sym, P, status='PROVED', **kw): return Res(dict(sym=sym, status=status, loc=loc(P, sym), cells=0, fns=[], steps=0, calls=0, **kw))
# ------------------------------------------------------------------------------------ call graph
CG = {}
class Node: __slots__ = ('calls', 'statics', 'other', 'f')
def mentions(x, tys, allocs):
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ('ty', 'fty') and isinstance(v, int): tys.add(v)
            elif k == 'prov':
                for o, a in v: allocs.add(a)
            else: mentions(v, tys, allocs)
    elif isinstance(x, list):
        for y in x: mentions(y, tys, allocs)
def static_types(P): return {s['name']: s['ty'] for s in P.d['statics']}
INTERIOR = re.compile(r'(^|::)(UnsafeCell|Cell|RefCell|OnceCell|LazyCell|SyncUnsafeCell|Atomic\w*|Mutex|RwLock|Once|OnceLock|LazyLock|Condvar|ReentrantLock|ReentrantMutex|LocalKey|Barrier)$')
def mutable(P, ti, seen=None):
    """the type holds state that can change behind a shared reference"""
    seen = seen if seen is not None else set()
    if ti in seen: return False
    seen.add(ti)
    t = P.ty(ti); k = t['k']
    if k == 'adt':
        if INTERIOR.search(t['name']): return True
        return any(mutable(P, f[1], seen) for v in t['variants'] for f in v['fields'])
    if k == 'tuple': return any(mutable(P, e, seen) for e in t.get('elems') or ())
    if k in ('array', 'slice'): return mutable(P, t['elem'], seen)
    if k in ('ref', 'ptr'): return t['mut'] or mutable(P, t['to'], seen)
    return False
def graph(P):
    """per function: callees (functions its body mentions by type, closures, drop glue), statics, threads locals"""
    if id(P) in CG: return CG[id(P)]
    st = static_types(P); G = {}
    def reach_alloc(a, out, seen):
        if a in seen: return
        seen.add(a); x = P.allocs.get(a) or {}
        if x.get('k') == 'static': out.add(('static', x['name']))
        elif x.get('k') == 'fn': out.add(('fn', x['key']))
        elif x.get('k') == 'vtable': out.add(('vtable', x['ty']))
        elif x.get('k') == 'mem':
            for o, b in x['data']['prov']: reach_alloc(b, out, seen)
    for key, f in P.fns.items():
        n = Node(); n.calls = {}; n.statics = {}; n.other = []; n.f = f; G[key] = n
        b = f.get('body')
        if not b: continue
        tys, al = set(), set()
        mentions(b['blocks'], tys, al)
        sites = {}
        for bb in b['blocks']:
            t = bb['t']
            if t['t'] == 'call' and isinstance(t.get('fty'), int):
                c = P.ty(t['fty'])
                if c['k'] == 'fndef': sites.setdefault(c['callee'].get('key'), t.get('sp'))
            if t['t'] == 'drop' and t.get('glue'): n.calls.setdefault(t['glue'], t.get('sp'))
            if t['t'] == 'asm': n.other.append('inline assembly')
            for s in bb['s']:
                v = s.get('v')
                if isinstance(v, dict) and v.get('r') == 'tls': n.statics[v.get('name')] = ('thread local', s.get('sp'))
        for ti in tys:
            t = P.ty(ti)
            if t['k'] == 'fndef':
                c = t['callee']
                if c.get('key'): n.calls.setdefault(c['key'], sites.get(c['key']))
                else: n.other.append('unresolved call of ' + c['def'])
                if (c.get('kind') or '').startswith('Virtual'): n.other.append('virtual call of ' + c['def'])
            elif t['k'] == 'closure':
                for k2 in t['bodies']:
                    if k2: n.calls.setdefault(k2, None)
            elif t['k'] == 'adt' and re.search(r'(^|::)thread::(local::)?LocalKey$', t['name']): n.statics['thread local variable'] = ('thread local', None)
        # statics, with the type through which they are reached where there is one
        def consts(x):
            if isinstance(x, dict):
                if 'alloc' in x and 'ty' in x: yield x
                for v in x.values(): yield from consts(v)
            elif isinstance(x, list):
                for y in x: yield from consts(y)
        for c in consts(b['blocks']):
            out = set()
            for o, a in c['alloc']['prov']: reach_alloc(a, out, set())
            for k, v in out:
                if k == 'fn': n.calls.setdefault(v, None)
                elif k == 'static':
                    t = P.ty(c['ty']); m = None
                    if v in st: m = mutable(P, st[v])
                    elif t['k'] in ('ref', 'ptr'): m = mutable(P, t['to'])
                    if t['k'] == 'ptr' and t['mut']: m = True
                    n.statics[v] = (m, None)
    CG[id(P)] = G
    return G
def walk(P, sym):
    """every function reachable from an export, with the path that reaches it"""
    G = graph(P); prev = {sym: None}; q = [sym]
    for k in q:
        n = G.get(k)
        if n is None: continue
        for c, sp in n.calls.items():
            if c not in prev: prev[c] = (k, sp); q.append(c)
    return G, prev, q
def path(P, prev, k):
    r = []
    while k is not None:
        r.append(short(P.fns[k]['name'])); k = prev[k][0] if prev[k] else None
    return ' -> '.join(reversed(r))
def site(P, prev, k, sym):
    """source line in the repository at which the path to k leaves it"""
    w = None
    while k is not None:
        p = prev[k]
        if p is None: break
        if P.fns[p[0]].get('local') and p[1]: return P.where(p[1])
        k = p[0]
    return loc(P, sym)
def short(n): return re.sub(r'<.*>', '<..>', n) if len(n) > 60 else n
MATH = re.compile(r'^(__powi[sd]f2|(sin|cos|tan|asin|acos|atan|atan2|exp|exp2|log|log2|log10|pow|round|roundeven|sqrt|floor|ceil|trunc|rint|fma|fmod|cbrt|hypot|fmin|fmax|fabs|sinh|cosh|tanh|expm1|log1p|remainder|copysign|fdim|tgamma|lgamma_r)f?|mem(cpy|move|set|cmp)|bcmp|strlen|memchr|memrchr)$')
IMPURE = [(re.compile(p), w) for p, w in [
    (r'time::SystemTime|time::Instant', 'a clock'), (r'^<?(chrono|impl chrono).*\bLocal\b|chrono::(offset::)?Local|Utc(>)?::now|Utc as .*now|chrono::.*::now', 'a clock'),
    (r'(^|[ <&])std::env::|std::sys::(pal::)?.*::(env|os)::', 'the environment'), (r'std::(fs|net|os)::|std::io::(stdin|stdout|stderr|_print|_eprint|Stdin|Stdout|Stderr)|io::stdio', 'files or devices'), (r'std::process::', 'processes'),
    (r'std::thread::|std::sys::thread', 'threads'), (r'RandomState|hash_map::|std::hash::random|HashMap|HashSet|thread_rng|getrandom|rand::', 'a random source'), (r'_rdtsc|rdrand|_rdrand|rdseed', 'a clock or random source'), (r'std::backtrace::|panic::(Location)', '')] if w]
FORBIDDEN_FOREIGN = re.compile(r'time|clock|rand|getenv|getpid|gettid|open|read|write|recv|send|socket|stat|ioctl|sysconf|uname|environ|printf|syscall|getcwd')
PURE = re.compile(r'^(core|std|alloc|chrono|num_traits)(::|$)')
CLOCKS = {'TIME': re.compile(r'chrono::(offset::)?(local::)?Local\b'), **{f'{n}{x}': re.compile(r'^<?std::time::Instant\b|^std::time::Instant::') for n in ('TP', 'TON', 'TOF') for x in ('', '_TIME', '_LTIME')}}
ARITH = re.compile(r'duration_since|::sub$|::add$|::sub_assign$|::add_assign$|checked_|saturating_|::eq$|::ne$|::cmp$|::partial_cmp$|::clone$|::fmt$|::lt$|::le$|::gt$|::ge$|::hash$')
def impure(sym, f):
    """reason, if calling this library function makes the result depend on something else than the arguments"""
    nm = f['name']; idef = f.get('idef') or nm
    if f.get('krate') == 'chrono' and re.search(r'chrono::(offset::)?(local::)?Local\b', nm + ' ' + idef):
        return None if sym == 'TIME' else 'the local clock or time zone'
    for p, w in IMPURE:
        if p.search(idef):
            a = CLOCKS.get(sym)
            if a and a.search(idef): return None
            if 'Instant' in idef and ARITH.search(idef): return None
            return w
    return None
def depends(P, sym):
    if sym not in P.fns: return verify(P, sym)
    G, prev, order_ = walk(P, sym)
    r = result(sym, P, fns_n=len(order_)); r['calls'] = sum(len(G[k].calls) for k in order_ if k in G); r['steps'] = len(order_)
    r['fns'] = sorted({P.fns[k]['name'] for k in order_ if k in P.fns and P.fns[k].get('local')})
    why = None
    for k in order_:
        n = G.get(k)
        if n is None: why = why or 'unknown function ' + str(k); continue
        for s, (m, sp) in n.statics.items():
            if m: return Res(r, status='VIOLATION', loc=P.where(n.f['sp']), fn=n.f['name'], msg=f'{sym} uses the mutable static {s} in {short(n.f["name"])} ({path(P, prev, k)})', witness={'static': s, 'path': path(P, prev, k)})
            if m is None: why = why or f'static {s} of unknown type in {n.f["name"]}'
        f = n.f
        w = impure(sym, f)
        if w and (not f.get('body') or not f.get('local')):
            return Res(r, status='VIOLATION', loc=site(P, prev, k, sym), fn=f['name'], msg=f'{sym} reaches {short(f["name"])}, which reads {w} ({path(P, prev, k)})', witness={'path': path(P, prev, k)})
        for o in n.other: why = why or f'{o} in {f["name"]}'
        if not f.get('body'):
            base = (f.get('idef') or f['name']).split('::')[-1]
            foreign = f.get('krate') not in ('core', 'std', 'alloc', 'chrono', 'num_traits') or f.get('local')
            if foreign and not MATH.match(base):
                if FORBIDDEN_FOREIGN.search(base): return Res(r, status='VIOLATION', loc=site(P, prev, k, sym), fn=f['name'], msg=f'{sym} calls the foreign function {base} ({path(P, prev, k)})', witness={'path': path(P, prev, k)})
                if f.get('kind') not in ('Shim', 'Intrinsic'): why = why or f'foreign function {f["name"]}'
        if f.get('local') and f.get('body'):
            for bb in f['body']['blocks']:
                for s in bb['s']:
                    v = s.get('v')
                    if isinstance(v, dict) and v.get('r') == 'cast' and 'Expose' in (v.get('ck') or ''): why = why or f'address of memory used as a number in {f["name"]}'
    if why: return Res(r, status='UNDECIDED', why=why)
    return r
@prop('C35', 360)
def c35(tier):
    P = PROGS['dev']
    for x in PROGS.values(): graph(x)
    return [(s, depends, dict(sym=s)) for s in sorted(P.exports)]

# ------------------------------------------------------------------------------------ C34
def statics_untouched(P, sym):
    """no reachable function mentions static data that a call could change"""
    if sym not in P.fns: return verify(P, sym)
    G, prev, order_ = walk(P, sym)
    r = result(sym, P); r['steps'] = len(order_)
    for k in order_:
        n = G.get(k)
        if n is None: return Res(r, status='UNDECIDED', why='unknown function ' + str(k))
        for s, (m, sp) in n.statics.items():
            if m: return Res(r, status='VIOLATION', loc=P.where(n.f['sp']), fn=n.f['name'], msg=f'{sym} can write the static {s} in {short(n.f["name"])} ({path(P, prev, k)})', witness={'static': s, 'path': path(P, prev, k)})
            if m is None: return Res(r, status='UNDECIDED', why=f'static {s} of unknown type')
    return r
CONSTMUT = re.compile(r'cast_mut$|::transmute(_copy|_unchecked)?$|UnsafeCell(::<.*>)?::(get|raw_get)$|NonNull.*::(as_ptr|as_mut)$|with_exposed_provenance_mut|from_exposed_addr_mut|::as_mut_ptr$')
def typed(P, sym):
    """every write goes through a mutable pointer parameter: no function of the repository turns a shared pointer into a mutable one.
    Documented mutable parameters: the destination, the block instance, the split outputs."""
    if sym not in P.fns: return verify(P, sym)
    e = P.exports[sym]
    r = result(sym, P)
    G, prev, order_ = walk(P, sym)
    r['steps'] = len(order_)
    ins = [P.ty(i) for i in e['inputs']]
    mut = [n for n, t in enumerate(ins) if t['k'] in ('ref', 'ptr') and t['mut']]
    want = outputs_of(sym, len(ins))
    if set(mut) - set(want): return Res(r, status='UNDECIDED', why=f'parameters {sorted(set(mut)-set(want))} are declared mutable')
    for n in mut:
        t = P.ty(ins[n]['to'])
        if t['k'] in ('ref', 'ptr') and sym.split('__')[0] not in (): return Res(r, status='UNDECIDED', why='mutable pointer to a pointer')
    for k in order_:
        f = P.fns.get(k)
        if not f or not f.get('local') or not f.get('body'): continue
        for bb in f['body']['blocks']:
            for s in bb['s']:
                v = s.get('v')
                if isinstance(v, dict) and v.get('r') == 'cast':
                    a, b = P.ty(v['from']), P.ty(v['ty'])
                    if b['k'] in ('ptr', 'ref') and b['mut'] and not (a['k'] in ('ptr', 'ref') and a['mut']): return Res(r, status='UNDECIDED', why=f'conversion to a mutable pointer in {f["name"]} at {P.where(s.get("sp"))}')
                if isinstance(v, dict) and v.get('r') == 'addr' and v.get('mut'):
                    # &raw mut of a place behind a shared reference is rejected by the compiler
                    pass
            t = bb['t']
            if t['t'] == 'call' and isinstance(t.get('fty'), int):
                c = P.ty(t['fty'])
                if c['k'] == 'fndef' and CONSTMUT.search(c['callee']['def']):
                    at = P.ty(t['atys'][0]) if t.get('atys') else {'k': '?'}
                    if at.get('mut') and c['callee']['def'].endswith('as_mut_ptr'): continue
                    d = P.ty(t['dty'])
                    if d['k'] in ('ptr', 'ref') and d['mut'] or d['k'] == 'adt': return Res(r, status='UNDECIDED', why=f'{c["callee"]["def"]} in {f["name"]}')
    return r
def outputs_of(sym, n):
    if sym.startswith('SPLIT_'): return list(range(1, n))
    if sym.startswith('CONCAT__') or sym.startswith('CONCAT_EXT__'): return [0]
    if '_EXT' in sym: return [n-1]
    if sym in BLOCKSYMS: return [0]
    return []
def blocksyms():
    r = {'SR': LATCH, 'RS': LATCH, 'R_TRIG': TRIG, 'F_TRIG': TRIG}
    for s, t in CT.items():
        r['CTU' + s] = [('in', 'CU', 'bool'), ('in', 'R', 'bool'), ('in', 'PV', t), ('out', 'Q', 'bool'), ('out', 'CV', t)]
        r['CTD' + s] = [('in', 'CD', 'bool'), ('in', 'LD', 'bool'), ('in', 'PV', t), ('out', 'Q', 'bool'), ('out', 'CV', t)]
        r['CTUD' + s] = [('in', 'CU', 'bool'), ('in', 'CD', 'bool'), ('in', 'R', 'bool'), ('in', 'LD', 'bool'), ('in', 'PV', t), ('out', 'QU', 'bool'), ('out', 'QD', 'bool'), ('out', 'CV', t)]
    for n in ('TP', 'TON', 'TOF'):
        for s in ('', '_TIME', '_LTIME'): r[n + s] = TIMER
    return r
BLOCKSYMS = blocksyms()
def freestate(P, B, sfx=''):
    """an instance in an arbitrary state"""
    cnt = [0]
    def leaf(p, kind, ti):
        cnt[0] += 1; n = f'state{cnt[0]}'
        if kind == 'bool': return bvar(n)
        if kind == 'int': t = P.ty(ti); return V(n, t['bits'], t['signed'])
        x = var(n, 0, (1 << 63)-1)
        if kind == 'inst': return Lib('inst', x)
        if kind == 'dur': return Lib('dur', x)
        if kind == 'optinst': return En(ite(bvar(n + '.some'), ONE, ZERO), {0: (), 1: (Lib('inst', x),)})
        raise Unsup('internal state of another type')
    doc = {n: fieldvar(n, ty) for _, n, ty in B.fields}
    return doc, B.build(doc, leaf)
class Hist(blocks.Spec):
    """histories without a reference automaton: only the fields named in keep are judged"""
    def __init__(self, timed, keep=()): self.timed = timed; self.anyout = (); self.keep = keep
    def assume(self, d): return [ge(d['PT'], ZERO)] if self.timed else []
def history(P, B, timed, k, budget=60000, want_inputs=True):
    """k calls from the zero-initialised instance: (run-like object, outputs per call, input checks)"""
    I_ = Interp(P, MODELS, budget=budget)
    doc = {n: B.zero(B.fty[n]) for _, n, ty in B.fields}
    mem = {OBJ: B.build(doc, lambda p, kind, ti: B.zero(ti))}
    assume = []; c = Ctx(); outs = []; keeps = []; panics = []; prev = None
    for j in range(1, k+1):
        sfx = f'_{j}'; I_.epoch = sfx; now = var('now' + sfx, 0, (1 << 63)-1)
        ins = {n: fieldvar(n, ty, sfx) for role, n, ty in B.fields if role == 'in'}
        new = ([le(prev, now)] if prev is not None else []) + ([ge(ins['PT'], ZERO)] if timed else [])
        prev = now
        for a in new: assume.append(a); c = c.assume(a)
        inst = mem[OBJ]
        for n, v in ins.items(): inst = B.put(inst, n, v)
        st = St({OBJ: inst}, c, TRUE); np = len(I_.panics)
        r = I_.call_key(st, B.sym, [Ptr(OBJ, ())])
        panics += I_.panics[np:]
        if r is None: break
        m = r[1].mem[OBJ]
        for role, n, ty in B.fields:
            got = B.get(I_, r[1], m, n)
            if role == 'in': keeps.append((f'{n} after call {j}', got, ins[n]))
            else: outs.append((f'{n} after call {j}', got))
        mem = {OBJ: m}
    class R: pass
    run = R(); run.I = I_; run.assume = assume; run.ctx0 = c; run.ubs = [p for p in panics if p.kind.startswith('UB')]; run.panics = [p for p in panics if not p.kind.startswith('UB')]
    run.pg = or_(*[p.guard for p in run.panics])
    return run, outs, keeps
def guarded(f):
    def g(P, sym, **kw):
        try: return f(P, sym, **kw)
        except Bad as x: return result(sym, P, 'UNDECIDED', why=str(x))
        except (Unsup, Budget, logic.Budget) as x: return result(sym, P, 'UNDECIDED', why=str(x) or 'budget')
    g.__name__ = f.__name__
    return g
@guarded
def inputs_kept(P, sym, tier='quick'):
    """the input fields of a block instance hold after the call what they held before, in every state"""
    if sym not in P.fns: return verify(P, sym)
    fields = BLOCKSYMS[sym]; B = Block(P, sym, fields); timed = fields is TIMER
    doc, inst = freestate(P, B)
    def outs(run):
        m = run.mem(OBJ)
        return [(f'input {n} after the call', B.get(run.I, run.st, m, n), doc[n]) for role, n, ty in fields if role == 'in']
    r = verify(P, sym, args=[Ptr(OBJ, ())], mem={OBJ: inst}, want_panic=None, outs=outs, tries=1)
    if r['status'] == 'PROVED': return r
    run, _, keeps = history(P, B, timed, 3)
    u = judge(P, sym, run, keeps, None)
    if u['status'] == 'VIOLATION': return u
    return Res(u, status='UNDECIDED', why='inputs of every state: ' + str(r.get('why') or r.get('msg')))
def same_ptr(a, b): return same(a, b)
def untouched(P, sym, args, mem, enc=None, assume=()):
    """every source object holds after the call what it held before"""
    before = dict(mem)
    if enc: mem = dict(mem); mem[DEST] = dest(enc)
    def outs(run):
        o = []
        for obj, v in before.items():
            if obj[0] != 'in': continue
            w = run.mem(obj)
            if isinstance(w, VIte): raise Unsup('source with several contents')
            for i, (x, y) in enumerate(zip(v.f, w.f)):
                if x is y: continue
                if isinstance(x, Ptr):
                    if not same(x, y): o.append((f'element {i} of the argument vector', ONE, ZERO))
                    continue
                o.append((f'unit {i} of the source {obj[1]}', flag(y), x))
        return o
    return verify(P, sym, args=args, mem=mem, assume=assume, want_panic=None, outs=outs)
def requests(kind, s, t, n):
    """argument lists of a string function for one shape"""
    A = lambda *a: [s.ptr(), *a, DPTR]
    if kind in ('LEFT', 'RIGHT'): return [A(I(k)) for k in range(n+1)]
    if kind == 'MID': return [A(I(k), I(p)) for p in range(1, n+1) for k in range(n-p+2)]
    if kind == 'INSERT': return [A(t.ptr(), I(p)) for p in range(n+1)]
    if kind == 'DELETE': return [A(I(k), I(p)) for p in range(1, n+1) for k in range(n-p+2)]
    if kind == 'REPLACE': return [A(t.ptr(), I(k), I(p)) for p in range(1, n+1) for k in range(n-p+2)]
    if kind == 'CONCAT': return [[DPTR, I(k), APTR] for k in range(3)]
    if kind == 'CMP': return [[I(2), APTR]]
    if kind in ('NE', 'FIND'): return [[s.ptr(), t.ptr()]]
    if kind in ('LEN', 'PARSE'): return [[s.ptr()]]
    return [A()]
def strkeep(P, sym, enc, out, kind, shape):
    tot = Res()
    if kind == 'PARSE':
        s = strings.Raw([(0x31, 0x39) if k == '1' else (0x24, 0x2f) for k in shape], 's')
        return untouched(P, sym, [s.ptr()], {s.obj: s.val})
    if sym == 'WSTRING_TO_STRING_EXT':
        us = [u for i, k in enumerate(shape) for u in ops.utf16_units(var(f's{i}', *strings.W32[k][1:]), int(strings.W32[k][0]))]; obj = ('in', 's')
        return untouched(P, sym, [Ptr(obj, (('i', ZERO),)), DPTR], {obj: Arr(us + [ZERO, V('s.after0', 16, False)])}, out)
    for sh2 in ('1', shape) if kind in ('INSERT', 'REPLACE', 'CONCAT', 'CMP', 'NE', 'FIND') else ('1',):
        s = Str(enc, shape, 's'); t = Str(enc, sh2, 't')
        mem = {s.obj: s.val, t.obj: t.val, ARGV: vector([s, t]), **beyond(enc)}
        for a in requests(kind, s, t, s.n):
            if acc(tot, untouched(P, sym, a, mem, out), f'{s.n} characters'): return tot
    return tot
def arrkeep(P, sym, t, n):
    w = int(t[1:]); obj = ('in', 'list')
    return untouched(P, sym, [I(n), Ptr(obj, (('i', ZERO),))], {obj: Arr([V(f'x{i}', w, t[0] == 'i') for i in range(n)] + [V('after', w, t[0] == 'i')])})
def strsyms():
    r = []
    for enc in ENC:
        for k in ('LEFT', 'RIGHT', 'MID', 'INSERT', 'DELETE', 'REPLACE', 'CONCAT'): r.append((f'{k}_EXT__{enc}', enc, enc, k))
        r.append((f'CONCAT__{enc}', enc, enc, 'CONCAT'))
        for k in ('GT', 'GE', 'EQ', 'LE', 'LT'): r.append((f'{k}__{enc}', enc, None, 'CMP'))
        r += [(f'NE__{enc}', enc, None, 'NE'), (f'FIND__{enc}', enc, None, 'FIND'), (f'LEN__{enc}', enc, None, 'LEN')]
    r += [('STRING_TO_WSTRING_EXT', 'STRING', 'WSTRING', ''), ('WSTRING_TO_STRING_EXT', 'WSTRING', 'STRING', '')]
    r += [(f'STRING_TO_{t}', 'STRING', None, 'PARSE') for t in ('LINT', 'DINT', 'LREAL', 'REAL')]
    return r
@prop('C34', 500)
def c34(tier):
    r = []; P = PROGS['dev']
    for x in PROGS.values(): graph(x)
    for s in sorted(P.exports):
        r.append((f'{s}[static data]', statics_untouched, dict(sym=s)))
        if any(P.ty(i)['k'] in ('ref', 'ptr') for i in P.exports[s]['inputs']): r.append((f'{s}[pointers]', typed, dict(sym=s)))
    for s in BLOCKSYMS: r.append((f'{s}[inputs]', inputs_kept, dict(sym=s)))
    for sym, enc, out, k in strsyms():
        for sh in ['', '1', '12', '21', '111', 'f1'] + ([] if tier == 'quick' else shapeset(enc, tier, 2) + ['1211', '1'*40]):
            if (not sh or len(sh) > 9) and k in ('MID', 'DELETE', 'REPLACE'): continue
            r.append((f'{sym}[source {tag(sh) or "empty"}]', strkeep, dict(sym=sym, enc=enc, out=out, kind=k, shape=sh)))
    for E_, t in ELEM.items():
        for op in ('MAX', 'MIN'):
            for n in (1, 3) if t[0] != 'f' or tier != 'quick' else (2,): r.append((f'{op}__{E_}[list of {n}]', arrkeep, dict(sym=f'{op}__{E_}', t=t, n=n)))
    return r

# ------------------------------------------------------------------------------------ C40
def nopanic(P, sym, args=None, mem=None, assume=(), what=''):
    r = verify(P, sym, args=args, mem=mem, assume=assume, want_panic=FALSE)
    return r
def nopanic_args(P, sym, bitsargs=None):
    if sym not in P.exports or sym not in P.fns: return verify(P, sym)
    return nopanic(P, sym)
def nopanic_count(P, sym, w):
    """shifts and rotations: counts by residue and the counts from the width on"""
    if sym not in P.exports or sym not in P.fns: return verify(P, sym)
    r = nopanic(P, sym)
    if r['status'] != 'UNDECIDED': return r
    tot = Res(); x = V('in1', w, False)
    for n in [I(k) for k in range(w)]:
        if acc(tot, nopanic(P, sym, args=[x, n])): return tot
    for k in range(w):
        if acc(tot, nopanic(P, sym, args=[x, add(mulc(var('turns', 1, (1 << 32)//w - 1), w), I(k))])): return tot
    return tot
@guarded
def nopanic_block(P, sym):
    if sym not in P.fns: return verify(P, sym)
    fields = BLOCKSYMS[sym]; B = Block(P, sym, fields); timed = fields is TIMER
    doc, inst = freestate(P, B)
    r = verify(P, sym, args=[Ptr(OBJ, ())], mem={OBJ: inst}, assume=[ge(doc['PT'], ZERO)] if timed else (), want_panic=FALSE, tries=300)
    if r['status'] == 'PROVED': return r
    if timed:        # the reachable states: the automaton of the timer, by induction
        r2 = blocks.block(P, sym, TIMER, {'TP': blocks.TPs, 'TON': blocks.TONs, 'TOF': blocks.TOFs}[sym.split('_')[0]]())
        if r2['status'] == 'PROVED': return r2
    run, _, keeps = history(P, B, timed, 4)
    run.ubs = []
    u = judge(P, sym, run, [], FALSE)
    if u['status'] == 'VIOLATION': return u
    if r['status'] == 'VIOLATION':
        # a state found by the first analysis counts if it is one a history of the documented kind reaches: the instance has no hidden state
        if not B.leaves: return r
    # most counter states are reachable: the documented outputs are arbitrary, the hidden state is that of some history
    run2 = seeded(P, B, timed, fields)
    if run2 is not None:
        u2 = judge(P, sym, run2, [], FALSE)
        if u2['status'] == 'VIOLATION': return u2
    return Res(u, status='UNDECIDED', why='panic condition in an arbitrary state: ' + str(r.get('why') or r.get('msg')))
def seeded(P, B, timed, fields):
    """two calls from an instance with zero hidden state whose outputs have any value of their type (a counter near its limit)"""
    I_ = Interp(P, MODELS, budget=60000)
    if timed: return None
    doc = {n: fieldvar(n, ty, '_0') for _, n, ty in fields}
    mem = {OBJ: B.build(doc, lambda p, kind, ti: B.zero(ti))}; panics = []; c = Ctx()
    assume = [ge(doc['CV'], ZERO)] if 'CV' in doc and not B.sym.startswith(('CTD', 'CTUD')) else []
    for a in assume: c = c.assume(a)
    for j in (1, 2):
        inst = mem[OBJ]
        for role, n, ty in fields:
            if role == 'in': inst = B.put(inst, n, fieldvar(n, ty, f'_{j}'))
        np = len(I_.panics); st = St({OBJ: inst}, c, TRUE)
        r = I_.call_key(st, B.sym, [Ptr(OBJ, ())]); panics += I_.panics[np:]
        if r is None: break
        mem = {OBJ: r[1].mem[OBJ]}
    class R: pass
    run = R(); run.I = I_; run.assume = assume; run.ctx0 = c; run.ubs = []; run.panics = [p for p in panics if not p.kind.startswith('UB')]
    run.pg = or_(*[p.guard for p in run.panics])
    return run
def nopanic_split(P, sym, names, ty):
    if sym not in P.exports or sym not in P.fns: return verify(P, sym)
    bits, sg = int(ty[1:]), ty[0] == 'i'; mem = {}; args = [V('in1', 64, True)]
    for n in names: mem[('out', n)] = V('old.' + n, bits, sg); args.append(Ptr(('out', n), ()))
    return nopanic(P, sym, args=args, mem=mem)
def nopanic_now(P, sym):
    f = var('now.frac', 0, 1999999999)
    return verify(P, sym, args=[], want_panic=FALSE)
TOTAL = []
@prop('C40', 190)
def c40(tier):
    r = []
    one = lambda s: r.append((s, nopanic_args, dict(sym=s)))
    for F in FL:
        for n in ('SQRT', 'LN', 'LOG', 'EXP', 'SIN', 'COS', 'TAN', 'ASIN', 'ACOS', 'ATAN', 'ROUND', 'ATAN2', 'IS_VALID'): one(f'{n}__{F}')
        for G in ('DINT', 'REAL', 'LREAL'): one(f'EXPT__{F}__{G}')
    for s in ('LWORD_TO_LREAL', 'DWORD_TO_REAL', 'LREAL_TO_LWORD', 'REAL_TO_DWORD', 'CHAR_TO_WCHAR', 'WCHAR_TO_CHAR', 'DAY_OF_WEEK', 'DATE_AND_TIME_TO_TIME_OF_DAY'): one(s)
    for B, w in BITS.items():
        one(f'IS_VALID_BCD__{B}')
        for op in ('SHL', 'SHR', 'ROL', 'ROR'): r.append((f'{op}__{B}', nopanic_count, dict(sym=f'{op}__{B}', w=w)))
    for E_ in ELEM: one(f'LIMIT__{E_}')
    for E_ in ENDI:
        for d in ('TO_BIG', 'TO_LITTLE', 'FROM_BIG', 'FROM_LITTLE'): one(f'{d}_ENDIAN__{E_}')
    for N in ('INT', 'UINT', 'DINT', 'UDINT', 'LINT', 'ULINT'):
        for s, n in (('SPLIT_DATE', ('year', 'month', 'day')), ('SPLIT_TOD', ('hour', 'minute', 'second', 'milli')), ('SPLIT_DT', ('year', 'month', 'day', 'hour', 'minute', 'second', 'milli'))):
            r.append((f'{s}__{N}', nopanic_split, dict(sym=f'{s}__{N}', names=n, ty=scalar.rty(*INTS[N]))))
    r.append(('TIME', nopanic_now, dict(sym='TIME')))
    for s in BLOCKSYMS: r.append((s, nopanic_block, dict(sym=s)))
    return r

# ------------------------------------------------------------------------------------ C33
def pair(P, A, B, args, mem=None, assume=(), map_=None, panics=True, outs=None, floats=(), tries=3000):
    """run A and B on the same abstract arguments; B plays the prescription"""
    for s in (A, B):
        if s not in P.exports or s not in P.fns: return verify(P, s)
    try:
        ra = Run(P, A, args[0], (mem or (None, None))[0], assume)
        rb = Run(P, B, args[1], (mem or (None, None))[1], assume)
        if not ra.ok: return result(A, P, note='empty domain')
        o = []
        if ra.st is not None and rb.st is not None: o = outs(ra, rb) if outs else [('result', flag(ra.ret), flag(rb.ret))]
        ra.ubs = []
        r = judge(P, A, ra, o, rb.pg, floats, tries=tries)
        r['calls'] = ra.I.calls + rb.I.calls; r['steps'] = ra.I.steps + rb.I.steps; r['fns'] = sorted(ra.I.touched | rb.I.touched)
        if r['status'] == 'VIOLATION': r['msg'] = r['msg'].replace('the property prescribes', f'{B} gives').replace('where the property excludes it', f'where {B} does not').replace('where the property demands a panic', f'where {B} panics')
        return r
    except (Unsup, Budget, logic.Budget, NoEval) as x: return result(A, P, 'UNDECIDED', why=str(x) or 'budget')
def common(*tys):
    """values every one of the integer types has"""
    r = [rng(int(t[1:]), t[0] == 'i') for t in tys]
    return max(x[0] for x in r), min(x[1] for x in r)
def scal(P, A, B, assume=None, low=None):
    """scalar functions on the arguments both types have"""
    for s in (A, B):
        if s not in P.exports or s not in P.fns: return verify(P, s)
    ia, ib = (P.exports[s]['inputs'] for s in (A, B))
    if len(ia) != len(ib): return result(A, P, 'VIOLATION', msg=f'{A} and {B} take different numbers of arguments', witness={})
    a, mem = [], ({}, {})
    outp = []
    xs, ys = [], []
    for n, (i, j) in enumerate(zip(ia, ib)):
        t, u = P.ty(i), P.ty(j)
        if t['k'] in ('ref', 'ptr') and u['k'] in ('ref', 'ptr'):
            o = ('out', f'out{n}'); outp.append(o)
            t2, u2 = P.ty(t['to']), P.ty(u['to'])
            v = var(f'old{n}', *common(t2['s'], u2['s'])); mem[0][o] = v; mem[1][o] = v
            xs.append(Ptr(o, ())); ys.append(Ptr(o, ())); continue
        if t['k'] == 'int' and u['k'] == 'int': v = var(NAMES[n], *common(t['s'], u['s']))
        elif t['s'] == u['s']: v = argvar(P, i, NAMES[n])
        else: return result(A, P, 'VIOLATION', msg=f'parameter {n+1} of {A} is {t["s"]}, of {B} {u["s"]}', witness={})
        xs.append(v); ys.append(v)
    A_ = assume(*xs) if assume else ()
    def outs(ra, rb):
        o = [('result', low(flag(ra.ret)) if low else flag(ra.ret), low(flag(rb.ret)) if low else flag(rb.ret))] if P.ty(P.exports[A]['output'])['s'] != '()' else []
        return o + [(x[1], flag(ra.mem(x)), flag(rb.mem(x))) for x in outp]
    w = P.ty(P.exports[A]['output'])
    return pair(P, A, B, (xs, ys), mem, A_, outs=outs, floats=[('result', w['bits'])] if w['k'] == 'float' else ())
def shift_pair(P, A, B, w):
    tot = Res(); x = V('in1', w, False)
    for k in range(w):
        if acc(tot, pair(P, A, B, ([x, I(k)],)*2, outs=lambda a, b: [('result', flag(a.ret), mod(flag(b.ret), 1 << w))]), f'count {k}'): return tot
    return tot
@guarded
def block_pair(P, sym, B):
    """two blocks: every state and input, narrowed to the values both counter types have and can count from"""
    if sym not in P.fns or B not in P.fns: return verify(P, sym if sym not in P.fns else B)
    fa, fb = BLOCKSYMS[sym], BLOCKSYMS[B]; X, Y = Block(P, sym, fa), Block(P, B, fb); timed = fa is TIMER
    def span(ty, uy, n):
        lo, hi = common(ty, uy)
        if n == 'CV': lo, hi = max(lo + 1, 0 if sym.startswith('CTU') and not sym.startswith('CTUD') else lo + 1), hi - 1
        return lo, hi
    doc = {n: bvar(n) if ty == 'bool' else var(n, *span(ty, u, n)) for (_, n, ty), (_, m, u) in zip(fa, fb)}
    kinds = [l[1] for l in X.leaves]
    why = None
    if kinds == [l[1] for l in Y.leaves] and 'other' not in kinds and 'dur' not in kinds:
        def leafs(Bk):
            cnt = [0]
            def leaf(p, kind, ti):
                cnt[0] += 1; n = f'state{cnt[0]}'
                if kind == 'bool': return bvar(n)
                if kind == 'int': t = P.ty(ti); return var(n, 0, rng(t['bits'], t['signed'])[1]) if t['bits'] == 64 else V(n, t['bits'], t['signed'])
                x = Lib('inst', var(n, 0, (1 << 63)-1))
                return x if kind == 'inst' else En(ite(bvar(n + '.some'), ONE, ZERO), {0: (), 1: (x,)})
            return Bk.build(doc, leaf)
        def outs(ra, rb):
            o = []
            for Bk, rr, acc_ in ((X, ra, o),):
                pass
            ma, mb = ra.mem(OBJ), rb.mem(OBJ)
            for (_, n, ty), (_, m, u) in zip(fa, fb): o.append((n, X.get(ra.I, ra.st, ma, n), Y.get(rb.I, rb.st, mb, m)))
            for (lp, k, _), (lq, _, _) in zip(X.leaves, Y.leaves):
                va, vb = ra.I.rd(ra.st, ma, lp), rb.I.rd(rb.st, mb, lq)
                if k in ('bool', 'int'): o.append(('state', flag(va), flag(vb)))
                else:
                    (sa, ta), (sb, tb) = blocks.startof(va, k), blocks.startof(vb, k)
                    o.append(('state is set', sa, sb)); o.append(('state', ite(sa, ta, ZERO), ite(sb, tb, ZERO)))
            return o
        r = pair(P, sym, B, ([Ptr(OBJ, ())],)*2, ({OBJ: leafs(X)}, {OBJ: leafs(Y)}), outs=outs, tries=1)
        if r['status'] == 'PROVED': return r
        why = r.get('why') or r.get('msg')
    # histories of both from their zero-initialised instances
    k = 4 if timed else 3
    ra, oa, _ = hist_common(P, X, timed, k, doc if not timed else None); rb, ob, _ = hist_common(P, Y, timed, k, doc if not timed else None)
    ra.ubs = []
    u = judge(P, sym, ra, [(l, g, w) for (l, g), (_, w) in zip(oa, ob)], rb.pg, tries=6000)
    if u['status'] == 'VIOLATION':
        u['msg'] = u['msg'].replace('the property prescribes', f'{B} gives'); return u
    return Res(u, status='UNDECIDED', why=f'one call from every state: {why or "different hidden state"}; histories of {k} calls: {u["status"]}')
def hist_common(P, B, timed, k, doc):
    """history() with inputs and initial outputs that both blocks of a pair can hold"""
    I_ = Interp(P, MODELS, budget=60000)
    d0 = {n: B.zero(B.fty[n]) for _, n, ty in B.fields}
    if doc and 'CV' in doc: d0['CV'] = doc['CV']
    mem = {OBJ: B.build(d0, lambda p, kind, ti: B.zero(ti))}
    assume = []; c = Ctx(); outs = []; panics = []; prev = None
    if doc and 'CV' in doc:
        v = doc['CV']; a = [ge(v, I(v.lo + k)), le(v, I(v.hi - k))] if hasattr(v, 'lo') else []
        for x in a: assume.append(x); c = c.assume(x)
    for j in range(1, k+1):
        sfx = f'_{j}'; I_.epoch = sfx; now = var('now' + sfx, 0, (1 << 63)-1)
        ins = {}
        for role, n, ty in B.fields:
            if role == 'in': ins[n] = fieldvar(n, ty, sfx) if ty == 'bool' or not doc else rename(doc[n], sfx)
        new = ([le(prev, now)] if prev is not None else []) + ([ge(ins['PT'], ZERO)] if timed else [])
        prev = now
        for a in new: assume.append(a); c = c.assume(a)
        inst = mem[OBJ]
        for n, v in ins.items(): inst = B.put(inst, n, v)
        st = St({OBJ: inst}, c, TRUE); np = len(I_.panics)
        r = I_.call_key(st, B.sym, [Ptr(OBJ, ())]); panics += I_.panics[np:]
        if r is None: break
        m = r[1].mem[OBJ]
        for role, n, ty in B.fields:
            if role == 'out': outs.append((f'{n} after call {j}', B.get(I_, r[1], m, n)))
        mem = {OBJ: m}
    class R: pass
    run = R(); run.I = I_; run.assume = assume; run.ctx0 = c; run.ubs = []; run.panics = [p for p in panics if not p.kind.startswith('UB')]; run.pg = or_(*[p.guard for p in run.panics])
    return run, outs, None
def rename(v, sfx):
    name, lo, hi = v.a
    return var(name + sfx, lo, hi)
# -- STRING and WSTRING forms on the same characters
WIDTH = {'1': ('1', '1'), '2': ('2', '1'), '3': ('3', '1'), 'f': ('f', 'f'), '4': ('4', '2')}     # class of the character in each encoding
class Both:
    """one text in both encodings"""
    def __init__(self, shape, name, digits=0):
        self.a = Str('STRING', shape, name); self.n = self.a.n
        # comparisons: characters of several units are built from the digits that the encodings use
        # (three-byte characters from U+1000 (comparisons: one value of bits 6 to 11), four-byte ones of planes 4 to 7 with bits 10 and 11 zero)
        ch = []
        for i, k in enumerate(shape):
            v = lambda d, hi, lo=0: var(f'{name}{i}.{d}', lo, hi)
            if k == '1' or not digits: c = self.a.chars[i]
            elif k == '2': c = add(v(0, 63), mulc(v(1, 31, 2), 64))
            elif k in '3f': c = add(add(v(0, 63), mulc(v(1, 63) if digits == 1 else I(20), 64)), mulc(v(2, 12, 1) if k == '3' else v(2, 15, 14), 4096))
            else: c = add(add(add(v(0, 63), mulc(v(1, 15), 64)), mulc(v(3, 63), 4096)), I(1 << 18))
            ch.append(c)
        self.a.chars = ch; self.a.units = [ENC['STRING'][2](c, strings.CLS8[k][0]) for c, k in zip(ch, shape)]; self.a.flat = [u for us in self.a.units for u in us]
        self.a.val = Arr(self.a.flat + [ZERO] + [V(f'{name}.after{j}', 8, False) for j in range(2)])
        b = Str('WSTRING', '', name); un = ENC['WSTRING'][2]
        b.chars = self.a.chars; b.units = [un(c, 2 if k == '4' else 1) for c, k in zip(b.chars, shape)]
        b.flat = [u for us in b.units for u in us]; b.n = self.n
        b.val = Arr(b.flat + [ZERO] + [V(f'{name}.wafter{j}', 16, False) for j in range(2)])
        self.b = b
def decode(run, cands, obj, simp):
    """the sequence of input characters a destination holds: list of indices into cands, or None"""
    b = run.mem(obj)
    r = []; i = 0
    table = [(k, us) for k, us in enumerate(cands)]
    while len(r) < 400:
        try: u = flag(run.I.rd(run.st, b, (('i', I(i)),)))
        except Exception: return None
        u = simp(u)
        if u is ZERO: return r
        for k, us in table:
            if simp(us[0]) is u and all(simp(flag(run.I.rd(run.st, b, (('i', I(i+j)),)))) is simp(x) for j, x in enumerate(us)):
                r.append(k); i += len(us); break
        else: return None
    return None
def str_pair(P, fam, kind, shapes_):
    """fam: A = STRING form, B = WSTRING form of one function"""
    A, B = fam.replace('*', 'STRING'), fam.replace('*', 'WSTRING')
    for s in (A, B):
        if s not in P.exports or s not in P.fns: return verify(P, s)
    dg = {'CMP': 2, 'NE': 1, 'FIND': 1}.get(kind, 0)
    T_ = [Both(sh, f's{i}_', dg) for i, sh in enumerate(shapes_)]
    if len(T_) == 1 and kind not in ('CMP', 'NE'): T_.append(Both('1', 't', dg))
    s, t = T_[0], T_[1] if len(T_) > 1 else T_[0]
    ma = {x.a.obj: x.a.val for x in T_}; mb = {x.b.obj: x.b.val for x in T_}
    ma[ARGV] = vector([x.a for x in T_]); mb[ARGV] = vector([x.b for x in T_]); ma.update(beyond('STRING')); mb.update(beyond('WSTRING'))
    ma[DEST] = dest('STRING'); mb[DEST] = dest('WSTRING')
    if kind in ('CMP', 'NE', 'FIND', 'LEN'):
        args = {'CMP': ([I(len(T_)), APTR],)*2, 'NE': ([s.a.ptr(), t.a.ptr()], [s.b.ptr(), t.b.ptr()]), 'FIND': ([s.a.ptr(), t.a.ptr()], [s.b.ptr(), t.b.ptr()]), 'LEN': ([s.a.ptr()], [s.b.ptr()])}[kind]
        return pair(P, A, B, args, (ma, mb))
    ca = [us for x in T_ for us in x.a.units]; cb = [us for x in T_ for us in x.b.units]
    n = s.n; tot = Res()
    if kind == 'CONCAT': reqs = [([DPTR, I(len(T_)), APTR],)*2]
    else:
        lo, hi = {'INSERT': (0, n)}.get(kind, (1, n))
        reqs = []
        pos = [I(p) for p in range(lo, hi+1)] + [var('low', I32lo, lo-1), var('high', hi+1, I32hi)]
        cnt = lambda top: [I(k) for k in range(top+1)] + [var('lowcount', I32lo, -1), var('highcount', top+1, I32hi)]
        for e in ('a', 'b'):
            S, Tt = getattr(s, e).ptr(), getattr(t, e).ptr(); q = []
            if kind in ('LEFT', 'RIGHT'): q = [[S, k, DPTR] for k in cnt(n)]
            elif kind == 'MID': q = [[S, k, p, DPTR] for p in pos for k in (cnt(n-p.a+1) if p.op == 'c' else [ANY('count')])]
            elif kind == 'INSERT': q = [[S, Tt, p, DPTR] for p in pos]
            elif kind == 'DELETE': q = [[S, k, p, DPTR] for p in pos for k in (cnt(n-p.a+1) if p.op == 'c' else [ANY('count')])]
            elif kind == 'REPLACE': q = [[S, Tt, k, p, DPTR] for p in pos for k in (cnt(n-p.a+1) if p.op == 'c' else [ANY('count')])]
            reqs.append(q)
        reqs = list(zip(*reqs))
    for args in reqs:
        def outs(ra, rb):
            o = [('result', flag(ra.ret), flag(rb.ret))] if P.ty(P.exports[A]['output'])['s'] != '()' else []
            l = decode(rb, cb, DEST, rb.ctx0.simp)
            if l is not None: return o + strings.units_out(ra, [u for k in l for u in ca[k]])
            l = decode(ra, ca, DEST, ra.ctx0.simp)
            if l is None: raise Unsup('texts of both forms not recognised')
            w = [u for k in l for u in cb[k]] + [ZERO]; b = rb.mem(DEST)
            return o + [(f'unit {i} of the result of {B}', u, flag(rb.I.rd(rb.st, b, (('i', I(i)),)))) for i, u in enumerate(w)]
        if acc(tot, pair(P, A, B, args, (ma, mb), outs=outs), f'request {[show(x) for x in args[0] if isinstance(x, T)]}'): return tot
    return tot
I32lo, I32hi = rng(32, True)
def textpair(P, A, B, lo, hi):
    v = var('in1', lo, hi); m = {DEST: dest('STRING')}
    return pair(P, A, B, ([v, DPTR],)*2, (m, dict(m)), outs=lambda a, b: [('result', flag(a.ret), flag(b.ret)), ('text', strings.buf_text(a, a.mem(DEST)), strings.buf_text(b, b.mem(DEST)))])
def concat_alias(P, enc, shapes_):
    ss = [Str(enc, sh, f's{i}_') for i, sh in enumerate(shapes_)]
    m = {s.obj: s.val for s in ss}; m[DEST] = dest(enc); m[ARGV] = vector(ss); m.update(beyond(enc))
    n = sum(len(s.flat) for s in ss) + 1
    def outs(a, b): return [(f'unit {i} of the result', flag(a.I.rd(a.st, a.mem(DEST), (('i', I(i)),))), flag(b.I.rd(b.st, b.mem(DEST), (('i', I(i)),)))) for i in range(n)]
    return pair(P, f'CONCAT__{enc}', f'CONCAT_EXT__{enc}', ([DPTR, I(len(ss)), APTR],)*2, (m, dict(m)), outs=outs)
def arr_pair(P, A, B, t, u, n):
    obj = ('in', 'list'); xs = [var(f'x{i}', *common(t, u)) for i in range(n)]
    m = {obj: Arr(xs)}
    return pair(P, A, B, ([I(n), Ptr(obj, (('i', ZERO),))],)*2, (m, dict(m)))
@prop('C33', 300)
def c33(tier):
    r = []; q = tier == 'quick'
    def sc(A, B, **kw): r.append((f'{A} = {B}', scal, dict(A=A, B=B, **kw)))
    leap = lambda h, m, s, ms: [not_(and_(eq(s, I(59)), ge(ms, I(1000)), lt(ms, I(2000))))]
    # one operation under several names
    for fam in ('MUL', 'DIV'):
        for N in list(INTS) + list(FL):
            sc(f'{fam}_TIME__{N}', f'{fam}__TIME__{N}'); sc(f'{fam}_LTIME__{N}', f'{fam}__TIME__{N}')
        for N in INTS:
            if N != 'LINT': sc(f'{fam}__TIME__{N}', f'{fam}__TIME__LINT')
    for a, b in (('ADD_TOD_TIME', 'ADD_TIME'), ('ADD_DT_TIME', 'ADD_TIME'), ('SUB_DATE_DATE', 'SUB_TIME'), ('SUB_TOD_TIME', 'SUB_TIME'), ('SUB_TOD_TOD', 'SUB_TIME'), ('SUB_DT_TIME', 'SUB_TIME'), ('SUB_DT_DT', 'SUB_TIME')): sc(a, b)
    # the integer types of one function
    for N in ('INT', 'UINT', 'DINT', 'UDINT', 'ULINT'):
        sc(f'CONCAT_DATE__{N}', 'CONCAT_DATE__LINT')
        for s in ('SPLIT_DATE', 'SPLIT_TOD', 'SPLIT_DT'): sc(f'{s}__{N}', f'{s}__LINT')
    for N in INTS:
        if N != 'LINT': sc(f'CONCAT_TOD__{N}', 'CONCAT_TOD__LINT', assume=leap)
    sc('concat_tod', 'CONCAT_TOD__LINT', assume=leap); sc('concat_date', 'CONCAT_DATE__LINT')
    ints = {E_: t for E_, t in ELEM.items() if t[0] != 'f'}
    for E_, t in ints.items():
        if E_ != 'LINT': sc(f'LIMIT__{E_}', 'LIMIT__LINT')
        for op in ('MAX', 'MIN'):
            for n in (1, 3) if q else (1, 3, 5):
                if E_ != 'LINT': r.append((f'{op}__{E_} = {op}__LINT [{n} elements]', arr_pair, dict(A=f'{op}__{E_}', B=f'{op}__LINT', t=t, u='i64', n=n)))
    names = list(BITS)
    for a, b in zip(names, names[1:]):
        sc(f'IS_VALID_BCD__{a}', f'IS_VALID_BCD__{b}')
        for op in ('SHL', 'SHR'): r.append((f'{op}__{a} = {op}__{b}', shift_pair, dict(A=f'{op}__{a}', B=f'{op}__{b}', w=BITS[a])))
    for a, b in (('UINT', 'WORD'), ('UINT', 'WCHAR'), ('UDINT', 'DWORD'), ('ULINT', 'LWORD'), ('LINT', 'DATE'), ('LINT', 'TIME_OF_DAY'), ('LINT', 'DATE_AND_TIME')):
        for d in ('TO_BIG', 'TO_LITTLE', 'FROM_BIG', 'FROM_LITTLE'): sc(f'{d}_ENDIAN__{a}', f'{d}_ENDIAN__{b}')
    r.append(('BYTE_TO_STRING_EXT = LWORD_TO_STRING_EXT', textpair, dict(A='BYTE_TO_STRING_EXT', B='LWORD_TO_STRING_EXT', lo=0, hi=255)))
    r.append(('LINT_TO_STRING_EXT = LWORD_TO_STRING_EXT', textpair, dict(A='LINT_TO_STRING_EXT', B='LWORD_TO_STRING_EXT', lo=0, hi=(1 << 63)-1)))
    # blocks
    for n in ('TP', 'TON', 'TOF'):
        for s in ('_TIME', '_LTIME'): r.append((f'{n}{s} = {n}', block_pair, dict(sym=n + s, B=n)))
    for n in ('CTU', 'CTD', 'CTUD'):
        for s in CT:
            if s != '_LINT': r.append((f'{n}{s} = {n}_LINT', block_pair, dict(sym=n + s, B=n + '_LINT')))
    # encodings
    S1 = ['', '1', '2', '3', 'f', '4']; S2 = ['12', '21', '14', '41', '111', '1211', '4134'] + ([] if q else [a + b + c for a in '124' for b in '13' for c in '14f'])
    for sh in S1 + S2 + ['1'*40, '12'*20]:
        r.append((f'LEN[{tag(sh)}]', str_pair, dict(fam='LEN__*', kind='LEN', shapes_=[sh])))
    for sh in S1 + S2:
        for k in ('LEFT', 'RIGHT') + (('MID', 'DELETE') if sh else ()): r.append((f'{k}_EXT[{sh}]', str_pair, dict(fam=f'{k}_EXT__*', kind=k, shapes_=[sh])))
        for ins in ('', '1', '4') if len(sh) < 3 else ('1',):
            r.append((f'INSERT_EXT[{sh}|{ins}]', str_pair, dict(fam='INSERT_EXT__*', kind='INSERT', shapes_=[sh, ins])))
            if sh: r.append((f'REPLACE_EXT[{sh}|{ins}]', str_pair, dict(fam='REPLACE_EXT__*', kind='REPLACE', shapes_=[sh, ins])))
        for nd in sorted({'1', '2', '4', '11', sh[:1], sh[1:], sh}): r.append((f'FIND[{sh}|{nd}]', str_pair, dict(fam='FIND__*', kind='FIND', shapes_=[sh, nd])))
    for l in [['1', '1'], ['1', '2'], ['12', '12'], ['3', '3'], ['4', '4'], ['', '1'], ['', ''], ['11', '1'], ['1', '11'], ['1', '1', '1'], ['12', '21', '12'], ['2', '2', '1']]:
        for ext in ('', '_EXT'): r.append((f'CONCAT{ext}[{"|".join(l)}]', str_pair, dict(fam=f'CONCAT{ext}__*', kind='CONCAT', shapes_=l)))
        for op in ('GT', 'GE', 'EQ', 'LE', 'LT'): r.append((f'{op}[{"|".join(l)}]', str_pair, dict(fam=f'{op}__*', kind='CMP', shapes_=l)))
        if len(l) == 2: r.append((f'NE[{"|".join(l)}]', str_pair, dict(fam='NE__*', kind='NE', shapes_=l)))
        for enc in ENC:
            if '3' not in l and '4' not in l or enc == 'STRING': r.append((f'CONCAT__{enc} = CONCAT_EXT__{enc} [{"|".join(l)}]', concat_alias, dict(enc=enc, shapes_=l)))
    return r
