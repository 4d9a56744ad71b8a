#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--no-dump]: decides one property for /repo's current tree."""
import sys, os, json, time, subprocess, argparse, multiprocessing, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), HERE, os.path.join(HERE, 'specs')]
sys.setrecursionlimit(200000)
ap = argparse.ArgumentParser()
ap.add_argument('property'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--no-dump', action='store_true'); ap.add_argument('-v', action='store_true'); ap.add_argument('--only')
ap.add_argument('--profile'); ap.add_argument('-j', type=int, default=8)
A = ap.parse_args()
t0 = time.time()
if not A.no_dump:
    r = subprocess.run([os.path.join(HERE, 'mirdump', 'dump.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: print(r.stdout[-4000:]); print('the MIR of /repo could not be obtained'); sys.exit(3)
import verify
from verify import *
import scalar
for m in ('blocks', 'arrays', 'strings', 'effects', 'memory', 'st'):
    if os.path.exists(os.path.join(HERE, 'specs', m + '.py')): __import__(m)
for p in ('dev', 'rel'):
    PROGS[p] = Prog(os.path.join(HERE, 'build', 'dump', p + '.json'))
gen, floor = TASKS[A.property]
tasks = gen(A.tier)
if A.only: tasks = [t for t in tasks if A.only in t[0]]
work = []
for t in tasks:
    kw = dict(t[2]); once = kw.pop('_once', False)
    for p in (('dev',) if once else ('dev', 'rel')):
        if A.profile and p != A.profile: continue
        work.append((p, t[0], t[1], kw))
LIMIT = 240 if A.tier == 'quick' else 1500
def do(i):
    p, name, f, kw = work[i]
    s = time.time()
    import signal
    def alarm(*a): raise TimeoutError()
    signal.signal(signal.SIGALRM, alarm); signal.alarm(LIMIT)
    try: r = f(PROGS[p], **kw)
    except TimeoutError: r = Res(sym=name, status='UNDECIDED', why='time limit', cells=0, fns=[], steps=0, calls=0)
    except Exception as x:
        if A.v: traceback.print_exc()
        tb = traceback.extract_tb(x.__traceback__)[-1]
        r = Res(sym=name, status='UNDECIDED', why=f'analysis gap: {type(x).__name__}: {x} ({os.path.basename(tb.filename)}:{tb.lineno})', cells=0, fns=[], steps=0, calls=0)
    signal.alarm(0)
    r = dict(r); r['name'] = name; r['profile'] = p; r['t'] = round(time.time()-s, 2)
    return r
def idx_(i): return i, do(i)
ctx = multiprocessing.get_context('fork')
if A.j > 1 and len(work) > 1:
    DEADLINE = 600 if A.tier == 'quick' else 3000        # obligations not reached by then stay undecided
    res = []; seen = set(); bad = False
    with ctx.Pool(min(A.j, len(work)), maxtasksperchild=1) as pool:
        it = pool.imap_unordered(idx_, range(len(work)), chunksize=1)
        while len(res) < len(work):
            left = (min(DEADLINE, 150) if bad else DEADLINE) - (time.time() - t0)
            try: i, r = it.next(timeout=max(left, 0.01))
            except (multiprocessing.TimeoutError, StopIteration): break
            res.append(r); seen.add(i); bad = bad or r['status'] == 'VIOLATION'
        pool.terminate()
    for i, (p, name, f, kw) in enumerate(work):
        if i not in seen: res.append(dict(sym=name, name=name, profile=p, t=0, status='UNDECIDED', why='not reached', cells=0, fns=[], steps=0, calls=0))
else: res = [do(i) for i in range(len(work))]
res.sort(key=lambda r: (r['name'], r['profile']))
viol = [r for r in res if r['status'] == 'VIOLATION']
und = [r for r in res if r['status'] == 'UNDECIDED']
ok = [r for r in res if r['status'] == 'PROVED']
told0 = []
for r in res:
    if A.v or r['status'] == 'UNDECIDED' and len(told0) < 12:
        told0.append(r); print(f"{r['status']:10} {r['name']} [{r['profile']}] {r['t']}s cells={r.get('cells')} steps={r.get('steps')} {(r.get('why') or r.get('msg') or '')[:700 if A.v else 160]}")
# known findings: property, key (symbol or instance name) and kind
known = {}
kf = os.path.join(HERE, 'known_findings.json')
if os.path.exists(kf):
    for k in json.load(open(kf))['findings']:
        if k['property'] == A.property: known[k['key']] = k
new = []
told = set()
for r in viol:
    k = known.get(r.get('key') or r['name'])
    if k:
        if r['name'] not in told: print(f"KNOWN-FINDING: property={A.property} {k['what']}"); told.add(r['name'])
    else: new.append(r)
names = {r['name'] for r in res}
if not A.only and len(names) < floor:
    new.append(dict(name='coverage', status='VIOLATION', msg=f'only {len(names)} instances of this property were found in the code, expected at least {floor}', witness={}, profile='-', loc='?'))
os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
man = {}
mf = os.path.join(HERE, 'MANIFEST.json')
if os.path.exists(mf):
    for c in json.load(open(mf))['checks']: man[c['property']] = c
level = man.get(A.property, {}).get('level', 'other')
fns = sorted({f for r in res for f in r.get('fns', [])})
cov = dict(obligations=len(res), discharged=len(ok), undecided=len(und), violations_known=len(viol)-len(new) if len(viol) >= len(new) else 0,
    checker_cmd=f'python3 check.py {A.property} --tier {A.tier}',
    trusted_base=['rustc nightly MIR construction (stable-MIR dump, overflow checks on and off)', 'engine/: abstract interpreter, term normalisation, models of core/std/chrono functions listed in engine/models.py', 'specs/: the property as written there'],
    rule=__import__('rules').RULES.get(A.property, '') if os.path.exists(os.path.join(HERE, 'specs', 'rules.py')) else '',
    explanation='Static: the value graph of each exported function, computed from the MIR of the current source, is compared with the value graph the property prescribes; nothing is executed.',
    functions_analysed=len(fns), functions=fns[:400], calls_resolved=sum(r.get('calls') or 0 for r in res), mir_steps=sum(r.get('steps') or 0 for r in res), cells=sum(r.get('cells') or 0 for r in res),
    cases=sum(r.get('cases') or 1 for r in res),
    samples=[{k: r.get(k) for k in ('name', 'profile', 'status', 'loc', 'cells', 'steps', 'cases')} for r in res[:12]],
    undecided_list=[{k: r.get(k) for k in ('name', 'profile', 'why', 'loc')} for r in und])
assume = sorted({a for r in res for a in (r.get('assumptions') or [])})
ev_ = dict(property=A.property, tier=A.tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=level, coverage=cov, assumptions=assume, wall_s=round(time.time()-t0, 2), violations=len(new))
json.dump(ev_, open(os.path.join(HERE, 'evidence', A.property + '.json'), 'w'), indent=1, default=str)
print(f'{A.property}: {len(res)} obligations, {len(ok)} discharged, {len(und)} undecided, {len(new)} violated ({time.time()-t0:.1f} s)')
if new:
    rp = os.path.join('evidence', 'replay', A.property + '.json')
    json.dump(new, open(os.path.join(HERE, rp), 'w'), indent=1, default=str)
    for r in new[:10]:
        print(f"  {r.get('loc')}: {r.get('msg')}  [{r['profile']}] in {r.get('fn') or r.get('sym')} witness={r.get('witness')}")
    print(f'VIOLATION property={A.property} replay={os.path.join(HERE, rp)}')
    sys.exit(1)
sys.exit(0)
