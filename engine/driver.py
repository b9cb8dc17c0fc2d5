"""Builds a harness from /repo's current sources, explores all of its paths, decides every obligation, replays
counterexamples and path witnesses on the uninstrumented build, writes evidence, prints the verdict."""
import os, sys, json, time, subprocess, shutil, tempfile, hashlib, random, re, signal
import multiprocessing as mp, threading
from concurrent.futures import ThreadPoolExecutor
LOCK = threading.Lock(); CACHE = {}
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
from solve import PathTask, native, write_input

CXX = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
BASE = ['-std=c++17', '-w', '-I' + HERE, f'-I{ROOT}/stubs', f'-I{REPO}/rct_optimizations/include', f'-I{REPO}/rct_common/include',
        f'-I{REPO}/rct_image_tools/include', '-I/usr/include/eigen3', '-D_GLIBCXX_ASSERTIONS', '-DEIGEN_DONT_VECTORIZE',
        '-DEIGEN_MAX_ALIGN_BYTES=0', f'-DVP_REPO="{REPO}"', '-fno-strict-aliasing']
SYM = ['-O1', '-S', '-emit-llvm', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-fno-discard-value-names', '-fno-unroll-loops', '-fno-builtin-sincos', '-DVP_SYM=1']

class BuildError(Exception): pass
def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode: raise BuildError(' '.join(cmd)[:400] + '\n' + p.stdout[-3000:])
    return p.stdout

def build_rt(out):
    os.makedirs(out, exist_ok=True)
    for s, o, fl in (('rt.cpp','rt.o',['-O2']), ('native_rt.cpp','nrt.o',['-O1'])):
        src = f'{HERE}/{s}'; key = hashlib.sha1(b'2' + open(src,'rb').read() + open(f'{HERE}/vp.h','rb').read()).hexdigest()
        kf = f'{out}/{o}.key'
        if os.path.exists(f'{out}/{o}') and os.path.exists(kf) and open(kf).read() == key: continue
        tmp = tempfile.mktemp(dir=out, suffix='.o')
        sh([CXX, '-std=c++17', '-w', '-c', src, '-o', tmp] + fl)
        if o == 'rt.o':    # the runtime keeps its own copies of inline library code: the harness's copies are instrumented
            sh(['ld', '-r', '--force-group-allocation', tmp, '-o', tmp + '.r']); os.unlink(tmp)
            sh(['objcopy', '-w', '--keep-global-symbol=vp_*', '--keep-global-symbol=__vp_*', '--keep-global-symbol=main', tmp + '.r', tmp]); os.unlink(tmp + '.r')
        os.replace(tmp, f'{out}/{o}')
        open(kf,'w').write(key)

SRC_DIRS = {'opt': 'rct_optimizations/src/rct_optimizations', 'img': 'rct_image_tools/src/rct_image_tools'}
def find_link():
    for c in ('llvm-link-18', '/usr/lib/llvm-18/bin/llvm-link', 'llvm-link'):
        if shutil.which(c): return shutil.which(c)
    raise BuildError('llvm-link not found')
def resolve(s):
    """'opt:pnp.cpp' -> repository source, 'stub:x.cpp' -> /verif/stubs, 'harness:x.cpp'"""
    k, _, f = s.partition(':')
    if k == 'stub': return f'{ROOT}/stubs/{f}'
    if k == 'harness': return f'{ROOT}/harness/{f}'
    if k in SRC_DIRS: return f'{REPO}/{SRC_DIRS[k]}/{f}'
    return f'{REPO}/{s}'

POOL = None
def build(h, work):
    """compile harness h and the repository sources it drives -> symbolic and native executables"""
    n = re.sub(r'\W', '_', h['name'])
    fl = BASE + h.get('flags', []); libs = h.get('libs', []); rt = f'{ROOT}/.build'
    common = ['harness:' + h['src']] + h.get('srcs', [])
    def compile_(mode, s):
        src = resolve(s); fls = fl + h.get('flags_' + mode, [])
        if mode == 'sym': cmd = [CXX] + fls + SYM
        else: cmd = [CXX] + fls + ['-O1', '-ffp-contract=off', '-c']
        ext = 'll' if mode == 'sym' else 'o'
        # identical translation units of one run are compiled once
        key = hashlib.sha1(repr((cmd, src)).encode()).hexdigest()[:16]
        out = f'{work}/{key}.{ext}'
        with LOCK: ev = CACHE.setdefault(out, threading.Lock())
        with ev:
            if not os.path.exists(out):
                sh(cmd + [src, '-o', out + '.tmp']); os.replace(out + '.tmp', out)
        return out
    def link(mode, srcs):
        with ThreadPoolExecutor(4) as ex: objs = list(ex.map(lambda s: compile_(mode, s), srcs))
        if mode == 'sym':
            ll = objs[0]
            if len(objs) > 1:
                ll = f'{work}/{n}.ll'
                sh([find_link(), '-S', '-o', ll] + objs)
            sh([sys.executable, f'{HERE}/symir.py', ll, f'{work}/{n}.s.ll', f'{work}/{n}.cov.json', REPO + '/'])
            sh([CXX, '-O1', '-w', '-c', f'{work}/{n}.s.ll', '-o', f'{work}/{n}.s.o'])
            sh([CXX, f'{work}/{n}.s.o', f'{rt}/rt.o', '-o', f'{work}/{n}.sym'] + libs)
            for e in (f'{work}/{n}.s.ll', f'{work}/{n}.s.o'): os.unlink(e)
        else:
            sh([CXX] + objs + [f'{rt}/nrt.o', '-o', f'{work}/{n}.nat'] + libs)
    def both(mode):
        srcs = common + h.get('srcs_' + mode, [])
        try: return link(mode, srcs)
        except BuildError as e:
            if 'undefined reference' not in str(e) or not h.get('srcs'): raise
        # a definition moved to another source file of the package: take all of them
        have = {os.path.basename(x) for x in srcs} | set(h.get('exclude', []))
        pk = {s.split(':')[0] for s in srcs if s.split(':')[0] in SRC_DIRS}
        for k in sorted(pk):
            d = f'{REPO}/{SRC_DIRS[k]}'
            for r, _, fs in sorted(os.walk(d)):
                for f in sorted(fs):
                    rel = os.path.relpath(f'{r}/{f}', d)
                    if f.endswith('.cpp') and f not in have and rel not in {x.split(':')[1] for x in srcs if ':' in x}: srcs = srcs + [f'{k}:{rel}']
        return link(mode, srcs)
    with ThreadPoolExecutor(2) as ex:
        fs = [ex.submit(both, 'sym'), ex.submit(both, 'nat')]
        for f in fs: f.result()
    cov = json.load(open(f'{work}/{n}.cov.json'))
    return {'sym': f'{work}/{n}.sym', 'nat': f'{work}/{n}.nat', 'cov': cov['cov'], 'warn': cov['warn']}

def worker(inq, outq, cfg):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(20000)
    if cfg.get('round32'): os.environ['VP_ROUND32'] = '1'
    while True:
        t = inq.get()
        if t is None: return
        tid, inp, bound, qt, skip = t
        try: r = PathTask(cfg, inp, bound, qt).go(skip, None)
        except Exception as e:
            import traceback
            r = {'status': 'engine-error', 'detail': traceback.format_exc()[-1500:], 'flips': [], 'obl': [], 'unresolved': [('engine', repr(e))], 'stats': {}, 'input': inp}
        if 'path' in r and r.get('status') not in ('assume', 'assume-infeasible', 'bad-trace') and cfg.get('validate', True):
            nr = native(cfg, r['input'], cfg.get('tol'))
            r['native'] = {'fail': nr['fail'][:5], 'pass': nr['pass'], 'end': nr['end'], 'rc': nr['rc'], 'assume': nr['assume']}
        outq.put((tid, r))

def explore(h, b, seed, deadline, max_paths, qt, nproc, log):
    scratch = tempfile.mkdtemp(prefix='vp_')
    cfg = {'sym': b['sym'], 'nat': b['nat'], 'seed': seed, 'scratch': scratch, 'tol': h.get('tol'), 'round32': h.get('round32'), 'validate': h.get('validate', True)}
    inq, outq = mp.Queue(), mp.Queue()
    procs = [mp.Process(target=worker, args=(inq, outq, cfg), daemon=True) for _ in range(nproc)]
    for p in procs: p.start()
    R = {'paths': {}, 'runs': 0, 'obl': {}, 'unresolved': [], 'viol': [], 'cov': set(), 'warn': {}, 'flips_unsat': 0, 'flips_sat': 0,
         'stats': {'q':0,'t':0.0,'unsat':0,'sat':0,'unknown':0,'trivial':0}, 'exhausted': False, 'native_ok': 0, 'native_mismatch': [], 'reach': {}, 'samples': [], 'nodes': 0, 'assume_cut': 0, 'errors': []}
    visited = set(); expect = {}; allhist = set()
    queue = [({}, 0)]; inflight = 0; tid = 0
    stop_on_violation = True
    cands = []
    while queue or inflight:
        while queue and inflight < nproc*2:
            inp, bound = queue.pop(0)
            inq.put((tid, inp, bound, qt, list(visited) if len(visited) < 3000 else list(visited)[-3000:])); tid += 1; inflight += 1
        to = deadline - time.time()
        if to <= 0: R['unresolved'].append(('deadline', 'time budget exhausted')); break
        try: _, r = outq.get(timeout=min(to, 5))
        except Exception:
            if not any(p.is_alive() for p in procs): R['unresolved'].append(('engine', 'workers died')); break
            continue
        inflight -= 1; R['runs'] += 1
        for k, v in (r.get('stats') or {}).items(): R['stats'][k] = R['stats'].get(k, 0) + v
        for hh in r.get('hist', []): allhist.add(hh)
        if r['status'] == 'engine-error': R['errors'].append(r['detail']); R['unresolved'].append(('engine', r['detail'][-300:]))
        for u in r.get('unresolved', []): R['unresolved'].append(u)
        if r['status'] == 'node-budget' or r['status'] == 'bad-trace' or str(r['status']).startswith('unsupported'):
            R['unresolved'].append(('run', r['status'], r.get('detail', '')))
        if r['status'] == 'assume-infeasible': R['assume_cut'] += 1
        for f in r['flips']:
            if f['key'] is not None:
                if f['key'] in visited: continue
                visited.add(f['key'])
            if f['input'] is None: R['flips_unsat'] += 1
            else:
                if f.get('assume'):
                    R['assume_tries'] = R.get('assume_tries', 0) + 1
                    if R['assume_tries'] > 200: R['unresolved'].append(('assume', 'too many repairs')); continue
                else: R['flips_sat'] += 1; expect[f['expect']] = f.get('why', '')
                if os.environ.get('VP_TRACEQ'): print('Q', f['key'], f['bound'], f.get('assume'), {k: v for k, v in f['input'].items() if r['input'].get(k) != v})
                queue.append((f['input'], f['bound']))
        if r['status'] in ('assume', 'assume-infeasible', 'bad-trace', 'engine-error'): continue
        key = r['path']
        if key in R['paths']: continue
        R['paths'][key] = {'status': r['status'], 'npc': r['npc']}
        R['nodes'] = max(R['nodes'], r['nodes'])
        R['cov'] |= set(r['cov'])
        for x in r['reach']: R['reach'][x] = R['reach'].get(x, 0) + 1
        if r['nwarn']: 
            for w in r['warn']: R['warn'][w] = R['warn'].get(w, 0) + 1
        bad = []
        if r['status'] in ('crash', 'exception', 'terminate'):
            bad.append(('no-' + r['status'], 'sat', None))
        for o in r['obl']:
            s = R['obl'].setdefault(o['name'], {'holds': 0, 'sat': 0, 'unknown': 0})
            s[o['res']] += 1
            if o['res'] != 'holds': bad.append((o['name'], o['res'], o.get('model')))
        nat = r.get('native')
        if nat:
            clean = not nat['fail'] and nat['end'] is not None
            if clean and not bad: R['native_ok'] += 1
            elif not bad: R['native_mismatch'].append({'input': r['input'], 'native': nat})
        if len(R['samples']) < 3: R['samples'].append({'harness': h['name'], 'input': {k: (v if not isinstance(v, float) else float(v)) for k, v in list(r['input'].items())[:40]}, 'branches': r['npc'], 'end': r['status'], 'obligations': len(r['obl'])})
        if bad: cands.append((bad, r['input']))
        if bad and os.environ.get('VP_DUMP'): json.dump({'bad': [b[:2] for b in bad], 'input': r['input'], 'models': [b[2] for b in bad], 'flips': r['npc']}, open(os.environ['VP_DUMP'], 'a')); open(os.environ['VP_DUMP'], 'a').write('\n')
        # replay candidates
        newv = replay(h, cfg, bad, r['input'], seed) if bad else []
        for v in newv: R['viol'].append(v)
        for (n, s, m) in bad:
            if not any(v['name'] == n for v in R['viol']):
                R['unresolved'].append(('obligation', n, s))
        if R['viol'] and not h.get('collect_all') and len({v['name'] for v in R['viol']}) >= 1 and not h.get('known'):
            break
        if len(R['paths']) >= max_paths:
            R['unresolved'].append(('paths', f'path bound {max_paths} reached')); break
    for p in procs: p.kill()
    miss = [k for k in expect if k not in allhist]
    R['diverged'] = len(miss)
    if os.environ.get('VP_DEBUG') and miss:
        import collections; print('   diverged', collections.Counter(expect[k] for k in miss).most_common(8))
    if miss and not R['viol']:
        R['unresolved'].append(('flip', f'{len(miss)} solver-predicted branches not reached by the concrete run, e.g. ' + expect[miss[0]]))
    R['visited'] = len(visited)
    shutil.rmtree(scratch, ignore_errors=True)
    return R

def norm_name(l): return l.split(' ')[0]

def replay(h, cfg, bad, inp, seed):
    """native replay of counterexample candidates: the solver's model, the path's own input, nearby inputs"""
    out = []
    rng = random.Random(seed)
    done = set()
    for name, res, model in bad:
        if name in done: continue
        cands = []
        if model: cands.append(('solver model', model))
        cands.append(('path input', inp))
        if not name.startswith('no-'):
            for k in range(12):
                d = {}
                base = model if (model and k % 2 == 0) else inp
                for kk, v in base.items():
                    d[kk] = (rng.uniform(-3, 3) if k >= 4 else v + rng.uniform(-.3, .3)) if isinstance(v, float) else v
                cands.append(('generalised model', d))
        for src, c in cands:
            nr = native(cfg, c, cfg.get('tol'))
            if nr['assume'] and not nr['fail']: continue
            if name == 'no-crash' and (nr['end'] is None and nr['rc'] not in (0,)): hit = f'native run ended with rc={nr["rc"]}'
            elif name in ('no-exception', 'no-terminate') and (nr['end'] or '').startswith('exception'): hit = nr['end']
            elif name == 'no-terminate' and nr['end'] is None: hit = f'native run ended with rc={nr["rc"]}'
            else:
                hit = next((f for f in nr['fail'] if f.split(' ')[0] == name), None)
            if hit:
                out.append({'name': name, 'input': c, 'observed': hit, 'source': src}); done.add(name)
                break
    return out

def is_known(known, pid, h, v): return next((k for k in known.get('findings', []) if k['property'] == pid and k['harness'] == h['name'] and re.fullmatch(k['check'], v['name'])), None)
def fmt(v): return v.hex() if isinstance(v, float) else str(v)

def run_property(pid, spec, tier, seed):
    t0 = time.time()
    ev_dir = f'{ROOT}/evidence'; os.makedirs(ev_dir + '/replay', exist_ok=True)
    build_rt(f'{ROOT}/.build')
    work = tempfile.mkdtemp(prefix='vpb_')
    limit = spec.get('budget', {}).get(tier, 420 if tier == 'quick' else 2400)
    limit = min(limit, int(os.environ.get('VP_LIMIT', limit)))
    hs = [h for h in spec['harnesses'] if tier in h.get('tiers', ('quick', 'thorough'))]
    sel = os.environ.get('VP_ONLY')
    if sel: hs = [h for h in hs if re.search(sel, h['name'])]
    known = json.load(open(f'{ROOT}/known_findings.json'))
    violations, inconclusive, per = [], [], []
    ncpu = os.cpu_count() or 4
    from concurrent.futures import ThreadPoolExecutor
    builds = {}
    def bb(h):
        try: return build(h, work)
        except BuildError as e: return e
    with ThreadPoolExecutor(max(1, ncpu//2)) as ex:
        for h, b in zip(hs, ex.map(bb, hs)): builds[h['name']] = b
    tot = {'q':0,'t':0.0,'unsat':0,'sat':0,'unknown':0,'trivial':0}
    states = trans = nat = obl = disch = runs = 0; funcs = {}; samples = []; lines = {}
    tb = time.time() - t0
    done_early = None
    for i, h in enumerate(hs):
        if done_early: inconclusive.append((h['name'], 'skipped', f'violation found in {done_early}')); continue
        b = builds[h['name']]
        if isinstance(b, BuildError):
            print(f'[{pid}] {h["name"]}: BUILD FAILED\n{b}', flush=True)
            inconclusive.append((h['name'], 'build', str(b)[-500:])); continue
        left = t0 + limit - time.time(); share = max(20, left / (len(hs) - i) * 1.7)
        dl = min(t0 + limit, time.time() + share)
        t1 = time.time()
        R = explore(h, b, seed, dl, h.get('max_paths', {}).get(tier, 4000) if isinstance(h.get('max_paths'), dict) else h.get('max_paths', 4000), h.get('qt', 20000), ncpu, None)
        for k in tot: tot[k] += R['stats'].get(k, 0)
        states += len(R['paths']); trans += R['flips_unsat'] + R['flips_sat'] + sum(p['npc'] for p in R['paths'].values()); nat += R['native_ok']; runs += R['runs']
        no = sum(sum(v.values()) for v in R['obl'].values()); nh = sum(v['holds'] for v in R['obl'].values())
        obl += no; disch += nh
        for c in R['cov']:
            f, l, n = b['cov'][c]; f = os.path.relpath(f, REPO)
            funcs.setdefault(f'{f}:{n}', set()).add(l)
        fresh = [v for v in R['viol'] if not is_known(known, pid, h, v)]
        missing = [x for x in h.get('reach', []) if x not in R['reach']]
        if missing and not fresh: inconclusive.append((h['name'], 'vacuity', 'not reached: ' + ', '.join(missing)))
        if not R['obl'] and not fresh: inconclusive.append((h['name'], 'vacuity', 'no obligation generated'))
        for u in R['unresolved'][:20]: 
            if not fresh: inconclusive.append((h['name'],) + tuple(str(x)[:400] for x in u))
        for v in R['viol']:
            violations.append((h, v))
        samples += R['samples'][:1]
        per.append({'harness': h['name'], 'paths': len(R['paths']), 'runs': R['runs'], 'obligations': no, 'held': nh, 'branch_flips_infeasible': R['flips_unsat'], 'branch_flips_taken': R['flips_sat'],
                    'max_dag_nodes': R['nodes'], 'native_replays_agreeing': R['native_ok'], 'native_mismatch': len(R['native_mismatch']), 'unresolved': len(R['unresolved']), 'assume_cut': R['assume_cut'],
                    'escaped_values': R['warn'], 'reach': R['reach'], 'bounds': h.get('bounds', ''), 'wall_s': round(time.time() - t1, 1)})
        print(f'[{pid}] {h["name"]}: paths={len(R["paths"])} runs={R["runs"]} obligations={nh}/{no} unresolved={len(R["unresolved"])} native={R["native_ok"]} mismatch={len(R["native_mismatch"])} warn={R["warn"]} viol={len(R["viol"])} {time.time()-t1:.1f}s', flush=True)
        if fresh: done_early = h['name']
        for m in R['native_mismatch'][:2]: print('   mismatch', m['native'], {k: v for k, v in list(m['input'].items())[:8]})
        if os.environ.get('VP_DEBUG'):
            for u in R['unresolved'][:12]: print('   unresolved', str(u)[:600])
            for x in R['errors'][:2]: print(x)
    if not os.environ.get('VP_KEEP'): shutil.rmtree(work, ignore_errors=True)
    else: print('kept', work)
    rc = 0; nviol = 0; kf_lines = set()
    for h, v in violations:
        k = is_known(known, pid, h, v)
        if k is not None:
            kf_lines.add(f'KNOWN-FINDING: property={pid} {k["what"]}'); continue
        nviol += 1
        rp = f'{ev_dir}/replay/{pid}-{nviol}.txt'
        with open(rp, 'w') as f:
            f.write(f'# property {pid}  harness {h["src"]} ({h["name"]})  violated obligation: {v["name"]}\n# {v["source"]}; native (uninstrumented) run observed: {v["observed"]}\n# replay: python3-vt {ROOT}/check.py {pid} --replay {rp}\n')
            for kk, vv in sorted(v['input'].items()): f.write(f'{kk} {fmt(vv)}\n')
        if nviol == 1 or h.get('collect_all'): print(f'VIOLATION property={pid} replay={rp}')
        print(f'   obligation {v["name"]} in {h["name"]}: {v["observed"]}')
        rc = 1
    for l in sorted(kf_lines): print(l)
    for x in inconclusive[:15]: print('INCONCLUSIVE', pid, *[str(y)[:300] for y in x])
    if rc == 0 and not states: rc = 2; print(f'ERROR {pid}: nothing could be explored')
    exhaustive = not inconclusive and not violations
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': states, 'transitions': trans, 'traces_validated_against_impl': nat, 'samples': samples[:6],
             'exhaustive': exhaustive, 'explanation': 'states = distinct feasible execution paths of the real code; transitions = branch decisions on symbolic conditions decided by the solver or taken along explored paths; traces_validated_against_impl = path witnesses replayed on the uninstrumented build with every obligation confirmed in doubles',
             'obligations': obl, 'discharged': disch, 'solver': {'queries': tot['q'], 'unsat': tot['unsat'], 'sat': tot['sat'], 'unknown': tot['unknown'], 'decided_by_simplifier': tot['trivial'], 'solver_s': round(tot['t'], 2)},
             'functions_encoded': sorted(f'{k} ({len(v)} lines)' for k, v in funcs.items()), 'harnesses': per, 'inconclusive': [list(x) for x in inconclusive][:40], 'build_s': round(tb, 1)},
          'assumptions': spec.get('assumptions', []) + COMMON_ASSUMPTIONS, 'wall_s': round(time.time() - t0, 1), 'violations': nviol}
    json.dump(ev, open(f'{ev_dir}/{pid}.json', 'w'), indent=1)
    print(f'[{pid}] {tier}: paths={states} obligations={disch}/{obl} queries={tot["q"]} solver={tot["t"]:.1f}s violations={nviol} inconclusive={len(inconclusive)} wall={time.time()-t0:.1f}s')
    return rc

COMMON_ASSUMPTIONS = [
  'floating point values are treated as exact reals (rounding, overflow, signed zero are outside the claim); comparisons of reals with the code\'s literal tolerances are exact',
  'clang 18 -O1 lowering of the sources to LLVM IR, and the IR rewriter/runtime in /verif/engine, are trusted; every explored path is replayed on an uninstrumented build',
  'sizes (numbers of images, observations, joints, targets) are the concrete ones listed per harness under bounds',
]

def replay_file(pid, spec, path):
    txt = open(path).read()
    m = re.search(r'harness \S+ \((.*?)\)  violated obligation: (\S+)', txt)
    h = next(h for h in spec['harnesses'] if h['name'] == m.group(1))
    build_rt(f'{ROOT}/.build')
    work = tempfile.mkdtemp(prefix='vpb_'); b = build(h, work)
    inp = dict(l.split(' ', 1) for l in txt.splitlines() if l and not l.startswith('#'))
    nr = native({'nat': b['nat'], 'seed': 1, 'scratch': work}, inp, h.get('tol'))
    shutil.rmtree(work)
    print(nr); return 1 if nr['fail'] or nr['end'] is None else 0
