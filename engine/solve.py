"""One path: run the instrumented binary on one input, encode its trace, decide obligations and branch flips."""
import os, subprocess, tempfile, time, math, random, hashlib
from fractions import Fraction
import z3
from encode import Trace, Enc, TooBig, Fr

def run_bin(binary, inp, seed, trace, timeout=120, env_extra=None):
    fd, ip = tempfile.mkstemp(suffix='.in', dir=os.path.dirname(trace)); os.close(fd)
    write_input(ip, inp)
    env = dict(os.environ, VP_INPUT=ip, VP_TRACE=trace, VP_SEED=str(seed), OMP_NUM_THREADS='1')
    env.update(env_extra or {})
    try:
        p = subprocess.run([binary], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout, cwd=os.path.dirname(trace))
        rc = p.returncode
    except subprocess.TimeoutExpired: rc = 'timeout'
    os.unlink(ip)
    return rc

def write_input(path, inp):
    with open(path, 'w') as f:
        for k, v in sorted(inp.items()):
            f.write(f'{k} {v.hex() if isinstance(v, float) else v}\n')

class Stats:
    def __init__(self): self.q = 0; self.t = 0.0; self.unsat = 0; self.sat = 0; self.unknown = 0; self.trivial = 0

SIMP = {}
def simp(c):
    k = c.get_id(); v = SIMP.get(k)
    if v is None: v = SIMP[k] = (z3.simplify(c), c)   # c is kept: ids of dead expressions are reused
    return v[0]

def ask(cons, timeout_ms, st, real_only=True):
    """conjunction -> ('sat', model) / ('unsat', None) / ('unknown', None)"""
    t0 = time.time(); st.q += 1
    cons = [simp(c) for c in cons]
    if any(z3.is_false(c) for c in cons):
        s = z3.Solver(); s.add(z3.BoolVal(False)); r = s.check(); assert r == z3.unsat
        st.unsat += 1; st.trivial += 1; st.t += time.time() - t0
        return 'unsat', None
    cons = [c for c in cons if not z3.is_true(c)]
    res = 'unknown', None
    plans = []
    if real_only: plans.append(('nlsat', timeout_ms*5//10))
    plans.append(('smt', timeout_ms*5//10))
    for name, to in plans:
        try:
            if name == 'nlsat':
                s = z3.Then(z3.With('simplify', som=False), 'propagate-values', 'solve-eqs', 'qfnra-nlsat').solver()
            else: s = z3.Solver()
            s.set('timeout', max(100, int(to)))
            s.add(*cons)
            r = s.check()
        except z3.Z3Exception as e:
            continue
        if r == z3.unsat: res = 'unsat', None; break
        if r == z3.sat:
            try: m = s.model()
            except z3.Z3Exception: continue
            res = 'sat', m; break
    st.t += time.time() - t0
    setattr(st, res[0], getattr(st, res[0]) + 1)
    return res

def tofloat(v):
    if z3.is_algebraic_value(v): v = v.approx(30)
    if z3.is_rational_value(v): 
        return v.numerator_as_long()/v.denominator_as_long() if abs(v.denominator_as_long()) < 10**300 and abs(v.numerator_as_long()) < 10**300 else float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    raise ValueError

class PathTask:
    def __init__(self, cfg, inp, bound, qtimeout):
        SIMP.clear()
        self.cfg = cfg; self.inp = dict(inp); self.bound = bound; self.qt = qtimeout

    def go(self, skip_flips, proven):
        cfg = self.cfg; st = Stats()
        res = {'flips': [], 'obl': [], 'stats': st.__dict__, 'unresolved': [], 'status': None}
        tr = tempfile.mktemp(suffix='.tr', dir=cfg['scratch'])
        rc = run_bin(cfg['sym'], self.inp, cfg['seed'], tr)
        try: T = Trace(tr)
        except Exception as e:
            res['status'] = 'bad-trace'; res['detail'] = repr(e); return res
        finally:
            if os.path.exists(tr) and not os.environ.get('VP_KEEP'): os.unlink(tr)
        if T.end is None:
            res['status'] = 'crash'; res['detail'] = f'rc={rc}'
        else: res['status'] = T.end
        res['exc'] = T.exc
        cur = T.inputs(); cur = {k: v for k, v in cur.items()}
        inp = dict(self.inp); inp.update(cur)
        res['input'] = inp
        res['cov'] = sorted(T.cov); res['warn'] = sorted(set(w.split(' ')[0] for w in T.warn)); res['nwarn'] = len(T.warn)
        res['reach'] = [n for _, n in T.reach]
        res['nodes'] = len(T.nodes)
        E = Enc(T)
        # ---- path condition
        enc = []; seen = {}; hist = []; late = []
        ph = hashlib.sha1(); pre = []; posmap = [0]
        closure_cache = {}
        def closure(need):
            """input-level closure of an atom set"""
            k = frozenset(need)
            if k not in closure_cache: closure_cache[k] = E.axioms(need)
            return closure_cache[k]
        def slice_(need0, upto, boolvars0, more=()):
            """path constraints transitively sharing atoms with need0"""
            ax, atoms = closure(need0); atoms = set(atoms); bvs = set(boolvars0)
            rest = [e for e in ((enc[:upto] if upto <= len(enc) else enc + late[:upto - len(enc)]) + list(more)) if e is not None and e[0] is not None and not isinstance(e[0], str) and not z3.is_true(simp(e[0]))]
            use = []; changed = True
            info = []
            for e in rest:
                info.append((e, closure(e[1])[1], bvars(e[0])))
            while changed:
                changed = False; left = []
                for e, at, bv in info:
                    if at & atoms or bv & bvs or (not at and not bv):
                        use.append(e); atoms |= at; bvs |= bv; changed = True
                    else: left.append((e, at, bv))
                info = left
            return use, atoms
        bvc = {}
        def bvars(e):
            k = e.get_id()
            if k in bvc: return bvc[k][0]
            out = set(); todo = [e]; vis = set()
            while todo:
                x = todo.pop()
                if x.get_id() in vis: continue
                vis.add(x.get_id())
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    n = x.decl().name()
                    if n.startswith('b_') or n.startswith('i_') or n.startswith('P_'): out.add(n)
                todo.extend(x.children())
            bvc[k] = (out, e); return out   # e is kept: ids of dead expressions are reused
        def full(use, extra, atoms):
            ax, _ = E.axioms(atoms)
            return [e[0] for e in use] + list(extra) + ax
        def model_input(m):
            d = {}
            for key, a in E.bykey.items():
                if key[0] == 'in':
                    at = E.atoms[a]
                    v = m[at.z]
                    if v is not None:
                        try: d[at.name] = tofloat(v)
                        except Exception: pass
            for dcl in m.decls():
                n = dcl.name()
                if n.startswith('b_'): d[n[2:]] = 1 if z3.is_true(m[dcl]) else 0
                elif n.startswith('i_'):
                    d[n[2:]] = m[dcl].as_signed_long()
            return d
        def box(atoms, lim):
            return [z3.And(E.atoms[a].z <= lim, E.atoms[a].z >= -lim) for a in atoms if E.atoms[a].kind == 'in']
        def isreal(bv): return not bv
        def query(extra, need, upto, to, more=()):
            if any(z3.is_false(simp(x)) for x in extra): return ask(extra, to, st)
            bv = set()
            for x in extra: bv |= bvars(x)
            use, atoms = slice_(need, upto, bv, more)
            for e in use: bv |= bvars(e[0])
            cons = full(use, extra, atoms)
            allv = set()
            for c in cons: allv |= bvars(c)
            pv = {x for x in allv if x.startswith('P_')}
            isr = not any(not x.startswith('P_') for x in bv)
            if pv:
                # polynomials as opaque reals first: unsat there is unsat
                r, m = ask(cons, min(to, 3000), st, isr)
                if r == 'unsat': return r, None
                cons = cons + E.defs(pv)
            r, m = ask(cons, to, st, isr)
            if r == 'sat':
                d = model_input(m)
                big = [v for v in d.values() if isinstance(v, float) and (abs(v) > 1e4 or (v != 0 and abs(v) < 1e-7))]
                if big:
                    r2, m2 = ask(cons + box(atoms, 100), min(to, 4000), st, isr)
                    if r2 == 'sat': d = model_input(m2)
                return r, d
            return r, None
        # ---- signs the normal form relied on: implied by the path, or a case split (the other case is another path)
        nside = [0]
        def new_sides(into, upto):
            while nside[0] < len(E.sides):
                p, s, _ = E.sides[nside[0]]; nside[0] += 1
                need = set(); z = E.zpoly(p, need)
                neg = {1: z <= 0, -1: z >= 0, 2: z < 0, -2: z > 0}[s]
                r, _ = query([neg], need, upto(), self.qt)
                if r == 'unsat': continue
                if abs(s) == 1:
                    r, _ = query([z == 0], set(need), upto(), self.qt)
                    if r != 'unsat': res['unresolved'].append(('side', str(z)[:200] + ' may vanish: ' + r))
                con = z3.Not(neg); flip = (z < 0) if s > 0 else (z > 0)
                hk = 'S' + hashlib.sha1(str(z).encode()).hexdigest()
                into(con, need, flip, hk, s > 0)
        def push(c, need, kind, nid, taken, b, hk):
            pre.append(ph.copy()); enc.append((c, need, kind, nid, taken, b, hk))
            ph.update(f'{hk},{taken};'.encode()); hist.append(ph.hexdigest()[:20])
        for i, (nid, taken, kind) in enumerate(T.pc):
            E.pcpos = len(enc)
            if nid not in seen:
                seen[nid] = taken
                need = set()
                try:
                    b = E.boolean(nid, need)
                    new_sides(lambda con, nd, flip, hk, t: push(con, nd, 'S', None, t, flip, hk), lambda: len(enc))
                    c = b if taken else z3.Not(b)
                except (TooBig, ZeroDivisionError, OverflowError): c = 'big'; b = None; need = set()
                push(c, need, kind, nid, taken, b, T.nodes[nid].h)
            posmap.append(len(enc))
        res['npc'] = len(enc)
        # ---- assumption failed: look for an input satisfying it
        nflip = None
        if T.end == 'assume-infeasible': T.items = []    # false on this path whatever the input
        if T.end == 'assume':
            e = enc[-1] if enc and enc[-1][3] == T.pc[-1][0] else None
            if e is None:
                res['status'] = 'assume-infeasible'; return self.fin(res, st)
            if isinstance(e[0], str):
                res['unresolved'].append(('assume', 'unencodable')); return self.fin(res, st)
            # the recorded condition is the assumption itself (taken=True)
            r, d = query([e[0]], e[1], len(enc) - 1, self.qt*2)
            if r == 'sat':
                ni = dict(inp); ni.update(d)
                res['flips'].append({'key': None, 'input': ni, 'bound': self.bound, 'assume': True})
                return self.fin(res, st)
            if r == 'unsat': res['status'] = 'assume-infeasible'
            else: res['unresolved'].append(('assume', 'unknown'))
            T.items = []; nflip = len(enc) - 1    # branches before it may still go the other way
        def exp_(i, h, taken):
            x = pre[i].copy(); x.update(f'{h},{not taken};'.encode()); return x.hexdigest()[:20]
        def late_push(con, nd, flip, hk, t):
            late.append((con, nd, 'S', None, t, flip, hk)); pre.append(ph.copy()); ph.update(f'{hk},{t};'.encode()); hist.append(ph.hexdigest()[:20])
        BIG = 10**9
        # ---- obligations
        for it in T.items:
            kind = it[1]; upto = posmap[it[0]]
            if kind == 'C': name, nid, val = it[4], it[2], it[3]
            else: name = it[6]
            o = {'name': name, 'res': None}
            try:
                need = set()
                if kind == 'C':
                    if nid == 0:
                        o['res'] = 'holds' if val else 'sat'; o['concrete'] = True
                        res['obl'].append(o); continue
                    neg = z3.Not(E.boolean(nid, need))
                else:
                    a, b, ca, cb = it[2], it[3], it[4], it[5]
                    if a == 0 or b == 0:
                        same = (math.isnan(ca) and math.isnan(cb)) or ca == cb if kind == 'CE' else (ca <= cb)
                        if a == 0 and b == 0 and same: o['res'] = 'holds'
                        else: o['res'] = 'sat'
                        o['concrete'] = True; res['obl'].append(o); continue
                    E.pcpos = upto
                    e = E.cmp('feq' if kind == 'CE' else 'fle', a, b, need)
                    neg = z3.Not(e)
                new_sides(late_push, lambda: len(enc) + len(late))
                if z3.is_false(z3.simplify(neg)):
                    r, d = ask([neg], self.qt, st)
                else:
                    r, d = query([neg], need, upto, self.qt*2, late)
                o['res'] = {'unsat': 'holds'}.get(r, r)
                if d is not None: ni = dict(inp); ni.update(d); o['model'] = ni
            except (TooBig, ZeroDivisionError, OverflowError, RecursionError) as ex:
                o['res'] = 'unknown'; o['why'] = type(ex).__name__
            res['obl'].append(o)
        # ---- flips
        res['path'] = ph.hexdigest()
        every = enc + late
        for i in range(self.bound, len(every) if nflip is None else nflip):
            e = every[i]
            if e[2] not in ('P', 'S'): continue
            h = e[6]
            prev = hist[i-1] if i else ''
            key = f'{prev}|{h}|{not e[4]}'
            if key in skip_flips: continue
            if isinstance(e[0], str):
                res['unresolved'].append(('flip', 'unencodable condition', e[3])); continue
            # every later constraint is free
            r, d = query([z3.Not(e[0]) if e[2] == 'P' else e[5]], e[1], i, self.qt)
            if r == 'sat':
                ni = dict(inp); ni.update(d)
                res['flips'].append({'key': key, 'input': ni, 'bound': i + 1, 'expect': exp_(i, h, e[4]), 'why': f'{e[2]} {e[4]} {str(e[0])[:200]} <- {d if os.environ.get("VP_DEBUG") else ""}'})
            elif r == 'unsat': res['flips'].append({'key': key, 'input': None})
            else: res['unresolved'].append(('flip', str(e[0])[:300], e[3]))
        res['hist'] = [x for x in hist if x]
        return self.fin(res, st)
    def fin(self, res, st):
        res['stats'] = dict(st.__dict__); return res

def native(cfg, inp, tol=None):
    tr = tempfile.mktemp(suffix='.nat', dir=cfg['scratch'])
    ex = {'VP_TOL': str(tol)} if tol else {}
    rc = run_bin(cfg['nat'], inp, cfg['seed'], tr, env_extra=ex)
    r = {'rc': rc, 'fail': [], 'pass': 0, 'end': None, 'assume': False}
    if os.path.exists(tr):
        for l in open(tr, errors='replace'):
            t = l.rstrip('\n').split(' ')
            if t[0] == 'FAIL': r['fail'].append(l.rstrip('\n')[5:])
            elif t[0] == 'PASS': r['pass'] += 1
            elif t[0] == 'END': r['end'] = ' '.join(t[1:])
            elif t[0] == 'ASSUME': r['assume'] = True
        os.unlink(tr)
    return r
