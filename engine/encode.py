"""Trace -> SMT.  Real-valued nodes are brought to rational normal form over atoms (inputs, square roots, sines, ...)
with exact rational coefficients; path conditions and obligations become polynomial (in)equalities plus the axioms of
the atoms they mention, integers become bit-vectors.  The verdict is always the solver's."""
from fractions import Fraction
from math import gcd
import math, time, os
import z3

class TooBig(Exception): pass
MAXTERMS = 30000

class Node:
    __slots__ = ('id','op','w','a','c','name','h')

class Trace:
    def __init__(self, path):
        self.nodes = {}
        self.pc = []        # (node, taken, kind)   kind P branch / A assumption
        self.items = []     # obligations (pcpos, kind, ...)
        self.units = []
        self.reach = []
        self.cov = set()
        self.warn = []
        self.end = None; self.exc = None
        nodes = self.nodes
        with open(path, errors='replace') as f:
            for l in f:
                t = l.rstrip('\n').split(' ')
                k = t[0]
                if k == 'N':
                    n = Node(); n.id = int(t[1]); n.op = t[2]; n.w = int(t[3])
                    e = t.index('=')
                    n.a = tuple(int(x) for x in t[4:e])
                    n.c = (float.fromhex(t[e+1]) if n.w == 0 else int(t[e+1]))
                    n.name = ' '.join(t[e+3:]) if len(t) > e+2 and t[e+2] == '@' else ''
                    n.h = hash((n.op, n.w, tuple(nodes[x].h for x in n.a), n.name, n.c if n.op in ('fconst','iconst') else 0))
                    nodes[n.id] = n
                elif k in ('P','A'): self.pc.append((int(t[1]), t[2] == '1', k))
                elif k == 'C': self.items.append((len(self.pc), 'C', int(t[1]), t[2] == '1', ' '.join(t[3:])))
                elif k in ('CE','CL'): self.items.append((len(self.pc), k, int(t[1]), int(t[2]), float.fromhex(t[3]), float.fromhex(t[4]), ' '.join(t[5:])))
                elif k == 'U': self.units.append([int(x) for x in t[1:]])
                elif k == 'R': self.reach.append((len(self.pc), ' '.join(t[1:])))
                elif k == 'V': self.cov.add(int(t[1]))
                elif k == 'W': self.warn.append(' '.join(t[1:]))
                elif k == 'X': self.exc = ' '.join(t[1:])
                elif k == 'E': self.end = ' '.join(t[1:])
    def inputs(self):
        r = {}
        for n in self.nodes.values():
            if n.op == 'fin': r[n.name] = n.c
            elif n.op == 'iin': r[n.name] = n.c if n.w > 1 and n.c < 1 << (n.w-1) else (n.c - (1 << n.w) if n.w > 1 else n.c)
        return r

# ---------------------------------------------------------------- polynomials: {monomial: Fraction}, monomial ((atom,exp),...)
ONE = {(): Fraction(1)}
def padd(p, q, s=1):
    if len(p) < len(q) and s == 1: p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s*c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def pscale(p, k): return {m: c*k for m, c in p.items()} if k else {}
def mmul(a, b):
    if not a: return b
    if not b: return a
    r = []; i = j = 0
    while i < len(a) and j < len(b):
        if a[i][0] == b[j][0]: r.append((a[i][0], a[i][1]+b[j][1])); i += 1; j += 1
        elif a[i][0] < b[j][0]: r.append(a[i]); i += 1
        else: r.append(b[j]); j += 1
    r.extend(a[i:]); r.extend(b[j:])
    return tuple(r)

class Atom:
    __slots__ = ('id','kind','rule','val','data','z','name')

class Enc:
    def __init__(self, trace):
        self.t = trace
        self.atoms = []
        self.bykey = {}
        self.memo = {}
        self.factors = []       # denominators: list of polys
        self.fkey = {}
        self.sides = []         # (poly n, sign, pcpos)
        self.sidekeys = set()
        self.pcpos = 0
        self.bmemo = {}
        self.unitof = {}
        self.trigbase = {}
        self._collect_trig_done = False
        for u in trace.units:
            for i, x in enumerate(u): self.unitof[x] = (u, i)
        self.zmemo = {}
        self.polys = {}; self.polyvar = {}

    # ---- atoms
    def atom(self, key, kind, val, data=None, rule=None, name=None):
        i = self.bykey.get(key)
        if i is None:
            a = Atom(); a.id = len(self.atoms); a.kind = kind; a.rule = rule; a.val = val; a.data = data; a.name = name
            a.z = z3.Real(f'{kind}_{name if name else a.id}')
            self.atoms.append(a); i = self.bykey[key] = a.id
        return i
    def pv(self, i): return {((i,1),): Fraction(1)}
    def peval(self, p):
        s = 0.0
        for m, c in p.items():
            v = float(c)
            for a, e in m: v *= self.atoms[a].val ** e
            s += v
        return s

    # ---- reduction
    def reduce(self, p):
        """apply rules atom^2 -> poly until none applies"""
        work = p; out = {}
        it = 0
        while work:
            it += 1
            if it > 200: raise TooBig()
            nxt = {}
            for m, c in work.items():
                hit = None
                for a, e in m:
                    if e >= 2 and self.atoms[a].rule is not None: hit = (a, e); break
                if hit is None:
                    v = out.get(m, 0) + c
                    if v: out[m] = v
                    else: out.pop(m, None)
                    continue
                a, e = hit
                rest = tuple((x, y) for x, y in m if x != a)
                k = e // 2
                if e % 2: rest = mmul(rest, ((a,1),))
                base = {rest: c}
                rule = self.atoms[a].rule
                for _ in range(k): base = self.rawmul(base, rule)
                nxt = padd(nxt, base)
                if len(nxt) > MAXTERMS: raise TooBig()
            work = nxt
        return out
    def rawmul(self, p, q):
        if len(p)*len(q) > 4000000: raise TooBig()
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = mmul(m1, m2); v = r.get(m, 0) + c1*c2
                r[m] = v
        return {m: c for m, c in r.items() if c}
    def pmul(self, p, q):
        if not p or not q: return {}
        if len(q) == 1 and () in q: return pscale(p, q[()])
        if len(p) == 1 and () in p: return pscale(q, p[()])
        r = self.rawmul(p, q)
        if len(r) > MAXTERMS: raise TooBig()
        return self.reduce(r)

    # ---- denominators
    def factor(self, p):
        """register polynomial p (non constant); returns (coeff, {factor:exp})"""
        # content
        lead = min(p)  # canonical
        c = p[lead]
        # monomial content
        common = None
        for m in p:
            d = dict(m)
            if common is None: common = d
            else: common = {a: min(e, d[a]) for a, e in common.items() if a in d}
            if not common: break
        fs = {}
        if common:
            q = {}
            for m, cc in p.items():
                d = dict(m)
                for a, e in common.items():
                    d[a] -= e
                q[tuple(sorted((a, e) for a, e in d.items() if e))] = cc
            p = q
            for a, e in common.items(): fs[self.fid(self.pv(a))] = e
            lead = min(p); c = p[lead]
        if len(p) == 1 and () in p: return p[()], fs
        p = pscale(p, 1/c)
        f = self.fid(p); fs[f] = fs.get(f, 0) + 1
        return c, fs
    def fid(self, p):
        k = frozenset(p.items())
        f = self.fkey.get(k)
        if f is None:
            f = len(self.factors); self.factors.append(p); self.fkey[k] = f
        return f
    def fpow(self, f, e):
        r = ONE
        for _ in range(e): r = self.pmul(r, self.factors[f])
        return r
    def norm(self, n, d):
        """simplify num / den-factors"""
        if not n: return ({}, {})
        d = dict(d)
        for f in list(d):
            fp = self.factors[f]
            if len(fp) == 1:
                (m,) = fp; a = m[0][0]
                k = min((dict(mm).get(a, 0) for mm in n), default=0)
                k = min(k, d[f])
                if k:
                    n = {tuple((x, e - k) if x == a else (x, e) for x, e in mm if not (x == a and e == k)): c for mm, c in n.items()}
                    d[f] -= k
                rule = self.atoms[a].rule
                if d[f] >= 2 and rule is not None and self.atoms[a].kind == 'sqrt':
                    h = d[f] // 2; d[f] -= 2*h
                    if len(rule) == 1 and () in rule: n = pscale(n, 1/rule[()]**h)
                    else:
                        c, fs = self.factor(rule)
                        n = pscale(n, 1/c**h)
                        for g, e in fs.items(): d[g] = d.get(g, 0) + e*h
                    if not d[f]: del d[f]
                    return self.norm(n, d)
                if not d[f]: del d[f]
            else:
                # exact cancellation of an equal numerator factor
                while f in d and len(n) >= len(fp) and d[f] > 0:
                    q = self.divexact(n, fp)
                    if q is None: break
                    n = q; d[f] -= 1
                    if not d[f]: del d[f]
        return (n, d)
    def divexact(self, n, f):
        """n = q*f in the plain polynomial ring?"""
        if len(n) > 3000: return None
        order = lambda m: (sum(e for _, e in m), m)
        # lexicographic by atoms: use tuple of negative to get a monomial order
        atoms = sorted({a for m in f for a, _ in m} | {a for m in n for a, _ in m})
        idx = {a: i for i, a in enumerate(atoms)}
        def vec(m):
            v = [0]*len(atoms)
            for a, e in m: v[idx[a]] = e
            return tuple(v)
        lf = max(f, key=vec); vf = vec(lf); cf = f[lf]
        r = dict(n); q = {}
        steps = 0
        while r:
            steps += 1
            if steps > 400: return None
            lr = max(r, key=vec); vr = vec(lr)
            dv = [x - y for x, y in zip(vr, vf)]
            if min(dv) < 0: return None
            m = tuple((atoms[i], e) for i, e in enumerate(dv) if e)
            c = r[lr]/cf
            q[m] = c
            for mm, cc in f.items():
                k = mmul(mm, m); v = r.get(k, 0) - cc*c
                if v: r[k] = v
                else: r.pop(k, None)
        return q
    def lcm(self, d1, d2):
        r = dict(d1)
        for f, e in d2.items(): r[f] = max(r.get(f, 0), e)
        return r
    def lift(self, n, d, L):
        for f, e in L.items():
            k = e - d.get(f, 0)
            if k: n = self.pmul(n, self.fpow(f, k))
        return n
    def radd(self, x, y, s=1):
        (n1, d1), (n2, d2) = x, y
        if not n1: return (pscale(n2, s), d2)
        if not n2: return x
        if d1 == d2: return self.norm(padd(n1, n2, s), d1)
        L = self.lcm(d1, d2)
        return self.norm(padd(self.lift(n1, d1, L), self.lift(n2, d2, L), s), L)
    def rmul(self, x, y):
        (n1, d1), (n2, d2) = x, y
        n = self.pmul(n1, n2)
        d = dict(d1)
        for f, e in d2.items(): d[f] = d.get(f, 0) + e
        return self.norm(n, d)
    def rinv(self, x):
        n, d = x
        if not n: raise ZeroDivisionError
        num = ONE
        for f, e in d.items(): num = self.pmul(num, self.fpow(f, e))
        if len(n) == 1 and () in n: return (pscale(num, 1/n[()]), {})
        c, fs = self.factor(n)
        return self.norm(pscale(num, 1/c), fs)
    def rkey(self, x):
        n, d = x
        return (frozenset(n.items()), frozenset((frozenset(self.factors[f].items()), e) for f, e in d.items()))
    def reval(self, x):
        v = self.peval(x[0])
        for f, e in x[1].items(): v /= self.peval(self.factors[f])**e
        return v
    def const(self, f): 
        f = Fraction(f)
        return ({(): f} if f else {}, {})
    def isconst(self, x):
        return not x[1] and (not x[0] or (len(x[0]) == 1 and () in x[0]))
    def cval(self, x): return x[0].get((), Fraction(0))

    # ---- sign side conditions
    def sign(self, p):
        """sign of polynomial p (known nonzero), with a proof obligation"""
        if len(p) == 1:
            (m, c), = p.items()
            s = 1 if c > 0 else -1
            for a, e in m:
                if e % 2 and self.atoms[a].kind not in ('sqrt','pos'): s *= self.atomsign(a)
            return s
        s = 1 if self.peval(p) > 0 else -1
        self.side(p, s); return s
    def atomsign(self, a):
        v = self.atoms[a].val
        s = 1 if v > 0 else -1
        self.side(self.pv(a), s); return s
    def side(self, p, s):
        k = (frozenset(p.items()), s)
        if k in self.sidekeys: return
        self.sidekeys.add(k); self.sides.append((p, s, self.pcpos))

    # ---- square roots
    def rsqrt(self, x):
        n, d = x
        if not n: return ({}, {})
        num = n; den = {}
        neg = 1
        for f, e in d.items():
            if e % 2: num = self.pmul(num, self.factors[f])
            h = (e + 1)//2
            den[f] = h
            if h % 2 and self.sign(self.factors[f]) < 0: neg = -neg
        # numeric content
        out = ONE; oc = Fraction(1)
        if len(num) == 1 and () in num:
            c = num[()]
            r = self.fsqrt(c)
            if r is not None: return self.norm({(): r*neg}, den)
        # atom square detection: num = k * (atom^2 under its rule), k square
        for a in list(self.atoms):
            if a.rule is not None and a.kind in ('in','cos','sin') and len(a.rule) == len(num):
                m0 = next(iter(a.rule))
                if m0 in num:
                    k = num[m0]/a.rule[m0]
                    r = self.fsqrt(k)
                    if r is not None and pscale(a.rule, k) == num:
                        s = 1 if a.val >= 0 else -1
                        self.side_nonneg(self.pv(a.id), s)
                        return self.norm(pscale(self.pv(a.id), r*s*neg), den)
        # monomial content
        common = None
        for m in num:
            dd = dict(m)
            common = dd if common is None else {a: min(e, dd[a]) for a, e in common.items() if a in dd}
            if not common: break
        if common:
            take = {a: e//2 for a, e in common.items() if e >= 2}
            if take:
                num = {tuple((a, e - 2*take.get(a, 0)) for a, e in m if e - 2*take.get(a, 0)): c for m, c in num.items()}
                mon = tuple(sorted(take.items()))
                s = 1
                for a, e in mon:
                    if e % 2 and self.atoms[a].kind not in ('sqrt','pos'):
                        ss = 1 if self.atoms[a].val >= 0 else -1
                        self.side_nonneg(self.pv(a), ss); s *= ss
                out = {mon: Fraction(s)}
        lead = min(num); c = num[lead]
        # extract rational square content
        g = Fraction(1)
        num_c = abs(c)
        r = self.fsqrt(num_c)
        if r is not None and r != 1:
            num = pscale(num, 1/num_c); oc = r
        if len(num) == 1 and () in num:
            r = self.fsqrt(num[()])
            if r is not None: return self.norm(pscale(out, oc*r*neg), den)
        sq = self.perfect_square(num)
        if sq is not None:
            s = 1 if self.peval(sq) >= 0 else -1
            self.side_nonneg(sq, s)
            return self.norm(self.pmul(pscale(out, oc*neg*s), sq), den)
        key = ('sqrt', frozenset(num.items()))
        val = math.sqrt(max(0.0, self.peval(num)))
        a = self.atom(key, 'sqrt', val, data=num, rule=num)
        return self.norm(self.pmul(pscale(out, oc*neg), self.pv(a)), den)
    def side_nonneg(self, p, s):
        k = (frozenset(p.items()), s, 'nn')
        if k in self.sidekeys: return
        self.sidekeys.add(k); self.sides.append((p, s*2, self.pcpos))
    def perfect_square(self, p):
        if len(p) > 40 or len(p) < 2: return None
        if any(self.atoms[a].rule is not None for m in p for a, _ in m): return None
        if max(sum(e for _, e in m) for m in p) > 8: return None
        try:
            import sympy
        except ImportError: return None
        ids = sorted({a for m in p for a, _ in m})
        sy = {a: sympy.Symbol(f'a{a}') for a in ids}
        ex = sympy.Add(*[sympy.Rational(c.numerator, c.denominator)*sympy.Mul(*[sy[a]**e for a, e in m]) for m, c in p.items()])
        try: c, fl = sympy.sqf_list(ex)
        except Exception: return None
        if len(fl) == 0 or any(e % 2 for _, e in fl): return None
        rc = self.fsqrt(Fraction(int(c.p), int(c.q)))
        if rc is None: return None
        r = {(): rc}
        for f, e in fl:
            P = sympy.Poly(f, *[sy[a] for a in ids])
            q = {}
            for mon, cc in P.terms():
                q[tuple((ids[i], k) for i, k in enumerate(mon) if k)] = Fraction(int(cc.p), int(cc.q))
            for _ in range(e//2): r = self.rawmul(r, q)
        return r
    @staticmethod
    def fsqrt(c):
        if c < 0: return None
        n, d = c.numerator, c.denominator
        a, b = math.isqrt(n), math.isqrt(d)
        if a*a == n and b*b == d: return Fraction(a, b)
        return None

    # ---- trigonometry
    def terms(self, x):
        """decompose a rational into [(basekey, base rational, coeff)]"""
        n, d = x
        res = []
        for m, c in n.items():
            res.append((m, d, c))
        return res
    def collect_trig(self):
        """gcd of the coefficients with which each angle occurs"""
        if self._collect_trig_done: return
        self._collect_trig_done = True
        self.trigargs = {}
        # a dry run: the signs it relies on are registered again where the expressions are used
        keep = self.memo, self.sides, self.sidekeys
        self.memo, self.sides, self.sidekeys = dict(self.memo), list(self.sides), set(self.sidekeys)
        try: self.collect_trig1()
        finally: self.memo, self.sides, self.sidekeys = keep
    def collect_trig1(self):
        for nd in self.t.nodes.values():
            if nd.op in ('fsin','fcos'):
                try: x = self.nf(nd.a[0])
                except (TooBig, ZeroDivisionError): continue
                for m, d, c in self.terms(x):
                    if not m and not d: continue
                    k = (m, frozenset(d.items()))
                    c = abs(c)
                    g = self.trigbase.get(k)
                    if g is None: self.trigbase[k] = c
                    else:
                        self.trigbase[k] = Fraction(gcd(g.numerator*c.denominator, c.numerator*g.denominator), g.denominator*c.denominator)
    def base_sc(self, m, d, g):
        """(sin, cos) of g * m/d as rationals"""
        if not d and len(m) == 1 and m[0][1] == 1:
            a = self.atoms[m[0][0]]
            if a.kind in ('atan2','acos','asin') and g == 1: return a.data['sc']
            if a.kind in ('atan2','acos') and g == Fraction(1,2):
                # half angle: in (-pi/2, pi/2] resp. [0, pi/2]: cos >= 0
                s1, c1 = a.data['sc']
                hc = self.rsqrt(self.rmul(self.radd(self.const(1), c1), self.const(Fraction(1,2))))
                hs = self.rsqrt(self.rmul(self.radd(self.const(1), c1, -1), self.const(Fraction(1,2))))
                if a.val < 0:
                    hs = (pscale(hs[0], -1), hs[1])
                    y = a.data.get('y')
                    if y is not None: self.side(y[0], 1 if self.peval(y[0]) > 0 else -1)
                elif a.kind == 'atan2':
                    y = a.data.get('y'); 
                    if y is not None: self.side_nonneg(y[0], 1 if self.peval(y[0]) >= 0 else -1)
                return hs, hc
        key = ('ang', m, frozenset(d.items()), g)
        val = float(g)*self.reval(({m: Fraction(1)}, d))
        ci = self.atom(('cos',)+key, 'cos', math.cos(val), data=({m: g}, d))
        si = self.atom(('sin',)+key, 'sin', math.sin(val), data=({m: g}, d))
        self.atoms[si].rule = {(): Fraction(1), ((ci,2),): Fraction(-1)}
        return (self.pv(si), {}), (self.pv(ci), {})
    def sincos(self, x):
        self.collect_trig()
        s, c = ({}, {}), self.const(1)
        for m, d, k in self.terms(x):
            if not m and not d:
                # constant part: multiples of pi/2 are taken exactly
                q = float(k)/(math.pi/2); r = round(q)
                if abs(q - r) < 1e-12*max(1, abs(r)):
                    r %= 4
                    s1, c1 = [(0,1),(1,0),(0,-1),(-1,0)][r]
                    s1, c1 = self.const(s1), self.const(c1)
                else:
                    sg = 1 if k > 0 else -1
                    key = ('ang', (), frozenset(), abs(k)); val = abs(float(k))
                    ci = self.atom(('cos',)+key, 'cos', math.cos(val), data=({(): abs(k)}, {}))
                    si = self.atom(('sin',)+key, 'sin', math.sin(val), data=({(): abs(k)}, {}))
                    self.atoms[si].rule = {(): Fraction(1), ((ci,2),): Fraction(-1)}
                    s1, c1 = (pscale(self.pv(si), sg), {}), (self.pv(ci), {})
            else:
                g = self.trigbase.get((m, frozenset(d.items())), abs(k))
                q = k/g
                if q.denominator != 1: g = abs(k); q = k/g
                if not d and len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind in ('atan2','acos','asin') and g.denominator <= 2:
                    g = Fraction(1, g.denominator); q = k/g
                bs, bc = self.base_sc(m, d, g)
                n = abs(int(q))
                if n > 12: raise TooBig()
                s1, c1 = ({}, {}), self.const(1)
                for _ in range(n):
                    s1, c1 = self.radd(self.rmul(s1, bc), self.rmul(c1, bs)), self.radd(self.rmul(c1, bc), self.rmul(s1, bs), -1)
                if q < 0: s1 = (pscale(s1[0], -1), s1[1])
            s, c = self.radd(self.rmul(s, c1), self.rmul(c, s1)), self.radd(self.rmul(c, c1), self.rmul(s, s1), -1)
        return s, c

    # ---- normal form of a real node
    def nf(self, i):
        r = self.memo.get(i)
        if r is not None:
            if r == 'big': raise TooBig()
            return r
        # iterative post-order
        st = [i]
        nodes = self.t.nodes
        while st:
            j = st[-1]
            if j in self.memo: st.pop(); continue
            n = nodes[j]
            if n.op in ('itof','utof','fite'):
                ch = []
            else: ch = [x for x in n.a if x not in self.memo]
            if ch: st.extend(ch); continue
            try: self.memo[j] = self.nf1(n)
            except TooBig: self.memo[j] = 'big'
            st.pop()
        r = self.memo[i]
        if r == 'big': raise TooBig()
        return r
    def g(self, i):
        r = self.memo[i]
        if r == 'big': raise TooBig()
        return r
    def nf1(self, n):
        op = n.op
        if op == 'fconst': return self.const(Fraction(n.c))
        if op == 'fin':
            u = self.unitof.get(n.id)
            a = self.atom(('in', n.name), 'in', n.c, name=n.name)
            if u is not None and u[1] == 0 and self.atoms[a].rule is None:
                r = {(): Fraction(1)}
                ids = []
                for x in u[0][1:]:
                    nn = self.t.nodes[x]
                    b = self.atom(('in', nn.name), 'in', nn.c, name=nn.name); ids.append(b)
                    r = padd(r, {((b,2),): Fraction(-1)})
                self.atoms[a].rule = r
            elif u is not None and u[1] != 0:
                f = self.t.nodes[u[0][0]]
                if f.id not in self.memo: self.memo[f.id] = self.nf1(f)
            return (self.pv(a), {})
        if op in ('itof','utof'):
            a = self.atom(('itof', op, n.a[0]), 'itof', n.c)
            return (self.pv(a), {})
        if op == 'fuf':
            args = [self.g(x) for x in n.a]
            a = self.atom(('fuf', n.name, tuple(self.rkey(x) for x in args)), 'uf', n.c, data=(n.name, args))
            return (self.pv(a), {})
        A = [self.g(x) for x in n.a]
        if op == 'fadd': return self.radd(A[0], A[1])
        if op == 'fsub': return self.radd(A[0], A[1], -1)
        if op == 'fmul': return self.rmul(A[0], A[1])
        if op == 'fneg': return (pscale(A[0][0], -1), A[0][1])
        if op == 'fdiv':
            return self.rmul(A[0], self.rinv(A[1]))
        if op == 'fsqrt': return self.rsqrt(A[0])
        if op in ('fsin','fcos'):
            s, c = self.sincos(A[0])
            return s if op == 'fsin' else c
        if op == 'fatan2':
            y, x = A
            key = ('atan2', self.rkey(y), self.rkey(x))
            if key in self.bykey: return (self.pv(self.bykey[key]), {})
            r = self.rsqrt(self.radd(self.rmul(x, x), self.rmul(y, y)))
            if r[0]:
                ir = self.rinv(r)
                sc = (self.rmul(y, ir), self.rmul(x, ir))
            else: sc = (self.const(0), self.const(1))
            a = self.atom(key, 'atan2', n.c, data={'sc': sc, 'y': y, 'x': x})
            return (self.pv(a), {})
        if op in ('facos','fasin'):
            x = A[0]
            key = (op, self.rkey(x))
            if key in self.bykey: return (self.pv(self.bykey[key]), {})
            o = self.rsqrt(self.radd(self.const(1), self.rmul(x, x), -1))
            sc = (o, x) if op == 'facos' else (x, o)
            a = self.atom(key, op[1:], n.c, data={'sc': sc})
            return (self.pv(a), {})
        if op in ('fexp','flog','fpow'):
            key = (op,) + tuple(self.rkey(x) for x in A)
            a = self.atom(key, 'pos' if op == 'fexp' else 'uf', n.c, data=(op, A))
            return (self.pv(a), {})
        raise TooBig()

    # ---- z3 terms
    def zpoly(self, p, need):
        """z3 term of polynomial p; a long one becomes  k*P + c  with P a variable standing for its primitive part,
        so equal polynomials are recognised without expanding them; defs() supplies P's definition"""
        if len(p) > 7 or (len(p) > 2 and max(sum(e for _, e in m) for m in p) > 4):
            c0 = p.get((), Fraction(0)); q = {m: c for m, c in p.items() if m}
            k = q[min(q)]; q = pscale(q, 1/k)
            key = frozenset(q.items()); r = self.polys.get(key)
            if r is None:
                nd = set(); r = (z3.Real(f'P_{len(self.polys)}'), q, nd, self.zraw(q, nd)); self.polys[key] = r; self.polyvar[r[0].decl().name()] = r
            need |= r[2]
            t = r[0] if k == 1 else z3.RealVal(str(k))*r[0]
            return t + z3.RealVal(str(c0)) if c0 else t
        return self.zraw(p, need)
    def defs(self, names):
        return [self.polyvar[n][0] == self.polyvar[n][3] for n in sorted(names)]
    def zraw(self, p, need):
        ts = []
        for m, c in p.items():
            f = [z3.RealVal(str(c))] if c != 1 or not m else []
            for a, e in m:
                need.add(a)
                f.extend([self.zatom(a)]*e)
            ts.append(f[0] if len(f) == 1 else z3.Product(f) if len(f) > 1 else z3.RealVal(1))
        if not ts: return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)
    def zatom(self, a):
        at = self.atoms[a]
        if at.kind == 'itof':
            k = next(k for k, v in self.bykey.items() if v == a)
            return z3.ToReal(z3.BV2Int(self.bv(k[2], set()), k[1] == 'itof'))
        return at.z
    def signed(self, x):
        """polynomial with the sign of the rational x (denominators are nonzero)"""
        n, d = x
        for f, e in d.items():
            if e % 2 and not (len(self.factors[f]) == 1 and self.atoms[next(iter(self.factors[f]))[0][0]].kind in ('sqrt','pos')):
                n = self.pmul(n, self.factors[f])
        return n
    def axioms(self, need):
        """axioms of the atoms in need (closure)"""
        out = []; seen = set(); todo = list(need)
        while todo:
            a = todo.pop()
            if a in seen: continue
            seen.add(a)
            at = self.atoms[a]; nn = set()
            if at.kind == 'sqrt':
                out.append(at.z >= 0); out.append(at.z*at.z == self.zpoly(at.data, nn))
            elif at.kind == 'sin':
                c = next(iter(k for k in at.rule if k))[0][0]
                out.append(at.z*at.z + self.atoms[c].z*self.atoms[c].z == 1)
            elif at.kind == 'cos':
                out.append(at.z <= 1); out.append(at.z >= -1)
                p, d = at.data
                if not d and len(p) == 1 and () in p:
                    v = math.cos(float(p[()])); out += [at.z > Fr(v - 1e-15), at.z < Fr(v + 1e-15)]
                else:
                    # cos(x) >= 1 - x^2/2
                    if not d: out.append(at.z >= 1 - self.zpoly(self.reduce(self.rawmul(p, p)), nn)/2)
            elif at.kind == 'in':
                if at.rule is not None: out.append(at.z*at.z == self.zpoly(at.rule, nn))
            elif at.kind == 'pos': out.append(at.z > 0)
            elif at.kind == 'atan2':
                out += [at.z > Fr(-math.pi - 1e-15), at.z < Fr(math.pi + 1e-15)]
                y = at.data['y']; yp = self.signed(y); zy = self.zpoly(yp, nn)
                out += [z3.Implies(zy > 0, at.z > 0), z3.Implies(zy < 0, at.z < 0)]
                xp = self.zpoly(self.signed(at.data['x']), nn)
                sn, sd = at.data['sc'][0]
                if len(sn) <= 6:
                    # |sin a| <= |a|
                    try:
                        D = ONE
                        for f, e in sd.items(): D = self.pmul(D, self.fpow(f, e))
                        if len(D) <= 6: out.append(self.zpoly(self.pmul(sn, sn), nn) <= at.z*at.z*self.zpoly(self.pmul(D, D), nn))
                    except TooBig: pass
                out += [z3.Implies(z3.And(xp >= 0), z3.And(at.z < Fr(math.pi/2+1e-15), at.z > Fr(-math.pi/2-1e-15)))]
            elif at.kind == 'acos': out += [at.z >= 0, at.z <= Fr(math.pi + 1e-15)]
            elif at.kind == 'asin': out += [at.z >= Fr(-math.pi/2 - 1e-15), at.z <= Fr(math.pi/2 + 1e-15)]
            todo.extend(nn)
        return out, seen
    # Bool (w==1) and bit-vector nodes
    def cmp(self, op, a, b, need):
        x = self.radd(self.nf(b), self.nf(a), -1)   # b - a
        if self.isconst(x):
            c = self.cval(x)
            return z3.BoolVal(c == 0 if op == 'feq' else c > 0 if op == 'flt' else c >= 0)
        if op == 'feq':
            return self.zpoly(x[0], need) == 0
        p = self.zpoly(self.signed(x), need)
        return p > 0 if op == 'flt' else p >= 0
    def boolean(self, i, need):
        r = self.bmemo.get(i)
        if r is None:
            nd = set()
            r = (self._boolean(self.t.nodes[i], nd), nd)
            self.bmemo[i] = r
        need |= r[1]
        return r[0]
    def _boolean(self, n, need):
        op = n.op
        if op in ('feq','flt','fle'): return self.cmp(op, n.a[0], n.a[1], need)
        if op == 'not': return z3.Not(self.boolean(n.a[0], need))
        if op == 'iin': return z3.Bool('b_' + n.name)
        if op == 'iconst': return z3.BoolVal(n.c == 1)
        if op == 'and': return z3.And(self.boolean(n.a[0], need), self.boolean(n.a[1], need))
        if op == 'or': return z3.Or(self.boolean(n.a[0], need), self.boolean(n.a[1], need))
        if op == 'xor': return z3.Xor(self.boolean(n.a[0], need), self.boolean(n.a[1], need))
        if op == 'add' or op == 'sub': return z3.Xor(self.boolean(n.a[0], need), self.boolean(n.a[1], need))
        if op == 'ite': return z3.If(self.boolean(n.a[0], need), self.boolean(n.a[1], need), self.boolean(n.a[2], need))
        if op == 'trunc': return z3.Extract(0, 0, self.bv(n.a[0], need)) == 1
        if op in ('eq','ult','ule','slt','sle'):
            if self.t.nodes[n.a[0]].w == 1:
                x, y = self.boolean(n.a[0], need), self.boolean(n.a[1], need)
                if op == 'eq': return x == y
                if op == 'ult': return z3.And(z3.Not(x), y)
                if op == 'ule': return z3.Or(z3.Not(x), y)
                if op == 'slt': return z3.And(x, z3.Not(y))
                return z3.Or(x, z3.Not(y))
            x, y = self.bv(n.a[0], need), self.bv(n.a[1], need)
            return {'eq': lambda: x == y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y}[op]()
        if op.startswith('ovf'):
            x, y = self.bv(n.a[0], need), self.bv(n.a[1], need); sg = op[3] == 's'; w = x.size()
            ext = (lambda v: z3.SignExt(w, v)) if sg else (lambda v: z3.ZeroExt(w, v))
            X, Y = ext(x), ext(y)
            r = {'1': X+Y, '2': X-Y, '3': X*Y}[op[4]]
            return r != ext(z3.Extract(w-1, 0, r))
        raise TooBig()
    def bv(self, i, need):
        r = self.zmemo.get(i)
        if r is not None:
            need |= r[1]; return r[0]
        n = self.t.nodes[i]; nd = set(); op = n.op
        if n.w == 1: r = z3.If(self.boolean(i, nd), z3.BitVecVal(1,1), z3.BitVecVal(0,1))
        elif op == 'iin': r = z3.BitVec('i_' + n.name, n.w)
        elif op == 'iconst': r = z3.BitVecVal(n.c, n.w)
        elif op == 'byte':
            k = int(n.name); x = self.bv(n.a[0], nd)
            w = x.size()
            if w < 8*k + 8: x = z3.ZeroExt(8*k + 8 - w, x)
            r = z3.Extract(8*k+7, 8*k, x)
        elif op == 'concat':
            r = z3.Concat(*[self.bv(x, nd) for x in reversed(n.a)]) if len(n.a) > 1 else self.bv(n.a[0], nd)
        elif op in ('zext','sext','trunc'):
            if self.t.nodes[n.a[0]].w == 1:
                b = self.boolean(n.a[0], nd)
                one = 1 if op == 'zext' else (1 << n.w) - 1
                r = z3.If(b, z3.BitVecVal(one, n.w), z3.BitVecVal(0, n.w))
            else:
                x = self.bv(n.a[0], nd)
                if op == 'zext': r = z3.ZeroExt(n.w - x.size(), x)
                elif op == 'sext': r = z3.SignExt(n.w - x.size(), x)
                else: r = z3.Extract(n.w - 1, 0, x)
        elif op == 'ite': r = z3.If(self.boolean(n.a[0], nd), self.bv(n.a[1], nd), self.bv(n.a[2], nd))
        else:
            if len(n.a) != 2: raise KeyError('bv of ' + op + ' ' + n.name)
            x, y = self.bv(n.a[0], nd), self.bv(n.a[1], nd)
            r = {'add': lambda: x+y, 'sub': lambda: x-y, 'mul': lambda: x*y, 'udiv': lambda: z3.UDiv(x,y), 'sdiv': lambda: x/y,
                 'urem': lambda: z3.URem(x,y), 'srem': lambda: z3.SRem(x,y), 'shl': lambda: x<<y, 'lshr': lambda: z3.LShR(x,y),
                 'ashr': lambda: x>>y, 'and': lambda: x&y, 'or': lambda: x|y, 'xor': lambda: x^y}[op]()
        self.zmemo[i] = (r, nd)
        need |= nd
        return r

def Fr(v): return z3.RealVal(str(Fraction(v)))
