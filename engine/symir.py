#!/usr/bin/env python3
"""Rewrites textual LLVM IR (clang 18, -O1, names kept) so that executing it executes it symbolically.

 * every scalar float/double operation becomes a call into the runtime (rt.cpp).  A symbolic floating point value is a
   NaN-boxed handle of an expression node, so it travels through memory, registers and uninstrumented copies unharmed;
 * every integer SSA value of at most 64 bits gets a companion i32 shadow (0 = concrete, otherwise an expression node);
   memory has byte-granular shadow kept by the runtime; calls pass shadows through side channels;
 * every branch/switch/select on a symbolic condition is recorded as a path condition;
 * any integer use the rewriter has no symbolic semantics for *concretises* the value: the equality with its current
   value is recorded as a path condition, so the other values remain to be explored (never silently dropped).
"""
import re, sys, os, json

VAL = r'%(?:"[^"]*"|[-\w.$]+)'
BIN = {'add':1,'sub':2,'mul':3,'udiv':4,'sdiv':5,'urem':6,'srem':7,'shl':8,'lshr':9,'ashr':10,'and':11,'or':12,'xor':13}
FBIN = {'fadd':1,'fsub':2,'fmul':3,'fdiv':4,'frem':5}
IPRED = {'eq':1,'ne':2,'ugt':3,'uge':4,'ult':5,'ule':6,'sgt':7,'sge':8,'slt':9,'sle':10}
FPRED = {'false':0,'oeq':1,'ogt':2,'oge':3,'olt':4,'ole':5,'one':6,'ord':7,'ueq':8,'ugt':9,'uge':10,'ult':11,'ule':12,'une':13,'uno':14,'true':15}
# unary / binary libm functions and intrinsics
F1 = {'sqrt':1,'sin':2,'cos':3,'tan':4,'asin':5,'acos':6,'atan':7,'exp':8,'log':9,'fabs':10,'floor':11,'ceil':12,'round':13,'trunc':14,'rint':15,'nearbyint':15,'log10':16,'exp2':17,'cbrt':18,'roundeven':15,'lround':13,'sinh':19,'cosh':20,'tanh':21}
F2 = {'pow':1,'atan2':2,'hypot':3,'fmod':4,'fmin':5,'fmax':6,'minnum':5,'maxnum':6,'copysign':7,'minimum':5,'maximum':6}
SPECIAL_FP_EXTERN = {'_ZNSolsEd':'__vp_ostream_d','_ZNSo9_M_insertIdEERSoT_':'__vp_ostream_d','_ZNSolsEf':'__vp_ostream_f',
   '_ZNSirsERd':'__vp_istream_d','_ZNSi10_M_extractIdEERSiRT_':'__vp_istream_d',
   '_ZNSirsERf':'__vp_istream_f','_ZNSi10_M_extractIfEERSiRT_':'__vp_istream_f'}

def fpconst(tok):
    return tok

class Rewriter:
    def __init__(self, text, repo_prefixes):
        self.text = text
        self.repo_prefixes = repo_prefixes
        self.out = []
        self.decls = set()
        self.nsite = 0
        self.warn = {}
        self.cov = {}   # (file,line)->id ; subprogram->id
        self.covlist = []
        self.tmp = 0

    def warnonce(self, k):
        self.warn[k] = self.warn.get(k, 0) + 1

    # ---------- helpers ----------
    def parse_debug(self):
        t = self.text
        self.difile = {}
        for m in re.finditer(r'^!(\d+) = (?:distinct )?!DIFile\(filename: "([^"]*)", directory: "([^"]*)"', t, re.M):
            fn = m.group(2)
            if not fn.startswith('/'): fn = os.path.join(m.group(3), fn)
            self.difile[m.group(1)] = os.path.normpath(fn)
        self.scope = {}   # id -> (kind, parent/None, file, name)
        for m in re.finditer(r'^!(\d+) = (?:distinct )?!(DISubprogram|DILexicalBlock|DILexicalBlockFile)\((.*)\)$', t, re.M):
            body = m.group(3)
            f = re.search(r'\bfile: !(\d+)', body); n = re.search(r'\bname: "([^"]*)"', body); s = re.search(r'\bscope: !(\d+)', body)
            ln = re.search(r'linkageName: "([^"]*)"', body)
            self.scope[m.group(1)] = (m.group(2), s.group(1) if s else None, f.group(1) if f else None, n.group(1) if n else None)
        self.diloc = {}
        for m in re.finditer(r'^!(\d+) = (?:distinct )?!DILocation\(line: (\d+)(?:, column: \d+)?, scope: !(\d+)', t, re.M):
            self.diloc[m.group(1)] = (int(m.group(2)), m.group(3))

    def locinfo(self, dbg):
        r = self.diloc.get(dbg)
        if not r: return None
        line, sc = r
        s = self.scope.get(sc); f = None
        if s: f = self.difile.get(s[2])
        g = 0
        while s and s[0] != 'DISubprogram' and g < 50:
            s = self.scope.get(s[1]); g += 1
        if not s: return None
        if f is None: f = self.difile.get(s[2])
        if not f or not any(f.startswith(p) for p in self.repo_prefixes): return None
        return (f, line, s[3])

    # ---------- operand parsing ----------
    @staticmethod
    def split_args(s):
        args=[]; depth=0; cur=''; q=False
        for ch in s:
            if ch=='"': q = not q
            if not q:
                if ch in '([{<': depth+=1
                elif ch in ')]}>': depth-=1
                elif ch==',' and depth==0:
                    args.append(cur.strip()); cur=''; continue
            cur+=ch
        if cur.strip(): args.append(cur.strip())
        return args

    @staticmethod
    def inttype(t):
        m = re.fullmatch(r'i(\d+)', t)
        if m and int(m.group(1)) <= 64: return int(m.group(1))
        return None

    def sh(self, v, width=1):
        """shadow operand of an int value token"""
        v = v.strip()
        if v.startswith('%') and v in self.intvals:
            return self.shname(v)
        return '0'

    @staticmethod
    def shname(v):
        if v.startswith('%"'): return '%"s.' + v[2:]
        return '%s.' + v[1:]

    def t(self, p='t'):
        self.tmp += 1
        return f'%vp.{p}{self.tmp}'

    def ext64(self, v, w):
        """emit code giving v as i64; returns operand"""
        if v in ('true','false'): return '1' if v=='true' else '0'
        if v in ('undef','poison'): return '0'
        if re.fullmatch(r'-?\d+', v): return str(int(v))
        if w == 64: return v
        n = self.t('z')
        self.emit(f'  {n} = zext i{w} {v} to i64')
        return n

    def emit(self, s): self.body.append(s)

    def rt(self, ret, name, args):
        self.decls.add((ret, name, tuple(a.split(' ',1)[0] for a in args)))
        return f'call {ret} @{name}({", ".join(args)})'

    def conc(self, v, w):
        s = self.sh(v)
        if s == '0': return
        e = self.ext64(v, w)
        self.emit('  ' + self.rt('void','__vp_conc',[f'i32 {s}', f'i64 {e}']))

    def clear(self, ptr, n):
        self.emit('  ' + self.rt('void','__vp_clear',[f'ptr {ptr}', f'i64 {n}']))

    # ---------- function ----------
    def rewrite(self):
        self.parse_debug()
        lines = self.text.split('\n')
        self.defined = set(re.findall(r'^define .*?@("[^"]*"|[-\w.$]+)\(', self.text, re.M))
        self.defined |= {a.strip('"') for a in re.findall(r'^@("[^"]*"|[-\w.$]+) = .*?\balias\b', self.text, re.M)}
        out = []
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('define '):
                j = i
                while lines[j] != '}': j += 1
                out.extend(self.func(lines[i], lines[i+1:j])); out.append('}')
                i = j + 1
                continue
            if l.startswith('!') :
                # drop debug metadata altogether (kept separately)
                out.append(l); i += 1; continue
            out.append(l); i += 1
        # strip debug info: remove !dbg named metadata
        res = []
        for l in out:
            if re.match(r'!llvm\.dbg\.cu', l): continue
            if l.startswith('!') and re.match(r'!\d+ = (distinct )?!(DI\w+)\(', l):
                res.append(re.sub(r'^(!\d+) = .*', r'\1 = !{}', l)); continue
            if l.startswith('!') : l = l
            if l.startswith('!llvm.module.flags'):
                pass
            res.append(l)
        text = '\n'.join(res)
        text = re.sub(r'"Debug Info Version"', '"Debug Info Version Off"', text)
        decl = []
        for (ret,name,tys) in sorted(self.decls):
            if not re.search(r'^declare .*@' + re.escape(name) + r'\(', text, re.M):
                decl.append(f'declare {ret} @{name}({", ".join(tys)}) nounwind')
        decl = list(dict.fromkeys(decl))
        return text + '\n' + '\n'.join(decl) + '\n'

    def func(self, header, body):
        h = header
        if '@__clang_call_terminate(' in h: return [h] + body
        # visibility of comdat functions: keep them private to this executable
        # the runtime must not resolve library code to the instrumented copies
        if re.match(r'^define (linkonce_odr|linkonce|weak_odr) .*@"?_Z(NS[absot]|NKS[absot]|S|NSt|NKSt|N9__gnu_cxx)', h):
            h = re.sub(r'^define (linkonce_odr|linkonce|weak_odr) (hidden |protected )?', 'define internal ', h); h = re.sub(r' comdat(\([^)]*\))?', '', h)
        h = re.sub(r'^define linkonce_odr (dso_local )?', 'define linkonce_odr hidden ', h)
        h = re.sub(r'^define weak_odr (dso_local )?', 'define weak_odr hidden ', h)
        h = re.sub(r' !dbg !\d+', '', h)
        h = h.replace('hidden hidden','hidden')
        self.body = []
        self.intvals = set(); self.aggr = {}
        # join multi-line instructions
        ins = []
        k = 0
        while k < len(body):
            l = body[k]
            if re.match(r'^\s+switch ', l) and ']' not in l:
                while ']' not in body[k]:
                    k += 1; l += ' ' + body[k].strip()
            elif re.match(r'^\s+(%\S+ = )?invoke ', l) or re.match(r'^\s+(%"[^"]*" = )?invoke ', l):
                k += 1; l += ' ' + body[k].strip()
            elif 'landingpad' in l:
                while k + 1 < len(body) and re.match(r'^\s+(cleanup|catch |filter )', body[k+1]):
                    k += 1; l += '\n' + body[k]
            ins.append(l); k += 1
        # arguments
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', h)
        st = m.end(); d = 1; e = st
        inq=False
        while d:
            c = h[e]
            if c=='"': inq = not inq
            if not inq:
                if c in '(': d += 1
                elif c == ')': d -= 1
            e += 1
        argl = self.split_args(h[st:e-1])
        prolog = []
        intargs = []
        for idx, a in enumerate(argl):
            if a == '...': continue
            ty = a.split(' ',1)[0]
            w = self.inttype(ty)
            if w:
                v = re.findall(VAL, a)[-1]
                self.intvals.add(v); intargs.append((len(intargs), v, w))
        # pre-scan of int-valued definitions
        for l in ins:
            m = re.match(r'^\s+(' + VAL + r') = (.*)$', l, re.S)
            if not m: continue
            v, r = m.group(1), re.sub(r', ![a-zA-Z.]+ !\d+', '', m.group(2))
            r = re.sub(r' #\d+$', '', r)
            w = self.result_int(r)
            if w: self.intvals.add(v)
        # magnitudes only compared with infinity: the sign of a finite value does not matter
        self.magonly = set()
        for l in ins:
            m = re.match(r'^\s+(' + VAL + r') = (?:tail |musttail |notail )?call .*@llvm\.fabs\.', l)
            if not m: continue
            v = m.group(1); uses = [x for x in ins if x is not l and re.search(re.escape(v) + r'(?![-\w.$"])', x)]
            if uses and all(re.match(r'^\s+' + VAL + r' = fcmp .*0x7FF0000000000000', x) for x in uses): self.magonly.add(v)
        # aggregate returns with ints are handled through extractvalue
        self.phase_first = True
        self.splits = []
        curlabel = None
        need_prolog = True
        pending_cov = set()
        blocks_started = False
        self.callret = {}   # aggregate-returning call value -> list of (kind)
        for l in ins:
            lm = re.match(r'^("[^"]*"|[-\w.$]+):', l)
            if lm:
                curlabel = lm.group(1)
                self.cur = curlabel
                self.emit(re.sub(r';.*$','',l).rstrip() if '"' not in lm.group(1) else lm.group(0))
                seen = set()
                self.inphi = True
                continue
            if l.strip() == '' or l.strip().startswith(';'): continue
            if curlabel is None:
                raise RuntimeError('unlabelled entry in ' + h)
            dbg = re.search(r', !dbg !(\d+)', l)
            info = self.locinfo(dbg.group(1)) if dbg else None
            l = re.sub(r', ![a-zA-Z.]+ !\d+', '', l)
            if re.match(r'^\s+call void @llvm\.dbg\.|^\s+tail call void @llvm\.dbg\.|@llvm\.experimental\.noalias', l): continue
            isphi = re.match(r'^\s+' + VAL + r' = phi ', l) is not None
            if not isphi and 'landingpad' not in l and need_prolog:
                need_prolog = False
                for (k2, v, w) in intargs:
                    z = self.ext64(v, w)
                    self.emit(f'  {self.shname(v)} = ' + self.rt('i32','__vp_argload',[f'i32 {k2}', f'i64 {z}']))
            if info and not isphi and 'landingpad' not in l:
                key = info
                if key not in seen:
                    seen.add(key)
                    if key not in self.cov:
                        self.cov[key] = len(self.covlist); self.covlist.append(key)
                    self.emit('  ' + self.rt('void','__vp_cov',[f'i32 {self.cov[key]}']))
            if isphi:
                # phi shadows are collected and emitted adjacent
                self.instr(l)
            else:
                self.instr(l)
        body = self.body
        # fix phis for split invoke edges
        if self.splits:
            cur = None; nb = []
            bydest = {}
            for (p, d, n) in self.splits: bydest.setdefault(d, []).append((p, n))
            for s in body:
                lm = re.match(r'^("[^"]*"|[-\w.$]+):', s)
                if lm: cur = lm.group(1)
                elif cur in bydest and ' = phi ' in s:
                    for (p, n) in bydest[cur]:
                        pn = '%' + p
                        s = s.replace(f'{pn} ]', f'%{n} ]')
                nb.append(s)
            body = nb
        return [h] + body

    def result_int(self, r):
        r = re.sub(r'^(tail |musttail |notail )', '', r)
        op = r.split(' ',1)[0]
        if op in BIN:
            m = re.match(r'\w+ (?:nuw |nsw |exact |disjoint )*(i\d+) ', r)
            return self.inttype(m.group(1)) if m else None
        if op == 'icmp':
            m = re.match(r'icmp \w+ (\S+) ', r)
            return None if m.group(1).startswith('<') else 1
        if op == 'fcmp':
            m = re.match(r'fcmp (?:[a-z]+ )*?(\w+) (<|\w+)', r)
            return None if '<' in r.split(',')[0] else 1
        if op in ('zext','sext','trunc','bitcast','fptosi','fptoui','ptrtoint'):
            m = re.search(r' to (\S+)$', r)
            return self.inttype(m.group(1)) if m else None
        if op == 'load':
            m = re.match(r'load (?:atomic )?(?:volatile )?(\S+),', r)
            return self.inttype(m.group(1)) if m else None
        if op == 'phi':
            m = re.match(r'phi (\S+) ', r); return self.inttype(m.group(1)) if m else None
        if op == 'select':
            m = re.match(r'select i1 .*?, (i\d+) ', r); return self.inttype(m.group(1)) if m else None
        if op == 'freeze':
            m = re.match(r'freeze (i\d+) ', r); return self.inttype(m.group(1)) if m else None
        if op in ('call','invoke'):
            ty = self.callret_type(r); return self.inttype(ty) if ty else None
        if op == 'extractvalue' or op == 'extractelement' or op=='atomicrmw':
            return 1 if op != 'atomicrmw' else None   # conservatively named; width resolved on emission
        return None

    def callret_type(self, r):
        m = re.match(r'(?:call|invoke) (?:fast |nnan |ninf |nsz |arcp |contract |afn |reassoc )*(?:\w+cc )?(.*)$', r)
        rest = m.group(1)
        # strip return attrs
        while True:
            m = re.match(r'(noundef|zeroext|signext|nonnull|noalias|inreg|align \d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|nofpclass\([^)]*\)|range\([^)]*\)) ', rest)
            if not m: break
            rest = rest[m.end():]
        if rest[0] in '{<[':
            d=0
            for i,c in enumerate(rest):
                if c in '{<[(': d+=1
                elif c in '}>])':
                    d-=1
                    if d==0: return rest[:i+1]
        return rest.split(' ',1)[0]

    def instr(self, l):
        m = re.match(r'^\s+(' + VAL + r') = (.*)$', l, re.S)
        if m: v, r = m.group(1), m.group(2)
        else: v, r = None, l.strip()
        r = re.sub(r' #\d+$', '', r) if not r.startswith('landingpad') else r
        r0 = re.sub(r'^(tail |musttail |notail )', '', r)
        op = r0.split(' ',1)[0]
        fn = getattr(self, 'op_' + op, None)
        if 'x86_fp80' in r0 and op not in ('call','invoke','load','store','phi','select','ret','alloca','getelementptr'):   # long double stays concrete
            m = re.match(r'fpext (double|float) (\S+) to', r0)
            if m: self.emit('  ' + self.rt('void', '__vp_escape_' + m.group(1)[0], [f'{m.group(1)} {m.group(2)}']))
            self.emit(f'  {v} = {r0}')
            if v in self.intvals: self.emit(f'  {self.shname(v)} = add i32 0, 0')
            return
        if op in BIN: return self.op_bin(v, r0, op)
        if op in FBIN: return self.op_fbin(v, r0, op)
        if fn: return fn(v, r0)
        # default: pass through
        self.emit(l)
        if v in self.intvals:
            self.emit(f'  {self.shname(v)} = add i32 0, 0')

    # ---- integer ops ----
    def op_bin(self, v, r, op):
        self.emit(f'  {v} = {r}')
        m = re.match(r'\w+ (?:nuw |nsw |exact |disjoint )*(\S+) (.*), (\S+)$', r)
        w = self.inttype(m.group(1)) if m else None
        if v not in self.intvals: return
        if not w: self.emit(f'  {self.shname(v)} = add i32 0, 0'); return
        a, b = m.group(2), m.group(3)
        sa, sb = self.sh(a), self.sh(b)
        if sa == '0' and sb == '0':
            self.emit(f'  {self.shname(v)} = add i32 0, 0'); return
        ea, eb = self.ext64(a,w), self.ext64(b,w)
        self.emit(f'  {self.shname(v)} = ' + self.rt('i32','__vp_bin',[f'i32 {BIN[op]}',f'i32 {w}',f'i32 {sa}',f'i32 {sb}',f'i64 {ea}',f'i64 {eb}']))

    def op_icmp(self, v, r):
        self.emit(f'  {v} = {r}')
        if v not in self.intvals: return
        m = re.match(r'icmp (\w+) (\S+) (.*), (\S+)$', r)
        w = self.inttype(m.group(2)) if m else None
        sa = sb = '0'
        if w: sa, sb = self.sh(m.group(3)), self.sh(m.group(4))
        if sa == '0' and sb == '0':
            self.emit(f'  {self.shname(v)} = add i32 0, 0'); return
        ea, eb = self.ext64(m.group(3),w), self.ext64(m.group(4),w)
        self.emit(f'  {self.shname(v)} = ' + self.rt('i32','__vp_icmp',[f'i32 {IPRED[m.group(1)]}',f'i32 {w}',f'i32 {sa}',f'i32 {sb}',f'i64 {ea}',f'i64 {eb}']))

    def conv(self, v, r, kind):
        m = re.match(r'\w+ (?:nneg )?(\S+) (\S+) to (\S+)$', r)
        self.emit(f'  {v} = {r}')
        if v not in self.intvals: return
        wf = self.inttype(m.group(1)); wt = self.inttype(m.group(3))
        s = self.sh(m.group(2)) if wf else '0'
        if s == '0' or not wt: self.emit(f'  {self.shname(v)} = add i32 0, 0'); return
        self.emit(f'  {self.shname(v)} = ' + self.rt('i32','__vp_conv',[f'i32 {kind}',f'i32 {wt}',f'i32 {s}']))
    def op_zext(self, v, r): self.conv(v, r, 1)
    def op_sext(self, v, r): self.conv(v, r, 2)
    def op_trunc(self, v, r): self.conv(v, r, 3)

    def op_freeze(self, v, r):
        self.emit(f'  {v} = {r}')
        m = re.match(r'freeze (\S+) (\S+)$', r)
        if v in self.intvals:
            self.emit(f'  {self.shname(v)} = add i32 {self.sh(m.group(2))}, 0')

    def op_ptrtoint(self, v, r):
        self.emit(f'  {v} = {r}')
        if v in self.intvals: self.emit(f'  {self.shname(v)} = add i32 0, 0')

    def op_inttoptr(self, v, r):
        m = re.match(r'inttoptr (\S+) (\S+) to', r)
        w = self.inttype(m.group(1))
        if w: self.conc(m.group(2), w)
        self.emit(f'  {v} = {r}')

    def op_bitcast(self, v, r):
        m = re.match(r'bitcast (.+) (\S+) to (.+)$', r)
        ft, val, tt = m.group(1), m.group(2), m.group(3)
        if ft == 'double' and tt == 'i64':
            self.emit('  ' + self.rt('void','__vp_bitd',[f'double {val}']))
        elif ft == 'float' and tt == 'i32':
            self.emit('  ' + self.rt('void','__vp_bitf',[f'float {val}']))
        elif self.inttype(ft):
            self.conc(val, self.inttype(ft))
        self.emit(f'  {v} = {r}')
        if v in self.intvals: self.emit(f'  {self.shname(v)} = add i32 0, 0')

    def op_phi(self, v, r):
        self.emit(f'  {v} = {r}')
        if v in self.intvals:
            inc = re.findall(r'\[ (.*?), (' + VAL + r') \]', r)
            self.emit(f'  {self.shname(v)} = phi i32 ' + ', '.join(f'[ {self.sh(a)}, {b} ]' for a,b in inc))

    def op_select(self, v, r):
        m = re.match(r'select i1 (.*)$', r)
        parts = self.split_args(m.group(1))
        if r.startswith('select <') or not m or len(parts) != 3:
            self.emit(f'  {v} = {r}')
            if v in self.intvals: self.emit(f'  {self.shname(v)} = add i32 0, 0')
            return
        c = parts[0]
        t1, a = parts[1].rsplit(' ',1); t2, b = parts[2].rsplit(' ',1)
        w = self.inttype(t1)
        s = self.sh(c)
        if w:
            self.emit(f'  {v} = {r}')
            sa, sb = self.sh(a), self.sh(b)
            if s == '0' and sa == '0' and sb == '0': self.emit(f'  {self.shname(v)} = add i32 0, 0'); return
            ea, eb = self.ext64(a,w), self.ext64(b,w)
            ec = self.ext64(c,1)
            self.emit(f'  {self.shname(v)} = ' + self.rt('i32','__vp_isel',[f'i32 {w}',f'i32 {s}',f'i64 {ec}',f'i32 {sa}',f'i32 {sb}',f'i64 {ea}',f'i64 {eb}']))
        else:
            if s != '0':
                ec = self.ext64(c,1)
                if t1 == 'double':
                    self.emit('  ' + self.rt('void','__vp_selbr_d',[f'i32 {s}',f'i64 {ec}',f'double {a}',f'double {b}']))
                else:
                    self.emit('  ' + self.rt('void','__vp_branch',[f'i32 {s}',f'i64 {ec}']))
            self.emit(f'  {v} = {r}')

    # ---- control ----
    def op_br(self, v, r):
        m = re.match(r'br i1 (.*?), label', r)
        if m:
            s = self.sh(m.group(1))
            if s != '0':
                ec = self.ext64(m.group(1),1)
                self.emit('  ' + self.rt('void','__vp_branch',[f'i32 {s}',f'i64 {ec}']))
        self.emit('  ' + r)

    def op_switch(self, v, r):
        m = re.match(r'switch (i\d+) (\S+), label (\S+) \[(.*)\]', r)
        w = self.inttype(m.group(1)); val = m.group(2)
        s = self.sh(val) if w else '0'
        if s != '0':
            ev = self.ext64(val, w)
            for c in re.findall(r'i\d+ (-?\d+|true|false), label', m.group(4)):
                c = {'true':'1','false':'0'}.get(c,c)
                self.emit('  ' + self.rt('void','__vp_case',[f'i32 {w}',f'i32 {s}',f'i64 {ev}',f'i64 {c}']))
        self.emit('  ' + r)

    def op_ret(self, v, r):
        m = re.match(r'ret (.*) (\S+)$', r)
        if m and m.group(1) != '':
            w = self.inttype(m.group(1))
            if w:
                self.emit('  ' + self.rt('void','__vp_retput',['i32 0', f'i32 {self.sh(m.group(2))}']))
            elif m.group(1).startswith('{'):
                els = self.split_args(m.group(1)[1:-1])
                ag = self.aggr.get(m.group(2))
                for k, e in enumerate(els):
                    if self.inttype(e):
                        self.emit('  ' + self.rt('void','__vp_retput',[f'i32 {k}', f'i32 {ag.get(k,"0") if ag else "0"}']))
        self.emit('  ' + r)

    # ---- memory ----
    def op_load(self, v, r):
        self.emit(f'  {v} = {r}')
        m = re.match(r'load (?:atomic )?(?:volatile )?(\S+), ptr ([^,]+?)(?: syncscope.*| seq_cst.*| monotonic.*| acquire.*)?(?:,|$)', r)
        if v not in self.intvals: return
        w = self.inttype(m.group(1))
        ptr = m.group(2)
        # pointer constant expressions contain commas
        if ptr.startswith('getelementptr'):
            mm = re.match(r'load (?:atomic )?(?:volatile )?\S+, ptr (getelementptr .*\))(?:,|$)', r); ptr = mm.group(1)
        n = max(1, w // 8)
        e = self.ext64(v, w)
        self.emit(f'  {self.shname(v)} = ' + self.rt('i32','__vp_load',[f'ptr {ptr}',f'i32 {n}',f'i32 {w}',f'i64 {e}']))

    def op_store(self, v, r):
        self.emit('  ' + r)
        m = re.match(r'store (?:atomic )?(?:volatile )?(.*)$', r)
        parts = self.split_args(m.group(1))
        ty, val = parts[0].split(' ',1) if parts[0][0] not in '<{[' else ('agg', parts[0])
        ptr = parts[1][4:]
        ptr = re.sub(r' (syncscope.*|seq_cst|monotonic|release)$','',ptr)
        w = self.inttype(ty)
        if w:
            s = self.sh(val); n = max(1, w//8)
            if s == '0': self.clear(ptr, n)
            else:
                e = self.ext64(val, w)
                self.emit('  ' + self.rt('void','__vp_store',[f'ptr {ptr}',f'i32 {n}',f'i32 {s}',f'i64 {e}']))
        else:
            n = 8
            if ty == 'float': n = 4
            self.clear(ptr, n if ty != 'agg' else 16)

    def op_getelementptr(self, v, r):
        for ty, val in re.findall(r', (i\d+) (' + VAL + r')', r):
            w = self.inttype(ty)
            if w: self.conc(val, w)
        self.emit(f'  {v} = {r}')

    def op_alloca(self, v, r):
        m = re.match(r'alloca .*?, (i\d+) (%\S+),', r)
        if m: self.conc(m.group(2), self.inttype(m.group(1)))
        self.emit(f'  {v} = {r}')

    def op_insertvalue(self, v, r):
        self.emit(f'  {v} = {r}')
        m = re.match(r'insertvalue (\{.*?\}) (\S+), (\S+) (\S+), (\d+)$', r)
        if m:
            d = dict(self.aggr.get(m.group(2), {}))
            if self.inttype(m.group(3)): d[int(m.group(5))] = self.sh(m.group(4))
            self.aggr[v] = d

    def op_extractvalue(self, v, r):
        self.emit(f'  {v} = {r}')
        if v in self.intvals:
            m = re.match(r'extractvalue \{.*\} (\S+), (\d+)$', r)
            s = '0'
            if m: s = self.aggr.get(m.group(1), {}).get(int(m.group(2)), '0')
            self.emit(f'  {self.shname(v)} = add i32 {s}, 0')

    def op_extractelement(self, v, r):
        self.emit(f'  {v} = {r}')
        if v in self.intvals: self.emit(f'  {self.shname(v)} = add i32 0, 0')

    # ---- floating point ----
    def scal(self, ty): return ty in ('double','float')

    def vec_fp(self, ty):
        m = re.fullmatch(r'<(\d+) x (double|float)>', ty)
        return (int(m.group(1)), m.group(2)) if m else None

    def op_fbin(self, v, r, op):
        m = re.match(r'\w+ (?:fast |nnan |ninf |nsz |arcp |contract |afn |reassoc )*(<[^>]*>|\S+) (.*), (<.*>|\S+)$', r)
        ty, a, b = m.group(1), m.group(2), m.group(3)
        if self.scal(ty):
            self.emit(f'  {v} = ' + self.rt(ty, f'__vp_f{"d" if ty=="double" else "s"}', [f'i32 {FBIN[op]}', f'{ty} {a}', f'{ty} {b}']))
            return
        n, et = self.vec_fp(ty)
        cur = 'undef'
        for i in range(n):
            x, y, z = self.t(), self.t(), self.t()
            self.emit(f'  {x} = extractelement {ty} {a}, i32 {i}')
            self.emit(f'  {y} = extractelement {ty} {b}, i32 {i}')
            self.emit(f'  {z} = ' + self.rt(et, f'__vp_f{"d" if et=="double" else "s"}', [f'i32 {FBIN[op]}', f'{et} {x}', f'{et} {y}']))
            nx = v if i == n-1 else self.t()
            self.emit(f'  {nx} = insertelement {ty} {cur}, {et} {z}, i32 {i}')
            cur = nx

    def op_fneg(self, v, r):
        m = re.match(r'fneg (<[^>]*>|\S+) (.*)$', r)
        ty, a = m.group(1), m.group(2)
        if self.scal(ty):
            self.emit(f'  {v} = ' + self.rt(ty, f'__vp_fneg_{"d" if ty=="double" else "s"}', [f'{ty} {a}'])); return
        n, et = self.vec_fp(ty); cur = 'undef'
        for i in range(n):
            x, z = self.t(), self.t()
            self.emit(f'  {x} = extractelement {ty} {a}, i32 {i}')
            self.emit(f'  {z} = ' + self.rt(et, f'__vp_fneg_{"d" if et=="double" else "s"}', [f'{et} {x}']))
            nx = v if i == n-1 else self.t()
            self.emit(f'  {nx} = insertelement {ty} {cur}, {et} {z}, i32 {i}')
            cur = nx

    def op_fcmp(self, v, r):
        m = re.match(r'fcmp (?:fast |nnan |ninf |nsz |arcp |contract |afn |reassoc )*(\w+) (\S+) (.*), (\S+)$', r)
        if not m or not self.scal(m.group(2)):
            raise RuntimeError('fcmp ' + r)
        ty = m.group(2); p = self.t('p')
        self.emit(f'  {p} = ' + self.rt('i32', f'__vp_fcmp_{"d" if ty=="double" else "s"}', [f'i32 {FPRED[m.group(1)]}', f'{ty} {m.group(3)}', f'{ty} {m.group(4)}']))
        self.emit(f'  {v} = trunc i32 {p} to i1')
        self.emit(f'  {self.shname(v)} = lshr i32 {p}, 1')

    def vconv(self, v, r, name):
        m = re.match(r'\w+ (<[^>]*>) (.*) to (<[^>]*>)$', r)
        if not m: return False
        n, ft = self.vec_fp(m.group(1)); n2, tt = self.vec_fp(m.group(3)); cur='undef'
        for i in range(n):
            x, z = self.t(), self.t()
            self.emit(f'  {x} = extractelement {m.group(1)} {m.group(2)}, i32 {i}')
            self.emit(f'  {z} = ' + self.rt(tt, name, [f'{ft} {x}']))
            nx = v if i == n-1 else self.t()
            self.emit(f'  {nx} = insertelement {m.group(3)} {cur}, {tt} {z}, i32 {i}')
            cur = nx
        return True

    def op_fpext(self, v, r):
        if self.vconv(v, r, '__vp_fpext'): return
        m = re.match(r'fpext (\S+) (\S+) to (\S+)$', r)
        if m.group(1) != 'float' or m.group(3) != 'double': 
            self.warnonce('fpext ' + m.group(1)+m.group(3)); self.emit(f'  {v} = {r}'); return
        self.emit(f'  {v} = ' + self.rt('double','__vp_fpext',[f'float {m.group(2)}']))
    def op_fptrunc(self, v, r):
        if self.vconv(v, r, '__vp_fptrunc'): return
        m = re.match(r'fptrunc (\S+) (\S+) to (\S+)$', r)
        if m.group(1) != 'double':
            self.warnonce('fptrunc ' + m.group(1)); self.emit(f'  {v} = {r}'); return
        self.emit(f'  {v} = ' + self.rt('float','__vp_fptrunc',[f'double {m.group(2)}']))

    def op_sitofp(self, v, r, sg=1):
        m = re.match(r'\w+ (?:nneg )?(\S+) (\S+) to (\S+)$', r)
        if r.split(' ')[1].startswith('<') or m is None or m.group(3) not in ('double','float'):
            self.warnonce('sitofp ' + r[:40]); self.emit(f'  {v} = {r}'); return
        w = self.inttype(m.group(1)); s = self.sh(m.group(2)) if w else '0'
        if s == '0': self.emit(f'  {v} = {r}'); return
        p = self.t('c')
        self.emit(f'  {p} = {r}')
        e = self.ext64(m.group(2), w)
        ty = m.group(3)
        self.emit(f'  {v} = ' + self.rt(ty, f'__vp_itof_{"d" if ty=="double" else "s"}', [f'i32 {sg}', f'i32 {s}', f'i64 {e}', f'{ty} {p}']))
    def op_uitofp(self, v, r): self.op_sitofp(v, r, 0)

    def op_fptosi(self, v, r):
        m = re.match(r'(\w+) (\S+) (\S+) to (\S+)$', r)
        if m is None or m.group(2) not in ('double','float'): raise RuntimeError(r)
        c = self.t('c')
        ty = m.group(2)
        # concretises the operand: returns its concrete value after recording the enclosing unit interval
        self.emit(f'  {c} = ' + self.rt(ty, f'__vp_ftoi_{"d" if ty=="double" else "s"}', [f'{ty} {m.group(3)}']))
        self.emit(f'  {v} = {m.group(1)} {ty} {c} to {m.group(4)}')
        if v in self.intvals: self.emit(f'  {self.shname(v)} = add i32 0, 0')
    def op_fptoui(self, v, r): self.op_fptosi(v, r)

    # ---- calls ----
    def op_call(self, v, r): self.call(v, r, False)
    def op_invoke(self, v, r): self.call(v, r, True)

    def call(self, v, r, inv):
        tail = ''
        core = r
        if inv:
            mm = re.search(r'\s+to label (' + VAL + r') unwind label (' + VAL + r')$', r)
            core = r[:mm.start()]; nd, ud = mm.group(1), mm.group(2)
        core = re.sub(r' #\d+$', '', core)
        rty = self.callret_type(core)
        # find callee
        m = re.search(r'(@(?:"[^"]*"|[-\w.$]+)|' + VAL + r')\(', core[core.index(rty)+len(rty):] if True else core)
        off = core.index(rty)+len(rty)
        if m is None or ' asm ' in core:
            self.emit(f'  {v} = {r}' if v else '  ' + r)
            if v in self.intvals: self.emit(f'  {self.shname(v)} = add i32 0, 0')
            return
        # variadic calls have a function type "(ptr, ...)" before callee
        callee = m.group(1); st = off + m.end()
        d = 1; e = st; q=False
        while d:
            c = core[e]
            if c=='"': q = not q
            if not q:
                if c == '(': d += 1
                elif c == ')': d -= 1
            e += 1
        args = self.split_args(core[st:e-1])
        name = callee[1:].strip('"') if callee.startswith('@') else None
        rw = self.inttype(rty)
        pa = []   # (type, value)
        for a in args:
            ty = a.split(' ',1)[0] if a[0] not in '<{[' else a[:self._aggend(a)]
            pa.append((ty, a.rsplit(' ',1)[1] if not a.endswith(')') else a[len(ty):].strip()))
        # -- intrinsics and libm
        if name:
            fpargs = [(t,x) for t,x in pa if t in ('double','float')]
            base = None
            mi = re.match(r'llvm\.(\w+)\.(f64|f32)(\.|$)', name)
            if mi: base = mi.group(1)
            elif name not in self.defined and name.rstrip('f') in F1 or name in F1 or name in F2 or (name.endswith('f') and name[:-1] in F2): base = name
            if base and fpargs:
                b = base if (base in F1 or base in F2) else base[:-1]
                sfx = 'd' if fpargs[0][0]=='double' else 's'; ty = fpargs[0][0]
                if b in F1 and rty == ty:
                    self.emit(f'  {v} = ' + self.rt(ty, f'__vp_f1{sfx}', [f'i32 {30 if v in self.magonly else F1[b]}', f'{ty} {fpargs[0][1]}']))
                    return self.after_inv(inv, nd if inv else None)
                if b in F2 and rty == ty:
                    self.emit(f'  {v} = ' + self.rt(ty, f'__vp_f2{sfx}', [f'i32 {F2[b]}', f'{ty} {fpargs[0][1]}', f'{ty} {fpargs[1][1]}']))
                    return self.after_inv(inv, nd if inv else None)
                if base in ('fmuladd','fma'):
                    p = self.t()
                    self.emit(f'  {p} = ' + self.rt(ty, f'__vp_f{sfx}', ['i32 3', f'{ty} {fpargs[0][1]}', f'{ty} {fpargs[1][1]}']))
                    self.emit(f'  {v} = ' + self.rt(ty, f'__vp_f{sfx}', ['i32 1', f'{ty} {p}', f'{ty} {fpargs[2][1]}']))
                    return
                if base == 'powi':
                    sfx2 = self.rt(ty, f'__vp_powi{sfx}', [f'{ty} {fpargs[0][1]}', f'i32 {pa[1][1]}'])
                    self.emit(f'  {v} = ' + sfx2); return
            if name.startswith('llvm.is.fpclass.f'):
                ty = pa[0][0]; p = self.t('p')
                self.emit(f'  {p} = ' + self.rt('i32', f'__vp_fpclass_{"d" if ty=="double" else "s"}', [f'{ty} {pa[0][1]}', f'i32 {pa[1][1]}']))
                self.emit(f'  {v} = trunc i32 {p} to i1')
                self.emit(f'  {self.shname(v)} = lshr i32 {p}, 1'); return
            if name in ('sincos','sincosf'):
                raise RuntimeError('sincos')
            if re.match(r'llvm\.v?(mem(cpy|move))', name):
                for t_, x in pa[2:3]: self.conc(x, self.inttype(t_))
                self.emit('  ' + r)
                self.emit('  ' + self.rt('void','__vp_copy',[f'ptr {pa[0][1]}', f'ptr {pa[1][1]}', f'i64 {pa[2][1]}'])) if pa[2][0]=='i64' else None
                return
            if name.startswith('llvm.memset'):
                self.conc(pa[1][1], 8); self.conc(pa[2][1], 64)
                self.emit('  ' + r)
                self.clear(pa[0][1], pa[2][1]); return
            mi = re.match(r'llvm\.(umin|umax|smin|smax)\.(i\d+)$', name)
            if mi:
                w = self.inttype(mi.group(2))
                self.emit(f'  {v} = {r}')
                a, b = pa[0][1], pa[1][1]
                ea, eb = self.ext64(a,w), self.ext64(b,w)
                k = {'umin':1,'umax':2,'smin':3,'smax':4}[mi.group(1)]
                self.emit(f'  {self.shname(v)} = ' + self.rt('i32','__vp_minmax',[f'i32 {k}',f'i32 {w}',f'i32 {self.sh(a)}',f'i32 {self.sh(b)}',f'i64 {ea}',f'i64 {eb}'])); return
            mi = re.match(r'llvm\.abs\.(i\d+)$', name)
            if mi:
                w = self.inttype(mi.group(1)); self.emit(f'  {v} = {r}')
                ea = self.ext64(pa[0][1],w)
                self.emit(f'  {self.shname(v)} = ' + self.rt('i32','__vp_iabs',[f'i32 {w}',f'i32 {self.sh(pa[0][1])}',f'i64 {ea}'])); return
            if name.startswith('llvm.expect.'):
                self.emit(f'  {v} = {r}')
                self.emit(f'  {self.shname(v)} = add i32 {self.sh(pa[0][1])}, 0'); return
            mi = re.match(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.(i\d+)$', name)
            if mi:
                w = self.inttype(mi.group(3)); self.emit(f'  {v} = {r}')
                if w:
                    a, b = pa[0][1], pa[1][1]; sa, sb = self.sh(a), self.sh(b)
                    if sa != '0' or sb != '0':
                        ea, eb = self.ext64(a,w), self.ext64(b,w)
                        n = self.t('o'); o = self.t('o')
                        k = {'add':1,'sub':2,'mul':3}[mi.group(2)]
                        self.emit(f'  {n} = ' + self.rt('i32','__vp_bin',[f'i32 {k}',f'i32 {w}',f'i32 {sa}',f'i32 {sb}',f'i64 {ea}',f'i64 {eb}']))
                        self.emit(f'  {o} = ' + self.rt('i32','__vp_ovf',[f'i32 {k}',f'i32 {1 if mi.group(1)=="s" else 0}',f'i32 {w}',f'i32 {sa}',f'i32 {sb}',f'i64 {ea}',f'i64 {eb}']))
                        self.aggr[v] = {0:n, 1:o}
                return
            if name.startswith('llvm.'):
                if not re.match(r'llvm\.(lifetime|assume|experimental|dbg|eh\.|trap|stacksave|stackrestore|va_|objectsize|invariant|prefetch|donothing)', name):
                    for t_, x in pa:
                        if self.inttype(t_): self.conc(x, self.inttype(t_))
                    if any(t_ in ('double','float') or 'double' in t_ or 'float' in t_ for t_,x in pa) :
                        self.warnonce('fp intrinsic ' + name)
                if name.startswith('llvm.assume') and self.sh(pa[0][1]) != '0':
                    pass
                self.emit(f'  {v} = {r}' if v else '  ' + r)
                if v in self.intvals: self.emit(f'  {self.shname(v)} = add i32 0, 0')
                return
        # -- harness API / runtime functions
        if name and name.startswith('vp_') and name not in self.defined:
            self.put_args(pa)
            self.emit((f'  {v} = ' if v else '  ') + core)
            if rw:
                ev = self.ext64(v, rw)
                self.emit(f'  {self.shname(v)} = ' + self.rt('i32','__vp_retload',['i32 0', f'i64 {ev}']))
            return self.after_inv(inv, nd if inv else None)
        external = name is not None and name not in self.defined
        if external:
            if name in SPECIAL_FP_EXTERN:
                core = core.replace('@'+name+'(', '@'+SPECIAL_FP_EXTERN[name]+'(')
                self.decls.add((rty, SPECIAL_FP_EXTERN[name], tuple(t for t,_ in pa)))
            elif any('double' in t or 'float' in t for t,_ in pa) or 'double' in rty or 'float' in rty:
                self.warnonce('fp extern ' + name)
                for t_, x in pa:
                    if t_ == 'double': self.emit('  ' + self.rt('void','__vp_escape_d',[f'double {x}']))
                    if t_ == 'float': self.emit('  ' + self.rt('void','__vp_escape_f',[f'float {x}']))
            for t_, x in pa:
                if self.inttype(t_): self.conc(x, self.inttype(t_))
        else:
            self.put_args(pa)
        if name in ('memcpy','memmove') :
            pass
        if not inv:
            self.emit((f'  {v} = ' if v else '  ') + core)
            if name in ('memcpy','memmove'):
                self.emit('  ' + self.rt('void','__vp_copy',[f'ptr {pa[0][1]}', f'ptr {pa[1][1]}', f'i64 {pa[2][1]}']))
            self.ret_shadow(v, rty, external)
        else:
            if v and not external and (rw or (rty.startswith('{') and any(self.inttype(x) for x in self.split_args(rty[1:-1])))):
                self.tmp += 1
                nb = f'vp.nd{self.tmp}'
                self.emit(f'  {v} = {core} to label %{nb} unwind label {ud}')
                self.emit(f'{nb}:')
                self.ret_shadow(v, rty, external)
                self.emit(f'  br label {nd}')
                self.splits.append((self.cur, nd[1:], nb))
            elif v and v in self.intvals:
                # external: shadow 0; define it at the destination through a split as well
                self.tmp += 1
                nb = f'vp.nd{self.tmp}'
                self.emit(f'  {v} = {core} to label %{nb} unwind label {ud}')
                self.emit(f'{nb}:')
                self.emit(f'  {self.shname(v)} = add i32 0, 0')
                self.emit(f'  br label {nd}')
                self.splits.append((self.cur, nd[1:], nb))
            else:
                self.emit((f'  {v} = ' if v else '  ') + f'{core} to label {nd} unwind label {ud}')

    def after_inv(self, inv, nd):
        if inv: self.emit(f'  br label {nd}')

    def _aggend(self, a):
        d=0
        for i,c in enumerate(a):
            if c in '{<[(': d+=1
            elif c in '}>])':
                d-=1
                if d==0: return i+1
        return len(a)

    def put_args(self, pa):
        k = 0
        for t_, x in pa:
            if self.inttype(t_):
                self.emit('  ' + self.rt('void','__vp_argput',[f'i32 {k}', f'i32 {self.sh(x)}']))
                k += 1
        for kk in range(2):
            pass
        self.emit('  ' + self.rt('void','__vp_retput',['i32 0','i32 0']))

    def ret_shadow(self, v, rty, external):
        if not v: return
        rw = self.inttype(rty)
        if rw:
            if external: self.emit(f'  {self.shname(v)} = add i32 0, 0'); return
            ev = self.ext64(v, rw)
            self.emit(f'  {self.shname(v)} = ' + self.rt('i32','__vp_retload',['i32 0', f'i64 {ev}']))
        elif rty.startswith('{') and not external:
            els = self.split_args(rty[1:-1]); d = {}
            for k, e in enumerate(els):
                w = self.inttype(e)
                if w:
                    x = self.t('x')
                    self.emit(f'  {x} = extractvalue {rty} {v}, {k}')
                    ev = self.ext64(x, w)
                    n = self.t('x')
                    self.emit(f'  {n} = ' + self.rt('i32','__vp_retload',[f'i32 {k}', f'i64 {ev}']))
                    d[k] = n
            self.aggr[v] = d

def main():
    src, dst, covf = sys.argv[1:4]
    rw = Rewriter(open(src).read(), sys.argv[4:] or ['/repo/'])
    open(dst,'w').write(rw.rewrite())
    json.dump({'cov': rw.covlist, 'warn': rw.warn}, open(covf,'w'))
if __name__ == '__main__': main()
