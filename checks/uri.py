"""URI: parsing, decomposition, alphabets, special members, percent coding - decided on the normalised IR."""
from ir import Unit
from relint import *
from rel import _fresh
from stdmodel import *
import policy, math
from core import par

H = "src/core/include/URI.hpp"
def cs(s): return bset(s.encode())
AL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"; DG = "0123456789"; AN = AL + DG
URISET = cs(AN + "-._~:/?#[]@!$&'()*+,;=%"); SCHEME = cs(AN); AUTH = cs(AN + "@:.-_*[]"); PATH = cs(AN + "/.-_"); UNRES = cs(AN + "-._~")
NAMES = ["scheme", "authority", "path", "queryParam", "fragment", "user", "password", "hostName"]
_units = {}
def unit(driver="uri.cpp", **k):
    if driver not in _units:
        _units[driver] = Unit(driver, policy.make(**k), extra=policy.ALGOS + ["-D_GLIBCXX_ASSERTIONS"], passes=policy.UNROLL)
    return _units[driver]

class UriModel(StdModel):
    src = 'o:src'
    def stop(self): return self.unroll and any(o['status'] == 'violated' for o in self.rep.obl.values())
    def __init__(self, rep, key, strict):
        super().__init__(rep); self.key = key; self.strict = strict; self.rets = 0
    def client(self, eng, st, i, name, args):
        if name == 'vf_obs':
            w = args[0]; w = w.c if isinstance(w, Lin) else w.a[0]
            st.mem.setdefault('o:vfobs', {})[w] = (1, self.getopt(st, args[1]))
            return [(st, None)]
        if name == 'vf_obs_str':
            st.mem.setdefault('o:vfobs', {})[100] = (1, self.sget(st, args[0]))
            return [(st, None)]
        if name == 'vf_obs_port':
            f = st.load(Ptr(args[0].obj, args[0].off + 2), 1); v = None
            if isinstance(f, Ex):
                S = st.eset(f)
                if S == ISet.const(8, 0): v = ('none',)
                elif 0 not in S: v = ('some', st.load(args[0], 2))
            st.mem.setdefault('o:vfobs', {})[8] = (1, v)
            return [(st, None)]
        if name == 'vf_mark': return [(st, None)]
        return None
    def bad(self, st, key, where, detail):
        """a violation is only reported for a state reached without over-approximation"""
        if not self.unroll: self.rep.unk(key, where, f"not shown: {detail}")
        elif st.taint: self.rep.unk(key, where, f"not shown ({st.taint}): {detail}")
        else: self.rep.bad(key, where, detail)
    def req(self, st, cond, key, where, detail):
        if cond: self.rep.ok(key, where, detail)
        else: self.bad(st, key, where, detail)
    def obs(self, st, w):
        c = st.mem.get('o:vfobs', {}).get(w)
        return c[1] if c else None
    # -------------------------------------------------------------- specification
    def firsts(self, st, a, n, C):
        """case split: (state, position of the first byte in C at or after a, or n)"""
        src = self.src
        if st.le(n - a): return [(st, a if st.eq(a, n) else n)]
        cand = []
        for e, S in st.leaf.items():
            if e.a[0][0] == 'b' and e.a[0][1] == src and S and S.subset(C):
                x = e.a[0][2]
                if st.le(a - x) and st.le(x - n + 1) and st.excludes(src, a, x, C): return [(st, x)]
        if st.excludes(src, a, n, C): return [(st, n)]
        out = []
        for s, r in self.search(st, Ptr(src), n, a, C, 'spec'):
            if r == NPOS:
                if s.consistent(): out.append((s, n))
                continue
            todo = [s]
            # order r against the positions the code knows about
            for e in list(s.leaf):
                if e.a[0][0] != 'b' or e.a[0][1] != src: continue
                x = e.a[0][2]
                nxt = []
                for t in todo:
                    if t.le(x - r + 1) or t.le(r - x + 1) or t.eq(x, r): nxt.append(t); continue
                    for c in (r - x + 1, x - r + 1, None):
                        u = t.copy()
                        ok = u.assume_eq(r - x) if c is None else u.assume_le(c)
                        if ok and u.consistent(): nxt.append(u)
                todo = nxt
                if len(todo) > 40: break
            for t in todo: out.append((t, r))
        return out
    def bytes_split(self, st, off, C):
        """(state, True/False): is the byte at off in C"""
        lf = st.byte_leaf(self.src, off); S = st.leaf[lf]
        if S.subset(C): return [(st, True)]
        if S.disjoint(C): return [(st, False)]
        a, b = st.copy(), st.copy()
        a.leaf[lf] = S.inter(C); b.leaf[lf] = S.inter(C.compl())
        return [(s, t) for s, t in ((a, True), (b, False)) if s.consistent()]
    def le_split(self, st, l):
        """(state, l <= 0 ?)"""
        if st.le(l): return [(st, True)]
        if st.le(-l + 1): return [(st, False)]
        out = []
        a, b = st.copy(), st.copy()
        if a.assume_le(l) and a.consistent(): out.append((a, True))
        if b.assume_le(-l + 1) and b.consistent(): out.append((b, False))
        return out
    def decompose(self, st):
        """RFC-3986-style decomposition of the source: list of (state, {component: (from, to)})"""
        n = Lin.sym('n'); Z = Lin(0); out = []
        for s0, empty in self.le_split(st, n):
            if empty: out.append((s0, {k: (Z, Z) for k in range(5)})); continue
            for s1, slash in self.bytes_split(s0, Z, cs("/")):
                if slash: out += self.tail(s1, {0: (Z, Z), 1: (Z, Z)}, Z); continue
                for s2_, p in self.firsts(s1, Z, n, cs(":/?#")):
                    for s3, none in self.le_split(s2_, n - p):
                        if none: out += self.quirk(s3, n); continue
                        for s4, colon in self.bytes_split(s3, p, cs(":")):
                            if not colon: 
                                for s5, z in self.le_split(s4, p):     # starts with ? or #
                                    out += self.tail(s5, {0: (Z, Z), 1: (Z, Z)}, Z) if z else self.quirk(s5, n)
                                continue
                            out += self.after_scheme(s4, p)
        return out
    def quirk(self, st, n):
        """no scheme and no leading '/', '?' or '#': no decomposition is claimed (the code takes everything behind the second character as authority)"""
        return [(st, None)]
    def after_scheme(self, st, p):
        n = Lin.sym('n'); k = p + 1; comp = {0: (Lin(0), p)}; out = []
        for s, short in self.le_split(st, n - k - 1):          # fewer than two characters left
            if short: out += self.tail(s, {**comp, 1: (k, k)}, k); continue
            for s1, a in self.bytes_split(s, k, cs("/")):
                if not a: out += self.tail(s1, {**comp, 1: (k, k)}, k); continue
                for s2_, b in self.bytes_split(s1, k + 1, cs("/")):
                    if not b: out += self.tail(s2_, {**comp, 1: (k, k)}, k); continue
                    for s3, e in self.firsts(s2_, k + 2, n, cs("/?#")): out += self.tail(s3, {**comp, 1: (k + 2, e)}, e)
        return out
    def tail(self, st, comp, P):
        n = Lin.sym('n'); out = []
        for s, e in self.firsts(st, P, n, cs("?#")):
            c = {**comp, 2: (P, e)}
            for s1, end in self.le_split(s, n - e):
                if end: out.append((s1, {**c, 3: (n, n), 4: (n, n)})); continue
                for s2_, q in self.bytes_split(s1, e, cs("?")):
                    if not q: out.append((s2_, {**c, 3: (e, e), 4: (e + 1, n)})); continue
                    for s3, f in self.firsts(s2_, e + 1, n, cs("#")):
                        for s4, fe in self.le_split(s3, n - f):
                            out.append((s4, {**c, 3: (e + 1, f), 4: (n, n) if fe else (f + 1, n)}))
        return out
    def match(self, st, o, a, b):
        """observed optional o equals the text [a,b) of the source (absent iff empty)"""
        if o is None: return None
        if o[0] == 'none': return st.le(b - a)
        c = cnorm(st, o[1])
        if any(x[0] == '?' for x in c): return None
        return ceq(st, c, (('sub', self.src, a, b - a),)) and st.le(a - b + 1)

def desc(st, comp): return ", ".join(f"{NAMES[k]}=[{st.canon(a)},{st.canon(b)})" for k, (a, b) in sorted(comp.items()))

class Parse(UriModel):
    def __init__(self, rep, key, strict, what):
        super().__init__(rep, key, strict); self.what = what      # 'split' | 'alphabet' | 'safe'
    def ret(self, eng, st, i, val):
        if not st.consistent(): return
        self.eng = eng; self.rets += 1; rep = self.rep; n = Lin.sym('n')
        if self.what == 'safe': return
        if self.what == 'split':
            c = self.obs(st, 100)
            self.req(st, c is not None and ceq(st, c, (('sub', self.src, Lin(0), n),)), f"{self.key}.str", H, "str() is the text the URI was made from")
            for s, comp in self.decompose(st):
                if comp is None: continue
                for w in range(5):
                    o = self.obs(st, w); a, b = comp[w]
                    m = self.match(s, o, a, b); k = f"{self.key}.{NAMES[w]}"
                    if m is None: rep.unk(k, H, f"{NAMES[w]}() returns a value the analysis cannot express")
                    else: self.req(s, m, k, H, f"{NAMES[w]}() is the characters [{s.canon(a)},{s.canon(b)}) of the text, n={s.canon(n)} (absent if empty)" + ("" if m else f"; found {o} for decomposition {desc(s, comp)}"))
        if self.what == 'alphabet' and self.strict:
            ok = st.excludes(self.src, Lin(0), n, URISET.compl())
            self.req(st, ok, f"{self.key}.accept.uri", H, "an accepted text consists of RFC 3986 characters only")
            for s, comp in self.decompose(st):
                if comp is None: continue
                for w, A in ((0, SCHEME), (1, AUTH), (2, PATH)):
                    a, b = comp[w]
                    ok = s.excludes(self.src, a, b, A.compl())
                    self.req(s, ok, f"{self.key}.accept.{NAMES[w]}", H, f"the {NAMES[w]} of an accepted text consists of its permitted characters only" + ("" if ok else f": may contain {s.region_set(self.src, a, b).inter(A.compl())}"))
    def throw(self, eng, st, i, name):
        if not st.consistent(): return
        self.eng = eng; rep = self.rep
        if name == '__cxa_throw':
            if self.what != 'alphabet': return
            if not self.strict: self.bad(st, f"{self.key}.reject", i.where(), "a RELAXED URI is never rejected"); return
            self.req(st, self.justified(st), f"{self.key}.reject", i.where(), "a text is only rejected because of a character that is not permitted where it stands")
            return
        if self.what != 'safe': return
        if '__clang_call_terminate' in name: return
        self.bad(st, f"{self.key}.safe", i.where(), f"{name} is reachable: a position outside the text is accessed (or a view outside the object's own buffer)")
    def justified(self, st):
        n = Lin.sym('n')
        bad = [(e.a[0][2], S) for e, S in st.leaf.items() if e.a[0][0] == 'b' and e.a[0][1] == self.src]
        if any(S.disjoint(URISET) for _, S in bad): return True
        for s, comp in self.decompose(st):
            if comp is None: continue
            ok = False
            for x, S in bad:
                for w, A in ((0, SCHEME), (1, AUTH), (2, PATH)):
                    a, b = comp[w]
                    S = s.leaf.get(Ex('leaf', 8, ('b', self.src, x)), S)
                    if S.disjoint(A) and s.le(a - x) and s.le(x - b + 1): ok = True
            if not ok: return False
        return True

class Auth(UriModel):
    """a text x://AUTHORITY...: the parts of the authority, whatever the order in which they are asked for"""
    def ret(self, eng, st, i, val):
        if not st.consistent(): return
        self.eng = eng; self.rets += 1; rep = self.rep; n = Lin.sym('n'); a = Lin(4)
        for s0, e in self.firsts(st, a, n, cs("/?#")):
            for s1, at in self.firsts(s0, a, e, cs("@")):
                for s2_, none in self.le_split(s1, e - at):
                    if none: self.host(s2_, st, e, a, {1: (a, e), 5: (a, a), 6: (a, a)}); continue
                    for s3, c in self.firsts(s2_, a, at, cs(":")):
                        for s4, nc in self.le_split(s3, at - c):
                            self.host(s4, st, e, at + 1, {1: (a, e), 5: (a, at if nc else c), 6: (at, at) if nc else (c + 1, at)})
    def host(self, s, st, e, hs, comp):
        for s1, pc in self.firsts(s, hs, e, cs(":")):
            for s2_, none in self.le_split(s1, e - pc):
                self.compare(s2_, {**comp, 7: (hs, e if none else pc)}, (e, e) if none else (pc + 1, e))
    def compare(self, s, comp, port):
        rep = self.rep
        for w in (1, 5, 6, 7):
            o = self.obs(s, w); a, b = comp[w]; m = self.match(s, o, a, b); k = f"{self.key}.{NAMES[w]}"
            if m is None: rep.unk(k, H, f"{NAMES[w]}() returns a value the analysis cannot express")
            else: self.req(s, m, k, H, f"{NAMES[w]}() is the characters [{s.canon(a)},{s.canon(b)}) of the text (absent if empty)" + ("" if m else f"; found {o} for {desc(s, comp)}"))
        o = self.obs(s, 8); k = f"{self.key}.port"; text = (('sub', self.src, port[0], port[1] - port[0]),)
        nums = [(kk[1], kk[2], r) for kk, r in s.rel if isinstance(kk, tuple) and kk[0] == 'num']
        if o is None: rep.unk(k, H, "port() returns a value the analysis cannot express"); return
        empty = s.le(port[1] - port[0])
        if o[0] == 'none':
            full = [x for x in nums if x[0] == 'all' and ceq(s, x[1], text)]
            part = [x for x in nums if x[0] != 'all' and ceq(s, x[1], text)]
            if nums and not full and not part and not empty and not any(y[0] == '?' for x in nums for y in x[1]): self.bad(s, k, H, f"port() is decided by {nums}, not by the port text [{port[0]},{port[1]})")
            elif full: self.bad(s, k, H, f"port() is absent although the port text [{port[0]},{port[1]}) is a valid number")
            elif empty or part: rep.ok(k, H, "port() is absent for an empty or malformed port")
            else: rep.unk(k, H, "port() is absent for a text the analysis cannot classify")
        else:
            good = [x for x in nums if x[0] == 'all' and ceq(s, x[1], text) and isinstance(o[1], Lin) and s.eq(o[1], x[2])]
            if good: rep.ok(k, H, "port() is the number the whole port text denotes")
            elif nums and all(x[0] in ('all', 'part') for x in nums) and isinstance(o[1], Lin): self.bad(s, k, H, f"port() is present but not the number denoted by the whole port text [{port[0]},{port[1]}): {nums}")
            elif empty: self.bad(s, k, H, "port() is present although the authority has no port")
            else: rep.unk(k, H, f"port() computed in a way the analysis cannot express")
    def throw(self, eng, st, i, name):
        if not st.consistent() or name == '__cxa_throw' and self.strict or '__clang_call_terminate' in name: return
        self.bad(st, f"{self.key}.safe", i.where(), f"{name} is reachable while the authority is split")

def seg_bytes(x, m):
    """bytes a content segment denotes under an assignment of its characters; None if not determined"""
    if x[0] == 'lit': return x[1]
    if x[0] == 'chr':
        v = conc(x[1], m); return None if v is None else bytes([v & 255])
    if x[0] == 'app' and x[1] == 'fmt':
        b, u, w, f, e = x[2:]; v = conc(e, m)
        if v is None: return None
        if b == 10:
            t = str(s2(v, e.w))
        else: t = format(v % (1 << e.w), 'x' if b == 16 else 'o')
        return (t.upper() if u else t).rjust(w, chr(f)).encode('latin1')
    if x[0] == 'app' and x[1].startswith('num'):
        v = conc(x[2], m) if isinstance(x[2], Ex) else None
        if v is None: return None
        try: return format(v, x[1][4:] if ':' in x[1] else 'd').encode('latin1')
        except ValueError: return None
    return None

class Codec(UriModel):
    """output accumulated piece by piece: ('app','acc',k) is the specified output for the first k characters of the input"""
    def enter_loop(self, eng, st, h):
        for loc in list(st.mem):
            if st.mem[loc].get(0.25, (0, None))[1] == (): self.put(st, loc, (('app', 'acc', Lin(0)),))
        st.ts = self.flags(st)
        return st
    def flags(self, st):
        """stream formatting state: kept apart at loop headers"""
        return tuple((loc, k, self.stflag(st, loc, k)) for loc in sorted(st.mem) if loc.startswith('o:st:') for k in (100, 101, 102, 103))
    def strlen(self, st, p):
        if p.obj != self.src: return None
        out = []; n = Lin.sym('n')
        for s, r in self.search(st, p, n, Lin(0), cs("\0"), 'strlen'):
            if r != NPOS: out.append((s, r)); continue
            if s.consistent(): self.bad(s, f"{self.key}.bounds", H, "strlen of a text that is not terminated reads past its end")
        return out
    def load(self, eng, st, i, p):
        if p.obj == self.src and eng.record and st.consistent():
            n = Lin.sym('n')
            if not (st.le(p.off - n + 1) and st.le(-p.off)):
                t = st.copy()
                if not st.le(n - p.off) and not st.le(p.off + 1): self.rep.unk(f"{self.key}.bounds", i.where(), f"position {p.off} not shown to lie inside the text")
                else: self.bad(st, f"{self.key}.bounds", i.where(), f"position {p.off} outside the text of length n is read")
        return super().load(eng, st, i, p)
    def append_to(self, st, old, c):
        old = cnorm(st, old)
        if old == (): k, pend = Lin(0), ()
        elif old[0][:2] == ('app', 'acc'): k, pend = old[0][2], old[1:]
        else: return old + c
        pend = cnorm(st, pend + c)
        while pend:
            r = self.take(st, k, pend)
            if r is None: break
            k, pend = st.canon(k + r[0]), pend[r[1]:]
        return (('app', 'acc', k),) + pend
    def value_eq(self, st, leaves, pend, want):
        """prefix of pend equal, for every value of the leaves, to want(values); -> number of segments"""
        doms = [list(st.leaf[l].values()) for l in leaves]; n = 1
        for d in doms: n *= len(d)
        if not n or n > 5000: return None
        ls = set(leaves)
        for j in range(1, len(pend) + 1):
            if any(not set(x.lv) <= ls for s in pend[:j] for x in s if isinstance(x, Ex)): return None
            good = True
            for combo in itertools.product(*doms):
                m = dict(zip(leaves, combo)); t = b''
                for s in pend[:j]:
                    b = seg_bytes(s, m)
                    if b is None: return None
                    t += b
                if t != want(*combo): good = False; break
            if good: return j
        return None
    def ret(self, eng, st, i, val):
        if not st.consistent(): return
        self.eng = eng; self.rets += 1; n = Lin.sym('n')
        c = cnorm(st, self.sget(st, Ptr('o:out'))); k = f"{self.key}.result"
        if any(x[0] == '?' for x in c): self.rep.unk(k, H, "the result is computed in a way the analysis cannot express"); return
        for s, empty in self.le_split(st, n):
            good = c == () and empty or bool(c) and c[0][:2] == ('app', 'acc') and len(c) == 1 and s.eq(c[0][2], n) or c == (('sub', self.src, Lin(0), n),) and self.identity(s)
            self.req(s, good, k, i.where(), self.what + ("" if good else f"; found {c} with n={s.canon(n)}"))
    def identity(self, s): return False
    def backedge(self, eng, st, h):
        for loc in st.mem:
            c = st.mem[loc].get(0.25)
            if c and isinstance(c[1], tuple) and c[1][:1] == (('app', 'acc', 'cell'),) and len(c[1]) > 1 and st.consistent():
                if any(x[0] in ('?', 'sub') for x in c[1]): continue
                kk = st.mem[loc].get(200)
                if kk is not None and self.prefix(st, kk[1], c[1][1:]): continue
                if kk is None or not self.differs(st.copy(), kk[1], c[1][1:]): self.rep.unk(f"{self.key}.piece", eng.fn.dname, f"output {c[1][1:]} not related to the input"); continue
                self.bad(st, f"{self.key}.piece", eng.fn.dname, f"output {c[1][1:]} is not what the character at {kk[1] if kk else '?'} maps to")
        st.ts = self.flags(st)
        return st
    def prefix(self, st, k, pend): return False
    def differs(self, st, k, pend):
        """some assignment of the characters makes the pending output differ from the specified one"""
        if not st.assume_le(k - Lin.sym('n') + 1) or not st.consistent(): return False
        sp = self.spec(st, k)
        if sp is None: return False
        leaves = list(sp[0])
        for s in pend:
            for x in s:
                if isinstance(x, Ex): leaves += [l for l in x.lv if l not in leaves]
        doms = [list(st.leaf[l].values()) if l in st.leaf else None for l in leaves]
        if None in doms or len(leaves) > 4: return False
        while math.prod(map(len, doms)) > 20000:
            m = max(range(len(doms)), key=lambda j: len(doms[j])); doms[m] = doms[m][::2]
        for combo in itertools.product(*doms):
            m = dict(zip(leaves, combo)); t = b''
            for s in pend:
                b = seg_bytes(s, m)
                if b is None: return False
                t += b
            w = sp[1](*combo[:len(sp[0])])
            if not t.startswith(w) and not w.startswith(t): return True
        return False
HEXU = b"0123456789ABCDEF"; HEXD = cs("0123456789abcdefABCDEF")
class Encode(Codec):
    what = "the result is the input with every unreserved character kept and every other byte replaced by '%' and two upper-case hexadecimal digits"
    def enc(self, v): return bytes([v]) if v in UNRES else b"%" + HEXU[v >> 4:(v >> 4) + 1] + HEXU[v & 15:(v & 15) + 1]
    def take(self, st, k, pend):
        n = Lin.sym('n')
        if pend[0][0] == 'sub':
            x = pend[0]
            if x[1] == self.src and st.eq(x[2], k) and st.le(k + x[3] - n) and st.excludes(self.src, k, k + x[3], UNRES.compl()): return x[3], 1
            return None
        if not st.le(k - n + 1): return None
        lf = st.byte_leaf(self.src, k); j = self.value_eq(st, [lf], pend, self.enc)
        return (Lin(1), j) if j else None
    def identity(self, s): return s.excludes(self.src, Lin(0), Lin.sym('n'), UNRES.compl())
    def spec(self, st, k): return ([st.byte_leaf(self.src, k)], self.enc) if st.le(k - Lin.sym('n') + 1) else None
    def prefix(self, st, k, pend):
        S = st.leaf[st.byte_leaf(self.src, k)]
        return S.disjoint(UNRES) and pend[0][0] == 'lit' and pend[0][1] == b'%' and len(pend) <= 2 and self.value_eq(st, [st.byte_leaf(self.src, k)], pend, lambda v: self.enc(v)[:len(pend)]) is not None
    def throw(self, eng, st, i, name):
        if st.consistent() and '__clang_call_terminate' not in name: self.bad(st, f"{self.key}.safe", i.where(), f"{name} is reachable")
class Decode(Codec):
    what = "the result is the input with every '%XX' replaced by the byte it denotes and every other character kept"
    def well(self, st, k):
        """is there a well-formed escape at k (True / False / None)"""
        n = Lin.sym('n')
        if st.le(n - k - 2): return False
        a, b = (st.leaf.get(Ex('leaf', 8, ('b', self.src, st.canon(k + j)))) for j in (1, 2))
        if a is None: a = st.leaf[st.byte_leaf(self.src, k + 1)]
        if b is None: b = st.leaf[st.byte_leaf(self.src, k + 2)]
        if a.disjoint(HEXD) or b.disjoint(HEXD): return False
        if st.le(k + 3 - n) and a.subset(HEXD) and b.subset(HEXD): return True
        return None
    def take(self, st, k, pend):
        n = Lin.sym('n'); src = self.src
        if pend[0][0] == 'sub':
            x = pend[0]
            if x[1] == src and st.eq(x[2], k) and st.le(k + x[3] - n) and st.excludes(src, k, k + x[3], cs("%")): return x[3], 1
            if not (x[1] == src and st.eq(x[2], k) and st.eq(x[3], Lin(1))): return None
            pend = (('chr', st.byte_leaf(src, k)),) + pend[1:]
        if not st.le(k - n + 1): return None
        l0 = st.byte_leaf(src, k); S = st.leaf[l0]
        if S.disjoint(cs("%")):
            j = self.value_eq(st, [l0], pend, lambda v: bytes([v])); return (Lin(1), j) if j else None
        if S.subset(cs("%")):
            w = self.well(st, k)
            if w is True:
                ls = [st.byte_leaf(src, k + 1), st.byte_leaf(src, k + 2)]
                j = self.value_eq(st, ls, pend, lambda a, b: bytes([int(chr(a) + chr(b), 16)])); return (Lin(3), j) if j else None
            if w is False and not self.strict:
                j = self.value_eq(st, [l0], pend, lambda v: b'%'); return (Lin(1), j) if j else None
        return None
    def identity(self, s): return s.excludes(self.src, Lin(0), Lin.sym('n'), cs("%"))
    def spec(self, st, k):
        if not st.le(k - Lin.sym('n') + 1): return None
        l0 = st.byte_leaf(self.src, k); S = st.leaf[l0]
        if S.disjoint(cs("%")): return [l0], lambda v: bytes([v])
        if not S.subset(cs("%")): return None
        w = self.well(st, k)
        if w is True: return [st.byte_leaf(self.src, k + 1), st.byte_leaf(self.src, k + 2)], lambda a, b: bytes([int(chr(a) + chr(b), 16)])
        if w is False and not self.strict: return [l0], lambda v: b'%'
        return None
    def throw(self, eng, st, i, name):
        if not st.consistent() or '__clang_call_terminate' in name: return
        self.eng = eng
        if name == '__cxa_throw' and self.strict:
            bad = False; n = Lin.sym('n')
            for e, S in list(st.leaf.items()):
                if e.a[0][0] == 'b' and e.a[0][1] == self.src and S.subset(cs("%")) and S and st.le(e.a[0][2] - n + 1) and self.well(st, e.a[0][2]) is False: bad = True
            self.req(st, bad, f"{self.key}.reject", i.where(), "an exception is only thrown for a '%' not followed by two hexadecimal digits")
            return
        self.bad(st, f"{self.key}.safe", i.where(), f"{name} is reachable: a position outside the text is accessed or a well-formed text is refused")

def decide(rep, fn, mk, init, budget, key, post=None, unroll=4):
    """first pass: proof by fixpoint; if something stays open, second pass: exact states of the first loop iterations, whose
    violations are reported"""
    rep.fn(fn); opened = 0
    for unroll in (0, unroll):
        before = {k for k, o in rep.obl.items() if o['status'] != 'proved'}
        m = mk(); m.unroll = unroll
        try: e = Interp(fn, m, budget); e.run(init())
        except Budget as b: rep.unk(f"{key}.budget", H, str(b))
        else:
            if not unroll:
                rep.sites += m.rets; rep.stats[f"{key}.steps"] = e.steps; rep.stats[f"{key}.return states"] = m.rets
                if not m.rets: rep.unk(f"{key}.returns", H, "no returning path")
                if post: post(m, e)
        if not [k for k, o in rep.obl.items() if o['status'] != 'proved' and k.startswith(key)]: return
def run_codec(rep, entries):
    u = unit()
    def one(rep, fname, key, cls, strict):
        fn = u.fn(fname)
        def mk():
            m = cls(rep, key, strict); m.max_states = 2000; m.soft_states = 200; return m
        def start():
            st = State(); st.z.add('0', 'n', 0); st.z.add('n', '0', BIG)
            st.env[fn.args[0].ref] = Ptr('o:out'); st.env[fn.args[1].ref] = Ptr('o:arg')
            st.mem['o:arg'] = {0: (8, Lin.sym('n')), 8: (8, Ptr('o:src'))}
            return st
        decide(rep, fn, mk, start, 200000, key)
    par(rep, [lambda r, e=e: one(r, *e) for e in entries])
def run_encode(rep): run_codec(rep, [("vf_encode", "encode", Encode, False)])
def run_decode(rep): run_codec(rep, [("vf_decode_s", "decode<STRICT>", Decode, True), ("vf_decode_r", "decode<RELAXED>", Decode, False)])

def init(fn):
    st = State(); st.z.add('0', 'n', 0); st.z.add('n', '0', BIG)
    st.env[fn.args[0].ref] = Ptr('o:arg'); st.mem['o:arg'] = {0: (8, Ptr('o:src')), 8: (8, Lin.sym('n'))}
    return st

def run_parse(rep, what):
    u = unit()
    def one(rep, fname, key, strict):
        fn = u.fn(fname)
        def mk():
            m = Parse(rep, key, strict, what); m.max_states = 4000; m.soft_states = 1000; return m
        def post(m, e):
            if what == 'safe': rep.ok(f"{key}.safe", H, f"no out-of-range access, failed assertion or foreign exception reachable in {e.steps} abstract steps")
            if what == 'alphabet': rep.ok(f"{key}.reject", H)
        decide(rep, fn, mk, lambda: init(fn), 400000, key, post)
    par(rep, [lambda r, e=e: one(r, *e) for e in (("vf_parse_s", "URI<STRICT>", True), ("vf_parse_r", "URI<RELAXED>", False))])
def run_auth(rep):
    u = unit()
    def one(rep, fname, key, strict):
        fn = u.fn(fname)
        def mk():
            m = Auth(rep, key, strict); m.max_states = 4000; m.soft_states = 1000; return m
        def start():
            st = init(fn); st.assume_le(Lin(4) - Lin.sym('n'))
            for k, c in ((0, cs(AL)), (1, cs(":")), (2, cs("/")), (3, cs("/"))): st.leaf[st.byte_leaf('o:src', Lin(k))] = c
            st.region('o:src', Lin(4), Lin.sym('n'), cs("/?#").compl())          # the authority extends to the end of the text
            return st
        decide(rep, fn, mk, start, 600000, key)
    par(rep, [lambda r, e=e: one(r, *e) for e in (("vf_auth_s", "URI<STRICT>", True), ("vf_auth_r", "URI<RELAXED>", False), ("vf_auth2_s", "URI<STRICT>.reordered", True), ("vf_auth2_r", "URI<RELAXED>.reordered", False))])
def run_split(rep): run_parse(rep, 'split')
def run_safe(rep): run_parse(rep, 'safe')
def run_alphabet(rep): run_parse(rep, 'alphabet')
