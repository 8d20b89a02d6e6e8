"""URI special members: copies, moved-to, moved-from and self-assigned objects describe their own text."""
from uri import *
from rel import _fresh

DELIM = cs(":/?#@")
class Memb(UriModel):
    addresses_free = True
    """text(s) of a known shape; expected components by construction"""
    def __init__(self, rep, key, strict, exp):
        super().__init__(rep, key, strict); self.exp = exp; self.checked = 0
    def loc(self, st, p, content=None):
        n = clen(st, content) if content is not None else None
        if n is not None and st.le(n - 15): return f"o:L{p.obj}+{p.off.c}"       # small strings live inside the string object
        return f"o:s{next(_fresh)}"
    def setstr(self, st, p, content, loc=None, keep=False):
        if loc is None and isinstance(p, Ptr) and p.off.is_const: loc = self.loc(st, p, cnorm(st, content))
        return super().setstr(st, p, content, loc, keep)
    def reassign(self, st, p, c):
        d, n = self.sptrlen(st, p)
        self.kill(st, p); self.setstr(st, p, c)
    def move_str(self, st, dst, src, c, ret=None):
        if dst == src: return [(st, ret)]
        d, n = self.sptrlen(st, src)
        if ret is not None: self.kill(st, dst)
        if isinstance(d, Ptr) and d.obj.startswith('o:s') and d.off == Lin(0):       # buffer handed over
            st.store(dst, 8, d); st.store(Ptr(dst.obj, dst.off + 8), 8, n)
        else: self.setstr(st, dst, c)
        self.setstr(st, src, ())
        return [(st, ret)]
    def swap(self, st, a, b):
        if a == b: return [(st, None)]
        (da, na), (db, nb) = self.sptrlen(st, a), self.sptrlen(st, b)
        ca, cb = self.sget(st, a), self.sget(st, b)
        for p, d, n, c in ((a, db, nb, cb), (b, da, na, ca)):
            if isinstance(d, Ptr) and d.obj.startswith('o:s'): st.store(p, 8, d); st.store(Ptr(p.obj, p.off + 8), 8, n)
            else: self.setstr(st, p, c)
        return [(st, None)]
    def str_call(self, st, i, name, args):
        f = name.rsplit('::', 1)[1]
        if f in ('operator=', 'assign', 'swap') and len(args) == 2 and args[0] == args[1]: return [(st, args[0])]
        return super().str_call(st, i, name, args)
    def search(self, st, base, n, pos, S, key, last=False):
        if not last and isinstance(pos, Lin):
            b = self.rptr(st, base); o = b.off
            if b.obj in ('o:src', 'o:src2'):
                if st.excludes(b.obj, o + pos, o + n, S): return [(st, NPOS)]
                for e, V in st.leaf.items():
                    if e.a[0][0] == 'b' and e.a[0][1] == b.obj and V and V.subset(S):
                        x = e.a[0][2] - o
                        if st.le(pos - x) and st.le(x - n + 1) and st.excludes(b.obj, o + pos, o + x, S): return [(st, x)]
        return super().search(st, base, n, pos, S, key, last)
    def client(self, eng, st, i, name, args):
        if name == 'vf_same': return [(st, args[0])]
        if name.startswith(('std::unordered_map::', 'std::_Hashtable::')) or name == 'std::swap' and 'unordered_map' in demangle(eng.cname(i)):
            if name.endswith(('operator=', 'clear', 'swap', '~unordered_map', '::unordered_map')): return [(st, args[0] if i.ty.kind == 'ptr' else None)]
        if name == 'operator delete': return [(st, None)]
        if name == 'vf_obs' and isinstance(args[1], Ptr): 
            w = args[0]; w = w.c if isinstance(w, Lin) else w.a[0]
            st.mem.setdefault('o:vfobs', {})[w] = (1, self.getopt(st, args[1])); return [(st, None)]
        return super().client(eng, st, i, name, args)
    def ret(self, eng, st, i, val):
        if not st.consistent(): return
        self.eng = eng; self.rets += 1
        c = self.obs(st, 100); c = cnorm(st, c) if c is not None else None; k = f"{self.key}.str"
        exp = None
        for src, n, comp in self.exp:
            if c is not None and ceq(st, c, (('sub', src, Lin(0), n),)): exp = (src, n, comp)
        if exp is None and c == () and 'moved-from' in self.key: exp = ('o:src', Lin(0), {k: (Lin(0), Lin(0)) for k in range(9)})
        if exp is None:
            if c is None or any(x[0] == '?' for x in c): self.rep.unk(k, H, "str() returns a value the analysis cannot express")
            else: self.bad(st, k, H, f"str() is {c}, not the text of the URI that was copied or moved here")
            return
        if exp[0] != self.exp[0][0] and 'moved-from' not in self.key: self.bad(st, k, H, f"str() is still the old text of the target"); return
        self.rep.ok(k, H, "str() is the text of the URI that was copied or moved here")
        src, n, comp = exp; self.src = src
        for w in range(8):
            o = self.obs(st, w); a, b = comp[w]; m = self.match(st, o, a, b); k = f"{self.key}.{NAMES[w]}"
            if m is None: self.rep.unk(k, H, f"{NAMES[w]}() returns a value the analysis cannot express")
            else: self.req(st, m, k, H, f"{NAMES[w]}() is its part of the object's own text" + ("" if m else f"; found {o}, expected the characters [{a},{b}) of {src}"))
        o = self.obs(st, 8); k = f"{self.key}.port"; a, b = comp[8]; text = (('sub', src, a, b - a),)
        nums = [(kk[1], kk[2], r) for kk, r in st.rel if isinstance(kk, tuple) and kk[0] == 'num' and ceq(st, kk[2], text)]
        if o is None: self.rep.unk(k, H, "port() returns a value the analysis cannot express")
        elif o[0] == 'none': self.req(st, st.le(b - a) or any(x[0] != 'all' for x in nums), k, H, "port() is absent only without (valid) port text")
        else: self.req(st, any(x[0] == 'all' and isinstance(o[1], Lin) and st.eq(o[1], x[2]) for x in nums), k, H, "port() is the number of the object's own port text")
    def throw(self, eng, st, i, name):
        if not st.consistent() or name == '__cxa_throw' or '__clang_call_terminate' in name: return
        self.bad(st, f"{self.key}.safe", i.where(), f"{name} is reachable")

def shape(st, kind, src, p, small):
    """constrain the text of object src (length symbol p+'n'); -> (n, components)"""
    n = Lin.sym(p + 'n'); Z = Lin(0)
    def pos(x, after, gap=2):
        s = Lin.sym(p + x); st.z.s.add(p + x); st.assume_le(after + gap - s); return s
    def put(off, c): st.leaf[st.byte_leaf(src, off)] = cs(c)
    plain = cs(AL + DG)
    if kind == 'A' and small:                                    # x://U:W@H:P/?Q
        put(Z, "x"); put(Lin(1), ":"); put(Lin(2), "/"); put(Lin(3), "/")
        c1 = pos('c1', Lin(3)); at = pos('at', c1); c2 = pos('c2', at); sl = pos('sl', c2); q = pos('q', sl, 1)
        st.assume_le(q + 2 - n)
        for x, ch in ((c1, ":"), (at, "@"), (c2, ":"), (sl, "/"), (q, "?")): put(x, ch)
        for a, b in ((Lin(4), c1), (c1 + 1, at), (at + 1, c2), (c2 + 1, sl), (sl + 1, q), (q + 1, n)): st.region(src, a, b, plain)
        comp = {0: (Z, Lin(1)), 1: (Lin(4), sl), 2: (sl, q), 3: (q + 1, n), 4: (n, n), 5: (Lin(4), c1), 6: (c1 + 1, at), 7: (at + 1, c2), 8: (c2 + 1, sl)}
    elif kind == 'C':                                            # x:/P?Q#F
        put(Z, "x"); put(Lin(1), ":"); put(Lin(2), "/"); q = pos('q', Lin(2)); f = pos('f', q); st.assume_le(f + 2 - n)
        put(q, "?"); put(f, "#")
        for a, b in ((Lin(3), q), (q + 1, f), (f + 1, n)): st.region(src, a, b, plain)
        comp = {k: (Z, Z) for k in range(9)}; comp.update({0: (Z, Lin(1)), 2: (Lin(2), q), 3: (q + 1, f), 4: (f + 1, n)})
    elif kind == 'A':                                            # x://U:W@H:P/P?Q#F
        put(Z, "x"); put(Lin(1), ":"); put(Lin(2), "/"); put(Lin(3), "/")
        c1 = pos('c1', Lin(3)); at = pos('at', c1); c2 = pos('c2', at); sl = pos('sl', c2); q = pos('q', sl); f = pos('f', q)
        st.assume_le(f + 2 - n)
        for x, ch in ((c1, ":"), (at, "@"), (c2, ":"), (sl, "/"), (q, "?"), (f, "#")): put(x, ch)
        for a, b in ((Lin(4), c1), (c1 + 1, at), (at + 1, c2), (c2 + 1, sl), (sl + 1, q), (q + 1, f), (f + 1, n)): st.region(src, a, b, plain)
        comp = {0: (Z, Lin(1)), 1: (Lin(4), sl), 2: (sl, q), 3: (q + 1, f), 4: (f + 1, n), 5: (Lin(4), c1), 6: (c1 + 1, at), 7: (at + 1, c2), 8: (c2 + 1, sl)}
    else:
        put(Z, "/"); st.assume_le(Lin(2) - n); st.region(src, Lin(1), n, plain)
        comp = {k: (Z, Z) for k in range(9)}; comp[2] = (Z, n)
    st.region(src, Z, n, URISET)
    for w, A in ((0, SCHEME), (1, AUTH), (2, PATH)): st.region(src, comp[w][0], comp[w][1], A)
    if small: st.assume_le(n - 15)
    else: st.assume_le(Lin(16) - n)
    return n, comp

def run(rep):
    u = unit("urimemb.cpp"); jobs = []
    names = {'cc': 'copy construction', 'ca': 'copy assignment', 'mc': 'move construction', 'ma': 'move assignment', 'mf': 'moved-from', 'sa': 'self assignment'}
    def one(rep, fname, key, strict, k1, s1, k2, s2):
        fn = u.fn(fname); exp = []
        def mk():
            m = Memb(rep, key, strict, exp); m.max_states = 300; m.soft_states = 60; m.seconds = 40; return m
        def start():
            st = State(); del exp[:]
            for k, (kind, small, p, src) in enumerate(((k1, s1, 's', 'o:src'), (k2, s2, 't', 'o:src2'))[:len(fn.args)]):
                nm = p + 'n'; st.z.add('0', nm, 0); st.z.add(nm, '0', BIG)
                n, comp = shape(st, kind, src, p, small); exp.append((src, n, comp))
                st.env[fn.args[k].ref] = Ptr(f'o:arg{k}'); st.mem[f'o:arg{k}'] = {0: (8, Ptr(src)), 8: (8, n)}
            return st
        decide(rep, fn, mk, start, 200000, key)
    for pol, strict in (('s', True), ('r', False)):
        for op, text in names.items():
            for t in ('', 't'):
                two = op in ('ca', 'ma', 'mf')
                for k1, s1 in (('A', 0), ('A', 1), ('B', 0), ('B', 1), ('C', 1)):
                    if 1:
                        for k2, s2 in ([('A', 0), ('A', 1), ('B', 1), ('C', 1)] if two else [('B', 0)]):
                            key = f"URI<{'STRICT' if strict else 'RELAXED'}>.{text}{'.parsed' if t else ''}.{k1}{'small' if s1 else 'large'}" + (f"-{k2}{'small' if s2 else 'large'}" if two else '')
                            jobs.append(lambda r, a=(f"vf_{op}{t}_{pol}", key, strict, k1, s1, k2, s2): one(r, *a))
    par(rep, jobs)
