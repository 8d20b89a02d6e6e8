"""URI::queryParamMap: the map is exactly the decoded parameters of the query, in every call."""
from uri import *
from urimemb import Memb, shape
from rel import _fresh

QCH = cs(AN + "-._~&;=%:/")
SEP = cs("&;"); KEYEND = cs("=&;")
class Query(Memb):
    """ghost of a map: cell 200 = position k such that the map holds exactly the parameters found in front of k,
    201 = is it non-empty, 202 = the text it was read from"""
    follow_unwind = True
    def __init__(self, rep, key, strict, exp, throwing=False):
        super().__init__(rep, key, strict, exp); self.throwing = throwing
    def unwinds(self, eng, st, i):
        n = eng.cname(i)
        if n in ('__cxa_rethrow', '__cxa_throw'): return True
        return self.throwing and 'decode' in n and self.strict
    # ------------------------------------------------------------------ maps
    def mloc(self, p): return f"o:map:{p.obj}+{p.off.c}" if isinstance(p, Ptr) and p.off.is_const else None
    def tag(self, st, m): return dict(st.ts or ()).get(m)                # (text it was read from, empty?)
    def settag(self, st, m, v):
        d = dict(st.ts or ())
        if v is None: d.pop(m, None)
        else: d[m] = v
        st.ts = tuple(sorted(d.items()))
    def mset(self, st, m, k, tag):
        if k is None: st.mem.pop(m, None); self.settag(st, m, None)
        else: st.mem[m] = {200: (8, k)}; self.settag(st, m, tag)
    def mget(self, st, m):
        c = st.mem.get(m, {}).get(200)
        return (c[1], self.tag(st, m)) if c and self.tag(st, m) else (None, None)
    def mnew(self, st, m): self.mset(st, m, Lin(1), ('none', True))
    def mcopy(self, st, d, s): self.mset(st, d, *self.mget(st, s))
    def map_call(self, st, i, name, args):
        f = name.rsplit('::', 1)[1]; eng = self.eng; d = demangle(eng.cname(i)); ps = params(d)
        this = args[1] if i.sret else args[0]; m = self.mloc(this)
        if m is None: return None
        if f in ('unordered_map', 'map'):
            if not ps: self.mnew(st, m); return [(st, None)]
            o = self.mloc(args[1])
            if 'unordered_map<' in ps[0] and o:
                self.mcopy(st, m, o)
                if ps[0].endswith('&&'): self.mnew(st, o)
                return [(st, None)]
            return None
        if f.startswith('~'): self.mset(st, m, None, None); return [(st, None)]
        if m not in st.mem: return None
        if f == 'clear': self.mnew(st, m); return [(st, None)]
        if f == 'operator=' and ps and 'unordered_map<' in ps[0]:
            o = self.mloc(args[1])
            if not o: return None
            if o != m:
                self.mcopy(st, m, o)
                if ps[0].endswith('&&'): self.mnew(st, o)
            return [(st, this)]
        if f == 'swap' and len(args) == 2:
            self.mswap(st, args[0], args[1]); return [(st, None)]
        if f == 'empty': return [(st, ec(1, int(self.tag(st, m)[1])))] if self.tag(st, m) else None
        if f == 'size': return [(st, Lin(0) if self.tag(st, m)[1] else st.newsym('size', 1, BIG))] if self.tag(st, m) else None
        if f in ('reserve', 'rehash', 'max_load_factor', 'begin', 'end', 'cbegin', 'cend'): return None
        if f == 'operator[]':
            key = self.sget(st, args[1])
            v = f"o:val:{m}:{i.ref}"; st.mem[v] = {200: (1, ec(8, 0)), 300: (1, ('key', key)), 301: (1, m)}
            st.mem[v].pop(200); return [(st, Ptr(v))]
        if f in ('insert_or_assign', 'emplace', 'try_emplace', 'insert'):
            out = []
            if len(ps) == 2 and 'basic_string<' in ps[0] and '__detail' not in ps[0]:
                key = self.sget(st, args[-2]); v = self.val_arg(st, ps[1], args[-1])
                res = self.event(st, i, m, key, v, f != 'insert_or_assign')
                return [(t, eng.fresh(t, i.ty, f) if i.ty.kind in ('int', 'ptr') else None) for t in res]
            if st.taint is None: st.taint = f'{f} not modelled'
            st.mem.pop(m, None); return None
        if f in ('find', 'contains', 'count', 'at'): return None
        return None
    def mswap(self, st, a, b):
        x, y = self.mloc(a), self.mloc(b)
        if x and y:
            cx, cy = self.mget(st, x), self.mget(st, y)
            self.mset(st, x, *cy); self.mset(st, y, *cx)
    def val_arg(self, st, p, v):
        """('none',) | ('some', content) | None"""
        if 'nullopt' in p: return ('none',)
        if 'optional<' in p: return self.getopt(st, v)
        if 'basic_string<' in p: return ('some', self.sget(st, v))
        return None
    # ------------------------------------------------------------------ specification
    def event(self, st, i, m, key, val, first):
        """a parameter (key, value) is stored: compare with the next one of the query; -> states"""
        k, tag = self.mget(st, m); where = i.where(); k0 = f"{self.key}.param"
        if k is None: self.rep.unk(k0, where, "map in an unknown state"); return []
        srcs = [(s, n) for s, n, _ in self.exp if tag[0] in ('none', s)]
        objs = {x[1] for seg in (key, val[1] if val and val[0] == 'some' else ()) for y in seg for x in (y[2] if y[:2] == ('app', 'decode') else (y,)) if x[0] == 'sub'}
        hit = [x for x in srcs if x[0] in objs] or srcs
        src, n = hit[0]; out = []
        self.src = src
        todo = [(st, k, 0)]
        while todo:
            s, k, skipped = todo.pop()
            for s0, over in self.le_split(s, n - k):
                if over:
                    if s0.consistent(): self.bad(s0, k0, where, f"a parameter is stored although the query has been read to its end (key {cnorm(s0, key)})")
                    continue
                for s1, ke in self.firsts(s0, k, n, KEYEND):
                    for s2, end in self.le_split(s1, n - ke):
                        if end: self.compare(s2, out, todo, where, m, key, val, src, (k, n), None, n, n + 1, skipped, first); continue
                        for s3, eq in self.bytes_split(s2, ke, cs("=")):
                            if not eq: self.compare(s3, out, todo, where, m, key, val, src, (k, ke), None, n, ke + 1, skipped, first); continue
                            for s4, ve in self.firsts(s3, ke + 1, n, SEP):
                                for s5, vend in self.le_split(s4, n - ve):
                                    self.compare(s5, out, todo, where, m, key, val, src, (k, ke), (ke + 1, n if vend else ve), n, n + 1 if vend else ve + 1, skipped, first)
        return out
    def dec(self, st, c, src, a, b):
        c = cnorm(st, c)
        if c == (): return st.le(b - a)
        if any(x[0] == '?' for x in c): return None
        return ceq(st, c, (('app', 'decode', cnorm(st, (('sub', src, a, b - a),))),))
    def compare(self, s, out, todo, where, m, key, val, src, kr, vr, n, nxt, skipped, first):
        if not s.consistent(): return
        k0 = f"{self.key}.param"; a, b = kr
        ok = self.dec(s, key, src, a, b)
        if ok is False and vr is None and s.le(b - a) and skipped < 3: todo.append((s, nxt, skipped + 1)); return      # empty part skipped
        if ok is None or val is None: self.rep.unk(k0, where, "stored value cannot be expressed"); return
        if ok is False: self.bad(s, k0, where, f"the key stored is {cnorm(s, key)}, the next key of the query is its text [{s.canon(a)},{s.canon(b)}) decoded"); return
        if vr is None: good = val[0] == 'none'
        elif val[0] == 'none': good = s.le(vr[1] - vr[0])
        else: good = self.dec(s, val[1], src, *vr)
        if good is None: self.rep.unk(k0, where, "stored value cannot be expressed"); return
        if not good: self.bad(s, k0, where, f"the value stored is {val}, the query has " + (f"no value for this key" if vr is None else f"the value text [{s.canon(vr[0])},{s.canon(vr[1])})")); return
        if first and not s.eq(a, Lin(1)):
            if s.le(Lin(2) - a): self.bad(s, k0, where, "a key that occurs again keeps its first value"); return
            self.rep.unk(k0, where, "may keep the first value of a repeated key"); return
        self.rep.ok(k0, where, "each stored (key, value) is the next decoded parameter of the query")
        self.mset(s, m, s.canon(nxt), (src, False))
        out.append(s)
    # ------------------------------------------------------------------ hooks
    def client(self, eng, st, i, name, args):
        self.eng = eng
        if name.startswith('std::unordered_map::'):
            r = self.map_call(st, i, name, args)
            if r is None:
                if st.taint is None: st.taint = f"{name} not modelled"
            return r
        if name == 'std::swap' and 'unordered_map' in demangle(eng.cname(i)): self.mswap(st, args[0], args[1]); return [(st, None)]
        if 'URI::decode' in name and i.sret and isinstance(args[0], Ptr):
            c = cnorm(st, self.svget(st, args[1])); n = clen(st, c)
            if n is None: self.setstr(st, args[0], (('app', 'decode', c),)); return [(st, None)]
            out = []
            for t, e in self.le_split(st, n):                     # the decoded text is empty iff the text is
                self.setstr(t, args[0], () if e else (('app', 'decode', cnorm(t, c)),))
                if not e:
                    l = self.sptrlen(t, args[0])[1]
                    if isinstance(l, Lin): t.assume_le(Lin(1) - l)
                out.append((t, None))
            return out
        if name.startswith(('std::optional::', 'std::_Optional_')) and isinstance(args[0], Ptr) and args[0].obj.startswith('o:val:'):
            v = args[0].obj; c = st.mem.get(v)
            if not c or 301 not in c: return None
            r = self.opt_call(st, i, name, args)
            if r is None: return None
            out = []
            for t, x in r:
                val = self.getopt(t, args[0]); mm = t.mem.pop(v)
                out += [(z, x) for z in self.event(t, i, mm[301][1], mm[300][1][1], val, False)]
            return out
        if name == 'vf_obs_map':
            self.observed(st, i, args[0]); return [(st, None)]
        if name == 'vf_mark': return [(st, None)]
        if name == '__cxa_begin_catch': return [(st, args[0])]
        if name in ('__cxa_end_catch', '__cxa_free_exception'): return [(st, None)]
        return super().client(eng, st, i, name, args)
    def observed(self, st, i, p):
        if not st.consistent() or not self.eng.record: return
        m = self.mloc(p); k, tag = self.mget(st, m); k0 = f"{self.key}.complete"; src, n, comp = self.exp[0]
        self.src = src; self.rets += 1
        if k is None: self.rep.unk(k0, H, "map in an unknown state"); return
        q = comp[3]
        for s, z in ((st, tag[1]),):
            if not s.consistent(): continue
            for s1, noq in self.le_split(s, q[1] - q[0]):
                if noq: self.req(s1, z, k0, i.where(), "a text without query has no parameters")
                elif z: self.bad(s1, k0, i.where(), "no parameter is returned for a non-empty query")
                elif tag[0] != src: self.bad(s1, k0, i.where(), "the parameters returned are those of another text")
                else:
                    good = s1.le(q[1] - k)
                    if not good:                                  # only empty parts left
                        good = s1.excludes(src, k, q[1], SEP.compl())
                    self.req(s1, good, k0, i.where(), "all parameters of the query are in the returned map" + ("" if good else f": read up to {s1.canon(k)} of {s1.canon(q[1])}"))
                if self.strict and True: 
                    ok = s1.excludes(src, q[0], q[1], QCH.compl())
                    self.req(s1, ok, f"{self.key}.accept", i.where(), "an accepted query consists of permitted characters only")
    def ret(self, eng, st, i, val): pass
    def throw(self, eng, st, i, name):
        if not st.consistent() or '__clang_call_terminate' in name or name == '__cxa_rethrow': return
        self.eng = eng
        if name == '__cxa_throw':
            if not self.strict: self.bad(st, f"{self.key}.reject", i.where(), "a RELAXED query is never rejected"); return
            src, n, comp = self.exp[0]; q = comp[3]
            bad = [(e.a[0][2], S) for e, S in st.leaf.items() if e.a[0][0] == 'b' and e.a[0][1] == src]
            ok = any(S.disjoint(QCH) and st.le(q[0] - x) and st.le(x - q[1] + 1) for x, S in bad)
            self.req(st, ok, f"{self.key}.reject", i.where(), "a query is only rejected because of a character that is not permitted"); return
        self.bad(st, f"{self.key}.safe", i.where(), f"{name} is reachable")

def run(rep):
    u = unit("uriquery.cpp", extra_opaque=[r"URI::decode\b"]); jobs = []
    def one(rep, fname, key, strict, kinds, throwing=False):
        fn = u.fn(fname); exp = []
        def mk():
            m = Query(rep, key, strict, exp, throwing); m.max_states = 1500; m.soft_states = 300; m.seconds = 120; return m
        def start():
            st = State(); del exp[:]
            for k, kind in enumerate(kinds):
                p, src = (('s', 'o:src'), ('t', 'o:src2'))[k]; nm = p + 'n'; n = Lin.sym(nm); Z = Lin(0)
                st.z.add('0', nm, 0); st.z.add(nm, '0', BIG)
                comp = {j: (Z, Z) for j in range(9)}
                st.assume_le(Lin(1) - n if kind in 'Q' else Lin(2) - n)
                if kind == 'B': st.leaf[st.byte_leaf(src, Z)] = cs("/"); st.region(src, Lin(1), n, cs(AL)); comp[2] = (Z, n)
                else:
                    st.leaf[st.byte_leaf(src, Z)] = cs("?"); comp[3] = (Lin(1), n)
                    st.region(src, Lin(1), n, cs("#").compl() if kind == 'Q' and not strict else URISET.inter(cs("#").compl()) if kind == 'Q' else cs(AL))
                exp.append((src, n, comp))
                st.env[fn.args[k].ref] = Ptr(f'o:arg{k}'); st.mem[f'o:arg{k}'] = {0: (8, Ptr(src)), 8: (8, n)}
            return st
        decide(rep, fn, mk, start, 200000, key, unroll=2)
    for pol, strict in (('s', True), ('r', False)):
        N = f"URI<{'STRICT' if strict else 'RELAXED'}>"
        jobs.append(lambda r, a=(f"vf_query_{pol}", f"{N}.query", strict, 'Q'): one(r, *a))
        jobs.append(lambda r, a=(f"vf_query2_{pol}", f"{N}.repeated", strict, 'Q', True): one(r, *a))
        for d, t in (('c', 'copied'), ('m', 'moved')):
            for kinds in ('KK', 'BK', 'KB'):
                jobs.append(lambda r, a=(f"vf_query{d}_{pol}", f"{N}.{t}.{kinds}", strict, kinds): one(r, *a))
    par(rep, jobs)
