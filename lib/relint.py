"""the interpreter on top of rel.State"""
from rel import *
from ir import Function, Value
import ctype_sets, time

PASS = ('llvm.lifetime', 'llvm.dbg', 'llvm.invariant', 'llvm.experimental.noalias', 'llvm.donothing', 'llvm.stack', 'llvm.prefetch')
CMPNEG = INV

class Model:
    """client hooks; every hook may be overridden"""
    follow_unwind = False
    quiet_unwind = False      # a call that throws has changed nothing the model tracks (the model accounts for it itself)
    accelerate = True
    seconds = 200             # time limit of one analysis
    def stop(self): return False
    scale = {}                # object -> element size, for arrays addressed by element index
    addresses_free = False    # the relative order of unrelated objects is up to the environment (not an over-approximation)
    paths = 4                 # loops decided by constants: how many paths are followed side by side
    finite = False            # loops: enumerate the states at the head instead of widening
    unroll = 0                # > 0: follow only so many iterations of a loop, without joining
    soft_states = 16          # up to this many states per block, byte facts are kept apart
    max_states = 400          # per block, beyond which states are thinned by joining (or Budget is raised)
    def call(self, eng, st, i, name, args): return None       # -> None | list of (state, result)
    def unwinds(self, eng, st, i): return True                # may this invoke unwind (with follow_unwind)
    def throw(self, eng, st, i, name): pass                   # reached a call that never returns normally
    def ret(self, eng, st, i, val): pass
    def resume(self, eng, st, i): pass
    def selector(self, eng, st, i): return Lin(1)             # at a landing pad: which clause caught the exception
    def typeid(self, eng, st, i, name): return None           # number of an exception type (default: unknown)
    def load(self, eng, st, i, p): return None                # value of an untracked cell
    def store(self, eng, st, i, p, v): pass
    def inst(self, eng, st, i): return None                   # -> None | list of states (instruction fully handled)
    def edge(self, eng, st, src, dst): return st
    def backedge(self, eng, st, hdr): return st
    truncated = False               # set if an unrolled loop was left before it ended
    def enter_loop(self, eng, st, hdr): return st

def loops_of(fn):
    """natural loops: header -> set of blocks"""
    dom = fn.doms(); loops = {}
    for b in dom:
        for s in b.succs:
            if s in dom[b]:
                body = loops.setdefault(s, {s}); st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x); st += [p for p in x.preds if p in dom]
    return loops

class Interp:
    def __init__(self, fn, model, budget=60000):
        self.fn = fn; self.model = model; self.mod = fn.mod
        self.loops = loops_of(fn)
        self.order = {b: n for n, b in enumerate(fn.rpo())}
        self.record = True
        self.steps = 0; self.budget = budget; self.t0 = time.time()
        self.reached = set()
        self.nstates = 0

    # ------------------------------------------------------------------ driver
    def run(self, st):
        back, exits = self.region(self.fn.entry, [st], None)
        return self

    def region(self, entry, states, hdr):
        """propagate through the (collapsed-acyclic) region; returns (back states, [(dst, state)])"""
        body = self.loops[hdr] if hdr is not None else None
        pend = {entry: list(states)}; back = []; exits = []
        def out(dst, st):
            if dst is hdr: back.append(st)
            elif body is not None and dst not in body: exits.append((dst, st))
            else: pend.setdefault(dst, []).append(st)
        first = True
        while pend:
            b = min(pend, key=lambda x: self.order[x])
            sts = pend.pop(b)
            sts = self.thin(b, sts)
            if b in self.loops and not (b is hdr and first):
                for dst, st in self.loop(b, sts): out(dst, st)
            else:
                for st in sts:
                    for dst, s2_ in self.flow(b, st): out(dst, s2_)
            first = False
        return back, exits

    def thin(self, b, sts):
        """merge states that agree on everything live; states differing only in byte facts stay apart while they are few"""
        if len(sts) <= 1: return sts
        for level in (0, 1):
            seen = {}; res = []
            for s in sts:
                key = (s.ts, frozenset((k, v) for k, v in self.live_env(b, s)), tuple(sorted(((o, tuple(sorted(c.items(), key=lambda z: str(z[0])))) for o, c in s.mem.items()), key=lambda z: str(z[0]))), s.reg)
                if level == 0: key = key + (frozenset(s.leaf.items()), s.eqs, s.extra)
                try: hash(key)
                except TypeError: res.append(s); continue
                o = seen.get(key)
                if o is None: seen[key] = s; res.append(s)
                else:
                    if level == 0 and o.z.d != s.z.d and not (o.z.entails(s.z) or s.z.entails(o.z)): res.append(s); continue
                    if o.taint is None: o.taint = s.taint
                    if level == 1 and o.taint is None and (o.z.d != s.z.d or o.leaf != s.leaf): o.taint = "states merged"
                    o.rel = tuple(x for x in o.rel if x in s.rel); o.neq = tuple(x for x in o.neq if x in s.neq)
                    o.z = o.z.join(s.z); o.extra = tuple(e for e in o.extra if s.le(e))
                    o.eqs = tuple(e for e in o.eqs if e in s.eqs or s.eq(e, Lin(0)))
                    o.defs = {k: v for k, v in o.defs.items() if s.defs.get(k) == v}
                    nl = {}
                    for e, S in o.leaf.items():
                        if e in s.leaf: nl[e] = S.union(s.leaf[e])
                    o.leaf = nl
            if level == 0 and len(res) > 1: res = self.unite(res, b)
            if len(res) <= self.model.soft_states: break
            sts = res
        if len(res) > self.model.max_states: raise Budget(f"{self.fn.dname}: {len(res)} partitions at {b}")
        return res

    def unite(self, sts, b):
        """exact: states that differ in the value set of a single byte are one state"""
        groups = {}
        for s in sts:
            key = (s.ts, frozenset((k, v) for k, v in self.live_env(b, s)), tuple(sorted(((o, tuple(sorted(c.items(), key=lambda z: str(z[0])))) for o, c in s.mem.items()), key=lambda z: str(z[0]))), s.reg, s.eqs, s.extra, s.rel, s.neq, s.taint, frozenset(s.z.d.items()), frozenset(s.leaf))
            try: groups.setdefault(key, []).append(s)
            except TypeError: groups[id(s)] = [s]
        out = []
        for g in groups.values():
            ch = len(g) > 1
            while ch:
                ch = False
                for x in range(len(g)):
                    for y in range(len(g) - 1, x, -1):
                        d = [e for e in g[x].leaf if g[x].leaf[e] != g[y].leaf[e]]
                        if len(d) > 1: continue
                        if d: g[x].leaf[d[0]] = g[x].leaf[d[0]].union(g[y].leaf[d[0]])
                        del g[y]; ch = True
            out += g
        return out

    def live_env(self, b, s):
        lv = self.live_in(b)
        return [(k, s.env[k]) for k in lv if k in s.env]

    def live_in(self, b):
        if not hasattr(self, '_live'):
            fn = self.fn; use = {}; de = {}
            for x in fn.blocks:
                u = set(); d = set()
                for i in x.insts:
                    if i.op != 'phi':
                        for o in i.ops:
                            if o.kind in ('inst', 'arg') and o.ref not in d: u.add(o.ref)
                    d.add(i.ref)
                use[x] = u; de[x] = d
            L = {x: set(use[x]) for x in fn.blocks}; ch = True
            while ch:
                ch = False
                for x in reversed(fn.blocks):
                    n = set(use[x])
                    o = set()
                    for s in x.succs:
                        o |= {r for r in L[s]}
                        for i in s.insts:
                            if i.op != 'phi': break
                            o.discard(i.ref)
                            for v, p in i.incoming:
                                if p is x and v.kind in ('inst', 'arg'): o.add(v.ref)
                    n |= o - de[x]
                    # phis of x itself count as live-in once set on the edge
                    for i in x.insts:
                        if i.op != 'phi': break
                        n.add(i.ref)
                    if n != L[x]: L[x] = n; ch = True
            self._live = L
        return self._live[b]

    # ------------------------------------------------------------------ loops
    def loop(self, h, sts):
        out = []
        for st in sts: out += self.loop1(h, st)
        return out

    def loop1(self, h, st0):
        phis = [i for i in h.insts if i.op == 'phi']
        varying = set(); regions = []; exv = {}; self._lineq = lineq = []
        rec = self.record
        st0 = self.model.enter_loop(self, st0.copy(), h)
        r = self.scan_loop(h, st0, phis) if self.scannable(h, phis) else None
        if r is not None: return r
        if self.model.unroll and self.idle(h, phis): return self.pass_idle(h, st0, phis)
        r = self.concrete(h, st0, phis)
        if r is not None: return r
        if self.model.finite: return self.finite(h, st0)
        if self.model.unroll: return self.unrolled(h, st0)
        for attempt in range(12):
            H = {}
            self._lineq = lineq
            first = self.canon_entry(h, st0.copy(), phis, varying, regions, exv)
            H[first.ts] = first
            restart = False
            stable = False
            for it in range(20):
                self.record = False
                newH = {k: v for k, v in H.items()}; changed = False
                for ts in list(H):
                    back, _ = self.region(h, [H[ts].copy()], h)
                    for bs in back:
                        bs = self.model.backedge(self, bs, h)
                        if bs is None: continue
                        self._lineq = lineq
                        r = self.absorb(h, newH, bs, first, phis, varying, regions, exv, it)
                        if r == 'restart': restart = True; break
                        changed |= r
                    if restart: break
                if restart: break
                H = newH
                if not changed: stable = True; break
            if restart: continue
            if not stable: raise Budget(f"{self.fn.dname}: loop at {h} does not stabilise")
            self.record = rec
            exits = []
            for ts in H:
                bk, ex = self.region(h, [H[ts].copy()], h)
                for _, x in ex:
                    if x.taint is None and any(v is None for v in exv.values()): x.taint = f"loop at {h} over-approximated"
                exits += ex
                if rec:
                    for bs in bk: self.model.backedge(self, bs, h)
            return exits
        raise Budget(f"{self.fn.dname}: loop at {h}: too many restarts")

    def idle(self, h, phis):
        """a loop that only passes time: no effects, and nothing it computes is used afterwards"""
        if not hasattr(self, '_idle'): self._idle = {}
        if h not in self._idle:
            body = self.loops[h]; ok = True; defs = set()
            for b in body:
                if b is not h and b in self.loops: ok = False
                for i in b.insts:
                    defs.add(i.ref)
                    if i.op in ('store', 'load', 'atomicrmw', 'cmpxchg', 'invoke', 'fence', 'va_arg', 'ret', 'unreachable') or i.op == 'call' and not i.asm and not (self.cname(i) or '').startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume')): ok = False
            if ok: ok = not any(o.kind == 'inst' and o.ref in defs for b in self.fn.blocks if b not in body for i in b.insts for o in i.ops)
            self._idle[h] = ok
        return self._idle[h]

    def pass_idle(self, h, st0, phis):
        t = st0.taint; s = st0.copy()
        for p in phis: s.env[p.ref] = self.fresh(s, p.ty, p.name)
        s.taint = t; out = {}
        for dst, x in self.region(h, [s], h)[1]:
            if x.consistent() and dst not in out: x.taint = t; out[dst] = x
        return list(out.items())

    def finite(self, h, st0, cap=600):
        """exact: all states at the loop head (the model keeps only values of a finite range)"""
        rec = self.record; self.record = False; seen = {}; work = [st0]
        def add(s):
            k = (s.ts, frozenset(self.live_env(h, s)), tuple(sorted(((o, tuple(sorted(c.items(), key=lambda z: str(z[0])))) for o, c in s.mem.items()), key=lambda z: str(z[0]))))
            if k not in seen: seen[k] = s.copy(); work.append(s)
        work = []; add(st0)
        try:
            while work:
                if len(seen) > cap: raise Budget(f"{self.fn.dname}: loop at {h} has more than {cap} states")
                for bs in self.region(h, [work.pop().copy()], h)[0]:
                    bs = self.model.backedge(self, bs, h)
                    if bs is not None: add(bs)
        finally: self.record = rec
        exits = []
        for s in seen.values(): exits += self.region(h, [s.copy()], h)[1]
        return exits

    def concrete(self, h, st0, phis):
        """loops whose every iteration is decided by constants (tables, lists of members) are followed exactly"""
        def const(v): return isinstance(v, Lin) and v.is_const or isinstance(v, Ptr) and v.off.is_const and v.obj.startswith(('a:', '@'))
        if not any(const(st0.env.get(p.ref)) for p in phis): return None
        rec = self.record; self.record = False; cur = [st0.copy()]
        try:
            for it in range(40):
                back, ex = self.region(h, [s.copy() for s in cur], h)
                back = [s for s in back if s.consistent()]
                if back and ex or len(back) > self.model.paths: return None
                if not back: break
                back = [self.model.backedge(self, s, h) for s in back]
                cur = [s for s in back if s is not None]
                if not cur: return None
            else: return None
        finally: self.record = rec
        cur = [st0]; exits = []
        while cur:
            back, ex = self.region(h, cur, h); exits += ex
            cur = [s for s in (self.model.backedge(self, s, h) for s in back if s.consistent()) if s is not None]
        return exits

    def unrolled(self, h, st0):
        """exact states of the first iterations (counterexample search; later iterations are not covered)"""
        cur = [st0]; exits = []
        for it in range(self.model.unroll):
            nxt = []
            back, ex = self.region(h, cur, h)
            exits += ex
            for bs in back:
                bs = self.model.backedge(self, bs, h)
                if bs is not None and bs.consistent(): nxt.append(bs)
            cur = nxt
            if not cur: break
        else: self.model.truncated = True
        return exits

    def scannable(self, h, phis):
        """a loop that only looks at bytes while one position advances by one"""
        if not hasattr(self, '_scan'): self._scan = {}
        if h not in self._scan:
            ok = 1 <= len(phis) <= 3 and self.model.accelerate
            if ok:
                for b in self.loops[h]:
                    if b is not h and b in self.loops: ok = False
                    for i in b.insts:
                        if i.op in ('store', 'atomicrmw', 'cmpxchg', 'invoke', 'fence', 'va_arg'): ok = False
                        if i.op == 'call' and not self.pure_call(i): ok = False
            self._scan[h] = ok
        return self._scan[h]

    def pure_call(self, i):
        n = self.cname(i) or ''
        return n.startswith(('llvm.assume', 'llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax', 'llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias')) or re.match(r"is(alnum|alpha|digit|xdigit|space|upper|lower|punct|print|graph|cntrl)$|to(upper|lower)$|_ZNKSt17basic_string_viewIcSt11char_traitsIcEE\d+(r?find|find_first_of|find_last_of|contains)Ecm|memchr$|strchr$", n) is not None

    def scan_loop(self, h, st0, phis):
        """exact summary: all positions passed so far carry a byte of the 'continue' set.  Further phis must be functions
        of the position (their value on a later iteration is the one computed on the previous)."""
        rec = self.record
        ivs = [p for p in phis if isinstance(st0.env.get(p.ref), (Lin, Ptr))]
        def quiet(s):
            self.record = False
            try: return self.region(h, [s.copy()], h)[0]
            finally: self.record = rec
        probe = quiet(st0)
        if not probe:                                           # at most one iteration
            _, ex = self.region(h, [st0.copy()], h); return ex
        def step1(p):
            for bs in probe:
                x, y = st0.env.get(p.ref), bs.env.get(p.ref)
                if type(x) is not type(y) or isinstance(x, Ptr) and x.obj != y.obj: return False
                x, y = (x.off, y.off) if isinstance(x, Ptr) else (x, y)
                if not bs.eq(y, x + 1): return False
            return True
        ivs = [p for p in ivs if step1(p)]
        if not ivs: return None
        p = ivs[0]; v0 = st0.env[p.ref]; extra = [q for q in phis if q is not p]
        base = st0.copy(); r = base.newsym('scan'); rs = r.t[0][0]
        o0 = v0.off if isinstance(v0, Ptr) else v0
        if not base.assume_le(o0 - r): return None
        mk = (lambda l: Ptr(v0.obj, l)) if isinstance(v0, Ptr) else (lambda l: l)
        base.env[p.ref] = mk(r)
        t0 = base.taint
        for q in extra: base.env[q.ref] = self.fresh(base, q.ty, q.name)
        base.taint = t0
        # upper bounds that may be invariant: right-hand sides of comparisons with loop-invariant values
        cands = []
        for b in self.loops[h]:
            for i in b.insts:
                if i.op == 'icmp':
                    for o in i.ops:
                        if o.kind == 'inst' and o.ref not in st0.env:
                            v = probe[0].env.get(o.ref)         # computed inside the loop from values that do not change
                            if not (isinstance(v, (Lin, Ptr)) and set(syms_of(v)) <= set(st0.z.s)): continue
                        else:
                            try: v = self.val(st0, o)
                            except Exception: v = None
                        if isinstance(v, Ptr) and isinstance(v0, Ptr) and v.obj == v0.obj: v = v.off
                        if isinstance(v, Lin):
                            off = 0                            # compared is position + off
                            for y in i.ops:
                                if y is o or y.kind != 'inst' or y.ref not in probe[0].env: continue
                                w = probe[0].env[y.ref]; w = w.off if isinstance(w, Ptr) else w
                                if isinstance(w, Lin):
                                    for dl in (w - o0, w - o0 - 1):
                                        if dl.is_const and 0 < dl.c <= 64: off = dl.c; break
                            for v in (v - off - 1, v - off, v - 1, v) if off else (v - 1, v):
                                if v not in cands and st0.le(o0 - v): cands.append(v)
        S = obj = d = None; ev = {}
        def header(later=False):
            s = base.copy()
            if later and not s.assume_le(o0 - r + 1): return None
            for c in cands:
                if not s.assume_le(r - c): return None
            if S is not None and not s.region(obj, o0 + d, r + d, S): return None
            for q in extra:
                if q.ref in ev: s.env[q.ref] = ev[q.ref]
            return s
        for _ in range(len(cands) + 2):
            s = header()
            if s is None: return None
            back = quiet(s)
            bad = [c for c in cands if not all(x.le(r + 1 - c) for x in back)]
            if not bad: break
            cands = [c for c in cands if c not in bad]
        else: return None
        known = set(base.leaf); S_ = ISet.bot(8)
        for bs in back:
            n = bs.env.get(p.ref)
            if n is None or type(n) is not type(v0): return None
            if isinstance(n, Ptr):
                if n.obj != v0.obj: return None
                n = n.off
            if not bs.eq(n, r + 1): return None
            mine = [e for e in bs.leaf if e not in known and e.a[0][0] == 'b' and rs in e.a[0][2].syms()]
            if len(mine) != 1: return None
            e = mine[0]; dd = e.a[0][2] - r
            if rs in dd.syms() or obj is not None and (obj != e.a[0][1] or d != dd): return None
            obj, d = e.a[0][1], dd; S_ = S_.union(bs.leaf[e])
            for q in extra:
                v = bs.env.get(q.ref)
                if isinstance(v, (Lin, Ptr)) or isinstance(v, tuple) and v and v[0] in ('cmp', 'not', 'and', 'or'): v = vsubst(v, {rs: r - 1})
                elif isinstance(v, Ex) and v.k == 'const': pass
                else: return None
                if set(syms_of(v)) - set(base.z.s): return None
                if q.ref in ev and ev[q.ref] != v: return None
                ev[q.ref] = v
        if back: S = S_
        if not extra:
            s = header()
            if s is None: return None
            back = quiet(s)
            if not all(x.le(r + 1 - c) for x in back for c in cands): return None
            return self.region(h, [s], h)[1]
        out = self.region(h, [st0.copy()], h)[1]               # first iteration, then any later one
        s = header(True)
        if s is None: return out
        back = quiet(s)
        if not all(x.le(r + 1 - c) for x in back for c in cands): return None
        for bs in back:
            for q in extra:
                v = bs.env.get(q.ref)
                if v is None or not (v == vsubst(ev[q.ref], {rs: r + 1}) or v == ev[q.ref] and isinstance(v, Ex)): return None
        return out + self.region(h, [s], h)[1]

    def hs(self, h, tag): return f"h{h.idx}.{tag}"

    def canon_entry(self, h, st, phis, varying, regions, exv):
        """introduce header symbols for the phis and varying cells"""
        newvals = {}
        for p in phis:
            v = st.env.get(p.ref)
            newvals[('p', p.ref)] = v
        for (obj, off) in varying:
            c = st.mem.get(obj, {}).get(off)
            newvals[('m', obj, off)] = c[1] if c else None
        for k, v in newvals.items():
            nm = self.hs(h, f"p{self.pidx(k[1])}" if k[0] == 'p' else f"m{k[1]}+{k[2]}")
            st.z.forget([nm]); st.neq = tuple(x for x in st.neq if nm not in x.syms())
            if isinstance(v, (Lin, Ptr)):
                l = v if isinstance(v, Lin) else v.off
                st.z.s.add(nm); st.assume_eq(Lin.sym(nm) - l)
                nv = Lin.sym(nm) if isinstance(v, Lin) else Ptr(v.obj, Lin.sym(nm))
            elif isinstance(v, Ex):
                lf = Ex('leaf', v.w, ('h', nm)); 
                S = st.eset(v)
                if exv.get(k) is not None: S = S.union(exv[k])
                st.leaf[lf] = S; nv = lf
            else: nv = v if k not in exv else None
            if k in exv and exv[k] is None: nv = None
            if k[0] == 'p':
                if nv is None: st.env.pop(k[1], None)
                else: st.env[k[1]] = nv
            else:
                cells = st.mem.setdefault(k[1], {})
                if nv is None: cells.pop(k[2], None)
                else: cells[k[2]] = (cells[k[2]][0], nv)
        for e in self._lineq: st.add_eq(e)
        for r in regions:
            if r not in st.reg: st.reg = st.reg + (r,)
        return st

    def pidx(self, ref):
        if not hasattr(self, '_pidx'): self._pidx = {}
        return self._pidx.setdefault(ref, len(self._pidx))

    def absorb(self, h, H, N, first, phis, varying, regions, exv, it):
        """join back-edge state N into the header states; True if changed, 'restart' if the header
        abstraction must be rebuilt"""
        base = H.get(N.ts) or first
        if N.ts not in H and len(H) > 24: raise Budget("too many typestates at loop " + str(h))
        # memory cells
        for obj in list(base.mem):
            for off, (sz, v) in list(base.mem[obj].items()):
                c = N.mem.get(obj, {}).get(off)
                if c is None:
                    for s in list(H.values()) + [first]: s.mem.get(obj, {}).pop(off, None)
                    if ('dead', obj, off) not in varying: pass
                    continue
                if c[1] != v and (obj, off) not in varying:
                    varying.add((obj, off)); return 'restart'
        # header variables
        hv = {}
        for p in phis: hv[('p', p.ref)] = (base.env.get(p.ref), N.env.get(p.ref))
        for (obj, off) in varying:
            b = base.mem.get(obj, {}).get(off); n = N.mem.get(obj, {}).get(off)
            hv[('m', obj, off)] = (b[1] if b else None, n[1] if n else None)
        sub = {}
        for k, (b, n) in hv.items():
            if isinstance(b, Lin) and len(b.t) == 1:
                if isinstance(n, Ex): n = self.to_lin(N, n)
                if isinstance(n, Lin): sub[b.t[0][0]] = n
                elif not self._drop(k, exv): return 'restart'
            elif isinstance(b, Ptr) and len(b.off.t) == 1:
                if isinstance(n, Ptr) and n.obj == b.obj: sub[b.off.t[0][0]] = n.off
                elif not self._drop(k, exv): return 'restart'
            elif isinstance(b, Ex):
                if isinstance(n, Ex):
                    S = N.eset(n)
                    if not S.subset(base.leaf.get(b, ISet.top(b.w))):
                        exv[k] = (exv.get(k) or ISet.bot(b.w)).union(S).union(base.leaf.get(b, ISet.top(b.w)))
                        if exv[k].is_top() and it > 10: exv[k] = None
                        return 'restart'
                elif isinstance(n, Lin) and n.is_const:
                    S = ISet.const(b.w, n.c)
                    if not S.subset(base.leaf.get(b, ISet.top(b.w))):
                        exv[k] = (exv.get(k) or ISet.bot(b.w)).union(S).union(base.leaf.get(b, ISet.top(b.w))); return 'restart'
                elif not self._drop(k, exv): return 'restart'
            elif b is not None and b != n:
                if not self._drop(k, exv): return 'restart'
        # affine equalities between header variables with constant steps
        steps = {}
        for x, e in sub.items():
            d = e - Lin.sym(x)
            if d.is_const and d.c != 0: steps[x] = d.c
        if len(steps) > 1:
            xs = sorted(steps); x = xs[0]; x0 = self.entry_value(first, x)
            for y in xs[1:]:
                y0 = self.entry_value(first, y)
                if x0 is None or y0 is None or steps[x] == steps[y]: continue
                e = (Lin.sym(x) - x0) * steps[y] - (Lin.sym(y) - y0) * steps[x]
                if e not in self._lineq and len(self._lineq) < 8: self._lineq.append(e); return 'restart'
        # candidate regions: bytes examined at a header position
        for e in N.leaf:
            if e.a[0][0] != 'b': continue
            off = e.a[0][2]
            for S_ in off.syms():
                if S_ in sub and off == Lin.sym(S_) and not N.leaf[e].is_top():
                    v0 = self.entry_value(first, S_)
                    if v0 is not None:
                        cand = (e.a[0][1], v0, Lin.sym(S_), ISet.bot(8))
                        if not any(r[0] == cand[0] and r[1] == cand[1] and r[2] == cand[2] for r in regions):
                            regions.append(cand); return 'restart'
        old = H.get(N.ts)
        T = (old or first)
        # zone of N over outer + header symbols (header symbols = new values)
        hdr_syms = set(sub)
        keep = [x for x in T.z.s if x != '0']
        def val(x): return sub[x] if x in sub else Lin.sym(x)
        Z = Zone(); Z.s = set(keep) | {'0'}
        dropped = [x for x in keep if x.startswith(f"h{h.idx}.") and x not in sub]
        live = [x for x in keep if x not in dropped]
        for x in live + ['0']:
            for y in live + ['0']:
                if x == y: continue
                ref = T.z.get(x, y)
                if ref == INF and old is not None: continue
                if x not in sub and y not in sub: u = N.z.get(x, y)
                else: u = N.ub((val(x) if x != '0' else Lin(0)) - (val(y) if y != '0' else Lin(0)))
                if u < INF: Z.d[(x, y)] = u
        if old is None:
            n = N.copy(); n.env = dict(first.env); n.mem = {o: dict(c) for o, c in first.mem.items()}
            n.z = Z; n.extra = tuple(e for e in first.extra if N.le(e.subst(sub))); n.eqs = tuple(e for e in first.eqs if N.eq(e.subst(sub), Lin(0))); n.defs = {k: v for k, v in first.defs.items() if N.defs.get(k) == v}
            n.leaf = {}; 
            for e, S in first.leaf.items(): n.leaf[e] = self.leaf_in(N, e, sub)
            n.reg = tuple((o, a, b, N.region_set(o, a.subst(sub), b.subst(sub))) for (o, a, b, S) in first.reg)
            for o in list(n.mem):
                for off in list(n.mem[o]):
                    c = N.mem.get(o, {}).get(off)
                    if c is None: del n.mem[o][off]
            n.rel = tuple(x for x in first.rel if x in N.rel); n.neq = tuple(x for x in first.neq if x in N.neq and not set(x.syms()) & set(sub))
            H[N.ts] = n
            return True
        changed = False
        J = old.z.join(Z)
        if not Z.entails(old.z):
            nz = (old.z.widen(J) if it < 6 else old.z.widen(J, ((1 << 31) - 1, (1 << 32) - 1, BIG) if it < 10 else ())) if it >= 2 else J
            if nz.d != old.z.d: changed = True
            o2 = old.copy(); o2.z = nz; H[N.ts] = o2; old = o2
        ex = tuple(e for e in old.extra if N.le(e.subst(sub)))
        if ex != old.extra: changed = True
        eqs = tuple(e for e in old.eqs if N.eq(e.subst(sub), Lin(0)))
        if eqs != old.eqs: changed = True
        df = {k: v for k, v in old.defs.items() if N.defs.get(k) == v}
        if df != old.defs: changed = True
        nl = {}
        for e, S in old.leaf.items():
            if e.a[0][0] == 'h': nl[e] = S; continue
            u = S.union(self.leaf_in(N, e, sub))
            nl[e] = u
            if u != S: changed = True
        nr = []
        for (o, a, b, S) in old.reg:
            u = S.union(N.region_set(o, a.subst(sub), b.subst(sub)))
            if u != S: changed = True
            nr.append((o, a, b, u))
        n = old.copy(); n.neq = tuple(x for x in old.neq if x in N.neq and not set(x.syms()) & set(sub)); n.extra = ex; n.eqs = eqs; n.defs = df; n.leaf = nl; n.reg = tuple(nr)
        for o in list(n.mem):
            for off in list(n.mem[o]):
                c = N.mem.get(o, {}).get(off)
                if c is None: del n.mem[o][off]; changed = True
        H[N.ts] = n
        return changed

    def _drop(self, k, exv):
        """header variable k cannot be tracked; True if already dropped"""
        if k in exv and exv[k] is None: return True
        exv[k] = None
        return False

    def leaf_in(self, N, e, sub):
        if e.a[0][0] != 'b': return N.leaf.get(e, ISet.top(e.w))
        off = N.canon(e.a[0][2].subst(sub))
        l = Ex('leaf', 8, ('b', e.a[0][1], off))
        if l in N.leaf: return N.leaf[l]
        n = N.copy(); l = n.byte_leaf(e.a[0][1], off)
        return n.leaf.get(l, ISet.top(8))

    def entry_value(self, st, s):
        """outer linear form equal to header symbol s in the entry state"""
        for y in st.z.s:
            if y == s or y.startswith('h') and '.' in y and y.split('.')[0] == s.split('.')[0]: continue
            u = st.z.get(s, y)
            if u < INF and st.z.get(y, s) == -u:
                return Lin(u) if y == '0' else Lin.sym(y) + u
        return None

    # ------------------------------------------------------------------ blocks
    def flow(self, b, st):
        cur = [st]
        self.reached.add(b)
        for i in b.insts:
            if i.op == 'phi': continue
            if i is b.term: break
            nxt = []
            for s in cur:
                self.steps += 1
                if self.steps & 255 == 0 and (time.time() - self.t0 > self.model.seconds or self.model.stop()): raise Budget(f"{self.fn.dname}: stopped after {int(time.time() - self.t0)} s")
                if self.steps > self.budget: raise Budget(f"{self.fn.dname}: step budget exceeded")
                r = self.model.inst(self, s, i)
                if r is None: r = self.step(i, s)
                nxt += r
            cur = nxt
            if not cur: return
        t = b.term
        for s in cur:
            if t.op == 'ret':
                if self.record: self.model.ret(self, s, t, self.val(s, t.ops[0]) if t.ops else None)
                self.nstates += 1
            elif t.op == 'resume':
                if self.record: self.model.resume(self, s, t)
            elif t.op == 'unreachable': pass
            elif t.op == 'invoke':
                if self.model.follow_unwind and not t.nounwind_cs and not getattr(t.callee, 'nounwind', False) and self.model.unwinds(self, s, t):
                    yield from self.edge(b, b.succs[1], self.unwind_state(t, s.copy()))
                for s2_ in self.step(t, s): yield from self.edge(b, b.succs[0], s2_)
            elif t.op == 'br':
                if not t.ops: yield from self.edge(b, b.succs[0], s); continue
                c = self.val(s, t.ops[0])
                for k, truth in ((0, True), (1, False)):
                    for s2_ in self.assume(s.copy(), c, truth): yield from self.edge(b, b.succs[k], s2_)
            elif t.op == 'switch':
                v = self.val(s, t.ops[0]); w = t.ops[0].ty.width
                rest = [s.copy()]
                for cv, dst in t.cases:
                    c = self.cmp('eq', v, self.constv(w, cv), w)
                    for s2_ in self.assume(s.copy(), c, True): yield from self.edge(b, dst, s2_)
                    rest = [x for r in rest for x in self.assume(r, c, False)]
                for r in rest: yield from self.edge(b, b.succs[0], r)
            else:
                for d in b.succs: yield from self.edge(b, d, s.copy())

    def unwind_state(self, i, st):
        if self.model.quiet_unwind: return st
        for k, a in enumerate(i.ops):
            v = self.val(st, a)
            if isinstance(v, Ptr) and not self.arg_const(i, k): st.havoc(v.obj)
        return st

    def edge(self, src, dst, st):
        st = self.model.edge(self, st, src, dst)
        if st is None: return
        vals = []
        for i in dst.insts:
            if i.op != 'phi': break
            v = next((x for x, p in i.incoming if p is src), None)
            x = self.val(st, v) if v is not None else None
            if x is None and self.model.unroll and v is not None and v.kind in ('undef', 'poison') and i.ty.kind == 'int':     # a value no execution depends on
                t = st.taint; x = self.fresh(st, i.ty, i.name); st.taint = t
            vals.append((i, x))
        for i, v in vals:
            if v is None: st.env.pop(i.ref, None)
            else: st.env[i.ref] = v
        yield dst, st

    # ------------------------------------------------------------------ values
    def constv(self, w, v):
        return ec(w, v) if w <= 8 else Lin(v)

    def val(self, st, v):
        r = st.env.get(v.ref)
        if r is not None: return r
        k = v.kind
        if k == 'int':
            if v.value is None: return None
            return self.constv(v.ty.width, v.value) if v.ty.width > 8 else ec(v.ty.width, v.value)
        if k == 'null': return Ptr('null', Lin(0))
        if k == 'zeroinit':
            return ('zero',)
        if k == 'global' or k == 'alias': return Ptr('@' + v.name, Lin(0))
        if k == 'func': return FnPtr(v.name)
        if k == 'constexpr':
            if v.op == 'gep' and not v.gep[1]:
                b = self.val(st, v.ops[0])
                if isinstance(b, Ptr): return Ptr(b.obj, b.off + v.gep[0])
            return None
        if k in ('undef', 'poison'):
            return None
        if k in ('arg', 'inst') and v.ty.kind in ('int', 'ptr'):
            r = self.fresh(st, v.ty, v.name or k)
            if r is not None: st.env[v.ref] = r
            return r
        return None

    def fresh(self, st, ty, name):
        if st.taint is None: st.taint = f"value {name} unknown"
        if ty.kind == 'ptr': return Ptr(f"u{next(_fresh)}:{name}", Lin(0))
        if ty.kind == 'int':
            if ty.width <= 8:
                e = Ex('leaf', ty.width, ('u', f"{name}#{next(_fresh)}", 0)); st.leaf[e] = ISet.top(ty.width); return e
            if ty.width <= 64: return st.newsym(name, 0, (1 << ty.width) - 1)
        return None

    def to_lin(self, st, e):
        if e.k == 'const': return Lin(e.a[0])
        S = st.eset(e)
        nm = "x" + str(abs(e._h))
        if S and not S.is_top():
            st.z.add(nm, '0', S.umax()); st.z.add('0', nm, -S.umin())
        else:
            st.z.add(nm, '0', (1 << e.w) - 1); st.z.add('0', nm, 0)
        return Lin.sym(nm)

    def to_ex(self, st, v, w):
        if isinstance(v, Ex): return v
        if isinstance(v, Lin) and v.is_const: return ec(w, v.c)
        return None

    def rem(self, st, l, M):
        """l modulo M as a symbol"""
        st = st.copy(); l = st.canon(l); d = st.defs.get((l, M))
        if d is None:
            lo, hi = st.lb(l), st.ub(l)
            q = st.newsym('q', None if lo == -INF else int(lo) // M, None if hi == INF else int(hi) // M); r = st.newsym('r', 0, M - 1)
            st.defs[(l, M)] = d = (q.t[0][0], r.t[0][0]); st.add_eq(l - q * M - r)
        return st, Lin.sym(d[1])

    def ucan(self, st, l, w):
        """list of (state, linear form in [0,2^w))"""
        M = 1 << w
        if l.is_const: return [(st, Lin(l.c % M))]
        lo, hi = st.lb(l), st.ub(l)
        if lo >= 0 and hi < M: return [(st, l)]
        if w < 64 and (lo < -M or hi >= 2 * M): return [self.rem(st, l, M)]
        out = []
        a = st.copy()
        if a.assume_le(-l) and a.assume_le(l - (M - 1)): out.append((a, l))
        if lo < 0:
            b = st.copy()
            if b.assume_le(l + 1) and b.assume_le(-l - M) and b.consistent(): out.append((b, l + M))
        if hi >= M:
            b = st.copy()
            if b.assume_le(Lin(M) - l) and b.consistent(): out.append((b, l - M))
        return out

    def scan(self, st, l, w):
        M = 1 << w; H = M >> 1
        if l.is_const: return [(st, Lin(s2(l.c % M, w)))]
        lo, hi = st.lb(l), st.ub(l)
        if lo >= -H and hi < H: return [(st, l)]
        if w < 64 and (lo < -M - H or hi >= M + H): s, r = self.rem(st, l, M); return self.scan(s, r, w)
        out = []
        a = st.copy()
        if a.assume_le(Lin(-H) - l) and a.assume_le(l - (H - 1)): out.append((a, l))
        if hi >= H:
            b = st.copy()
            if b.assume_le(Lin(H) - l): out.append((b, l - M))
        if lo < -H:
            b = st.copy()
            if b.assume_le(l + H + 1): out.append((b, l + M))
        return out

    # ------------------------------------------------------------------ booleans
    def cmp(self, pred, a, b, w):
        if isinstance(a, Ex) and isinstance(b, Ex): return Ex('icmp', 1, pred, a, b) if (a.lv or b.lv) else ec(1, int(cicmp(pred, w, a.a[0], b.a[0])) if a.k == b.k == 'const' else (conc(Ex('icmp', 1, pred, a, b), {}) or 0))
        if isinstance(a, Ex) and isinstance(b, Lin) and b.is_const: return Ex('icmp', 1, pred, a, ec(w, b.c))
        if isinstance(b, Ex) and isinstance(a, Lin) and a.is_const: return Ex('icmp', 1, pred, ec(w, a.c), b)
        if a is None or b is None: return None
        return ('cmp', pred, a, b, w)

    def assume(self, st, c, truth):
        """states in which boolean value c has the given truth"""
        if c is None:
            if st.taint is None: st.taint = 'opaque condition'
            return [st]
        if isinstance(c, Ex): return [st] if st.efilter(c, truth) else []
        if isinstance(c, Lin):
            if c.is_const: return [st] if bool(c.c) == truth else []
            if st.taint is None: st.taint = 'opaque condition'
            return [st]
        if c[0] == 'not': return self.assume(st, c[1], not truth)
        if c[0] in ('and', 'or'):
            if (c[0] == 'and') == truth:
                return [y for x in self.assume(st, c[1], truth) for y in self.assume(x, c[2], truth)]
            return self.assume(st.copy(), c[1], truth) + [y for x in self.assume(st.copy(), c[1], not truth) for y in self.assume(x, c[2], truth)]
        if c[0] == 'cmp': return self.assume_cmp(st, c[1] if truth else CMPNEG[c[1]], c[2], c[3], c[4])
        return [st]

    def assume_cmp(self, st, p, a, b, w):
        if isinstance(a, Ex): a = self.to_lin(st, a)
        if isinstance(b, Ex): b = self.to_lin(st, b)
        if isinstance(a, tuple) and a[0] == 'pint': a = a[1]
        if isinstance(b, tuple) and b[0] == 'pint': b = b[1]
        if isinstance(a, Ptr) and isinstance(b, Lin) and b.is_const and b.c == 0: b = Ptr('null')
        if isinstance(b, Ptr) and isinstance(a, Lin) and a.is_const and a.c == 0: a = Ptr('null')
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if isinstance(a, FnPtr) and isinstance(b, FnPtr): e = a == b
            elif (isinstance(a, Ptr) and a.obj == 'null') or (isinstance(b, Ptr) and b.obj == 'null'): e = False
            else: return [st]
            return [st] if (p == 'eq') == e or p not in ('eq', 'ne') else []
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj != b.obj:
                if self.distinct(a.obj, b.obj) and p in ('eq', 'ne'): return [st] if p == 'ne' else []
                if st.taint is None and not self.model.addresses_free: st.taint = 'comparison of unrelated pointers'
                return [st]
            a, b = a.off, b.off
            p = {'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(p, p)
            pairs = [(st, a, b)]
        elif isinstance(a, Lin) and isinstance(b, Lin):
            d = a - b
            if p in ('eq', 'ne'):
                if d.is_const:
                    e = d.c % (1 << w) == 0
                    return [st] if e == (p == 'eq') else []
                can = self.ucan if max(abs(st.lb(a)), abs(st.ub(a)), abs(st.lb(b)), abs(st.ub(b))) > (1 << (w - 1)) or st.lb(a) < 0 and st.lb(b) >= 0 or st.lb(b) < 0 and st.lb(a) >= 0 else None
                if can is None: pairs = [(st, a, b)]
                else: pairs = [(s2_, x, y) for s1, x in can(st, a, w) for s2_, y in can(s1, b, w)]
            else:
                can = self.scan if p[0] == 's' else self.ucan
                pairs = [(s2_, x, y) for s1, x in can(st, a, w) for s2_, y in can(s1, b, w)]
        else:
            if st.taint is None: st.taint = 'opaque comparison'
            return [st]
        out = []
        for s, x, y in pairs:
            if s is st and len(pairs) > 1: s = s.copy()
            d = x - y
            if p == 'eq': ok = d not in s.neq and -d not in s.neq and s.assume_eq(d) and not any(s.eq(e, Lin(0)) for e in s.neq)
            elif p == 'ne':
                if s.ub(d) <= 0: ok = s.assume_le(d + 1)
                elif s.lb(d) >= 0: ok = s.assume_le(-d + 1)
                else:
                    ok = True
                    if d not in s.neq and -d not in s.neq: s.neq = s.neq[-12:] + (d,)
            elif p in ('slt', 'ult'): ok = s.assume_le(d + 1)
            elif p in ('sle', 'ule'): ok = s.assume_le(d)
            elif p in ('sgt', 'ugt'): ok = s.assume_le(-d + 1)
            else: ok = s.assume_le(-d)
            if ok: out.append(s)
        return out

    def distinct(self, a, b):
        def fixed(o): return o == 'null' or o.startswith(('a:', '@', 'o:', 'n:'))
        return fixed(a) and fixed(b)

    # ------------------------------------------------------------------ instructions
    def setv(self, st, i, v):
        if v is None: st.env.pop(i.ref, None)
        else: st.env[i.ref] = v
        return [st]

    def step(self, i, st):
        op = i.op; V = lambda k: self.val(st, i.ops[k])
        if op == 'alloca':
            o = f"a:{i.name or i.index}.{i.block.idx}"
            st.mem[o] = {}
            return self.setv(st, i, Ptr(o, Lin(0)))
        if op in ('bitcast', 'freeze', 'addrspacecast'):
            v = V(0)
            return self.setv(st, i, v if v is not None else self.fresh(st, i.ty, i.name))
        if op == 'gep': return self.setv(st, i, self.gep(st, i))
        if op == 'load': return self.do_load(st, i)
        if op == 'store':
            p = self.cptr(st, V(1)); v = V(0)
            self.model.store(self, st, i, p, v)
            if v == ('zero',): v = None
            if isinstance(v, tuple) and v and v[0] == 'pack':
                st.store(p, i.ops[0].ty.size, None)
                if isinstance(p, Ptr) and p.off.is_const:
                    for o, z, x in v[1]: st.store(Ptr(p.obj, p.off + o), z, x)
                return [st]
            st.store(p, i.ops[0].ty.size, v)
            return [st]
        if op == 'ptrtoint':
            v = V(0); return self.setv(st, i, Lin(0) if isinstance(v, Ptr) and v.obj == 'null' and v.off == Lin(0) else ('pint', v) if isinstance(v, Ptr) else self.fresh(st, i.ty, i.name))
        if op == 'inttoptr':
            v = V(0)
            if isinstance(v, tuple) and v[0] == 'pint': return self.setv(st, i, v[1])
            if isinstance(v, Lin) and v.is_const and v.c == 0: return self.setv(st, i, Ptr('null'))
            return self.setv(st, i, self.fresh(st, i.ty, i.name))
        if op == 'icmp':
            a, b = V(0), V(1); w = i.ops[0].ty.width or 64
            x = i.ops[0]; r = None
            if x.kind == 'inst' and x.op == 'xor' and isinstance(b, Lin) and b.is_const and (i.pred, s2(b.c % (1 << w), w)) in (('sgt', -1), ('slt', 0)):     # same / different sign
                u, v = self.val(st, x.ops[0]), self.val(st, x.ops[1])
                if isinstance(u, Lin) and isinstance(v, Lin):
                    c = [('cmp', p, q, Lin(0), w) for q in (u, v) for p in ('sge', 'slt')]
                    r = ('or', ('and', c[0], c[2]), ('and', c[1], c[3])) if i.pred == 'sgt' else ('or', ('and', c[0], c[3]), ('and', c[1], c[2]))
            if r is None: r = self.cmp(i.pred, a, b, w)
            if r is None: r = self.fresh(st, i.ty, i.name)
            return self.setv(st, i, r)
        if op in ('zext', 'sext', 'trunc'): return self.cast(st, i)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'): return self.arith(st, i)
        if op == 'select':
            c, a, b = V(0), V(1), V(2)
            if isinstance(c, Ex) and isinstance(a, Ex) and isinstance(b, Ex):
                if c.k == 'const': return self.setv(st, i, a if c.a[0] else b)
                return self.setv(st, i, Ex('sel', a.w, c, a, b))
            if i.ty.kind == 'int' and i.ty.width == 1:
                if isinstance(b, Ex) and b.k == 'const' and b.a[0] == 0: return self.setv(st, i, self.bop('and', c, a))
                if isinstance(a, Ex) and a.k == 'const' and a.a[0] == 1: return self.setv(st, i, self.bop('or', c, b))
            if a == b: return self.setv(st, i, a)
            out = []
            for tr, x in ((True, a), (False, b)):
                for s in self.assume(st.copy(), c, tr):
                    out += self.setv(s, i, x if x is not None else self.fresh(s, i.ty, i.name))
            return out
        if op in ('call', 'invoke'): return self.do_call(st, i)
        if op == 'extractvalue':
            a = V(0)
            for ix in i.idxs:
                if isinstance(a, tuple) and a and a[0] == 'agg' and ix + 1 < len(a): a = a[ix + 1]
                else: a = None; break
            if a is None: a = self.fresh(st, i.ty, i.name)
            return self.setv(st, i, a)
        if op == 'insertvalue':
            a = V(0); n = len(i.ty.fields or []) or i.ty.count
            cur = list(a[1:]) if isinstance(a, tuple) and a and a[0] == 'agg' else [None] * n
            if len(i.idxs) == 1 and i.idxs[0] < len(cur): cur[i.idxs[0]] = V(1)
            return self.setv(st, i, ('agg',) + tuple(cur))
        if op in ('cmpxchg', 'atomicrmw'):
            p = V(0); 
            if isinstance(p, Ptr): st.havoc(p.obj, p.off.c, p.off.c + 8) if p.off.is_const else st.havoc(p.obj)
            if i.ty.kind == 'struct': return self.setv(st, i, ('agg', self.fresh(st, i.ty.fields[0], i.name), self.fresh(st, i.ty.fields[1], i.name)))
            return self.setv(st, i, self.fresh(st, i.ty, i.name))
        if op == 'fence': return [st]
        if op == 'landingpad': return self.setv(st, i, ('agg', Ptr('o:exception'), self.model.selector(self, st, i)))
        if i.ty.kind in ('int', 'ptr'): return self.setv(st, i, self.fresh(st, i.ty, i.name))
        st.env.pop(i.ref, None)
        return [st]

    def bop(self, op, a, b):
        if isinstance(a, Ex) and isinstance(b, Ex): return Ex('op', 1, op, a, b)
        if isinstance(a, Ex) and a.k == 'const': return (b if a.a[0] else a) if op == 'and' else (a if a.a[0] else b)
        if isinstance(b, Ex) and b.k == 'const': return (a if b.a[0] else b) if op == 'and' else (b if b.a[0] else a)
        if a is None or b is None: return None
        return (op, a, b)

    def gep(self, st, i):
        b = self.val(st, i.ops[0])
        off, var = i.gep
        if isinstance(b, tuple) and b[0] == 'pex' and not var: return ('pex', b[1], b[2] + off, b[3], b[4])
        if not isinstance(b, Ptr): return self.fresh(st, i.ty, i.name)
        k = self.model.scale.get(b.obj)
        if k:                              # array of k-byte elements addressed by index
            if any(sc % k for _, sc in var): return Ptr(b.obj, st.newsym('idx'))
            if off % k: return Ptr(f"{b.obj}.{off % k}", b.off + off // k) if not var else self.fresh(st, i.ty, i.name)
            l = b.off + off // k
            for ix, sc in var:
                v = self.val(st, ix)
                if isinstance(v, Ex): v = self.to_lin(st, v)
                if not isinstance(v, Lin): return Ptr(b.obj, st.newsym('idx'))
                l = l + v * (sc // k)
            return Ptr(b.obj, l)
        l = b.off + off
        for ix, sc in var:
            v = self.val(st, ix)
            if isinstance(v, Ex) and b.obj.startswith('@') and b.off.is_const and len(var) == 1 and v.k != 'const':
                return ('pex', b.obj, b.off.c + off, v, sc)
            if isinstance(v, Ex): v = self.to_lin(st, self.widen_ex(v)); 
            if isinstance(v, Lin): l = l + v * sc
            else: return Ptr(b.obj, st.newsym('idx'))
        return Ptr(b.obj, l)

    def widen_ex(self, v): return v

    def gbytes(self, obj):
        if not hasattr(self.mod, '_gb'): self.mod._gb = {}
        if obj not in self.mod._gb: self.mod._gb[obj] = self.mod.const_bytes(obj[1:]) if obj.startswith('@') else None
        return self.mod._gb[obj]

    def do_load(self, st, i):
        p = self.cptr(st, self.val(st, i.ops[0])); sz = i.ty.size
        if isinstance(p, tuple) and p[0] == 'pex':
            b = self.gbytes(p[1])
            if b is not None and i.ty.kind == 'int': return self.setv(st, i, Ex('tab', i.ty.width, b, p[3], p[4], p[2]))
            return self.setv(st, i, self.fresh(st, i.ty, i.name))
        if isinstance(p, Ptr):
            v = st.load(p, sz)
            if v is None and p.obj.startswith('@') and i.ty.kind == 'int':
                b = self.gbytes(p.obj)
                if b is not None:
                    if p.off.is_const and 0 <= p.off.c <= len(b) - sz:
                        v = self.constv(i.ty.width, int.from_bytes(b[p.off.c:p.off.c + sz], 'little'))
            if v is None and p.obj.startswith('@_ZTV') and i.ty.kind == 'ptr' and p.off.is_const:
                f = self.mod.vtable(p.obj[1:]).get(p.off.c)
                if f: v = FnPtr(f)
            if v is None: v = self.subload(st, p, sz, i.ty)
            if v is None: v = self.model.load(self, st, i, p)
            if v is None and sz == 1 and i.ty.kind == 'int' and i.ty.width == 8:
                v = st.byte_leaf(p.obj, p.off)
                b = self.gbytes(p.obj)
                if b is not None:
                    lo, hi = max(0, st.lb(p.off)), min(len(b) - 1, st.ub(p.off))
                    if hi - lo < 4096: st.leaf[v] = st.leaf[v].inter(ISet.of(8, b[lo:hi + 1]) if hi >= lo else ISet.bot(8))
                return self.setv(st, i, v)
            if v is None and i.ty.kind == 'int' and sz in (2, 4, 8) and p.off.is_const:
                inside = tuple(sorted(((k - p.off.c, z, x) for k, (z, x) in st.mem.get(p.obj, {}).items() if p.off.c <= k and k + z <= p.off.c + sz), key=lambda t: t[0]))
                if inside: v = ('pack', inside)
            if v is None and i.ty.kind in ('int', 'ptr'):
                v = self.fresh(st, i.ty, i.name)
                if p.off.is_const and v is not None:
                    cells = st.mem.setdefault(p.obj, {})
                    if not any(k < p.off.c + sz and p.off.c < k + z for k, (z, _) in cells.items()): cells[p.off.c] = (sz, v)
            if v is None and i.ty.kind == 'struct' and i.ty.fields:
                parts = []
                for f, o in zip(i.ty.fields, i.ty.offsets):
                    x = st.load(Ptr(p.obj, p.off + o), f.size)
                    if x is None: x = self.fresh(st, f, i.name)
                    parts.append(x)
                v = ('agg',) + tuple(parts)
            # a cell of another kind (e.g. Lin where Ex is needed)
            if isinstance(v, Lin) and i.ty.kind == 'int' and i.ty.width <= 8 and v.is_const: v = ec(i.ty.width, v.c)
            return self.setv(st, i, v)
        return self.setv(st, i, self.fresh(st, i.ty, i.name))

    def cptr(self, st, p):
        if isinstance(p, Ptr) and not p.off.is_const:
            l = st.canon(p.off)
            if l.is_const: return Ptr(p.obj, l)
        return p

    def subload(self, st, p, sz, ty):
        """part of a wider cell, or a value assembled from narrower ones"""
        if not p.off.is_const or ty.kind != 'int' or ty.width != 8 * sz: return None
        cells = st.mem.get(p.obj)
        if not cells: return None
        o = p.off.c; w = 8 * sz
        for k, (z, v) in cells.items():
            if k <= o and o + sz <= k + z:
                if isinstance(v, Lin) and v.is_const: return self.constv(w, (v.c >> (8 * (o - k))) % (1 << w))
                if isinstance(v, Ex) and v.w == 8 * z:
                    if o != k: v = Ex('op', v.w, 'lshr', v, ec(v.w, 8 * (o - k)))
                    return Ex('trunc', w, v)
                return None
        acc = None; pos = o
        while pos < o + sz:
            c = cells.get(pos)
            if c is None or pos + c[0] > o + sz: return None
            v = c[1]
            if isinstance(v, Lin) and v.is_const: v = ec(8 * c[0], v.c)
            if not isinstance(v, Ex) or v.w != 8 * c[0]: return None
            x = Ex('zext', w, v) if v.w < w else v
            if pos > o: x = Ex('op', w, 'shl', x, ec(w, 8 * (pos - o)))
            acc = x if acc is None else Ex('op', w, 'or', acc, x)
            pos += c[0]
        if not acc.lv: return self.constv(w, conc(acc, {}))
        return acc

    def cast(self, st, i):
        v = self.val(st, i.ops[0]); w0 = i.ops[0].ty.width; w = i.ty.width; op = i.op
        if isinstance(v, tuple) and v and v[0] == 'pack':
            x = [y for o, z, y in v[1] if o == 0 and z * 8 == w]
            return self.setv(st, i, x[0] if x and op == 'trunc' else self.fresh(st, i.ty, i.name))
        if isinstance(v, Ex):
            if v.k == 'const':
                x = v.a[0]
                if op == 'sext': x = s2(x, w0)
                return self.setv(st, i, self.constv(w, x if op == 'sext' and w > 8 else x % (1 << w)))
            if op == 'sext' and w0 == 1 and w > 8:
                out = []
                for tr in (True, False):
                    t = st.copy()
                    if t.efilter(v, tr): out += self.setv(t, i, Lin(-1 if tr else 0))
                return out
            return self.setv(st, i, Ex(op, w, v))
        if isinstance(v, tuple) and v[0] in ('cmp', 'and', 'or', 'not') and op in ('zext', 'sext'):
            out = []
            for tr in (True, False):
                for s in self.assume(st.copy(), v, tr): out += self.setv(s, i, self.constv(w, int(tr) if op == 'zext' else (-1 if w > 8 else (1 << w) - 1) * int(tr)))
            return out
        if isinstance(v, Lin):
            if op == 'trunc':
                if v.is_const: return self.setv(st, i, self.constv(w, v.c % (1 << w)))
                if w >= 16 and st.lb(v) >= 0 and st.ub(v) < (1 << w): return self.setv(st, i, v)
                if w >= 16 and st.lb(v) >= -(1 << (w - 1)) and st.ub(v) < (1 << (w - 1)): return self.setv(st, i, v)
                if w in (16, 32) and st.lb(v) >= 0 and st.ub(v) < 1 << 63:          # remainder modulo 2^w
                    l = st.canon(v); d = st.defs.get((l, 1 << w))
                    if d is None:
                        q = st.newsym('q', 0, int(st.ub(l)) >> w); r = st.newsym('r', 0, (1 << w) - 1)
                        st.defs[(l, 1 << w)] = d = (q.t[0][0], r.t[0][0]); st.add_eq(l - q * (1 << w) - r)
                    return self.setv(st, i, Lin.sym(d[1]))
                return self.setv(st, i, self.fresh(st, i.ty, i.name))
            can = self.ucan if op == 'zext' else self.scan
            return [s for s0, l in can(st, v, w0) for s in self.setv(s0, i, l)]
        return self.setv(st, i, self.fresh(st, i.ty, i.name))

    def only_sign(self, x):
        """is instruction x used only in tests of its sign"""
        if not hasattr(self.fn, '_users'):
            self.fn._users = {}
            for b in self.fn.blocks:
                for j in b.insts + ([b.term] if b.term not in b.insts else []):
                    for o in list(j.ops) + [v for v, _ in (getattr(j, 'incoming', None) or ())]:
                        if o.kind == 'inst': self.fn._users.setdefault(o.ref, []).append(j)
        return all(j.op == 'icmp' and j.ops[0].ref == x.ref and j.ops[1].kind == 'int' and (j.pred, s2(j.ops[1].value % (1 << x.ty.width), x.ty.width)) in (('sgt', -1), ('slt', 0)) for j in self.fn._users.get(x.ref, ()))

    def arith(self, st, i):
        op = i.op; w = i.ty.width; a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
        if isinstance(a, tuple) and a and a[0] == 'pack' or isinstance(b, tuple) and b and b[0] == 'pack':
            if op == 'lshr' and isinstance(b, Lin) and b.is_const and b.c % 8 == 0:
                return self.setv(st, i, ('pack', tuple((o - b.c // 8, z, x) for o, z, x in a[1] if o >= b.c // 8)))
            return self.setv(st, i, self.fresh(st, i.ty, i.name))
        if w == 1:
            if op in ('and', 'or'): r = self.bop(op, a, b)
            elif op == 'xor' and isinstance(b, Ex) and b.k == 'const' and b.a[0] == 1:
                r = Ex('op', 1, 'xor', a, b) if isinstance(a, Ex) else ('not', a) if a is not None else None
            elif op == 'xor' and isinstance(a, Ex) and isinstance(b, Ex): r = Ex('op', 1, 'xor', a, b)
            elif op == 'xor' and isinstance(a, tuple) and isinstance(b, tuple): r = ('or', ('and', a, ('not', b)), ('and', ('not', a), b))
            else: r = None
            return self.setv(st, i, r if r is not None else self.fresh(st, i.ty, i.name))
        pa = isinstance(a, tuple) and a and a[0] == 'pint'; pb = isinstance(b, tuple) and b and b[0] == 'pint'
        if pa or pb:
            if op == 'sub' and pb and a == Lin(0): a = ('pint', Ptr('null')); pa = True
            if op == 'sub' and pa and b == Lin(0): b = ('pint', Ptr('null')); pb = True
            if op == 'sub' and pa and pb and a[1].obj == b[1].obj: return self.setv(st, i, (a[1].off - b[1].off) * self.model.scale.get(a[1].obj, 1))
            if (pa and a[1].obj in self.model.scale) or (pb and b[1].obj in self.model.scale): return self.setv(st, i, self.fresh(st, i.ty, i.name))
            if op == 'sub' and pa and isinstance(b, Lin): return self.setv(st, i, ('pint', Ptr(a[1].obj, a[1].off - b)))
            if op == 'add' and pa and isinstance(b, Lin): return self.setv(st, i, ('pint', Ptr(a[1].obj, a[1].off + b)))
            if op == 'add' and pb and isinstance(a, Lin): return self.setv(st, i, ('pint', Ptr(b[1].obj, b[1].off + a)))
            if op == 'sub' and pa and pb: return self.setv(st, i, ('pdiff', a[1], b[1]))
            return self.setv(st, i, self.fresh(st, i.ty, i.name))
        ea, eb = self.to_ex(st, a, w), self.to_ex(st, b, w)
        if isinstance(a, Ex) and eb is not None or isinstance(b, Ex) and ea is not None:
            if ea.k == 'const' and eb.k == 'const':
                r = concrete(op, w, ea.a[0], eb.a[0])
                return self.setv(st, i, self.constv(w, r) if r is not None else None)
            return self.setv(st, i, Ex('op', w, op, ea, eb))
        if isinstance(a, Ex): a = self.to_lin(st, a)
        if isinstance(b, Ex): b = self.to_lin(st, b)
        if isinstance(a, Lin) and isinstance(b, Lin):
            if a.is_const and b.is_const:
                r = concrete(op, w, a.c % (1 << w), b.c % (1 << w))
                return self.setv(st, i, Lin(s2(r, w)) if r is not None else None)
            if op == 'add': return self.setv(st, i, a + b)
            if op == 'sub': return self.setv(st, i, a - b)
            if op == 'mul' and b.is_const: return self.setv(st, i, a * b.c)
            if op == 'xor' and b.is_const and b.c % (1 << w) == (1 << w) - 1: return self.setv(st, i, -a - 1)
            if op == 'mul' and a.is_const: return self.setv(st, i, b * a.c)
            if op == 'xor' and not b.is_const and self.only_sign(i): return self.setv(st, i, st.newsym('xor'))
            if op == 'ashr' and b.is_const and 0 < b.c < w and (st.lb(a) < 0 or w < 64 and st.ub(a) >= 1 << (w - 1)):
                out = []
                for s, l in self.scan(st, a, w):
                    s, _ = self.rem(s, l, 1 << b.c); out += self.setv(s, i, Lin.sym(s.defs[(s.canon(l), 1 << b.c)][0]))
                return out
            if op == 'sdiv' and b.is_const and b.c > 1 and w >= 64 and self.model.unroll and -INF < st.lb(a) < 0:       # truncation towards zero: by sign
                p, n = st.copy(), st.copy(); pos = p.assume_le(-a) is not False and p.consistent(); neg = n.assume_le(a + 1) is not False and n.consistent()
                if not (pos and p.lb(a) < 0):
                    out = self.arith(p, i) if pos else []
                    if neg: n, _ = self.rem(n, -a, b.c); out += self.setv(n, i, -Lin.sym(n.defs[(n.canon(-a), b.c)][0]))
                    return out
            if op == 'shl' and b.is_const and b.c < 32: return self.setv(st, i, a * (1 << b.c))
            k = None
            if b.is_const:
                if op in ('udiv', 'urem') and b.c > 0: k = b.c
                elif op == 'lshr': k = 1 << b.c
                elif op == 'and' and b.c > 0 and b.c & (b.c + 1) == 0: k = b.c + 1
                elif op == 'sdiv' and b.c < 0 and st.lb(a) >= 0: k = -b.c
                elif op in ('sdiv', 'srem', 'ashr') and b.c > 0 and st.lb(a) >= 0 and (w >= 64 or st.ub(a) < 1 << (w - 1)): k = b.c if op != 'ashr' else 1 << b.c
                elif op == 'and' and b.c < 0 and (-b.c) & (-b.c - 1) == 0: k = -b.c     # align down
            if op == 'and' and k is None and b.is_const and b.c > 0 and st.lb(a) >= 0:        # sum of bit runs [lo, hi): x mod 2^hi - x mod 2^lo
                m_ = b.c % (1 << w); r = Lin(0); bit = 0
                def rem(x, e):
                    if e == 0: return Lin(0)
                    x = st.canon(x); d = st.defs.get((x, 1 << e))
                    if d is None:
                        qq = st.newsym('q', 0); rr = st.newsym('r', 0, (1 << e) - 1); st.defs[(x, 1 << e)] = d = (qq.t[0][0], rr.t[0][0])
                        hi = st.ub(x)
                        if hi < INF: st.z.add(d[0], '0', int(hi) >> e)
                        st.add_eq(x - qq * (1 << e) - rr)
                    return Lin.sym(d[1])
                while m_ >> bit:
                    if m_ >> bit & 1:
                        lo_ = bit
                        while m_ >> bit & 1: bit += 1
                        r = r + rem(a, bit) - rem(a, lo_)
                    else: bit += 1
                return self.setv(st, i, r)
            if op == 'or' and b.is_const and b.c >= 0 and st.lb(a) >= 0:
                if b.c == 0 or st.ub(a) < (b.c & -b.c): return self.setv(st, i, a + b.c)          # no common bits
                r = st.newsym('or', max(0, b.c)); st.assume_le(a - r); st.assume_le(r - a - b.c); return self.setv(st, i, r)
            if k and op in ('sdiv', 'udiv', 'ashr', 'lshr') and b.c > 0 and a.c % k == 0 and all(x % k == 0 for _, x in a.t) and (st.lb(a) >= 0 or op in ('sdiv', 'ashr')) \
                    and (w >= 64 or st.lb(a) >= -(1 << (w - 1)) and st.ub(a) < 1 << (w - (op in ('sdiv', 'ashr')))):
                return self.setv(st, i, Lin(a.c // k, tuple((y, x // k) for y, x in a.t)))
            if k:
                out = []
                for s, l in self.ucan(st, a, w):
                    l = s.canon(l)
                    if op in ('and', 'urem', 'srem') and not (op == 'and' and b.c < 0) and len(l.t) == 1 and l.t[0][1] == 1 and l.c == 0:
                        base = next((e2 for (e2, k2), v in s.defs.items() if v[1] == l.t[0][0] and k2 % k == 0), None)
                        if base is not None: l = base                  # (x mod K) mod k = x mod k when k divides K
                    d = s.defs.get((l, k))
                    if d is None: d = next((v for (e2, k2), v in s.defs.items() if k2 == k and s.eq(e2, l)), None)
                    if d is None:
                        q = s.newsym('q', 0); r = s.newsym('r', 0, k - 1)
                        s.defs[(l, k)] = d = (q.t[0][0], r.t[0][0])
                        hi = s.ub(l)
                        if hi < INF: s.z.add(d[0], '0', hi // k)
                        lo = s.lb(l)
                        if lo > 0: s.z.add('0', d[0], -(lo // k))
                        if len(l.t) == 1 and l.t[0][1] == 1 and k > 1:        # q <= l when l >= 0
                            s.assume_le(q - l)
                        if k > 1: s.add_eq(l - q * k - r)
                        else: s.assume_eq(l - q)
                    q, r = Lin.sym(d[0]), Lin.sym(d[1])
                    if op == 'sdiv' and b.c < 0: v = -q
                    elif op in ('udiv', 'lshr', 'sdiv', 'ashr'): v = q
                    elif op == 'and' and b.c < 0: v = q * k
                    else: v = r
                    out += self.setv(s, i, v)
                return out
        return self.setv(st, i, self.fresh(st, i.ty, i.name))

    # ------------------------------------------------------------------ calls
    def cname(self, i):
        c = i.callee
        n = getattr(c, 'name', '') or ''
        return n

    def arg_const(self, i, k):
        """is IR argument k of call i a pointer the callee does not write through (C++ constness)"""
        c = i.callee
        if not hasattr(c, 'dname'): return False
        key = (c.name, len(i.ops), bool(i.sret))
        m = _constargs.get(key)
        if m is None:
            d = c.dname; ps = params(d); m = {}
            pos = 1 if i.sret else 0
            flat = []
            for p in ps:
                if re.match(r"^std::(basic_string_view<.*>|span<.*>|basic_format_string<.*>)$", p) and not p.endswith(('&', '*')): flat += [p, p]
                else: flat.append(p)
            n = len(i.ops) - pos
            if n == len(flat) + 1: m[pos] = is_const_method(d); pos += 1
            elif n != len(flat): m = {}; pos = None
            if pos is not None:
                for j, p in enumerate(flat):
                    m[pos + j] = bool(re.search(r"const\s*[&*]$|const&&$", p)) or not p.endswith(('&', '*'))
            _constargs[key] = m
        return m.get(k, False)

    def do_call(self, st, i):
        n = self.cname(i)
        if getattr(i.callee, 'kind', None) != 'func' and not isinstance(i.callee, Function):       # indirect: resolved through a tracked virtual table
            f = self.val(st, i.callee) if isinstance(i.callee, Value) else None
            n = f.name if isinstance(f, FnPtr) else n
        if n.startswith(PASS): return [st]
        if n.startswith('llvm.'): return self.intrinsic(st, i, n)
        if i.asm: return self.setv(st, i, self.fresh(st, i.ty, i.name)) if i.ty.kind in ('int', 'ptr') else [st]
        args = [self.val(st, a) for a in i.ops]
        q = qname(demangle(n)) if n.startswith('_Z') else n
        r = self.model.call(self, st, i, q, args)
        if r is not None:
            out = []
            for s, v in r:
                if v is not None: s.env[i.ref] = v
                else: s.env.pop(i.ref, None)
                out.append(s)
            return out
        if q in ctype_sets.PURE and len(args) >= 1 and isinstance(args[0], Ex):
            return self.setv(st, i, Ex('call', i.ty.width, q, args[0]))
        if getattr(i.callee, 'noreturn', False) or q in ('__cxa_throw', 'std::terminate', 'abort', '__clang_call_terminate', 'std::__throw_out_of_range_fmt'):
            if self.record: self.model.throw(self, st, i, q)
            return []
        if q in ('__cxa_allocate_exception', 'operator new', 'operator new[]', 'malloc'):
            return self.setv(st, i, Ptr(f"n:{q}{next(_fresh)}", Lin(0)))
        if not QUIET.search(q):
            lam = "lambda" in demangle(n); esc = [v for k, v in enumerate(args) if isinstance(v, Ptr) and (lam or not self.arg_const(i, k))]
            if (self.escape(st, esc) or lam and esc) and st.taint is None: st.taint = f"effects of {q} unknown"
            if lam:
                for v in esc: st.havoc(v.obj)
        for k, v in enumerate(args):
            if isinstance(v, Ptr) and not self.arg_const(i, k):
                if v.off.is_const: 
                    z = i.deref.get(k)
                    st.havoc(v.obj, v.off.c, v.off.c + z if z else None)
                else: st.havoc(v.obj)
        if i.ty.kind in ('int', 'ptr'): return self.setv(st, i, self.fresh(st, i.ty, i.name or 'call'))
        st.env.pop(i.ref, None)
        return [st]

    def escape(self, st, ps):
        """objects reachable through pointers stored in what an unknown callee is handed may be changed by it"""
        seen, todo = set(), [p.obj for p in ps]
        while todo:
            o = todo.pop()
            for z, v in list(st.mem.get(o, {}).values()):
                if isinstance(v, Ptr) and v.obj not in seen and v.obj.startswith(('a:', 'n:')) and v.obj != o: seen.add(v.obj); todo.append(v.obj)
        for o in seen: st.havoc(o)
        return seen

    def intrinsic(self, st, i, n):
        V = lambda k: self.val(st, i.ops[k])
        m = re.match(r"llvm\.(u|s)(min|max)\.", n)
        if m:
            a, b = V(0), V(1); w = i.ty.width
            op = m.group(1) + m.group(2)
            ea, eb = self.to_ex(st, a, w), self.to_ex(st, b, w)
            if ea is not None and eb is not None: 
                if ea.k == eb.k == 'const': return self.setv(st, i, self.constv(w, concrete(op, w, ea.a[0], eb.a[0])))
                return self.setv(st, i, Ex('op', w, op, ea, eb))
            c = self.cmp(m.group(1) + ('le' if m.group(2) == 'min' else 'ge'), a, b, w)
            if c is None: return self.setv(st, i, self.fresh(st, i.ty, i.name))
            out = []
            for tr, x in ((True, a), (False, b)):
                for s in self.assume(st.copy(), c, tr): out += self.setv(s, i, x)
            return out
        if n.startswith('llvm.eh.typeid.for'):
            v = self.model.typeid(self, st, i, getattr(i.ops[0], 'name', ''))
            return self.setv(st, i, self.fresh(st, i.ty, i.name) if v is None else v)
        if n.startswith('llvm.assume'):
            return self.assume(st, V(0), True)
        if n.startswith('llvm.expect'): return self.setv(st, i, V(0))
        if n.startswith('llvm.usub.sat'):
            a, b = V(0), V(1); w = i.ty.width
            if isinstance(a, Lin) and isinstance(b, Lin):
                c = self.cmp('uge', a, b, w); out = []
                for s in self.assume(st.copy(), c, True): out += self.setv(s, i, a - b)
                for s in self.assume(st.copy(), c, False): out += self.setv(s, i, Lin(0))
                return out
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            d, s_, z = V(0), V(1), V(2)
            if isinstance(d, Ptr):
                cells = []
                if isinstance(s_, Ptr) and isinstance(z, Lin) and z.is_const and s_.off.is_const and d.off.is_const:
                    cells = [(o - s_.off.c, c) for o, c in st.mem.get(s_.obj, {}).items() if s_.off.c <= o and o + c[0] <= s_.off.c + z.c]
                    st.havoc(d.obj, d.off.c, d.off.c + z.c)
                    for o, (sz, v) in cells: st.mem.setdefault(d.obj, {})[d.off.c + o] = (sz, v)
                    gb = self.gbytes(s_.obj)
                    if gb is not None and z.c <= 64:
                        for o in range(z.c): st.mem.setdefault(d.obj, {})[d.off.c + o] = (1, ec(8, gb[s_.off.c + o]))
                else: st.havoc(d.obj)
                self.model.store(self, st, i, d, None)
            return [st]
        if n.startswith('llvm.memset'):
            d, v, z = V(0), V(1), V(2)
            if isinstance(d, Ptr):
                if d.off.is_const and isinstance(z, Lin) and z.is_const:
                    st.havoc(d.obj, d.off.c, d.off.c + z.c)
                    if isinstance(v, Ex) and v.k == 'const' and v.a[0] == 0 and z.c % 8 == 0 and z.c <= 512:
                        for o in range(0, z.c, 8): st.mem.setdefault(d.obj, {})[d.off.c + o] = (8, Lin(0))
                else: st.havoc(d.obj)
            return [st]
        if n.startswith(('llvm.fshl', 'llvm.fshr')):
            a, b, c = V(0), V(1), V(2); w = i.ty.width
            ea, eb, ec_ = self.to_ex(st, a, w), self.to_ex(st, b, w), self.to_ex(st, c, w)
            if ea is not None and eb is not None and ec_ is not None and ec_.k == 'const':
                k = ec_.a[0] % w
                if k == 0: return self.setv(st, i, ea if 'fshl' in n else eb)
                l = k if 'fshl' in n else w - k
                return self.setv(st, i, Ex('op', w, 'or', Ex('op', w, 'shl', ea, ec(w, l)), Ex('op', w, 'lshr', eb, ec(w, w - l))))
        if n.startswith(('llvm.bswap', 'llvm.ctpop', 'llvm.abs')): pass
        if n.startswith('llvm.is.constant'): return self.setv(st, i, ec(1, 0))
        if n.startswith('llvm.objectsize'): return self.setv(st, i, Lin(-1))
        if n.startswith('llvm.trap') or n.startswith('llvm.ubsantrap'):
            if self.record: self.model.throw(self, st, i, 'trap')
            return []
        if i.ty.kind in ('int', 'ptr'): return self.setv(st, i, self.fresh(st, i.ty, i.name or 'intr'))
        if i.ty.kind == 'struct' and i.ty.fields: return self.setv(st, i, ('agg',) + tuple(self.fresh(st, f, 'agg') for f in i.ty.fields))
        return [st]

_constargs = {}
QUIET = re.compile(r'~|^__cxa_|^operator delete|^free$|^__gxx|^std::(ios_base|locale|allocator|basic_ios|basic_streambuf)\b')
from rel import _fresh
