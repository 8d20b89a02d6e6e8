"""Forward abstract interpretation of one (inlined) function: interval-set values per SSA name,
branch refinement through the defining expressions, trace partitioning by a client typestate.
Nothing is executed; loops are handled by joining and widening to a fixpoint."""
from iset import *
import ctype_sets

BIN = {'add','sub','mul','and','or','xor','shl','lshr','ashr','udiv','urem','sdiv','srem'}
MINMAX = {'llvm.umax': 'umax', 'llvm.umin': 'umin', 'llvm.smax': 'smax', 'llvm.smin': 'smin'}

def width(v):
    return v.ty.width if v.ty.kind in ('int', 'ptr') else 0

def intr(v):
    """name of intrinsic/min-max op for a call, or None"""
    c = v.callee
    n = getattr(c, 'name', '') or ''
    for p, o in MINMAX.items():
        if n.startswith(p + '.'): return o
    return None

def call_name(v):
    c = v.callee
    return getattr(c, 'name', '') if c is not None else ''

class Bottom(Exception): pass

class Dom:
    """expression semantics shared by engine and queries"""
    def __init__(self, pure_calls=None, table=None):
        self.pure_calls = dict(ctype_sets.PURE)      # name -> f(concrete args)->int
        if pure_calls: self.pure_calls.update(pure_calls)
        self.table = table                            # load inst -> (bytes, index value, elem size) for constant tables
        self._deps = {}
        self._tab = {}

    # ---- structure ----------------------------------------------------------------------
    def is_pure(self, v):
        if v.kind != 'inst': return False
        if v.op in BIN or v.op in ('icmp', 'zext', 'sext', 'trunc', 'select', 'freeze', 'bitcast'): return True
        if v.op == 'call':
            if intr(v): return True
            return call_name(v) in self.pure_calls
        if v.op == 'load': return self.const_table(v) is not None
        return False

    def const_table(self, v):
        """load from constant global array: (bytes, [(idx, scale)], const offset)"""
        if v.ref in self._tab: return self._tab[v.ref]
        r = None
        p = v.ops[0]; off = 0; var = []
        while True:
            if p.kind in ('inst', 'constexpr') and p.op == 'gep':
                off += p.gep[0]; var += p.gep[1]; p = p.ops[0]; continue
            break
        if p.kind == 'global' and v.ty.kind == 'int' and len(var) <= 1:
            b = v.mod.const_bytes(p.name)
            if b is not None: r = (b, var, off)
        self._tab[v.ref] = r
        return r

    def leaves(self, v, acc=None, depth=0):
        """non-constant leaves of the pure expression rooted at v"""
        if acc is None: acc = {}
        if v.kind == 'int' or v.is_const: return acc
        if depth > 24: acc[v.ref] = v; return acc
        if self.is_pure(v):
            if v.op == 'load':
                t = self.const_table(v)
                for ix, _ in t[1]: self.leaves(ix, acc, depth + 1)
            else:
                for o in v.ops: self.leaves(o, acc, depth + 1)
        else: acc[v.ref] = v
        return acc

    def conc(self, v, m):
        """concrete value of a pure expression under leaf assignment m (ref->int), None if undefined"""
        if v.kind == 'int': return v.value & ((1 << v.ty.width) - 1)
        if v.kind in ('null', 'zeroinit'): return 0
        if v.ref in m: return m[v.ref]
        if v.kind != 'inst': return None
        op = v.op
        if op in BIN:
            a = self.conc(v.ops[0], m); b = self.conc(v.ops[1], m)
            if a is None or b is None:
                return None
            return concrete(op, v.ty.width, a, b)
        if op == 'icmp':
            a = self.conc(v.ops[0], m); b = self.conc(v.ops[1], m)
            if a is None or b is None: return None
            return int(cicmp(v.pred, width(v.ops[0]), a, b))
        if op == 'zext': return self.conc(v.ops[0], m)
        if op == 'sext':
            a = self.conc(v.ops[0], m); w = v.ops[0].ty.width
            return None if a is None else s2(a, w) % (1 << v.ty.width)
        if op == 'trunc':
            a = self.conc(v.ops[0], m)
            return None if a is None else a % (1 << v.ty.width)
        if op == 'freeze': return self.conc(v.ops[0], m)
        if op == 'select':
            c = self.conc(v.ops[0], m)
            return None if c is None else self.conc(v.ops[1] if c else v.ops[2], m)
        if op == 'call':
            o = intr(v)
            if o: 
                a = self.conc(v.ops[0], m); b = self.conc(v.ops[1], m)
                return None if a is None or b is None else concrete(o, v.ty.width, a, b)
            f = self.pure_calls.get(call_name(v))
            if f:
                args = [self.conc(x, m) for x in v.ops]
                if None in args: return None
                r = f(*[s2(a, width(x)) for a, x in zip(args, v.ops)])
                return None if r is None else r % (1 << v.ty.width)
        if op == 'load':
            t = self.const_table(v)
            if t:
                off = t[2]
                for ix, sc in t[1]:
                    i = self.conc(ix, m)
                    if i is None: return None
                    off += s2(i, width(ix)) * sc
                if 0 <= off and off + v.ty.size <= len(t[0]): return int.from_bytes(t[0][off:off + v.ty.size], 'little')
        return None

    def dependents(self, v):
        """pure instructions transitively computed from v"""
        d = self._deps.get(v.ref)
        if d is None:
            d = set(); st = [v]
            while st:
                x = st.pop()
                for u in x.uses:
                    if u.ref not in d and (self.is_pure(u) or u.op in ('extractvalue', 'gep')):
                        d.add(u.ref); st.append(u)
            self._deps[v.ref] = d
        return d

    # ---- abstract evaluation ---------------------------------------------------------------
    def ev(self, v, env, depth=0):
        w = width(v)
        if v.kind == 'int': return ISet.const(w, v.value if v.value is not None else 0)
        if v.kind in ('null', 'zeroinit') and w: return ISet.const(w, 0)
        if v.kind in ('undef', 'poison') and w: return ISet.top(w)
        if w == 0: return None
        e = env.get(v.ref)
        if v.kind != 'inst' or depth > 40: return e if e is not None else ISet.top(w)
        r = None; op = v.op
        if op in BIN:
            r = binop(op, self.ev(v.ops[0], env, depth + 1), self.ev(v.ops[1], env, depth + 1))
            if w <= 8 or e is None:
                pass
        elif op == 'icmp':
            if width(v.ops[0]):
                r = icmp(v.pred, self.ev(v.ops[0], env, depth + 1), self.ev(v.ops[1], env, depth + 1))
                if v.ops[0] is v.ops[1]: r = ISet.const(1, int(v.pred in ('eq', 'ule', 'uge', 'sle', 'sge')))
            else: r = ISet.top(1)
        elif op == 'zext': r = zext(self.ev(v.ops[0], env, depth + 1), w)
        elif op == 'sext': r = sext(self.ev(v.ops[0], env, depth + 1), w)
        elif op == 'trunc': r = trunc(self.ev(v.ops[0], env, depth + 1), w)
        elif op == 'freeze': r = self.ev(v.ops[0], env, depth + 1)
        elif op == 'select':
            c = self.ev(v.ops[0], env, depth + 1)
            r = ISet.bot(w)
            if 1 in c:
                e1 = self.refine(dict(env), v.ops[0], True)
                if e1 is not None: r = r.union(self.ev(v.ops[1], e1, depth + 1))
            if 0 in c:
                e0 = self.refine(dict(env), v.ops[0], False)
                if e0 is not None: r = r.union(self.ev(v.ops[2], e0, depth + 1))
        elif op == 'call':
            o = intr(v)
            if o: r = binop(o, self.ev(v.ops[0], env, depth + 1), self.ev(v.ops[1], env, depth + 1))
            elif call_name(v) in self.pure_calls: r = self.enum(v, env)
        elif op == 'load' and self.const_table(v) is not None: r = self.enum(v, env)
        elif op == 'extractvalue' and v.ops[0].kind == 'inst' and v.ops[0].op == 'cmpxchg': pass
        if r is None: r = ISet.top(w)
        return r if e is None else r.inter(e)

    def enum(self, v, env):
        """exact image of a pure expression with a single small-domain leaf"""
        lv = list(self.leaves(v).values())
        if len(lv) == 1 and width(lv[0]):
            s = self.ev(lv[0], env)
            if s.size <= 65536:
                out = set()
                for x in s.values():
                    r = self.conc(v, {lv[0].ref: x})
                    if r is None: return ISet.top(width(v))
                    out.add(r)
                    if len(out) > 4096: return ISet.top(width(v))
                return ISet.of(width(v), out)
        return ISet.top(width(v))

    # ---- refinement ---------------------------------------------------------------------------
    def meet(self, env, v, s):
        """env := env and v in s ; returns env or None (contradiction)"""
        if v.kind == 'int' or v.is_const:
            return env if (self.ev(v, env).inter(s)) else None
        cur = self.ev(v, env)
        n = cur.inter(s)
        if not n: return None
        if n == cur and v.ref in env: return env
        env[v.ref] = n
        return self.back(env, v, n)

    def back(self, env, v, s, depth=0):
        """push the constraint v in s to the operands of v"""
        if v.kind != 'inst' or depth > 20: return env
        op = v.op
        def m(x, t): return self.meet(env, x, t)
        if op in ('add', 'sub', 'xor'):
            a, b = v.ops
            ka = self.ev(b, env).single()
            if ka is not None:
                if op == 'add': return m(a, binop('sub', s, ISet.const(s.w, ka)))
                if op == 'sub': return m(a, binop('add', s, ISet.const(s.w, ka)))
                if op == 'xor' and s.size <= ENUM: return m(a, ISet.of(s.w, [x ^ ka for x in s.values()]))
            kb = self.ev(a, env).single()
            if kb is not None and op == 'sub': return m(b, binop('sub', ISet.const(s.w, kb), s))
            return env
        if op == 'zext':
            w = v.ops[0].ty.width
            return m(v.ops[0], ISet(w, s.inter(ISet.urange(s.w, 0, (1 << w) - 1)).iv))
        if op == 'sext':
            w = v.ops[0].ty.width
            ok = s.inter(ISet.srange(s.w, -(1 << (w - 1)), (1 << (w - 1)) - 1))
            return m(v.ops[0], trunc(ok, w)) if ok else None
        if op == 'freeze': return m(v.ops[0], s)
        if op in ('and', 'or') and s.w == 1:
            k = s.single()
            if k is not None: return self.refine(env, v, bool(k))
        if op == 'select':
            a, b = v.ops[1], v.ops[2]
            e1 = self.refine(dict(env), v.ops[0], True); e1 = e1 and self.meet(e1, a, s)
            e0 = self.refine(dict(env), v.ops[0], False); e0 = e0 and self.meet(e0, b, s)
            return self.join2(e1, e0)
        if op == 'call' and intr(v):
            o = intr(v); a, b = v.ops
            kb = self.ev(b, env)
            # smax(a,k) in s : if k not in s then a in s ; if s within (k, inf) etc.
            if kb.single() is not None and not kb.inter(s): return m(a, s)
            return env
        if op == 'phi' or op == 'load' and self.const_table(v) is None: return env
        if self.is_pure(v): return self.filt(env, v, lambda x: x in s)
        return env

    def filt(self, env, v, ok):
        """elementwise filtering of the single small leaf of a pure expression"""
        lv = list(self.leaves(v).values())
        if len(lv) == 1 and width(lv[0]):
            s = self.ev(lv[0], env)
            if s.size <= 65536:
                keep = []
                for x in s.values():
                    r = self.conc(v, {lv[0].ref: x})
                    if r is None or ok(r): keep.append(x)
                if not keep: return None
                n = ISet.of(s.w, keep)
                if n != s:
                    env[lv[0].ref] = n
                    return self.back(env, lv[0], n)
        return env

    def join2(self, a, b):
        if a is None: return b
        if b is None: return a
        out = {}
        for k, x in a.items():
            y = b.get(k)
            if y is None: continue
            if isinstance(x, ISet):
                u = x.union(y)
                out[k] = u
            elif x == y: out[k] = x
        return out

    def refine(self, env, c, truth):
        """env and (c == truth); None if contradictory"""
        if c.kind == 'int': return env if bool(c.value) == truth else None
        if c.kind in ('undef', 'poison'): return env
        e = env.get(c.ref)
        if isinstance(e, ISet) and e.single() is not None and bool(e.single()) != truth: return None
        if c.kind == 'inst':
            op = c.op
            if op == 'icmp' and width(c.ops[0]):
                a, b = c.ops; p = c.pred if truth else INV[c.pred]
                env = self.rel_refine(env, p, a, b)
                if env is None: return None
                A, B = self.ev(a, env), self.ev(b, env)
                na = constrain(p, A, B); nb = constrain(SWP[p], B, A)
                if not na or not nb: return None
                env = self.meet(env, a, na)
                if env is None: return None
                env = self.meet(env, b, nb)
                if env is None: return None
            elif op in ('and', 'or') and c.ty.width == 1 or op == 'select' and c.ty.width == 1:
                if op == 'and': x, y, conj = c.ops[0], c.ops[1], True
                elif op == 'or': x, y, conj = c.ops[0], c.ops[1], False
                else:
                    s0, s1, s2_ = c.ops
                    if s2_.kind == 'int' and s2_.value == 0: x, y, conj = s0, s1, True        # s0 && s1
                    elif s1.kind == 'int' and s1.value: x, y, conj = s0, s2_, False             # s0 || s2
                    else:
                        e1 = self.refine(dict(env), s0, True); e1 = e1 and self.refine(e1, s1, truth) if e1 is not None else None
                        e0 = self.refine(dict(env), s0, False); e0 = e0 and self.refine(e0, s2_, truth) if e0 is not None else None
                        x = None; env = self.join2(e1, e0)
                        if env is None: return None
                if x is not None:
                    if conj == truth:   # both
                        env = self.refine(env, x, truth)
                        env = self.refine(env, y, truth) if env is not None else None
                        env = self.refine(env, x, truth) if env is not None else None
                    else:
                        e1 = self.refine(dict(env), x, truth)
                        e2 = self.refine(dict(env), x, not truth); e2 = self.refine(e2, y, truth) if e2 is not None else None
                        env = self.join2(e1, e2)
                    if env is None: return None
            elif op == 'xor' and c.ty.width == 1:
                k = self.ev(c.ops[1], env).single()
                if k is not None:
                    env = self.refine(env, c.ops[0], truth ^ bool(k))
                    if env is None: return None
            elif op == 'extractvalue' and c.ops[0].kind == 'inst' and c.ops[0].op == 'cmpxchg' and c.idxs == [1]:
                if truth:
                    x = c.ops[0]
                    for u in x.uses:
                        if u.op == 'extractvalue' and u.idxs == [0]:
                            env = self.meet(env, u, self.ev(x.ops[1], env))
                            if env is None: return None
            elif op == 'freeze':
                env = self.refine(env, c.ops[0], truth)
                if env is None: return None
            if self.is_pure(c):
                env = self.filt(env, c, lambda r: bool(r) == truth)
                if env is None: return None
        env[c.ref] = ISet.const(1, int(truth))
        return env

    def rel_refine(self, env, p, a, b): return env

class Client:
    """override to track a typestate"""
    def initial(self): return ()
    def inst(self, eng, i, env, ts): return None      # list of (ts, env) to replace default continuation
    def result(self, eng, i, env, ts): return None    # abstract value for an opaque result
    def ret(self, eng, i, env, ts): pass
    def resume(self, eng, i, env, ts): pass
    def edge(self, eng, src, dst, env, ts): return ts
    def unreachable(self, eng, i, env, ts): pass

class Engine:
    def __init__(self, fn, client=None, dom=None, init=None, max_ts=4000, widen_after=6, budget=200000):
        self.fn = fn; self.client = client or Client(); self.dom = dom or Dom(); self.init = init or {}
        self.states = {}      # (block, ts) -> env
        self.visits = {}
        self.widen_after = widen_after; self.budget = budget; self.max_ts = max_ts
        self.visited_edges = set()
        self.thresholds = {}
        for i in fn.insts():
            for o in i.ops:
                if o.kind == 'int' and o.value is not None:
                    self.thresholds.setdefault(o.ty.width, set()).update((o.value, o.value + 1, o.value - 1))

    def widen(self, old, new):
        if new.subset(old): return old
        w = new.w; M = 1 << w
        u = old.union(new)
        lo, hi = u.smin(), u.smax()
        ol, oh = old.smin(), old.smax()
        T = sorted(t for t in self.thresholds.get(w, ()) if -(M >> 1) <= t < (M >> 1))
        if lo < ol: lo = max([t for t in T if t <= lo], default=-(M >> 1))
        if hi > oh: hi = min([t for t in T if t >= hi], default=(M >> 1) - 1)
        return ISet.srange(w, lo, hi)

    def run(self):
        fn, cl, dom = self.fn, self.client, self.dom
        work = []
        def push(b, ts, env):
            key = (b, ts)
            old = self.states.get(key)
            if old is None:
                if len(self.states) > self.max_ts: raise OverflowError("typestate explosion in " + fn.dname)
                self.states[key] = env; work.append(key); return
            j = dom.join2(dict(old), env)
            n = self.visits.get(key, 0)
            if n >= self.widen_after:
                phis = {i.ref for i in b.insts if i.op == 'phi'}
                for k in list(j):
                    if isinstance(j[k], ISet) and j[k] != old.get(k):
                        if k in phis or n > self.widen_after + 4:
                            if k in old: j[k] = self.widen(old[k], j[k])
                        if n > self.widen_after + 20: del j[k]
            if j != old:
                self.states[key] = j; self.visits[key] = n + 1
                if key not in work: work.append(key)
        push(fn.entry, cl.initial(), dict(self.init))
        order = {b: n for n, b in enumerate(fn.rpo())}
        steps = 0
        while work:
            steps += 1
            if steps > self.budget: raise OverflowError("budget exceeded in " + fn.dname)
            work.sort(key=lambda k: order[k[0]])
            key = work.pop(0); b, ts = key
            for nb, nts, nenv in self.flow_block(b, ts, dict(self.states[key])):
                push(nb, nts, nenv)
        return self

    def define(self, env, i, val=None):
        """(re)definition of i: drop stale facts"""
        for d in self.dom.dependents(i): env.pop(d, None)
        env.pop(i.ref, None)
        if val is not None and isinstance(val, ISet) and not val.is_top(): env[i.ref] = val

    def flow_block(self, b, ts, env):
        cl, dom = self.client, self.dom
        cur = [(ts, env)]
        for i in b.insts:
            if i.op == 'phi': continue
            nxt = []
            for t, e in cur:
                r = cl.inst(self, i, e, t)
                if r is None: r = [(t, e)]
                for t2, e2 in r:
                    if i is b.term:
                        nxt.append((t2, e2)); continue
                    w = width(i)
                    if w and not dom.is_pure(i):
                        v = cl.result(self, i, e2, t2)
                        self.define(e2, i, v)
                    elif w: pass
                    else:
                        for d in dom.dependents(i): e2.pop(d, None)
                    nxt.append((t2, e2))
            cur = nxt
            if not cur: return
        t = b.term
        for ts2, e in cur:
            if t.op == 'ret': cl.ret(self, t, e, ts2); continue
            if t.op == 'resume': cl.resume(self, t, e, ts2); continue
            if t.op == 'unreachable': cl.unreachable(self, t, e, ts2); continue
            if t.op == 'invoke':
                e1 = dict(e)
                if width(t):
                    v = cl.result(self, t, e1, ts2); self.define(e1, t, v)
                else:
                    for d in dom.dependents(t): e1.pop(d, None)
                yield from self.edge(b, b.succs[0], e1, ts2)
                yield from self.edge(b, b.succs[1], dict(e), ts2)
                continue
            if t.op == 'br':
                if not t.ops: yield from self.edge(b, b.succs[0], e, ts2); continue
                c = t.ops[0]
                # LLVM: operand order -> succs[0] true, succs[1] false
                for k, truth in ((0, True), (1, False)):
                    cv = dom.ev(c, e)
                    if int(truth) not in cv: continue
                    e1 = dom.refine(dict(e), c, truth)
                    if e1 is None: continue
                    yield from self.edge(b, b.succs[k], e1, ts2)
                continue
            if t.op == 'switch':
                c = t.ops[0]; rest = dict(e)
                for val, dst in t.cases:
                    e1 = dom.meet(dict(e), c, ISet.const(width(c), val))
                    if e1 is not None: yield from self.edge(b, dst, e1, ts2)
                    if rest is not None: rest = dom.meet(rest, c, ISet.const(width(c), val).compl())
                if rest is not None: yield from self.edge(b, b.succs[0], rest, ts2)
                continue
            for s in b.succs: yield from self.edge(b, s, dict(e), ts2)

    def edge(self, src, dst, env, ts):
        dom = self.dom
        self.visited_edges.add((src, dst))
        ts = self.client.edge(self, src, dst, env, ts)
        if ts is None: return
        vals = []
        for i in dst.insts:
            if i.op != 'phi': break
            v = next((x for x, p in i.incoming if p is src), None)
            vals.append((i, dom.ev(v, env) if v is not None and width(i) else None, v))
        extra = self.client.phi_env(self, src, dst, env, vals) if hasattr(self.client, 'phi_env') else None
        for i, _, _ in vals:
            for d in dom.dependents(i): env.pop(d, None)
            env.pop(i.ref, None)
        for i, x, _ in vals:
            if x is not None and not x.is_top(): env[i.ref] = x
        if extra: env.update(extra)
        yield dst, ts, env
