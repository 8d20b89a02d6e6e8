"""disruptor: sequences, claim strategies, publication, pollers"""
from ir import Unit
from decide import *
from core import par
import policy

_units = {}
def unit(driver="disruptor.cpp", opaque=()):
    k = (driver, tuple(opaque))
    if k not in _units:
        _units[k] = Unit(driver, policy.make(extra_opaque=list(opaque), extra_inline=[r"^std::(operator&$|operator\|$|__shared_ptr|shared_ptr::|__shared_count|unique_ptr::|__uniq_ptr|ranges::)", r"^std::vector::(begin|end|cbegin|cend|size|empty|operator\[\]|front|back|at|data)$"]),
                         passes=policy.UNROLL, extra=policy.ALGOS + ["-fno-access-control"])
    return _units[k]
MINSEQ = r"disruptor::detail::getMinimumSequence$"; SPIN = r"SpinWait::spinOnce$"; AVAIL = r"ThreadedStrategy::isAvailable$"
HS = "src/disruptor/include/disruptor/Sequence.hpp"; HC = "src/disruptor/include/disruptor/ClaimStrategy.hpp"
TOP = 1 << 60
ACQ = ('acquire', 'acq_rel', 'seq_cst'); REL = ('release', 'acq_rel', 'seq_cst')

def const_of(u, f):
    """value of a constant-returning layout function of the driver"""
    try: fn = u.fn(f)
    except Exception: return None
    for b in fn.blocks:
        if b.term.op == 'ret' and b.term.ops and b.term.ops[0].kind == 'int': 
            v = b.term.ops[0].value
            return v if v < 1 << 63 else v - (1 << 64)
    return None

class Seq(Checked):
    """atomic words: 'o:..' objects named in self.words; each access goes through word_*"""
    words = ()
    def atom(self, eng, st, i):
        if i.op in ('load', 'cmpxchg', 'atomicrmw'): p = eng.val(st, i.ops[0])
        elif i.op == 'store': p = eng.val(st, i.ops[1])
        else: return None
        if not isinstance(p, Ptr) or p.obj not in self.words: return None
        if not st.eq(p.off, Lin(0)): raise Budget(f"{i.where()}: access at a computed offset of a sequence")
        return p.obj
    def read(self, eng, st, i, o): raise NotImplementedError
    def write(self, eng, st, i, o, v): raise NotImplementedError
    def swap(self, eng, st, i, o, old, new): raise NotImplementedError
    def inst(self, eng, st, i):
        o = self.atom(eng, st, i)
        if o is None: return None
        if i.op == 'load':
            if i.ordering == 'na': self.req(eng, st, False, "atomic", i, "shared sequence value is read atomically")
            v = self.read(eng, st, i, o)
            return eng.setv(st, i, v)
        if i.op == 'store':
            if i.ordering == 'na': self.req(eng, st, False, "atomic", i, "shared sequence value is written atomically")
            self.write(eng, st, i, o, eng.val(st, i.ops[0])); return [st]
        if i.op == 'atomicrmw':
            k = eng.val(st, i.ops[1])
            if i.rmw == 'xchg':
                old = self.read(eng, st, i, o); self.write(eng, st, i, o, k); return eng.setv(st, i, old)
            if i.rmw not in ('add', 'sub') or not isinstance(k, Lin): raise Budget(f"{i.where()}: atomicrmw {i.rmw}")
            old = self.read(eng, st, i, o); self.swap(eng, st, i, o, old, old + k if i.rmw == 'add' else old - k)
            return eng.setv(st, i, old)
        e, n = eng.val(st, i.ops[1]), eng.val(st, i.ops[2]); out = []
        if not isinstance(e, Lin) or not isinstance(n, Lin): raise Budget(f"{i.where()}: compare-exchange on an untracked value")
        s = st.copy(); old = self.read(eng, s, i, o)
        for s1 in eng.assume_cmp(s, 'eq', old, e, 64):
            self.swap(eng, s1, i, o, e, n); out += eng.setv(s1, i, ('agg', e, ec(1, 1)))
        for less in (True, False):
            f = st.copy(); old = self.read(eng, f, i, o)
            if f.assume_le((old - e + 1) if less else (e - old + 1)): out += eng.setv(f, i, ('agg', old, ec(1, 0)))
        if getattr(i, 'weak', False):
            f = st.copy(); self.read(eng, f, i, o); out += eng.setv(f, i, ('agg', e, ec(1, 0)))
        return out

# ------------------------------------------------------------------------------------------ Sequence
class SeqOps(Seq):
    """sequential meaning and memory order of the Sequence operations; ts = list of changes"""
    words = ('o:q',)
    def __init__(self, rep, key, role): super().__init__(rep, key); self.role = role
    def g(self, st): return st.mem['o:g'][0][1]
    def read(self, eng, st, i, o):
        if self.role == 'value': self.req(eng, st, i.ordering in ACQ, "acquire", i, f"value() is an acquire read (found {i.ordering})")
        if i.op in ('load',): st.ts = st.ts + ('load',)
        return self.g(st)
    def write(self, eng, st, i, o, v):
        st.ts = st.ts + ('store',)
        if self.role == 'set': self.req(eng, st, i.ordering in REL, "release", i, f"setValue() is a release write (found {i.ordering})")
        elif self.role != 'ctor': self.req(eng, st, False, "single-step", i, "the new value is written in the same atomic step that read the old one")
        st.mem['o:g'][0] = (8, v)
    def swap(self, eng, st, i, o, old, new):
        st.ts = st.ts + ('rmw',); st.mem['o:g'][0] = (8, new)
        self.req(eng, st, i.ordering in REL, "release", i, f"the update is a release operation (found {i.ordering})")
    def inst(self, eng, st, i):
        if self.role == 'ctor' and i.op == 'store':
            p = eng.val(st, i.ops[1])
            if isinstance(p, Ptr) and p.obj == 'o:q': self.write(eng, st, i, 'o:q', eng.val(st, i.ops[0])); return [st]
        return super().inst(eng, st, i)
    def ret(self, eng, st, i, v):
        self.rets += 1; w = self.g(st); v0 = Lin.sym('v0'); a = Lin.sym('a'); r = self.role; R = lambda c, k, d: self.req(eng, st, c, k, i, d)
        E = lambda x, y: isinstance(x, Lin) and st.eq(x, y)
        if r == 'value': R(E(v, v0) and E(w, v0), "result", f"value() returns the stored value and changes nothing (found {v})")
        elif r == 'set': R(E(w, a), "result", f"setValue(a) stores a (found {w})")
        elif r == 'ctor': R(E(w, Lin(-1)), "result", f"a new sequence starts at -1 (found {w})")
        elif r == 'ctorv': R(E(w, a), "result", f"a new sequence starts at the given value (found {w})")
        elif r in ('inc', 'add'):
            k = Lin(1) if r == 'inc' else a
            R(E(w, v0 + k) and st.ts.count('rmw') == 1, "result", f"the value grows by the amount in one atomic step (found {w}, steps {st.ts})"); R(E(v, v0 + k), "returns", f"the new value is returned (found {v})")
        elif r == 'cas':
            t = truth(st, v); same = eng.assume_cmp(st.copy(), 'eq', v0, a, 64) != []; diff = not E(v0, a)
            if t is None: self.rep.unk(f"{self.key}.honest", i.where(), f"result {v}")
            elif t: R(E(v0, a) and E(w, Lin.sym('b')), "success", f"compareAndSet reports success only if the value equalled the expected one and was replaced (value now {w})")
            else: R(not same and E(w, v0), "failure", "compareAndSet reports failure only if the value differed, and leaves it alone")
def run_sequence(rep):
    rep.rule("each Sequence operation is interpreted with symbolic stored value and arguments; result, new value, number of atomic steps and memory orders are compared with the specification (value: acquire, setValue: release, others: one read-modify-write)")
    u = unit()
    for f, role in (("vf_seq_value", 'value'), ("vf_seq_set", 'set'), ("vf_seq_cas", 'cas'), ("vf_seq_inc", 'inc'), ("vf_seq_add", 'add'), ("vf_seq_ctor", 'ctor'), ("vf_seq_ctor_v", 'ctorv')):
        def init(fn):
            st = State()
            for s in ('v0', 'a', 'b'): st.z.add(s, '0', TOP); st.z.add('0', s, TOP)
            st.env[fn.args[0].ref] = Ptr('o:q'); st.mem['o:g'] = {0: (8, Lin.sym('v0'))}
            for k, s in zip(fn.args[1:], ('a', 'b')): st.env[k.ref] = Lin.sym(s)
            return [st]
        def mk(role=role):
            m = SeqOps(rep, f"Sequence.{role}", 'ctor' if role == 'ctorv' else role)
            if role == 'ctorv': m.ret0 = m.ret; m.ret = lambda eng, st, i, v: (setattr(m, 'role', 'ctorv'), m.ret0(eng, st, i, v), setattr(m, 'role', 'ctor'))
            return m
        decide(rep, u.fn(f), mk, init, f"Sequence.{role}", HS)
        if not any(k.startswith(f"Sequence.{role}.") for k in rep.obl): rep.unk(f"Sequence.{role}.result", HS, "no obligation")

# ------------------------------------------------------------------------------------------ minimum of the gating sequences
class Minimum(Seq):
    """vector of n sequences; 'o:k' is an arbitrary one of them (index K), 'o:x' any other. D = value of sequence K when the call returns
    (values only grow), L = a lower bound of all values and of the initial minimum. ts: has sequence K been read"""
    words = ('o:k', 'o:x'); scale = {'o:v': 16}
    def read(self, eng, st, i, o):
        v = st.newsym('v', -1, TOP)
        st.assume_le(Lin.sym('L') - v)
        if o == 'o:k': st.assume_le(v - Lin.sym('D'))
        return v
    def write(self, eng, st, i, o, v): self.req(eng, st, False, "pure", i, "the sequences are not changed")
    def swap(self, eng, st, i, o, a, b): self.write(eng, st, i, o, b)
    def inst(self, eng, st, i):
        if i.op == 'load' and i.ty.kind == 'ptr':
            p = eng.val(st, i.ops[0])
            if isinstance(p, Ptr) and p.obj == 'o:v':
                out = []; q = p.off; K = Lin.sym('K')
                for c in ('lt', 'eq', 'gt'):
                        t = st.copy()
                        ok = t.assume_le(q - K + 1) if c == 'lt' else t.assume_le(K - q + 1) if c == 'gt' else t.assume_eq(q - K)
                        if not ok: continue
                        if c == 'eq': t.ts = (True,)
                        out += eng.setv(t, i, Ptr('o:k' if c == 'eq' else 'o:x'))
                return out
            if isinstance(p, Ptr) and p.obj == 'o:v.8': return eng.setv(st, i, Ptr('null'))        # reference counts play no role
        return super().inst(eng, st, i)
    def ret(self, eng, st, i, v):
        self.rets += 1
        if not isinstance(v, Lin): self.rep.unk(f"{self.key}.result", i.where(), f"result {v}"); return
        self.req(eng, st, st.le(v - Lin.sym('m')), "initial", i, "the result is not above the initial minimum")
        if self.n: self.req(eng, st, st.le(v - Lin.sym('D')), "bound", i, "the result is not above the value any of the sequences has when the call returns")
        self.req(eng, st, st.le(Lin.sym('L') - v), "tight", i, "the result is not below the initial minimum and all values read")
def run_min(rep):
    rep.rule("getMinimumSequence over a vector of any length: for an arbitrary element K (value only growing) the result never exceeds K's value at return nor the initial minimum, and is not below a common lower bound of all")
    u = unit()
    for n in (0, 1):
        def init(fn, n=n):
            st = State()
            for s in ('m', 'D', 'L'): st.z.add(s, '0', TOP); st.z.add('0', s, 1)
            st.assume_le(Lin.sym('L') - Lin.sym('m'))
            st.z.add('n', '0', 1 << 40); st.z.add('0', 'n', -n)
            if n: st.z.add('0', 'K', 0); st.assume_le(Lin.sym('K') - Lin.sym('n') + 1); st.assume_le(Lin.sym('L') - Lin.sym('D'))
            else: st.assume_eq(Lin.sym('n'))
            st.env[fn.args[0].ref] = Ptr('o:d'); st.env[fn.args[1].ref] = Lin.sym('m'); st.ts = (False,)
            end = Ptr('o:v', Lin.sym('n'))
            st.mem['o:d'] = {0: (8, Ptr('o:v')), 8: (8, end), 16: (8, end)}
            return [st]
        def mk(n=n):
            m = Minimum(rep, f"getMinimumSequence.{'some' if n else 'none'}"); m.n = n; m.accelerate = False; return m
        decide(rep, u.fn("vf_min"), mk, init, f"getMinimumSequence.{'some' if n else 'none'}", HS)

# ------------------------------------------------------------------------------------------ claiming
class Claim(Seq):
    """E = lowest gating sequence when the call starts, D = when it returns (E <= D, only growing); cached values are lower bounds of E.
    ghost 'o:g': 0 last cursor value read, 8 last minimum, 16 the claimed end; ts = number of claims"""
    words = ('o:cur', 'o:cache')
    def __init__(self, rep, key, role, multi, size, lay): super().__init__(rep, key); self.role = role; self.multi = multi; self.size = size; self.lay = lay; self.waits = 0; self.throws = 0
    D, E, N = Lin.sym('D'), Lin.sym('E'), Lin.sym('N')
    def base(self, st):
        return st.mem['o:g'].get(0, (8, None))[1] if self.multi else Lin.sym('nv')
    def read(self, eng, st, i, o):
        if o == 'o:cur':
            if not self.multi: return Lin.sym('pub')
            v = st.newsym('c', -1, TOP); st.mem['o:g'][0] = (8, v); return v
        v = st.newsym('gc', -1, TOP); st.assume_le(v - self.E); return v
    def write(self, eng, st, i, o, v):
        if o == 'o:cache':
            self.req(eng, st, isinstance(v, Lin) and st.le(v - self.D), "cache", i, f"the cached minimum never exceeds the position of the slowest consumer (stored {v})"); return
        if self.multi: self.req(eng, st, False, "cursor", i, "the shared cursor only advances by compare-and-set")
        else: self.req(eng, st, isinstance(v, Lin) and st.le(v - Lin.sym('nv')), "cursor", i, f"claiming does not move the cursor beyond what was claimed (and published) before (stored {v})")
    def swap(self, eng, st, i, o, old, new):
        if o != 'o:cur': self.write(eng, st, i, o, new); return
        st.ts = st.ts + (1,)
        if len(st.ts) > 3: raise Budget(f"{i.where()}: repeated claims")
        st.mem['o:g'][16] = (8, new)
        self.req(eng, st, st.eq(new, old + self.N), "amount", i, f"the cursor advances by the number of slots requested (from {old} to {new})")
        self.req(eng, st, st.le(new - self.size - self.D), "free", i, "the cursor advances only over slots that every gating consumer has released")
    def call(self, eng, st, i, name, args):
        if name.endswith('getMinimumSequence'):
            m = args[1] if len(args) > 1 else None; out = []
            if not isinstance(m, Lin): raise Budget(f"{i.where()}: initial minimum {m}")
            a = st.copy()                                            # all gating sequences at or beyond m
            if a.assume_le(m - self.D): a.mem['o:g'][8] = (8, m); out.append((a, m))
            b = st.copy(); v = b.newsym('min', -1, TOP)
            if b.assume_le(v - m + 1) and b.assume_le(self.E - v) and b.assume_le(v - self.D): b.mem['o:g'][8] = (8, v); out.append((b, v))
            return out
        if name.endswith('SpinWait::spinOnce') or name.startswith('std::this_thread::'):
            if eng.record: self.waits += 1
            c = self.base(st)
            if isinstance(c, Lin): self.req(eng, st, st.le(self.E + 1 - (c + self.N - self.size)), "waits", i, "the producer waits only while the requested slots are not all free")
            return [(st, None)]
        if 'unique_lock' in name or 'condition_variable' in name or 'mutex' in name: return [(st, None)]
        return None
    def throw(self, eng, st, i, name):
        if '__assert' in name: self.req(eng, st, False, "assert", i, "no assertion fails for 1 <= n < SIZE"); return
        self.throws += 1
        if name == '__cxa_throw':
            c = self.base(st)
            self.req(eng, st, self.role == 'trynext', "throws", i, "only tryNext reports lack of capacity by an exception")
            if isinstance(c, Lin) and self.role == 'trynext':
                self.req(eng, st, st.le(self.E + 1 - (c + self.N - self.size)), "refuses", i, "tryNext fails only when the requested slots are not all free")
                self.req(eng, st, not st.ts and (self.multi or self.fld(st, 'next') is not None and st.eq(self.fld(st, 'next'), Lin.sym('nv'))), "refuses.state", i, "a failed tryNext claims nothing")
    def fld(self, st, k):
        v = st.load(Ptr('o:s', Lin(self.lay[k])), 8)
        return v if isinstance(v, Lin) else None
    def ret(self, eng, st, i, v):
        self.rets += 1; n = self.N; sz = self.size; R = lambda c, k, d: self.req(eng, st, c, k, i, d)
        if not self.multi:
            c = self.fld(st, 'cached')
            R(c is not None and st.le(c - self.D), "cache", f"the cached minimum never exceeds the position of the slowest consumer (now {c})")
        if self.role in ('next', 'trynext'):
            if not isinstance(v, Lin): self.open(st, 'result'); R(False, "result", f"result {v}"); return
            if self.multi:
                R(len(st.ts) == 1, "once", f"exactly one claim succeeds per call (found {len(st.ts)})")
                g = st.mem['o:g'].get(16)
                if g: R(st.eq(v, g[1]), "result", f"the last claimed sequence is returned (found {v})")
            else:
                nv = Lin.sym('nv'); f = self.fld(st, 'next')
                R(st.eq(v, nv + n), "result", f"the claim extends from the previous one by the requested number (found {v})")
                R(f is not None and st.eq(f, v), "next", f"the next claim starts behind this one (stored {f})")
                R(st.le(v - sz - self.D), "free", "a claim is granted only over slots that every gating consumer has released")
        elif self.role == 'has':
            c = Lin.sym('cv') if self.multi else Lin.sym('nv')
            for s, t in cases(eng, st, v):
                if t: self.req(eng, s, s.le(c + n - sz - self.D), "yes", i, "capacity is reported only if the slots have been released by every gating consumer")
                else: self.req(eng, s, s.le(self.E + 1 - (c + n - sz)), "no", i, "lack of capacity is reported only if not all requested slots are free")
            if not self.multi and self.fld(st, 'next') is not None: R(st.eq(self.fld(st, 'next'), Lin.sym('nv')), "pure", "asking for capacity claims nothing")
        elif self.role == 'remain':
            c = self.base(st); g = st.mem['o:g'].get(8)
            if not isinstance(v, Lin) or g is None or c is None: self.open(st, 'result'); R(False, "value", f"result {v}"); return
            R(st.le(v - sz), "most", "the remaining capacity never exceeds SIZE")
            R(st.eq(v, c * -1 + g[1] + sz), "value", f"the remaining capacity is SIZE minus the claimed and unreleased slots (found {v})")
STRATS = (("s8", False, 8, "SingleThreadedStrategy<8>"), ("s8b", False, 8, "SingleThreadedStrategy<8,Blocking>"), ("s1k", False, 1024, "SingleThreadedStrategy<1024>"),
          ("m8", True, 8, "MultiThreadedStrategy<8>"), ("m8b", True, 8, "MultiThreadedStrategy<8,Blocking>"), ("m1k", True, 1024, "MultiThreadedStrategy<1024>"))
def layout(u, tag, multi):
    ks = ('cursor', 'wait') + (('cache', 'buf') if multi else ('next', 'cached'))
    lay = {k: const_of(u, f"vf_{tag}_off_{k}") for k in ks}
    return lay if all(v is not None and v >= 0 for v in lay.values()) else None
def strat_state(fn, lay, multi):
    st = State(); st.env[fn.args[0].ref] = Ptr('o:s'); st.mem['o:g'] = {}
    st.mem['o:s'] = {lay['cursor']: (8, Ptr('o:cur')), lay['wait']: (8, Ptr('o:wait'))}
    for s in ('E', 'D', 'nv', 'cd', 'cv', 'pub'): st.z.add(s, '0', TOP); st.z.add('0', s, 1)
    st.assume_le(Lin.sym('E') - Lin.sym('D'))
    if multi: st.mem['o:s'][lay['cache']] = (8, Ptr('o:cache'))
    else:
        st.mem['o:s'][lay['next']] = (8, Lin.sym('nv')); st.mem['o:s'][lay['cached']] = (8, Lin.sym('cd'))
        st.assume_le(Lin.sym('cd') - Lin.sym('E')); st.assume_le(Lin.sym('pub') - Lin.sym('nv'))
    return st
def run_claim(rep):
    run_min(rep)
    rep.rule("claim strategies: with the slowest consumer at E on entry and D on return, a claim ending at s requires s - SIZE <= D; caches stay lower bounds; waiting and refusal only if the slots were not free on entry; multi-producer claims are single compare-and-set steps from an arbitrary observed cursor")
    rep.assume("gating sequences only grow, consumers never pass the cursor, 1 <= n < SIZE, sequences below 2^60; a gating sequence added later starts at the cursor")
    rep.assume("SingleThreadedStrategy: one producer thread, which publishes each claim before making the next")
    u = unit(opaque=(MINSEQ, SPIN))
    def one(rep, tag, multi, size, name):
        lay = layout(u, tag, multi)
        if lay is None: rep.unk(f"{name}.layout", HC, "fields of the claim strategy not found under their names"); return
        for role in ('next', 'trynext', 'has', 'remain'):
            def init(fn):
                st = strat_state(fn, lay, multi); st.z.add('N', '0', size - 1); st.z.add('0', 'N', -1)
                st.env[fn.args[1].ref] = Ptr('o:deps')
                if len(fn.args) > 2: st.env[fn.args[2].ref] = Lin.sym('N')
                if len(fn.args) > 3: st.env[fn.args[3].ref] = Lin.sym('cv')
                return [st]
            decide(rep, u.fn(f"vf_{tag}_{role}"), lambda: Claim(rep, f"{name}.{role}", role, multi, size, lay), init, f"{name}.{role}", HC)
    par(rep, [lambda r, s=s: one(r, *s) for s in STRATS])

# ------------------------------------------------------------------------------------------ publication
class Publish(Seq):
    """symbolic sequence q = SIZE * Q + R; slot flags of the multi-producer strategy are cells of 'o:s' at buf + 4 * index.
    ts = events: 'pub' (made visible), 'lock', 'notify'"""
    words = ('o:cur',)
    def __init__(self, rep, key, role, multi, size, lay, blocking): super().__init__(rep, key); self.role = role; self.multi = multi; self.size = size; self.lay = lay; self.blocking = blocking
    def ev(self, st, e):
        st.ts = st.ts + (e,)
        if len(st.ts) > 8: raise Budget("too many publication events")
    def read(self, eng, st, i, o):
        self.req(eng, st, i.ordering in ACQ, "acquire", i, f"the cursor is read with acquire order (found {i.ordering})")
        v = st.newsym('cur', -1, TOP); st.mem['o:g'][0] = (8, v); return v
    def write(self, eng, st, i, o, v):
        if self.multi: self.req(eng, st, False, "cursor", i, "publishing does not move the cursor shared by the producers"); return
        self.req(eng, st, self.role == 'publish', "pure", i, "only publish() moves the cursor")
        self.req(eng, st, isinstance(v, Lin) and st.eq(v, Lin.sym('q')), "value", i, f"the cursor becomes the published sequence (stored {v})")
        self.req(eng, st, i.ordering in REL, "release", i, f"publication is a release operation (found {i.ordering})")
        self.ev(st, 'pub')
    def swap(self, eng, st, i, o, old, new): raise Budget(f"{i.where()}: read-modify-write of the cursor while publishing")
    def slot(self, eng, st, i):
        """index of the slot flag accessed by i"""
        if not self.multi or i.op not in ('load', 'store', 'cmpxchg', 'atomicrmw'): return None
        p = eng.val(st, i.ops[1] if i.op == 'store' else i.ops[0])
        if not isinstance(p, Ptr) or p.obj != 'o:s' or (i.ty.size if i.op == 'load' else 4) != 4: return None
        off = st.canon(p.off - self.lay['buf'])
        if st.ub(off) < 0 or st.lb(off) >= 4 * self.size: return None
        return off
    def inst(self, eng, st, i):
        off = self.slot(eng, st, i)
        if off is None: return super().inst(eng, st, i)
        Q, R = Lin.sym('Q'), Lin.sym('R')
        if i.op not in ('load', 'store'): raise Budget(f"{i.where()}: read-modify-write of a slot flag")
        if self.role == 'ctor':
            if i.op == 'load': return eng.setv(st, i, st.newsym('f'))
            v = eng.val(st, i.ops[0])
            if not off.is_const: raise Budget(f"{i.where()}: slot flags initialised at computed positions")
            st.mem['o:flags'][off.c] = (4, v); return [st]
        self.req(eng, st, st.eq(off, R * 4), "slot", i, f"the flag of the sequence's own slot is used (byte offset {off} for sequence q = {self.size}*Q + R)")
        if i.op == 'load':
            self.req(eng, st, self.role in ('avail', 'highest'), "pure", i, "publish() does not depend on the flag")
            self.req(eng, st, i.ordering in ACQ, "acquire", i, f"the flag is read with acquire order (found {i.ordering})")
            v = st.newsym('f', -(1 << 31), (1 << 31) - 1); st.mem['o:g'][8] = (8, v)
            return eng.setv(st, i, v)
        v = eng.val(st, i.ops[0])
        self.req(eng, st, self.role == 'publish', "pure", i, "only publish() sets the flag")
        self.req(eng, st, isinstance(v, Lin) and st.eq(v, Q), "value", i, f"the flag identifies the sequence among those sharing the slot (stored {v}, expected Q)")
        self.req(eng, st, i.ordering in REL, "release", i, f"publication is a release operation (found {i.ordering})")
        self.ev(st, 'pub'); return [st]
    def call(self, eng, st, i, name, args):
        short = name.rsplit('::', 1)[-1]
        if 'unique_lock' in name or 'scoped_lock' in name or 'lock_guard' in name or 'mutex' in name:
            if short in ('lock', 'unique_lock', 'scoped_lock', 'lock_guard'): self.ev(st, 'lock')
            elif short == 'unlock' or short.startswith('~'): self.ev(st, 'unlock')
            return [(st, None)]
        if 'condition_variable' in name and short.startswith('notify'):
            self.ev(st, short); return [(st, None)]
        if short == 'make_shared' and 'vf' not in name: return None
        return None
    def throw(self, eng, st, i, name): self.req(eng, st, False, "throws", i, f"no assertion or exception is reached ({name})")
    def ret(self, eng, st, i, v):
        self.rets += 1; R = lambda c, k, d: self.req(eng, st, c, k, i, d); q = Lin.sym('q')
        if self.role == 'publish':
            n = st.ts.count('pub'); R(n == 1, "once", f"publish() makes exactly the one sequence visible (found {n} writes)")
            if self.blocking and n:
                after = st.ts[st.ts.index('pub') + 1:]
                R('notify_all' in after, "signal", f"sleeping consumers are woken after the sequence became visible (events {st.ts})")
                if 'notify_all' in after: R('lock' in after[:after.index('notify_all')], "no-lost-wakeup", f"the waiters' mutex is acquired between making the sequence visible and the notification (events {st.ts})")
        elif self.role == 'avail':
            g = st.mem['o:g'].get(8 if self.multi else 0)
            if g is None: R(False, "reads", "availability depends on the published state"); return
            for s, t in cases(eng, st, v):
                if self.multi:
                    if t: self.req(eng, s, s.eq(g[1], Lin.sym('Q')), "yes", i, "a sequence is available only if the flag of its slot names it")
                    else: self.req(eng, s, not eng.assume_cmp(s.copy(), 'eq', g[1], Lin.sym('Q'), 64), "no", i, "a published sequence is reported available")
                else:
                    if t: self.req(eng, s, s.le(q - g[1]), "yes", i, "a sequence is available only up to the cursor")
                    else: self.req(eng, s, s.le(g[1] + 1 - q), "no", i, "a published sequence is reported available")
        elif self.role == 'ctor':
            if self.multi:
                c = st.mem['o:flags']
                ok = all(isinstance(c.get(4 * k, (0, None))[1], Lin) and st.eq(c[4 * k][1], Lin(-1)) for k in range(self.size))
                R(ok, "empty", "a new ring has no available sequence: every slot flag starts as -1")
class Highest(Checked):
    """isAvailable() is an oracle; ghost 'o:g': 0 = T, every sequence of lo..T has been found available; 8 = F, last one found unavailable"""
    def __init__(self, rep, key, multi, nonempty): super().__init__(rep, key); self.multi = multi; self.calls = 0; self.nonempty = nonempty
    def call(self, eng, st, i, name, args):
        if not name.endswith('isAvailable'): return None
        if eng.record: self.calls += 1
        s = args[1]
        if not isinstance(s, Lin): raise Budget(f"{i.where()}: sequence {s}")
        T = st.mem['o:g'][0][1]; out = []
        for b in (True, False):
            t = st.copy()
            if b and t.eq(s, T + 1): t.mem['o:g'][0] = (8, s)
            if not b: t.mem['o:g'][8] = (8, s)
            out.append((t, ec(1, int(b))))
        return out
    def ret(self, eng, st, i, v):
        self.rets += 1; R = lambda c, k, d: self.req(eng, st, c, k, i, d); lo, hi = Lin.sym('lo'), Lin.sym('hi'); T = st.mem['o:g'][0][1]; F = st.mem['o:g'].get(8)
        if not isinstance(v, Lin): self.open(st, 'result'); R(False, "result", f"result {v}"); return
        R(st.le(v - hi), "bound", "the result does not exceed the sequence up to which the cursor advanced")
        if not self.nonempty: R(st.le(v - lo + 1), "none", "nothing is reported when there is nothing to scan"); return
        if not self.multi: R(st.eq(v, hi), "single", "with a single producer everything up to the cursor is published"); return
        if not self.calls: self.open(st, 'availability not asked')
        R(st.le(v - T), "published", f"every sequence up to the result was found available (found up to {T}, result {v})")
        R(st.eq(v, hi) or F is not None and st.eq(F[1], v + 1), "highest", f"the scan stops only at the first unavailable sequence (result {v})")
def run_publish(rep):
    rep.rule("publish(): exactly one release write identifying the sequence (cursor = q, or flag of slot q mod SIZE = q div SIZE), then lock + notify_all for blocking strategies; isAvailable(): acquire read, true iff published; getHighestPublishedSequence(): loop invariant 'everything up to T was found available'")
    rep.assume("0 <= sequence < 2^31 * SIZE (availability flags are 32 bit)")
    u = unit(opaque=(MINSEQ, SPIN)); uh = unit(opaque=(MINSEQ, SPIN, AVAIL))
    def one(rep, tag, multi, size, name):
        lay = layout(u, tag, multi)
        if lay is None: rep.unk(f"{name}.layout", HC, "fields of the claim strategy not found under their names"); return
        blocking = 'Blocking' in name
        for role in ('publish', 'avail') + (('ctor',) if size == 8 and multi else ()):
            def init(fn):
                st = strat_state(fn, lay, multi); st.mem['o:flags'] = {}
                st.z.add('Q', '0', (1 << 31) - 1); st.z.add('0', 'Q', 0); st.z.add('R', '0', size - 1); st.z.add('0', 'R', 0)
                st.z.add('q', '0', (1 << 31) * size - 1); st.z.add('0', 'q', 0)
                st.add_eq(Lin.sym('q') - Lin.sym('Q') * size - Lin.sym('R')); st.defs[(Lin.sym('q'), size)] = ('Q', 'R')
                if role == 'ctor': st.mem['o:s'] = {}; st.env[fn.args[1].ref] = Ptr('o:cur'); st.env[fn.args[2].ref] = Ptr('o:wait')
                else: st.env[fn.args[1].ref] = Lin.sym('q')
                return [st]
            decide(rep, u.fn(f"vf_{tag}_{role}"), lambda: Publish(rep, f"{name}.{role}", role, multi, size, lay, blocking), init, f"{name}.{role}", HC)
        for ne in (True, False):
            def init(fn):
                st = strat_state(fn, lay, multi)
                for s in ('lo', 'hi'): st.z.add(s, '0', TOP); st.z.add('0', s, 1)
                if not st.assume_le(Lin.sym('lo') - Lin.sym('hi') if ne else Lin.sym('hi') - Lin.sym('lo') + 1): return []
                st.mem['o:g'] = {0: (8, Lin.sym('lo') - 1)}
                st.env[fn.args[1].ref] = Lin.sym('lo'); st.env[fn.args[2].ref] = Lin.sym('hi')
                return [st]
            k = f"{name}.highest.{'some' if ne else 'none'}"
            decide(rep, uh.fn(f"vf_{tag}_highest"), lambda: Highest(rep, k, multi, ne), init, k, HC)
        if multi:
            for base in (1 << 31, (1 << 32) - 1):                   # sequences that need more than 32 bits
                def init(fn):
                    st = strat_state(fn, lay, multi)
                    for s, d in (('lo', 0), ('hi', 2)): st.z.add(s, '0', base + d); st.z.add('0', s, -base - d)
                    st.mem['o:g'] = {0: (8, Lin(base - 1))}
                    st.env[fn.args[1].ref] = Lin(base); st.env[fn.args[2].ref] = Lin(base + 2)
                    return [st]
                k = f"{name}.highest.{base:#x}"
                decide(rep, uh.fn(f"vf_{tag}_highest"), lambda: Highest(rep, k, multi, True), init, k, HC)
    par(rep, [lambda r, s=s: one(r, *s) for s in STRATS])
