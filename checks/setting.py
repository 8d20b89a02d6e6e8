"""disruptor: BasicSetting (RealtimeMutable / NonRealtimeMutable)"""
from ir import Unit
from decide import *
from core import par
from disruptor import const_of
import policy
_u = None
def unit():
    global _u
    if _u is None: _u = Unit("setting.cpp", policy.make(extra_inline=[r"^Obj::", r"^std::operator[&|^]$", r"^std::(unique_ptr|__uniq_ptr\w*|default_delete|tuple|_Tuple_impl|_Head_base|_Head_base|make_unique|get|__get_helper|unique_lock|lock_guard|scoped_lock|_Head_base|mutex::mutex|__mutex_base::__mutex_base|shared_ptr)(::.*)?$"],
        extra_opaque=[r"^std::mutex::(lock|unlock|try_lock)$"]), passes=policy.UNROLL, extra=policy.ALGOS + ["-fno-access-control"])
    return _u
H = "src/disruptor/include/BasicSetting.hpp"
ACQ = ('acquire', 'acq_rel', 'seq_cst'); REL = ('release', 'acq_rel', 'seq_cst')
A, B, X = 'o:A', 'o:n0', 'o:X'
SPECIAL = {'vf_def': 'default', 'vf_int': 'int', 'vf_copy': 'copy', 'vf_move': 'copy', 'vf_assign': 'copy', 'vf_massign': 'copy'}
class Setting(Checked):
    """ts: events in order; ghost 'o:g': 0 mutex held, 8.. see subclasses"""
    follow_unwind = True; quiet_unwind = True; accelerate = False; finite = True
    def __init__(self, rep, key, lay, rt, finish): super().__init__(rep, key); self.lay = lay; self.rt = rt; self.finish = finish
    def g(self, st, k): return st.mem['o:g'][k][1]
    def setg(self, st, k, v): st.mem['o:g'][k] = (8, v if isinstance(v, Ptr) else Lin(v))
    def held(self, st): return self.g(st, 0).c
    def log(self, st, *e):
        st.ts = st.ts + (e,)
        if len(st.ts) > 40: raise Budget("too many events")
    def has(self, st, *k): return [e for e in st.ts if e[0] in k]
    def place(self, p): return (p.obj, p.off.c) if isinstance(p, Ptr) and p.off.is_const else None
    def content(self, st, pl, t=None):
        """what the object at a place holds: ('init', place) or ('default',) or ('int', value)"""
        for k in range((len(st.ts) if t is None else t) - 1, -1, -1):
            e = st.ts[k]
            if e[0] == 'set' and e[1] == pl: return self.content(st, e[2][1], k) if e[2][0] == 'copy' else e[2]
        return ('init', pl)
    def alive(self, st, o): return not any(e[0] in ('free', 'dtor') and e[1] == o for e in st.ts)
    def unwinds(self, eng, st, i):
        n = eng.cname(i)
        return n in SPECIAL or n == 'vf_body' or 'operator new' in n or n.startswith('_Znw')
    def call(self, eng, st, i, name, args):
        R = lambda c, k, d: self.req(eng, st, c, k, i, d)
        if i.op == 'call' and self.unwinds(eng, st, i) and not i.nounwind_cs and not getattr(i.callee, 'nounwind', False) and eng.record: self.finish(self, eng, st.copy(), i, 'unwind')
        f = name.rsplit('::', 1)[-1]
        if name in ('std::mutex::lock', 'std::mutex::unlock', 'std::mutex::try_lock'):
            if self.place(args[0]) != ('o:s', self.lay['lock']): raise Budget(f"{i.where()}: another mutex")
            if self.rt: R(False, "wait-free", "the real-time side never touches the mutex"); return []
            if f == 'lock': R(not self.held(st), "relock", "the mutex is not locked again by its holder"); self.setg(st, 0, 1); self.log(st, 'lock'); return [(st, None)]
            if f == 'unlock': R(self.held(st), "unlock", "the mutex is unlocked by its holder only"); self.setg(st, 0, 0); self.log(st, 'unlock'); return [(st, None)]
            s = st.copy(); self.setg(s, 0, 1); self.log(s, 'lock'); return [(s, ec(1, 1) if i.ty.width == 1 else Lin(1)), (st, ec(1, 0) if i.ty.width == 1 else Lin(0))]
        if name == 'operator new':
            if self.rt: R(False, "wait-free", "the real-time side does not allocate"); return []
            o = f"o:y{len(self.has(st, 'new'))}"; self.log(st, 'new', o); st.mem.pop(o, None); return [(st, Ptr(o))]
        if name == 'operator delete':
            p = args[0]
            if isinstance(p, Ptr) and p.obj == 'null': return [(st, None)]
            if not isinstance(p, Ptr) or not p.obj.startswith(('o:y', A, B)): raise Budget(f"{i.where()}: delete of {p}")
            if self.rt: R(False, "wait-free", "the real-time side does not deallocate"); return []
            R(not any(e[0] == 'free' and e[1] == p.obj for e in st.ts), "once", f"an object is deleted once ({p.obj})")
            self.release(eng, st, i, p.obj); self.log(st, 'free', p.obj); return [(st, None)]
        if name in SPECIAL:
            d = self.place(args[0])
            if d is None: raise Budget(f"{i.where()}: object at {args[0]}")
            k = SPECIAL[name]; src = ('default',) if k == 'default' else ('int', args[1]) if k == 'int' else ('copy', self.place(args[1]))
            self.write(eng, st, i, d, 'assign' in name)
            if k == 'copy':
                if src[1] is None: raise Budget(f"{i.where()}: object at {args[1]}")
                self.read(eng, st, i, src[1])
            self.log(st, 'set', d, src); return [(st, None)]
        if name == 'vf_dtor':
            p = self.place(args[0])
            if p and p[0].startswith(('o:y', A, B)): self.release(eng, st, i, p[0]); self.log(st, 'dtor', p[0])
            return [(st, None)]
        if name == 'vf_body':
            if eng.record: self.bodies += 1
            self.body(eng, st, i, args[0]); return [(st, None)]
        if name == '__assert_fail': return []
        return None
    bodies = 0
    def release(self, eng, st, i, o): pass
    def write(self, eng, st, i, d, assign): pass
    def read(self, eng, st, i, d): pass
    def ret(self, eng, st, i, v): self.rets += 1; self.finish(self, eng, st, i, v)
    def resume(self, eng, st, i): self.finish(self, eng, st, i, 'unwind')
    def access(self, i, eng, st):
        p = eng.val(st, i.ops[1] if i.op == 'store' else i.ops[0])
        if not isinstance(p, Ptr) or p.obj != 'o:s': return None
        if not p.off.is_const: raise Budget(f"{i.where()}: access at a computed offset")
        return p.off.c
    def rmw(self, op, v, k):
        if op == 'xchg': return k
        if not isinstance(v, Lin) or not isinstance(k, Lin) or not (v.is_const and k.is_const): raise Budget(f"atomicrmw {op} of {v} and {k}")
        a, b = v.c & 0xffffffff, k.c & 0xffffffff
        return Lin({'or': a | b, 'and': a & b, 'xor': a ^ b, 'add': a + b, 'sub': a - b}[op] & 0xffffffff)
    def atomic(self, eng, st, i):
        """an atomic operation on the shared word: reads() enumerates what may be observed, change() checks the transition"""
        out = []
        if i.op == 'load':
            self.req(eng, st, i.ordering != 'na', "atomic", i, "the shared word is accessed atomically")
            for s, v in self.reads(st): out += eng.setv(s, i, self.give(i.ty, v))
            return out
        if i.op == 'store':
            self.req(eng, st, i.ordering != 'na', "atomic", i, "the shared word is accessed atomically")
            for s, v in self.reads(st): self.change(eng, s, i, v, self.plain(eng.val(st, i.ops[0])), i.ordering); out.append(s)
            return out
        if i.op == 'atomicrmw':
            for s, v in self.reads(st): self.change(eng, s, i, v, self.rmw(i.rmw, v, self.plain(eng.val(st, i.ops[1]))), i.ordering); out += eng.setv(s, i, self.give(i.ty, v))
            return out
        e, n = (self.plain(eng.val(st, i.ops[k])) for k in (1, 2)); ty = i.ops[1].ty
        for s, v in self.reads(st):
            if not self.known(e) or not self.known(v): raise Budget(f"{i.where()}: compare-exchange with {e}")
            if e == v:
                t = s.copy(); self.change(eng, t, i, v, n, i.ordering); out += eng.setv(t, i, ('agg', self.give(ty, v), ec(1, 1)))
                if not getattr(i, 'weak', False): continue
            out += eng.setv(s, i, ('agg', self.give(ty, v), ec(1, 0)))
        return out
    def plain(self, v):
        """a pointer held in an integer"""
        if isinstance(v, tuple) and v and v[0] == 'pint': return v[1]
        if self.pointers and isinstance(v, Lin) and v.is_const and v.c == 0: return Ptr('null')
        return v
    def give(self, ty, v): return (Lin(0) if v.obj == 'null' else ('pint', v)) if isinstance(v, Ptr) and ty.kind == 'int' else v
    pointers = False
    def known(self, v): return isinstance(v, Ptr) and v.off.is_const or isinstance(v, Lin) and v.is_const

class NonRt(Setting):
    """ghost: 8 object the shared pointer designates when the real-time thread is not using it, 16 last value read was non-null, 24 taken object (real-time side)"""
    names = {'storage': "the stored value", 'copy': "the value being edited", 'rtptr': "the real-time thread's pointer"}
    construct = False; pointers = True
    def reads(self, st):
        if self.rt:
            t = self.g(st, 24)
            if t.obj != 'none': return [(st, Ptr('null'))]
            k = self.g(st, 32).c; st.mem['o:g'][32] = (8, Lin(min(k + 1, 3)))      # the value may be replaced between two reads
            return [(st, Ptr(f"o:P{k}"))]
        a, b = st, st.copy(); self.setg(a, 16, 1); self.setg(b, 16, 0)
        return [(a, self.g(a, 8)), (b, Ptr('null'))]
    def change(self, eng, st, i, old, new, order):
        R = lambda c, k, d: self.req(eng, st, c, k, i, d)
        if self.rt:
            t = self.g(st, 24)
            if old.obj == 'null':
                R(new == t, "give-back", f"the real-time side puts back the object it took ({t.obj}; stored {new})")
                R(order in REL, "release", f"giving the object back is a release operation ({order})")
                st.mem['o:g'][24] = (8, Ptr('none')); self.log(st, 'give', new)
            else:
                R(new == Ptr('null'), "take", f"the real-time side marks the object as in use (stored {new})")
                R(order in ACQ, "acquire", f"taking the object is an acquire operation ({order})")
                st.mem['o:g'][24] = (8, old); self.log(st, 'take', old)
            return
        R(old != Ptr('null'), "in-use", "a value is published only while the real-time thread is not using the old one")
        R(isinstance(new, Ptr) and new.obj not in ('null', A) and self.alive(st, new.obj), "publish", f"what is published is the edited value (published {new})")
        R(self.held(st), "locked", "a value is published with the mutex held")
        R(order in REL and order in ACQ, "order", f"publishing is an acquire-release operation ({order})")
        if isinstance(new, Ptr): st.mem['o:g'][8] = (8, new)
        self.log(st, 'pub', old.obj, getattr(new, 'obj', None))
    def inst(self, eng, st, i):
        if i.op not in ('load', 'store', 'cmpxchg', 'atomicrmw') or self.construct: return None
        o = self.access(i, eng, st)
        if o is None: return None
        if o == self.lay['ptr']: return self.atomic(eng, st, i)
        for k in ('storage', 'copy'):
            if o == self.lay[k]:
                if self.rt: self.req(eng, st, False, "private", i, f"the real-time side does not touch {self.names[k]}")
                else: self.req(eng, st, self.held(st) or self.destroy, "guarded", i, f"{self.names[k]} is accessed with the mutex held")
        if o == self.lay['rtptr'] and not self.rt and not self.destroy: self.req(eng, st, False, "private", i, f"{self.names['rtptr']} is used by the real-time side only")
        return None
    destroy = False
    def cell(self, st, k): return self.plain(st.load(Ptr('o:s', self.lay[k]), 8))
    def release(self, eng, st, i, o):
        if o == A and not self.construct: self.req(eng, st, bool(self.has(st, 'pub')) or self.destroy and self.g(st, 16).c, "in-use", i, "the old value is destroyed only when the real-time thread cannot be using it")
        if o in (B,) or o.startswith('o:y'): self.req(eng, st, self.g(st, 8).obj != o, "published", i, "the published value is not destroyed")
    def write(self, eng, st, i, d, assign):
        if d[0] == A: self.req(eng, st, False, "in-use", i, "the published value, which the real-time thread may be reading, is not written to")
        if d[0].startswith('o:P'): self.req(eng, st, False, "const", i, "the real-time side does not change the value")
        if d[0] in (B,) or d[0].startswith('o:y'): self.req(eng, st, self.g(st, 8).obj != d[0], "published", i, "the published value is not written to")
    def read(self, eng, st, i, d):
        if d[0] == A: self.req(eng, st, self.held(st) and self.alive(st, A), "read", i, "the stored value is copied with the mutex held and while it exists")
    def body(self, eng, st, i, p):
        if self.rt: self.req(eng, st, isinstance(p, Ptr) and self.g(st, 24) == p, "guard", i, f"the guarded scope of the real-time side sees the object taken ({p}, taken {self.g(st, 24).obj})")
        else:
            pl = self.place(p)
            self.req(eng, st, self.held(st) and pl is not None and pl[0].startswith('o:y') and self.cell(st, 'copy') == p and self.content(st, pl) == ('init', (A, 0)), "guard", i, f"the guarded scope runs with the mutex held, on a copy of the stored value ({p})")

def layout(u, names): return {k: const_of(u, f"vf_off_{v}") for k, v in names.items()}
def run_nonrt(rep):
    rep.rule("ownership and typestate of the value objects on every path of every operation; an adversarial partner: each read of the shared pointer by a non-real-time operation sees the published object or null (real-time thread inside), each read by the real-time side may see a newer object. A value is replaced only by an atomic compare with the object it replaces, with the mutex held; what the real-time thread may use is neither written nor destroyed; the real-time side uses no mutex, memory management or loop")
    rep.assume("a single real-time thread; every acquire matched by a release; T's copy and move give an equal value")
    u = unit(); lay = layout(u, dict(storage='storage', ptr='ptr', lock='lock', copy='copy', rtptr='rtptr'))
    if None in lay.values() or -1 in lay.values(): rep.unk("layout", H, "members not found under their names"); return
    def start(rt, held=0, copy=None, taken=None):
        st = State(); st.ts = ()
        st.mem['o:g'] = {0: (8, Lin(held)), 8: (8, Ptr(A)), 16: (8, Lin(0)), 24: (8, Ptr(taken or 'none')), 32: (8, Lin(0))}
        st.mem['o:s'] = {lay['storage']: (8, Ptr(A)), lay['copy']: (8, Ptr(copy or 'null')), lay['rtptr']: (8, Ptr(taken or 'null'))}
        return st
    def job(rep, f, key, rt, check, init=None, setup=None, body=False, **flags):
        def fin(m, eng, st, i, v): check(m, eng, st, i, lambda c, k, d: m.req(eng, st, c, k, i, d), v)
        def mk():
            m = NonRt(rep, key, lay, rt, fin)
            for k, x in flags.items(): setattr(m, k, x)
            return m
        def ini(fn):
            st = init() if init else start(rt); st.env[fn.args[0].ref] = Ptr('o:s')
            if len(fn.args) > 1: st.env[fn.args[1].ref] = Lin.sym('x') if fn.args[1].ty.kind == 'int' else Ptr(X)
            return [st]
        def post(m):
            if body and not m.unroll and not m.bodies: rep.unk(f"{key}.guard", H, "guarded scope not found")
            if not m.unroll and not m.rets: rep.unk(f"{key}.return", H, "no return reached")
        fn = u.fn(f"vf_{f}"); decide(rep, fn, mk, ini, key, H, post=post)
        if rt:
            L = [h for h in loops_of(fn) if any(i.op in ('load', 'cmpxchg', 'atomicrmw') and getattr(i, 'ordering', 'na') not in ('na', None) for b in loops_of(fn)[h] for i in b.insts)]
            rep.require(not L, f"{key}.wait-free", L[0].insts[-1].where() if L else fn.where(), "the real-time side never loops on a shared variable")
    nolk = lambda m, st: not m.held(st)
    def clean(m, st, R):
        R(all(not m.alive(st, e[1]) or m.cell(st, 'copy') == Ptr(e[1]) or m.cell(st, 'storage') == Ptr(e[1]) for e in m.has(st, 'new')), "leak", "no object is lost")
    def acq(m, eng, st, i, R, v):
        if v == 'unwind':
            R(not m.held(st), "exception.unlocked", "when copying the value fails, the mutex is released")
            R(m.cell(st, 'storage') == Ptr(A) and not m.has(st, 'pub') and m.cell(st, 'copy') == Ptr('null'), "exception.unchanged", "and the setting is unchanged"); clean(m, st, R); return
        pl = m.place(v); R(m.held(st), "held", "returns with the mutex held"); clean(m, st, R)
        R(pl is not None and pl[0].startswith('o:y') and m.alive(st, pl[0]) and m.content(st, pl) == ('init', (A, 0)), "copy", f"returns a copy of the stored value ({v})")
        R(m.cell(st, 'copy') == v and m.cell(st, 'storage') == Ptr(A) and not m.has(st, 'pub') and m.alive(st, A), "unchanged", "nothing is published before the release")
    def done(want):
        def c(m, eng, st, i, R, v):
            pub = m.has(st, 'pub'); R(not m.held(st), "unlocked", "returns with the mutex released"); clean(m, st, R)
            if v == 'unwind' and want not in ('guard', 'set'): R(not pub and m.cell(st, 'storage') == Ptr(A), "unchanged", "after an exception the setting is unchanged"); return
            if v == 'unwind' and not pub: R(m.cell(st, 'storage') == Ptr(A) and m.cell(st, 'copy') == Ptr('null'), "unchanged", "after an exception the setting is unchanged"); return
            R(len(pub) == 1, "published", f"one value is published (found {len(pub)})")
            if len(pub) != 1: return
            n = pub[0][2]
            R(m.cell(st, 'storage') == Ptr(n) and m.cell(st, 'copy') == Ptr('null') and m.g(st, 8) == Ptr(n) and m.alive(st, n), "stored", f"the published value is the stored one and exists (published {n}, stored {m.cell(st, 'storage')})")
            R(len([e for e in m.has(st, 'free') if e[1] == A]) == 1 and len([e for e in m.has(st, 'dtor') if e[1] == A]) == 1, "old", "the replaced value is destroyed, once")
            c = m.content(st, (n, 0)); w = {'rel': ('init', (B, 0)), 'rep': ('int', Lin.sym('x')), 'guard': ('init', (A, 0)), 'set': ('init', (X, 0))}[want]
            if want == 'set' and v == 'unwind': w = c if c == ('init', (A, 0)) else w
            R(c == w, "value", f"the value published is the one edited or given (found {c})")
        return c
    def rtacq(m, eng, st, i, R, v):
        t = m.has(st, 'take'); R(v != 'unwind', "throws", "does not throw")
        R(len(t) == 1 and not m.has(st, 'give') and v == t[-1][1], "taken", f"returns the object taken, and only that ({v}, taken {t})")
        R(len(t) == 1 and m.cell(st, 'rtptr') == t[-1][1], "remembered", "and remembers it for the release")
    def rtrel(m, eng, st, i, R, v): R(len(m.has(st, 'give')) == 1 and not m.has(st, 'take'), "given", "the object is given back once")
    def rtguard(m, eng, st, i, R, v): R([e[0] for e in m.has(st, 'take', 'give')] == ['take', 'give'], "balance", f"the object is taken and given back once ({[e[0] for e in st.ts]})")
    def ctor(want):
        def c(m, eng, st, i, R, v):
            if v == 'unwind': R(all(not m.alive(st, e[1]) for e in m.has(st, 'new')), "leak", "no object is lost"); return
            s, p = m.cell(st, 'storage'), m.cell(st, 'ptr'); ok = isinstance(s, Ptr) and s.obj.startswith('o:y') and m.alive(st, s.obj)
            R(ok and p == s, "published", f"the new value is published ({s}, {p})"); R(m.cell(st, 'copy') == Ptr('null'), "empty", "no edit is under way")
            R(ok and m.content(st, (s.obj, 0)) == want, "value", f"and it is the value given ({ok and m.content(st, (s.obj, 0))})")
        return c
    def dtor(m, eng, st, i, R, v):
        R(len([e for e in m.has(st, 'free') if e[1] == A]) == 1 and len([e for e in m.has(st, 'dtor') if e[1] == A]) == 1, "destroyed", "the value is destroyed, once")
        R(not m.held(st), "unlocked", "the mutex is not left locked")
    jobs = []
    J = lambda *a, **k: jobs.append(lambda r: job(r, *a, **k))
    fresh = lambda: (lambda s: (s.mem.__setitem__('o:s', {}), s.mem['o:g'].__setitem__(8, (8, Ptr('none'))), s)[-1])(start(False))
    J("n_new", "construction", False, ctor(('default',)), fresh, construct=True); J("n_newc", "construction from a value", False, ctor(('init', (X, 0))), fresh, construct=True); J("n_newm", "construction from a temporary", False, ctor(('init', (X, 0))), fresh, construct=True)
    J("n_del", "destruction", False, dtor, destroy=True)
    J("n_acq", "non-real-time acquire", False, acq); J("n_sacq", "acquire<NonRealTime>", False, acq)
    J("n_rel", "release<NonRealTime>", False, done('rel'), lambda: start(False, 1, B)); J("n_rep", "replace<NonRealTime>", False, done('rep'))
    for f in ("n_gnrt", "n_gnrt2"): J(f, f"guard {f[3:]}", False, done('guard'), body=True)
    J("n_gset", "guard assignment", False, done('set'))
    J("n_rtacq", "acquire<RealTime>", True, rtacq); J("n_rtrel", "release<RealTime>", True, rtrel, lambda: start(True, taken='o:P0'))
    for f in ("n_grt", "n_grt2"): J(f, f"guard {f[2:]}", True, rtguard, body=True)
    J("n_gget", "guard get()", False, done('guard'), body=True)
    par(rep, jobs)

BUSY, NEW = 2, 4
class Rt(Setting):
    """ghost: 8 index bit, 16 new-data seen (0/1; non-real-time) , 24 busy value of the word (-1: not busy; real-time), 32 last new-data bit read"""
    construct = False; destroy = False
    def slot(self, d):
        if d[0] != 'o:s': return None
        k = d[1] - self.lay['data']
        if 0 <= k < 2 * self.lay['size'] and k % self.lay['size'] == 0: return k // self.lay['size']
        return 'copy' if d[1] == self.lay['rcopy'] else None
    def reads(self, st):
        out = []
        if self.rt:
            b = self.g(st, 24).c
            if b >= 0: return [(st, Lin(b))]
            for v in (0, 1, 4, 5): out.append((st.copy(), Lin(v)))
            return out
        for x in ((0, 1) if self.g(st, 8).c < 0 else (self.g(st, 8).c,)):
            for busy in (0, BUSY):
                for nd in (0, 1):
                    if nd < self.g(st, 16).c: continue
                    s = st.copy(); self.setg(s, 8, x); self.setg(s, 16, nd); self.setg(s, 32, nd); self.setg(s, 40, busy); out.append((s, Lin(x | busy | nd * NEW)))
        return out
    def change(self, eng, st, i, old, new, order):
        R = lambda c, k, d: self.req(eng, st, c, k, i, d)
        if not (isinstance(new, Lin) and new.is_const): raise Budget(f"{i.where()}: word becomes {new}")
        o, n = old.c, new.c
        if self.rt:
            if self.g(st, 24).c < 0:
                R(i.op != 'store' and n == o | BUSY, "busy", f"writing starts by setting the busy bit and nothing else, in one atomic step (word {o} -> {n})")
                R(order in ACQ, "acquire", f"setting the busy bit is an acquire operation ({order})")
                self.setg(st, 24, n); self.log(st, 'busy', o & 1)
            else:
                R(n & 1 == o & 1 and not n & BUSY and n & NEW and not n & ~7, "announce", f"writing ends by clearing the busy bit and announcing new data in the same slot (word {o} -> {n})")
                R(order in REL, "release", f"announcing new data is a release operation ({order})")
                self.setg(st, 24, -1); self.log(st, 'done', o & 1)
            return
        R(self.held(st), "locked", "slots are exchanged with the mutex held")
        if n == o: return
        R(not o & BUSY, "in-use", f"slots are not exchanged while the real-time thread is writing (word {o} -> {n})")
        R(o & NEW, "newer", f"slots are exchanged only when there is new data (word {o} -> {n})")
        R(n == (o & 1) ^ 1, "exchange", f"exchanging flips the index and clears the new-data bit (word {o} -> {n})")
        R(order in ACQ and order in REL, "order", f"exchanging slots is an acquire-release operation ({order})")
        self.setg(st, 8, n & 1); self.setg(st, 16, 0); self.setg(st, 32, 0); self.log(st, 'flip')
        if len(self.has(st, 'flip')) > 3: raise Budget("repeated exchanges")
    def inst(self, eng, st, i):
        if i.op not in ('load', 'store', 'cmpxchg', 'atomicrmw') or self.construct: return None
        o = self.access(i, eng, st)
        if o is None: return None
        if o == self.lay['control']:
            if not self.rt and not self.destroy: self.req(eng, st, self.held(st), "locked", i, "the word is inspected with the mutex held")
            return self.atomic(eng, st, i)
        return None
    def write(self, eng, st, i, d, assign):
        s = self.slot(d)
        if s is None or self.construct: return
        R = lambda c, k, d: self.req(eng, st, c, k, i, d)
        if not self.rt: R(False, "read-only", "the non-real-time side writes no value"); return
        if s == 'copy': return
        b = self.g(st, 24).c
        R(b >= 0, "in-use", "a slot is written only while the busy bit is set")
        R(b < 0 or s == (b & 1), "slot", f"the slot written is the one not handed to readers (slot {s}, word {b})")
    def read(self, eng, st, i, d): pass
    def body(self, eng, st, i, p):
        pl = self.place(p); s = pl and self.slot(pl)
        if self.rt: self.req(eng, st, s == 'copy', "guard", i, f"the guarded scope of the real-time side works on its own copy ({p})")
        else: self.req(eng, st, self.held(st) and self.newest(st, p), "guard", i, f"the guarded scope runs with the mutex held, on the newest complete value ({p})")
    def newest(self, st, p):
        pl = self.place(p)
        return pl is not None and self.slot(pl) == (self.g(st, 8).c ^ 1) and (self.has(st, 'flip') and True or self.g(st, 32).c == 0)

def run_rt(rep):
    rep.rule("transition system of the control word (index, busy, new-data bits) extracted from every operation under an adversarial partner: each read by the non-real-time side may see the real-time thread writing and newer data, each read by the real-time side may see exchanged slots. The real-time side writes only the slot not handed out, between setting busy and announcing; slots are exchanged only when not busy and with new data; readers get the newest complete value with the mutex held; the real-time side uses no mutex, memory management or loop")
    rep.assume("a single real-time thread; every acquire matched by a release; T's copy and move give an equal value")
    u = unit(); lay = layout(u, dict(control='control', data='data', rcopy='rcopy', lock='rlock')); lay['size'] = const_of(u, "vf_size")
    if None in lay.values() or -1 in lay.values(): rep.unk("layout", H, "members not found under their names"); return
    Z = lay['size']; D = lambda k: ('o:s', lay['data'] + k * Z); C = ('o:s', lay['rcopy'])
    def start(held=0, x=-1):
        st = State(); st.ts = (); st.mem['o:g'] = {0: (8, Lin(held)), 8: (8, Lin(x)), 16: (8, Lin(0)), 24: (8, Lin(-1)), 32: (8, Lin(-1)), 40: (8, Lin(-1))}; st.mem['o:s'] = {}
        return st
    def job(rep, f, key, rt, check, init=start, body=False, **flags):
        def fin(m, eng, st, i, v): check(m, eng, st, i, lambda c, k, d: m.req(eng, st, c, k, i, d), v)
        def mk():
            m = Rt(rep, key, lay, rt, fin)
            for k, x in flags.items(): setattr(m, k, x)
            return m
        def ini(fn):
            st = init(); st.env[fn.args[0].ref] = Ptr('o:s')
            if len(fn.args) > 1: st.env[fn.args[1].ref] = Lin.sym('x') if fn.args[1].ty.kind == 'int' else Ptr(X)
            return [st]
        def post(m):
            if body and not m.unroll and not m.bodies: rep.unk(f"{key}.guard", H, "guarded scope not found")
            if not m.unroll and not m.rets: rep.unk(f"{key}.return", H, "no return reached")
        fn = u.fn(f"vf_{f}"); decide(rep, fn, mk, ini, key, H, post=post)
        if rt:
            lp = loops_of(fn); L = [h for h in lp if any(i.op in ('load', 'cmpxchg', 'atomicrmw') and getattr(i, 'ordering', 'na') not in ('na', None) for b in lp[h] for i in b.insts)]
            rep.require(not L, f"{key}.wait-free", L[0].insts[-1].where() if L else fn.where(), "the real-time side never loops on a shared variable")
    def rtacq(m, eng, st, i, R, v): R(m.place(v) == C and not st.ts, "own", f"the real-time side gets its own copy, nothing is changed ({v})")
    def rtrel(want, copy):
        def c(m, eng, st, i, R, v):
            if v == 'unwind':
                if not body_ran(m, st): return
            seq = m.has(st, 'busy', 'done'); R([e[0] for e in seq] == ['busy', 'done'], "announced", f"new data is announced once ({[e[0] for e in seq]})")
            if [e[0] for e in seq] != ['busy', 'done']: return
            w = want if want else ('init', C)
            if v == 'unwind' and m.content(st, C) == ('init', C): w = ('init', C)      # the assignment itself failed
            R(m.content(st, D(seq[0][1])) == w, "value", f"the slot announced holds the value of the real-time side ({m.content(st, D(seq[0][1]))})")
            R(m.content(st, C) == w, "copy", f"and so does its own copy ({m.content(st, C)})")
            R(st.ts.index(seq[1]) > max([k for k, e in enumerate(st.ts) if e[0] == 'set' and e[1] in (D(0), D(1))] or [-1]), "complete", "the slot is complete before it is announced")
        return c
    def body_ran(m, st): return bool(m.has(st, 'busy', 'done'))
    def acq(m, eng, st, i, R, v):
        R(v != 'unwind', "throws", "does not throw"); R(m.held(st), "held", "returns with the mutex held")
        R(m.newest(st, v), "newest", f"returns the newest complete value ({v}; index bit {m.g(st, 8).c}, exchanged {len(m.has(st, 'flip'))}, new data seen {m.g(st, 32).c})")
    def rel(m, eng, st, i, R, v): R(not m.held(st) and [e[0] for e in st.ts] == ['unlock'], "unlocked", f"the mutex is released, nothing else changes ({st.ts})")
    def guard(m, eng, st, i, R, v): R(not m.held(st), "balance", "the mutex is released on every exit"); R(not m.has(st, 'set'), "read-only", "no value is changed")
    def ctor(want):
        def c(m, eng, st, i, R, v):
            if v == 'unwind': return
            got = [m.content(st, q) for q in (D(0), D(1), C)]
            R(all(x == want for x in got), "value", f"both slots and the real-time copy hold the initial value ({got})")
            w = st.load(Ptr('o:s', lay['control']), 4) or st.load(Ptr('o:s', lay['control']), 8)
            R(isinstance(w, Lin) and w.is_const and w.c in (0, 1), "word", f"no data is announced and nobody is writing (word {w})")
        return c
    def dtor(m, eng, st, i, R, v): R(m.g(st, 40).c == 0, "waits", "destruction waits until the real-time thread has left"); R(not m.held(st), "unlocked", "the mutex is not left locked")
    jobs = []
    J = lambda *a, **k: jobs.append(lambda r: job(r, *a, **k))
    J("r_new", "construction", False, ctor(('default',)), construct=True); J("r_newc", "construction from a value", False, ctor(('init', (X, 0))), construct=True)
    J("r_del", "destruction", False, dtor, destroy=True)
    J("r_rtacq", "acquire<RealTime>", True, rtacq); J("r_rtrel", "release<RealTime>", True, rtrel(None, None)); J("r_rtrep", "replace<RealTime>", True, rtrel(('int', Lin.sym('x')), None))
    J("r_acq", "acquire<NonRealTime>", False, acq); J("r_rel", "release<NonRealTime>", False, rel, lambda: start(1))
    J("r_grt", "guard rt", True, rtrel(None, None), body=True); J("r_gset", "guard assignment", True, rtrel(('init', (X, 0)), None)); J("r_gnrt", "guard nrt", False, guard, body=True)
    par(rep, jobs)
