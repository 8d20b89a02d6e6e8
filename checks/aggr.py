"""disruptor: AggregateEventHandler - every handler once, in order, with the same event"""
from disruptor import *
HA = "src/disruptor/include/disruptor/AggregateEventHandler.hpp"
N = Lin.sym('n')
class Aggr(Checked):
    """'o:v': vector of n handlers, handler k is 'o:h' + k. ghost: 0 next handler to notify, 8 lifecycle handler found but not yet notified (index)"""
    scale = {'o:v': 16, 'o:h': 1 << 20, 'o:life': 1 << 20}; accelerate = False
    def __init__(self, rep, key, role, vt): super().__init__(rep, key); self.role = role; self.vt = vt; self.n = 0
    def g(self, st, k): return st.mem['o:g'].get(k, (8, None))[1]
    def inst(self, eng, st, i):
        if i.op == 'load' and i.ty.kind == 'ptr':
            p = eng.val(st, i.ops[0])
            if isinstance(p, Ptr) and p.obj == 'o:v':
                self.req(eng, st, st.le(-p.off) and st.le(p.off - N + 1), "inside", i, f"only handlers of the collection are used ({p.off})")
                return eng.setv(st, i, Ptr('o:h', p.off))
            if isinstance(p, Ptr) and p.obj == 'o:v.8': return eng.setv(st, i, Ptr('null'))
            if isinstance(p, Ptr) and p.obj in self.vt: return eng.setv(st, i, Ptr(self.vt[p.obj], Lin(16)))
            if isinstance(p, Ptr) and p.obj == 'null': self.req(eng, st, False, "null", i, "a handler without lifecycle interface is not notified"); return []
        return None
    def next(self, eng, st, i, k):
        if eng.record: self.n += 1
        want = self.g(st, 0)
        self.req(eng, st, st.eq(k, want), "order", i, f"the handlers are notified in order, each once (handler {k}, expected {want})")
        st.mem['o:g'][0] = (8, k + 1)
    def call(self, eng, st, i, name, args):
        f = name.rsplit('::', 1)[-1]; R = lambda c, k, d: self.req(eng, st, c, k, i, d)
        if f == 'onEvent':
            h, d, s, e = args
            if not isinstance(h, Ptr) or h.obj != 'o:h': raise Budget(f"{i.where()}: handler {h}")
            R(self.role == 'event', "kind", "only onEvent is forwarded as onEvent"); self.next(eng, st, i, h.off)
            R(d == Ptr('o:d'), "event", f"every handler gets the event ({d})"); R(isinstance(s, Lin) and st.eq(s, Lin.sym('s')), "sequence", f"every handler gets the sequence ({s})")
            R(e == self.flag, "last", f"every handler gets the end-of-batch flag ({e})"); return [(st, None)]
        if f in ('onStart', 'onShutdown'):
            h = args[0]; pend = self.g(st, 8)
            if not isinstance(h, Ptr) or h.obj != 'o:life': raise Budget(f"{i.where()}: handler {h}")
            R(self.role == f, "kind", f"{self.role} is forwarded as such (called {f})")
            R(pend is not None and st.eq(pend, h.off), "once", "a handler is notified once"); st.mem['o:g'].pop(8, None); return [(st, None)]
        if f in ('dynamic_pointer_cast', '__dynamic_cast'):
            src = args[1] if f[0] == 'd' else args[0]
            if f[0] == 'd': k = self.elem(eng, st, src)
            else: k = src.off if isinstance(src, Ptr) and src.obj == 'o:h' else None
            if k is None: raise Budget(f"{i.where()}: cast of {src}")
            R(self.g(st, 8) is None, "skipped", "a handler with a lifecycle interface is notified"); self.next(eng, st, i, k); out = []
            for o in (Ptr('null'), Ptr('o:life', k)):
                s = st.copy(); s.mem['o:g'] = dict(s.mem['o:g'])
                if o.obj != 'null': s.mem['o:g'][8] = (8, k)
                if f[0] == 'd':
                    p = args[0]; s.mem[p.obj] = dict(s.mem.get(p.obj, {})); s.mem[p.obj][p.off.c] = (8, o); s.mem[p.obj][p.off.c + 8] = (8, Ptr('null')); out.append((s, None))
                else: out.append((s, o))
            return out
        if '_M_release' in name or '_M_add_ref' in name or '__shared_count' in name: return [(st, None)]
        return None
    def elem(self, eng, st, p):
        """index of the handler a shared_ptr designates: an element of the vector, or a copy of one"""
        if isinstance(p, Ptr) and p.obj == 'o:v': return p.off
        v = st.load(p, 8) if isinstance(p, Ptr) else None
        return v.off if isinstance(v, Ptr) and v.obj == 'o:h' else None
    def throw(self, eng, st, i, name): self.req(eng, st, False, "quiet", i, f"{name} is reachable")
    def ret(self, eng, st, i, v):
        self.rets += 1
        self.req(eng, st, st.eq(self.g(st, 0), N), "all", i, f"every handler was notified (up to {self.g(st, 0)} of {N})")
        self.req(eng, st, self.g(st, 8) is None, "skipped", i, "a handler with a lifecycle interface is notified")
def run(rep):
    rep.rule("AggregateEventHandler: loop invariant 'handlers 0..k-1 were notified' over a vector of any length; arguments compared symbolically; dynamic_pointer_cast succeeds or fails for any handler")
    rep.assume("the collection holds no null pointers and is not changed by the handlers; fewer than 2^31 handlers")
    u = unit("aggr.cpp", opaque=(r"dynamic_pointer_cast$", r"^vfi::(Handler|Life)::"))
    off = const_of(u, 'vf_off')
    if off is None or off < 0: rep.unk("AggregateEventHandler.layout", HA, "handlers not found under their name"); return
    V = lambda pat: '@' + [v for v in u.mod.vtables(pat)][0]
    vt = {'o:h': V('vfi::Handler'), 'o:life': V('vfi::Life')}
    def one(rep, fn, role):
        def init(f):
            st = State(); st.z.add('n', '0', (1 << 31) - 2); st.z.add('0', 'n', 0); st.z.s.add('s')
            end = Ptr('o:v', N); st.mem['o:a'] = {off: (8, Ptr('o:v')), off + 8: (8, end), off + 16: (8, end)}; st.mem['o:g'] = {0: (8, Lin(0))}
            st.env[f.args[0].ref] = Ptr('o:a')
            if role == 'event':
                fl = Ex('leaf', 1, ('flag',)) if False else Lin.sym('e'); st.z.add('e', '0', 1); st.z.add('0', 'e', 0)
                st.env[f.args[1].ref] = Ptr('o:d'); st.env[f.args[2].ref] = Lin.sym('s'); st.env[f.args[3].ref] = fl
            return [st]
        ms = []
        def mk(): m = Aggr(rep, role, role, vt); m.flag = Lin.sym('e'); ms.append(m); return m
        decide(rep, u.fn(fn), mk, init, role, HA)
        if not any(m.n for m in ms): rep.unk(f"{role}.order", HA, "no notification found")
    par(rep, [lambda r, a=a: one(r, *a) for a in (('vf_event', 'event'), ('vf_start', 'onStart'), ('vf_shut', 'onShutdown'))])
