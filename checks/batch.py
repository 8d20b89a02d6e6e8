"""disruptor: BatchEventProcessor"""
from disruptor import *
from wait import callee
HP = "src/disruptor/include/disruptor/BatchEventProcessor.hpp"
def bpunit(): return unit("batch.cpp", opaque=(MINSEQ, SPIN, r"shared_from_this$", r"ThreadedStrategy::", r"dynamic_pointer_cast$", r"ProcessingSequenceBarrier::", r"RingBuffer::", r"^vfi::(Handler|Timeout|Life|Exc)::"))
EXC = ('_ZTISt9exception',); TIMEOUT = ('_ZTIN7opencmw9disruptor16TimeoutExceptionE',) + EXC; ALERT = ('_ZTIN7opencmw9disruptor14AlertExceptionE',) + EXC; RUNTIME = ('_ZTISt13runtime_error',) + EXC
class Batch(Seq):
    """ghost 'o:g': 0 done (last event handed over or given to the exception handler), 8 available, 16 own sequence, 24 sequence whose event failed, 56 thrower.
    ts = (phase, running flag, lifecycle notifications): phase 'run' | 'alerted' (AlertException in flight or just caught) | 'halted' (then seen not running)"""
    words = ('o:q',); follow_unwind = True; quiet_unwind = True; accelerate = False
    cur = Lin.sym('cur')
    RAISES = {'waitFor': (TIMEOUT, ALERT), 'onEvent': (RUNTIME,), 'onTimeout': (RUNTIME,), 'onStart': (RUNTIME,), 'onShutdown': (RUNTIME,)}
    KINDS = list(RAISES)
    def __init__(self, rep, key, lay, role, has_exc, has_tout): super().__init__(rep, key); self.lay = lay; self.role = role; self.has_exc = has_exc; self.has_tout = has_tout; self.n = 0; self._n = {}
    def num(self, name): return self._n.setdefault(name, 100 + len(self._n))
    def g(self, st, k): return st.mem['o:g'].get(k, (8, None))[1]
    def typeid(self, eng, st, i, name): return Lin(self.num(name))
    def unwinds(self, eng, st, i):
        n = callee(eng, st, i)
        return any(k in n for k in self.KINDS)
    def edge(self, eng, st, src, dst):
        t = src.term
        if t.op == 'invoke' and src.succs[1] is dst:
            n = callee(eng, st, t); k = next((k for k in self.KINDS if k in n), None)
            if k is not None: st.mem['o:g'][56] = (8, Lin(self.KINDS.index(k)))
            if k == 'onEvent': self.event(eng, st, t, [eng.val(st, a) for a in t.ops]); st.mem['o:g'][24] = (8, eng.val(st, t.ops[2]))
        return st
    def inst(self, eng, st, i):
        if i.op == 'landingpad':
            k = self.g(st, 56); out = []
            if k is None: return None
            for names in self.RAISES[self.KINDS[k.c]]:
                s = st.copy(); sel = Lin(0); s.mem['o:g'].pop(56, None)
                for c in i.clauses:
                    n = getattr(c, 'name', '') or ''
                    if c.kind == 'null' or n in names: sel = Lin(self.num(n)); break
                if names is ALERT: s.ts = ('alerted',) + s.ts[1:]
                out += eng.setv(s, i, ('agg', Ptr('o:exception'), sel))
            return out
        if i.op in ('load', 'store', 'atomicrmw'):
            p = eng.val(st, i.ops[1] if i.op == 'store' else i.ops[0])
            if isinstance(p, Ptr) and p.obj == 'null': self.req(eng, st, False, "null", i, "handlers that were not given are not used"); return []
            if isinstance(p, Ptr) and p.obj == 'o:p' and p.off.is_const and p.off.c == self.lay['running']: return self.flag(eng, st, i)
        return super().inst(eng, st, i)
    def flag(self, eng, st, i):
        if i.op in ('load', 'store'): self.req(eng, st, i.ordering != 'na', "atomic", i, "the running flag, shared with halting threads, is accessed atomically")
        if i.op == 'store': st.ts = (st.ts[0], truth(st, eng.val(st, i.ops[0])), st.ts[2]); return [st]
        if i.op == 'atomicrmw':
            if i.rmw != 'xchg': raise Budget(f"{i.where()}: {i.rmw} of the running flag")
            out = []; new = truth(st, eng.val(st, i.ops[1]))
            for b in (0, 1): s = st.copy(); s.ts = ('taken' if b and s.ts[0] == 'new' else 'run' if s.ts[0] == 'new' else s.ts[0], new, s.ts[2]); out += eng.setv(s, i, ec(i.ty.width, b))
            return out
        out = []
        for b in (0, 1):
            s = st.copy()
            if s.ts[0] == 'alerted': s.ts = ('halted' if not b else 'run',) + s.ts[1:]
            if self.role == 'is': s.mem['o:g'][32] = (8, Lin(b))
            out += eng.setv(s, i, ec(i.ty.width, b))
        return out
    def read(self, eng, st, i, o): return self.g(st, 16)
    def write(self, eng, st, i, o, v):
        done = self.g(st, 0); own = self.g(st, 16); bad = self.g(st, 24)
        if bad is not None and not self.has_exc: done = bad                  # nobody to tell: the failed event is skipped
        R = lambda c, k, d: self.req(eng, st, c, k, i, d)
        R(isinstance(v, Lin) and st.le(v - done), "own.behind", f"the processor's sequence never runs ahead of the events handled (stored {v}, handled up to {done})")
        R(isinstance(v, Lin) and st.le(own - v), "own.grows", f"the processor's sequence never goes back (stored {v}, was {own})")
        R(i.ordering in REL, "own.release", f"the processor's sequence is advanced with release order (found {i.ordering})")
        st.mem['o:g'][16] = (8, v)
    def swap(self, eng, st, i, o, a, b): self.write(eng, st, i, o, b)
    def event(self, eng, st, i, args):
        e, s, last = args[1], args[2], args[3]; done, r = self.g(st, 0), self.g(st, 8); R = lambda c, k, d: self.req(eng, st, c, k, i, d)
        if not isinstance(s, Lin): raise Budget(f"{i.where()}: sequence {s}")
        R(st.ts[0] == 'run', "phase", "events are delivered only by the running processor")
        R(st.eq(s, done + 1), "order", f"events are delivered in sequence, each once (delivered {s} after {done})")
        R(r is not None and st.le(s - r), "available", "only events the barrier reported available are delivered")
        R(isinstance(e, Ptr) and e.obj == 'o:ev' and st.eq(e.off, s), "event", f"the handler is given the event of the sequence it is told (event {e}, sequence {s})")
        if r is not None:
            for t, b in cases(eng, st.copy(), last):
                self.req(eng, t, t.eq(s, r) if b else not eng.assume_cmp(t.copy(), 'eq', s, r, 64), "last", i, "the end-of-batch flag is set exactly for the last available event")
    def call(self, eng, st, i, name, args):
        f = name.rsplit('::', 1)[-1]; R = lambda c, k, d: self.req(eng, st, c, k, i, d)
        if f == 'waitFor':
            if eng.record: self.n += 1
            s = args[-1]; done, own = self.g(st, 0), self.g(st, 16)
            R(isinstance(s, Lin) and st.eq(s, done + 1), "asks", f"the event after the last one handled is waited for (asked {s}, handled {done})")
            R(st.ts[0] != 'halted', "halts", "a halted processor does not go on waiting"); R(st.ts[0] != 'taken', "exclusive", "a processor that is already running is not run again")
            R(isinstance(own, Lin) and st.eq(own, done), "own.current", f"the processor's sequence is up to date before it waits (is {own}, handled {done})")
            if not isinstance(s, Lin): raise Budget(f"{i.where()}: sequence {s}")
            if st.ts[0] == 'alerted': st.ts = ('run',) + st.ts[1:]
            r = st.newsym('r', -1, TOP)
            if not st.assume_le(s - 1 - r): return []
            st.mem['o:g'][8] = (8, r); return [(st, r)]
        if f == 'cursor' and i.ty.kind == 'int': return [(st, st.newsym('k', -1, TOP))]      # wherever the producers or dependents are
        if f == 'onEvent':
            self.event(eng, st, i, args); st.mem['o:g'][0] = (8, args[2]); return [(st, None)]
        if f == 'handleEventException':
            s, e = args[2], args[3]; bad = self.g(st, 24)
            R(isinstance(args[0], Ptr) and args[0].obj == 'o:x', "handler", "the exception handler is used only if there is one")
            R(bad is not None and isinstance(s, Lin) and st.eq(s, bad), "failed.sequence", f"the exception handler is told the sequence of the failed event (told {s}, failed {bad})")
            R(bad is not None and isinstance(e, Ptr) and e.obj == 'o:ev' and st.eq(e.off, bad), "failed.event", f"the exception handler is given the failed event (given {e}, failed {bad})")
            if bad is not None: st.mem['o:g'].pop(24); st.mem['o:g'][0] = (8, bad)
            return [(st, None)]
        if f.startswith('handleOn'): R(isinstance(args[0], Ptr) and args[0].obj == 'o:x', "handler", "the exception handler is used only if there is one"); return [(st, None)]
        if f == 'onTimeout':
            R(isinstance(args[0], Ptr) and args[0].obj == 'o:t', "timeout.handler", "the timeout handler is used only if there is one")
            R(isinstance(args[1], Lin) and st.eq(args[1], self.g(st, 16)), "timeout", f"the timeout handler is told the processor's sequence (told {args[1]})"); return [(st, None)]
        if f in ('onStart', 'onShutdown'):
            R(f not in st.ts[2], "lifecycle", f"{f} is notified once (so far {st.ts[2]})")
            st.ts = (st.ts[0], st.ts[1], st.ts[2] + (f,) if len(st.ts[2]) < 4 else st.ts[2])
            if f == 'onShutdown': R(st.ts[0] == 'halted', "shutdown", "the shutdown is notified after the processor was halted")
            return [(st, None)]
        if f in ('clearAlert', 'alert', 'checkAlert'):
            if self.role == 'halt' and f == 'alert': st.mem['o:g'][40] = (8, Lin(1))
            return [(st, None)]
        if f == 'operator[]' and isinstance(args[-1], Lin): return [(st, Ptr('o:ev', args[-1]))]
        if f == 'dynamic_pointer_cast':
            p = args[0]; out = []
            if not isinstance(p, Ptr): return None
            for o in ('null', 'o:life'): s = st.copy(); s.mem.setdefault(p.obj, {}); s.mem[p.obj] = dict(s.mem[p.obj]); s.mem[p.obj][p.off.c] = (8, Ptr(o)); s.mem[p.obj][p.off.c + 8] = (8, Ptr('null')); out.append((s, None))
            return out
        if name == '__cxa_begin_catch': return [(st, Ptr('o:exception'))]
        if name == '__cxa_end_catch':
            bad = self.g(st, 24)
            if bad is not None and st.ts[0] != 'alerted' and not self.has_exc: st.mem['o:g'].pop(24); st.mem['o:g'][0] = (8, bad)
            return [(st, None)]
        if '_M_release' in name or 'runtime_error::runtime_error' in name or 'logic_error::logic_error' in name: return [(st, None)]
        return None
    def throw(self, eng, st, i, name):
        if name == '__cxa_throw': self.req(eng, st, self.role == 'run' and st.ts[0] == 'taken', "exclusive", i, "run() refuses only if the processor is already running")
        else: self.req(eng, st, False, "terminate", i, f"no exception of a handler ends the program ({name})")
    def resume(self, eng, st, i): self.req(eng, st, False, "survives", i, "a handler's exception does not end the processor")
    def ret(self, eng, st, i, v):
        self.rets += 1; R = lambda c, k, d: self.req(eng, st, c, k, i, d)
        if self.role == 'halt':
            R(st.ts[1] is False, "stops", "halt() clears the running flag"); R(self.g(st, 40) is not None, "alerts", "halt() alerts the barrier so that a waiting processor wakes up"); return
        if self.role == 'is': b = self.g(st, 32); R(b is not None and truth(st, v) is not None and int(truth(st, v)) == b.c, "result", "isRunning returns the running flag"); return
        R(st.ts[0] == 'halted', "ends", f"run() ends only when alerted and halted (phase {st.ts[0]})")
        R(st.ts[1] is False, "flag", "the processor can be run again after it ended")
        own, done = self.g(st, 16), self.g(st, 0); R(isinstance(own, Lin) and st.eq(own, done), "own.final", f"at the end the processor's sequence is the last event handled (is {own}, handled {done})")
def run_batch(rep):
    rep.rule("BatchEventProcessor::run: loop invariants over own sequence, events handled and events available; waitFor may report a timeout or an alert at any time, the handlers may throw at any event; exceptions are dispatched by type along the landing pads; typestate running -> alerted -> halted")
    rep.assume("waitFor(s) returns at least s-1 or throws Timeout/AlertException (P21); user handlers throw exceptions derived from std::exception other than these two; exception handlers do not throw")
    u = bpunit()
    lay = {k: const_of(u, f"vf_bp_off_{k}") for k in ('running', 'data', 'dataref', 'bar', 'barref', 'hand', 'handref', 'seq', 'seqref', 'tout', 'exc')}
    if lay['running'] is None or lay['running'] < 0: rep.unk("BatchEventProcessor.layout", HP, "fields not found under their names"); return
    V = lambda pat: '@' + [v for v in u.mod.vtables(pat)][0]
    vt = {'o:rb': V('10RingBufferI|RingBuffer<'), 'o:b': V('ProcessingSequenceBarrier'), 'o:h': V('vfi::Handler'), 'o:t': V('vfi::Timeout'), 'o:life': V('vfi::Life'), 'o:x': V('vfi::Exc')}
    def one(rep, role, hx, ht):
        key = f"run({'with' if hx else 'without'} exception handler, {'with' if ht else 'without'} timeout handler)" if role == 'run' else role
        objs = {'data': 'o:rb', 'dataref': 'o:rb', 'bar': 'o:b', 'barref': 'o:b', 'hand': 'o:h', 'handref': 'o:h', 'seq': 'o:q', 'seqref': 'o:q', 'tout': 'o:t' if ht else 'null', 'exc': 'o:x' if hx else 'null'}
        def init(f):
            st = State(); st.ts = ('new', None, ()); st.env[f.args[0].ref] = Ptr('o:p')
            st.z.add('cur', '0', TOP); st.z.add('0', 'cur', 1)
            st.mem['o:p'] = {}; st.mem['o:g'] = {0: (8, Batch.cur), 16: (8, Batch.cur)}
            for k, o in objs.items():
                if lay[k] is not None and lay[k] >= 0: st.mem['o:p'][lay[k]] = (8, Ptr(o))
            for o, t in vt.items(): st.mem[o] = {0: (8, Ptr(t, Lin(16)))}
            return [st]
        ms = []
        def mk(): m = Batch(rep, key, lay, role, hx, ht); ms.append(m); return m
        decide(rep, u.fn(f"vf_bp_{role}"), mk, init, key, HP, unroll=(1, 2, 3))
        if role == 'run' and not any(k.startswith(key + ".order") for k in rep.obl): rep.unk(f"{key}.order", HP, "no delivery found")
    par(rep, [lambda r, a=a: one(r, *a) for a in (('run', True, True), ('run', False, True), ('run', True, False), ('halt', True, True), ('is', True, True))])
