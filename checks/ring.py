"""disruptor: EventPoller and RingBuffer"""
from disruptor import *
import disruptor
STRAT = r"ThreadedStrategy::(next|tryNext|hasAvailableCapacity|getRemainingCapacity|publish|isAvailable|getHighestPublishedSequence)$"
HR = "src/disruptor/include/disruptor/RingBuffer.hpp"
def runit(): return unit("ring.cpp", opaque=(MINSEQ, STRAT))

class Exc(Seq):
    """exceptions with types: the type of the exception in flight is kept in ghost cell 'o:g'[64] (numbers of self.types)"""
    types = {}                                 # number -> names of the type and its bases (type_info symbols)
    follow_unwind = True
    def num(self, name):
        if not hasattr(self, '_n'): self._n = {}
        return self._n.setdefault(name, 100 + len(self._n))
    def typeid(self, eng, st, i, name): return Lin(self.num(name))
    def flight(self, st): return st.mem['o:g'].get(64, (8, None))[1]
    def selector(self, eng, st, i):
        t = self.flight(st)
        if t is None: return Lin(1)
        for c in i.clauses:
            n = getattr(c, 'name', '') or ''
            if c.kind == 'null' or n in self.types.get(t, ()): return Lin(self.num(n))
        return Lin(0)

# ------------------------------------------------------------------------------------------ poll
class Poll(Seq):
    """W = published frontier, G = slowest gating sequence, cur = own sequence on entry. ghost 'o:g': 0 done (last sequence handed over successfully),
    8 what was reported available, 16 own sequence, 24 cursor seen; ts = (handler called, handler said stop, exception in flight)"""
    words = ('o:q',); follow_unwind = True; accelerate = False
    W, G, cur = Lin.sym('W'), Lin.sym('G'), Lin.sym('cur')
    def __init__(self, rep, key, multi, lay, states): super().__init__(rep, key); self.multi = multi; self.lay = lay; self.states = states; self.hc = 0
    def g(self, st, k): return st.mem['o:g'].get(k, (8, None))[1]
    def read(self, eng, st, i, o): return self.g(st, 16)
    def write(self, eng, st, i, o, v):
        self.req(eng, st, isinstance(v, Lin) and st.le(v - self.g(st, 0)), "own.behind", i, f"the own sequence never runs ahead of the events handed over (stored {v}, handed over up to {self.g(st, 0)})")
        self.req(eng, st, i.ordering in REL, "own.release", i, f"the own sequence is advanced with release order (found {i.ordering})")
        st.mem['o:g'][16] = (8, v)
    def swap(self, eng, st, i, o, a, b): self.write(eng, st, i, o, b)
    def inst(self, eng, st, i):
        if i.op == 'landingpad': st.ts = (st.ts[0], st.ts[1], True)
        return super().inst(eng, st, i)
    def unwinds(self, eng, st, i):
        n = getattr(i.callee, 'name', '') or ''
        return n.startswith('vf_handler') or 'rethrow_exception' in n
    def call(self, eng, st, i, name, args):
        f = name.rsplit('::', 1)[-1]
        if name.endswith('getMinimumSequence'):
            v = st.newsym('min', -1, TOP); m = args[1] if len(args) > 1 else None
            if isinstance(m, Lin): st.assume_le(v - m)
            if isinstance(args[0], Ptr) and args[0].obj == 'o:p' and st.eq(args[0].off, Lin(self.lay['gate'])): st.assume_le(v - self.G)
            return [(st, v)]
        if f == 'getHighestPublishedSequence':
            lo, hi = args[1], args[2]
            if not isinstance(lo, Lin) or not isinstance(hi, Lin): raise Budget(f"{i.where()}: range {lo}..{hi}")
            r = st.newsym('r', -1, TOP)
            if not self.multi: ok = st.assume_eq(r - hi)
            else:
                ok = st.assume_le(r - hi)
                if ok and st.le(lo - 1 - self.W): ok = st.assume_le(r - self.W)
            if not ok: return []
            st.mem['o:g'][8] = (8, r); return [(st, r)]
        if f == 'operator[]' and len(args) > 1 and isinstance(args[1], Lin): return [(st, Ptr('o:ev', args[1]))]
        if f == 'cursor':
            v = st.newsym('c', -1, TOP); st.mem['o:g'][24] = (8, v); return [(st, v)]
        if f in ('bufferSize',): return [(st, Lin(8))]
        if f.startswith('vf_handler'):
            e, s, last = args[0], args[1], args[2]; done = self.g(st, 0); r = self.g(st, 8); R = lambda c, k, d: self.req(eng, st, c, k, i, d)
            if eng.record: self.hc += 1
            if not isinstance(s, Lin): raise Budget(f"{i.where()}: sequence {s}")
            R(st.eq(s, done + 1), "order", f"events are handed over in sequence, each once (handed over {s} after {done})")
            R(st.le(s - self.W), "published", "only published events are handed over")
            R(st.le(s - self.G), "gated", "only events that all gating sequences have passed are handed over")
            R(isinstance(e, Ptr) and e.obj == 'o:ev' and st.eq(e.off, s), "event", f"the handler is given the event of the sequence it is told (event {e}, sequence {s})")
            R(not st.ts[1], "stop", "no event is handed over after the handler asked to stop")
            if r is not None:
                for t, b in cases(eng, st.copy(), last):
                    self.req(eng, t, t.eq(s, r) if b else not eng.assume_cmp(t.copy(), 'eq', s, r, 64), "last", i, "the end-of-batch flag is set exactly for the last available event")
            st.mem['o:g'][0] = (8, s); out = []
            if f == 'vf_handler_v': st.ts = (True, st.ts[1], st.ts[2]); return [(st, None)]
            for b in (True, False):
                t = st.copy(); t.ts = (True, not b or st.ts[1], st.ts[2]); out.append((t, ec(1, int(b))))
            return out
        if 'exception_ptr' in name or name.startswith('__cxa_') or name == 'std::current_exception':
            if name == '__cxa_rethrow': return None
            return [(st, Ptr('o:exception') if name == '__cxa_begin_catch' else None)]
        return None
    def common(self, eng, st, i, what):
        q, done = self.g(st, 16), self.g(st, 0); R = lambda c, k, d: self.req(eng, st, c, k, i, d)
        R(isinstance(q, Lin) and st.eq(q, done), f"{what}.own", f"afterwards the own sequence is the last event handed over successfully (is {q}, handed over {done})")
        la = st.load(Ptr('o:p', Lin(self.lay['last'])), 8)
        if isinstance(la, Lin): R(st.le(la - self.W), f"{what}.known", f"what is remembered as available is published (remembers {la})")
    def throw(self, eng, st, i, name):
        if 'rethrow' in name or name == '__cxa_throw': self.common(eng, st, i, "exception")
        elif 'terminate' in name: self.req(eng, st, False, "terminate", i, "an exception of the handler reaches the caller")
    def resume(self, eng, st, i): self.common(eng, st, i, "exception")
    def ret(self, eng, st, i, v):
        self.rets += 1; done, r, c = self.g(st, 0), self.g(st, 8), self.g(st, 24); called, stop, exc = st.ts; R = lambda c, k, d: self.req(eng, st, c, k, i, d)
        R(not exc, "propagates", "an exception of the handler is not swallowed")
        if exc: return
        self.common(eng, st, i, "return")
        if r is None: self.open(st, "availability not asked"); R(False, "asks", "availability is determined by the ring buffer"); return
        if called: R(stop or st.eq(done, r), "all", f"unless told to stop, every available event is handed over (handed over {done} of {r})")
        else: R(st.le(r - self.cur), "some", f"available events are handed over (available {r}, own sequence {self.cur})")
        if not isinstance(v, Lin): v = eng.to_lin(st, v) if isinstance(v, Ex) else v
        if not isinstance(v, Lin): self.open(st, f"result {v}"); R(False, "state", f"result {v}"); return
        P, Gt, I = self.states
        if called: R(st.eq(v, Lin(P)), "state.processing", f"Processing is reported when events were handed over (reported {v})"); return
        R(c is not None, "state.cursor", "the poll state depends on the cursor")
        if c is None: return
        for s in eng.assume_cmp(st.copy(), 'sge', c, self.cur + 1, 64): self.req(eng, s, s.eq(v, Lin(Gt)), "state.gating", i, f"Gating is reported when the cursor moved on but nothing is available (reported {v})")
        for s in eng.assume_cmp(st.copy(), 'slt', c, self.cur + 1, 64): self.req(eng, s, s.eq(v, Lin(I)), "state.idle", i, f"Idle is reported when nothing was claimed beyond the own sequence (reported {v})")
def run_poll(rep):
    rep.rule("EventPoller::poll with symbolic own sequence, published frontier W and slowest gating sequence G: loop invariant 'everything up to done was handed over in order'; every call of the handler, every return and every exceptional exit is compared with the specification")
    rep.assume("own sequence <= W and remembered availability <= W on entry; getHighestPublishedSequence / getMinimumSequence as established by P17/P18; gating list not empty; the handler is arbitrary (may stop or throw at any event)")
    u = runit(); states = [const_of(u, f"vf_state_{k}") for k in ('processing', 'gating', 'idle')]
    def one(rep, tag, multi, fn, name):
        lay = {k: const_of(u, f"vf_{tag}_off_{k}") for k in ('data', 'seq', 'gate', 'last')}
        if any(v is None or v < 0 for v in lay.values()): rep.unk(f"{name}.layout", HR, "fields of EventPoller not found under their names"); return
        vt = [v for v in u.mod.vtables('RingBuffer') if ('Multi' in v) == multi and 'Lm8E' in v and '10RingBufferI' in v]
        def init(f):
            st = State(); st.env[f.args[0].ref] = Ptr('o:p'); st.ts = (False, False, False)
            for s in ('W', 'G', 'cur', 'la'): st.z.add(s, '0', TOP); st.z.add('0', s, 1)
            st.assume_le(Poll.cur - Poll.W); st.assume_le(Lin.sym('la') - Poll.W)
            if not multi: st.assume_le(Poll.G - Poll.W)
            st.mem['o:p'] = {lay['data']: (8, Ptr('o:rb')), lay['seq']: (8, Ptr('o:q')), lay['last']: (8, Lin.sym('la'))}
            st.mem['o:rb'] = {0: (8, Ptr('@' + vt[0], Lin(16)))}
            st.mem['o:g'] = {0: (8, Poll.cur), 16: (8, Poll.cur)}
            return [st]
        decide(rep, u.fn(fn), lambda: Poll(rep, name, multi, lay, states), init, name, HR)
        if not any(k.startswith(f"{name}.order") for k in rep.obl): rep.unk(f"{name}.order", HR, "no call of the handler found")
    par(rep, [lambda r, a=a: one(r, *a) for a in (("ps", False, "vf_ps_poll", "poll<Single>"), ("ps", False, "vf_ps_pollv", "poll<Single,void>"), ("pm", True, "vf_pm_poll", "poll<Multi>"), ("pm", True, "vf_pm_pollv", "poll<Multi,void>"))])

# ------------------------------------------------------------------------------------------ publishing
class Pub(Exc):
    """ts = (claims, translator calls, publishes, exceptions escaped from tryNext)"""
    types = {1: ('_ZTIN7opencmw9disruptor19NoCapacityExceptionE', '_ZTISt13runtime_error', '_ZTISt9exception'), 2: ('vf_other',)}
    words = ()
    def __init__(self, rep, key, role, exc): super().__init__(rep, key); self.role = role; self.exc = exc
    def seq(self, st): return st.mem['o:g'].get(0, (8, None))[1]
    def unwinds(self, eng, st, i):
        f = getattr(i.callee, 'name', '') or ''
        if f == 'vf_translate': return True
        if not f:
            p = eng.val(st, i.callee) if isinstance(i.callee, Value) else None
            f = p.name if isinstance(p, FnPtr) else ''
        return 'tryNext' in f
    def edge(self, eng, st, src, dst):
        t = src.term
        if t.op == 'invoke' and src.succs[1] is dst:
            f = getattr(t.callee, 'name', '') or ''; c, tr, pb, ex = st.ts
            if f == 'vf_translate': self.trans(eng, st, t, [eng.val(st, a) for a in t.ops]); st.mem['o:g'][64] = (8, self.exc)
            else: st.ts = (c, tr, pb, 1); st.mem['o:g'][64] = (8, 1)
        return st
    def trans(self, eng, st, i, args):
        c, tr, pb, ex = st.ts; s = self.seq(st); R = lambda c, k, d: self.req(eng, st, c, k, i, d)
        R(s is not None and isinstance(args[1], Lin) and st.eq(args[1], s), "sequence", f"the translator is told the claimed sequence (told {args[1]}, claimed {s})")
        R(s is not None and isinstance(args[0], Ptr) and args[0].obj == 'o:ev' and st.eq(args[0].off, s), "slot", f"the translator writes the slot of the claimed sequence (slot {args[0]}, claimed {s})")
        R(pb == 0, "before", "the event is written before it is published"); R(tr == 0, "translate.once", "the translator is invoked once")
        st.ts = (c, min(tr + 1, 3), pb, ex)
    def call(self, eng, st, i, name, args):
        f = name.rsplit('::', 1)[-1]; c, tr, pb, ex = st.ts
        if f in ('next', 'tryNext') and ('RingBuffer' in name or 'Strategy' in name):
            n = args[-1]
            self.req(eng, st, isinstance(n, Lin) and st.eq(n, Lin(1)), "one", i, f"one slot is claimed per event (found {n})")
            if self.role == 'trypub': self.req(eng, st, f == 'tryNext', "nonblocking", i, "tryPublishEvent never waits for capacity")
            s = st.newsym('S', 0, TOP); st.mem['o:g'][0] = (8, s); st.ts = (min(c + 1, 3), tr, pb, ex); return [(st, s)]
        if f == 'operator[]' and isinstance(args[-1], Lin): return [(st, Ptr('o:ev', args[-1]))]
        if f == 'publish':
            s = self.seq(st); R = lambda c, k, d: self.req(eng, st, c, k, i, d)
            R(s is not None and isinstance(args[-1], Lin) and st.eq(args[-1], s), "publishes", f"the claimed sequence is published (published {args[-1]}, claimed {s})")
            R(tr >= 1, "after", "publication follows the translation")
            st.ts = (c, tr, min(pb + 1, 3), ex); return [(st, None)]
        if name == 'vf_translate': self.trans(eng, st, i, args); return [(st, None)]
        if name == '__cxa_begin_catch': return [(st, Ptr('o:exception'))]
        if name == '__cxa_end_catch': return [(st, None)]
        return None
    def throw(self, eng, st, i, name): self.leave(eng, st, i, f"{name}")
    def resume(self, eng, st, i): self.leave(eng, st, i, "exception")
    def leave(self, eng, st, i, how): self.req(eng, st, False, "noexcept", i, f"no exception of the translator (or lack of capacity) ends the call or the program ({how})")
    def ret(self, eng, st, i, v):
        self.rets += 1; c, tr, pb, ex = st.ts; R = lambda c, k, d: self.req(eng, st, c, k, i, d)
        if self.role == 'pub': R(c == 1 and tr == 1 and pb == 1, "once", f"one claim, one translation and one publication per event, also if the translator throws (found {c}, {tr}, {pb})"); return
        t = truth(st, v)
        if t is None: self.open(st, f"result {v}")
        if ex: R(t is False and tr == 0 and pb == 0, "full", f"without capacity nothing is written or published and false is returned (result {t}, translations {tr}, publications {pb})")
        else: R(t is True and c == 1 and tr == 1 and pb == 1, "once", f"true is returned after one claim, translation and publication (result {t}; {c}, {tr}, {pb})")
class Forward(Seq):
    """the ring's own gating list, cursor and claim strategy are used; ts = calls of the strategy"""
    words = ('o:cur',)
    def __init__(self, rep, key, role, lay, sizes): super().__init__(rep, key); self.role = role; self.lay = lay; self.sizes = sizes
    WANT = {'has': 'hasAvailableCapacity', 'next': 'next', 'trynext': 'tryNext', 'remain': 'getRemainingCapacity', 'publish': 'publish', 'avail': 'isAvailable', 'ispub': 'isAvailable', 'highest': 'getHighestPublishedSequence', 'mingate': 'getMinimumSequence'}
    def read(self, eng, st, i, o): return Lin.sym('cv')
    def write(self, eng, st, i, o, v): self.req(eng, st, False, "pure", i, "the cursor is moved by the claim strategy only")
    def swap(self, eng, st, i, o, a, b): self.write(eng, st, i, o, b)
    def call(self, eng, st, i, name, args):
        f = name.rsplit('::', 1)[-1]
        if f not in self.WANT.values(): return None
        R = lambda c, k, d: self.req(eng, st, c, k, i, d)
        R(f == self.WANT.get(self.role), "target", f"{self.role} is answered by {self.WANT.get(self.role)} of the claim strategy (found {f})")
        if f != self.WANT.get(self.role): return None
        a, b, cv = Lin.sym('a'), Lin.sym('b'), Lin.sym('cv'); E = lambda x, y: isinstance(x, Lin) and st.eq(x, y)
        if f != 'getMinimumSequence': R(isinstance(args[0], Ptr) and args[0].obj == ('o:r' if 'RingBuffer' in name else 'o:cs'), "strategy", "the ring's own claim strategy is used")
        rest = args if f == 'getMinimumSequence' else args[1:]
        if f in ('hasAvailableCapacity', 'next', 'tryNext', 'getRemainingCapacity', 'getMinimumSequence'): R(isinstance(rest[0], Ptr) and rest[0].obj == 'o:gv', "gating", "the ring's own gating sequences are respected"); rest = rest[1:]
        want = {'has': [a, cv], 'next': [a], 'trynext': [a], 'remain': [], 'publish': [a], 'avail': [a], 'ispub': [a], 'highest': [a, b], 'mingate': [cv]}[self.role]
        R(len(rest) == len(want) and all(E(x, y) for x, y in zip(rest, want)), "arguments", f"the caller's arguments are passed on (found {rest})")
        st.ts = st.ts + (1,)
        if len(st.ts) > 3: raise Budget("repeated calls")
        v = None
        if i.ty.kind == 'int' and i.ty.width == 1:
            out = []
            for t in (0, 1): s = st.copy(); s.mem['o:g'][0] = (8, Lin(t)); out.append((s, ec(1, t)))
            return out
        if i.ty.kind == 'int': v = st.newsym('res', -1, TOP); st.mem['o:g'][0] = (8, v)
        return [(st, v)]
    def ret(self, eng, st, i, v):
        self.rets += 1; R = lambda c, k, d: self.req(eng, st, c, k, i, d)
        if self.role == 'cursor': R(isinstance(v, Lin) and st.eq(v, Lin.sym('cv')), "result", f"the cursor's value is returned (found {v})"); return
        if self.role == 'size': R(isinstance(v, Lin) and st.eq(v, Lin(self.sizes[0])), "result", f"the ring's size is returned (found {v})"); return
        if self.role == 'at':
            size, nb = self.sizes; r = Lin.sym('R'); o = st.canon(v.off - self.lay['entries']) if isinstance(v, Ptr) and v.obj == 'o:r' else None
            if o is None: self.open(st, f"result {v}"); R(False, "slot", f"result {v}"); return
            k = st.canon(o - r * 8)
            R(st.lb(k) == st.ub(k), "slot", f"the slot of sequence s is s mod SIZE entries behind a fixed one (found byte {o} for s = {size}*Q + R)")
            R(st.lb(o) >= 0 and st.ub(o) <= nb - 8, "inside", f"the slot lies inside the buffer of {nb} bytes (found bytes {st.lb(o)}..{st.ub(o)})"); return
        R(len(st.ts) == 1, "once", f"the claim strategy is asked once (found {len(st.ts)})")
        g = st.mem['o:g'].get(0)
        if g is None: return
        if isinstance(v, Ex): v = Lin(int(truth(st, v))) if truth(st, v) is not None else None
        R(isinstance(v, Lin) and st.eq(v, g[1]), "result", f"the strategy's answer is returned (found {v})")
def run_ring(rep):
    rep.rule("publishEvent/tryPublishEvent: typestate claim -> translate -> publish on every path including those on which the translator throws; slot addressing in bounds and injective modulo SIZE; every sequencer operation hands the ring's own gating list, cursor and the caller's arguments to the claim strategy")
    u = runit()
    def one(rep, tag, size, multi, name):
        lay = {k: const_of(u, f"vf_{tag}_off_{k}") for k in ('entries', 'gate', 'cursor', 'claim', 'wait')}
        nb = const_of(u, f"vf_{tag}_entries_size")
        if any(v is None or v < 0 for v in lay.values()): rep.unk(f"{name}.layout", HR, "fields of RingBuffer not found under their names"); return
        vt = [v for v in u.mod.vtables('RingBuffer') if ('Multi' in v) == multi and f'Lm{size}E' in v and '10RingBufferI' in v]
        def init(f):
            st = State(); st.env[f.args[0].ref] = Ptr('o:r')
            for s in ('a', 'b', 'cv'): st.z.add(s, '0', TOP); st.z.add('0', s, 1)
            st.mem['o:r'] = {0: (8, Ptr('@' + vt[0], Lin(16))), lay['gate']: (8, Ptr('o:gv')), lay['cursor']: (8, Ptr('o:cur')), lay['claim']: (8, Ptr('o:cs')), lay['wait']: (8, Ptr('o:wait'))}
            st.mem['o:g'] = {}
            for k, s in zip(f.args[1:], ('a', 'b')): st.env[k.ref] = Lin.sym(s)
            return [st]
        for role in ('pub', 'trypub'):
            for exc, en in ((2, 'any'), (1, 'capacity')):
                def ini(f): (st,) = init(f); st.ts = (0, 0, 0, 0); return [st]
                decide(rep, u.fn(f"vf_{tag}_{role}"), lambda: Pub(rep, f"{name}.{role}({en})", role, exc), ini, f"{name}.{role}({en})", HR)
        for role in ('has', 'next', 'trynext', 'remain', 'publish', 'avail', 'ispub', 'highest', 'mingate', 'cursor', 'size', 'at'):
            def ini(f):
                (st,) = init(f); st.ts = ()
                if role in ('has', 'next', 'trynext'): st.z.add('a', '0', size - 1); st.z.add('0', 'a', -1)
                if role == 'at':
                    st.z.add('0', 'a', 0)
                    st.z.add('R', '0', size - 1); st.z.add('0', 'R', 0); st.z.add('Q', '0', TOP); st.z.add('0', 'Q', 0)
                    st.add_eq(Lin.sym('a') - Lin.sym('Q') * size - Lin.sym('R')); st.defs[(Lin.sym('a'), size)] = ('Q', 'R')
                return [st]
            decide(rep, u.fn(f"vf_{tag}_{role}"), lambda: Forward(rep, f"{name}.{role}", role, lay, (size, nb)), ini, f"{name}.{role}", HR)
    par(rep, [lambda r, a=a: one(r, *a) for a in (("rs", 8, False, "RingBuffer<8,Single>"), ("rm", 8, True, "RingBuffer<8,Multi>"), ("rk", 1024, True, "RingBuffer<1024,Multi>"))])
