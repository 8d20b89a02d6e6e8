"""disruptor: wait strategies and sequence barriers"""
from disruptor import *
HW = "src/disruptor/include/disruptor/WaitStrategy.hpp"; HB = "src/disruptor/include/disruptor/ProcessingSequenceBarrier.hpp"
LOCK = re.compile(r"unique_lock|scoped_lock|lock_guard|recursive_mutex|std::mutex")
def wunit(): return unit("wait.cpp", opaque=(MINSEQ, SPIN))
def bunit(): return unit("wait.cpp", opaque=(MINSEQ, SPIN, r"shared_from_this$", r"ThreadedStrategy::", r"WaitStrategy::waitFor$"))
def callee(eng, st, i):
    n = getattr(i.callee, 'name', '') or ''
    if not n and isinstance(i.callee, Value):
        p = eng.val(st, i.callee); n = p.name if isinstance(p, FnPtr) else ''
    return n

class Wait(Seq):
    """s = requested sequence, D = lowest dependent sequence on return. ts = (mutex held, cursor read since then, alert checked since then, polled, alert checked since the poll, timed out)"""
    words = ('o:c',); follow_unwind = True; accelerate = False
    s, D = Lin.sym('s'), Lin.sym('D')
    def __init__(self, rep, key, kind): super().__init__(rep, key); self.kind = kind; self.n = 0
    def put(self, st, **k):
        f = dict(zip(('held', 'cur', 'al', 'polled', 'al2', 'tout'), st.ts)); f.update(k); st.ts = tuple(f.values())
    def get(self, st, k): return dict(zip(('held', 'cur', 'al', 'polled', 'al2', 'tout'), st.ts))[k]
    def read(self, eng, st, i, o):
        v = st.newsym('c', -1, TOP); st.mem['o:g'][0] = (8, v)
        if self.get(st, 'held'): self.put(st, cur=True)
        return v
    def write(self, eng, st, i, o, v): self.req(eng, st, False, "pure", i, "waiting does not move the cursor")
    def swap(self, eng, st, i, o, a, b): self.write(eng, st, i, o, b)
    def load(self, eng, st, i, p):
        if p.obj != 'o:w' or i.ty.kind != 'int' or i.ty.width < 16 or not p.off.is_const: return None
        v = st.newsym('m', -(1 << 31) if i.ty.width < 64 else -TOP, (1 << 31) - 1 if i.ty.width < 64 else TOP)       # configuration of the strategy
        if self.unroll and i.ty.width == 64: v = st.newsym('m', 0, 1 << 40) * 1000      # counterexamples: timeouts of whole microseconds
        st.mem.setdefault('o:w', {})[p.off.c] = (i.ty.size, v); return v
    def unwinds(self, eng, st, i):
        n = callee(eng, st, i)
        return 'checkAlert' in n or '__cxa_throw' in n
    def call(self, eng, st, i, name, args):
        f = name.rsplit('::', 1)[-1]; R = lambda c, k, d: self.req(eng, st, c, k, i, d)
        if 'condition_variable' in name and f.startswith('wait'):
            self.n += 1
            g = st.mem['o:g'].get(0)
            R(self.get(st, 'held'), "wait.locked", "the thread goes to sleep holding the mutex of the condition variable")
            R(self.get(st, 'cur') and g is not None and st.le(g[1] + 1 - self.s), "wait.cursor", "the thread goes to sleep only after having seen, with the mutex held, that the sequence is not there yet (else the wake-up may be lost)")
            R(self.get(st, 'al'), "wait.alert", "the alert is checked with the mutex held before going to sleep (else the wake-up by alert() may be lost)")
            R(not self.get(st, 'tout'), "timeout.reported", "a wait that timed out while the sequence is still missing is reported, not repeated")
            self.put(st, cur=False, al=False)
            if f == 'wait': return [(st, None)]
            a, b = st, st.copy(); self.put(b, tout=True)
            w = i.ty.width if i.ty.kind == 'int' else 32
            if w == 1: return [(a, ec(1, 1)), (b, ec(1, 0))]        # predicate form
            return [(a, Lin(0)), (b, Lin(1))]
        if 'condition_variable' in name: raise Budget(f"{i.where()}: {name}")
        if LOCK.search(name):
            if f in ('lock', 'unique_lock', 'scoped_lock', 'lock_guard'): self.put(st, held=True, cur=False, al=False)
            elif f.startswith('~') or f == 'unlock': self.put(st, held=False)
            else: raise Budget(f"{i.where()}: {name}")
            return [(st, None)]
        if f == 'checkAlert':
            if self.get(st, 'held'): self.put(st, al=True)
            self.put(st, al2=True); return [(st, None)]
        if name.endswith('getMinimumSequence'):
            self.n += 1
            R(not self.get(st, 'held'), "poll.unlocked", "the mutex is not held while waiting for other consumers")
            R(not self.get(st, 'polled') or self.get(st, 'al2'), "poll.alert", "the alert is checked in every round of waiting for other consumers")
            self.put(st, polled=True, al2=False); v = st.newsym('min', -1, TOP)
            if isinstance(args[0], Ptr) and args[0].obj == 'o:d': st.assume_le(v - self.D)
            if len(args) > 1 and isinstance(args[1], Lin): st.assume_le(v - args[1])
            return [(st, v)]
        if name.endswith('spinOnce') or name.startswith('std::this_thread') or 'exception' in name and not name.startswith('__cxa_throw'): return [(st, Ptr(f"n:{name}") if i.ty.kind == 'ptr' else None)]
        return None
    def throw(self, eng, st, i, name):
        if name != '__cxa_throw': self.req(eng, st, False, "ends", i, f"waiting ends with a result or an exception ({name})"); return
        self.req(eng, st, self.kind == 'timeout' and self.get(st, 'tout'), "timeout", i, "a timeout is reported only after the wait timed out")
    def resume(self, eng, st, i): self.req(eng, st, not self.get(st, 'held'), "released", i, "the mutex is released when an exception leaves waitFor")
    def ret(self, eng, st, i, v):
        self.rets += 1; R = lambda c, k, d: self.req(eng, st, c, k, i, d)
        if not isinstance(v, Lin): self.open(st, 'result'); R(False, "reached", f"result {v}"); return
        R(st.le(self.s - v), "reached", f"the returned sequence is at least the one asked for (returned {v})")
        R(st.le(v - self.D), "passed", f"every dependent sequence has passed the returned one (returned {v})")
        R(not self.get(st, 'held'), "released", "the mutex is released on return")
class Signal(Checked):
    def call(self, eng, st, i, name, args):
        f = name.rsplit('::', 1)[-1]
        if LOCK.search(name):
            if f in ('lock', 'unique_lock', 'scoped_lock', 'lock_guard'): st.ts = st.ts + ('lock',)
            elif f.startswith('~') or f == 'unlock': st.ts = st.ts + ('unlock',)
            return [(st, None)]
        if 'condition_variable' in name: st.ts = st.ts + (f,); return [(st, None)]
        return None
    def ret(self, eng, st, i, v):
        self.rets += 1; t = st.ts
        self.req(eng, st, 'notify_all' in t and 'lock' in t[:t.index('notify_all')], "all", i, f"all sleeping threads are woken after the mutex was acquired (events {t})")
        self.req(eng, st, t.count('lock') == t.count('unlock'), "released", i, f"the mutex is released (events {t})")

class Barrier(Checked):
    """alert flag of the barrier 'o:b'; s = requested sequence, W = published frontier (>= s - 1). ts = events"""
    s, W = Lin.sym('s'), Lin.sym('W')
    def __init__(self, rep, key, role, lay, blocking): super().__init__(rep, key); self.role = role; self.lay = lay; self.blocking = blocking
    def ev(self, st, e):
        st.ts = st.ts + (e,)
        if len(st.ts) > 12: raise Budget("too many events")
    def flag(self, eng, st, i):
        if i.op not in ('load', 'store', 'atomicrmw', 'cmpxchg'): return False
        p = eng.val(st, i.ops[1] if i.op == 'store' else i.ops[0])
        return isinstance(p, Ptr) and p.obj == 'o:b' and p.off.is_const and p.off.c == self.lay['alert']
    def inst(self, eng, st, i):
        if not self.flag(eng, st, i): return None
        self.req(eng, st, i.op != 'load' and i.op != 'store' or i.ordering != 'na', "atomic", i, "the alert flag, shared by the halting and the waiting thread, is accessed atomically")
        if i.op == 'load':
            out = []
            for b in (0, 1): t = st.copy(); self.ev(t, ('seen', b)); out += eng.setv(t, i, ec(i.ty.width, b))
            return out
        if i.op == 'atomicrmw' and i.rmw == 'xchg':
            out = []; t = truth(st, eng.val(st, i.ops[1]))
            for b in (0, 1): c = st.copy(); self.ev(c, ('set', t)); out += eng.setv(c, i, ec(i.ty.width, b))
            return out
        if i.op != 'store': raise Budget(f"{i.where()}: {i.op} of the alert flag")
        self.ev(st, ('set', truth(st, eng.val(st, i.ops[0])))); return [st]
    def call(self, eng, st, i, name, args):
        f = name.rsplit('::', 1)[-1]; R = lambda c, k, d: self.req(eng, st, c, k, i, d)
        if f == 'checkAlert': self.ev(st, ('seen', 0)); return [(st, None)]
        if f == 'isAlerted':
            out = []
            for b in (0, 1): t = st.copy(); self.ev(t, ('seen', b)); out.append((t, ec(1, b)))
            return out
        if f == 'shared_from_this':
            p = args[0]
            if isinstance(p, Ptr) and i.sret: st.mem.setdefault(p.obj, {})[p.off.c] = (8, Ptr('o:b')); st.mem[p.obj][p.off.c + 8] = (8, Ptr('null')); return [(st, None)]
        if f == 'waitFor':
            w = [a for a in args if not (isinstance(a, Ptr) and a.obj in ('o:ws',))]; ptrs = {a.obj for a in args if isinstance(a, Ptr)}
            R(('seen', 0) in st.ts, "alert-first", "a pending alert is reported before waiting")
            R(any(isinstance(a, Lin) and st.eq(a, self.s) for a in args), "asks", "the requested sequence is waited for")
            R({'o:c', 'o:d'} <= ptrs, "tracks", f"the barrier's own cursor and dependent sequences are waited for (passed {sorted(ptrs)})")
            R('o:b' in ptrs, "self", "the wait can be interrupted by this barrier's alert")
            v = st.newsym('w', -1, TOP); st.mem['o:g'][0] = (8, v); return [(st, v)]
        if f == 'getHighestPublishedSequence':
            lo, hi = args[1], args[2]
            if not isinstance(lo, Lin) or not isinstance(hi, Lin): raise Budget(f"{i.where()}: range {lo}..{hi}")
            r = st.newsym('r', -1, TOP); ok = st.assume_le(r - hi)
            if ok and st.le(lo - 1 - self.W): ok = st.assume_le(r - self.W)
            if not ok: return []
            st.mem['o:g'][8] = (8, r); return [(st, r)]
        if name.endswith('getMinimumSequence'):
            R(isinstance(args[0], Ptr) and args[0].obj == 'o:d', "tracks", "the barrier's own dependent sequences are looked at")
            v = st.newsym('m', -1, TOP); st.mem['o:g'][16] = (8, v); return [(st, v)]
        if LOCK.search(name): self.ev(st, 'lock' if f in ('lock', 'unique_lock', 'scoped_lock', 'lock_guard') else 'unlock'); return [(st, None)]
        if 'condition_variable' in name: self.ev(st, f); return [(st, None)]
        if '_M_release' in name or 'exception::exception' in name: return [(st, None)]
        return None
    def throw(self, eng, st, i, name):
        if name == '__cxa_throw': self.req(eng, st, self.role in ('check', 'wait') and ('seen', 1) in st.ts, "throws", i, f"AlertException is thrown only if the barrier is alerted (events {st.ts})")
    def ret(self, eng, st, i, v):
        self.rets += 1; R = lambda c, k, d: self.req(eng, st, c, k, i, d); t = st.ts; g = lambda k: st.mem['o:g'].get(k, (8, None))[1]
        sets = [e[1] for e in t if isinstance(e, tuple) and e[0] == 'set']
        if self.role not in ('alert', 'clear'): R(not sets, "pure", "the alert flag is changed by alert() and clearAlert() only")
        if self.role == 'check': R(('seen', 1) not in t and ('seen', 0) in t, "result", f"checkAlert returns only if the barrier is not alerted (events {t})")
        elif self.role == 'is':
            b = truth(st, v)
            R(b is not None and ('seen', int(b)) in t, "result", f"isAlerted returns the flag (events {t}, result {b})")
        elif self.role == 'clear': R(sets and sets[-1] is False, "result", f"clearAlert clears the flag (stored {sets})")
        elif self.role == 'alert':
            R(sets and sets[-1] is True, "result", f"alert sets the flag (stored {sets})")
            if self.blocking and sets:
                after = t[max(k for k, e in enumerate(t) if isinstance(e, tuple) and e[0] == 'set') + 1:]
                R('notify_all' in after and 'lock' in after[:after.index('notify_all')], "wakes", f"sleeping threads are woken, under the mutex, after the flag was set (events {t})")
        elif self.role == 'cursor': R(isinstance(v, Lin) and g(16) is not None and st.eq(v, g(16)), "result", f"the lowest dependent sequence is returned (found {v})")
        elif self.role == 'wait':
            w, r = g(0), g(8)
            if not isinstance(v, Lin) or w is None: self.open(st, 'result'); R(False, "result", f"result {v}"); return
            R(st.le(v - w), "passed", f"the result does not exceed what the wait strategy found passed by all dependents (result {v}, found {w})")
            R(st.le(v - self.W) or st.le(v - self.s + 1), "published", f"a result at or beyond the requested sequence is published completely (result {v})")
            for x in eng.assume_cmp(st.copy(), 'sge', w, self.s, 64): self.req(eng, x, r is not None and x.eq(v, r), "all", i, "everything published among what the dependents passed is reported")
class Ctor(Checked):
    """constructor with the cursor 'o:c' and n dependent sequences: what the barrier will wait for. Shared pointers carry no control block (ownership is not the subject)"""
    def __init__(self, rep, key, n, lay): super().__init__(rep, key); self.n = n; self.lay = lay
    def unwinds(self, eng, st, i): return False
    def span(self, st, v):
        """elements of the vector of shared pointers at v"""
        if not isinstance(v, Ptr) or not v.off.is_const: return None
        m = st.mem.get(v.obj, {}); lo, hi = (m.get(v.off.c) or (8, None))[1], (m.get(v.off.c + 8) or (8, None))[1]
        return self.items(st, lo, hi)
    def items(self, st, lo, hi):
        if not (isinstance(lo, Ptr) and isinstance(hi, Ptr) and lo.obj == hi.obj and lo.off.is_const and hi.off.is_const): return None
        return [(st.mem.get(lo.obj, {}).get(k) or (8, None))[1] for k in range(lo.off.c, hi.off.c, 16)]
    def fill(self, st, v, xs):
        o = f'h:a{len(st.mem)}'; st.mem[o] = {}
        for k, x in enumerate(xs): st.mem[o].update({16 * k: (8, x), 16 * k + 8: (8, Ptr('null'))})
        st.mem[v.obj] = dict(st.mem.get(v.obj, {})); e = Ptr(o, Lin(16 * len(xs)))
        for k, x in ((0, Ptr(o)), (8, e), (16, e)): st.mem[v.obj][v.off.c + k] = (8, x)
    def call(self, eng, st, i, name, args):
        f = name.rsplit('::', 1)[-1]; null = Ptr('null'); at = lambda p: (st.mem.get(p.obj, {}).get(p.off.c) or (8, None))[1] if isinstance(p, Ptr) and p.off.is_const else None
        if 'make_shared' in name and isinstance(args[0], Ptr) and args[0].off.is_const:
            r = Ptr(f'h:v{len(st.mem)}'); xs = [] if len(args) == 1 else self.span(st, args[1]) if len(args) == 2 else None
            if len(args) == 2 and xs is None and isinstance(at(args[1]), Lin) and at(args[1]).is_const and 0 <= at(args[1]).c < 16: xs = [null] * at(args[1]).c
            if xs is None: return None
            st.mem[r.obj] = {}; self.fill(st, r, xs)
            st.mem[args[0].obj] = dict(st.mem.get(args[0].obj, {})); st.mem[args[0].obj].update({args[0].off.c: (8, r), args[0].off.c + 8: (8, null)}); return [(st, None)]
        if 'std::vector' not in name or not args: return None
        xs = self.span(st, args[0])
        if xs is None and f != 'vector': return None
        n = args[1].c if len(args) > 1 and isinstance(args[1], Lin) and args[1].is_const else None
        if f == 'reserve': return [(st, None)]
        if f in ('resize', '_M_default_append') and n is not None and 0 <= n < 16: self.fill(st, args[0], (xs + [null] * n)[:n if f == 'resize' else len(xs) + n]); return [(st, None)]
        if f in ('push_back', 'emplace_back', '_M_realloc_append') and len(args) == 2 and at(args[1]) is not None: self.fill(st, args[0], xs + [at(args[1])]); return [(st, Ptr('h:back') if i.ty.kind == 'ptr' else None)]
        if f == 'operator=' and self.span(st, args[1]) is not None: self.fill(st, args[0], self.span(st, args[1])); return [(st, args[0])]
        if f == 'vector' and len(args) == 2 and self.span(st, args[1]) is not None: self.fill(st, args[0], self.span(st, args[1])); return [(st, None)]
        if f.startswith('~'): return [(st, None)]
        if f in ('insert', '_M_insert_aux', '_M_insert_rval', '_M_range_insert', '_M_realloc_insert') and isinstance(args[1], Ptr):
            lo = at(args[0])
            if not isinstance(lo, Ptr) or lo.obj != args[1].obj or not args[1].off.is_const: return None
            k = (args[1].off.c - lo.off.c) // 16; new = self.items(st, args[2], args[3]) if len(args) >= 4 else [at(args[2])] if len(args) == 3 and at(args[2]) is not None else None
            if new is None: return None
            self.fill(st, args[0], xs[:k] + new + xs[k:]); return [(st, Ptr(at(args[0]).obj, Lin(16 * k)) if i.ty.kind == 'ptr' else None)]
        return None
    def ret(self, eng, st, i, v):
        self.rets += 1; R = lambda c, k, d: self.req(eng, st, c, k, i, d); b = st.mem.get('o:b', {})
        P = lambda m, o: (m.get(o) or (8, None))[1]
        vec = P(b, self.lay['deps'])
        if not isinstance(vec, Ptr) or not vec.off.is_const: self.open(st, 'dependents'); R(False, "dependents", f"dependents {vec}"); return
        got = self.span(st, vec)
        if got is None or any(not isinstance(x, Ptr) for x in got): self.open(st, 'dependents'); R(False, "dependents", f"dependents {got}"); return
        want = {f'o:d{k}' for k in range(self.n)}; have = {x.obj for x in got}
        R(want <= have, "dependents", f"the barrier waits for every sequence it was given (given {sorted(want)}, tracks {sorted(have)})")
        R('o:c' in have, "dependents.cursor", f"the barrier waits for the ring's cursor also when dependents are given (tracks {sorted(have)})")
        R(have <= want | {'o:c'}, "dependents.only", f"the barrier waits for nothing else (tracks {sorted(have)})")
        c = P(b, self.lay['cursor']); R(isinstance(c, Ptr) and c.obj == 'o:c', "cursor", f"the barrier keeps the cursor it was given (keeps {c})")
STRATEGIES = (('blocking', 'BlockingWaitStrategy'), ('busy', 'BusySpinWaitStrategy'), ('sleep', 'SleepingWaitStrategy'), ('spin', 'SpinWaitWaitStrategy'), ('timeout', 'TimeoutBlockingWaitStrategy'), ('yield', 'YieldingWaitStrategy'))
def run_wait(rep):
    rep.rule("waitFor of each strategy: returned value >= request and <= every dependent; typestate of mutex, cursor check, alert check and sleep (check under the mutex before sleeping, alert check in every polling round); signalAllWhenBlocking: mutex then notify_all; barrier: atomic alert flag, alert checked before waiting, alert() sets the flag then wakes, result limited to published events")
    rep.assume("alert()/publish() change the flag/cursor before acquiring the waiters' mutex (P18 and this property), so a check made under the mutex cannot miss them")
    u = wunit(); ub = bunit()
    vt = [v for v in u.mod.vtables('ProcessingSequenceBarrier') if 'Blocking' in v]
    def one(rep, tag, name):
        def init(f):
            st = State(); st.ts = (False,) * 6; st.mem['o:g'] = {}
            for s in ('s', 'D'): st.z.add(s, '0', TOP); st.z.add('0', s, 1)
            st.env[f.args[0].ref] = Ptr('o:w'); st.env[f.args[1].ref] = Wait.s
            for k, o in zip(f.args[2:], ('o:c', 'o:d', 'o:b')): st.env[k.ref] = Ptr(o)
            st.mem['o:b'] = {0: (8, Ptr('@' + vt[0], Lin(16)))}
            return [st]
        decide(rep, u.fn(f"vf_w_{tag}"), lambda: Wait(rep, f"{name}.waitFor", tag), init, f"{name}.waitFor", HW)
        if tag in ('blocking', 'timeout'):
            def ini(f): st = State(); st.ts = (); st.env[f.args[0].ref] = Ptr('o:w'); return [st]
            decide(rep, u.fn(f"vf_sig_{tag}"), lambda: Signal(rep, f"{name}.signal"), ini, f"{name}.signal", HW)
    def bar(rep, tag, multi, name):
        lay = {k: const_of(ub, f"vf_{tag}_off_{k}") for k in ('alert', 'deps', 'cursor', 'prov', 'wait', 'pref', 'wref')}
        if lay['alert'] is None or lay['alert'] < 0: rep.unk(f"{name}.layout", HB, "fields of ProcessingSequenceBarrier not found under their names"); return
        bt = [v for v in ub.mod.vtables('ProcessingSequenceBarrier') if ('Multi' in v) == multi]
        rt = [v for v in ub.mod.vtables('RingBuffer') if ('Multi' in v) == multi and '10RingBufferI' in v]
        objs = {'deps': 'o:d', 'cursor': 'o:c', 'prov': 'o:rb', 'pref': 'o:rb', 'wait': 'o:ws', 'wref': 'o:ws'}
        for role in ('wait', 'cursor', 'is', 'alert', 'clear', 'check'):
            def init(f):
                st = State(); st.ts = (); st.mem['o:g'] = {}
                for s in ('s', 'W'): st.z.add(s, '0', TOP); st.z.add('0', s, 1)
                st.assume_le(Barrier.s - 1 - Barrier.W)
                st.env[f.args[0].ref] = Ptr('o:b')
                if len(f.args) > 1: st.env[f.args[1].ref] = Barrier.s
                st.mem['o:b'] = {0: (8, Ptr('@' + bt[0], Lin(16)))}
                for k, o in objs.items():
                    if lay[k] is not None and lay[k] >= 0: st.mem['o:b'][lay[k]] = (8, Ptr(o))
                st.mem['o:rb'] = {0: (8, Ptr('@' + rt[0], Lin(16)))}
                return [st]
            decide(rep, ub.fn(f"vf_{tag}_{role}"), lambda: Barrier(rep, f"{name}.{role}", role, lay, multi), init, f"{name}.{role}", HB)
    def ctor(rep, tag, multi, name, n):
        lay = {k: const_of(ub, f"vf_{tag}_off_{k}") for k in ('deps', 'cursor')}
        if any(v is None or v < 0 for v in lay.values()): rep.unk(f"{name}.ctor({n})", HB, "fields of ProcessingSequenceBarrier not found under their names"); return
        def init(f):
            st = State(); st.ts = (); st.mem['o:b'] = {}
            for a, (o, t) in zip(f.args, ((None, 'o:b'), ('p:p', 'o:rb'), ('p:w', 'o:ws'), ('p:c', 'o:c'))):
                st.env[a.ref] = Ptr(o or t)
                if o: st.mem[o] = {0: (8, Ptr(t)), 8: (8, Ptr('null'))}
            st.env[f.args[4].ref] = Ptr('p:v'); e = Ptr('p:a', Lin(16 * n)) if n else Ptr('null')
            st.mem['p:v'] = {0: (8, Ptr('p:a') if n else Ptr('null')), 8: (8, e), 16: (8, e)}; st.mem['p:a'] = {}
            for k in range(n): st.mem['p:a'].update({16 * k: (8, Ptr(f'o:d{k}')), 16 * k + 8: (8, Ptr('null'))})
            return [st]
        decide(rep, ub.fn(f"vf_{tag}_ctor"), lambda: Ctor(rep, f"{name}.ctor({n})", n, lay), init, f"{name}.ctor({n})", HB, unroll=(n + 4,))
    par(rep, [lambda r, n=n, a=a: ctor(r, *a, n) for n in (0, 1, 2, 3) for a in (('bm', True, 'Barrier<Blocking,Multi>'), ('bs', False, 'Barrier<BusySpin,Single>'))] + [lambda r, a=a: one(r, *a) for a in STRATEGIES] + [lambda r, a=a: bar(r, *a) for a in (('bm', True, 'Barrier<Blocking,Multi>'), ('bs', False, 'Barrier<BusySpin,Single>'))])
