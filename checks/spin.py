"""SpinWait / AtomicMutex: outcome of spinUntil, absence of UB in spinOnce, mutual exclusion of AtomicMutex."""
from ir import Unit
from relint import *
from decide import Checked, decide, cases
import policy

_unit = None
def unit():
    global _unit
    if _unit is None: _unit = Unit("spin.cpp", policy.make(), passes=policy.UNROLL)
    return _unit

TMAX = 1 << 60
NS = 1000000

def truth(st, v):
    if isinstance(v, Lin): return None if not v.is_const else bool(v.c)
    if isinstance(v, Ex):
        S = st.eset(v)
        vals = list(S.values()) if S.size <= 4 else []
        if len(vals) == 1: return bool(vals[0])
    return None

class Tier(Checked):
    def rq(self, st, cond, key, where, detail):
        if cond: self.rep.ok(key, where, detail)
        else: self.bad(st, key, where, detail)

class Until(Tier):
    """ts = (last condition value or None, number of evaluations capped at 2, clock read in this iteration, gave up the CPU / spun in this iteration)
    ghost cells: 0 first clock reading, 8 last clock reading, 16 consecutive iterations without a clock reading"""
    def __init__(self, rep, tag, lo, hi):
        Checked.__init__(self, rep, tag + '.'); self.tag = tag; self.lo = lo; self.hi = hi; self.falses = 0; self.trues = 0; self.throws = 0; self.noread = 0; self.backs = 0
    def clock(self, st):
        g = st.mem['o:vf']; t = st.newsym('t', 0, TMAX)
        if 8 in g: st.assume_le(g[8][1] - t)
        if 0 not in g: g[0] = (8, t)
        g[8] = (8, t)
        st.ts = st.ts[:2] + (True,) + st.ts[3:]
        return t
    def call(self, eng, st, i, name, args):
        if name == 'vf_cond':
            out = []
            for b in (True, False):
                s = st.copy(); s.ts = (b, min(2, s.ts[1] + 1)) + s.ts[2:]; out.append((s, ec(1, int(b))))
            return out
        if name.startswith('std::chrono') and name.endswith('::now'):
            if eng.record and self.lo is not None and self.lo >= 1: self.rq(st, 'system_clock' not in name, f"{self.tag}.monotonic", i.where(), f"time is measured with a monotonic clock ({name})")
            return [(st, self.clock(st))]
        if name.startswith('std::this_thread::') or name in ('sched_yield', 'nanosleep', '__gthread_yield'):
            st.ts = st.ts[:3] + (True,) + st.ts[4:]
            return [(st, self.sym0(st, i))]
        return None
    def sym0(self, st, i): return Lin(0) if i.ty.kind == 'int' else None
    def enter_loop(self, eng, st, hdr): return st
    def backedge(self, eng, st, hdr):
        if 16 not in st.mem['o:vf'] or st.ts[0] is None: return st
        if hdr not in self.outer(eng): return st
        g = st.mem['o:vf']
        if eng.record and self.lo is not None and self.lo >= 1:
            self.backs += 1; rep, t = self.rep, self.tag; where = hdr.insts[-1].where()
            if st.ts[2]:
                el = g[8][1] - g[0][1]
                self.rq(st, st.ub(el - Lin.sym('T') * NS) <= NS, f"{t}.stops", where, "a timed wait does not continue once the timeout has elapsed (to 1 ms)")
            elif not self.unroll or st.ub(g[16][1]) >= 4 and st.mem['o:vf'].get(24, (8, Lin(0)))[1].c >= self.unroll - 3: self.rq(st, st.ub(g[16][1]) < (1 << 20 if not self.unroll else 4), f"{t}.keeps-looking", where, f"the number of consecutive polls without a look at the clock is bounded (found {st.ub(g[16][1])})")
        if self.unroll: g[24] = (8, g.get(24, (8, Lin(0)))[1] + 1)
        if st.ts[2]: g[16] = (8, Lin(0))
        else: g[16] = (8, g[16][1] + 1)
        st.ts = st.ts[:2] + (False, False, st.ts[2])
        return st
    def outer(self, eng):
        if not hasattr(eng, '_outer'): eng._outer = {h for h in eng.loops if not any(h in b and h is not g for g, b in eng.loops.items())}
        return eng._outer
    def ret(self, eng, st, i, v):
        rep, t = self.rep, self.tag; T = Lin.sym('T')
        if not st.consistent(): return
        self.rets += 1
        for s, b in cases(eng, st, v): self.one(eng, s, i, b)
    def one(self, eng, st, i, b):
        rep, t = self.rep, self.tag; T = Lin.sym('T')
        if self.hi is not None and self.hi < -1: self.bad(st, f"{t}.reject", i.where(), "a timeout below -1 ms is not rejected"); return
        if b:
            self.trues += 1
            self.rq(st, st.ts[0] is True, f"{t}.true", i.where(), "true is returned only when the last evaluation of the condition was true")
            return
        self.falses += 1
        self.rq(st, st.ts[0] is False, f"{t}.false.cond", i.where(), "false is returned only when the last evaluation of the condition was false")
        if self.lo == 0 and self.hi == 0:
            self.rq(st, st.ts[1] <= 1 and not st.ts[3], f"{t}.polls", i.where(), "with timeout 0 the condition is evaluated once, without waiting in between"); return
        if self.lo == -1: self.bad(st, f"{t}.false", i.where(), "spinUntil without a timeout (-1) can return false although the condition never became true"); return
        g = st.mem['o:vf']
        if 0 not in g or 8 not in g: self.bad(st, f"{t}.false", i.where(), "a timed wait gives up without having measured any time"); return
        el = g[8][1] - g[0][1]
        self.rq(st, st.ub(T * NS - el) <= NS, f"{t}.false", i.where(), "a timed wait returns false only after the timeout has elapsed on the monotonic clock (to 1 ms)")
    def throw(self, eng, st, i, name):
        if name == '__cxa_throw':
            self.throws += 1
            if not (self.hi is not None and self.hi < -1): self.bad(st, f"{self.tag}.nothrow", i.where(), "exception thrown for a valid timeout")

def run_until(rep):
    u = unit(); rep.fn("opencmw::SpinWait::spinUntil", "opencmw::SpinWait::getTickCount", "opencmw::SpinWait::spinOnce")
    rep.rule("relational abstract interpretation of spinUntil with an adversarial condition (each evaluation may yield true or false) and a monotone clock; partitioned by the timeout value (<-1, -1, 0, 1, 2, >=3)")
    rep.assume("the monotonic clock never goes backwards and counts nanoseconds since its epoch, 0 <= t < 2^60; timeout < 2^40 ms")
    fn = u.fn("vf_until")
    for tag, lo, hi in (("timeout<-1", None, -2), ("timeout=-1", -1, -1), ("timeout=0", 0, 0), ("timeout=1", 1, 1), ("timeout=2", 2, 2), ("timeout>=3", 3, 1 << 40)):
        def start(fn):
            st = State(); st.env[fn.args[0].ref] = Ptr('o:s'); st.env[fn.args[1].ref] = Lin.sym('T')
            st.z.add('0', 'T', -(lo if lo is not None else -(1 << 40))); st.z.add('T', '0', hi)
            st.mem['o:vf'] = {16: (8, Lin(0))}; st.ts = (None, 0, False, False, False)
            if lo != 3: return [st]
            out = [st]
            for c in (1 << 31, (1 << 32) + 2, 1000):           # values at which narrower arithmetic would show
                s = st.copy(); s.env[fn.args[1].ref] = Lin(c); s.assume_eq(Lin.sym('T') - c); out.append(s)
            return out
        last = []
        def mk(): last.append(Until(rep, tag, lo, hi)); return last[-1]
        decide(rep, fn, mk, start, tag + '.', unroll=(16,)); m = last[0]
        if f"{tag}..budget" in rep.obl: continue
        if hi < -1:
            if m.throws and f"{tag}.reject" not in rep.obl: rep.ok(f"{tag}.reject", fn.where(), "throws")
            elif not m.throws: rep.bad(f"{tag}.reject", fn.where(), "a timeout below -1 ms is not rejected")
            continue
        rep.ok(f"{tag}.nothrow", fn.where(), "no exception")
        if lo == -1:
            if not m.falses: rep.ok(f"{tag}.false", fn.where(), "false is never returned")
        elif not m.falses: rep.bad(f"{tag}.gives-up", fn.where(), f"{tag}: no path returns false, so the wait never times out")
        else: rep.ok(f"{tag}.gives-up", fn.where(), "a giving-up path exists")
        if not m.trues: rep.bad(f"{tag}.true", fn.where(), f"{tag}: no path reports success")
        rep.sites += m.falses + m.trues
    fn = u.fn("vf_until_forever"); tag = "no timeout argument"
    def start(fn):
        st = State(); st.env[fn.args[0].ref] = Ptr('o:s'); st.mem['o:vf'] = {16: (8, Lin(0))}; st.ts = (None, 0, False, False, False); st.z.add('T', '0', -1); st.z.add('0', 'T', 1); return [st]
    last = []
    def mk(): last.append(Until(rep, tag, -1, -1)); return last[-1]
    decide(rep, fn, mk, start, tag + '.', unroll=(16,)); m = last[0]
    if f"{tag}..budget" not in rep.obl:
        if not m.falses: rep.ok(f"{tag}.false", fn.where(), "false is never returned")
        if not m.trues: rep.bad(f"{tag}.true", fn.where(), "no path reports success")

class Once(Tier):
    """ts = set of what happened: 'gave' (yield/sleep) or 'spin'"""
    def __init__(self, rep, tag): Checked.__init__(self, rep, 'spinOnce.'); self.tag = tag; self.shifts = 0
    def inst(self, eng, st, i):
        if i.op == 'shl' and i.ty.width == 32:
            b = eng.val(st, i.ops[1])
            if isinstance(b, Lin) and not b.is_const:
                if eng.record:
                    self.shifts += 1
                    self.rq(st, st.lb(b) >= 0 and st.ub(b) < 32, "spinOnce.shift", i.where(), f"shift amount stays below the operand width for every count (range [{st.lb(b)},{st.ub(b)}])")
                if st.lb(b) >= 0 and st.ub(b) < 32:
                    a = eng.val(st, i.ops[0])
                    r = st.newsym('shl')
                    if isinstance(a, Lin) and a.is_const and a.c > 0: st.z.add('0', r.t[0][0], -a.c); st.z.add(r.t[0][0], '0', a.c << int(st.ub(b)))
                    return eng.setv(st, i, r)
        if i.op in ('call', 'invoke') and i.asm: st.ts = tuple(sorted(set(st.ts) | {'spin'}))
        return None
    def call(self, eng, st, i, name, args):
        if name.startswith('std::this_thread::') or name in ('sched_yield', 'nanosleep', '__gthread_yield', 'usleep', 'clock_nanosleep'):
            st.ts = tuple(sorted(set(st.ts) | {'gave'})); return [(st, None)]
        return None
    def ret(self, eng, st, i, v):
        if not st.consistent(): return
        self.rets += 1; c0 = Lin.sym('c0'); c = st.load(Ptr('o:s'), 4)
        if not isinstance(c, Lin): self.rep.unk("spinOnce.count", i.where(), f"counter value {c} not resolved"); return
        self.rq(st, st.lb(c) >= 0 and st.ub(c) < (1 << 31), "spinOnce.count.range", i.where(), f"the counter stays in [0, INT_MAX] (found [{st.lb(c)},{st.ub(c)}])")
        self.rq(st, st.eq(c, c0 + 1) or st.eq(c0, Lin((1 << 31) - 1)), "spinOnce.count.step", i.where(), f"each call advances the counter by one, except at INT_MAX (found {c})")
        if st.le(Lin(11) - c0): self.rq(st, 'gave' in st.ts, "spinOnce.gives-up-cpu", i.where(), "once nextSpinWillYield() is true a call yields or sleeps")

def run_once(rep):
    u = unit(); rep.fn("opencmw::SpinWait::spinOnce", "opencmw::SpinWait::reset", "opencmw::SpinWait::nextSpinWillYield", "opencmw::SpinWait::count")
    rep.rule("inductive invariant 0 <= count <= INT_MAX over spinOnce()/reset(); no shift beyond the operand width, no signed overflow for any reachable count")
    fn = u.fn("vf_once")
    for lo, hi in ((0, 10), (11, (1 << 31) - 2), ((1 << 31) - 1, (1 << 31) - 1)):
        def start(fn): st = State(); st.env[fn.args[0].ref] = Ptr('o:s'); st.z.add('0', 'c0', -lo); st.z.add('c0', '0', hi); st.mem['o:s'] = {0: (4, Lin.sym('c0'))}; return [st]
        decide(rep, fn, lambda: Once(rep, "spinOnce"), start, "spinOnce.")
    fn = u.fn("vf_reset"); st = State(); st.env[fn.args[0].ref] = Ptr('o:s'); st.z.add('0', 'c0', 0); st.mem['o:s'] = {0: (4, Lin.sym('c0'))}
    class R(Model):
        def ret(self, eng, st, i, v):
            c = st.load(Ptr('o:s'), 4); rep.require(isinstance(c, Lin) and st.eq(c, Lin(0)), "reset", i.where(), f"reset() sets the counter to 0 (found {c})")
    Interp(fn, R()).run(st)
    fn = u.fn("vf_yields")
    for lo, hi, want in ((0, 10, False), (11, (1 << 31) - 1, True)):
        st = State(); st.env[fn.args[0].ref] = Ptr('o:s'); st.z.add('0', 'c0', -lo); st.z.add('c0', '0', hi); st.mem['o:s'] = {0: (4, Lin.sym('c0'))}
        class Y(Model):
            def ret(self, eng, st, i, v):
                for b in (True, False):
                    if eng.assume(st.copy(), v, b) and b != want: rep.bad("nextSpinWillYield", i.where(), f"nextSpinWillYield() is {b} for counts in [{lo},{hi}]")
                rep.ok("nextSpinWillYield", i.where(), "true exactly above the threshold of 10")
        Interp(fn, Y()).run(st)

class Mtx(Tier):
    """adversarial environment on the flag byte; ts = True after a test_and_set that found the flag clear"""
    follow_unwind = True
    def bad(self, st, key, where, detail): self.rep.bad(key, where, detail)          # path rules: hold or fail whatever the values are
    def __init__(self, rep, tag, role): Checked.__init__(self, rep, tag + '.'); self.tag = tag; self.role = role; self.offs = set(); self.clears = 0
    def inst(self, eng, st, i):
        if i.op in ('load', 'cmpxchg', 'atomicrmw'): p = eng.val(st, i.ops[0])
        elif i.op == 'store': p = eng.val(st, i.ops[1])
        else: return None
        if not (isinstance(p, Ptr) and p.obj == 'o:m' and p.off.is_const): return None
        if i.op in ('load', 'store') and i.ordering == 'na':
            return None          # ordinary members
        self.offs.add(p.off.c); r = self.rep; t = self.tag
        if i.op == 'load': return eng.setv(st, i, eng.fresh(st, i.ty, 'flag'))
        if i.op == 'store':
            v = eng.val(st, i.ops[0]); z = truth(st, v)
            if self.role == 'lock':
                if eng.record: self.bad(st, f"{t}.nostore", i.where(), f"{t}: lock() overwrites the flag with a plain store")
            else:
                self.clears += 1
                if eng.record:
                    self.rq(st, z is False, f"{t}.clear", i.where(), f"{t}: unlock() clears the flag"); self.rq(st, i.ordering in ('release', 'seq_cst'), f"{t}.release", i.where(), f"{t}: the clear is a release operation (found {i.ordering})")
                st.ts = ('cleared',)
            return [st]
        w = i.ty.width if i.op == 'atomicrmw' else i.ops[1].ty.width
        out = []
        if i.op == 'atomicrmw':
            v = eng.val(st, i.ops[1]); z = truth(st, v)
            if i.rmw not in ('xchg', 'or', 'and') or z is None: raise Budget(f"{i.where()}: atomicrmw {i.rmw}")
            if z is True and i.rmw in ('xchg', 'or'):
                if self.role == 'unlock' and eng.record: self.bad(st, f"{t}.clear", i.where(), f"{t}: unlock() sets the flag")
                if eng.record: self.rq(st, i.ordering in ('acquire', 'acq_rel', 'seq_cst'), f"{t}.acquire", i.where(), f"{t}: test-and-set is an acquire operation (found {i.ordering})")
                a = st.copy(); 
                if a.ts == (True,): raise Budget(f"{i.where()}: flag set again after it was acquired")
                a.ts = (True,); out += eng.setv(a, i, ec(w, 0) if w <= 8 else Lin(0))
                b = st.copy(); out += eng.setv(b, i, ec(w, 1) if w <= 8 else Lin(1))
                return out
            if z is False and i.rmw in ('xchg', 'and'):
                self.clears += 1
                if self.role == 'lock' and eng.record: self.bad(st, f"{t}.nostore", i.where(), f"{t}: lock() clears the flag")
                if eng.record and self.role == 'unlock': r.ok(f"{t}.clear", i.where(), "cleared"); self.rq(st, i.ordering in ('release', 'acq_rel', 'seq_cst'), f"{t}.release", i.where(), f"{t}: the clear is a release operation (found {i.ordering})")
                st.ts = ('cleared',); return eng.setv(st, i, eng.fresh(st, i.ty, 'old'))
            raise Budget(f"{i.where()}: atomicrmw {i.rmw}")
        e, n = truth(st, eng.val(st, i.ops[1])), truth(st, eng.val(st, i.ops[2]))
        if e is False and n is True:
            if eng.record: self.rq(st, i.ordering in ('acquire', 'acq_rel', 'seq_cst'), f"{t}.acquire", i.where(), f"{t}: the acquiring exchange is an acquire operation (found {i.ordering})")
            a = st.copy(); a.ts = (True,); out += eng.setv(a, i, ('agg', ec(w, 0), ec(1, 1)))
            b = st.copy(); out += eng.setv(b, i, ('agg', ec(w, 1), ec(1, 0)))
            return out
        raise Budget(f"{i.where()}: compare-exchange shape")
    def ret(self, eng, st, i, v):
        if not st.consistent(): return
        self.rets += 1
        if self.role == 'lock': self.rq(st, st.ts == (True,), f"{self.tag}.return", i.where(), f"{self.tag}: lock() returns only after it observed the flag clear and set it in one atomic step")
        else: self.rq(st, st.ts == ('cleared',), f"{self.tag}.return", i.where(), f"{self.tag}: unlock() clears the flag before returning")
    def call(self, eng, st, i, name, args):
        if any(isinstance(a, Ptr) and a.obj == 'o:m' and a.off.is_const and a.off.c == 0 for a in args): raise Budget(f"{i.where()}: mutex passed to {name}")
        return None

def run_mutex(rep):
    u = unit(); rep.rule("the flag protocol of AtomicMutex under an adversarial environment: lock() returns only through an atomic test-and-set that saw the flag clear (acquire), unlock() clears it (release)")
    for k, nm in ((0, "AtomicMutex<>"), (1, "AtomicMutex<SpinWait<>>")):
        offs = set()
        for f, role in (("vf_mlock", 'lock'), ("vf_munlock", 'unlock')):
            fn = u.fn(f + str(k)); tag = f"{nm}.{role}"; rep.fn("opencmw::" + tag.replace('.', '::'))
            last = []
            def start(fn): st = State(); st.env[fn.args[0].ref] = Ptr('o:m'); return [st]
            def mk(): last.append(Mtx(rep, tag, role)); return last[-1]
            decide(rep, fn, mk, start, tag + '.'); m = last[0]; rep.sites += len(m.offs)
            if f"{tag}..budget" in rep.obl: continue
            if not m.rets: rep.bad(f"{tag}.return", fn.where(), f"{tag} never returns")
            offs |= m.offs
        if len(offs) > 1: rep.bad(f"{nm}.flag", "src/core/include/SpinWait.hpp", "lock() and unlock() operate on different flags")
