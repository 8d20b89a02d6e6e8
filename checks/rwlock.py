"""ReaderWriterLock: transition system of the lock word, extracted from the IR of every public operation."""
from ir import Unit
from relint import *
import policy

LIM = 1 << 61
ACQ = ('acquire', 'acq_rel', 'seq_cst'); REL = ('release', 'acq_rel', 'seq_cst')
_unit = None
def unit():
    global _unit
    if _unit is None: _unit = Unit("rwlock.cpp", policy.make(), passes=policy.UNROLL)
    return _unit

def word(p): return isinstance(p, Ptr) and p.obj == 'o:l'

class Ghost(Model):
    """adversarial environment: every read of the lock word may observe any value.
    ts = tuple of (expected-form, delta, ordering, where) transitions performed on this path"""
    follow_unwind = True
    def __init__(self, rep, tag, dirn, role): self.rep = rep; self.tag = tag; self.dirn = dirn; self.role = role; self.events = 0; self.rets = 0; self.bodies = 0; self.offs = set()
    def val(self, st): return st.newsym('v', -LIM, LIM)
    def unknown(self, i, why): raise Budget(f"{i.where()}: {why}")
    def trans(self, eng, st, i, old, delta, order):
        """the lock word moves old -> old+delta"""
        r, d = self.rep, self.dirn
        acquire_like = delta.is_const and delta.c == d
        release_like = delta.is_const and delta.c == -d
        if eng.record: self.events += 1
        if eng.record and self.role != 'guardx':
            if self.role in ('lock', 'trylock') or (self.role == 'guard' and not st.ts):
                side = st.le(-old) if d > 0 else st.le(old)
                nm = 'reader' if d > 0 else 'writer'
                if st.ts and self.role != 'guard' : r.bad(f"{self.tag}.once", i.where(), f"a second change of the lock word on one {self.tag} path")
                r.require(side, f"{self.tag}.admission", i.where(), f"{self.tag}: a {nm} enters only from a word value {'>= 0 (no writer)' if d > 0 else '<= 0 (no reader)'}; here the word may be anything in [{st.lb(old)},{st.ub(old)}]")
                r.require(acquire_like, f"{self.tag}.step", i.where(), f"{self.tag}: the word changes by {d:+d} per acquisition (found {delta})")
                r.require(order in ACQ, f"{self.tag}.acquire", i.where(), f"{self.tag}: acquisition is an acquire operation (found {order})")
            else:
                r.require(release_like, f"{self.tag}.step", i.where(), f"{self.tag}: the word changes by {-d:+d} per release (found {delta})")
                r.require(order in REL, f"{self.tag}.release", i.where(), f"{self.tag}: the release is a release operation (found {order})")
        st.ts = st.ts + ((delta.c if delta.is_const else None,),)
        if len(st.ts) > 4: self.unknown(i, "more than four changes of the lock word on one path")
    def inst(self, eng, st, i):
        if i.op in ('load', 'cmpxchg', 'atomicrmw'): p = eng.val(st, i.ops[0])
        elif i.op == 'store': p = eng.val(st, i.ops[1])
        else: return None
        if not word(p): return None
        if not p.off.is_const: self.unknown(i, "access at a computed offset of the lock")
        self.offs.add(p.off.c)
        if i.op == 'load':
            if i.ordering == 'na' and eng.record: self.rep.bad(f"{self.tag}.atomic", i.where(), f"{self.tag}: non-atomic read of the lock word")
            return eng.setv(st, i, self.val(st))
        if i.op == 'store':
            if eng.record: self.rep.bad(f"{self.tag}.nostore", i.where(), f"{self.tag}: the lock word is overwritten by a plain store; a concurrent holder's entry would be lost")
            return [st]
        if i.op == 'atomicrmw':
            k = eng.val(st, i.ops[1]); v = self.val(st)
            if i.rmw not in ('add', 'sub') or not isinstance(k, Lin): self.unknown(i, f"atomicrmw {i.rmw}")
            self.trans(eng, st, i, v, k if i.rmw == 'add' else -k, i.ordering)
            return eng.setv(st, i, v)
        e, n = eng.val(st, i.ops[1]), eng.val(st, i.ops[2])
        if not isinstance(e, Lin) or not isinstance(n, Lin): self.unknown(i, "compare-exchange on an untracked value")
        out = []
        for s0, e1 in eng.scan(st, e, 64):
            s = s0.copy(); self.trans(eng, s, i, e1, n - e, i.ordering); out += eng.setv(s, i, ('agg', e1, ec(1, 1)))
            f = s0.copy(); o = self.val(f)
            out += eng.setv(f, i, ('agg', o, ec(1, 0)))
        return out
    def call(self, eng, st, i, name, args):
        if name == 'vf_body':
            if eng.record:
                self.bodies += 1
            if eng.record and self.role == 'guard':
                self.rep.require(sum(t[0] or 0 for t in st.ts) == self.dirn, f"{self.tag}.held", i.where(), f"{self.tag}: the guarded scope runs while the lock is held (net change so far {[t[0] for t in st.ts]})")
            return [(st, None)]
        if any(word(a) for a in args): self.unknown(i, f"the lock word is passed to {name}, which is not analysed")
        return None
    def final(self, eng, st, i, how):
        net = [t[0] for t in st.ts]
        if self.role == 'guardx':
            self.rep.require(sum(x or 0 for x in net) == 0, f"{self.tag}.balance.{how}", i.where(), f"{self.tag}: acquisitions and releases balance (changes {net})")
        if self.role == 'guard':
            self.rep.require(sum(x or 0 for x in net) == 0 and (how == 'return' and len(net) == 2 or how != 'return'), f"{self.tag}.balance.{how}", i.where(), f"{self.tag}: after {how} every acquisition has been released exactly once (changes {net})")
    def ret(self, eng, st, i, v):
        self.rets += 1; d = self.dirn; n = len(st.ts)
        if self.role == 'lock': self.rep.require(n == 1, f"{self.tag}.return", i.where(), f"{self.tag}: returns only after exactly one acquisition (found {n})")
        elif self.role == 'unlock': self.rep.require(n == 1, f"{self.tag}.return", i.where(), f"{self.tag}: performs exactly one release (found {n})")
        elif self.role == 'trylock':
            nz = None
            if isinstance(v, Lin):
                if st.eq(v, Lin(0)): nz = 0
                elif st.lb(v) > 0 or st.ub(v) < 0: nz = 1
            elif isinstance(v, Ex):
                S = st.eset(v)
                if S.size == 1: nz = int(next(iter(S.values())) != 0)
                elif 0 not in list(S.values()): nz = 1
            if nz is None: self.rep.unk(f"{self.tag}.honest", i.where(), f"result {v} not resolved")
            else: self.rep.require(n == nz, f"{self.tag}.honest", i.where(), f"{self.tag}: the result says {'success' if nz else 'failure'} and the lock word was changed {n} time(s)")
        elif self.role in ('guard', 'guardx'): self.final(eng, st, i, 'return')
        elif self.role == 'value': self.rep.require(n == 0, f"{self.tag}.pure", i.where(), f"{self.tag}: does not change the lock word")
    def resume(self, eng, st, i):
        if self.role in ('guard', 'guardx'): self.final(eng, st, i, 'unwind')

class Seq(Model):
    """no interference: the word is an ordinary variable with symbolic initial value v0"""
    def __init__(self, rep, tag, dirn, role): self.rep = rep; self.tag = tag; self.dirn = dirn; self.role = role; self.rets = 0; self.weak = None
    def w(self, st): return st.mem['o:vf'][0][1]
    def setw(self, st, v): st.mem['o:vf'][0] = (8, v)
    def inst(self, eng, st, i):
        if i.op in ('load', 'cmpxchg', 'atomicrmw'): p = eng.val(st, i.ops[0])
        elif i.op == 'store': p = eng.val(st, i.ops[1])
        else: return None
        if not word(p): return None
        if i.op == 'load': return eng.setv(st, i, self.w(st))
        if i.op == 'store': self.setw(st, eng.val(st, i.ops[0])); return [st]
        if i.op == 'atomicrmw':
            k = eng.val(st, i.ops[1]); v = self.w(st)
            if i.rmw not in ('add', 'sub') or not isinstance(k, Lin): raise Budget(f"{i.where()}: atomicrmw {i.rmw}")
            self.setw(st, v + k if i.rmw == 'add' else v - k); return eng.setv(st, i, v)
        e, n = eng.val(st, i.ops[1]), eng.val(st, i.ops[2]); v = self.w(st); out = []
        if not isinstance(e, Lin) or not isinstance(n, Lin): raise Budget(f"{i.where()}: compare-exchange on an untracked value")
        for s in eng.assume_cmp(st.copy(), 'eq', v, e, 64):
            if getattr(i, 'weak', False) and self.role == 'trylock': self.weak = i
            self.setw(s, n); out += eng.setv(s, i, ('agg', v, ec(1, 1)))
        for less in (True, False):
            f = st.copy()
            if f.assume_le((v - e + 1) if less else (e - v + 1)): out += eng.setv(f, i, ('agg', v, ec(1, 0)))
        return out
    def ret(self, eng, st, i, v):
        self.rets += 1; d = self.dirn; r = self.rep; t = self.tag; v0 = Lin.sym('v0'); w = self.w(st)
        ok0 = st.le(-v0) if d > 0 else st.le(v0)          # compatible initial value
        bad0 = st.le(v0 + 1) if d > 0 else st.le(-v0 + 1)
        cond = "no writer holds it (word >= 0)" if d > 0 else "no reader holds it (word <= 0)"
        if self.role == 'lock':
            r.require(ok0, f"{t}.seq.blocks", i.where(), f"{t}: returns only when {cond}; here the word was in [{st.lb(v0)},{st.ub(v0)}]")
            r.require(st.eq(w, v0 + d), f"{t}.seq.word", i.where(), f"{t}: the word becomes word{d:+d} (found {w} from v0)")
            if isinstance(v, Lin): r.require(st.eq(v, w), f"{t}.seq.result", i.where(), f"{t}: returns the new word value (found {v}, word {w})")
        elif self.role == 'unlock':
            r.require(st.eq(w, v0 - d), f"{t}.seq.word", i.where(), f"{t}: the word becomes word{-d:+d} (found {w} from v0)")
            if isinstance(v, Lin): r.require(st.eq(v, w), f"{t}.seq.result", i.where(), f"{t}: returns the new word value (found {v}, word {w})")
        elif self.role == 'value':
            if isinstance(v, Lin): r.require(st.eq(v, v0) and st.eq(w, v0), f"{t}.seq", i.where(), f"{t}: returns the word value and changes nothing (found {v})")
        else:
            ch = not st.eq(w, v0)
            r.require(not ch or st.eq(w, v0 + d), f"{t}.seq.word", i.where(), f"{t}: the word is unchanged or becomes word{d:+d} (found {w})")
            if ok0: r.require(ch, f"{t}.seq.succeeds", i.where(), f"{t}: succeeds whenever {cond} and nobody interferes")
            elif bad0: r.require(not ch, f"{t}.seq.refuses", i.where(), f"{t}: refuses when the other side holds the lock")
            else: r.unk(f"{t}.seq.case", i.where(), f"word range [{st.lb(v0)},{st.ub(v0)}] not resolved")

OPS = [("lock<READ>", "vf_lock_read", 1, 'lock'), ("lock<WRITE>", "vf_lock_write", -1, 'lock'),
       ("tryLock<READ>", "vf_trylock_read", 1, 'trylock'), ("tryLock<WRITE>", "vf_trylock_write", -1, 'trylock'),
       ("unlock<READ>", "vf_unlock_read", 1, 'unlock'), ("unlock<WRITE>", "vf_unlock_write", -1, 'unlock'), ("value", "vf_value", 1, 'value')]
GUARDX = [(f"ScopedLock<{k.upper()}>.{o}", f"vf_g{o}_{k}", d, 'guardx') for k, d in (('read', 1), ('write', -1)) for o in ('copy', 'move', 'assign')]
GUARDS = [("ScopedLock<READ>", "vf_guard_read", 1, 'guard'), ("ScopedLock<WRITE>", "vf_guard_write", -1, 'guard')]

def one(rep, ops, seq=True, conc=True):
    u = unit(); offs = set()
    for tag, f, d, role in ops:
        fn = u.fn(f); rep.fn("opencmw::ReaderWriterLock::" + tag)
        if conc:
            st = State(); st.env[fn.args[0].ref] = Ptr('o:l'); m = Ghost(rep, tag, d, role)
            try:
                Interp(fn, m).run(st)
                if not m.rets: rep.unk(f"{tag}.return", fn.where(), "no return reached")
                if role in ('lock', 'trylock', 'unlock', 'guard') and not m.events: rep.bad(f"{tag}.step", fn.where(), f"{tag} never changes the lock word")
                if role == 'guard' and not m.bodies: rep.unk(f"{tag}.held", fn.where(), "guarded scope not found")
                rep.sites += m.events; offs |= m.offs
            except Budget as ex:
                for k in [k for k in rep.obl if k.startswith(tag)]:
                    if rep.obl[k]["status"] == "proved": rep.obl[k]["status"] = "undecided"
                rep.unk(f"{tag}.analysis", fn.where(), str(ex))
        if seq and role not in ('guard', 'guardx'):
            st = State(); st.env[fn.args[0].ref] = Ptr('o:l')
            st.z.add('v0', '0', LIM); st.z.add('0', 'v0', LIM); st.mem['o:vf'] = {0: (8, Lin.sym('v0'))}
            m = Seq(rep, tag, d, role)
            # split on the sign of the initial value so that each case is decided separately
            for lo, hi in ((-LIM, -1), (0, 0), (1, LIM)):
                s = st.copy(); s.z.add('v0', '0', hi); s.z.add('0', 'v0', -lo)
                try: Interp(fn, m).run(s)
                except Budget as ex: rep.unk(f"{tag}.seq.analysis", fn.where(), str(ex))
            if m.weak is not None: rep.bad(f"{tag}.seq.succeeds", m.weak.where(), f"{tag}: a weak compare-exchange may fail spuriously although the lock is free")
            if role == 'lock' and m.rets < 2: rep.bad(f"{tag}.seq.returns", fn.where(), f"{tag}: does not return for every compatible word value")
    if len(offs) > 1: rep.bad("one-word", "src/core/include/ReaderWriterLock.hpp", f"operations use different words of the lock: offsets {sorted(offs)}")
    elif offs: rep.ok("one-word", "", "all operations use the same word")

def run_exclusion(rep):
    rep.rule("every successful compare-exchange / rmw on the lock word is extracted as a transition under an adversarial environment (each read observes an arbitrary value); READ admits only v>=0 -> v+1, WRITE only v<=0 -> v-1, releases are the inverse steps; no plain stores; acquire/release orders")
    rep.rule("sequential specification with symbolic initial word: blocking, result value, tryLock success/refusal")
    rep.assume("fewer than 2^61 simultaneous holders (no wrap-around of the 64-bit word)")
    one(rep, OPS)

def run_guard(rep):
    rep.rule("typestate of the lock word along every normal and exceptional exit of a scope holding a ScopedLock: acquired before the scope body, released exactly once on return and on unwind")
    one(rep, GUARDS, seq=False)
    one(rep, GUARDX, seq=False)
    one(rep, [o for o in OPS if o[3] == 'trylock'])
