"""two-pass decision: proof by fixpoint; whatever stays open is examined again on exact states of the first loop iterations,
and only a state reached without over-approximation is reported as a violation"""
from relint import *

class Checked(Model):
    max_states = 2000; soft_states = 200
    def __init__(self, rep, key): self.rep = rep; self.key = key; self.rets = 0
    def stop(self): return self.unroll and any(o['status'] == 'violated' and k.startswith(self.key) for k, o in self.rep.obl.items())
    def bad(self, st, key, where, detail):
        if not self.unroll: self.rep.unk(key, where, f"not shown: {detail}")
        elif st.taint: self.rep.unk(key, where, f"not shown ({st.taint}): {detail}")
        else: self.rep.bad(key, where, detail)
    def req(self, eng, st, cond, what, i, detail):
        """obligation <key>.<what> at instruction i"""
        if not eng.record: return
        key = f"{self.key}.{what}"; where = i if isinstance(i, str) else i.where()
        if cond: self.rep.ok(key, where, detail)
        else: self.bad(st, key, where, detail)
    def open(self, st, why):
        if st.taint is None: st.taint = why

def truth(st, v):
    """boolean value of v in st, or None"""
    if isinstance(v, Lin): return bool(v.c) if v.is_const else (True if st.lb(v) > 0 or st.ub(v) < 0 else None)
    if isinstance(v, Ex):
        S = st.eset(v)
        if S.size == 1: return bool(next(iter(S.values())))
        if 0 not in S: return True
    return None

def cases(eng, st, v):
    """[(state, truth value of v)]"""
    t = truth(st, v)
    if t is not None: return [(st, t)]
    return [(s, b) for b in (True, False) for s in eng.assume(st.copy(), v if not isinstance(v, Lin) else ('cmp', 'ne', v, Lin(0), 64), b)]

def decide(rep, fn, mk, init, key, where="", budget=100000, post=None, unroll=3):
    """mk() -> model, init(fn) -> list of initial states; obligations are named <key>...."""
    rep.fn(fn)
    for u in (0,) + (unroll if isinstance(unroll, tuple) else (unroll,)):
        m = mk(); m.unroll = u
        try:
            n = 0
            for st in init(fn): e = Interp(fn, m, budget); e.run(st); n += e.steps
        except Budget as b: rep.unk(f"{key}.budget", where or fn.where(), str(b))
        else:
            if not u:
                rep.sites += m.rets; rep.stats[f"{key}.steps"] = n; rep.stats[f"{key}.return states"] = m.rets
            if post: post(m)
        if not [k for k, o in rep.obl.items() if o['status'] != 'proved' and k.startswith(key)]: return
        if [k for k, o in rep.obl.items() if o['status'] == 'violated' and k.startswith(key)]: return      # what the second pass cannot reproduce stays undecided

def exact(rep, fn, mk, init, key, where="", budget=100000, unroll=8):
    """inputs of a fixed small size: every loop is followed to its end, so that the states are exact and complete"""
    rep.fn(fn); m = mk(); m.unroll = unroll
    try:
        for st in init(fn): e = Interp(fn, m, budget); e.run(st)
    except Budget as b: rep.unk(f"{key}.budget", where or fn.where(), str(b)); return
    if m.truncated and not any(o['status'] == 'violated' and k.startswith(key) for k, o in rep.obl.items()): rep.unk(f"{key}.unrolled", where or fn.where(), "a loop was not followed to its end")
    rep.sites += m.rets
