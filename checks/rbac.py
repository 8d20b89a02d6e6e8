"""majordomo: RBAC tokens"""
from ir import Unit
from decide import *
from stdmodel import StdModel, bset, ALL
from core import par
import policy
H = "src/majordomo/include/majordomo/Rbac.hpp"
_u = None
def unit():
    global _u
    if _u is None: _u = Unit("rbac.cpp", policy.make(extra_inline=[r"^std::pair::"]), passes=policy.UNROLL, extra=policy.ALGOS + ["-D_GLIBCXX_ASSERTIONS"])
    return _u
PRE = b"RBAC="; N = Lin.sym('n'); C = Lin.sym('c')
class Tok(Checked, StdModel):
    def __init__(self, rep, key, exp): Checked.__init__(self, rep, key); self.exp = exp
    def search(self, st, base, n, pos, S, key, last=False):
        b = self.rptr(st, base)
        if not last and isinstance(pos, Lin) and b.obj == 'o:src':
            o = b.off
            if st.excludes(b.obj, o + pos, o + n, S): return [(st, Lin(-1))]
            for e, V in st.leaf.items():
                if e.a[0][0] == 'b' and e.a[0][1] == b.obj and V and V.subset(S):
                    x = e.a[0][2] - o
                    if st.le(pos - x) and st.le(x - n + 1) and st.excludes(b.obj, o + pos, o + x, S): return [(st, x)]
        return super().search(st, base, n, pos, S, key, last)
    def throw(self, eng, st, i, name):
        if st.consistent(): self.req(eng, st, False, "total", i, f"{name} is reachable")
    def ret(self, eng, st, i, v):
        if not st.consistent(): return
        self.rets += 1
        for k, (what, a, b) in enumerate(self.exp):
            d, n = self.svptrlen(st, Ptr('o:r', 16 * k))
            if not isinstance(n, Lin): self.open(st, "result not expressible"); n = Lin(-1)
            if st.le(b - a): self.req(eng, st, st.eq(n, Lin(0)), what, i, f"the {what} is empty (length {n})"); continue
            ok = isinstance(d, Ptr) and d.obj == 'o:src' and st.eq(n, b - a) and st.eq(d.off, a)
            if not ok and st.le(a - b) and st.eq(n, b - a) and (st.eq(n, Lin(0)) or isinstance(d, Ptr) and d.obj == 'o:src' and st.eq(d.off, a)): ok = True
            self.req(eng, st, ok, what, i, f"the {what} is the text [{a}, {b}) of the token (found {n} characters at {d})")
def run(rep):
    u = unit()
    def start(kind):
        st = State(); st.z.s |= {'n', 'c'}; st.assume_le(-N); st.assume_le(N - BIG); st.mem['o:r'] = {}
        def put(k, S): st.leaf[st.byte_leaf('o:src', k if isinstance(k, Lin) else Lin(k))] = S
        if kind == 'short': st.assume_le(N - 4); return st
        st.assume_le(Lin(5) - N)
        if kind[0] == 'x':
            for k in range(int(kind[1])): put(k, bset(PRE[k:k + 1]))
            put(int(kind[1]), bset(PRE[int(kind[1]):][:1]).compl()); return st
        for k in range(5): put(k, bset(PRE[k:k + 1]))
        if kind == 'nocomma': st.region('o:src', Lin(5), N, bset(b",").compl()); return st
        lo = {'first': 5, 'mid': 6, 'end': 6, 'both': 5}[kind]
        st.assume_le(Lin(lo) - C); st.assume_le(C - N + 1)
        if kind in ('first', 'both'): st.assume_eq(C - 5)
        if kind in ('end', 'both'): st.assume_eq(C + 1 - N)
        else: st.assume_le(C + 2 - N)
        put(C, bset(b",")); st.region('o:src', Lin(5), C, bset(b",").compl()); return st
    def one(rep, f):
        for kind in ['short', 'x0', 'x1', 'x2', 'x3', 'x4', 'nocomma', 'first', 'mid', 'end', 'both']:
            has = kind in ('first', 'mid', 'end', 'both'); Z = Lin(0)
            role = ('role', Lin(5), C) if has else ('role', Z, Z); h = ('hash', C + 1, N) if has else ('hash', Z, Z)
            exp = {'vf_role': [role], 'vf_hash': [h], 'vf_both': [role, h]}[f]
            def init(fn):
                st = start(kind)
                for p, v in zip(fn.args, (Ptr('o:r'), Ptr('o:src'), N)): st.env[p.ref] = v
                return [st]
            decide(rep, u.fn(f), lambda: Tok(rep, f"{f[3:]}.{kind}", exp), init, f"{f[3:]}.{kind}", H)
    par(rep, [lambda r, f=f: one(r, f) for f in ('vf_role', 'vf_hash', 'vf_both')])
    rep.rule("role and hash are the texts before and after the first comma of a token with the RBAC prefix, otherwise empty; no exception")
