"""core: topics and service names"""
from ir import Unit
import itertools
from decide import *
from stdmodel import StdModel, bset, ALL, ceq
from core import par
import policy
H = "src/core/include/Topic.hpp"
_u = None
def unit():
    global _u
    if _u is None: _u = Unit("topic.cpp", policy.make(extra_opaque=[r"^opencmw::URI", r"^std::map", r"^opencmw::detail"]), passes=policy.UNROLL, extra=policy.ALGOS + ["-D_GLIBCXX_ASSERTIONS"])
    return _u
OK = bset(bytes(c for c in range(128) if chr(c).isalnum() or chr(c) in "/._")); SL = bset(b"/"); BAD = OK.compl(); N = Lin.sym('n'); X = Lin.sym('x'); B = Lin.sym('b'); Q = Lin.sym('q')
class Valid(Checked, StdModel):
    accelerate = property(lambda s: not s.unroll)
    def __init__(self, rep, key, exp): Checked.__init__(self, rep, key); self.exp = exp
    def throw(self, eng, st, i, name):
        if st.consistent(): self.req(eng, st, False, "total", i, f"{name} is reachable")
    def ret(self, eng, st, i, v):
        if not st.consistent(): return
        self.rets += 1
        for t, b in cases(eng, st, v):
            if t.consistent(): self.req(eng, t, b == self.exp, "answer", i, f"the name is {'valid' if self.exp else 'invalid'} (answered {b})")
class Top(Checked, StdModel):
    accelerate = property(lambda s: not s.unroll)
    def search(self, st, base, n, pos, S, key, last=False):
        b = self.rptr(st, base)
        if not last and isinstance(pos, Lin) and b.obj == 'o:src':
            o = b.off
            if st.excludes(b.obj, o + pos, o + n, S): return [(st, Lin(-1))]
            for e, V in st.leaf.items():
                if e.a[0][0] == 'b' and e.a[0][1] == b.obj and V and V.subset(S):
                    x = e.a[0][2] - o
                    if st.le(pos - x) and st.le(x - n + 1) and st.excludes(b.obj, o + pos, o + x, S): return [(st, x)]
        return super().search(st, base, n, pos, S, key, last)
    def backedge(self, eng, st, h): return st if st.consistent() else None
    def __init__(self, rep, key, exp): Checked.__init__(self, rep, key); self.exp = exp
    def client(self, eng, st, i, name, args):
        if name == 'vf_obs_sv':
            if not st.consistent(): return []
            self.req(eng, st, self.exp is not None, "refused", i, "an invalid service name is refused with an exception")
            if self.exp is not None:
                c = self.view(st, args[0], args[1]) if isinstance(args[0], Ptr) and isinstance(args[1], Lin) else None
                if c is None or any(s[0] in ('?', 'app') for s in c): self.open(st, 'service not expressible')
                self.req(eng, st, c is not None and ceq(st, c, self.exp), "service", i, f"the service is the path in front of the query, with a leading and without trailing slashes (found {c}, expected {self.exp})")
            return [(st, None)]
        if name.startswith(('std::map', 'std::unordered_map', 'std::_Rb_tree', 'opencmw::URI', 'opencmw::detail')):
            f = name.rsplit('::', 1)[-1]
            if f == 'empty': return [(st, ec(1, 1))] + ([(st.copy(), ec(1, 0))] if 'filled' in st.ts else [])
            if 'std::map' in name and f not in ('map', '~map', 'begin', 'end', 'size'): st.ts = ('filled',)
            if i.ty.kind == 'void': return [(st, None)]
            if i.ty.kind == 'ptr': return [(st, Ptr('o:params'))]
        return None
    def throw(self, eng, st, i, name):
        if not st.consistent(): return
        self.req(eng, st, self.exp is None and name == '__cxa_throw', "accepted", i, f"a valid service name is accepted ({name} is reachable)")
    def ret(self, eng, st, i, v):
        if st.consistent(): self.rets += 1
def run(rep):
    u = unit()
    def byte(st, k, S): st.leaf[st.byte_leaf('o:src', k if isinstance(k, Lin) else Lin(k))] = S
    def valid(rep, kind):
        def init(fn):
            st = State(); st.z.s |= {'n', 'x'}; st.assume_le(-N); st.assume_le(N - BIG)
            if kind == 'empty': st.assume_eq(N)
            elif kind in ('slash', 'one'): st.assume_eq(N - 1); byte(st, 0, SL if kind == 'slash' else SL.compl())
            else:
                st.assume_le(Lin(2) - N)
                if kind == 'nolead': byte(st, 0, SL.compl())
                elif kind == 'trail': byte(st, 0, SL); byte(st, N - 1, SL)
                else:
                    byte(st, 0, SL); byte(st, N - 1, SL.compl() if kind != 'good' else OK.inter(SL.compl()))
                    if kind == 'good': st.region('o:src', Lin(0), N, OK)
                    else:
                        st.assume_le(Lin(1) - X); st.assume_le(X - N + 1)
                        if kind == 'badlast': st.assume_eq(X - N + 1)
                        if kind == 'badfirst': st.assume_eq(X - 1)
                        byte(st, X, BAD)
            for p, v in zip(fn.args, (Ptr('o:src'), N)): st.env[p.ref] = v
            return [st]
        decide(rep, u.fn('vf_valid'), lambda: Valid(rep, f"valid.{kind}", kind == 'good'), init, f"valid.{kind}", H)
    def topic(rep, kind, q, tr, fn_='vf_topic', pound=False):
        """kind: shape of the body [0, b); q: query at [q, n); tr: trailing slashes [b, q)"""
        key = f"{fn_[3:]}.{kind}{'.query' if q else ''}{'.slashes' if tr else ''}{'.pound' if pound else ''}"; L = N - 1 if pound else N
        exp = None
        if kind == 'slash': exp = (('sub', 'o:src', Lin(0), B),)
        if kind == 'plain': exp = (('lit', b'/'), ('sub', 'o:src', Lin(0), B))
        def init(fn):
            st = State(); st.z.s |= {'n', 'x', 'b', 'q'}; st.assume_le(-N); st.assume_le(N - BIG); st.assume_le(-B); st.assume_le(B - Q); st.assume_le(Q - L); st.ts = ()
            if pound: byte(st, N - 1, bset(b"#"))
            elif fn_ == 'vf_zmq' and q: byte(st, N - 1, bset(b"#").compl())
            if q: st.assume_le(Q - L + 1); byte(st, Q, bset(b"?")); st.region('o:src', Lin(0), Q, bset(b"?").compl())
            else: st.assume_eq(Q - L); st.region('o:src', Lin(0), L, bset(b"?").compl())
            if tr: st.assume_le(B + 1 - Q); st.region('o:src', B, Q, SL)
            else: st.assume_eq(B - Q)
            if kind == 'empty': st.assume_eq(B)
            else:
                st.assume_le(Lin(2 if kind == 'slash' else 1) - B)
                if kind in ('slash', 'plain'):
                    st.region('o:src', Lin(0), B, OK); byte(st, 0, SL if kind == 'slash' else OK.inter(SL.compl()))
                    if kind == 'slash': byte(st, B - 1, OK.inter(SL.compl()))
                    else: byte(st, B - 1, OK.inter(SL.compl()))
                else:
                    st.assume_le(-X); st.assume_le(X - B + 1); byte(st, X, BAD.inter(bset(b"?").compl()))
                    if kind == 'badlast': st.assume_eq(X - B + 1)
                    elif kind == 'badfirst': st.assume_eq(X); st.assume_le(Lin(2) - B); byte(st, B - 1, SL.compl().inter(bset(b"?").compl()))
                    else: st.assume_le(Lin(1) - X); st.assume_le(X - B + 2); byte(st, B - 1, SL.compl().inter(bset(b"?").compl())); byte(st, 0, SL)
            if kind != 'empty': st.region('o:src', B - 1, B, SL.compl())
            for p, v in zip(fn.args, (Ptr('o:src'), N)): st.env[p.ref] = v
            return [st]
        decide(rep, u.fn(fn_), lambda: Top(rep, key, exp), init, key, H)
    CLS = {'/': SL, 'a': OK.inter(SL.compl()), '!': BAD.inter(bset(b"?").compl()), '?': bset(b"?"), '#': bset(b"#")}
    def small(rep, n):
        """texts of n characters, one of four classes each: exact states"""
        for fn_ in ('vf_valid', 'vf_topic') + (('vf_zmq',) if n < 4 else ()):
            for t in itertools.product('/a#?' if fn_ == 'vf_zmq' else '/a!?', repeat=n):
                t = ''.join(t); key = f"{fn_[3:]}.'{t}'"
                def init(fn):
                    st = State(); st.ts = ()
                    for k, c in enumerate(t): byte(st, k, CLS[c])
                    for p, v in zip(fn.args, (Ptr('o:src'), Lin(n))): st.env[p.ref] = v
                    return [st]
                ok = lambda s: s[:1] == '/' and len(s) > 1 and s[-1] != '/' and not set(s) - set('/a')
                body = (t[:-1] if fn_ == 'vf_zmq' and t[-1:] == '#' else t).split('?')[0].rstrip('/'); svc = body if body[:1] == '/' else '/' + body
                exp = None
                if ok(svc): exp = (() if body[:1] == '/' else (('lit', b'/'),)) + (('sub', 'o:src', Lin(0), Lin(len(body))),)
                exact(rep, u.fn(fn_), (lambda: Valid(rep, key, ok(t))) if fn_ == 'vf_valid' else (lambda: Top(rep, key, exp)), init, key, H, unroll=n + 4)
    jobs = [lambda r, n=n: small(r, n) for n in (4, 3, 2, 1, 0)] + [lambda r, k=k: valid(r, k) for k in ('empty', 'slash', 'one', 'nolead', 'trail', 'good', 'bad', 'badlast', 'badfirst')]
    jobs += [lambda r, a=(k, q, t): topic(r, *a) for k in ('empty', 'slash', 'plain', 'badlast', 'badfirst', 'badmid') for q in (False, True) for t in (False, True)]
    jobs += [lambda r, a=(k, q, t): topic(r, *a, 'vf_zmq', True) for k in ('empty', 'slash', 'plain') for q in (False, True) for t in (False, True)]
    par(rep, jobs)
    rep.rule("isValidServiceName: true exactly for a slash, then more characters from [A-Za-z0-9._/], not ending with a slash; Topic::fromString: the service is the text before '?', without trailing slashes, with a leading slash, and an exception if that is not a valid name")
