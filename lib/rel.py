"""Relational abstract interpretation of one normalised IR function.

Abstract values: linear forms over symbolic integers (zone domain + division definitions), pointers
(object, linear offset), and pure expression trees over byte leaves with exact finite value sets.
Acyclic code is analysed with disjunctive (trace-partitioned) states; every loop is brought to a
fixpoint with join and widening on its header.  Nothing is executed."""
from iset import *
import ctype_sets, itertools, re
from ir import demangle, AnalysisBroken
from names import qname, params, is_const_method

INF = float('inf')
BIG = 1 << 62
W64 = 1 << 64

class Budget(Exception): pass

# ------------------------------------------------------------------ linear forms
class Lin:
    __slots__ = ("c", "t", "_h")
    def __init__(s, c=0, t=()): s.c = c; s.t = t; s._h = None
    @staticmethod
    def sym(x): return Lin(0, ((x, 1),))
    @staticmethod
    def mk(c, d): return Lin(c, tuple(sorted(((k, v) for k, v in d.items() if v), key=lambda z: str(z[0]))))
    def __eq__(a, b): return isinstance(b, Lin) and a.c == b.c and a.t == b.t
    def __hash__(s):
        if s._h is None: s._h = hash((s.c, s.t))
        return s._h
    def __add__(a, b):
        if isinstance(b, int): return Lin(a.c + b, a.t)
        if not b.t: return Lin(a.c + b.c, a.t)
        if not a.t: return Lin(a.c + b.c, b.t)
        d = dict(a.t)
        for k, v in b.t: d[k] = d.get(k, 0) + v
        return Lin.mk(a.c + b.c, d)
    def __neg__(a): return Lin(-a.c, tuple((k, -v) for k, v in a.t))
    def __sub__(a, b): return a + (-b) if isinstance(b, Lin) else Lin(a.c - b, a.t)
    def __mul__(a, k): return Lin(a.c * k, tuple((x, v * k) for x, v in a.t)) if k else Lin(0)
    @property
    def is_const(s): return not s.t
    def syms(s): return [k for k, _ in s.t]
    def __repr__(s):
        r = "+".join((f"{v}*" if v != 1 else "") + str(k) for k, v in s.t)
        return (r + (f"{s.c:+d}" if s.c else "")) if r else str(s.c)
    def subst(s, m):
        if not any(k in m for k, _ in s.t): return s
        r = Lin(s.c)
        for k, v in s.t: r = r + (m[k] * v if k in m else Lin(0, ((k, v),)))
        return r

class Ptr:
    __slots__ = ("obj", "off")
    def __init__(s, obj, off=Lin(0)): s.obj = obj; s.off = off if isinstance(off, Lin) else Lin(off)
    def __eq__(a, b): return isinstance(b, Ptr) and a.obj == b.obj and a.off == b.off
    def __hash__(s): return hash((s.obj, s.off))
    def __repr__(s): return f"&{s.obj}[{s.off}]"

class FnPtr:
    __slots__ = ("name",)
    def __init__(s, n): s.name = n
    def __eq__(a, b): return isinstance(b, FnPtr) and a.name == b.name
    def __hash__(s): return hash(s.name)
    def __repr__(s): return "fn:" + s.name

class Ex:
    """pure expression over leaves; w = bit width. kind: leaf/const/op/icmp/zext/sext/trunc/tab/sel/call"""
    __slots__ = ("k", "w", "a", "_h", "lv")
    def __init__(s, k, w, *a):
        s.k = k; s.w = w; s.a = a; s._h = hash((k, w, a))
        if k == 'leaf': s.lv = frozenset((s,))
        else:
            l = frozenset()
            for x in a:
                if isinstance(x, Ex): l = l | x.lv
            s.lv = l
    def __eq__(a, b): return isinstance(b, Ex) and a._h == b._h and a.k == b.k and a.w == b.w and a.a == b.a
    def __hash__(s): return s._h
    def __repr__(s):
        if s.k == 'const': return f"{s.a[0]}"
        if s.k == 'leaf': return f"<{s.a[0]}>"
        if s.k == 'tab': return f"tab[{s.a[1]}]"
        return f"{s.a[0] if s.k in ('op','icmp','call') else s.k}(" + ",".join(repr(x) for x in (s.a[1:] if s.k in ('op','icmp','call') else s.a)) + ")"

def ec(w, v): return Ex('const', w, v & ((1 << w) - 1))

def conc(e, m, memo=None):
    """value of expression under a leaf assignment; None if undefined"""
    k = e.k
    if k == 'const': return e.a[0]
    if k == 'leaf': return m.get(e)
    if memo is not None and e in memo: return memo[e]
    r = None
    if k == 'op':
        x = conc(e.a[1], m, memo); y = conc(e.a[2], m, memo)
        if e.a[0] in ('and', 'mul') and (x == 0 or y == 0): r = 0
        elif x is not None and y is not None: r = concrete(e.a[0], e.w, x, y)
    elif k == 'icmp':
        x = conc(e.a[1], m, memo); y = conc(e.a[2], m, memo)
        if x is not None and y is not None: r = int(cicmp(e.a[0], e.a[1].w, x, y))
    elif k == 'zext': r = conc(e.a[0], m, memo)
    elif k == 'sext':
        x = conc(e.a[0], m, memo)
        if x is not None: r = s2(x, e.a[0].w) % (1 << e.w)
    elif k == 'trunc':
        x = conc(e.a[0], m, memo)
        if x is not None: r = x % (1 << e.w)
    elif k == 'sel':
        c = conc(e.a[0], m, memo)
        if c is not None: r = conc(e.a[1] if c else e.a[2], m, memo)
    elif k == 'tab':
        x = conc(e.a[1], m, memo)
        if x is not None:
            t, sz = e.a[0], e.w // 8
            x = s2(x, e.a[1].w) * e.a[2] + e.a[3]
            if 0 <= x and x + sz <= len(t): r = int.from_bytes(t[x:x + sz], 'little')
    elif k == 'call':
        f = ctype_sets.PURE.get(e.a[0])
        x = [conc(z, m, memo) for z in e.a[1:]]
        if f and None not in x:
            r = f(*[s2(v, z.w) for v, z in zip(x, e.a[1:])]); r = None if r is None else r % (1 << e.w)
    if memo is not None: memo[e] = r
    return r

def bits(e, st=None):
    """bit-provenance vector (LSB first) of an expression: 0/1/(leaf,bit) or None where unknown; value sets known in
    state st zero the high bits"""
    r = _bits(e, st)
    if st is not None and e.k in ('leaf', 'tab') and e.w <= 64:
        S = st.eset(e, 300)
        if S and not S.is_top():
            n = S.umax().bit_length()
            r = r[:n] + [0] * (e.w - n)
    return r
def untangle(e, st=None):
    """the table access / leaf whose bits, in order, an 8-bit expression consists of"""
    if e.k in ('leaf', 'tab', 'const'): return e
    b = _bits(e, None)
    if b and isinstance(b[0], tuple) and all(isinstance(x, tuple) and x[0] is not None and x[0] == b[0][0] and x[1] == j for j, x in enumerate(b)) and b[0][0].w == e.w: return b[0][0]
    return e
def _bits(e, st):
    k = e.k
    if k == 'const': return [(e.a[0] >> i) & 1 for i in range(e.w)]
    if k == 'leaf': return [(e, i) for i in range(e.w)]
    if k == 'zext': b = bits(e.a[0], st); return b + [0] * (e.w - len(b))
    if k == 'sext': b = bits(e.a[0], st); return b + [b[-1]] * (e.w - len(b))
    if k == 'trunc': return bits(e.a[0], st)[:e.w]
    if k == 'op':
        o = e.a[0]; x, y = bits(e.a[1], st), bits(e.a[2], st)
        if o in ('shl', 'lshr', 'ashr') and e.a[2].k == 'const':
            n = e.a[2].a[0]
            if n >= e.w: return [None] * e.w
            if o == 'shl': return [0] * n + x[:e.w - n]
            return x[n:] + [0 if o == 'lshr' else x[-1]] * n
        if o == 'and': return [0 if p == 0 or q == 0 else p if q == 1 else q if p == 1 else p if p == q else None for p, q in zip(x, y)]
        if o == 'or': return [1 if p == 1 or q == 1 else p if q == 0 else q if p == 0 else p if p == q else None for p, q in zip(x, y)]
        if o == 'xor': return [p if q == 0 else q if p == 0 else (1 - p if q == 1 and p in (0, 1) else 0 if p == q and p is not None else None) for p, q in zip(x, y)]
        if o == 'add' and all(p == 0 or q == 0 for p, q in zip(x, y)): return [p if q == 0 else q for p, q in zip(x, y)]
        if o == 'mul' and e.a[2].k == 'const' and bin(e.a[2].a[0]).count('1') == 1:
            n = e.a[2].a[0].bit_length() - 1; return [0] * n + x[:e.w - n]
    if k == 'tab': return [(e, i) for i in range(e.w)]
    return [None] * e.w

# ------------------------------------------------------------------ zone
class Zone:
    """difference constraints a - b <= c over symbols and 0 (the key '0'); kept closed"""
    __slots__ = ("d", "s")
    def __init__(s): s.d = {}; s.s = {'0'}
    def copy(s):
        z = Zone(); z.d = dict(s.d); z.s = set(s.s); return z
    def get(s, a, b): return 0 if a == b else s.d.get((a, b), INF)
    def add(s, a, b, c):
        """a - b <= c ; returns False when contradictory"""
        s.s.add(a); s.s.add(b)
        if a == b: return c >= 0
        if s.get(a, b) <= c: return True
        if s.get(b, a) + c < 0: return False
        s.d[(a, b)] = c
        ins = [(x, s.get(x, a)) for x in s.s]; outs = [(y, s.get(b, y)) for y in s.s]
        for x, dx in ins:
            if dx == INF: continue
            for y, dy in outs:
                if dy == INF or x == y: continue
                n = dx + c + dy
                if n < s.get(x, y):
                    s.d[(x, y)] = n
        return True
    def forget(s, syms):
        syms = set(syms)
        s.d = {k: v for k, v in s.d.items() if k[0] not in syms and k[1] not in syms}
        s.s -= syms; s.s.add('0')
    def rename(s, m):
        s.d = {(m.get(a, a), m.get(b, b)): v for (a, b), v in s.d.items()}
        s.s = {m.get(a, a) for a in s.s}
    def join(a, b):
        z = Zone(); z.s = a.s & b.s
        for k, v in a.d.items():
            w = b.d.get(k)
            if w is not None: z.d[k] = max(v, w)
        return z
    def widen(a, b, ths=(0, 1, 16, 255, (1 << 31) - 1, (1 << 32) - 1, BIG)):
        """a widened with b (b covers a): drop the constraints of a that b violates"""
        z = Zone(); z.s = a.s & b.s
        for k, v in a.d.items():
            w = b.d.get(k)
            if w is not None and w <= v: z.d[k] = v
            elif w is not None:
                for th in ths:
                    if w <= th and v <= th: z.d[k] = th; break
        return z
    def entails(a, b):
        """every constraint of b is implied by a"""
        return all(a.get(*k) <= v for k, v in b.d.items())

_fresh = itertools.count()

import functools
@functools.lru_cache(None)
def srank(x):
    """preference for naming a value: inputs, then fresh values, then loop-header variables"""
    return (2 if re.match(r"h\d+\.", x) else 1 if '#' in x else 0, x)

class State:
    __slots__ = ("env", "mem", "z", "extra", "defs", "leaf", "reg", "ts", "trail", "kill", "rel", "eqs", "taint", "neq")
    def __init__(s):
        s.env = {}; s.mem = {}; s.z = Zone(); s.extra = (); s.defs = {}; s.leaf = {}; s.reg = (); s.ts = (); s.trail = (); s.kill = frozenset(); s.rel = (); s.eqs = (); s.taint = None; s.neq = ()
    def copy(s):
        n = State(); n.env = dict(s.env); n.mem = {o: dict(c) for o, c in s.mem.items()}; n.z = s.z.copy(); n.extra = s.extra
        n.defs = dict(s.defs); n.leaf = dict(s.leaf); n.reg = s.reg; n.ts = s.ts; n.trail = s.trail; n.kill = s.kill; n.rel = s.rel; n.eqs = s.eqs; n.taint = s.taint; n.neq = s.neq
        return n
    # ---- numeric queries -----------------------------------------------------------
    def canon(s, l):
        """replace symbols by provably equal smaller ones"""
        for _ in range(3):
            ch = False
            for x, k in l.t:
                if k and (x, '0') in s.z.d:
                    u = s.z.d[(x, '0')]
                    if s.z.get('0', x) == -u: l = l + (Lin(u) - Lin.sym(x)) * k; ch = True; break
                best = None
                for y in s.z.s:
                    if y == '0' or y == x or srank(y) >= srank(x): continue
                    u = s.z.d.get((x, y))
                    if u is not None and s.z.get(y, x) == -u and (best is None or srank(y) < srank(best[0])): best = (y, u)
                if best: l = l + (Lin.sym(best[0]) + best[1] - Lin.sym(x)) * k; ch = True; break
            if not ch: break
        return l
    def _ub(s, c, pos, neg, depth=0):
        if not pos and not neg: return c
        best = INF
        if pos:
            (x, k), rest = pos[0], pos[1:]
            for i, (y, m) in enumerate(neg):
                d = s.z.get(x, y)
                if d < INF:
                    q = min(k, m)
                    n2 = neg[:i] + neg[i + 1:] + ([(y, m - q)] if m > q else [])
                    p2 = ([(x, k - q)] if k > q else []) + rest
                    best = min(best, s._ub(c + d * q, p2, n2, depth + 1))
            d = s.z.get(x, '0')
            if d < INF: best = min(best, s._ub(c + d * k, rest, neg, depth + 1))
            return best
        (y, m), rest = neg[0], neg[1:]
        d = s.z.get('0', y)
        return s._ub(c + d * m, pos, rest, depth + 1) if d < INF else INF
    def _alts(s, l):
        """forms equal to l obtained with one or two equalities (each eliminates a symbol of l)"""
        out = [l]
        if not s.eqs and not s.extra: return out
        c = s.canon(l)
        if c != l: out = [c, l]
        seen = set(out)
        for rnd in range(2):
            for b in list(out):
                bs = dict(b.t)
                for e in s.eqs:
                    for x, k in e.t:
                        m = bs.get(x)
                        if m and m % k == 0:
                            n = b - e * (m // k)
                            if n not in seen and len(n.t) <= 5: seen.add(n); out.append(n)
            if len(out) > 12: break
        return out
    def simp(s, l):
        """rewrite with equalities as long as that removes symbols"""
        ch = bool(s.eqs)
        while ch and len(l.t) > 1:
            ch = False
            for e in s.eqs:
                bs = dict(l.t)
                for x, k in e.t:
                    m = bs.get(x)
                    if m and m % k == 0:
                        n = l - e * (m // k)
                        if len(n.t) < len(l.t): l = n; ch = True; break
                if ch: break
        return l
    def ub(s, l, deep=True):
        """upper bound of a linear form (INF if unknown)"""
        if not l.t: return l.c
        def raw(e):
            t = e.t
            if len(t) == 1:
                x, k = t[0]
                d = s.z.d.get((x, '0') if k > 0 else ('0', x))
                return INF if d is None else e.c + d * abs(k)
            if len(t) == 2 and t[0][1] + t[1][1] == 0:
                (x, k), (y, _) = t
                if k < 0: x, y, k = y, x, -k
                d = s.z.d.get((x, y)) if x != y else 0
                if d is None:
                    a = s.z.d.get((x, '0')); b = s.z.d.get(('0', y))
                    return INF if a is None or b is None else e.c + (a + b) * k
                return e.c + d * k
            if len(t) > 6: return INF
            return s._ub(e.c, [(k, v) for k, v in e.t if v > 0], [(k, -v) for k, v in e.t if v < 0])
        best = raw(l)
        if deep and best > 0 and (s.eqs or s.extra):
            cands = s._alts(l)
            for c in cands: best = min(best, raw(c))
            for e in s.extra:                       # e <= 0 : l <= l - k*e
                for cand in cands:
                    bs = dict(cand.t)
                    for kk in sorted({bs[x] // k for x, k in e.t if x in bs and bs[x] * k > 0 and bs[x] % k == 0}):
                        best = min(best, raw(cand - e * kk))
            if len(s.extra) > 1 and best > 0:
                for a, b in itertools.combinations(s.extra, 2):
                    best = min(best, raw(l - a - b))
        return best
    def lb(s, l): return -s.ub(-l)
    def le(s, l):
        """entails l <= 0"""
        return s.ub(l) <= 0
    def eq(s, a, b): return a == b or (s.ub(a - b) <= 0 and s.ub(b - a) <= 0)
    def assume_le(s, l):
        """add l <= 0; False if contradictory"""
        l = s.simp(l)
        if not l.t: return l.c <= 0
        if s.lb(l) > 0: return False
        return s._add_le(l) and s._propagate()
    def _add_le(s, l):
        pos = [(k, v) for k, v in l.t if v > 0]; neg = [(k, v) for k, v in l.t if v < 0]
        if len(pos) <= 1 and len(neg) <= 1:
            k = pos[0][1] if pos else -neg[0][1]; m = -neg[0][1] if neg else k
            if k == m:
                a = pos[0][0] if pos else '0'; b = neg[0][0] if neg else '0'
                return s.z.add(a, b, (-l.c) // k)
        if s.ub(l) > 0 and l not in s.extra: s.extra = s.extra + (l,)
        # propagate bounds of the leading symbols
        for k, v in l.t:
            if v == 1 and len(l.t) <= 3:
                b = s.ub(Lin.sym(k) - l, deep=False)
                if b < INF and not s.z.add(k, '0', b): return False
            if v == -1 and len(l.t) <= 3:
                b = s.ub(-Lin.sym(k) - l, deep=False)
                if b < INF and not s.z.add('0', k, b): return False
        return True
    def _propagate(s):
        """bounds propagation through the equalities"""
        for rnd in range(3):
            ch = False
            for e in s.eqs:
                for x, k in e.t:
                    r = (e - Lin.sym(x) * k) * (-1 if k > 0 else 1); k = abs(k)       # k*x == r
                    hi, lo = s.ub(r, deep=False), -s.ub(-r, deep=False)
                    if hi < INF and hi // k < s.z.get(x, '0'):
                        if not s.z.add(x, '0', hi // k): return False
                        ch = True
                    if lo > -INF and -(-lo // k) > -s.z.get('0', x):
                        if not s.z.add('0', x, -(-(-lo // k))): return False
                        ch = True
            if not ch: break
        return True
    def add_eq(s, e):
        """record the equality e == 0"""
        if e not in s.eqs and -e not in s.eqs: s.eqs = s.eqs + (e,)
        return s._propagate()
    def assume_eq(s, l):
        l = s.simp(l)
        if not l.t: return l.c == 0
        if len(l.t) == 1 and l.c % l.t[0][1]: return False
        if s.lb(l) > 0 or s.ub(l) < 0: return False
        if len(l.t) > 2 or (len(l.t) == 2 and l.t[0][1] != -l.t[1][1]):
            return s.add_eq(l)
        return s._add_le(l) and s._add_le(-l) and s._propagate()
    def newsym(s, name, lo=None, hi=None):
        x = f"{name}#{next(_fresh)}"
        s.z.s.add(x)
        if lo is not None: s.z.add('0', x, -lo)
        if hi is not None: s.z.add(x, '0', hi)
        return Lin.sym(x)
    # ---- bytes ----------------------------------------------------------------------
    def byte_leaf(s, obj, off):
        off = s.canon(off)
        e = Ex('leaf', 8, ('b', obj, off))
        if e not in s.leaf:
            for x in s.leaf:
                if x.a[0][0] == 'b' and x.a[0][1] == obj and x.w == 8 and s.eq(x.a[0][2], off): return x
            st = ISet.top(8)
            for (o, a, b, S) in s.reg:
                if o == obj and s.le(a - off) and s.le(off - b + 1): st = st.inter(S)
            s.leaf[e] = st
        return e
    def eset(s, e, cap=70000):
        """set of values of an expression (ISet), over-approximate"""
        if e.k == 'const': return ISet.const(e.w, e.a[0])
        lv = [l for l in e.lv]
        if e.k == 'leaf': return s.leaf.get(e, ISet.top(e.w))
        n = 1
        for l in lv: n *= s.leaf.get(l, ISet.top(l.w)).size
        if n <= cap:
            out = set()
            for combo in itertools.product(*[list(s.leaf.get(l, ISet.top(l.w)).values()) for l in lv]):
                r = conc(e, dict(zip(lv, combo)))
                if r is None: return ISet.top(e.w)
                out.add(r)
            return ISet.of(e.w, out)
        # fall back to interval evaluation
        if e.k == 'op': return binop(e.a[0], s.eset(e.a[1], cap), s.eset(e.a[2], cap))
        if e.k == 'zext': return zext(s.eset(e.a[0], cap), e.w)
        if e.k == 'sext': return sext(s.eset(e.a[0], cap), e.w)
        if e.k == 'trunc': return trunc(s.eset(e.a[0], cap), e.w)
        if e.k == 'icmp': return icmp(e.a[0], s.eset(e.a[1], cap), s.eset(e.a[2], cap))
        if e.k == 'sel': return s.eset(e.a[1], cap).union(s.eset(e.a[2], cap))
        return ISet.top(e.w)
    def efilter(s, e, truth):
        """assume boolean expression e == truth by filtering leaf sets; False if contradictory"""
        if e.k == 'const': return bool(e.a[0]) == truth
        lv = list(e.lv)
        if e.k == 'op' and e.w == 1 and e.a[0] in ('and', 'or') and (e.a[0] == 'and') == truth:
            return s.efilter(e.a[1], truth) and s.efilter(e.a[2], truth) and s.efilter(e.a[1], truth)
        n = 1
        for l in lv: n *= s.leaf.get(l, ISet.top(l.w)).size
        if not lv: return True
        if n > 70000:
            if s.taint is None: s.taint = 'condition too large'
            return True
        keep = [set() for _ in lv]; kept = 0
        for combo in itertools.product(*[list(s.leaf.get(l, ISet.top(l.w)).values()) for l in lv]):
            r = conc(e, dict(zip(lv, combo)))
            if r is None or bool(r) == truth:
                kept += 1
                for K, v in zip(keep, combo): K.add(v)
        if not keep[0]: return False
        if len(lv) > 1 and s.taint is None:
            m = 1
            for K in keep: m *= len(K)
            if m != kept: s.taint = "relation between characters not kept"
        for l, K in zip(lv, keep): s.leaf[l] = ISet.of(l.w, K)
        return True
    # ---- memory ----------------------------------------------------------------------
    def load(s, p, size):
        if isinstance(p, Ptr) and p.off.is_const:
            c = s.mem.get(p.obj, {}).get(p.off.c)
            if c and c[0] == size: return c[1]
        return None
    def store(s, p, size, v):
        if not isinstance(p, Ptr): return
        if p.off.is_const:
            cells = s.mem.setdefault(p.obj, {})
            o = p.off.c
            for k in [k for k, (z, _) in cells.items() if k < o + size and o < k + z]: del cells[k]
            if v is not None: cells[o] = (size, v)
        else:
            # weak: unknown position inside the object
            s.mem[p.obj] = {}
        s.clobber_bytes(p.obj)
    def clobber_bytes(s, obj):
        if any(e.a[0][1] == obj for e in s.leaf if e.a[0][0] == 'b'):
            s.leaf = {e: v for e, v in s.leaf.items() if not (e.a[0][0] == 'b' and e.a[0][1] == obj)}
        if any(r[0] == obj for r in s.reg): s.reg = tuple(r for r in s.reg if r[0] != obj)
    def havoc(s, obj, lo=None, hi=None):
        cells = s.mem.get(obj)
        if cells is not None:
            for k in [k for k, (z, _) in cells.items() if (hi is None or k < hi) and (lo is None or lo < k + z)]: del cells[k]
        s.clobber_bytes(obj)
    def region(s, obj, a, b, S):
        """assume all bytes of obj in [a,b) are in S"""
        s.reg = s.reg + ((obj, a, b, S),)
        for e in list(s.leaf):
            if e.a[0][0] == 'b' and e.a[0][1] == obj:
                o = e.a[0][2]
                if s.le(a - o) and s.le(o - b + 1):
                    n = s.leaf[e].inter(S)
                    if not n: return False
                    s.leaf[e] = n
        return True
    def excludes(s, obj, a, b, C):
        """no byte of obj in [a,b) is in C (ISet), provably; every byte value of C may use its own chain of facts"""
        if s.le(b - a): return True
        for c in C.values():
            one = ISet.const(8, c)
            pieces = [(x, y) for (o, x, y, S) in s.reg if o == obj and c not in S]
            pieces += [(e.a[0][2], e.a[0][2] + 1) for e, S in s.leaf.items() if e.a[0][0] == 'b' and e.a[0][1] == obj and c not in S]
            todo = [a]; seen = set(); ok = False
            while todo and not ok:
                p = todo.pop()
                for x, y in pieces:
                    if (x, y) in seen: continue
                    if s.le(x - p) and not s.le(y - p):
                        seen.add((x, y))
                        if s.le(b - y): ok = True; break
                        if s.le(p - y): todo.append(y)
            if not ok: return False
        return True
    def consistent(s):
        """re-evaluate known bytes and positions against region facts; False if contradictory"""
        if any(s.eq(e, Lin(0)) for e in s.neq): return False
        for _ in range(4):
            L = [(e, e.a[0][1], e.a[0][2]) for e in s.leaf if e.a[0][0] == 'b']; ch = False
            for e, o, x in L:
                S = s.leaf[e]
                for (o2, a, b, R) in s.reg:
                    if o2 != o or S.subset(R): continue
                    ge, lt = s.le(a - x), s.le(x - b + 1)
                    if ge and lt:
                        S = S.inter(R)
                        if not S: return False
                    elif S.disjoint(R):                       # x lies outside [a,b)
                        if ge and not s.le(b - x):
                            if not s.assume_le(b - x): return False
                            ch = True
                        elif lt and not s.le(x - a + 1):
                            if not s.assume_le(x - a + 1): return False
                            ch = True
                for e2, o2, y in L:
                    if o2 == o and e2 is not e and s.leaf[e2] != S:
                        if s.eq(x, y):
                            S = S.inter(s.leaf[e2])
                            if not S: return False
                        elif S.disjoint(s.leaf[e2]) and s.le(x - y) and not s.le(x - y + 1):      # different bytes: different positions
                            if not s.assume_le(x - y + 1): return False
                            ch = True
                s.leaf[e] = S
            if not ch: return True
        return True
    def region_set(s, obj, a, b):
        """over-approximation of the byte values found in [a,b) (bottom if provably empty)"""
        if s.le(b - a): return ISet.bot(8)
        best = ISet.top(8)
        for (o, x, y, S) in s.reg:
            if o == obj and s.le(x - a) and s.le(b - y): best = best.inter(S)
        # chain: adjacent regions / single leaves covering [a,b)
        def cover(p, acc, depth):
            nonlocal best
            if s.le(b - p): best = best.inter(acc); return
            if depth > 10: return
            for (o, x, y, S) in s.reg:
                if o == obj and s.le(x - p) and not s.le(y - p) and s.le(p - y):
                    cover(y, acc.union(S), depth + 1)
            for e, S in s.leaf.items():
                if e.a[0][0] == 'b' and e.a[0][1] == obj and s.eq(e.a[0][2], p): cover(p + 1, acc.union(S), depth + 1)
        cover(a, ISet.bot(8), 0)
        return best

def syms_of(v):
    if isinstance(v, Lin): return v.syms()
    if isinstance(v, Ptr): return v.off.syms()
    if isinstance(v, Ex):
        out = []
        for l in v.lv:
            if l.a[0][0] == 'b': out += l.a[0][2].syms()
        return out
    if isinstance(v, tuple) and v and v[0] in ('cmp', 'agg', 'pint'):
        out = []
        for x in v[1:]:
            if isinstance(x, (Lin, Ptr, Ex, tuple)): out += syms_of(x)
        return out
    if isinstance(v, tuple):
        out = []
        for x in v: out += syms_of(x)
        return out
    return []

def vsubst(v, m):
    if isinstance(v, Lin): return v.subst(m)
    if isinstance(v, Ptr): return Ptr(v.obj, v.off.subst(m))
    if isinstance(v, Ex):
        if v.k == 'leaf': return Ex('leaf', v.w, (v.a[0][0], v.a[0][1], v.a[0][2].subst(m))) if v.a[0][0] == 'b' else v
        return Ex(v.k, v.w, *[vsubst(x, m) if isinstance(x, Ex) else x for x in v.a])
    if isinstance(v, tuple): return tuple(vsubst(x, m) for x in v)
    return v
