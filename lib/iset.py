"""Finite unions of integer intervals over w-bit values (unsigned representation)."""
MAXIV = 300
ENUM = 4096

class ISet:
    __slots__ = ("w", "iv", "_h")
    def __init__(s, w, iv):
        s.w = w; s.iv = iv; s._h = None
    @staticmethod
    def make(w, ivs):
        """normalise list of (lo,hi) with 0<=lo<=hi<2^w"""
        ivs = sorted(ivs); out = []
        for lo, hi in ivs:
            if out and lo <= out[-1][1] + 1:
                if hi > out[-1][1]: out[-1] = (out[-1][0], hi)
            else: out.append((lo, hi))
        if len(out) > MAXIV:
            # merge smallest gaps
            while len(out) > MAXIV:
                k = min(range(len(out) - 1), key=lambda i: out[i + 1][0] - out[i][1])
                out[k:k + 2] = [(out[k][0], out[k + 1][1])]
        return ISet(w, tuple(out))
    @staticmethod
    def top(w): return ISet(w, ((0, (1 << w) - 1),))
    @staticmethod
    def bot(w): return ISet(w, ())
    @staticmethod
    def const(w, v): v &= (1 << w) - 1; return ISet(w, ((v, v),))
    @staticmethod
    def of(w, vals): return ISet.make(w, [(v & ((1 << w) - 1),) * 2 for v in vals])
    @staticmethod
    def srange(w, lo, hi):
        """signed inclusive range"""
        M = 1 << w
        if lo > hi: return ISet.bot(w)
        if lo >= 0 or hi < 0: return ISet.make(w, [(lo % M, hi % M)])
        return ISet.make(w, [(0, hi), (lo % M, M - 1)])
    @staticmethod
    def urange(w, lo, hi): return ISet.make(w, [(lo, hi)]) if lo <= hi else ISet.bot(w)
    def __eq__(a, b): return isinstance(b, ISet) and a.w == b.w and a.iv == b.iv
    def __hash__(s):
        if s._h is None: s._h = hash((s.w, s.iv))
        return s._h
    def __bool__(s): return bool(s.iv)
    def __contains__(s, v):
        v &= (1 << s.w) - 1
        return any(lo <= v <= hi for lo, hi in s.iv)
    @property
    def size(s): return sum(h - l + 1 for l, h in s.iv)
    def is_top(s): return len(s.iv) == 1 and s.iv[0] == (0, (1 << s.w) - 1)
    def single(s):
        return s.iv[0][0] if len(s.iv) == 1 and s.iv[0][0] == s.iv[0][1] else None
    def ssingle(s):
        v = s.single()
        return None if v is None else (v - (1 << s.w) if v >> (s.w - 1) else v)
    def values(s):
        for l, h in s.iv: yield from range(l, h + 1)
    def union(a, b): return a if a.iv == b.iv else ISet.make(a.w, list(a.iv) + list(b.iv))
    def inter(a, b):
        if a.iv == b.iv: return a
        out = []; i = j = 0
        while i < len(a.iv) and j < len(b.iv):
            lo = max(a.iv[i][0], b.iv[j][0]); hi = min(a.iv[i][1], b.iv[j][1])
            if lo <= hi: out.append((lo, hi))
            if a.iv[i][1] < b.iv[j][1]: i += 1
            else: j += 1
        return ISet(a.w, tuple(out))
    def compl(s):
        out = []; p = 0; M = 1 << s.w
        for l, h in s.iv:
            if p < l: out.append((p, l - 1))
            p = h + 1
        if p < M: out.append((p, M - 1))
        return ISet(s.w, tuple(out))
    def subset(a, b): return a.inter(b).iv == a.iv
    def disjoint(a, b): return not a.inter(b).iv
    def umin(s): return s.iv[0][0]
    def umax(s): return s.iv[-1][1]
    def smin(s):
        H = 1 << (s.w - 1)
        neg = [max(l, H) for l, h in s.iv if h >= H]
        return (min(neg) - (1 << s.w)) if neg else s.iv[0][0]
    def smax(s):
        H = 1 << (s.w - 1)
        pos = [min(h, H - 1) for l, h in s.iv if l < H]
        return max(pos) if pos else s.iv[-1][1] - (1 << s.w)
    def __repr__(s):
        if s.is_top(): return f"T{s.w}"
        def f(v): return v - (1 << s.w) if s.w > 1 and v >> (s.w - 1) else v
        return "{" + ",".join(f"{f(l)}" if l == h else f"{f(l)}..{f(h)}" for l, h in s.iv[:8]) + ("..." if len(s.iv) > 8 else "") + "}"

def _wrap(w, lo, hi):
    M = 1 << w
    if hi - lo + 1 >= M: return [(0, M - 1)]
    lo2, hi2 = lo % M, hi % M
    return [(lo2, hi2)] if lo2 <= hi2 else [(0, hi2), (lo2, M - 1)]

def s2(v, w): return v - (1 << w) if v >> (w - 1) else v

def concrete(op, w, a, b):
    """exact result of a binary op on unsigned representations; None = undefined"""
    M = 1 << w
    if op == 'add': return (a + b) % M
    if op == 'sub': return (a - b) % M
    if op == 'mul': return (a * b) % M
    if op == 'and': return a & b
    if op == 'or': return a | b
    if op == 'xor': return a ^ b
    if op == 'shl': return (a << b) % M if b < w else None
    if op == 'lshr': return a >> b if b < w else None
    if op == 'ashr': return (s2(a, w) >> b) % M if b < w else None
    if op == 'udiv': return a // b if b else None
    if op == 'urem': return a % b if b else None
    if op in ('sdiv', 'srem'):
        x, y = s2(a, w), s2(b, w)
        if y == 0: return None
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0): q = -q
        return q % M if op == 'sdiv' else (x - q * y) % M
    if op == 'umax': return max(a, b)
    if op == 'umin': return min(a, b)
    if op == 'smax': return max(s2(a, w), s2(b, w)) % M
    if op == 'smin': return min(s2(a, w), s2(b, w)) % M
    return None

def binop(op, a, b):
    w = a.w; M = 1 << w
    if not a or not b: return ISet.bot(w)
    if op == 'or' and w > 1 or op in ('and', 'xor', 'shl', 'lshr', 'ashr', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'or'):
        if a.size * b.size <= ENUM:
            r = set()
            for x in a.values():
                for y in b.values():
                    v = concrete(op, w, x, y)
                    if v is not None: r.add(v)
            return ISet.of(w, r) if r else ISet.bot(w)
    if op in ('add', 'sub'):
        if len(a.iv) * len(b.iv) <= 512:
            out = []
            for l1, h1 in a.iv:
                for l2, h2 in b.iv:
                    out += _wrap(w, l1 + l2, h1 + h2) if op == 'add' else _wrap(w, l1 - h2, h1 - l2)
            return ISet.make(w, out)
        return ISet.top(w)
    k = b.single()
    if op == 'and':
        m = min(a.umax(), b.umax())
        if k is not None and k & (k + 1) == 0:   # low mask
            if a.umax() <= k: return a
        return ISet.urange(w, 0, m)
    if op == 'or':
        bits = max(a.umax().bit_length(), b.umax().bit_length())
        return ISet.urange(w, max(a.umin(), b.umin()), (1 << bits) - 1)
    if op == 'xor':
        if k == M - 1: return ISet.make(w, [(M - 1 - h, M - 1 - l) for l, h in a.iv])
        bits = max(a.umax().bit_length(), b.umax().bit_length())
        return ISet.urange(w, 0, (1 << bits) - 1)
    if op == 'lshr':
        if k is not None and k < w: return ISet.make(w, [(l >> k, h >> k) for l, h in a.iv])
        return ISet.urange(w, 0, a.umax() >> min(b.umin(), w - 1))
    if op == 'ashr' and k is not None and k < w:
        return ISet.srange(w, a.smin() >> k, a.smax() >> k)
    if op == 'shl':
        if k is not None and k < w and (a.umax() << k) < M: return ISet.make(w, [(l << k, h << k) for l, h in a.iv])
        if b.umax() < w and (a.umax() << b.umax()) < M: return ISet.urange(w, a.umin() << b.umin(), a.umax() << b.umax())
        return ISet.top(w)
    if op == 'mul':
        if a.umax() * b.umax() < M: return ISet.urange(w, a.umin() * b.umin(), a.umax() * b.umax())
        lo, hi = a.smin(), a.smax(); c = [x * y for x in (lo, hi) for y in (b.smin(), b.smax())]
        if min(c) >= -(M >> 1) and max(c) < (M >> 1): return ISet.srange(w, min(c), max(c))
        return ISet.top(w)
    if op == 'udiv':
        if k: return ISet.make(w, [(l // k, h // k) for l, h in a.iv])
        return ISet.urange(w, 0, a.umax())
    if op == 'urem':
        if a.umax() < b.umin(): return a
        return ISet.urange(w, 0, min(a.umax(), max(b.umax() - 1, 0)))
    if op == 'srem':
        m = max(abs(b.smin()), abs(b.smax())) - 1
        lo = 0 if a.smin() >= 0 else max(-m, a.smin()); hi = 0 if a.smax() <= 0 else min(m, a.smax())
        return ISet.srange(w, lo, hi)
    if op == 'sdiv' and k and s2(k, w) > 0:
        kk = s2(k, w); f = lambda x: -((-x) // kk) if x < 0 else x // kk
        return ISet.srange(w, f(a.smin()), f(a.smax()))
    if op == 'umax': return ISet.urange(w, max(a.umin(), b.umin()), max(a.umax(), b.umax())).inter(a.union(b))
    if op == 'umin': return ISet.urange(w, min(a.umin(), b.umin()), min(a.umax(), b.umax())).inter(a.union(b))
    if op == 'smax': return ISet.srange(w, max(a.smin(), b.smin()), max(a.smax(), b.smax())).inter(a.union(b))
    if op == 'smin': return ISet.srange(w, min(a.smin(), b.smin()), min(a.smax(), b.smax())).inter(a.union(b))
    return ISet.top(w)

def zext(a, w): return ISet(w, a.iv)
def sext(a, w):
    H = 1 << (a.w - 1); D = (1 << w) - (1 << a.w); out = []
    for l, h in a.iv:
        if l < H: out.append((l, min(h, H - 1)))
        if h >= H: out.append((max(l, H) + D, h + D))
    return ISet.make(w, out)
def trunc(a, w):
    out = []
    for l, h in a.iv: out += _wrap(w, l, h)
    return ISet.make(w, out)

INV = {'eq': 'ne', 'ne': 'eq', 'ugt': 'ule', 'ule': 'ugt', 'uge': 'ult', 'ult': 'uge', 'sgt': 'sle', 'sle': 'sgt', 'sge': 'slt', 'slt': 'sge'}
SWP = {'eq': 'eq', 'ne': 'ne', 'ugt': 'ult', 'ult': 'ugt', 'uge': 'ule', 'ule': 'uge', 'sgt': 'slt', 'slt': 'sgt', 'sge': 'sle', 'sle': 'sge'}

def constrain(pred, a, b):
    """largest subset of a compatible with `a pred b` for some element of b"""
    w = a.w; M = 1 << w
    if not b: return ISet.bot(w)
    if pred == 'eq': return a.inter(b)
    if pred == 'ne':
        k = b.single()
        return a.inter(ISet.const(w, k).compl()) if k is not None else a
    if pred == 'ult': return a.inter(ISet.urange(w, 0, b.umax() - 1))
    if pred == 'ule': return a.inter(ISet.urange(w, 0, b.umax()))
    if pred == 'ugt': return a.inter(ISet.urange(w, b.umin() + 1, M - 1))
    if pred == 'uge': return a.inter(ISet.urange(w, b.umin(), M - 1))
    lo, hi = -(M >> 1), (M >> 1) - 1
    if pred == 'slt': return a.inter(ISet.srange(w, lo, b.smax() - 1))
    if pred == 'sle': return a.inter(ISet.srange(w, lo, b.smax()))
    if pred == 'sgt': return a.inter(ISet.srange(w, b.smin() + 1, hi))
    if pred == 'sge': return a.inter(ISet.srange(w, b.smin(), hi))
    return a

def icmp(pred, a, b):
    if not a or not b: return ISet.bot(1)
    t = bool(constrain(pred, a, b)); f = bool(constrain(INV[pred], a, b))
    return ISet.make(1, ([(1, 1)] if t else []) + ([(0, 0)] if f else []))

def cicmp(pred, w, a, b):
    sa, sb = s2(a, w), s2(b, w)
    return {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
            'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[pred]
