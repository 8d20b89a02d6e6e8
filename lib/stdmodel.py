"""Contracts of the C++ standard library as seen by the abstract interpreter: strings, views, optionals, searching,
formatting, streams.  A string's value is a *content*: a tuple of segments
   ('lit', bytes) | ('sub', object, offset, length) | ('chr', Ex) | ('app', function, arguments...) | ('?', id)
Contents live in ghost cells of the buffer ("location") a string object owns; pointers keep naming locations, so that
ownership (whose buffer a view looks into) and value can both be compared."""
from relint import *
from rel import _fresh
import re

NPOS = Lin(-1)
ALL = ISet.top(8)
def bset(bs): return ISet.of(8, bs)

def clen(st, c):
    n = Lin(0)
    for s in c:
        if s[0] == 'lit': n = n + len(s[1])
        elif s[0] == 'sub': n = n + s[3]
        elif s[0] == 'chr': n = n + 1
        else: return None
    return n

def cnorm(st, c):
    out = []
    for s in c:
        if s[0] == 'lit' and not s[1]: continue
        if s[0] == 'sub':
            if st.eq(s[3], Lin(0)): continue
            if out and out[-1][0] == 'sub' and out[-1][1] == s[1] and st.eq(out[-1][2] + out[-1][3], s[2]):
                out[-1] = ('sub', s[1], out[-1][2], out[-1][3] + s[3]); continue
        if s[0] == 'chr' and s[1].k == 'const': s = ('lit', bytes([s[1].a[0]]))
        if s[0] == 'lit' and out and out[-1][0] == 'lit': out[-1] = ('lit', out[-1][1] + s[1]); continue
        out.append(s)
    return tuple(out)

def ceq(st, a, b):
    """contents provably equal"""
    if a is None or b is None: return False
    a, b = cnorm(st, a), cnorm(st, b)
    if len(a) != len(b): return False
    for x, y in zip(a, b):
        if x == y and x[0] != '?': continue
        if x[0] != y[0] or x[0] == '?': return False
        if x[0] == 'sub' and x[1] == y[1] and st.eq(x[2], y[2]) and st.eq(x[3], y[3]): continue
        if x[0] == 'app' and x[1] == y[1] and len(x) == len(y) and all(ceq(st, p, q) if isinstance(p, tuple) and isinstance(q, tuple) else p == q or isinstance(p, Lin) and isinstance(q, Lin) and st.eq(p, q) for p, q in zip(x[2:], y[2:])): continue
        return False
    return True

def cempty(st, c):
    """True/False/None: is the content provably empty / non-empty"""
    may = False
    for s in c:
        if s[0] == 'lit' and s[1] or s[0] == 'chr': return False
        if s[0] == 'sub':
            if st.lb(s[3]) > 0: return False
            if not st.eq(s[3], Lin(0)): may = True
        elif s[0] in ('app', '?'): may = True
    return None if may else True

class StdModel(Model):
    sso = False                     # distinguish small (in-object) and heap buffers
    opaque_throw = ()               # qualified names that may throw a documented exception
    def __init__(self, rep): self.rep = rep
    # ------------------------------------------------------------------ strings
    def unknown(self, why=''): return (('?', next(_fresh)),)
    def loc(self, st, p): return f"o:s{next(_fresh)}"
    def setstr(self, st, p, content, loc=None, keep=False):
        """(re)initialise the string object at p"""
        if not isinstance(p, Ptr) or not p.off.is_const: 
            if isinstance(p, Ptr): st.havoc(p.obj)
            return
        content = cnorm(st, content)
        n = clen(st, content)
        if n is None:
            n = st.newsym('len', 0, BIG)
            e = cempty(st, content)
            if e is False: st.assume_le(Lin(1) - n)
        if loc is None: loc = self.loc(st, p)
        self.put(st, loc, content)
        st.clobber_bytes(loc)
        if len(content) > 1: self.composed(st, loc, content)
        st.store(p, 8, Ptr(loc)); st.store(Ptr(p.obj, p.off + 8), 8, n)
    def composed(self, st, loc, content):
        """what is known about the characters of a composed text"""
        at = Lin(0)
        for s in content:
            if s[0] == 'lit':
                for k, c in enumerate(s[1][:8]): st.leaf[Ex('leaf', 8, ('b', loc, st.canon(at + k)))] = ISet.const(8, c)
                for k, c in enumerate(s[1][:8]): st.region(loc, at + k, at + k + 1, ISet.const(8, c))
                at = at + len(s[1])
            elif s[0] == 'sub':
                a, e = s[2], s[2] + s[3]
                for (o, x, y, S) in list(st.reg):
                    if o != s[1]: continue
                    lo = a if st.le(x - a) else x if st.le(a - x) else None
                    hi = e if st.le(e - y) else y if st.le(y - e) else None
                    if lo is not None and hi is not None and not st.le(hi - lo): st.region(loc, at + lo - a, at + hi - a, S)
                for l, S in list(st.leaf.items()):
                    if l.a[0][0] == 'b' and l.a[0][1] == s[1] and l.w == 8 and not S.is_top() and st.le(a - l.a[0][2]) and st.le(l.a[0][2] + 1 - e):
                        st.leaf[Ex('leaf', 8, ('b', loc, st.canon(at + l.a[0][2] - a)))] = S
                at = at + s[3]
            elif s[0] == 'chr': at = at + 1
            else: return
    def put(self, st, loc, content):
        m = st.mem.get(loc, {}); new = {k: v for k, v in m.items() if 100 <= k < 200}
        if content and content[0][:2] == ('app', 'acc'):
            new[200] = (8, content[0][2]); content = (('app', 'acc', 'cell'),) + content[1:]
        new[0.25] = (0.5, content); st.mem[loc] = new
    def content_of_loc(self, st, loc):
        m = st.mem.get(loc, {}); c = m.get(0.25)
        if c is None: return None
        c = c[1]
        if c and c[0] == ('app', 'acc', 'cell'):
            k = m.get(200)
            return ((('app', 'acc', k[1]),) if k else self.unknown()) + c[1:]
        return c
    def append_to(self, st, old, c): return old + c              # hook: recognise accumulated output
    def view(self, st, p, n):
        """content of the character range [p, p+n)"""
        if isinstance(n, Lin) and n.is_const and n.c == 0: return ()
        if not isinstance(p, Ptr) or not isinstance(n, Lin): return self.unknown()
        gb = self.eng.gbytes(p.obj) if p.obj.startswith('@') else None
        if gb is not None and p.off.is_const and n.is_const and p.off.c + n.c <= len(gb): return (('lit', bytes(gb[p.off.c:p.off.c + n.c])),)
        c = self.content_of_loc(st, p.obj)
        if c is not None:
            total = clen(st, c)
            if len(c) == 1 and c[0][0] == 'sub': return cnorm(st, (('sub', c[0][1], c[0][2] + p.off, n),))
            if p.off.is_const and p.off.c == 0 and total is not None and st.eq(total, n): return c
            if p.off.is_const and p.off.c == 0 and total is None:
                # length symbol of the owner is the one stored with it
                return c
        if p.obj.startswith(('a:', 'n:')) and p.off.is_const and n.is_const and n.c <= 64:
            bs = []
            for k in range(n.c):
                x = st.load(Ptr(p.obj, p.off + k), 1)
                if not isinstance(x, Ex): bs = None; break
                bs.append(('chr', x))
            if bs is not None: return cnorm(st, tuple(bs))
        return cnorm(st, (('sub', p.obj, st.canon(p.off), n),))
    def rptr(self, st, p):
        """pointer into the ultimate source of the characters at p"""
        for _ in range(4):
            c = self.content_of_loc(st, p.obj) if isinstance(p, Ptr) else None
            if c is not None and len(c) == 1 and c[0][0] == 'sub': p = Ptr(c[0][1], c[0][2] + p.off)
            else: return p
        return p
    def sptrlen(self, st, p):
        """(data pointer, length) of the std::string object at p"""
        if not isinstance(p, Ptr): return None, None
        return st.load(p, 8), st.load(Ptr(p.obj, p.off + 8), 8)
    def svptrlen(self, st, p):
        if not isinstance(p, Ptr): return None, None
        n, d = st.load(p, 8), st.load(Ptr(p.obj, p.off + 8), 8)
        return d, n
    def sget(self, st, p):
        d, n = self.sptrlen(st, p)
        return self.view(st, d, n) if isinstance(d, Ptr) and isinstance(n, Lin) else self.unknown()
    def svget(self, st, p):
        d, n = self.svptrlen(st, p)
        if n is not None and isinstance(n, Lin) and n.is_const and n.c == 0: return ()
        return self.view(st, d, n) if isinstance(d, Ptr) and isinstance(n, Lin) else self.unknown()
    def cstr(self, st, p):
        gb = self.eng.gbytes(p.obj) if isinstance(p, Ptr) and p.obj.startswith('@') else None
        if gb is not None and p.off.is_const: return (('lit', bytes(gb[p.off.c:]).split(b"\0")[0]),)
        if isinstance(p, Ptr):
            c = self.content_of_loc(st, p.obj)
            if c is not None and p.off.is_const and p.off.c == 0: return (('app', 'cstr', c),)
        return self.unknown()
    # ------------------------------------------------------------------ optionals of strings
    def setopt(self, st, p, val, size=32):
        """val None: disengaged, else content"""
        if not isinstance(p, Ptr) or not p.off.is_const: return
        if val is None: st.store(Ptr(p.obj, p.off + size), 1, ec(8, 0))
        else:
            self.setstr(st, p, val); st.store(Ptr(p.obj, p.off + size), 1, ec(8, 1))
    def getopt(self, st, p, size=32):
        """('none',) | ('some', content) | None if unknown"""
        if not isinstance(p, Ptr): return None
        f = st.load(Ptr(p.obj, p.off + size), 1)
        if isinstance(f, Ex):
            S = st.eset(f)
            if S == ISet.const(8, 0): return ('none',)
            if 0 not in S: return ('some', self.sget(st, p))
        return None
    # ------------------------------------------------------------------ searching
    def search(self, st, base, n, pos, S, key, last=False):
        """first (last) index >= pos (<= pos) whose byte is in S; base: Ptr of index 0"""
        out = []
        base = self.rptr(st, base)
        base = Ptr(base.obj, st.canon(base.off))
        k = (key, base, st.canon(n), st.canon(pos) if isinstance(pos, Lin) else pos, S.iv, last)
        for kk, r in st.rel:
            if kk == k: return [(st, r)]
        C = S.compl(); o = base.off; pos0 = pos
        if not last:
            for _ in range(4):                                  # skip positions already known not to match
                for e, V in st.leaf.items():
                    if e.a[0][0] == 'b' and e.a[0][1] == base.obj and V.disjoint(S) and st.eq(e.a[0][2], o + pos): pos = pos + 1; break
                else: break
            if not st.le(pos - n): pos = pos0
            for e, V in st.leaf.items():                        # a known match right here
                if e.a[0][0] == 'b' and e.a[0][1] == base.obj and V and V.subset(S) and st.eq(e.a[0][2], o + pos) and st.le(pos - n + 1):
                    st.rel = st.rel + ((k, pos),); return [(st, pos)]
            a = st.copy()                                       # found
            r = a.newsym('pos', 0)
            if a.assume_le(pos - r) and a.assume_le(r - n + 1):
                lf = a.byte_leaf(base.obj, o + r); v = a.leaf[lf].inter(S)
                if v:
                    a.leaf[lf] = v
                    if a.region(base.obj, o + pos, o + r, C):
                        a.rel = a.rel + ((k, r),); out.append((a, r))
            b = st.copy()                                       # not found
            ok = True
            if b.le(pos - n): ok = b.region(base.obj, o + pos, o + n, C)
            else:
                c1 = b.copy()
                if c1.assume_le(pos - n):
                    if c1.region(base.obj, o + pos, o + n, C): c1.rel = c1.rel + ((k, NPOS),); out.append((c1, NPOS))
                ok = b.assume_le(n - pos + 1)
            if ok: b.rel = b.rel + ((k, NPOS),); out.append((b, NPOS))
        else:
            a = st.copy(); r = a.newsym('pos', 0)
            if a.assume_le(r - n + 1):
                lf = a.byte_leaf(base.obj, o + r); v = a.leaf[lf].inter(S)
                if v:
                    a.leaf[lf] = v
                    if a.region(base.obj, o + r + 1, o + n, C): a.rel = a.rel + ((k, r),); out.append((a, r))
            b = st.copy()
            if b.region(base.obj, o, o + n, C): b.rel = b.rel + ((k, NPOS),); out.append((b, NPOS))
        return out
    def find_call(self, st, i, name, args, d, n):
        """basic_string / basic_string_view find family; (d, n) the searched range"""
        f = name.rsplit('::', 1)[1]
        ps = [p for p in params(demangle(self.eng.cname(i)))]
        a = args[1:]
        if not isinstance(d, Ptr) or not isinstance(n, Lin): return [(st, self.eng.fresh(st, i.ty, 'find'))]
        lit = None; pos = Lin(0)
        if not ps: return None
        p0 = ps[0]
        if p0 == 'char':
            if isinstance(a[0], Ex) and a[0].k == 'const': lit = bytes([a[0].a[0]])
            pos = a[1] if len(a) > 1 else Lin(0)
        elif p0.startswith('char const*'):
            c = self.cstr(st, a[0])
            if len(a) == 3 and isinstance(a[2], Lin) and a[2].is_const: c = self.view(st, a[0], a[2])
            if len(c) <= 1 and (not c or c[0][0] == 'lit'): lit = c[0][1] if c else b''
            pos = a[1] if len(a) > 1 else Lin(0)
        elif 'basic_string_view' in p0 and not p0.endswith('&'):
            c = self.view(st, a[1], a[0])
            if len(c) == 1 and c[0][0] == 'lit': lit = c[0][1]
            pos = a[2] if len(a) > 2 else Lin(0)
        elif 'basic_string_view' in p0 or 'basic_string<' in p0:
            c = self.svget(st, a[0]) if 'basic_string_view' in p0 else self.sget(st, a[0])
            if len(c) == 1 and c[0][0] == 'lit': lit = c[0][1]
            pos = a[1] if len(a) > 1 else Lin(0)
        if isinstance(pos, Ex): pos = self.eng.to_lin(st, pos)
        if p0 == 'char' and lit is None and isinstance(a[0], Ex) and a[0].w == 8 and isinstance(n, Lin) and n.is_const and n.c <= 256 and f in ('find', 'find_first_of', 'rfind', 'find_last_of') and isinstance(pos, Lin) and pos.is_const and pos.c in (0, -1, (1 << 64) - 1):
            c = self.view(st, d, n)
            if len(c) <= 1 and (not c or c[0][0] == 'lit'): return self.member(st, a[0], c[0][1] if c else b'', None)
        if lit is None or not isinstance(pos, Lin):
            r = st.newsym('find', 0); st.assume_le(r - n); return [(st.copy(), NPOS), (st, r)]
        if f == 'find_first_of' or f == 'find' and len(lit) == 1: return self.search(st, d, n, pos, bset(lit), 'f')
        if f == 'find_first_not_of': return self.search(st, d, n, pos, bset(lit).compl(), 'f')
        if f in ('find_last_of', 'find_last_not_of') or f == 'rfind' and len(lit) == 1:
            if pos.is_const and pos.c in (-1, (1 << 64) - 1):
                return self.search(st, d, n, 'end', bset(lit).compl() if f == 'find_last_not_of' else bset(lit), 'l', True)
        a_ = st.copy(); r = a_.newsym('find', 0)
        if self.unroll and st.taint is None:
            b = self.rptr(st, d)
            if not any(st.excludes(b.obj, b.off, b.off + n, bset([ch])) for ch in lit): st.taint = "absence of a longer text is not tracked"
        out = [(st, NPOS)]
        if a_.assume_le(r + len(lit) - n):
            if f == 'find': a_.assume_le(pos - r)
            ok = True; b = self.rptr(a_, d)
            for k, ch in enumerate(lit[:8]):
                lf = a_.byte_leaf(b.obj, b.off + r + k); v = a_.leaf[lf].inter(bset([ch]))
                if not v: ok = False; break
                a_.leaf[lf] = v
            if ok: out.append((a_, r))
        return out
    def member(self, st, c, lit, base):
        """search of a variable character in a constant text: found (index / pointer) or not"""
        out = []; t = Ex('tab', 8, bytes(int(k in lit) for k in range(256)), Ex('zext', 32, c), 1, 0)
        a = st.copy()
        if a.efilter(t, True):
            r = a.newsym('idx', 0, max(0, len(lit) - 1)); out.append((a, r if base is None else Ptr(base.obj, base.off + r)))
        if st.efilter(t, False): out.append((st, NPOS if base is None else None))
        return out
    # ------------------------------------------------------------------ comparing
    def cmp_lit(self, st, p, n, lit):
        """states (equal?, state) of comparing range [p,p+n) with a literal of the same length"""
        b = self.rptr(st, p); out = []
        def at(s, k):
            v = self.char_at(s, Ptr(b.obj, b.off + k)) if self.content_of_loc(s, b.obj) is not None else None
            if isinstance(v, Ex) and v.k in ('leaf', 'const'): return v
            if self.unroll and s.taint is None and ((c := self.content_of_loc(s, b.obj) or ())[1:] or c and c[0][0] == '?'): s.taint = "character of a composed text"
            return s.byte_leaf(b.obj, b.off + k)
        def keep(s, v, S):
            """assume the character v is in S"""
            if v.k == 'const': return v.a[0] in S
            n = s.leaf.get(v, ALL).inter(S)
            if n: s.leaf[v] = n
            return bool(n)
        inside = lambda s, v, S: v.a[0] in S if v.k == 'const' else s.leaf.get(v, ALL).subset(S)
        e = st.copy(); ok = e.assume_eq(n - len(lit))
        if ok:
            ok = all(keep(e, at(e, k), bset([ch])) for k, ch in enumerate(lit))
            if ok: out.append((True, e))
        d = st.copy()
        if ok and d.eq(n, Lin(len(lit))) and all(inside(d, at(d, k), bset([ch])) for k, ch in enumerate(lit)): return out
        if len(lit) == 1 and d.eq(n, Lin(1)):
            if keep(d, at(d, 0), bset(lit).compl()): out.append((False, d))
        else: out.append((False, d))
        return out
    def memcmp(self, st, i, args):
        p, q, n = args[:3]
        if not isinstance(n, Lin): return None
        for x, y in ((p, q), (q, p)):
            gb = self.eng.gbytes(y.obj) if isinstance(y, Ptr) and y.obj.startswith('@') else None
            if gb is not None and y.off.is_const and n.is_const and n.c <= 16 and isinstance(x, Ptr):
                out = []
                for t, s in self.cmp_lit(st, x, n, bytes(gb[y.off.c:y.off.c + n.c])):
                    if t: out.append((s, Lin(0)))
                    else:
                        for lo, hi in ((1, 255), (-255, -1)): out.append((s.copy(), s.newsym('cmp', lo, hi)))
                return [(s, v) for s, v in out]
        return None
    # ------------------------------------------------------------------ hooks
    def load(self, eng, st, i, p):
        if i.ty.kind == 'ptr' and p.off.is_const and f"o:st:{p.obj}+{p.off.c}" in st.mem: return Ptr(f"o:vt:{p.obj}+{p.off.c}")
        if p.obj.startswith('o:vt:') and i.ty.kind == 'int': return Lin(0)          # virtual base offset: stay on the stream object
        if i.ty.kind == 'int' and i.ty.width == 8:
            v = self.char_at(st, p)
            if v is None and self.unroll and st.taint is None:
                c = self.content_of_loc(st, p.obj); n = clen(st, c) if c is not None else None
                if c is not None and not (n is not None and st.eq(n, p.off)): st.taint = "character of a composed text"
            return v
        return None
    def char_at(self, st, p):
        """the character at p, traced to the text it was composed of"""
        r = self.rptr(st, p)
        if r.obj != p.obj: return st.byte_leaf(r.obj, r.off)
        c = self.content_of_loc(st, p.obj)
        if c is None: return None
        at = Lin(0)                                             # where the segment begins
        for s in c:
            k = p.off - at
            if s[0] == 'lit':
                if k.is_const and 0 <= k.c < len(s[1]): return ec(8, s[1][k.c])
                if not st.le(Lin(len(s[1])) - k): break
                at = at + len(s[1])
            elif s[0] == 'chr':
                if st.eq(k, Lin(0)): return s[1]
                if not st.le(Lin(1) - k): break
                at = at + 1
            elif s[0] == 'sub':
                if st.le(-k) and st.le(k + 1 - s[3]): return st.byte_leaf(s[1], s[2] + k)
                if not st.le(s[3] - k): break
                at = at + s[3]
            else: break
        return None
    def store(self, eng, st, i, p, v):
        if isinstance(p, Ptr) and 0.25 in st.mem.get(p.obj, {}) and not p.obj.startswith('C|'):
            st.mem[p.obj][0.25] = (0.5, self.unknown())
    def strlen(self, st, p): return None
    def call(self, eng, st, i, name, args):
        self.eng = eng
        r = self.client(eng, st, i, name, args)
        if r is not None: return r
        if name in ('memcmp', 'bcmp', '__builtin_memcmp', 'std::char_traits::compare'): return self.memcmp(st, i, args)
        if name == 'strlen':
            c = self.cstr(st, args[0]); n = clen(st, c)
            if n is not None: return [(st, n)]
            return self.strlen(st, args[0])
        if name in ('memchr', 'std::char_traits::find') : return None
        if name.startswith('std::basic_string_view::'): return self.sv_call(st, i, name, args)
        if name.startswith('std::basic_string::'): return self.str_call(st, i, name, args)
        if name.startswith('std::allocator::'): return [(st, None)]
        if name in ('std::swap',) and 'basic_string<' in demangle(eng.cname(i)): return self.swap(st, args[0], args[1])
        if name.startswith('std::optional::') or name.startswith('std::_Optional_'): return self.opt_call(st, i, name, args)
        if name == 'std::operator+': return self.plus(st, i, args)
        if name in ('std::operator==', 'std::operator!=', 'std::operator<=>', 'std::operator<'): return None
        if name == 'std::to_string':
            v = args[1]
            if isinstance(v, Ex): v = eng.to_lin(st, v)
            self.setstr(st, args[0], (('app', 'num', v),) if isinstance(v, Lin) else self.unknown()); return [(st, None)]
        if name == 'std::format': return self.format(st, i, args)
        if 'stream' in name or name.startswith(('std::basic_ios::', 'std::ios_base::')) or name in ('std::operator<<', 'std::operator>>', 'std::hex', 'std::dec', 'std::oct', 'std::uppercase', 'std::nouppercase', 'std::setfill', 'std::setw'):
            r = self.stream_call(st, i, name, args)
            if r is not None: return r
        if name in ('strtol', 'strtoul', '__isoc23_strtol', '__isoc23_strtoul') and isinstance(args[0], Ptr):
            c = self.content_of_loc(st, args[0].obj); v = self.num_of(st, c, args[2]) if c is not None and args[0].off.is_const and args[0].off.c == 0 else None
            if v is not None: return [(st, Ex('sext', 64, v))]
        if name == 'std::from_chars': return self.from_chars(st, i, args)
        if re.match(r"std::(stoi|stol|stoul|stoll|stoull|stof|stod)$", name):
            v = self.num_of(st, self.sget(st, args[0]), args[2] if len(args) > 2 else Lin(10), True) if isinstance(args[0], Ptr) else None
            if v is not None: return [(st, v if i.ty.width == 32 else Ex('sext', i.ty.width, v))]
            if eng.record: self.throw(eng, st.copy(), i, name)
            return [(st, eng.fresh(st, i.ty, 'sto'))]
        return None
    def client(self, eng, st, i, name, args): return None
    # ------------------------------------------------------------------
    def sv_call(self, st, i, name, args):
        f = name.rsplit('::', 1)[1]
        if f.startswith(('find', 'rfind')):
            d, n = self.svptrlen(st, args[0]); return self.find_call(st, i, name, args, d, n)
        if f == 'compare' and len(args) >= 2:
            d, n = self.svptrlen(st, args[0])
            ps = params(demangle(self.eng.cname(i)))
            c = None
            if len(ps) == 1 and ps[0].startswith('char const*'): c = self.cstr(st, args[1])
            elif len(ps) == 1 and 'basic_string_view' in ps[0] and len(args) == 3: c = self.view(st, args[2], args[1])
            if c is not None and len(c) <= 1 and (not c or c[0][0] == 'lit') and isinstance(n, Lin) and isinstance(d, Ptr) and len(c[0][1] if c else b'') <= 16:
                out = []
                for t, s in self.cmp_lit(st, d, n, c[0][1] if c else b''):
                    if t: out.append((s, Lin(0)))
                    else:
                        for lo, hi in ((1, 1 << 30), (-(1 << 30), -1)): s2 = s.copy(); out.append((s2, s2.newsym('cmp', lo, hi)))
                return out
        return None
    def str_arg(self, st, args, k, ps, j):
        """content denoted by parameter j (IR argument k); -> (content, number of IR args used, params used)"""
        p = ps[j]
        if p == 'char': return ((('chr', args[k]),) if isinstance(args[k], Ex) else self.unknown(), 1, 1)
        if p.startswith('char const*'):
            if j + 1 < len(ps) and ps[j + 1] == 'unsigned long': return self.view(st, args[k], args[k + 1]), 2, 2
            if j + 1 < len(ps) and ps[j + 1].startswith('char const*'):
                a, b = args[k], args[k + 1]
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj: return self.view(st, a, b.off - a.off), 2, 2
                return self.unknown(), 2, 2
            return self.cstr(st, args[k]), 1, 1
        if p == 'char*' and j + 1 < len(ps) and ps[j + 1] == 'char*':
            a, b = args[k], args[k + 1]
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj: return self.view(st, a, b.off - a.off), 2, 2
            return self.unknown(), 2, 2
        if p == 'unsigned long' and j + 1 < len(ps) and ps[j + 1] == 'char':
            n, c = args[k], args[k + 1]
            if isinstance(n, Lin) and n.is_const and 0 <= n.c <= 64 and isinstance(c, Ex): return tuple(('chr', c) for _ in range(n.c)), 2, 2
            return self.unknown(), 2, 2
        if 'basic_string_view' in p:
            if p.endswith(('&', '&&')): return self.svget(st, args[k]), 1, 1
            return self.view(st, args[k + 1], args[k]), 2, 1
        if 'basic_string<' in p and p.endswith(('&', '&&')):
            if j + 2 < len(ps) + 0 and ps[j + 1] == 'unsigned long':
                d, n = self.sptrlen(st, args[k]); pos = args[k + 1]
                ln = args[k + 2] if j + 2 < len(ps) and ps[j + 2] == 'unsigned long' else NPOS
                if isinstance(d, Ptr) and isinstance(pos, Lin) and st.le(pos - n) and isinstance(ln, Lin):
                    if ln.is_const and ln.c in (-1, (1 << 64) - 1): return self.view(st, Ptr(d.obj, d.off + pos), n - pos), 3, 3
                    if st.le(pos + ln - n): return self.view(st, Ptr(d.obj, d.off + pos), ln), 3, 3
                return self.unknown(), 3, 3
            return self.sget(st, args[k]), 1, 1
        if '__normal_iterator' in p and j + 1 < len(ps) and '__normal_iterator' in ps[j + 1]:
            a, b = args[k], args[k + 1]
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj: return self.view(st, a, b.off - a.off), 2, 2
            return self.unknown(), 2, 2
        if 'initializer_list' in p: return self.view(st, args[k], args[k + 1]), 2, 1
        return self.unknown(), 1, 1
    def str_call(self, st, i, name, args):
        f = name.rsplit('::', 1)[1]
        d = demangle(self.eng.cname(i)); ps = params(d); this = args[0]
        if '::operator std::basic_string_view' in d and i.ty.kind == 'struct':
            p, n = self.sptrlen(st, this)
            if isinstance(p, Ptr) and isinstance(n, Lin): return [(st, ('agg', n, p))]
            return None
        if f == 'basic_string':
            if not ps or ps[0].startswith('std::allocator'): self.setstr(st, this, ()); return [(st, None)]
            c, _, _ = self.str_arg(st, args, 1, ps, 0)
            if ps[0].endswith('&&') and 'basic_string<' in ps[0]: return self.move_str(st, this, args[1], c)
            self.setstr(st, this, c); return [(st, None)]
        if f == '~basic_string' or f == '_M_dispose':
            self.kill(st, this); return [(st, None)]
        if f == 'operator=' or f == 'assign':
            if f == 'operator=' and ps and ps[0].endswith('&&') and 'basic_string<' in ps[0]: return self.move_str(st, this, args[1], self.sget(st, args[1]), this)
            c, _, _ = self.str_arg(st, args, 1, ps, 0)
            self.reassign(st, this, c); return [(st, this)]
        if f in ('operator+=', 'append', 'push_back'):
            c, _, _ = self.str_arg(st, args, 1, ps, 0)
            old = self.sget(st, this); new = self.append_to(st, old, c)
            if new and new[0][:2] == ('app', 'acc'):
                d0 = self.sptrlen(st, this)[0]
                self.setstr(st, this, new, d0.obj if isinstance(d0, Ptr) and d0.obj.startswith('o:s') else None)
            else: self.reassign(st, this, new)
            return [(st, this)]
        if f == 'insert' and len(ps) >= 2 and ps[0] == 'unsigned long' and isinstance(args[1], Lin) and args[1].is_const and args[1].c == 0:
            c, _, _ = self.str_arg(st, args, 2, ps, 1); self.reassign(st, this, c + self.sget(st, this)); return [(st, this)]
        if f == 'clear': self.reassign(st, this, ()); return [(st, None)]
        if f in ('reserve', 'shrink_to_fit'):
            if len(args) > 1 or f == 'shrink_to_fit': self.reassign(st, this, self.sget(st, this))
            return [(st, None)]
        if f == 'swap': return self.swap(st, args[0], args[1])
        if f.startswith(('find', 'rfind')):
            p, n = self.sptrlen(st, args[0]); return self.find_call(st, i, name, args, p, n)
        if f == 'substr' and i.sret:
            p, n = self.sptrlen(st, args[1]); pos, ln = args[2], args[3]
            if not all(isinstance(x, Lin) for x in (n, pos, ln)) or not isinstance(p, Ptr): self.setstr(st, args[0], self.unknown()); return [(st, None)]
            out = []
            t = st.copy()
            if not st.le(pos - n):
                if self.eng.record and t.assume_le(n - pos + 1): self.throw(self.eng, t, i, 'std::__throw_out_of_range_fmt')
                if not st.assume_le(pos - n): return []
            if ln.is_const and ln.c in (-1, (1 << 64) - 1): rs = [(st, n - pos)]
            else:
                rs = []
                a = st.copy()
                if a.assume_le(pos + ln - n): rs.append((a, ln))
                b = st.copy()
                if b.assume_le(n - pos - ln + 1): rs.append((b, n - pos))
            for s, l in rs:
                self.setstr(s, args[0], self.view(s, Ptr(p.obj, p.off + pos), l)); out.append((s, None))
            return out
        if f == 'compare': return None
        if f in ('operator[]', 'at', 'data', 'front', 'back', 'begin', 'end'): return None
        if i.sret and isinstance(args[0], Ptr): self.setstr(st, args[0], self.unknown()); return [(st, None)]
        if isinstance(this, Ptr) and not is_const_method(d): self.reassign(st, this, self.unknown())
        if i.ty.kind in ('int', 'ptr'): return [(st, this if i.ty.kind == 'ptr' else self.eng.fresh(st, i.ty, f))]
        return [(st, None)]
    def reassign(self, st, p, c): self.kill(st, p); self.setstr(st, p, c)
    def kill(self, st, p):
        d, n = self.sptrlen(st, p)
        if isinstance(d, Ptr) and d.obj.startswith(('o:s', 'o:L')): st.mem[d.obj] = {0.25: (0.5, (('app', 'dead'),))}; st.clobber_bytes(d.obj)
    def move_str(self, st, dst, src, c, ret=None):
        if ret is not None: self.kill(st, dst)
        self.setstr(st, dst, c); self.setstr(st, src, ())
        return [(st, ret)]
    def swap(self, st, a, b):
        ca, cb = self.sget(st, a), self.sget(st, b)
        (da, na), (db, nb) = self.sptrlen(st, a), self.sptrlen(st, b)
        st.store(a, 8, db); st.store(Ptr(a.obj, a.off + 8), 8, nb); st.store(b, 8, da); st.store(Ptr(b.obj, b.off + 8), 8, na)
        return [(st, None)]
    def plus(self, st, i, args):
        ps = params(demangle(self.eng.cname(i)))
        if not i.sret or not isinstance(args[0], Ptr): return None
        out = (); k = 1
        for j, p in enumerate(ps):
            c, used, _ = self.str_arg(st, args, k, [p], 0); out = out + c; k += used
        self.setstr(st, args[0], out); return [(st, None)]
    # ------------------------------------------------------------------
    def opt_call(self, st, i, name, args):
        f = name.rsplit('::', 1)[1]; d = demangle(self.eng.cname(i)); ps = params(d); this = args[0]
        m = re.search(r"std::(?:optional|_Optional_\w+)<(.*?)(?:, (?:true|false))*>::", d)
        inner = d
        isstr = 'optional<std::__cxx11::basic_string' in d or '_Optional_base<std::__cxx11::basic_string' in d or '_Optional_payload<std::__cxx11::basic_string' in d
        if not isstr:
            if 'unsigned short' in d: return self.opt_num(st, i, f, ps, args)
            return None
        if f.startswith('~'): return [(st, None)]
        if f == 'optional':
            if not ps or 'nullopt_t' in ps[0]: self.setopt(st, this, None); return [(st, None)]
            if 'optional<' in ps[0]:
                o = self.getopt(st, args[1])
                if o is None: st.havoc(this.obj, this.off.c, this.off.c + 40) if this.off.is_const else st.havoc(this.obj)
                else: self.setopt(st, this, o[1] if o[0] == 'some' else None)
                return [(st, None)]
            if 'in_place' in ps[0]:
                c, _, _ = self.str_arg(st, args, 2 if len(args) > len(ps) else 1, ps[1:] or ['?'], 0); self.setopt(st, this, c); return [(st, None)]
            c, _, _ = self.str_arg(st, args, 1, ps, 0); self.setopt(st, this, c); return [(st, None)]
        if f == 'operator=':
            if 'nullopt_t' in ps[0]: self.setopt(st, this, None)
            elif 'optional<' in ps[0] and 'optional<std' in ps[0]:
                o = self.getopt(st, args[1])
                if o is None: st.havoc(this.obj)
                else: self.setopt(st, this, o[1] if o[0] == 'some' else None)
            else:
                c, _, _ = self.str_arg(st, args, 1, ps, 0); self.setopt(st, this, c)
            return [(st, this)]
        if f == 'reset' or f == '_M_reset': self.setopt(st, this, None); return [(st, None)]
        if f == 'emplace' and ps:
            c, _, _ = self.str_arg(st, args, 1, ps, 0); self.setopt(st, this, c); return [(st, this)]
        return None
    def opt_num(self, st, i, f, ps, args):
        this = args[0]
        if f == 'optional':
            if not ps or 'nullopt_t' in ps[0]: st.store(Ptr(this.obj, this.off + 2), 1, ec(8, 0)); return [(st, None)]
            if ps[0].startswith('unsigned short') and isinstance(args[1], Ptr):
                v = st.load(args[1], 2); st.store(this, 2, v if v is not None else st.newsym('port', 0, 65535)); st.store(Ptr(this.obj, this.off + 2), 1, ec(8, 1)); return [(st, None)]
            if isinstance(args[1], Ptr) and 'optional' not in ps[0]:
                z = {'int': 4, 'long': 8, 'unsigned int': 4, 'unsigned long': 8}.get(ps[0].split(' const')[0].rstrip('&'), 2)
                v = st.load(args[1], z)
                st.store(this, 2, ('app', 'trunc16', v) if v is not None else st.newsym('port', 0, 65535)); st.store(Ptr(this.obj, this.off + 2), 1, ec(8, 1)); return [(st, None)]
        return None
    # ------------------------------------------------------------------ streams
    def chars_of(self, st, c, most=2):
        """content as a list of character expressions (at most so many), else None"""
        if c is None: return None
        out = []
        for s in c:
            if s[0] == 'lit': out += [ec(8, b) for b in s[1]]
            elif s[0] == 'chr': out.append(s[1])
            elif s[0] == 'sub':
                n = s[3] if s[3].is_const else next((Lin(j) for j in range(most + 1) if st.eq(s[3], Lin(j))), None)
                if n is None or n.c > most: return None
                out += [st.byte_leaf(s[1], s[2] + j) for j in range(n.c)]
            else: return None
        return out if len(out) <= most and all(isinstance(e, Ex) and e.w == 8 for e in out) else None
    def num_cases(self, st, c, base):
        """like num_of for texts of up to four characters of which a number is read: list of (state, expression or None)"""
        if c is None or base not in (8, 10, 16): return [(st, None)]
        if any(x[0] == 'sub' and not x[3].is_const for x in c):
            k = next(j for j, x in enumerate(c) if x[0] == 'sub' and not x[3].is_const); x = c[k]; out = []
            if st.ub(x[3]) > 4: return [(st, None)]
            for n in range(0, 5):
                t = st.copy()
                if t.assume_eq(x[3] - n) and t.consistent(): out += self.num_cases(t, c[:k] + (('sub', x[1], x[2], Lin(n)),) + c[k + 1:], base)
            return out
        cs = self.chars_of(st, c, 4)
        if not cs: return [(st, None)]
        ok = ISet.of(8, [x for x in range(256) if chr(x) in "0123456789abcdefABCDEF" and int(chr(x), 16) < base])
        out = []; cur = st; n = 0
        for e in cs:
            S = cur.eset(e)
            if S.subset(ok): n += 1; continue
            if S.disjoint(ok) or e.k != 'leaf': break
            t = cur.copy(); t.leaf[e] = S.inter(ok.compl())
            if t.consistent(): out.append((t, n))
            cur = cur.copy(); cur.leaf[e] = S.inter(ok); n += 1
        out.append((cur, n))
        return [(t, Ex('call', 32, f'vf_num{base}', *cs[:m]) if m else ec(32, 0) if t.eset(cs[0]).disjoint(bset(b' \t\n\v\f\r+-')) else None) for t, m in out]
    def num_of(self, st, c, base, digits_only=False):
        """32-bit expression: the integer a short text denotes in a base"""
        b = base.c if isinstance(base, Lin) and base.is_const else base.a[0] if isinstance(base, Ex) and base.k == 'const' else None
        cs = self.chars_of(st, c)
        if not cs or b not in (8, 10, 16): return None
        ok = ISet.of(8, [x for x in range(256) if chr(x) in "0123456789abcdefABCDEF" and int(chr(x), 16) < b])
        if digits_only and not all(st.eset(e).subset(ok) for e in cs): return None
        return Ex('call', 32, f'vf_num{b}', *cs)
    def stloc(self, st, p):
        if not isinstance(p, Ptr) or not p.off.is_const: return None
        best = None
        for k in st.mem:
            if k.startswith('o:st:' + p.obj + '+'):
                o = int(k.rsplit('+', 1)[1])
                if o <= p.off.c < o + 400 and (best is None or o > best[0]): best = (o, k)
        return best[1] if best else None
    def stflag(self, st, loc, k):
        c = st.mem[loc].get(k)
        if c is None: return None
        S = st.eset(c[1]) if isinstance(c[1], Ex) else None
        return S.values()[0] if S is not None and S.size == 1 and isinstance(S.values(), list) else next(iter(S.values())) if S is not None and S.size == 1 else None
    def stout(self, st, loc, c, pad=True):
        w = self.stflag(st, loc, 103); f = self.stflag(st, loc, 102)
        if pad and w != 0:
            n = clen(st, c)
            if w is None or f is None or n is None or not n.is_const: c = self.unknown()
            elif n.c < w: c = (('lit', bytes([f]) * (w - n.c)),) + c
        if pad: st.mem[loc][103] = (1, ec(8, 0))
        old = self.content_of_loc(st, loc)
        self.put(st, loc, cnorm(st, self.append_to(st, old if old is not None else self.unknown(), c)))
    def manip(self, st, loc, n):
        m = re.search(r"_ZSt(?:\d+)(hex|dec|oct|uppercase|nouppercase|showbase|noshowbase|noskipws|skipws)", n)
        k = m.group(1) if m else None
        if k in ('hex', 'dec', 'oct'): st.mem[loc][100] = (1, ec(8, {'hex': 16, 'dec': 10, 'oct': 8}[k]))
        elif k in ('uppercase', 'nouppercase'): st.mem[loc][101] = (1, ec(8, int(k == 'uppercase')))
        elif k in ('noskipws', 'skipws', 'noshowbase'): pass
        else: st.mem[loc].pop(100, None)
    def stream_call(self, st, i, name, args):
        f = name.rsplit('::', 1)[1]; d = demangle(self.eng.cname(i)); ps = params(d); eng = self.eng
        cls = name.split('::')[-2] if '::' in name else ''
        if f in ('basic_ostringstream', 'basic_istringstream', 'basic_stringstream'):
            p = args[0]
            if not isinstance(p, Ptr) or not p.off.is_const: return None
            loc = f"o:st:{p.obj}+{p.off.c}"; c = ()
            if ps and ('basic_string' in ps[0]): c, _, _ = self.str_arg(st, args, 1, ps[:1], 0)
            st.mem[loc] = {100: (1, ec(8, 10)), 101: (1, ec(8, 0)), 102: (1, ec(8, 32)), 103: (1, ec(8, 0))}
            self.put(st, loc, c); return [(st, None)]
        if f.startswith('~'): return [(st, None)]
        if f in ('hex', 'dec', 'oct', 'uppercase', 'nouppercase'):
            loc = self.stloc(st, args[0])
            if loc: self.manip(st, loc, self.eng.cname(i)); return [(st, args[0])]
            return None
        if f in ('setfill', 'setw'): return [(st, args[0])]
        if f in ('good', 'fail', 'bad', 'eof', 'operator bool', 'operator!', 'rdstate'): return None
        this = args[1] if i.sret else args[0]
        loc = self.stloc(st, this)
        if loc is None: return None
        if f == 'fill' and len(args) == 2:
            st.mem[loc][102] = (1, args[1] if isinstance(args[1], Ex) else Ex('leaf', 8, ('u', f'fill#{next(_fresh)}', 0))); return [(st, ec(8, 32))]
        if f == 'width' and len(args) == 2:
            st.mem[loc][103] = (1, ec(8, args[1].c)) if isinstance(args[1], Lin) and args[1].is_const else (1, Ex('leaf', 8, ('u', 'w', 0))); return [(st, Lin(0))]
        if f == 'str' and i.sret:
            self.setstr(st, args[0], self.content_of_loc(st, loc) or ()); return [(st, None)]
        if f == 'str' and ps:
            c, _, _ = self.str_arg(st, args, 1, ps, 0); self.put(st, loc, c); return [(st, None)]
        if f == 'put': self.stout(st, loc, (('chr', args[1]),) if isinstance(args[1], Ex) else self.unknown(), False); return [(st, this)]
        if f == 'write': self.stout(st, loc, self.view(st, args[1], args[2]), False); return [(st, this)]
        if f == 'operator<<':
            q = ps[-1]; v = args[-1]
            if isinstance(v, FnPtr) or '(*)' in d:
                if isinstance(v, FnPtr): self.manip(st, loc, v.name)
                else: st.mem[loc].pop(100, None)
            elif '_Setw' in q:
                x = v.c if isinstance(v, Lin) and v.is_const else v.a[0] if isinstance(v, Ex) and v.k == 'const' else None
                st.mem[loc][103] = (1, ec(8, x)) if x is not None and 0 <= x < 256 else (1, Ex('leaf', 8, ('u', 'w', 0)))
            elif '_Setfill' in q:
                if isinstance(v, Lin) and v.is_const: v = ec(8, v.c)
                st.mem[loc][102] = (1, v if isinstance(v, Ex) else Ex('leaf', 8, ('u', 'f', 0)))
            elif q in ('char', 'unsigned char', 'signed char'): self.stout(st, loc, (('chr', v),) if isinstance(v, Ex) else self.unknown())
            elif q in ('int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short'):
                b, u, w, fl = (self.stflag(st, loc, k) for k in (100, 101, 103, 102))
                if isinstance(v, Lin) and v.is_const and v.c < 2**31: v = ec(32, v.c)
                if None in (b, u, w, fl) or not isinstance(v, Ex): c = self.unknown()
                else: c = (('app', 'fmt', b, u, w, fl, v),)
                st.mem[loc][103] = (1, ec(8, 0)); self.stout(st, loc, c)
            elif 'basic_string' in q or q.startswith('char const*'):
                c, _, _ = self.str_arg(st, args, len(args) - (2 if 'basic_string_view' in q and not q.endswith('&') else 1), [q], 0); self.stout(st, loc, c)
            else: self.stout(st, loc, self.unknown())
            return [(st, this)]
        if f == 'operator>>':
            v = args[-1]; q = ps[-1]
            if isinstance(v, FnPtr): self.manip(st, loc, v.name); return [(st, this)]
            m = re.match(r"(unsigned int|int|unsigned short|short|unsigned long|long)&", q)
            if m and isinstance(v, Ptr):
                W = {'unsigned int': 4, 'int': 4, 'short': 2, 'unsigned short': 2, 'long': 8, 'unsigned long': 8}[m.group(1)]
                b = self.stflag(st, loc, 100)
                out = []
                for t, x in self.num_cases(st, self.content_of_loc(st, loc), b):
                    if x is not None and W == 2: x = Ex('trunc', 16, x)
                    if x is not None and W == 8: x = Ex('sext', 64, x)
                    t.store(v, W, x if x is not None else eng.fresh(t, type('T', (), {'kind': 'int', 'width': 8 * W})(), 'in'))
                    self.put(t, loc, self.unknown()); out.append((t, this))
                return out
            if isinstance(v, Ptr): st.havoc(v.obj)
            self.put(st, loc, self.unknown()); return [(st, this)]
        return None
    # ------------------------------------------------------------------ formatting
    def format(self, st, i, args):
        """std::format(fmt, args...) -> std::string"""
        d = demangle(self.eng.cname(i))
        if not i.sret: return None
        m = re.search(r"std::format<(.*)>\(std::basic_format_string", d)
        a = args[1:]
        if not m: self.setstr(st, args[0], self.unknown()); return [(st, None)]
        types = []; dep = 0; cur = ""
        for c in m.group(1):
            if c in '<({[': dep += 1
            elif c in '>)}]': dep -= 1
            if c == ',' and dep == 0: types.append(cur.strip()); cur = ""
            else: cur += c
        types.append(cur.strip())
        n, p = a[0], a[1]
        fmt = self.view(st, p, n) if isinstance(n, Lin) and isinstance(p, Ptr) else self.unknown()
        vals = a[2:]
        if len(fmt) != 1 or fmt[0][0] != 'lit' or len(vals) != len(types): self.setstr(st, args[0], self.unknown()); return [(st, None)]
        out = (); k = 0; t = fmt[0][1]; j = 0
        while j < len(t):
            ch = t[j:j + 1]
            if ch in (b'{', b'}') and t[j + 1:j + 2] == ch: out += (('lit', ch),); j += 2; continue
            if ch == b'{':
                e = t.index(b'}', j); spec = t[j + 1:e]; j = e + 1
                ix = k
                if spec and not spec.startswith(b':'): ix = int(spec.split(b':')[0])
                else: k += 1
                spec = spec.partition(b':')[2]
                out += self.fmt_arg(st, types[ix], vals[ix], spec) if ix < len(vals) else self.unknown()
                continue
            out += (('lit', ch),); j += 1
        self.setstr(st, args[0], out); return [(st, None)]
    def fmt_arg(self, st, ty, p, spec):
        t = ty.rstrip('&').replace(' const', '').strip()
        if t in ('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>',) and not spec: return self.sget(st, p)
        if t.startswith('std::basic_string_view<') and not spec: return self.svget(st, p)
        if t == 'char' and not spec and isinstance(p, Ptr):
            v = self.eng.val_at(st, p, 1) if hasattr(self.eng, 'val_at') else st.load(p, 1)
            return (('chr', v),) if isinstance(v, Ex) else self.unknown()
        if t in ('char const*', 'char*') and not spec:
            v = st.load(p, 8); return self.cstr(st, v) if v is not None else self.unknown()
        if re.match(r"char(?: const)? ?\[\d+\]", t) or re.match(r"char \(&\)", t) or 'char' in t and '[' in t:
            return self.cstr(st, p)
        W = {'unsigned short': 2, 'unsigned long': 8, 'int': 4, 'long': 8, 'unsigned int': 4, 'unsigned char': 1}
        if t in W and isinstance(p, Ptr):
            v = st.load(p, W[t])
            if v is None and W[t] == 1: v = None
            if isinstance(v, Ex) or isinstance(v, Lin): return (('app', 'num' if not spec else 'num:' + spec.decode(), v),)
        return self.unknown()
    def from_chars(self, st, i, args):
        """integers: value of the longest digit prefix; ptr behind it"""
        d = demangle(self.eng.cname(i)); m = re.search(r"from_chars<([\w ]+)", d)
        b, e, v = args[0], args[1], args[2]
        if not (isinstance(b, Ptr) and isinstance(e, Ptr) and b.obj == e.obj and isinstance(v, Ptr) and m): return None
        W = {'unsigned short': 2, 'unsigned long': 8, 'int': 4, 'long': 8, 'unsigned int': 4, 'short': 2, 'unsigned char': 1}.get(m.group(1))
        if not W: return None
        out = []; n = e.off - b.off; base = args[3] if len(args) > 3 else None
        if isinstance(base, Lin) and base.is_const and base.c != 10:
            x = self.num_of(st, self.view(st, b, n), base, True)
            if x is None or not n.is_const: return None
            st.store(v, W, x if W == 4 else Ex('trunc', 8 * W, x) if W < 4 else Ex('sext', 64, x))
            return [(st, ('agg', e, Lin(0)))]
        src = self.view(st, b, n)
        for kind in ('all', 'part', 'inval', 'range'):
            s = st.copy(); ln = n
            if kind in ('all', 'part') and not s.assume_le(Lin(1) - n): continue
            if kind == 'part':
                ln = s.newsym('len', 1)
                if not s.assume_le(ln - n + 1): continue
            if kind == 'inval': ln = Lin(0)
            if kind == 'range':
                if not s.assume_le(Lin(1) - n): continue
                ln = s.newsym('len', 1)
                if not s.assume_le(ln - n): continue
            if kind in ('all', 'part'):
                x = s.newsym('num', 0, (1 << (8 * W)) - 1)
                s.rel = s.rel + ((('num', kind, src), x),)
                s.store(v, W, x if W > 1 else None)
            else: s.rel = s.rel + ((('num', kind, src), kind),)
            out.append((s, ('agg', Ptr(b.obj, b.off + ln), Lin({'all': 0, 'part': 0, 'inval': 22, 'range': 34}[kind]))))
        return out
