"""serialiser: IoBuffer"""
from ir import Unit
from decide import *
from core import par
import policy
_u = None
def unit():
    global _u
    if _u is None: _u = Unit("iobuffer.cpp", policy.make(extra_inline=[r"^std::(pmr::|__exchange$|vector::(data|_M_data_ptr|size|begin|end|empty)$|array::|span::|basic_string_view::)"],
        extra_opaque=[r"polymorphic_allocator::(allocate|deallocate)$", r"Reallocator::defaultReallocator$", r"ThrowingAllocator::default\w+$", r"select_on_container_copy_construction$"]), passes=policy.UNROLL, extra=policy.ALGOS + ["-fno-access-control"])
    return _u
H = "src/serialiser/include/IoBuffer.hpp"
BIGN = (1 << 31) - 2; MAXC = 1 << 40
P, S, C, N, P2, S2, C2 = (Lin.sym(x) for x in ('P', 'S', 'C', 'n', 'P2', 'S2', 'C2'))
def layout(u):
    from disruptor import const_of
    return {k: const_of(u, f"vf_off_{k}") for k in ('alloc', 'buf', 'pos', 'size', 'cap')}
class Buf(Checked):
    """blocks of memory 'o:x<k>'/'o:y<k>': ts holds, in order, ('block', name, size, resource, base) | ('w', name, offset, length, content) | ('free', name) | ('is'|'not', resource, type)"""
    accelerate = False; addresses_free = True
    def __init__(self, rep, key, lay, finish, reads=None): super().__init__(rep, key); self.lay = lay; self.finish = finish; self.reads = reads
    # -- ghost heap
    def blk(self, st, o):
        for e in st.ts:
            if e[0] == 'block' and e[1] == o: return e
    def freed(self, st, o): return any(e[0] == 'free' and e[1] == o for e in st.ts)
    def log(self, st, *e):
        st.ts = st.ts + (e,)
        if len(st.ts) > 60: raise Budget("too many events")
    def access(self, eng, st, i, p, n, what):
        b = self.blk(st, p.obj)
        if b is None: return False
        R = lambda c, k, d: self.req(eng, st, c, k, i, d)
        R(not self.freed(st, p.obj), "alive", "memory is not used after it was released")
        if self.reads and what == 'read' and p.obj == 'o:x1':
            R(st.le(-p.off) and st.le(p.off + n - S), "reads", f"bytes are read inside the content (offset {st.canon(p.off)}, {st.canon(n)} bytes, size {S})")
        else: R(st.le(-p.off) and st.le(p.off + n - b[2]), "bounds", f"memory is {'read' if what == 'read' else 'written'} inside its allocation (offset {st.canon(p.off)}, {st.canon(n)} bytes of {b[2]})")
        return True
    def lookup(self, st, o, a, b, t=None):
        """content of block o in [a,b) at time t: ('init', block, offset) | ('src', object, offset) | ('val', value, size) | None"""
        t = len(st.ts) if t is None else t
        for k in range(t - 1, -1, -1):
            e = st.ts[k]
            if e[0] == 'w' and e[1] == o:
                lo, hi = e[2], e[2] + e[3]
                if st.le(hi - a) or st.le(b - lo): continue
                if st.le(lo - a) and st.le(b - hi):
                    c = e[4]
                    if c is None: return None
                    if c[0] == 'mem': return self.lookup(st, c[1], c[2] + (a - lo), c[2] + (b - lo), k)
                    if c[0] == 'src': return ('src', c[1], st.canon(c[2] + (a - lo)))
                    if not (st.eq(a, lo) and st.eq(b, hi)): return None
                    if c[0] == 'val' and c[2] == 1 and isinstance(c[1], Ex) and c[1].k == 'leaf' and c[1].a[0][0] == 'b' and self.blk(st, c[1].a[0][1]): return ('init', c[1].a[0][1], c[1].a[0][2])     # a byte copied
                    return c
                return None
            if e[0] == 'block' and e[1] == o:
                base = e[4]
                if base is None: return None
                if base[0] == 'init': return ('init', base[1], st.canon(a))
                if base[0] == 'realloc' and st.le(b - e[2]) and st.le(b - base[2]): return self.lookup(st, base[1], a, b, k)
                return None
        return None
    def same(self, st, c, kind, o, a): return c is not None and c[0] == kind and c[1] == o and st.eq(c[2], a)
    # -- memory instructions
    def inst(self, eng, st, i):
        if i.op == 'store':
            p = eng.val(st, i.ops[1])
            if isinstance(p, Ptr) and self.blk(st, p.obj):
                v = eng.val(st, i.ops[0]); z = i.ops[0].ty.size
                self.access(eng, st, i, p, Lin(z), 'write')
                c = ('val', v, z)
                if isinstance(v, tuple) and v and v[0] == 'from': c = ('mem', v[1], v[2]) if self.blk(st, v[1]) else ('src', v[1], v[2])
                self.log(st, 'w', p.obj, p.off, Lin(z), c); return [st]
        if i.op == 'load':
            p = eng.val(st, i.ops[0])
            if isinstance(p, Ptr) and self.blk(st, p.obj):
                z = i.ty.size; self.access(eng, st, i, p, Lin(z), 'read')
                c = self.lookup(st, p.obj, p.off, p.off + z)
                if c is not None and c[0] == 'val' and c[2] == z: return eng.setv(st, i, c[1])
                if c is not None and z == 1 and c[0] in ('src', 'init'): return eng.setv(st, i, st.byte_leaf(c[1], c[2]))
                if c is None or c[0] != 'init' or c[1] != p.obj: self.open(st, 'read of changed content')
                g = st.mem.setdefault('o:rd', {})
                for k, (s, v) in list(g.items()):
                    if k % 4 == 0 and g[k + 1][1] == st.canon(p.off) and g[k + 2][1] == Lin(z): return eng.setv(st, i, v)
                w = 8 * z
                v = st.byte_leaf(p.obj, p.off) if w == 8 else st.newsym('rd', -(1 << (w - 1)), (1 << (w - 1)) - 1)
                k = 4 * len([x for x in g if x % 4 == 0])
                g[k] = (1, v); g[k + 1] = (1, st.canon(p.off)); g[k + 2] = (1, Lin(z))
                if i.ty.kind not in ('int', 'ptr'): v = None
                if v is None: st.env.pop(i.ref, None); return [st]
                return eng.setv(st, i, v)
        if i.op in ('call', 'invoke'):
            n = getattr(i.callee, 'name', '') or ''
            if n.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')) or n in ('memcpy', 'memmove'):
                d, s, z = (eng.val(st, i.ops[k]) for k in range(3))
                if not isinstance(d, Ptr) or not isinstance(z, Lin):
                    if isinstance(d, Ptr) and self.blk(st, d.obj) or isinstance(s, Ptr) and self.blk(st, s.obj): raise Budget(f"{i.where()}: copy of {z} bytes from {s} to {d}")
                    return None
                db, sb = self.blk(st, d.obj), isinstance(s, Ptr) and self.blk(st, s.obj)
                if sb: self.access(eng, st, i, s, z, 'read')
                if db:
                    self.access(eng, st, i, d, z, 'write')
                    if isinstance(s, Ptr) and s.obj == 'o:src': self.req(eng, st, st.le(-s.off) and st.le(s.off + z - self.src), "source", i, f"the source is read inside its bounds ({st.canon(z)} bytes of {self.src})")
                    c = None
                    if isinstance(s, Ptr): c = ('mem', s.obj, s.off) if sb else ('src', s.obj, s.off)
                    if c and c[0] == 'src' and z.is_const and s.off.is_const:
                        v = st.load(s, z.c)
                        if v is not None: c = ('val', v, z.c)
                    self.log(st, 'w', d.obj, d.off, z, c); return self.done(eng, st, i)
                if sb:
                    if d.off.is_const and z.is_const: st.havoc(d.obj, d.off.c, d.off.c + z.c)
                    else: st.havoc(d.obj)
                    self.log(st, 'out', d.obj, d.off, z, ('mem', s.obj, s.off)); return self.done(eng, st, i)
                if z.is_const and z.c == 0 or isinstance(z, Lin) and st.eq(z, Lin(0)): return self.done(eng, st, i)
                if d.obj == 'null': self.req(eng, st, False, "null", i, f"{st.canon(z)} bytes are written through a null pointer"); return []
        return None
    def done(self, eng, st, i): return [st]
    def null(self, eng, st, i): pass
    def call(self, eng, st, i, name, args):
        f = name.rsplit('::', 1)[-1]; R = lambda c, k, d: self.req(eng, st, c, k, i, d)
        if f == 'allocate' and 'polymorphic_allocator' in name:
            r = st.load(args[0], 8); n = args[1]
            if not isinstance(r, Ptr) or not isinstance(n, Lin): raise Budget(f"{i.where()}: allocation of {n} from {r}")
            o = f"o:y{len(st.ts)}"; self.log(st, 'block', o, n, r.obj, None)
            R(st.le(-n + 1), "alloc", "no empty block is allocated"); return [(st, Ptr(o))]
        if f == 'deallocate' and 'polymorphic_allocator' in name:
            r = st.load(args[0], 8); p = args[1]
            if isinstance(p, Ptr) and p.obj == 'null': return [(st, None)]
            b = self.blk(st, p.obj) if isinstance(p, Ptr) else None
            if b is None: raise Budget(f"{i.where()}: release of {p}")
            R(not self.freed(st, p.obj), "once", "memory is released at most once")
            R(isinstance(r, Ptr) and r.obj == b[3] and p.off == Lin(0), "owner", f"memory is released through the resource it came from ({b[3]}, not {r.obj if isinstance(r, Ptr) else r})")
            R(isinstance(args[2], Lin) and st.eq(args[2], b[2]), "released-size", f"memory is released with the size it was allocated with (released {args[2]}, allocated {b[2]})")
            self.log(st, 'free', p.obj); return [(st, None)]
        if name == 'realloc':
            p, n = args; b = self.blk(st, p.obj) if isinstance(p, Ptr) else None
            if b is None or not isinstance(n, Lin): raise Budget(f"{i.where()}: realloc of {p}")
            R(('is', b[3], 'Reallocator') in st.ts, "owner", f"realloc is applied to malloc'ed memory only (resource {b[3]})")
            R(not self.freed(st, p.obj), "once", "memory is released at most once")
            o = f"o:y{len(st.ts)}"
            t = len(st.ts); self.log(st, 'block', o, n, b[3], ('realloc', p.obj, b[2])); self.log(st, 'free', p.obj)
            return [(st, Ptr(o))]
        if name == '__dynamic_cast':
            p = args[0]; t = 'Reallocator' if 'Reallocator' in repr(getattr(i.ops[2], 'name', i.ops[2])) else 'ThrowingAllocator' if 'ThrowingAllocator' in repr(getattr(i.ops[2], 'name', i.ops[2])) else None
            if t is None or not isinstance(p, Ptr): raise Budget(f"{i.where()}: dynamic_cast of {p}")
            if ('is', p.obj, t) in st.ts: return [(st, p)]
            if ('not', p.obj, t) in st.ts or any(e[0] == 'is' and e[1] == p.obj for e in st.ts): return [(st, Ptr('null'))]
            a, b = st, st.copy(); self.log(a, 'is', p.obj, t); self.log(b, 'not', p.obj, t); return [(a, p), (b, Ptr('null'))]
        if f == 'defaultReallocator': self.log(st, 'is', 'o:defR', 'Reallocator'); return [(st, Ptr('o:defR'))]
        if f == 'defaultNonOwning': self.log(st, 'is', 'o:defN', 'ThrowingAllocator'); return [(st, Ptr('o:defN'))]
        if f == 'defaultOwning': self.log(st, 'is', 'o:defO', 'ThrowingAllocator'); return [(st, Ptr('o:defO'))]
        if f == 'select_on_container_copy_construction': 
            if i.sret: st.store(args[0], 8, Ptr('o:newdel')); return [(st, None)]
            return [(st, Ptr('o:newdel'))]
        if f == 'resize' and 'vector' in name and isinstance(args[0], Ptr) and isinstance(args[1], Lin):
            v = args[0]; st.mem[v.obj] = {0: (8, Ptr('o:out')), 8: (8, Ptr('o:out', args[1] * self.el)), 16: (8, Ptr('o:out', args[1] * self.el))}; return [(st, None)]
        if f == 'basic_string' and len(args) >= 2 and isinstance(args[1], Ptr):
            vp, vn = st.load(args[1], 8), None
            self.log(st, 'str', args[0]); 
            a, b = st.load(args[1], 8), st.load(Ptr(args[1].obj, args[1].off + 8), 8)
            if isinstance(b, Ptr): a, b = b, a
            st.mem['o:r'] = {0: (8, a), 8: (8, b)}
            if isinstance(b, Ptr) and isinstance(a, Lin): self.access(eng, st, i, b, a, 'read')
            return [(st, None)]
        if name in ('free', 'malloc') or f in ('allocator', '~allocator', '~basic_string', 'format', 'out_of_range'): return [(st, Ptr(f"n:{f}") if i.ty.kind == 'ptr' else None)]
        return None
    def throw(self, eng, st, i, name): 
        if name == '__cxa_throw': self.finish(self, eng, st, i, 'throw')
    def ret(self, eng, st, i, v): self.rets += 1; self.finish(self, eng, st, i, v)
    # -- object state
    def obj(self, st, o):
        g = lambda k: st.load(Ptr(o, self.lay[k]), 8)
        return g('buf'), g('pos'), g('size'), g('cap'), g('alloc')
    def valid(self, eng, st, i, o, what):
        """class invariant: the buffer is a live block of `capacity` bytes from the object's own resource, or null with capacity 0; size <= capacity"""
        b, p, s, c, a = self.obj(st, o); R = lambda x, d: self.req(eng, st, x, f"{what}.valid", i, d)
        if not (isinstance(b, Ptr) and isinstance(s, Lin) and isinstance(c, Lin)): self.open(st, 'fields'); R(False, f"fields {b}, {s}, {c}"); return False
        if b.obj == 'null': ok = st.eq(c, Lin(0)) and st.eq(s, Lin(0)); R(ok, f"without memory, size and capacity are 0 (size {s}, capacity {c})"); return ok
        e = self.blk(st, b.obj)
        if e is None: self.open(st, 'buffer'); R(False, f"buffer {b}"); return False
        ok = st.eq(b.off, Lin(0)) and st.eq(c, e[2]) and st.le(s - c) and st.le(-s) and not self.freed(st, b.obj)
        R(ok, f"the buffer is live and has {c} bytes (allocated {e[2]}, size {s}, {'released' if self.freed(st, b.obj) else 'live'})")
        self.req(eng, st, isinstance(a, Ptr) and a.obj == e[3], f"{what}.owner", i, f"the object's memory belongs to its own resource (memory from {e[3]}, object has {a.obj if isinstance(a, Ptr) else a})")
        return ok
    def leak(self, eng, st, i, objs):
        held = {self.obj(st, o)[0].obj for o in objs if isinstance(self.obj(st, o)[0], Ptr)}
        for e in st.ts:
            if e[0] == 'block': self.req(eng, st, e[1] in held or self.freed(st, e[1]), "leak", i, f"no memory is lost ({e[1]})")
    def keeps(self, st, o, src, n):
        """the first n bytes of the object's content are the initial ones of block src"""
        b = self.obj(st, o)[0]
        if st.eq(n, Lin(0)): return True
        return isinstance(b, Ptr) and self.same(st, self.lookup(st, b.obj, Lin(0), n), 'init', src, Lin(0))

def start(lay, objs=('b',), empty=(), n=0):
    """a state with the IoBuffers named (b: P, S, C, block x:1, resource o:res1; o: P2, S2, C2, x:2, o:res2), those in `empty` without memory"""
    st = State(); st.ts = ()
    for s in ('P', 'S', 'C', 'n', 'P2', 'S2', 'C2'): st.z.add(s, '0', MAXC); st.z.add('0', s, 0)
    for k, (p, s, c), x in (('b', (P, S, C), '1'), ('o', (P2, S2, C2), '2')):
        if k not in objs: continue
        if k in empty: st.assume_eq(c); st.assume_eq(s)
        else: st.assume_le(-c + 1); st.ts = st.ts + (('block', f"o:x{x}", c, f"o:res{x}", ('init', f"o:x{x}")),)
        st.assume_le(s - c)
        st.mem[f"o:{k}"] = {lay['alloc']: (8, Ptr(f"o:res{x}")), lay['pos']: (8, p), lay['buf']: (8, Ptr('null') if k in empty else Ptr(f"o:x{x}")), lay['size']: (8, s), lay['cap']: (8, c)}
    return st
SCALAR = {'bool': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'f32': 4, 'f64': 8}
def run_write(rep):
    rep.rule("inductive class invariant (buffer = live block of `capacity` bytes from the own resource or null, size <= capacity) + ghost heap: every operation, from any state satisfying it, stays inside its blocks, keeps the invariant, loses no memory, keeps the existing content and position, and appends exactly the encoded value")
    rep.assume("allocation and realloc succeed; sizes below 2^40, strings and arrays below 2^31-1 elements (their length is an int32 on the wire)")
    u = unit(); lay = layout(u)
    if None in lay.values() or -1 in lay.values(): rep.unk("layout", H, "fields of IoBuffer not found under their names"); return
    def job(rep, f, key, empties, setup, expect, src=Lin(0), keep=lambda st: S):
        def fin(m, eng, st, i, v):
            R = lambda c, k, d: m.req(eng, st, c, k, i, d)
            if v == 'throw': R(False, "throws", "no exception"); return
            if not m.valid(eng, st, i, 'o:b', "object"): return
            b, p, s, c, a = m.obj(st, 'o:b'); k = keep(st)
            m.leak(eng, st, i, ['o:b'])
            R(isinstance(p, Lin) and st.eq(p, Lin(0) if key in ('clear', 'reset') else P), "position", f"the read position is kept ({p})")
            if not st.eq(k, Lin(0)): R(m.keeps(st, 'o:b', 'o:x1', k), "content", f"the first {k} bytes are unchanged")
            at = k
            for kind, x, n in expect(st):
                c_ = m.lookup(st, b.obj, at, at + n)
                if kind == 'src': ok = st.eq(n, Lin(0)) or m.same(st, c_, 'src', 'o:src', Lin(0))
                elif kind == 'val': ok = c_ is not None and c_[0] == 'val' and (isinstance(c_[1], Lin) and isinstance(x, Lin) and st.eq(c_[1], x) or c_[1] == x or isinstance(x, int) and (isinstance(c_[1], Ex) and truth(st, c_[1]) is False and x == 0))
                elif kind == 'any': ok = True
                R(ok, "appended", f"{kind} {x if kind == 'val' else ''} of {n} bytes is written at {at} (found {c_})"); at = at + n
            R(st.eq(s, at), "size", f"the size is {at} (found {s})")
            if key in ('reserve', 'spare'): R(st.le((N if key == 'reserve' else S + N) - c), "capacity", f"the capacity is at least what was asked for ({c})")
        for e in empties:
            def init(fn):
                st = start(lay, empty=e); st.env[fn.args[0].ref] = Ptr('o:b'); setup(st, fn); return [st]
            def mk(): m = Buf(rep, key, lay, fin); m.src = src; return m
            decide(rep, u.fn(f"vf_{f}"), mk, init, key, H)
    both = ((), ('b',)); jobs = []
    J = lambda *a, **k: jobs.append(lambda r: job(r, *a, **k))
    V = Lin.sym('v')
    for t, z in SCALAR.items():
        def setup(st, fn, z=z):
            st.env[fn.args[1].ref] = Ptr('o:v')
            if z > 1: st.z.add('v', '0', 1 << 62); st.z.add('0', 'v', 1 << 62)
            st.mem['o:v'] = {0: (z, V if z > 1 else st.byte_leaf('o:v', Lin(0)))}
        J(f"put_{t}", f"put({t})", both, setup, lambda st, z=z: [('val', V if z > 1 else st.byte_leaf('o:v', Lin(0)), Lin(z))])
    def sv(st, fn): st.z.add('n', '0', BIGN); st.env[fn.args[1].ref] = Ptr('o:v'); st.mem['o:v'] = {0: (8, N), 8: (8, Ptr('o:src'))}
    J("put_str", "put(string)", both, sv, lambda st: [('val', N + 1, Lin(4)), ('src', 0, N), ('val', 0, Lin(1))], src=N)
    J("put_raw", "put<WITHOUT>(string)", both, sv, lambda st: [('src', 0, N)], src=N)
    for t, z in (('vi8', 1), ('vi32', 4), ('vf64', 8)):
        def vec(st, fn, z=z): st.z.add('n', '0', BIGN); st.env[fn.args[1].ref] = Ptr('o:v'); st.mem['o:v'] = {0: (8, Ptr('o:src')), 8: (8, Ptr('o:src', N * z)), 16: (8, Ptr('o:src', N * z))}
        J(f"put_{t}", f"put(vector<{t[1:]}>)", both, vec, lambda st, z=z: [('val', N, Lin(4)), ('src', 0, N * z)], src=N * z)
    def arr(st, fn): st.env[fn.args[1].ref] = Ptr('o:src')
    J("put_af32", "put(array<f32,5>)", both, arr, lambda st: [('val', Lin(5), Lin(4)), ('src', 0, Lin(20))], src=Lin(20))
    num = lambda st, fn: st.env.__setitem__(fn.args[1].ref, N)
    none = lambda st, fn: None
    J("reserve", "reserve", both, num, lambda st: []); J("spare", "spare", both, num, lambda st: []); J("shrink", "shrink_to_fit", both, none, lambda st: [])
    J("reset", "reset", both, none, lambda st: []); J("clear", "clear", both, none, lambda st: [], keep=lambda st: Lin(0))
    J("resize", "resize", both, num, lambda st: [('any', 0, (N - S) if st.le(S - N) else Lin(0))], keep=lambda st: S if st.le(S - N) else N)
    par(rep, jobs)
def run_special(rep):
    rep.rule("ghost heap with the owning memory resource of every block: after construction, copy, move and assignment (also to itself) every object satisfies the class invariant, memory is released exactly once and through the resource it came from, a copy has its own memory and the same content, size and position, the source of a copy is untouched")
    rep.assume("allocation and realloc succeed; sizes below 2^40")
    u = unit(); lay = layout(u)
    if None in lay.values() or -1 in lay.values(): rep.unk("layout", H, "fields of IoBuffer not found under their names"); return
    def job(rep, f, key, objs, empty, setup, check, src=Lin(0), two=False):
        def fin(m, eng, st, i, v):
            R = lambda c, k, d: m.req(eng, st, c, k, i, d)
            if v == 'throw': R(False, "throws", "no exception"); return
            check(m, eng, st, i, R)
        def init(fn):
            st = start(lay, objs, empty); setup(st, fn); return [st]
        def mk(): m = Buf(rep, key, lay, fin); m.src = src; return m
        decide(rep, u.fn(f"vf_{f}"), mk, init, key, H)
    def at(*names):
        def s(st, fn):
            for k, n in enumerate(names): st.env[fn.args[k].ref] = n if isinstance(n, Lin) else Ptr(n)
        return s
    def is_(m, st, o, p, s): b = m.obj(st, o); return isinstance(b[1], Lin) and isinstance(b[2], Lin) and st.eq(b[1], p) and st.eq(b[2], s)
    def untouched(m, st, o, want): return m.obj(st, o) == want and not any(e[0] in ('w', 'free') and isinstance(want[0], Ptr) and e[1] == want[0].obj for e in st.ts)
    def dtor(m, eng, st, i, R):
        for e in st.ts:
            if e[0] == 'block': R(m.freed(st, e[1]), "released", f"the destructor releases the memory ({e[1]})")
        R(True, "done", "returns")
    def ctor(size, content, cap=None):
        def c(m, eng, st, i, R):
            if not m.valid(eng, st, i, 'o:b', "object"): return
            b = m.obj(st, 'o:b'); m.leak(eng, st, i, ['o:b'])
            R(is_(m, st, 'o:b', Lin(0), size), "fields", f"position 0 and size {size} (found {b[1]}, {b[2]})")
            if cap is not None: R(st.le(cap - b[3]), "capacity", f"capacity of at least {cap} (found {b[3]})")
            if content: R(st.eq(size, Lin(0)) or m.same(st, m.lookup(st, b[0].obj, Lin(0), size), 'src' if content == 'o:src' else 'init', content, Lin(0)), "content", "the content is a copy of the data given" if content == 'o:src' else "the content is the memory given")
        return c
    def copied(other, own):
        def c(m, eng, st, i, R):
            ok = m.valid(eng, st, i, 'o:b', "object")
            if not m.valid(eng, st, i, 'o:o', "source") or not ok: return
            b = m.obj(st, 'o:b'); m.leak(eng, st, i, ['o:b', 'o:o'])
            R(is_(m, st, 'o:b', P2, S2), "fields", f"position and size are those of the source (found {b[1]}, {b[2]})")
            R(st.eq(S2, Lin(0)) or m.keeps(st, 'o:b', 'o:x2', S2), "content", "the content equals that of the source")
            if own: R(untouched(m, st, 'o:o', other) and (b[0].obj == 'null' or b[0] != other[0]), "separate", "the source is unchanged and shares no memory with the copy")
        return c
    jobs = []
    J = lambda *a, **k: jobs.append(lambda r: job(r, *a, **k))
    for e in ((), ('b',)): J("dtor", "destructor", ('b',), e, at('o:b'), dtor)
    J("ctor_n", "IoBuffer(capacity)", (), (), at('o:b', N), ctor(Lin(0), None, N))
    J("ctor_data", "IoBuffer(data, size)", (), (), at('o:b', 'o:src', N), ctor(N, 'o:src'), src=N)
    def span(st, fn): at('o:b', 'o:x3', N)(st, fn); st.ts = st.ts + (('block', 'o:x3', N, 'o:defN', ('init', 'o:x3')),)
    J("ctor_span", "IoBuffer(span)", (), (), span, ctor(N, 'o:x3'))
    F = lambda e: (Ptr('null') if e else Ptr('o:x2'), P2, S2, C2, Ptr('o:res2'))
    for e2 in (False, True):
        em = ('o',) if e2 else ()
        J("copy", "copy construction", ('o',), em, at('o:b', 'o:o'), copied(F(e2), True))
        J("move", "move construction", ('o',), em, at('o:b', 'o:o'), copied(F(e2), False))
        for e1 in (False, True):
            J("copyassign", "copy assignment", ('b', 'o'), em + (('b',) if e1 else ()), at('o:b', 'o:o'), copied(F(e2), True))
            J("moveassign", "move assignment", ('b', 'o'), em + (('b',) if e1 else ()), at('o:b', 'o:o'), copied(F(e2), False))
    def selfc(m, eng, st, i, R):
        if not m.valid(eng, st, i, 'o:b', "object"): return
        m.leak(eng, st, i, ['o:b'])
        R(is_(m, st, 'o:b', P, S), "fields", "position and size are kept"); R(st.eq(S, Lin(0)) or m.keeps(st, 'o:b', 'o:x1', S), "content", "the content is kept")
    for e in ((), ('b',)):
        J("copyassign", "self copy assignment", ('b',), e, at('o:b', 'o:b'), selfc); J("moveassign", "self move assignment", ('b',), e, at('o:b', 'o:b'), selfc)
    par(rep, jobs)

def run_read(rep):
    rep.rule("every read, from any state with position <= size and whatever the bytes are: bytes are read inside the content only; get<T>() returns the bytes at the position and advances by sizeof(T); a string/array returns the bytes behind its length field and advances behind them when the length field fits, and never goes beyond the content when it does not; skip/at/asString refuse what is outside")
    rep.assume("sizes below 2^40")
    u = unit(); lay = layout(u)
    if None in lay.values() or -1 in lay.values(): rep.unk("layout", H, "fields of IoBuffer not found under their names"); return
    L = lambda st: st.mem.get('o:rd', {}).get(0, (1, None))[1]
    def job(rep, f, key, setup, check, empty=(), el=1):
        def fin(m, eng, st, i, v):
            R = lambda c, k, d: m.req(eng, st, c, k, i, d)
            b, p, s, c, a = m.obj(st, 'o:b')
            R(isinstance(b, Ptr) and b.obj == ('null' if empty else 'o:x1') and isinstance(s, Lin) and st.eq(s, S) and st.eq(c, C) and not any(e[0] in ('w', 'free') for e in st.ts), "unchanged", "reading changes neither the content nor its size")
            R(isinstance(p, Lin) and st.le(p - S), "inside", f"the position stays inside the content (position {p}, size {S})")
            check(m, eng, st, i, R, v, p)
        def init(fn):
            st = start(lay, ('b',), empty); st.assume_le(P - S); st.env[fn.args[0].ref] = Ptr('o:b'); setup(st, fn); return [st]
        def mk(): m = Buf(rep, key, lay, fin, reads=True); m.src = Lin(0); m.el = el; return m
        decide(rep, u.fn(f"vf_{f}"), mk, init, key, H)
    jobs = []
    J = lambda *a, **k: jobs.append(lambda r: job(r, *a, **k))
    none = lambda st, fn: None
    def avail(n): return lambda st, fn: st.assume_le(P + n - S)
    for t, z in SCALAR.items():
        def got(m, eng, st, i, R, v, p, z=z, t=t):
            g = st.mem.get('o:rd', {})
            R(st.eq(p, P + z), "advance", f"the position advances by {z} (to {p})")
            outs = [e for e in st.ts if e[0] == 'out']
            ok = bool(outs) and st.eq(outs[-1][3], Lin(z)) and st.eq(outs[-1][4][2], P) or (g and g[1][1] == st.canon(P) and g[2][1] == Lin(z)) or t in ('bool', 'i8') and any(x.a[0][1] == 'o:x1' and st.eq(x.a[0][2], P) for x in st.leaf if x.a[0][0] == 'b')
            R(ok, "value", f"the bytes at the position are read (reads {outs or g})")
            if g and isinstance(v, Lin): R(st.eq(v, g[0][1]), "result", f"and returned (returned {v})")
        J(f"get_{t}", f"get<{t}>", avail(z), got)
    def view(m, eng, st, i, R, v, p):
        l = L(st); r = st.mem.get('o:r', {}); a, b = r.get(0, (8, None))[1], r.get(8, (8, None))[1]
        if isinstance(a, Ptr): a, b = b, a
        if not isinstance(l, Lin) or not isinstance(a, Lin) or not isinstance(b, Ptr): m.open(st, 'result'); R(False, "result", f"length field {l}, result {b}, {a}"); return
        R(b.obj == 'o:x1' and st.le(-b.off) and st.le(-a) and st.le(b.off + a - S), "view", f"the string lies inside the content (offset {b.off}, {a} characters, size {S})")
        for s in eng.assume_cmp(st.copy(), 'sge', l, Lin(1), 64):
            for s2 in eng.assume_cmp(s, 'sle', l, S - P - 4, 64):
                m.req(eng, s2, s2.eq(b.off, P + 4) and s2.eq(a, l - 1) and s2.eq(p, P + 4 + l), "string", i, f"a complete string is the {l}-1 characters behind the length field, the position moves behind its terminator (offset {b.off}, {a} characters, position {p})")
    J("get_sv", "get<string_view>", lambda st, fn: (st.env.__setitem__(fn.args[0].ref, Ptr('o:r')), st.env.__setitem__(fn.args[1].ref, Ptr('o:b')), st.assume_le(P + 4 - S)), view)
    J("get_str", "get<string>", lambda st, fn: (st.env.__setitem__(fn.args[0].ref, Ptr('o:q')), st.env.__setitem__(fn.args[1].ref, Ptr('o:b')), st.assume_le(P + 4 - S)), view)
    for t, z in (('vi32', 4), ('vf64', 8)):
        def vec(m, eng, st, i, R, v, p, z=z):
            l = L(st); e = st.mem.get('o:v', {}).get(8, (8, None))[1]; outs = [x for x in st.ts if x[0] == 'out' and x[1] == 'o:out']
            if not isinstance(l, Lin) or not isinstance(e, Ptr): m.open(st, 'result'); R(False, "result", f"length field {l}, result {e}"); return
            for s in eng.assume_cmp(st.copy(), 'sge', l, Lin(0), 64):
                q = next((Lin.sym(b[0]) for (e2, k), b in s.defs.items() if k == z and s.eq(e2, S - P - 4)), None)        # bytes left / element size
                for s2 in eng.assume_cmp(s, 'sle', l, q, 64) if q is not None else eng.assume_cmp(s, 'sle', l * z, S - P - 4, 64):
                    ok = s2.eq(e.off, l * z) and s2.eq(p, P + 4 + l * z) and (s2.eq(l, Lin(0)) or bool(outs) and s2.eq(outs[-1][3], l * z) and s2.eq(outs[-1][4][2], P + 4) and s2.eq(outs[-1][2], Lin(0)))
                    m.req(eng, s2, ok, "array", i, f"a complete array is the {l} elements behind the length field, the position moves behind them (array ends at {e.off}, position {p})")
            for x in outs: R(st.le(x[2] + x[3] - e.off), "target", f"elements are written inside the vector ({x[3]} bytes into {e.off})")
        J(f"get_{t}", f"getArray(vector<{t[1:]}>)", lambda st, fn: (st.env.__setitem__(fn.args[1].ref, Ptr('o:v')), st.mem.__setitem__('o:v', {}), st.assume_le(P + 4 - S)), vec, el=z)
    K = Lin.sym('k')
    def isk(st): st.z.add('k', '0', (1 << 31) - 1); st.z.add('0', 'k', 1 << 31)
    def skip(m, eng, st, i, R, v, p):
        if v == 'throw':
            R(st.eq(p, P), "refused", f"a refused skip leaves the position ({p})")
            for s in eng.assume_cmp(st.copy(), 'sge', P + K, Lin(0), 64):
                for s2 in eng.assume_cmp(s, 'sle', P + K, S, 64): m.req(eng, s2, False, "needless", i, "a skip to a place inside the content is not refused")
        else: R(st.eq(p, P + K) and st.le(-p), "moved", f"the position moves by the amount given, to a place inside the content ({p})")
    J("skip", "skip", lambda st, fn: (isk(st), st.env.__setitem__(fn.args[1].ref, K)), skip)
    for f, z in (('at', 1), ('at4', 4)):
        def at(m, eng, st, i, R, v, p, z=z):
            if v == 'throw':
                for s in eng.assume_cmp(st.copy(), 'sle', N + z, S, 64): m.req(eng, s, False, "needless", i, "an element inside the content is not refused")
            else: R(isinstance(v, Ptr) and v.obj == 'o:x1' and st.eq(v.off, N) and st.le(v.off + z - S), "element", f"the element returned is the one at the index and inside the content ({v}, {z} bytes, size {S})")
        J(f, f"at<{'uint8' if z == 1 else 'int32'}>", lambda st, fn: st.env.__setitem__(fn.args[1].ref, N), at)
    def text(m, eng, st, i, R, v, p):
        r = st.mem.get('o:r', {}); a, b = r.get(0, (8, None))[1], r.get(8, (8, None))[1]
        if isinstance(a, Ptr): a, b = b, a
        if v == 'throw':
            for s in eng.assume_cmp(st.copy(), 'sle', N, S, 64):
                for s2 in eng.assume_cmp(s.copy(), 'slt', K, Lin(0), 64): m.req(eng, s2, False, "needless", i, "a range inside the content is not refused")
                for s2 in eng.assume_cmp(s.copy(), 'sge', K, Lin(0), 64):
                    for s3 in eng.assume_cmp(s2, 'sle', N + K, S, 64): m.req(eng, s3, False, "needless", i, "a range inside the content is not refused")
            return
        if not isinstance(a, Lin) or not isinstance(b, Ptr): m.open(st, 'result'); R(False, "result", f"result {b}, {a}"); return
        R(b.obj == 'o:x1' and st.eq(b.off, N) and st.le(-a) and st.le(N + a - S), "range", f"the text starts at the index and lies inside the content (offset {b.off}, {a} characters, size {S})")
        for s in eng.assume_cmp(st.copy(), 'slt', K, Lin(0), 64): m.req(eng, s, s.eq(a, S - N), "all", i, f"without a size it reaches to the end ({a} characters)")
        for s in eng.assume_cmp(st.copy(), 'sge', K, Lin(0), 64): m.req(eng, s, s.eq(a, K), "size", i, f"it has the size asked for ({a} characters)")
    J("asstring", "asString", lambda st, fn: (isk(st), st.env.__setitem__(fn.args[0].ref, Ptr('o:r')), st.env.__setitem__(fn.args[1].ref, Ptr('o:b')), st.env.__setitem__(fn.args[2].ref, N), st.env.__setitem__(fn.args[3].ref, K)), text)
    par(rep, jobs)
