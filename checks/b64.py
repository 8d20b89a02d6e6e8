"""base64pp: RFC 4648 encoding/decoding, decided on the normalised IR of encode() and decode()."""
from ir import Unit
from relint import *
from decide import Checked, decide
import policy

ALPHA = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
IDX = {c: i for i, c in enumerate(ALPHA)}
ASET = ISet.of(8, ALPHA)
PAD = 61
_unit = None
def unit():
    global _unit
    if _unit is None:
        _unit = Unit("base64.cpp", policy.make(), extra=policy.ALGOS + ["-D_GLIBCXX_ASSERTIONS"], passes=policy.UNROLL)
    return _unit

def emitted(eng, st, i, name, args):
    """characters appended to an output container by a call: list of Ex, or None if the call is not an append"""
    n = name.rsplit('::', 1)[-1]
    if not name.startswith(('std::basic_string::', 'std::vector::')): return None
    if n in ('push_back', 'emplace_back') and len(args) == 2:
        v = args[1]
        if isinstance(v, Ptr):
            v = byte_at(eng, st, v)
        return [v]
    if n == 'operator+=' and len(args) == 2 and isinstance(args[1], Ex): return [args[1]]
    if n == 'append' and len(args) == 3 and isinstance(args[1], Lin) and args[1].is_const and isinstance(args[2], Ex) and args[1].c <= 8: return [args[2]] * args[1].c
    if n == 'append' and len(args) == 3 and isinstance(args[1], Ptr) and isinstance(args[2], Lin) and args[2].is_const and args[2].c <= 16:
        out = []
        for k in range(args[2].c):
            out.append(byte_at(eng, st, Ptr(args[1].obj, args[1].off + k)))
        return out
    if n in ('operator+=', 'append') and len(args) == 2 and isinstance(args[1], Ptr):
        gb = eng.gbytes(args[1].obj)
        if gb is not None and args[1].off.is_const: return [ec(8, c) for c in gb[args[1].off.c:].split(b"\0")[0]]
        return [None]
    if n in ('reserve', 'size', 'length', 'capacity', 'empty', 'data', 'begin', 'end', 'back', 'vector', 'basic_string', '~vector', '~basic_string', 'shrink_to_fit', 'max_size'): return None
    return [None]

def byte_at(eng, st, p):
    p = eng.cptr(st, p)
    x = st.load(p, 1)
    if x is not None: return x
    gb = eng.gbytes(p.obj)
    if gb is not None and p.off.is_const and 0 <= p.off.c < len(gb): return ec(8, gb[p.off.c])
    if p.off.is_const:
        for o, (sz, v) in st.mem.get(p.obj, {}).items():
            if o <= p.off.c < o + sz and isinstance(v, Ex):
                return Ex('trunc', 8, Ex('op', v.w, 'lshr', v, ec(v.w, 8 * (p.off.c - o))))
    if p.obj.startswith('a:'): return None
    return st.byte_leaf(p.obj, p.off)

class Tier(Checked):
    """obligations by full name; a failed one is a violation only on an exact state"""
    def rq(self, st, cond, key, where, detail):
        if cond: self.rep.ok(key, where, detail)
        else: self.bad(st, key, where, detail)

class Enc(Tier):
    def __init__(self, rep): Checked.__init__(self, rep, "encode"); self.quads = 0
    def pos(self, st): return st.mem['o:vf'][0][1]
    def call(self, eng, st, i, name, args):
        em = emitted(eng, st, i, name, args)
        if em is None: return None
        for c in em:
            if c is None: raise Budget(f"{i.where()}: appends a value the analysis cannot express ({name})")
            st.ts = st.ts + (c,)
            if len(st.ts) == 4:
                if None not in st.ts: self.quad(eng, st, i)
                else: st.mem['o:vf'][0] = (8, st.newsym('pos'))
                st.ts = ()
        return [(st, None)]
    def quad(self, eng, st, i):
        cur = self.pos(st); n = Lin.sym('n'); rep = self.rep
        pads = sum(1 for c in st.ts if c.k == 'const' and c.a[0] == PAD)
        k = 3 - pads
        rec = eng.record
        if pads > 2 or any(st.ts[j].k == 'const' and st.ts[j].a[0] == PAD for j in range(0, 4 - pads)):
            if rec: self.bad(st, f"encode.quad.pad{pads}.place", i.where(), f"padding characters are not the last {pads} of the group: {st.ts}")
            return
        key = f"encode.quad.{k}bytes"
        bytes_ = [st.byte_leaf('o:in', cur + j) for j in range(k)]
        want = []
        src = [0] * 24
        for j in range(k):
            for b in range(8): src[8 * (2 - j) + b] = (bytes_[j], b)
        good = True; why = ""
        for j in range(4 - pads):
            w = src[18 - 6 * j: 24 - 6 * j]
            ok, msg = self.symbol_ok(st, st.ts[j], w)
            if not ok: good = False; why = f"character {j} of the group: {msg}"; break
        inb = st.le(cur + k - n)
        tail = pads == 0 or st.eq(cur + k, n)
        if rec:
            self.quads += 1
            self.rq(st, good, key + ".bits", i.where(), why or f"each of the {4-pads} characters is alphabet[6 bits of the {k} input bytes at the cursor, MSB first, zero filled]")
            self.rq(st, inb, key + ".bounds", i.where(), f"the {k} bytes read at the cursor lie inside the input")
            self.rq(st, tail, key + ".tail", i.where(), "a padded group is only emitted for the last bytes of the input")
        st.mem['o:vf'][0] = (8, cur + k)
    def symbol_ok(self, st, e, want):
        """e == ALPHA[index whose bits are want] for all inputs"""
        e = untangle(e)
        if e.k == 'tab':
            t = e.a[0]; ib = bits(e.a[1], st)
            sc, off = e.a[2], e.a[3]
            if sc == 1 and off == 0 and ib[:6] == want and all(x == 0 for x in ib[6:]):
                # table entries reachable through these bits
                free = [x for x in want if x != 0]
                for v in range(64):
                    if any(want[b] == 0 and (v >> b) & 1 for b in range(6)): continue
                    if v >= len(t) or t[v] != ALPHA[v]: return False, f"alphabet entry {v} is {t[v:v+1]!r}, RFC 4648 says {ALPHA[v:v+1]!r}"
                return True, ""
        lv = sorted(e.lv, key=str); need = {x[0] for x in want if x != 0}
        n = 1
        for l in set(lv) | need: n *= st.leaf.get(l, ISet.top(8)).size
        ls = list(set(lv) | need)
        if n <= 70000:
            for combo in itertools.product(*[list(st.leaf.get(l, ISet.top(8)).values()) for l in ls]):
                m = dict(zip(ls, combo)); v = sum(((m[w[0]] >> w[1]) & 1) << b for b, w in enumerate(want) if w != 0)
                r = conc(e, m)
                if r != ALPHA[v]: return False, f"for input byte(s) {combo} it is {r}, RFC 4648 says {ALPHA[v]}"
            return True, ""
        # bit-level comparison of an index expression failed
        if e.k == 'tab': return False, f"index bits {[self.b(x) for x in bits(e.a[1], st)[:6]]} differ from {[self.b(x) for x in want]}"
        return False, "not expressible"
    def b(self, x): return f"{x[0].a[0][2]}.{x[1]}" if isinstance(x, tuple) else str(x)
    def ret(self, eng, st, i, val):
        if not st.consistent(): return
        self.rets += 1
        cur = self.pos(st)
        self.rq(st, st.ts == () and st.eq(cur, Lin.sym('n')), "encode.return.complete", i.where(),
                         f"at return every input byte has been encoded and no partial group is pending (cursor {cur}, pending {len(st.ts)})")
    def throw(self, eng, st, i, name):
        if 'assert' in name or 'out_of_range' in name:
            self.bad(st, "encode.noassert", i.where(), f"{name} reachable (out-of-range access)")

def init(fn):
    st = State()
    st.z.add('0', 'n', 0); st.z.add('n', '0', BIG)
    out, p, n = fn.args
    st.env[out.ref] = Ptr('o:out'); st.env[p.ref] = Ptr('o:in'); st.env[n.ref] = Lin.sym('n')
    st.mem['o:vf'] = {0: (8, Lin(0))}
    return st

def run_encode(rep):
    u = unit(); fn = u.fn("vf_encode"); rep.fn("base64pp::encode", "base64pp::detail::encode_tripplet")
    rep.rule("relational abstract interpretation with a cursor ghost variable: every 4-character group emitted by encode() must be the RFC 4648 image of the next 3/2/1 input bytes (bit-provenance domain + constant-table check); at return the cursor equals the input length")
    last = []
    def mk(): last.append(Enc(rep)); return last[-1]
    rep.ok("encode.noassert", fn.where(), "no assertion / out_of_range call reachable")
    decide(rep, fn, mk, lambda fn: [init(fn)], "encode.")
    m = last[0]
    if not m.rets: rep.unk("encode.return", fn.where(), "no return reached")
    for k in (1, 2, 3):
        if f"encode.quad.{k}bytes.bits" not in rep.obl and "encode..budget" not in rep.obl:
            rep.bad(f"encode.quad.{k}bytes.bits", fn.where(), f"no group for {k} remaining byte(s) is ever emitted")
    counters(rep, u, fn, "encode")
    rep.sites += m.quads

def counters(rep, u, fn, key):
    """what is left undecided because a loop counter wraps: the counter is narrower than the bound it runs up to"""
    if all(o['status'] == 'proved' for k, o in rep.obl.items() if k.startswith(key + '.')): return
    for i, w in narrow(fn): rep.bad(f"{key}.counter", i.where(), f"the loop counter has {w} bits and wraps around before it reaches the length of a longer input")

def narrow(fn):
    """loop counters of fewer than 64 bits that step by a constant and are widened to be compared with a 64-bit loop-invariant value,
    and 64-bit counters of which only the low 8..32 bits are used as position"""
    out = []; isref = lambda o, S: o.kind == 'inst' and o.ref in S
    insts = [i for b in fn.blocks for i in b.insts]
    for h in fn.blocks:
        for p in h.insts:
            if p.op != 'phi': break
            if p.ty.kind != 'int' or p.ty.width < 8: continue
            steps = [v for v, b in p.incoming if v.kind == 'inst' and v.op == 'add' and any(isref(o, {p.ref}) for o in v.ops) and any(o.kind == 'int' for o in v.ops)]
            if not steps: continue
            refs = {p.ref} | {v.ref for v in steps}
            if p.ty.width <= 32:
                wide = {i.ref for i in insts if i.op in ('zext', 'sext') and i.ty.width == 64 and isref(i.ops[0], refs)}
                out += [(i, p.ty.width) for i in insts if i.op == 'icmp' and any(isref(o, wide) for o in i.ops) and not any(o.kind == 'int' for o in i.ops)]
                continue
            for _ in range(4): refs |= {i.ref for i in insts if i.op in ('add', 'mul', 'shl') and i.ty.kind == 'int' and i.ty.width == 64 and any(isref(o, refs) for o in i.ops) and any(o.kind == 'int' for o in i.ops)}
            for i in insts:
                if i.op == 'and' and isref(i.ops[0], refs) and i.ops[1].kind == 'int' and i.ops[1].value in (0xff, 0xffff, 0xffffffff): out.append((i, i.ops[1].value.bit_length()))
                if i.op == 'trunc' and i.ty.width in (8, 16, 32) and isref(i.ops[0], refs) and any(j.op in ('zext', 'sext') and j.ty.width == 64 and isref(j.ops[0], {i.ref}) for j in insts): out.append((i, i.ty.width))
    return out

class Dec(Tier):
    """ghost cells: 0 = cursor in the input"""
    def __init__(self, rep): Checked.__init__(self, rep, "decode"); self.groups = 0; self.acc = 0; self.rej = 0
    def call(self, eng, st, i, name, args):
        if name.startswith('std::optional::optional') or name == 'std::optional::optional':
            ps = params(i.callee.dname)
            if ps and 'nullopt_t' in ps[0]: st.ts = ('reject',)
            elif ps and args and isinstance(args[0], Ptr) and args[0].obj == 'o:out': st.ts = ('accept',) + st.ts
            return [(st, None)]
        em = emitted(eng, st, i, name, args)
        if em is None: return None
        for c in em:
            if c is None: raise Budget(f"{i.where()}: appends a value the analysis cannot express ({name})")
            st.ts = st.ts + (c,)
            if len(st.ts) == 3 and None not in st.ts: self.group(eng, st, i, 3)
        return [(st, None)]
    def sixbits(self, st, leaf):
        """expected 6-bit value of an alphabet leaf as tagged bits"""
        return [(leaf, b) for b in range(6)]
    def group(self, eng, st, i, k):
        """k output bytes = first k bytes of the 4 symbols at the cursor"""
        rep = self.rep; n = Lin.sym('n'); cur = st.mem['o:vf'][0][1]; rec = eng.record
        key = f"decode.group.{k}bytes"
        leaves = [st.byte_leaf('o:in', cur + j) for j in range(k + 1)]
        good, why = True, ""
        for j, l in enumerate(leaves):
            if not st.leaf[l].subset(ASET):
                extra = st.leaf[l].inter(ASET.compl())
                good = False; why = f"symbol {j} of a decoded group may be a byte outside the base64 alphabet: {extra}"; break
        if good:
            ts = st.ts
            for j in range(k):
                # output byte j: bits 23-8j .. 16-8j of the 24-bit group
                want = []
                for b in range(8):
                    p = 16 - 8 * j + b; s = 3 - p // 6
                    want.append((leaves[s], p % 6))
                ok, msg = self.byte_ok(st, ts[j], want)
                if not ok: good = False; why = f"output byte {j}: {msg}"; break
        if rec:
            self.groups += 1
            self.rq(st, good, key + ".bits", i.where(), why or f"the {k} bytes are the RFC 4648 value of the {k+1} alphabet characters at the cursor")
            self.rq(st, st.le(cur + 4 - n), key + ".bounds", i.where(), "the group lies inside the input")
        st.mem['o:vf'][0] = (8, cur + 4); st.ts = ()
    def byte_ok(self, st, e, want):
        got = bits(e, st)[:8] if e.w >= 8 else None
        if got is None: return False, "value is narrower than a byte"
        ok = True; detail = ""
        tabs = {}
        for g, w in zip(got, want):
            if not (isinstance(g, tuple) and isinstance(g[0], Ex)): ok = False; break
            x = g[0]
            if x.lv != frozenset((w[0],)): ok = False; detail = f"bit taken from position {[l.a[0][2] for l in x.lv]} instead of {w[0].a[0][2]}"; break
            if x.k == 'tab':
                for v in st.leaf[w[0]].values():
                    r = conc(x, {w[0]: v})
                    if r is None or v not in IDX or ((r >> g[1]) & 1) != ((IDX[v] >> w[1]) & 1):
                        ok = False; detail = f"decode table maps {chr(v)!r} to {r}, RFC 4648 says {IDX.get(v)}" if g[1] == w[1] else f"bit {g[1]} used where bit {w[1]} belongs"; break
                if not ok: break
            else: ok = False; break
        if ok: return True, ""
        ls = list(set(e.lv) | {w[0] for w in want})
        n = 1
        for l in ls: n *= st.leaf.get(l, ISet.top(8)).size
        if n <= 70000:
            for combo in itertools.product(*[list(st.leaf[l].values()) for l in ls]):
                m = dict(zip(ls, combo)); v = 0
                for b, w in enumerate(want): v |= ((IDX.get(m[w[0]], 0) >> w[1]) & 1) << b
                if conc(e, m) != v: return False, f"for characters {bytes(combo)!r} it is {conc(e, m)}, RFC 4648 says {v}"
            return True, ""
        return False, detail or f"bits {[self.b(x) for x in got]} instead of {[self.b(x) for x in want]}"
    b = Enc.b
    def backedge(self, eng, st, hdr):
        return st
    def ret(self, eng, st, i, val):
        rep = self.rep; n = Lin.sym('n')
        if st.ts and st.ts[0] == 'reject':
            self.rej += 1
            return
        cur = st.mem['o:vf'][0][1]
        pend = st.ts
        if pend and pend[0] == 'accept': pend = pend[1:]
        else:
            rep.unk("decode.return", i.where(), "return without a recognised result"); return
        self.acc += 1
        if st.eq(n, Lin(0)) and not pend: rep.ok("decode.accept.empty", i.where(), "empty input -> empty output"); return
        # n must be a multiple of 4
        ok4 = False
        for (e, k), (q, r) in st.defs.items():
            if k == 4 and st.eq(e, n) and st.z.get(r, '0') <= 0: ok4 = True
        self.rq(st, ok4, "decode.accept.len4", i.where(), "accepted inputs have a length divisible by 4")
        if len(pend) in (1, 2) and None not in pend:
            k = len(pend); c2 = cur
            st2 = st.copy(); st2.ts = pend
            self.group(eng, st2, i, k)
            for j in range(k + 1, 4):
                l = st.byte_leaf('o:in', c2 + j)
                self.rq(st, st.leaf[l].subset(ISet.const(8, PAD)), f"decode.group.{k}bytes.pad", i.where(), f"the last {3-k} character(s) of a {k}-byte group are '='  (possible: {st.leaf[l]})")
            cur = st2.mem['o:vf'][0][1]; pend = ()
        self.rq(st, not pend and st.eq(cur, n), "decode.return.complete", i.where(), f"every input character has been consumed at return (cursor {cur})")
    def throw(self, eng, st, i, name):
        if 'assert' in name or 'out_of_range' in name:
            self.bad(st, "decode.noassert", i.where(), f"{name} reachable (out-of-range access)")
    def load(self, eng, st, i, p):
        if p.obj == 'o:in' and i.ty.size == 1 and eng.record:
            n = Lin.sym('n')
            self.rq(st, st.le(-p.off) and st.le(p.off - n + 1), "decode.read.bounds", i.where(), f"input read at offset {p.off} stays inside [0,n)")
        return None

class Valid(Dec):
    """run from well-formed inputs only: no rejecting return, no exception may be reachable"""
    def __init__(self, rep, tag): super().__init__(Mute()); self.r = rep; self.tag = tag; self.acc = 0; self.key = f"decode.total.{tag}"
    def no(self, st, where, detail):
        self.rep = self.r
        try: Checked.bad(self, st, f"decode.total.{self.tag}", where, detail)
        finally: self.rep = Mute()
    def rq(self, *a): pass
    def bad(self, *a): pass
    def stop(self): return False
    def ret(self, eng, st, i, val):
        if not st.consistent(): return
        self.rets += 1
        if st.ts and st.ts[0] == 'reject':
            self.no(st, i.where(), f"a well-formed input ({self.tag}) can be rejected; last characters: {[str(st.leaf.get(st.byte_leaf('o:in', Lin.sym('n') - k))) for k in (2, 1)]}")
        elif st.ts and st.ts[0] == 'accept': self.acc += 1
    def throw(self, eng, st, i, name):
        if 'bad_alloc' in name or 'length_error' in name: return
        self.no(st, i.where(), f"{name} reachable from a well-formed input")
    def load(self, eng, st, i, p): return None

class Mute:
    obl = {}
    def require(self, *a): pass
    bad = ok = unk = require

def run_accept(rep):
    u = unit(); fn = u.fn("vf_decode")
    rep.rule("same interpretation started from the set of all well-formed inputs (length 4k>0, alphabet characters, 0/1/2 trailing '='): no rejecting return is reachable")
    for tag, sets in (("no padding", (ASET, ASET)), ("one '='", (ASET, ISet.const(8, PAD))), ("two '='", (ISet.const(8, PAD), ISet.const(8, PAD)))):
        def start(fn):
            st = init(fn); n = Lin.sym('n')
            q = st.newsym('q', 1); r = st.newsym('r', 0, 0)
            st.defs[(n, 4)] = (q.t[0][0], r.t[0][0]); st.add_eq(n - q * 4 - r); st.assume_le(q - n)
            st.reg = (('o:in', Lin(0), n - 2, ASET),)
            for k, S in zip((2, 1), sets): st.leaf[st.byte_leaf('o:in', n - k)] = S
            return [st]
        last = []
        def mk(): last.append(Valid(rep, tag)); return last[-1]
        rep.ok(f"decode.total.{tag}", fn.where(), "every well-formed input reaches the accepting return")
        decide(rep, fn, mk, start, f"decode.total.{tag}")
        if not last[0].acc: rep.unk(f"decode.total.{tag}", fn.where(), "no accepting return found")
    def empty(fn): st = init(fn); st.assume_eq(Lin.sym('n')); return [st]
    rep.ok("decode.total.empty", fn.where(), "the empty text is accepted")
    decide(rep, fn, lambda: Valid(rep, "empty"), empty, "decode.total.empty")

def run_decode(rep):
    u = unit(); fn = u.fn("vf_decode"); rep.fn("base64pp::decode", "base64pp::detail::decode_quad", "base64pp::detail::is_valid_base64_str", "base64pp::detail::is_valid_base64_char")
    rep.rule("relational abstract interpretation with a cursor ghost variable: every byte appended by decode() must be the RFC 4648 value of alphabet characters at the cursor; characters of an accepted input are proved to be in the alphabet (region facts from the validation loop); reads stay inside the input")
    last = []
    def mk(): last.append(Dec(rep)); return last[-1]
    rep.ok("decode.noassert", fn.where(), "no assertion / out_of_range call reachable")
    decide(rep, fn, mk, lambda fn: [init(fn)], "decode.")
    m = last[0]
    if not m.acc: rep.unk("decode.accept", fn.where(), "no accepting return reached")
    counters(rep, u, fn, "decode"); rep.sites += m.groups

def run_decode_all(rep):
    run_decode(rep); run_accept(rep)
