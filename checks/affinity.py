"""core: ThreadAffinity - thread and process operations reach exactly the designated target, and refuse what they document"""
from ir import Unit
from decide import *
from stdmodel import StdModel, ceq, clen, cnorm, demangle
from core import par
from disruptor import const_of
import policy
H = "src/core/include/ThreadAffinity.hpp"
_u = None
def unit():
    global _u
    if _u is None: _u = Unit("affinity.cpp", policy.make(extra_inline=[r"^std::j?thread::native_handle$"]), passes=policy.UNROLL, extra=policy.ALGOS)
    return _u
I32 = (-(1 << 31), (1 << 31) - 1)
OS = {  # name -> (index of the target, kind)
    'pthread_getname_np': 'name', 'pthread_setname_np': 'setname', 'pthread_getaffinity_np': 'aff', 'pthread_setaffinity_np': 'setaff', 'sched_getaffinity': 'aff', 'sched_setaffinity': 'setaff',
    'pthread_getschedparam': 'sched', 'pthread_setschedparam': 'setsched', 'sched_getscheduler': 'policy', 'sched_getparam': 'param', 'sched_setscheduler': 'setsched', 'sched_setparam': 'setparam'}
class Aff(Checked, StdModel):
    accelerate = False; paths = 16
    def __init__(self, rep, key, fn, target, kind, uninit):
        Checked.__init__(self, rep, key); self.fname = fn; self.target = target; self.kind = kind; self.uninit = uninit
    def valid(self, st): return st.lb(self.target) > 0 or st.ub(self.target) < 0 and self.kind[0] == 't'
    def log(self, st, *e):
        st.ts = st.ts + (e,)
        if len(st.ts) > 40: raise Budget("too many events")
    def has(self, st, k): return [e for e in st.ts if e[0] == k]
    def client(self, eng, st, i, name, args):
        R = lambda c, k, d: self.req(eng, st, c, k, i, d)
        if name == 'pthread_self': return [(st, Lin.sym('self'))]
        if name == 'getpid' or name == 'opencmw::thread::detail::getPid': return [(st, Lin.sym('self'))]
        if name in OS:
            k = OS[name]; t = args[0]
            if not isinstance(t, Lin): raise Budget(f"{i.where()}: target {t}")
            R(self.valid(st), "valid", f"{name} is never called for an uninitialised thread or an invalid process")
            R(st.eq(t, self.target), "target", f"{name} acts on the designated {'thread' if self.kind[0] == 't' else 'process'} (not {t})")
            out = []
            if k == 'setname' : self.req(eng, st, self.text_ok(st, args[1]), "text", i, f"the name given to the OS is the NUL-terminated given name ({self.text(st, args[1])})")
            if k in ('setsched', 'setparam'):
                pol, par_ = (args[1], args[2]) if k == 'setsched' else (None, args[1])
                if pol is not None: R(isinstance(pol, Lin) and st.eq(pol, Lin.sym('pol')), "policy", f"the scheduling policy is the requested one ({pol})")
                pr = st.load(par_, 4) if isinstance(par_, Ptr) else None
                pr = eng.to_lin(st, pr) if isinstance(pr, Ex) else pr
                R(isinstance(pr, Lin) and st.eq(pr, Lin.sym('prio')), "priority", f"the priority is the requested one ({pr})")
                if pol is not None: R(st.le(Lin.sym('min') - Lin.sym('prio')) and st.le(Lin.sym('prio') - Lin.sym('max')) and self.has(st, 'min') and self.has(st, 'max'), "range", "a priority outside of the range the OS reports for the policy is refused before anything is changed")
            if k in ('aff', 'setaff'): R(isinstance(args[1], Lin) and args[1].is_const and args[1].c == 128 and isinstance(args[2], Ptr), "mask", "the whole CPU mask is handed over")
            if k == 'setaff': self.mask(eng, st, i, args[2])
            n = len(st.ts)
            for lo, hi in ((0, 0), (1, 133), (-1, -1)):
                if k == 'policy' and hi > 0: lo, hi = 0, 7
                elif k == 'policy' and hi == 0: continue
                s = st.copy(); r = s.newsym(f"rc{n}", lo, hi) if lo != hi else Lin(lo)
                self.log(s, 'os', name, k, r); 
                if lo == 0:
                    def put(p, sz, v):
                        if isinstance(p, Ptr): s.store(p, sz, v)
                    if k == 'sched': put(args[1], 4, Lin.sym('gpol')); put(args[2], 4, Lin.sym('gprio'))
                    elif k == 'param': put(args[1], 4, Lin.sym('gprio'))
                    elif k == 'name' and isinstance(args[1], Ptr):
                        s.clobber_bytes(args[1].obj); self.log(s, 'name', args[1])
                        R(isinstance(args[2], Lin) and args[2].is_const and self.room(eng, i, args[1]) >= args[2].c >= 16, "room", f"the buffer for the name has room for what the OS is told ({args[2]})")
                    elif k == 'aff' and isinstance(args[2], Ptr):
                        s.havoc(args[2].obj); s.clobber_bytes(args[2].obj)
                        if 16 in s.mem.get('o:w', {}):
                            for q in range(16): s.store(Ptr(args[2].obj, args[2].off + 8 * q), 8, Lin(0) if q else s.mem['o:w'][16][1])
                if k == 'policy' and lo == 0: s.assume_eq(r - Lin.sym('gpol'))
                out.append((s, r))
            return out
        if name in ('sched_get_priority_min', 'sched_get_priority_max'):
            k = name[-3:]; R(isinstance(args[0], Lin) and st.eq(args[0], Lin.sym('pol')), "policy", f"the range is that of the requested policy ({args[0]})"); self.log(st, k); return [(st, Lin.sym(k))]
        if name == 'std::system_error::system_error':
            code, cat = args[1], args[2]
            if not isinstance(code, Lin): raise Budget(f"{i.where()}: error code {code}")
            R(isinstance(cat, Ptr) and not cat.obj.startswith('a:'), "category", "the category of the error outlives the exception")
            # the last failed OS call on this path, if any
            f = [e for e in self.has(st, 'os') if not st.eq(e[3], Lin(0)) and e[2] != 'policy']
            if f: R(st.eq(code, f[-1][3]), "code", f"the error carries the code the OS reported ({code})")
            elif not self.valid(st): R(not (st.lb(self.target) > 0), "refuse", "a valid target is not refused"); R(code == Lin(self.uninit), "code", f"an invalid target is reported as THREAD_UNINITIALISED ({code})")
            elif self.kind.endswith('setsched') and self.has(st, 'min') and self.has(st, 'max'):
                R(st.le(Lin.sym('prio') - Lin.sym('min') + 1) or st.le(Lin.sym('max') - Lin.sym('prio') + 1), "refuse", "a priority within the range is not refused")
                R(code == Lin(3), "code", f"a priority out of range is reported as THREAD_VALUE_RANGE ({code})")
            else: R(False, "refuse", f"a valid request is not refused (code {code})")
            self.log(st, 'err'); return [(st, None)]
        if name == 'std::format' or name.startswith(('std::vformat', 'opencmw::join', 'std::basic_format_string')):
            if isinstance(args[0], Ptr) and name != 'std::basic_format_string::basic_format_string': self.setstr(st, args[0], self.unknown())
            return [(st, None)]
        if name in ('std::thread::hardware_concurrency', 'std::thread::hardware_concurrency()'): return [(st, Lin(st.lb(Lin.sym('cpus'))))]          # every state fixes it
        if name.startswith('__cxa_guard_acquire'):
            a, b = st.copy(), st; return [(a, Lin(1)), (b, Lin(0))]
        if name == 'strlen' and self.is_name(st, args[0]): return [(st, Lin.sym('namelen'))]
        if name in ('__cxa_guard_release', '__cxa_atexit', '__cxa_free_exception', 'std::error_category::error_category'): return [(st, None if i.ty.kind == 'void' else Lin(0))]
        if name == '__cxa_allocate_exception': return [(st, Ptr('n:exc'))]
        f = name.rsplit('::', 1)[-1]
        if name == 'std::vector::vector' and len(args) >= 2 and isinstance(args[1], Lin): st.ts = tuple(e for e in st.ts if e[0] not in ('vec', 'bit')); self.log(st, 'vec', args[1]); return [(st, None)]
        if name == 'std::vector::vector' and len(args) == 1: st.ts = tuple(e for e in st.ts if e[0] not in ('vec', 'bit')); self.log(st, 'vec', Lin(0)); return [(st, None)]
        if name == 'std::vector::size' and self.has(st, 'vec'): return [(st, self.has(st, 'vec')[-1][1])]
        if name == 'std::vector::operator[]' and i.ty.kind == 'struct' and isinstance(args[1], Lin): return [(st, ('agg', Ptr('o:bit', args[1]), Lin(1)))]
        if name == 'std::_Bit_reference::operator=' and len(args) == 2 and isinstance(args[0], Ptr):
            p = st.load(args[0], 8); out = []
            if isinstance(p, Ptr) and p.obj == 'o:bit' and p.off.is_const:
                for s, t in cases(eng, st, args[1]): self.log(s, 'bit', p.off.c, t); out.append((s, args[0]))
                return out
        if name == 'std::vector::push_back' and self.has(st, 'vec'):
            n = self.has(st, 'vec')[-1][1]; out = []
            if n.is_const:
                for s, t in cases(eng, st, args[1]): self.log(s, 'vec', n + 1); self.log(s, 'bit', n.c, t); out.append((s, None))
                return out
        if name in ('std::vector::~vector', 'std::_Bvector_base::~_Bvector_base', 'std::vector::reserve', 'std::_Bit_reference::_Bit_reference'): return [(st, None)]
        if name.startswith(('std::vector::', 'std::_Bvector_base::', 'std::_Bit_reference::')): self.open(st, f"{name} is not modelled"); self.log(st, 'opaque'); return [(st, None if i.ty.kind == 'void' else eng.fresh(st, i.ty, 'vb'))]
        return None
    def is_name(self, st, p):
        n = self.has(st, 'name'); return bool(n) and n[-1][1] == p
    def cstr(self, st, p): return (('sub', p.obj, p.off, Lin.sym('namelen')),) if self.is_name(st, p) else StdModel.cstr(self, st, p)
    def room(self, eng, i, p):
        for b in eng.fn.blocks:
            for j in b.insts:
                if j.op == 'alloca' and f"a:{j.name or j.index}.{b.idx}" == p.obj: return j.alloc
        return 0
    def text(self, st, p):
        if not isinstance(p, Ptr): return p
        c = self.content_of_loc(st, p.obj)
        return c if c is not None and p.off == Lin(0) else p
    def text_ok(self, st, p):
        c = self.text(st, p)
        return isinstance(c, tuple) and ceq(st, c, (('sub', 'o:name', Lin(0), Lin.sym('len')),))
    def mask(self, eng, st, i, p):
        """every CPU below the number of CPUs is in the mask exactly if its flag is set, and no other"""
        w = [st.load(Ptr(p.obj, p.off + 8 * k), 8) for k in range(16)]
        if any(not (isinstance(x, Lin) and x.is_const) for x in w): self.open(st, "CPU mask not expressible"); self.req(eng, st, False, "cpus", i, "the CPU mask is the requested one"); return
        v = sum((x.c & ((1 << 64) - 1)) << 64 * k for k, x in enumerate(w)); bad = []
        for k in range(1024):
            on = v >> k & 1
            if k >= 4: want = 0
            else:
                want = truth(st, st.byte_leaf('o:m', Lin(k))) if st.lb(Lin.sym('cpus')) > k else False if st.ub(Lin.sym('cpus')) <= k else None
                if want is None: want = on if not self.flag_free(st, k) else None
            if want is None or bool(want) != bool(on): bad.append(k)
        self.req(eng, st, not bad, "cpus", i, "the CPU mask holds exactly the requested CPUs" + (f" (not so for CPU {bad[0]})" if bad else ""))
    def flag_free(self, st, k): return st.eset(st.byte_leaf('o:m', Lin(k))).size > 1
    def throw(self, eng, st, i, name):
        if name == '__cxa_throw' and st.consistent():
            self.req(eng, st, bool(self.has(st, 'err')), "type", i, "what is thrown is a std::system_error")
    def ret(self, eng, st, i, v):
        if not st.consistent(): return
        self.rets += 1; R = lambda c, k, d: self.req(eng, st, c, k, i, d)
        main = [e for e in self.has(st, 'os') if e[2] == self.kind[1:] or self.kind[1:] == 'psched' and e[2] == 'param']
        R(len(main) > 0, "done", "a call that returns normally asked the OS")
        if self.kind[1:] != 'setname': R(all(st.eq(e[3], Lin(0)) for e in main), "reported", "a failure reported by the OS is not swallowed")
        else: R(all(st.lb(e[3]) >= 0 for e in main), "reported", "a failure reported by the OS is not swallowed")
        if self.kind.startswith(('tset', 'pset')): R(len(main) == 1, "once", "the change is made once")
        if 'sched' in self.kind and 'set' not in self.kind:
            pr = st.load(Ptr('o:r', self.off['prio']), 4); po = st.load(Ptr('o:r', self.off['policy']), 4)
            pr, po = (eng.to_lin(st, x) if isinstance(x, Ex) else x for x in (pr, po))
            R(isinstance(pr, Lin) and st.eq(pr, Lin.sym('gprio')), "priority", f"the priority reported is that of the OS ({pr})")
            if any(e[2] == 'policy' and st.eq(e[3], Lin(-1)) for e in self.has(st, 'os')): R(isinstance(po, Lin) and st.eq(po, Lin(-1)), "policy", f"a policy the OS does not tell is UNKNOWN ({po})"); return
            g = Lin.sym('gpol'); exp = [Lin(k) for k in (0, 1, 2) if st.eq(g, Lin(k))]
            if exp: R(isinstance(po, Lin) and st.eq(po, exp[0]), "policy", f"the policy reported is that of the OS ({po})")
            else: R(isinstance(po, Lin) and st.eq(po, Lin(-1)) and not any(st.lb(g) <= k <= st.ub(g) for k in (0, 1, 2)), "policy", f"the policy reported is that of the OS ({po})")
        if self.kind == 'tname' and self.has(st, 'name'):
            p = self.has(st, 'name')[-1][1]; c = self.sget(st, Ptr('o:r')); R(ceq(st, c, (('sub', p.obj, p.off, Lin.sym('namelen')),)), "text", f"the name returned is the one the OS reported ({cnorm(st, c)})")
        if self.kind in ('taff', 'paff') and 16 in st.mem.get('o:w', {}) and not self.has(st, 'opaque'):
            w = st.mem['o:w'][16][1].c; n = self.has(st, 'vec'); c = st.ub(Lin.sym('cpus')); got = {e[1]: e[2] for e in self.has(st, 'bit')}
            R(bool(n) and st.eq(n[-1][1], Lin(c)), "length", f"there is a flag for each CPU ({n[-1][1] if n else None} of {c})")
            R(all(got.get(k, False) == bool(w >> k & 1) for k in range(c)), "cpus", "the flags reported are those of the mask the OS reports")
        if self.kind == 'psetaff': R(truth(st, v) is True, "result", "success is reported")

class PName(Checked, StdModel):
    """process names: the file /proc/<pid>/comm. ts: events"""
    accelerate = False
    def __init__(self, rep, key, role, uninit): Checked.__init__(self, rep, key); self.role = role; self.uninit = uninit
    def log(self, st, *e): st.ts = st.ts + (e,)
    def last(self, st, k): return next((e[1] for e in reversed(st.ts) if e[0] == k), None)
    def client(self, eng, st, i, name, args):
        R = lambda c, k, d: self.req(eng, st, c, k, i, d)
        f = name.rsplit('::', 1)[-1]
        if name == 'getpid' or name == 'opencmw::thread::detail::getPid': return [(st, Lin.sym('self'))]
        if f in ('basic_ifstream', 'basic_ofstream', 'basic_fstream', 'open') and 'stream' in name:
            if len(args) < 2 or not isinstance(args[1], Ptr): return None
            c = self.sget(st, args[1]) if 'basic_string<' in demangle(eng.cname(i)).split('(', 1)[1] else self.text(st, args[1])
            self.known(st, c)
            R(ceq(st, c, (('lit', b'/proc/'), ('app', 'num', Lin.sym('pid')), ('lit', b'/comm'))), "file", f"the file is /proc/<pid>/comm of the given process ({cnorm(st, c)})")
            self.log(st, 'open', True); return [(st, None)]
        if f == 'is_open': a, b = st.copy(), st; self.log(a, 'isopen', True); self.log(b, 'isopen', False); return [(a, ec(1, 1)), (b, ec(1, 0))]
        if f == 'getline' and isinstance(args[1], Ptr):
            R(len(args) < 3 or isinstance(args[2], Ex) and args[2].k == 'const' and args[2].a[0] == 10, "line", "the name is the first line of the file")
            R(self.last(st, 'isopen') is not False, "line", "only an open file is read"); self.log(st, 'line', True); self.reassign(st, args[1], (('app', 'line'),)); return [(st, args[0])]
        if name == 'std::operator<<' or f in ('write', 'operator<<') and 'stream' in name:
            d = demangle(eng.cname(i)); ps = d.split('(', 1)[1]
            if f == 'write': c = self.view(st, args[1], args[2])
            elif 'basic_string<' in ps: c = self.sget(st, args[1])
            elif 'basic_string_view<' in ps: c = self.view(st, args[2], args[1]) if len(args) == 3 else self.svget(st, args[1])
            else: c = self.unknown()
            self.known(st, c); self.log(st, 'write', c); return [(st, args[0])]
        if f in ('close', 'flush', '~basic_ofstream', '~basic_ifstream', 'good', 'fail') and 'stream' in name: return [(st, None if i.ty.kind == 'void' else eng.fresh(st, i.ty, f))]
        if name == 'std::system_error::system_error':
            R(isinstance(args[2], Ptr) and not args[2].obj.startswith('a:'), "category", "the category of the error outlives the exception")
            R(self.role == 'set' and self.last(st, 'isopen') is False, "refuse", "only a file that cannot be opened is an error"); R(args[1] == Lin(self.uninit), "code", f"it is reported as THREAD_UNINITIALISED ({args[1]})"); self.log(st, 'err', True); return [(st, None)]
        if name.startswith('__cxa_guard_acquire'): return [(st.copy(), Lin(1)), (st, Lin(0))]
        if name in ('__cxa_guard_release', '__cxa_atexit', '__cxa_free_exception', 'std::error_category::error_category'): return [(st, None if i.ty.kind == 'void' else Lin(0))]
        if name == '__cxa_allocate_exception': return [(st, Ptr('n:exc'))]
        return None
    def known(self, st, c):
        if any(x[0] == '?' for x in c): self.open(st, "text not expressible")
    def text(self, st, p):
        c = self.content_of_loc(st, p.obj)
        return c if c is not None and p.off == Lin(0) else self.cstr(st, p)
    def throw(self, eng, st, i, name):
        if st.consistent(): self.req(eng, st, name == '__cxa_throw' and bool(self.last(st, 'err')), "type", i, f"what is thrown is a std::system_error ({name})")
    def ret(self, eng, st, i, v):
        if not st.consistent(): return
        self.rets += 1; R = lambda c, k, d: self.req(eng, st, c, k, i, d)
        if self.role == 'get':
            c = self.sget(st, Ptr('o:r')); self.known(st, c); o = self.last(st, 'isopen')
            if o: R(ceq(st, c, (('app', 'line'),)), "text", f"the name returned is the first line of the file ({cnorm(st, c)})")
            else: R(ceq(st, c, (('lit', b'unknown_process'),)), "unknown", f"a process without file is unknown_process ({cnorm(st, c)})")
            return
        R(self.last(st, 'isopen') is True, "reported", "a file that cannot be opened is reported")
        w = tuple(x for e in st.ts if e[0] == 'write' for x in e[1]); n = Lin(15) if st.lb(Lin.sym('len')) >= 15 else Lin.sym('len')
        R(ceq(st, w, (('sub', 'o:name', Lin(0), n),)), "text", f"the first 15 characters of the name are written ({cnorm(st, w)})")

class Pol(Checked):
    def ret(self, eng, st, i, v):
        self.rets += 1; g = Lin.sym('p'); v = eng.to_lin(st, v) if isinstance(v, Ex) else v
        exp = [k for k in (0, 1, 2) if st.eq(g, Lin(k))]
        if exp: self.req(eng, st, isinstance(v, Lin) and st.eq(v, Lin(exp[0])), "known", i, f"policy {exp[0]} is reported as itself ({v})")
        else: self.req(eng, st, isinstance(v, Lin) and st.eq(v, Lin(-1)) and not any(st.lb(g) <= k <= st.ub(g) for k in (0, 1, 2)), "unknown", i, f"any other policy is UNKNOWN ({v})")

ENTRIES = [('vf_get_name', 'tname'), ('vf_get_name0', 'tname'), ('vf_set_name', 'tsetname'), ('vf_set_name0', 'tsetname'), ('vf_get_aff', 'taff'), ('vf_get_aff0', 'taff'),
    ('vf_set_aff', 'tsetaff'), ('vf_set_aff0', 'tsetaff'), ('vf_get_paff', 'paff'), ('vf_set_paff', 'psetaff'), ('vf_get_sched', 'tsched'), ('vf_get_sched0', 'tsched'),
    ('vf_set_sched', 'tsetsched'), ('vf_set_sched0', 'tsetsched'), ('vf_get_psched', 'ppsched'), ('vf_set_psched', 'psetsched')]
def bound(st, lo, hi):
    s = st.copy(); s.assume_le(Lin(lo) - Lin.sym('gpol')); s.assume_le(Lin.sym('gpol') - hi); return s
def run(rep):
    u = unit(); off = {'policy': const_of(u, 'vf_off_policy'), 'prio': const_of(u, 'vf_off_prio')}; uninit = const_of(u, 'vf_uninit')
    def one(rep, name, kind):
        fn = u.fn(name); rep.fn(fn)
        own = name.endswith('0'); target = Lin.sym('self' if own else 'h')
        def init(fn):
            st = State()
            def sym(x, lo=None, hi=None): st.z.s.add(x); (lo is None) or (st.assume_le(Lin(lo) - Lin.sym(x)), st.assume_le(Lin.sym(x) - hi))
            sym('self', 1, BIG)
            if kind[0] == 't': sym('h', 0, (1 << 64) - 1)
            else: sym('h', *I32)
            for x in ('pol', 'prio', 'min', 'max', 'gprio'): sym(x, *I32)
            sym('gpol', 0, 1 << 20); sym('cpus', 0, 1 << 20); sym('len', 0, BIG); sym('namelen', 0, 15)
            st.mem['o:t'] = {0: (8, Lin.sym('h'))}
            st.mem['o:nv'] = {0: (8, Lin.sym('len')), 8: (8, Ptr('o:name'))}
            n = name.rstrip('0'); a = []
            if n in ('vf_get_name', 'vf_get_sched', 'vf_get_psched'): a.append(Ptr('o:r'))
            if 'set_name' in n: a.append(Ptr('o:nv'))
            if n in ('vf_set_aff', 'vf_set_paff'): a.append(Ptr('o:m'))
            if n in ('vf_set_sched', 'vf_set_psched'): a += [Lin.sym('pol'), Lin.sym('prio')]
            if not own: a.append(Ptr('o:t') if kind[0] == 't' else Lin.sym('h'))
            assert len(a) == len(fn.args), (name, a)
            for p, v in zip(fn.args, a): st.env[p.ref] = v
            if kind in ('taff', 'paff'):
                out = []
                for c in range(4):
                    for w in range(1 << 4):
                        s = st.copy(); s.assume_eq(Lin.sym('cpus') - c); s.mem['o:w'] = {16: (8, Lin(w))}; out.append(s)
                return out
            if 'setaff' in kind:
                out = []
                for lo, hi in ((0, 0), (1, 1), (2, 2), (3, 3), (4, 4), (8, 8), (64, 64)):
                    s = st.copy(); s.assume_eq(Lin.sym('cpus') - lo); out.append(s)
                return out
            st.assume_eq(Lin.sym('cpus') - 4)
            return [st] if 'sched' not in kind or 'set' in kind else [x for x in (bound(st, lo, hi) for lo, hi in ((0, 0), (1, 1), (2, 2), (3, 1 << 20)))]
        def mk():
            m = Aff(rep, name[3:], name, target, kind, uninit); m.off = off; return m
        decide(rep, fn, mk, init, name[3:], H, unroll=6)
    def pol(rep):
        def init(fn):
            out = []
            for lo, hi in ((I32[0], -1), (0, 0), (1, 1), (2, 2), (3, I32[1])):
                st = State(); st.z.s.add('p'); st.assume_le(Lin(lo) - Lin.sym('p')); st.assume_le(Lin.sym('p') - hi); st.env[fn.args[0].ref] = Lin.sym('p'); out.append(st)
            return out
        decide(rep, u.fn('vf_policy'), lambda: Pol(rep, 'policy'), init, 'policy', H)
    def pname(rep, name, role):
        def init(fn):
            out = []
            for lo, hi in ((0, 14), (15, BIG)) if role == 'set' else ((0, 0),):
                st = State(); st.z.s |= {'pid', 'len', 'self'}
                for x, a, b in (('pid', *I32), ('self', 1, I32[1]), ('len', lo, hi)): st.assume_le(Lin(a) - Lin.sym(x)); st.assume_le(Lin.sym(x) - b)
                st.mem['o:nv'] = {0: (8, Lin.sym('len')), 8: (8, Ptr('o:name'))}
                st.env[fn.args[0].ref] = Ptr('o:nv' if role == 'set' else 'o:r'); st.env[fn.args[1].ref] = Lin.sym('pid'); out.append(st)
            return out
        def mk(): return PName(rep, name[3:], role, uninit)
        decide(rep, u.fn(name), mk, init, name[3:], H)
    par(rep, [lambda r: pname(r, 'vf_get_pname', 'get'), lambda r: pname(r, 'vf_set_pname', 'set')] + [lambda r, e=e: one(r, *e) for e in ENTRIES] + [pol])
    rep.rule("thread and process operations: every OS call acts on the designated, valid target with the requested values; invalid requests and OS failures become std::system_error with the documented code and a category that stays alive")
