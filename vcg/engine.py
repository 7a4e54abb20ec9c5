"""Verification condition generator: path-wise symbolic execution of the LLVM IR
of the real sources, callers checked against callee contracts, loops cut by
invariants."""
import z3, itertools, sys, os
from smt import *
import ir

FRESH0 = 'fresh'


class Unsupported(Exception):
    pass


class FieldAddr:
    """address of a struct field: (struct, field index, base pointer)"""
    __slots__ = ('st', 'fi', 'base')

    def __init__(self, st, fi, base):
        self.st = st; self.fi = fi; self.base = base


class P2I:
    __slots__ = ('p',)

    def __init__(self, p): self.p = p


class Undef:
    pass


class World:
    """one compiled module + its literal ids"""

    def __init__(self, mod):
        self.m = mod
        self.gid = {}
        self.fid = {}
        for i, g in enumerate(sorted(mod.globals)):
            self.gid[g] = 1000 + i
            if mod.globals[g][2] and mod.globals[g][0].kind == 'array' and mod.globals[g][0].elem.kind == 'int' and mod.globals[g][0].elem.bits == 8:
                CONST_IDS.add(1000 + i)
        names = sorted(set(mod.funcs) | mod.decls)
        for i, f in enumerate(names):
            self.fid[f] = 100 + i

    def gptr(self, name): return mk(IntVal(self.gid[name]), IntVal(0))

    def fptr(self, name):
        return mk(IntVal(self.fid[name]), IntVal(0))

    def field(self, st, name):
        return self.m.fields[st].index(name)

    def gbytes(self, g):
        ty, init, const, _ = self.m.globals[g]
        if init and init[0] == 'str':
            return ir.unescape(init[1])
        if init and init[0] == 'zero' and ty.kind == 'array':
            return bytes(ty.n)
        return None

    def is_opt_const(self, g):
        return self.m.globals[g][2]


class Mem:
    """heaps: name -> z3 array"""

    def __init__(self, d=None):
        self.d = dict(d) if d else {}

    def copy(self): return Mem(self.d)

    def get(self, name):
        if name not in self.d:
            self.d[name] = Const(name + '!0', heap_sort(name))
        return self.d[name]

    def set(self, name, v): self.d[name] = v


GHOST_SORTS = {}


def heap_sort(name):
    if name == 'M8': return M8S
    if name == 'PC': return PCS
    if name == 'IC': return M8S
    if name.startswith('F.'):
        return ArraySort(Ptr, FIELD_SORT[name])
    if name.startswith('g.'):
        return GHOST_SORTS[name]
    raise KeyError(name)


FIELD_SORT = {}


def init_fields(mod):
    for st, names in mod.fields.items():
        if st not in mod.structs: continue
        for n, ty in zip(names, mod.structs[st]):
            if ty.kind == 'ptr': FIELD_SORT['F.%s.%s' % (st, n)] = Ptr
            elif ty.kind == 'int': FIELD_SORT['F.%s.%s' % (st, n)] = I


SHORT = {'ob': 'ush_object', 'nd': 'ush_node_object', 'fd': 'ush_file_descriptor', 'ds': 'ush_descriptor',
         'io': 'ush_io_interface'}


class State:
    """read view on a memory for specifications"""

    def __init__(self, mem, world):
        self.mem = mem; self.w = world

    def F(self, st, f):
        return self.mem.get('F.%s.%s' % (st, f))

    def ob(self, p, f): return sel(self.F('ush_object', f), p)
    def nd(self, p, f): return sel(self.F('ush_node_object', f), p)
    def fd(self, p, f): return sel(self.F('ush_file_descriptor', f), p)
    def ds(self, p, f): return sel(self.F('ush_descriptor', f), p)
    def io(self, p, f): return sel(self.F('ush_io_interface', f), p)

    def with_ghost(self, d):
        m = self.mem.copy()
        for k, v in d.items(): m.set('g.' + k, v)
        return State(m, self.w)

    @property
    def M8(self): return self.mem.get('M8')

    @property
    def PC(self): return self.mem.get('PC')

    def A(self, p):
        """byte array of the object of p"""
        return inner(self.M8, O(p))

    def Ao(self, o): return inner(self.M8, o)

    def B(self, p, i=0):
        return sel(self.A(p), simplify(OFF(p) + i))

    def cell(self, p, i=0):
        return sel(inner(self.PC, O(p)), simplify(OFF(p) + i))

    def g(self, name): return self.mem.get('g.' + name)

    def zend(self, p): return zend(self.A(p), OFF(p))

    def S(self, p): return S(self.A(p), OFF(p))

    def strlen(self, p): return self.zend(p) - OFF(p)

    def cstr(self, p):
        """p is a valid pointer to a NUL terminated string inside its object"""
        return And(O(p) != 0, OFF(p) >= 0, vs(self.A(p), OFF(p)), self.zend(p) < bsize(O(p)))

    def lv(self, addr):
        """value at an lvalue address (FieldAddr or Ptr to pointer cell)"""
        if isinstance(addr, FieldAddr):
            nm = self.w.m.fields[addr.st][addr.fi]
            return sel(self.F(addr.st, nm), addr.base)
        return self.cell(addr)


class Ctx:
    """evaluation context for a contract"""

    def __init__(self, world, fn, args, s, t=None, r=None, site=None):
        self.w = world; self.fn = fn; self.a = args; self.s = s; self.t = t; self.r = r; self.site = site
        self.va = None

    def __getattr__(self, k):
        if k.startswith('_') or k not in self.__dict__.get('a', {}):
            raise AttributeError(k)
        return self.a[k]

    def en(self, name): return self.w.m.enums[name]


class Clause:
    __slots__ = ('name', 'f', 'goal', 'lem', 'cases')

    def __init__(self, name, f, goal=None, lem=None, cases=None):
        self.name = name; self.f = f; self.goal = goal; self.lem = lem; self.cases = cases


def clauses(l):
    out = []
    for i, x in enumerate(l or []):
        if isinstance(x, Clause): out.append(x)
        elif isinstance(x, tuple): out.append(Clause(*x))
        else: out.append(Clause('c%d' % i, x))
    return out


class Contract:
    def __init__(self, name, params, requires=None, modifies=None, ensures=None, ghost=None, loops=(), axioms=('zend',),
                 trusted=False, dec=None, lemmas=None, exit_lemmas=None, note='', ret=None, facts=None, timeout=None, entry=None):
        self.name = name; self.params = params
        self.requires = requires or (lambda c: [])
        self.modifies = modifies or (lambda c: [])
        self.ensures = ensures or (lambda c: [])
        self.ghost = ghost or (lambda c: {})
        self.loops = list(loops); self.axioms = axioms; self.trusted = trusted; self.dec = dec
        self.lemmas = lemmas; self.exit_lemmas = exit_lemmas; self.note = note; self.ret = ret
        self.facts = facts; self.timeout = timeout
        self.entry = entry or (lambda c: {})      # ghost code of the caller before the call


class LoopSpec:
    def __init__(self, inv, roles=(), dec=None, lemmas=None, name=''):
        self.inv = inv; self.roles = list(roles); self.dec = dec; self.lemmas = lemmas; self.name = name


CONTRACTS = {}


def contract(*a, **k):
    c = Contract(*a, **k)
    CONTRACTS[c.name] = c
    return c


class Oblig:
    __slots__ = ('fn', 'kind', 'name', 'line', 'facts', 'goal', 'axioms', 'path', 'res', 'timeout', 'callee', 'loop')

    def __init__(self, fn, kind, name, line, facts, goal, axioms, path):
        self.fn = fn; self.kind = kind; self.name = name; self.line = line; self.facts = facts; self.goal = goal
        self.axioms = axioms; self.path = path; self.res = None; self.timeout = None; self.callee = None; self.loop = None

    def label(self):
        return '%s:%s:%s@%s' % (self.fn, self.kind, self.name, self.line)


class Frame:
    def __init__(self, func, depth=0):
        self.f = func; self.depth = depth
        self.promo = set(); self.loops = None


class PathState:
    __slots__ = ('mem', 'env', 'var', 'facts', 'prov', 'trail', 'feas', 'events', 'dead', 'headno')

    def __init__(self):
        self.mem = Mem(); self.env = {}; self.var = {}; self.facts = []; self.prov = {}; self.trail = []; self.headno = {}

    def copy(self):
        p = PathState()
        p.mem = self.mem.copy(); p.env = dict(self.env); p.var = dict(self.var); p.facts = list(self.facts)
        p.prov = dict(self.prov); p.trail = list(self.trail); p.headno = self.headno
        return p


def natural_loops(f):
    """header -> set(blocks)"""
    if getattr(f, '_loops', None) is not None: return f._loops
    order = f.order
    entry = order[0]
    preds = {b: [] for b in order}
    for b in order:
        for s in f.blocks[b].succs():
            preds[s].append(b)
    # dominators
    allb = set(order)
    dom = {b: set(allb) for b in order}
    dom[entry] = {entry}
    ch = True
    reach = set(); st = [entry]
    while st:
        x = st.pop()
        if x in reach: continue
        reach.add(x); st += f.blocks[x].succs()
    while ch:
        ch = False
        for b in order:
            if b == entry or b not in reach: continue
            ps = [dom[p] for p in preds[b] if p in reach]
            n = set.intersection(*ps) | {b} if ps else {b}
            if n != dom[b]:
                dom[b] = n; ch = True
    loops = {}
    for b in order:
        if b not in reach: continue
        for s in f.blocks[b].succs():
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st += preds[x]
            else:
                pass
    f._loops = loops
    return loops


class LoopCtx:
    """what a loop specification sees"""

    def __init__(self, eng, c, fr, header, entry_var, entry_mem, mods, roles):
        self.eng = eng; self.c = c; self.a = c.a; self.fr = fr; self.header = header
        self._e = entry_var; self.es = State(entry_mem, eng.w); self.s0 = c.s
        self.mods = mods
        self._roles = roles
        self.v = None; self.s = None

    def at(self, var, mem):
        L = LoopCtx(self.eng, self.c, self.fr, self.header, self._e, self.es.mem, self.mods, self._roles)
        L._v = var; L.s = State(mem, self.eng.w)
        return L

    def cur(self, name): return self._v.get(self.key(name))
    def ent(self, name): return self._e.get(self.key(name))

    def key(self, name): return (self.fr.depth, name)

    def role(self, r):
        f = self._roles[r]
        return f(self._v, self._e, self.s) if getattr(f, 'mem', False) else f(self._v, self._e)

    def role_e(self, r):
        f = self._roles[r]
        return f(self._e, self._e, self.es) if getattr(f, 'mem', False) else f(self._e, self._e)

    def __getattr__(self, k):
        rs = self.__dict__.get('_roles')
        if rs is not None and k in rs: return self.role(k)
        raise AttributeError(k)

    def var(self, *names):
        """value of a named local (first that exists), at current point"""
        for n in names:
            x = self.cur(n)
            if x is not None: return x
        raise Unsupported('local %s not found' % (names,))


def constite(e):
    """e is a choice between integer constants"""
    if not (z3.is_expr(e) and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and z3.is_int(e)): return False
    return all(z3.is_int_value(x) or constite(x) for x in e.children()[1:])


def mapite(e, f):
    if z3.is_int_value(e): return f(e)
    c, a, b = e.children()
    return If(c, mapite(a, f), mapite(b, f))


class Engine:
    def __init__(self, world, fname, choice=None, maxpaths=4000):
        self.w = world; self.m = world.m
        self.fname = fname
        self.con = CONTRACTS[fname]
        self.f = self.m.funcs[fname]
        self.obls = []
        self.choice = choice or {}       # loop index -> alternative number
        self.chosen = {}                 # loop index -> alternative taken
        self.nalts = {}                  # loop index -> number of alternatives
        self.loopidx = {}
        self.paths = 0
        self.maxpaths = maxpaths
        self.nlocal = 0
        self.dry = 0
        self.dryrec = None
        self.inlined = set()
        self.called = set()
        self.used_globals = set()
        self.feas_solver = z3.Solver()
        self.feas_solver.set('timeout', 60)
        self.reach_ret = 0
        self.ret_facts = []
        self.depthctr = 0
        self.loop_entry_keep = {}
        self.used_fields = set()

    # ------------------------------------------------------------ facts & obligations
    def assume(self, ps, f):
        if isinstance(f, bool): f = BoolVal(f)
        f2 = f
        if z3.is_true(f2): return
        ps.facts.append(f2)

    def oblige(self, ps, kind, name, goal, dbg, callee=None, loop=None):
        if self.dry: return
        if isinstance(goal, bool): goal = BoolVal(goal)
        line = self.line(dbg)
        o = Oblig(self.fname, kind, name, line, list(ps.facts), goal, self.con.axioms, list(ps.trail))
        o.timeout = self.con.timeout; o.callee = callee; o.loop = loop
        if z3.is_true(goal) or z3.is_true(simplify(goal)):
            o.res = 'trivial'
        self.obls.append(o)
        if not z3.is_false(goal):
            self.assume(ps, goal)

    def line(self, dbg):
        return self.m.dbgline.get(dbg, 0) if dbg is not None else 0

    def feasible(self, ps):
        s = self.feas_solver
        s.push()
        for f in ps.facts:
            if not has_quant_c(f): s.add(f)
        r = s.check()
        s.pop()
        return r != z3.unsat

    # ------------------------------------------------------------ values
    def int_range(self, v, bits, ps):
        if bits == 64: self.assume(ps, And(v >= 0, v < W64))
        elif bits == 32: self.assume(ps, And(v >= -(1 << 31), v < (1 << 31)))
        elif bits == 16: self.assume(ps, And(v >= 0, v < 65536))
        elif bits == 8: self.assume(ps, And(v >= 0, v < 256))

    def const_int(self, n, bits):
        if bits == 1: return BoolVal(n != 0)
        if bits == 64: return IntVal(n % W64)
        if bits == 32:
            n %= W32
            return IntVal(n - W32 if n >= W32 // 2 else n)
        return IntVal(n % (1 << bits))

    def val(self, ps, fr, ty, v):
        k = v[0]
        if k == 'loc':
            key = (fr.depth, v[1])
            if key in ps.env: return ps.env[key]
            raise Unsupported('use of undefined value %' + v[1])
        if k == 'int': return self.const_int(v[1], ty.bits)
        if k == 'null': return NULL
        if k == 'undef': return Undef()
        if k == 'glob':
            g = v[1]
            if g in self.m.funcs or g in self.m.decls: return self.w.fptr(g)
            self.used_globals.add(g)
            return mk(IntVal(self.w.gid[g]), IntVal(0))
        if k == 'zero':
            if ty.kind == 'int': return self.const_int(0, ty.bits)
            return NULL
        if k == 'gep':
            base = self.val(ps, fr, PTRT, v[2][0][1])
            return self.gep(ps, fr, v[1], base, v[2][1:])
        raise Unsupported('value ' + repr(v))

    def sidx(self, e, bits):
        """signed value of a canonical index"""
        if z3.is_int_value(e):
            n = e.as_long()
            if bits == 64 and n >= W64 // 2: n -= W64
            return IntVal(n)
        if bits == 64: return If(e >= W64 // 2, e - W64, e)
        return e

    def gep(self, ps, fr, bt, base, idx):
        vals = [(t, self.val(ps, fr, t, v)) for t, v in idx]
        if isinstance(base, FieldAddr):
            st = self.m.structs[base.st][base.fi]
            # nested struct field
            if st.kind == 'struct' and bt.kind == 'struct':
                base = self.subptr(base)
            else:
                raise Unsupported('gep on field address')
        t0, i0 = vals[0]
        i0 = self.sidx(i0, t0.bits)
        cur = bt
        off = i0
        zero0 = z3.is_int_value(i0) and i0.as_long() == 0
        if bt.kind == 'array':
            # arrays: element units
            off = simplify(i0 * bt.n) if not zero0 else IntVal(0)
            if len(vals) > 1:
                t1, i1 = vals[1]
                off = simplify(off + self.sidx(i1, t1.bits))
                cur = bt.elem
                if cur.kind == 'array': raise Unsupported('nested array')
                rest = vals[2:]
            else:
                rest = []
            p = base if z3.is_int_value(off) and off.as_long() == 0 else mk(O(base), simplify(OFF(base) + off))
        else:
            p = base if zero0 else mk(O(base), simplify(OFF(base) + i0))
            rest = vals[1:]
        while rest:
            if cur.kind != 'struct': raise Unsupported('gep into %r' % cur)
            t, k = rest[0]
            fi = k.as_long()
            if isinstance(p, FieldAddr):
                p = self.subptr(p)
            p = FieldAddr(cur.name, fi, p)
            cur = self.m.structs[cur.name][fi]
            rest = rest[1:]
            if rest and cur.kind == 'array': raise Unsupported('array in struct')
        return p

    def subptr(self, fa):
        ty = self.m.structs[fa.st][fa.fi]
        if ty.kind != 'struct': raise Unsupported('address of scalar field escapes')
        fn = Function('sub.%s.%s' % (fa.st, self.m.fields[fa.st][fa.fi]), Ptr, Ptr)
        return fn(fa.base)

    def as_ptr(self, v):
        if isinstance(v, FieldAddr):
            return self.subptr(v)
        return v

    # ------------------------------------------------------------ memory access
    def is_local_obj(self, o):
        return z3.is_int_value(o) and -900 < o.as_long() < 0

    def chk_ptr(self, ps, p, dbg, what, size_fn):
        o, f = O(p), OFF(p)
        self.oblige(ps, 'bounds', what, And(o != 0, f >= 0, f < size_fn(o)), dbg)

    def load(self, ps, ty, addr, dbg):
        if isinstance(addr, FieldAddr):
            nm = self.m.fields[addr.st][addr.fi]
            hn = 'F.%s.%s' % (addr.st, nm)
            if hn not in FIELD_SORT: raise Unsupported('load of nested struct')
            self.oblige(ps, 'valid', 'read %s.%s' % (addr.st, nm), ok(addr.st)(addr.base), dbg)
            v = sel(ps.mem.get(hn), addr.base)
            fty = self.m.structs[addr.st][addr.fi]
            if ty.kind == 'ptr':
                self.assume(ps, pobj(v) >= 0)
                ps.prov[v.get_id()] = (addr.st, nm, addr.base)
                self.keep.append(v)
            else:
                self.int_range(v, fty.bits, ps)
                if ty.bits != fty.bits: raise Unsupported('field load width')
            return v
        o, f = O(addr), OFF(addr)
        if ty.kind == 'ptr':
            self.chk_ptr(ps, addr, dbg, 'read pointer cell', psize)
            v = sel(inner(ps.mem.get('PC'), o), f)
            if not self.is_local_obj(o):
                self.assume(ps, Or(pobj(v) >= 0, pobj(v) <= -1000))
            return v
        if ty.kind == 'int' and ty.bits == 8:
            self.chk_ptr(ps, addr, dbg, 'read byte', bsize)
            v = sel(inner(ps.mem.get('M8'), o), f)
            self.int_range(v, 8, ps)
            return v
        if ty.kind == 'int' and ty.bits == 64:
            g = self.global_of(o)
            if g is not None:
                gt, init, const, _ = self.m.globals[g]
                if const and gt.kind == 'int' and init and init[0] == 'int':
                    return self.const_int(init[1], 64)
            self.chk_ptr(ps, addr, dbg, 'read int cell', isize)
            v = sel(inner(ps.mem.get('IC'), o), f)
            self.int_range(v, 64, ps)
            return v
        if ty.kind == 'int' and ty.bits == 32:
            self.chk_ptr(ps, addr, dbg, 'read int cell', isize)
            v = sel(inner(ps.mem.get('IC'), o), f)
            self.int_range(v, 32, ps)
            return v
        raise Unsupported('load %r' % ty)

    def global_of(self, o):
        if z3.is_int_value(o):
            n = o.as_long()
            for g, i in self.w.gid.items():
                if i == n: return g
        return None

    def store(self, ps, ty, v, addr, dbg):
        if isinstance(addr, FieldAddr):
            nm = self.m.fields[addr.st][addr.fi]
            hn = 'F.%s.%s' % (addr.st, nm)
            if hn not in FIELD_SORT: raise Unsupported('store of nested struct')
            self.oblige(ps, 'valid', 'write %s.%s' % (addr.st, nm), ok(addr.st)(addr.base), dbg)
            v = self.as_ptr(v) if ty.kind == 'ptr' else v
            if ty.kind == 'ptr':
                self.oblige(ps, 'dangling', 'no stack pointer in %s.%s' % (addr.st, nm), O(v) >= 0, dbg)
            self.write_field(ps, addr.st, nm, addr.base, v, dbg)
            return
        o, f = O(addr), OFF(addr)
        if ty.kind == 'ptr':
            v = self.as_ptr(v)
            self.chk_ptr(ps, addr, dbg, 'write pointer cell', psize)
            if not self.is_local_obj(o):
                self.oblige(ps, 'dangling', 'no stack pointer in caller memory', Or(O(v) >= 0, O(v) <= -1000), dbg)
            self.write_frame(ps, 'C', o, f, f + 1, dbg)
            M = ps.mem.get('PC')
            ps.mem.set('PC', Store(M, o, Store(inner(M, o), f, v)))
            return
        if ty.kind == 'int' and ty.bits == 8:
            self.chk_ptr(ps, addr, dbg, 'write byte', bsize)
            self.oblige(ps, 'const', 'write to read-only object', Not(cst(o)), dbg)
            self.write_frame(ps, 'B', o, f, f + 1, dbg)
            M = ps.mem.get('M8')
            ps.mem.set('M8', Store(M, o, Store(inner(M, o), f, v)))
            return
        if ty.kind == 'int' and ty.bits in (32, 64):
            self.chk_ptr(ps, addr, dbg, 'write int cell', isize)
            self.write_frame(ps, 'I', o, f, f + 1, dbg)
            M = ps.mem.get('IC')
            ps.mem.set('IC', Store(M, o, Store(inner(M, o), f, v)))
            return
        raise Unsupported('store %r' % ty)

    def write_field(self, ps, st, nm, base, v, dbg, chk=True):
        hn = 'F.%s.%s' % (st, nm)
        if chk:
            alts = []
            for m in self.mods:
                if m[0] == 'F' and m[1] == st and m[2] == nm: alts.append(base == m[3])
                elif m[0] == 'Fall' and m[1] == st and m[2] == nm:
                    alts.append(m[3](base) if len(m) > 3 else BoolVal(True))
                elif m[0] == 'LV' and isinstance(m[1], FieldAddr) and m[1].st == st and self.m.fields[st][m[1].fi] == nm:
                    alts.append(base == m[1].base)
            if any(z3.is_true(simplify(x)) for x in alts): g = BoolVal(True)
            else: g = Or(*alts) if alts else BoolVal(False)
            self.oblige(ps, 'frame', 'write %s.%s' % (st, nm), g, dbg)
        self.rec('F', hn, base)
        ps.mem.set(hn, Store(ps.mem.get(hn), base, v))

    def layout(self, ty):
        """(size, alignment) of a type"""
        if ty.kind == 'ptr': return 8, 8
        if ty.kind == 'int': return max(1, ty.bits // 8), max(1, ty.bits // 8)
        if ty.kind == 'array':
            n, a = self.layout(ty.elem); return n * ty.n, a
        if ty.kind == 'struct':
            o, al = 0, 1
            for f in self.m.structs[ty.name]:
                n, a = self.layout(f)
                o = (o + a - 1) // a * a + n; al = max(al, a)
            return (o + al - 1) // al * al, al
        raise Unsupported('layout of %r' % ty)

    def clear_struct(self, ps, vals, dbg):
        """memset(p, 0, sizeof(struct S)): every field becomes zero"""
        p, v, n = self.as_ptr(vals[0]), simplify(vals[1]), simplify(vals[2])
        if not (z3.is_int_value(v) and v.as_long() == 0 and z3.is_int_value(n)): return False
        cand = [st for st in self.m.structs if st in self.m.fields and any(k.startswith('F.%s.' % st) for k in FIELD_SORT) and self.layout(ir.Ty('struct', name=st))[0] == n.as_long()]
        if len(cand) != 1: return False

        def clear(st, b):
            self.oblige(ps, 'valid', 'clear struct %s' % st, ok(st)(b), dbg)
            for i, nm in enumerate(self.m.fields[st]):
                ty = self.m.structs[st][i]
                if ty.kind == 'struct':
                    clear(ty.name, self.subptr(FieldAddr(st, i, b)))
                elif ty.kind == 'ptr': self.write_field(ps, st, nm, b, NULL, dbg)
                elif ty.kind == 'int': self.write_field(ps, st, nm, b, IntVal(0), dbg)
                else: raise Unsupported('clear of field %s' % nm)
        clear(cand[0], p)
        return True

    def rec(self, *a):
        if self.dryrec is not None:
            self.dryrec.append(a)

    def write_frame(self, ps, kind, o, lo, hi, dbg, name='write'):
        """check that [lo,hi) of object o may be written"""
        self.rec(kind, o)
        if self.is_local_obj(o): return
        alts = []
        for m in self.mods:
            if m[0] == kind:
                mo = m[1]
                if len(m) > 2: alts.append(And(o == mo, lo >= m[2], hi <= m[3]))
                else: alts.append(o == mo)
            elif m[0] == 'LV' and kind == 'C' and not isinstance(m[1], FieldAddr):
                alts.append(And(o == O(m[1]), lo >= OFF(m[1]), hi <= OFF(m[1]) + 1))
            elif m[0] == 'U':
                alts.append(And(Not(cst(o)), self.own_buffer(o)) if kind == 'B' else BoolVal(False))
        g = Or(*(alts + [hi <= lo])) if alts else (hi <= lo)
        self.oblige(ps, 'frame', '%s %s' % (name, {'B': 'bytes', 'C': 'pointer cells', 'I': 'int cells'}[kind]), g, dbg)

    def own_buffer(self, o):
        """o is a buffer of this instance (user memory may change through callbacks only)"""
        s = self.c.s; me = self.c.a.get('self')
        if me is None: return BoolVal(False)
        d = s.ob(me, 'desc')
        return Or(o == O(s.ds(d, 'input_buffer')), o == O(s.ds(d, 'output_buffer')))

    # ------------------------------------------------------------ havoc by modifies clause
    def havoc(self, ps, mods, dbg, callee, check=True):
        for m in mods:
            if m[0] == 'F':
                hn = 'F.%s.%s' % (m[1], m[2])
                v = fresh('hv_' + m[2], FIELD_SORT[hn])
                if check:
                    alts = []
                    for x in self.mods:
                        if x[0] == 'F' and x[1] == m[1] and x[2] == m[2]: alts.append(m[3] == x[3])
                        elif x[0] == 'Fall' and x[1] == m[1] and x[2] == m[2]:
                            alts.append(x[3](m[3]) if len(x) > 3 else BoolVal(True))
                    g = Or(*alts) if alts else BoolVal(False)
                    self.oblige(ps, 'frame', 'call %s modifies %s.%s' % (callee, m[1], m[2]), g, dbg)
                self.rec('F', hn, m[3])
                ps.mem.set(hn, Store(ps.mem.get(hn), m[3], v))
                if FIELD_SORT[hn] == Ptr: self.assume(ps, pobj(v) >= 0)
                else: self.int_range(v, self.field_bits(m[1], m[2]), ps)
            elif m[0] in ('Fall', 'UFall'):      # UFall: changed by callbacks of the user only
                hn = 'F.%s.%s' % (m[1], m[2])
                old = ps.mem.get(hn)
                new = fresh('hF_' + m[2], old.sort())
                if check:
                    q = fresh('q', Ptr)
                    alts = []
                    for x in self.mods:
                        if x[0] == 'F' and x[1] == m[1] and x[2] == m[2]: alts.append(q == x[3])
                        elif x[0] in (('Fall', 'UFall') if m[0] == 'UFall' else ('Fall',)) and x[1] == m[1] and x[2] == m[2]:
                            alts.append(x[3](q) if len(x) > 3 else BoolVal(True))
                    pre = m[3](q) if len(m) > 3 else BoolVal(True)
                    self.oblige(ps, 'frame', 'call %s modifies %s.%s' % (callee, m[1], m[2]),
                                Implies(pre, Or(*alts) if alts else BoolVal(False)), dbg)
                self.rec('F', hn, None)
                ps.mem.set(hn, new)
                if len(m) > 3:
                    self.assume(ps, ForAll([p_], Implies(Not(m[3](p_)), Select(new, p_) == Select(old, p_)),
                                           patterns=[Select(new, p_)]))
            elif m[0] == 'B':
                o = m[1]
                M = ps.mem.get('M8')
                old = inner(M, o)
                new = fresh('hB', AII)
                lo, hi = (m[2], m[3]) if len(m) > 2 else (None, None)
                if check:
                    self.write_frame(ps, 'B', o, lo if lo is not None else IntVal(0), hi if hi is not None else bsize(o), dbg, 'call %s modifies' % callee)
                else:
                    self.rec('B', o)
                ps.mem.set('M8', Store(M, o, new))
                if lo is not None:
                    self.assume(ps, ForAll([k_], Implies(Or(k_ < lo, k_ >= hi), Select(new, k_) == Select(old, k_)),
                                           patterns=[Select(new, k_)]))
                self.bytes_range(ps, new)
            elif m[0] == 'C':
                o = m[1]
                M = ps.mem.get('PC')
                old = inner(M, o)
                new = fresh('hC', AIP)
                lo, hi = (m[2], m[3]) if len(m) > 2 else (None, None)
                if check: self.write_frame(ps, 'C', o, lo if lo is not None else IntVal(0), hi if hi is not None else psize(o), dbg, 'call %s modifies' % callee)
                else: self.rec('C', o)
                ps.mem.set('PC', Store(M, o, new))
                if lo is not None:
                    self.assume(ps, ForAll([k_], Implies(Or(k_ < lo, k_ >= hi), Select(new, k_) == Select(old, k_)),
                                           patterns=[Select(new, k_)]))
            elif m[0] == 'I':
                o = m[1]
                M = ps.mem.get('IC')
                new = fresh('hI', AII)
                if check: self.write_frame(ps, 'I', o, IntVal(0), isize(o), dbg, 'call %s modifies' % callee)
                else: self.rec('I', o)
                ps.mem.set('IC', Store(M, o, new))
            elif m[0] == 'LV':
                a = m[1]
                if isinstance(a, FieldAddr):
                    self.havoc(ps, [('F', a.st, self.m.fields[a.st][a.fi], a.base)], dbg, callee, check)
                else:
                    self.havoc(ps, [('C', O(a), OFF(a), OFF(a) + 1)], dbg, callee, check)
            elif m[0] == 'G':
                if check and not any(x[0] == 'G' and x[1] == m[1] for x in self.mods):
                    self.oblige(ps, 'frame', 'call %s modifies ghost %s' % (callee, m[1]), BoolVal(False), dbg)
                self.rec('G', m[1])
                ps.mem.set('g.' + m[1], fresh('hG_' + m[1], GHOST_SORTS['g.' + m[1]]))
            elif m[0] == 'U':
                # user memory: every writable, non-stack, byte object
                if check and not any(x[0] == 'U' for x in self.mods):
                    self.oblige(ps, 'frame', 'call %s modifies user memory' % callee, BoolVal(False), dbg)
                elif check:
                    q = fresh('qo', I)
                    mine = [x[1](q) if len(x) > 1 else BoolVal(False) for x in self.mods if x[0] == 'U']
                    self.oblige(ps, 'frame', 'call %s modifies user memory' % callee, Implies(And(q >= 10000, Not(cst(q)), And(*mine)), m[1](q) if len(m) > 1 else BoolVal(False)), dbg)
                self.rec('U',)
                old = ps.mem.get('M8')
                new = fresh('hM8', M8S)
                ps.mem.set('M8', new)
                self.rigid(ps, new)
                excl = m[1] if len(m) > 1 else (lambda o: BoolVal(False))
                self.assume(ps, ForAll([o_], Implies(Or(cst(o_), o_ < 10000, excl(o_)), Select(new, o_) == Select(old, o_)),
                                       patterns=[Select(new, o_)]))
                self.assume(ps, ForAll([o_, k_], And(Select(Select(new, o_), k_) >= 0, Select(Select(new, o_), k_) < 256),
                                       patterns=[Select(Select(new, o_), k_)]))
            else:
                raise Unsupported('modifies ' + repr(m))

    def rigid(self, ps, M):
        self.assume(ps, ForAll([o_], Implies(cst(o_), Select(M, o_) == cmem(o_)), patterns=[Select(M, o_)]))

    def bytes_range(self, ps, A):
        self.assume(ps, ForAll([k_], And(Select(A, k_) >= 0, Select(A, k_) < 256), patterns=[Select(A, k_)]))

    def field_bits(self, st, nm):
        return self.m.structs[st][self.m.fields[st].index(nm)].bits

    # ------------------------------------------------------------ arithmetic
    def wrap(self, e, bits):
        if constite(e): return mapite(e, lambda x: self.wrap(x, bits))
        e = simplify(e)
        if z3.is_int_value(e): return self.const_int(e.as_long(), bits)
        n = 1 << bits
        if bits == 32:
            return If(e >= n // 2, e - n, If(e < -(n // 2), e + n, e))
        return If(e >= n, e - n, If(e < 0, e + n, e))

    def uns(self, e, bits):
        if bits == 32: return If(e < 0, e + W32, e) if not z3.is_int_value(e) else IntVal(e.as_long() % W32)
        return e

    def sgn(self, e, bits):
        if bits == 32: return e
        if constite(e): return mapite(e, lambda x: self.sgn(x, bits))
        h = 1 << (bits - 1)
        if z3.is_int_value(e):
            n = e.as_long(); return IntVal(n - 2 * h if n >= h else n)
        return If(e >= h, e - 2 * h, e)

    def modwrap(self, e, bits):
        """full modular reduction for mul / shl / trunc"""
        if constite(e): return mapite(e, lambda x: self.modwrap(x, bits))
        e = simplify(e)
        if z3.is_int_value(e): return self.const_int(e.as_long(), bits)
        n = 1 << bits
        if bits == 32:
            return If((e % n) >= n // 2, (e % n) - n, e % n)
        return e % n

    def binop(self, ps, op, ty, a, b, flags, dbg):
        bits = ty.bits
        if isinstance(a, P2I) or isinstance(b, P2I):
            if op == 'sub' and isinstance(a, P2I) and isinstance(b, P2I):
                self.oblige(ps, 'ptrdiff', 'pointers into one object', O(a.p) == O(b.p), dbg)
                return self.wrap(OFF(a.p) - OFF(b.p), 64)
            raise Unsupported('pointer arithmetic on integers')
        if bits == 1:
            if op == 'and': return And(a, b)
            if op == 'or': return Or(a, b)
            if op == 'xor': return z3.Xor(a, b)
            raise Unsupported('i1 ' + op)
        if op in ('add', 'sub'):
            e = a + b if op == 'add' else a - b
            if 'nsw' in flags and bits == 32:
                self.oblige(ps, 'overflow', 'signed ' + op, And(e >= -(1 << 31), e < (1 << 31)), dbg)
            if 'nsw' in flags and bits == 64:
                e2 = (self.sgn(a, 64) + self.sgn(b, 64)) if op == 'add' else (self.sgn(a, 64) - self.sgn(b, 64))
                self.oblige(ps, 'overflow', 'signed ' + op, And(e2 >= -(1 << 63), e2 < (1 << 63)), dbg)
            return self.wrap(e, bits)
        if op == 'mul':
            e = a * b
            if 'nsw' in flags and bits == 32:
                self.oblige(ps, 'overflow', 'signed mul', And(e >= -(1 << 31), e < (1 << 31)), dbg)
            return self.modwrap(e, bits)
        if op == 'shl' and z3.is_int_value(b):
            k = b.as_long()
            e = self.uns(a, bits) * (1 << k)
            if 'nsw' in flags and bits == 32:
                self.oblige(ps, 'overflow', 'signed shl', And(a >= 0, e < (1 << 31)), dbg)
            return self.modwrap(e, bits)
        if op in ('lshr', 'ashr') and z3.is_int_value(b):
            k = b.as_long()
            x = self.uns(a, bits) if op == 'lshr' else self.sgn(a, bits)
            return self.modwrap(x / (1 << k), bits)
        if op in ('udiv', 'urem') or op in ('sdiv', 'srem'):
            self.oblige(ps, 'div', 'division by zero', b != 0, dbg)
            if op in ('sdiv', 'srem'):
                x, y = self.sgn(a, bits), self.sgn(b, bits)
                if z3.is_int_value(y) and y.as_long() > 0:
                    q = If(x >= 0, x / y, -((-x) / y))
                else:
                    raise Unsupported('signed division by a variable')
                return self.wrap(q if op == 'sdiv' else x - q * y, bits)
            x, y = self.uns(a, bits), self.uns(b, bits)
            return self.modwrap(x / y if op == 'udiv' else x % y, bits)
        if op == 'or':
            if z3.is_int_value(a) and z3.is_int_value(b):
                return self.const_int(self.uns(a, bits).as_long() | self.uns(b, bits).as_long(), bits)
            return ior(self.uns(a, bits), self.uns(b, bits))
        if op == 'and':
            x, y = self.uns(a, bits), self.uns(b, bits)
            if z3.is_int_value(x): x, y = y, x
            if z3.is_int_value(y):
                n = y.as_long()
                if n & (n + 1) == 0: return self.wrap(x % (n + 1), bits)
                if n < 256 and n in (240,):
                    return self.wrap(iand(x, y), bits)
            return self.wrap(iand(x, y), bits)
        if op == 'xor' and z3.is_int_value(b) and b.as_long() in (-1, (1 << bits) - 1):
            return self.wrap(((1 << bits) - 1) - self.uns(a, bits), bits)
        raise Unsupported('binop ' + op)

    def icmp(self, pred, ty, a, b):
        if ty.kind == 'ptr':
            if isinstance(a, FieldAddr) or isinstance(b, FieldAddr):
                a = self.as_ptr(a); b = self.as_ptr(b)
            if pred == 'eq': return a == b
            if pred == 'ne': return a != b
            raise PtrCmp(pred, a, b)
        if isinstance(a, P2I) or isinstance(b, P2I):
            raise Unsupported('compare of pointer integers')
        bits = ty.bits
        if bits == 1:
            if pred == 'eq': return a == b
            if pred == 'ne': return a != b
            raise Unsupported('icmp i1')
        if pred == 'eq': return a == b
        if pred == 'ne': return a != b
        f = self.sgn if pred[0] == 's' else self.uns
        x, y = f(a, bits), f(b, bits)
        return {'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[pred[1:]]

    def cast(self, ps, op, t1, t2, v, dbg):
        if op == 'ptrtoint':
            if isinstance(v, FieldAddr): raise Unsupported('ptrtoint field')
            return P2I(v)
        if op in ('bitcast',): return v
        if op == 'inttoptr':
            raise Unsupported('inttoptr')
        if isinstance(v, P2I): raise Unsupported('cast of pointer integer')
        if t1.bits == 1:
            if op == 'zext': return If(v, IntVal(1), IntVal(0))
            if op == 'sext': return If(v, self.const_int(-1, t2.bits), IntVal(0))
        if op == 'zext':
            x = self.uns(v, t1.bits)
            return x
        if op == 'sext':
            x = self.sgn(v, t1.bits)
            if t2.bits == 32: return x
            return If(x < 0, x + (1 << t2.bits), x) if not z3.is_int_value(x) else self.const_int(x.as_long(), t2.bits)
        if op == 'trunc':
            if t2.bits == 1: return simplify(v % 2 == 1)
            return self.modwrap(v, t2.bits)
        raise Unsupported('cast ' + op)

    # ------------------------------------------------------------ locals
    def promotable(self, f):
        if getattr(f, '_promo', None) is not None: return f._promo
        cand = {}
        for b in f.order:
            for x in f.blocks[b].insts:
                if x.op == 'alloca' and x.a is None and (x.ty.kind in ('ptr',) or x.ty.kind == 'int'):
                    cand[x.res] = x.ty
        bad = set()

        def use(v):
            if v is not None and v[0] == 'loc': bad.add(v[1])
        for b in f.order:
            for x in f.blocks[b].insts:
                if x.op == 'load': continue
                if x.op == 'store':
                    use(x.a[0]); continue
                if x.op == 'gep':
                    for _, v in x.a: use(v)
                elif x.op == 'call':
                    for _, v in x.a[1]: use(v)
                    use(x.a[0])
                elif x.op in ('bin', 'icmp'):
                    use(x.a[1]); use(x.a[2])
                elif x.op == 'cast': use(x.a[2])
                elif x.op == 'phi':
                    for v, _ in x.a: use(v)
                elif x.op == 'select':
                    for v in x.a: use(v)
                elif x.op == 'ret': use(x.a)
                elif x.op == 'br' and len(x.a) == 3: use(x.a[0])
                elif x.op == 'switch': use(x.a[0])
        # type consistency
        f._promo = {k: v for k, v in cand.items() if k not in bad}
        return f._promo

    # ------------------------------------------------------------ execution
    def run(self):
        """generate all obligations of the function"""
        self.keep = []
        ps = PathState()
        args = {}
        f = self.f
        if len(f.params) < len(self.con.params):
            raise Unsupported('parameter count of %s' % self.fname)
        vals = []
        for (ty, nm), pn in zip(f.params, self.con.params):
            if ty.kind == 'ptr':
                v = Const('arg_' + pn, Ptr)
                self.assume(ps, Or(pobj(v) >= 0, pobj(v) <= -1000))
            elif ty.bits == 1:
                v = Const('arg_' + pn, B)
            else:
                v = Const('arg_' + pn, I)
                self.int_range(v, ty.bits, ps)
            args[pn] = v; vals.append(v)
        ps.mem.get('M8')
        mem0 = ps.mem.copy()
        self.mem0 = mem0
        c = Ctx(self.w, self.fname, args, State(mem0, self.w))
        self.c = c
        self.mods = list(self.con.modifies(c))
        # base facts
        self.base_facts(ps)
        for cl in clauses(self.con.requires(c)):
            self.assume(ps, cl.f)
        if self.con.facts:
            for x in self.con.facts(c): self.assume(ps, x)
        for k in mem0.d: ps.mem.get(k)
        self.pre_facts = list(ps.facts)
        fr = Frame(f, 0)
        for (ty, nm), v in zip(f.params, vals):
            ps.env[(0, nm)] = v

        def k_ret(ps2, rv, dbg):
            self.at_return(ps2, rv, dbg)
        self.exec_block(ps, fr, f.order[0], None, k_ret, [])
        return self.obls

    def base_facts(self, ps):
        M = self.mem0.get('M8')
        self.rigid(ps, M)
        self.assume(ps, ForAll([o_, k_], And(Select(Select(M, o_), k_) >= 0, Select(Select(M, o_), k_) < 256),
                               patterns=[Select(Select(M, o_), k_)]))
        self.assume(ps, ForAll([o_], Implies(Or(o_ <= 0), Not(cst(o_))), patterns=[cst(o_)]))
        self.assume(ps, ForAll([o_], And(bsize(o_) >= 0, bsize(o_) < 2 ** 62), patterns=[bsize(o_)]))

    def literal_facts(self, globs, M=None):
        """facts about constant globals"""
        out = []
        todo = sorted(globs); seen = set()
        while todo:
            g = todo.pop()
            if g in seen: continue
            seen.add(g)
            if g in self.m.funcs or g not in self.w.gid: continue
            i = IntVal(self.w.gid[g])
            by = self.w.gbytes(g)
            if by is not None and self.w.is_opt_const(g):
                A = cmem(i)
                out.append(cst(i)); out.append(bsize(i) == len(by))
                out.append(And(*[Select(A, k) == by[k] for k in range(len(by))]))
                z = by.find(0)
                if z >= 0:
                    for k in range(z + 1): out.append(zend(A, IntVal(k)) == z)
                continue
            ty, init, const, _ = self.m.globals[g]
            if const and init and init[0] == 'arr' and ty.elem.kind == 'struct':
                st = ty.elem.name
                for k, (ety, ev) in enumerate(init[1]):
                    p = mk(i, IntVal(k))
                    out.append(ok(st)(p))
                    for fi, nm in enumerate(self.m.fields[st]):
                        hn = 'F.%s.%s' % (st, nm)
                        v = ev[1][fi][1] if ev[0] == 'struct' else ('zero',)
                        if v[0] == 'glob':
                            x = v[1]
                            if x in self.w.fid: val = self.w.fptr(x)
                            else:
                                val = mk(IntVal(self.w.gid[x]), IntVal(0)); todo.append(x)
                        elif v[0] in ('null', 'zero'): val = NULL
                        else: continue
                        out.append(Select(self.mem0.get(hn), p) == val)
        return out

    def set_ghost(self, ps, k, v):
        """ghost variables are named by constants (quantifier patterns need it)"""
        if z3.is_app(v) and v.num_args():
            x = fresh('g_' + k, v.sort())
            self.assume(ps, x == v)
            v = x
        ps.mem.set('g.' + k, v)

    def name_mem(self, ps):
        """give arrays built by stores a name (quantifier patterns need constants)"""
        for hn in ('M8', 'PC'):
            if hn not in ps.mem.d: continue
            M = ps.mem.d[hn]
            st = []
            while z3.is_app(M) and M.decl().kind() == z3.Z3_OP_STORE:
                st.append((M.arg(1), M.arg(2))); M = M.arg(0)
            if all(z3.is_app(v) and v.num_args() == 0 for _, v in st): continue
            for o, v in reversed(st):
                if not (z3.is_app(v) and v.num_args() == 0):
                    x = fresh('nm_' + hn, v.sort())
                    self.assume(ps, x == v)
                    if hn == 'M8': self.bytes_range(ps, x)
                    v = x
                M = Store(M, o, v)
            ps.mem.set(hn, M)
        for hn in list(ps.mem.d):
            if hn.startswith('F.ush_node_object.'):
                v = ps.mem.d[hn]
                if z3.is_app(v) and v.num_args():
                    x = fresh('nm_' + hn[18:], v.sort())
                    self.assume(ps, x == v)
                    ps.mem.set(hn, x)

    def name_vars(self, ps):
        """give conditional values of locals a name (patterns must not contain if-then-else)"""
        def ite(e):
            return z3.is_app(e) and (e.decl().kind() == z3.Z3_OP_ITE or any(ite(x) for x in e.children()))
        def nm(e):
            if z3.is_app(e) and not z3.is_bool(e) and ite(e):
                if e.sort().eq(Ptr) and e.decl().eq(mk): return mk(nm(e.arg(0)), nm(e.arg(1)))
                x = fresh('nv', e.sort())
                self.assume(ps, x == e)
                return x
            return e
        for k, v in list(ps.var.items()):
            if z3.is_expr(v): ps.var[k] = nm(v)

    def at_return(self, ps, rv, dbg):
        self.paths += 1
        self.reach_ret += 1
        if self.dry: return
        self.ret_facts.append(list(ps.facts))
        c = self.c
        self.name_mem(ps)
        # ghost updates
        t = State(ps.mem, self.w)
        c2 = Ctx(self.w, self.fname, c.a, c.s, t, rv)
        gh = self.con.ghost(c2)
        for k, v in gh.items(): self.set_ghost(ps, k, v)
        t = State(ps.mem, self.w)
        c2 = Ctx(self.w, self.fname, c.a, c.s, t, rv)
        if self.con.exit_lemmas:
            for nm, lf in self.con.exit_lemmas(c2):
                self.oblige(ps, 'lemma', nm, lf, dbg)
        base = list(ps.facts)
        for cl in clauses(self.con.ensures(c2)):
            ps.facts = list(base)
            for x in (cl.lem or []): ps.facts.append(x)
            if cl.cases:
                # a quantified clause proved case by case for arbitrary fixed values
                n = cl.f.num_vars()
                vs_ = [fresh('sk_' + cl.f.var_name(i), cl.f.var_sort(i)) for i in range(n)]
                body = z3.substitute_vars(cl.f.body(), *reversed(vs_))
                cs = cl.cases(*vs_)
                fs = list(ps.facts)
                for q, cnd in enumerate(list(cs) + [Not(Or(*cs))]):
                    ps.facts = fs + [cnd]
                    self.oblige(ps, 'post', cl.name, body, dbg)
            else:
                self.oblige(ps, 'post', cl.name, cl.goal if cl.goal is not None else cl.f, dbg)
            base = base + [cl.f]
        ps.facts = base

    def exec_block(self, ps, fr, bname, pred, k_ret, loopstack):
        """DFS continuation style"""
        while True:
            if self.paths > self.maxpaths: raise Unsupported('too many paths')
            loops = natural_loops(fr.f)
            # dry runs stop where the body is left
            if any(dd == fr.depth and bname not in bb for dd, bb in getattr(self, 'dry_bodies', ())):
                return
            # leaving loops
            loopstack = [l for l in loopstack if not (l['depth'] == fr.depth and bname not in l['body'])]
            if bname in loops:
                active = [l for l in loopstack if l['depth'] == fr.depth and l['header'] == bname]
                # phis at loop headers are not produced at -O0 except && / || merges
                if active:
                    active[-1]['back'](ps)
                    return
                heads, loopstack = self.enter_loop(ps, fr, bname, loops[bname], pred, k_ret, loopstack)
                for h in heads[1:]:
                    r = self.exec_header(h, fr, bname, pred, k_ret, loopstack)
                    if r is not None: self.exec_block(r[0], fr, r[1], r[2], k_ret, loopstack)
                ps = heads[0]
            r = self.exec_header(ps, fr, bname, pred, k_ret, loopstack)
            if r is None: return
            ps, bname, pred = r

    def exec_header(self, ps, fr, bname, pred, k_ret, loopstack):
            blk = fr.f.blocks[bname]
            # phis
            new = {}
            for x in blk.insts:
                if x.op != 'phi': break
                for v, b in x.a:
                    if b == pred:
                        new[(fr.depth, x.res)] = self.val(ps, fr, x.ty, v); break
                else:
                    raise Unsupported('phi without predecessor (loop header)')
            ps.env.update(new)
            return self.exec_insts(ps, fr, blk, 0, k_ret, loopstack)

    def exec_insts(self, ps, fr, blk, idx, k_ret, loopstack):
        insts = blk.insts
        d = fr.depth
        i = idx
        while i < len(insts):
            x = insts[i]
            op = x.op
            if op == 'phi': i += 1; continue
            if op == 'unsupported': raise Unsupported('instruction: ' + str(x.a)[:120])
            if op == 'alloca':
                self.do_alloca(ps, fr, x)
            elif op == 'load':
                v = x.a
                if v[0] == 'loc' and v[1] in self.promotable(fr.f):
                    key = (d, v[1])
                    if key not in ps.var or isinstance(ps.var[key], Undef):
                        # uninitialised read: arbitrary value, reported as obligation
                        self.oblige(ps, 'uninit', 'read of uninitialised ' + v[1], BoolVal(False), x.dbg)
                        ps.var[key] = self.fresh_val(ps, x.ty, v[1])
                    val = ps.var[key]
                    if x.ty.kind == 'int' and x.ty.bits == 8 and z3.is_bool(val):
                        val = If(val, IntVal(1), IntVal(0))
                    ps.env[(d, x.res)] = val
                else:
                    a = self.val(ps, fr, PTRT, v)
                    if v[0] == 'glob' and v[1] == 'stderr':
                        ps.env[(d, x.res)] = fresh('stderr', Ptr)
                    else:
                        ps.env[(d, x.res)] = self.load(ps, x.ty, a, x.dbg)
            elif op == 'store':
                v, dst = x.a
                val = self.val(ps, fr, x.ty, v)
                if dst[0] == 'loc' and dst[1] in self.promotable(fr.f):
                    ps.var[(d, dst[1])] = val
                else:
                    a = self.val(ps, fr, PTRT, dst)
                    self.store(ps, x.ty, val, a, x.dbg)
            elif op == 'gep':
                base = self.val(ps, fr, PTRT, x.a[0][1])
                ps.env[(d, x.res)] = self.gep(ps, fr, x.ty, base, x.a[1:])
            elif op == 'bin':
                o, a, b = x.a
                ps.env[(d, x.res)] = self.binop(ps, o, x.ty, self.val(ps, fr, x.ty, a), self.val(ps, fr, x.ty, b), x.flags, x.dbg)
            elif op == 'icmp':
                pr, a, b = x.a
                av, bv = self.val(ps, fr, x.ty, a), self.val(ps, fr, x.ty, b)
                try:
                    r = self.icmp(pr, x.ty, av, bv)
                except PtrCmp:
                    self.oblige(ps, 'ptrcmp', 'pointers into one object', O(av) == O(bv), x.dbg)
                    y, z = OFF(av), OFF(bv)
                    r = {'gt': y > z, 'ge': y >= z, 'lt': y < z, 'le': y <= z}[pr[1:]]
                ps.env[(d, x.res)] = r
            elif op == 'cast':
                o, t1, v = x.a
                ps.env[(d, x.res)] = self.cast(ps, o, t1, x.ty, self.val(ps, fr, t1, v), x.dbg)
            elif op == 'select':
                cnd = self.val(ps, fr, ir.Ty('int', 1), x.a[0])
                a, b = self.val(ps, fr, x.ty, x.a[1]), self.val(ps, fr, x.ty, x.a[2])
                ps.env[(d, x.res)] = If(cnd, self.as_ptr(a), self.as_ptr(b)) if x.ty.kind == 'ptr' else If(cnd, a, b)
            elif op == 'br':
                if len(x.a) == 1:
                    return ps, x.a[0], blk.name
                cnd = simplify(self.val(ps, fr, ir.Ty('int', 1), x.a[0]))
                if z3.is_true(cnd): return ps, x.a[1], blk.name
                if z3.is_false(cnd): return ps, x.a[2], blk.name
                self.fork(ps, fr, blk.name, [(cnd, x.a[1]), (Not(cnd), x.a[2])], x.dbg, k_ret, loopstack)
                return None
            elif op == 'switch':
                v = self.val(ps, fr, x.ty, x.a[0])
                alts = []
                neg = []
                for cv, l in x.a[2]:
                    ce = self.const_int(cv, x.ty.bits)
                    alts.append((v == ce, l)); neg.append(v != ce)
                # merge same targets
                merged = {}
                for e, l in alts: merged.setdefault(l, []).append(e)
                al = [(Or(*es) if len(es) > 1 else es[0], l) for l, es in merged.items()]
                al.append((And(*neg) if neg else BoolVal(True), x.a[1]))
                self.fork(ps, fr, blk.name, al, x.dbg, k_ret, loopstack)
                return None
            elif op == 'ret':
                rv = None if x.a is None else self.val(ps, fr, x.ty, x.a)
                k_ret(ps, rv, x.dbg)
                return None
            elif op == 'unreachable':
                self.oblige(ps, 'unreachable', 'unreachable code', BoolVal(False), x.dbg)
                return None
            elif op == 'call':
                r = self.do_call(ps, fr, x, blk, i, k_ret, loopstack)
                if r == 'stop': return None
            else:
                raise Unsupported(op)
            i += 1
        raise Unsupported('fell off block')

    def fork(self, ps, fr, bname, alts, dbg, k_ret, loopstack):
        for cnd, l in alts:
            cnd = simplify(cnd)
            if z3.is_false(cnd): continue
            q = ps.copy()
            q.facts.append(cnd)
            q.trail.append('%s->%s' % (self.line(dbg) or bname, l))
            if not z3.is_true(cnd) and not self.feasible(q): continue
            self.exec_block(q, fr, l, bname, k_ret, list(loopstack))

    def fresh_val(self, ps, ty, nm):
        if ty.kind == 'ptr':
            return fresh(nm, Ptr)
        if ty.bits == 1: return fresh(nm, B)
        v = fresh(nm, I); self.int_range(v, ty.bits, ps)
        return v

    def new_local(self):
        self.nlocal += 1
        if self.nlocal > 800: raise Unsupported('too many local objects')
        return IntVal(-self.nlocal)

    def do_alloca(self, ps, fr, x):
        key = (fr.depth, x.res)
        if x.res in self.promotable(fr.f):
            ps.var[key] = Undef(); return
        o = self.new_local()
        ps.env[key] = mk(o, IntVal(0))
        n = IntVal(1)
        ty = x.ty
        if x.a is not None:
            n = self.val(ps, fr, x.a[0], x.a[1])
            self.oblige(ps, 'vla', 'positive array length', n > 0, x.dbg)
        if ty.kind == 'array':
            n = simplify(n * ty.n); ty = ty.elem
        if ty.kind == 'int' and ty.bits == 8: self.assume(ps, And(bsize(o) == n, psize(o) == 0, isize(o) == 0))
        elif ty.kind == 'ptr': self.assume(ps, And(psize(o) == n, bsize(o) == 0, isize(o) == 0))
        elif ty.kind == 'int' and ty.bits in (32, 64): self.assume(ps, And(isize(o) == n, bsize(o) == 0, psize(o) == 0))
        elif ty.kind == 'struct':
            self.assume(ps, And(isize(o) == 0, bsize(o) == 0, psize(o) == 0))
            self.assume(ps, ok(ty.name)(mk(o, IntVal(0))))
            self.mods.append(('Fstack', ty.name, o))
            if ty.name != '__va_list_tag':
                raise Unsupported('local struct')
        else:
            raise Unsupported('alloca %r' % ty)
        self.assume(ps, Not(cst(o)))

    # ------------------------------------------------------------ calls
    def do_call(self, ps, fr, x, blk, idx, k_ret, loopstack):
        callee, args = x.a
        d = fr.depth
        if callee[0] == 'glob':
            name = callee[1]
            if name.startswith('llvm.stack') :
                if x.res: ps.env[(d, x.res)] = NULL
                return
            if name.startswith('llvm.va_') or name.startswith('llvm.lifetime') or name.startswith('llvm.dbg'):
                return
            if name == 'exit' or name == 'abort':
                self.oblige(ps, 'assert', 'USH_ASSERT / exit not reached', BoolVal(False), x.dbg)
                return 'stop'
            if name == 'fprintf':
                if x.res: ps.env[(d, x.res)] = self.fresh_val(ps, x.ty, 'fprintf')
                return
            name2 = name
            if name.startswith('llvm.memcpy'): name2 = 'memcpy'
            elif name.startswith('llvm.memset'): name2 = 'memset'
            elif name.startswith('llvm.memmove'): name2 = 'memmove'
            vals = [self.val(ps, fr, t, v) for t, v in args]
            key = name2
            if key == 'memset' and self.clear_struct(ps, vals, x.dbg):
                if x.res: ps.env[(d, x.res)] = vals[0]
                return
            if key in CONTRACTS:
                con = CONTRACTS[key]
            elif name in self.m.funcs:
                return self.inline(ps, fr, self.m.funcs[name], vals, x, blk, idx, k_ret, loopstack)
            else:
                raise Unsupported('call of external %s without contract' % name)
        else:
            fv = self.val(ps, fr, PTRT, callee)
            pv = ps.prov.get(fv.get_id())
            if pv is None: raise Unsupported('indirect call through unknown pointer')
            vals = [self.val(ps, fr, t, v) for t, v in args]
            self.oblige(ps, 'null', 'call through %s.%s' % pv[:2], fv != NULL, x.dbg)
            key = '*%s.%s' % (pv[0], pv[1])
            if key not in CONTRACTS: raise Unsupported('no contract for callback ' + key)
            con = CONTRACTS[key]
            vals = vals + [pv[2], fv]
        rv = self.apply(ps, con, vals, x)
        if x.res: ps.env[(d, x.res)] = rv

    def apply(self, ps, con, vals, x):
        self.called.add(con.name)
        np = len(con.params)
        vals = [self.subptr(v) if isinstance(v, FieldAddr) and self.m.structs[v.st][v.fi].kind == 'struct' else v for v in vals]
        args = dict(zip(con.params, vals))
        va = vals[np:]
        self.name_mem(ps)
        s = State(ps.mem.copy(), self.w)
        c = Ctx(self.w, con.name, args, s, site=x); c.va = va; c.eng = self; c.ps = ps
        eg = con.entry(c)
        if eg:
            for k, v in eg.items(): self.set_ghost(ps, k, v)
            s = State(ps.mem.copy(), self.w)
            c = Ctx(self.w, con.name, args, s, site=x); c.va = va; c.eng = self; c.ps = ps
        for cl in clauses(con.requires(c)):
            if cl.lem:
                for l in cl.lem: self.assume(ps, l)
            self.oblige(ps, 'pre', '%s.%s' % (con.name, cl.name), cl.goal if cl.goal is not None else cl.f, x.dbg, callee=con.name)
        if con.dec and con.name == self.fname:
            c0 = self.c
            self.oblige(ps, 'dec', 'recursion measure', And(con.dec(c) >= 0, con.dec(c) < con.dec(c0)), x.dbg)
        s = State(ps.mem.copy(), self.w)
        mods = list(con.modifies(c))
        self.havoc(ps, mods, x.dbg, con.name)
        rv = None
        if x.ty.kind == 'ptr':
            rv = fresh('r_' + con.name.strip('*'), Ptr)
        elif x.ty.kind == 'int':
            rv = self.fresh_val(ps, x.ty, 'r_' + con.name.strip('*'))
        t = State(ps.mem, self.w)
        c2 = Ctx(self.w, con.name, args, s, t, rv, site=x); c2.va = va; c2.eng = self; c2.ps = ps
        for k, v in con.ghost(c2).items(): self.set_ghost(ps, k, v)
        t = State(ps.mem, self.w)
        c2.t = t
        for cl in clauses(con.ensures(c2)):
            self.assume(ps, cl.f)
        return rv

    def inline(self, ps, fr, f, vals, x, blk, idx, k_ret, loopstack):
        if f is self.f or any(False for _ in ()): raise Unsupported('recursion without contract')
        self.inlined.add(f.name)
        self.depthctr += 1
        fr2 = Frame(f, fr.depth + 1000 * 0 + self.depthctr)
        fr2.level = getattr(fr, 'level', 0) + 1
        fr2.parent = fr
        if fr2.level > 6: raise Unsupported('inlining depth')
        for (ty, nm), v in zip(f.params, vals):
            ps.env[(fr2.depth, nm)] = v

        def k(ps2, rv, dbg):
            if x.res: ps2.env[(fr.depth, x.res)] = rv
            r = self.exec_insts(ps2, fr, blk, idx + 1, k_ret, loopstack)
            if r is not None:
                self.exec_block(r[0], fr, r[1], r[2], k_ret, loopstack)
        self.exec_block(ps, fr2, f.order[0], None, k, list(loopstack))
        return 'stop'

    # ------------------------------------------------------------ loops
    def stored_vars(self, fr, body):
        pr = self.promotable(fr.f)
        out = []
        for b in fr.f.order:
            if b not in body: continue
            for x in fr.f.blocks[b].insts:
                if x.op == 'store' and x.a[1][0] == 'loc' and x.a[1][1] in pr and x.a[1][1] not in out:
                    out.append(x.a[1][1])
        return out

    def havoc_vars(self, ps, fr, names, keepobj, carried=(), link=None):
        pr = self.promotable(fr.f)
        for n in names:
            key = (fr.depth, n)
            old = ps.var.get(key)
            ty = pr[n]
            if old is None or isinstance(old, Undef):
                ps.var[key] = self.fresh_val(ps, ty, n) if (self.dry or n in carried) and ty.kind == 'int' else Undef(); continue
            if isinstance(old, FieldAddr):
                if link and link[0] != (old.st, old.fi, None): ps.var[key] = FieldAddr(link[0][0], link[0][1], fresh(n + '_base', Ptr))
                continue
            if isinstance(old, P2I):
                raise Unsupported('loop variable ' + n)
            if ty.kind == 'ptr':
                if n in keepobj:
                    ps.var[key] = mk(O(old), fresh(n + '_off', I))
                else:
                    ps.var[key] = fresh(n, Ptr)
            else:
                if z3.is_bool(old): ps.var[key] = fresh(n, B)
                else: ps.var[key] = self.fresh_val(ps, ty, n)

    def enter_loop(self, ps, fr, header, body, pred, k_ret, loopstack):
        names = self.stored_vars(fr, body)
        pr = self.promotable(fr.f)
        # ---- phase 1: dry run to find what the body modifies
        keep = {n for n in names if pr[n].kind == 'ptr' and not isinstance(ps.var.get((fr.depth, n)), (Undef, type(None), FieldAddr))}
        # a pointer to a link field walks: at the loop head it is the field it started with, or one of the fields it is set to
        links = [n for n in names if isinstance(ps.var.get((fr.depth, n)), FieldAddr)]
        if len(links) > 1: raise Unsupported('loop variables ' + ' '.join(links))
        kinds = [None]
        lk = links[0] if links else None
        lk0 = ps.var[(fr.depth, lk)] if links else None

        def at_start(v): return v.st == lk0.st and v.fi == lk0.fi and simplify(v.base).eq(simplify(lk0.base))
        n0 = self.nlocal
        written = None              # heaps the body writes (second pass: only these are forgotten)
        def heaps_of(rec):
            return {'M8' if r[0] in ('B', 'U') else 'PC' if r[0] == 'C' else 'IC' if r[0] == 'I' else r[1] for r in rec if r[0] != 'G'}
        while True:
            mark = self.mark()
            oldrec = self.dryrec
            self.dryrec = []
            backs = []
            trials = []
            for kd in kinds:                     # kinds may grow
                dps = ps.copy()
                self.dry += 1
                self.havoc_vars(dps, fr, names, keep, (), (kd,) if kd else None)
                self.dry -= 1
                for h in list(dps.mem.d):
                    if h.startswith('g.') or (written is not None and h not in written): continue
                    dps.mem.set(h, fresh('dry', dps.mem.d[h].sort()))
                self.dry += 1
                paths0 = self.paths
                bk = []
                st = list(loopstack) + [dict(depth=fr.depth, header=header, body=body, back=lambda p, bk=bk: bk.append(p))]
                trials.append((dict(dps.var), dps.mem.copy(), bk))
                # stop at loop exit
                self.dry_body(dps, fr, header, body, pred, st)
                self.paths = paths0
                self.dry -= 1
                backs += bk
                for b in bk if lk else ():
                    v = b.var[(fr.depth, lk)]
                    if not isinstance(v, FieldAddr): raise Unsupported('loop variable ' + lk)
                    if not at_start(v) and (v.st, v.fi) not in kinds: kinds.append((v.st, v.fi))
            rec = self.dryrec
            self.dryrec = oldrec
            drop = set()
            for n in keep:
                o0 = simplify(O(ps.var[(fr.depth, n)]))
                for b in backs:
                    v = b.var.get((fr.depth, n))
                    if isinstance(v, (Undef, FieldAddr)) or not simplify(O(v)).eq(o0): drop.add(n)
            keep -= drop
            hs = heaps_of(rec)
            if written is not None and not drop and hs <= written: break
            written = hs if written is None else written | hs
        # ---- write set
        whole = set(); objs = {}; flds = {}; ghosts = set(); user = False
        for r in rec:
            if r[0] in ('B', 'C', 'I'):
                o = simplify(r[1])
                hn = {'B': 'M8', 'C': 'PC', 'I': 'IC'}[r[0]]
                if self.stale(o, mark) or (self.is_local_obj(o) and -o.as_long() > n0):
                    if self.is_local_obj(o): continue      # object local to the iteration
                    whole.add(hn)
                else:
                    objs.setdefault(hn, {})[o.get_id()] = o
            elif r[0] == 'F':
                hn, base = r[1], r[2]
                if base is None: whole.add(hn); continue
                b = simplify(base)
                if self.stale(b, mark): whole.add(hn)
                else: flds.setdefault(hn, {})[b.get_id()] = b
            elif r[0] == 'G': ghosts.add(r[1])
            elif r[0] == 'U': user = True
            if oldrec is not None: oldrec.append(r)
        # ---- an arbitrary state at the head of the loop
        def havoc(carried):
            hv = ps.copy()
            self.havoc_vars(hv, fr, names, keep, carried)
            heads = [hv]
            for hn in whole:
                old = hv.mem.get(hn)
                new = fresh('lh_' + hn, old.sort())
                hv.mem.set(hn, new)
                if hn == 'M8':
                    self.assume(hv, ForAll([o_, k_], And(Select(Select(new, o_), k_) >= 0, Select(Select(new, o_), k_) < 256),
                                           patterns=[Select(Select(new, o_), k_)]))
                    self.rigid(hv, new)
            for hn, dd in objs.items():
                if hn in whole: continue
                for o in dd.values():
                    M = hv.mem.get(hn)
                    new = fresh('lo_' + hn, AIP if hn == 'PC' else AII)
                    hv.mem.set(hn, Store(M, o, new))
                    if hn == 'M8': self.bytes_range(hv, new)
            for hn, dd in flds.items():
                if hn in whole: continue
                for b in dd.values():
                    v = fresh('lf', FIELD_SORT[hn])
                    hv.mem.set(hn, Store(hv.mem.get(hn), b, v))
                    if FIELD_SORT[hn] == Ptr: self.assume(hv, pobj(v) >= 0)
                    else:
                        _, st, nm = hn.split('.')
                        self.int_range(v, self.field_bits(st, nm), hv)
            for g in ghosts:
                hv.mem.set('g.' + g, fresh('lg_' + g, GHOST_SORTS['g.' + g]))
            if user:
                old = hv.mem.get('M8'); new = fresh('lhM8', M8S); hv.mem.set('M8', new)
                self.assume(hv, ForAll([o_], Implies(Or(cst(o_), o_ < 10000), Select(new, o_) == Select(old, o_)), patterns=[Select(new, o_)]))
                self.rigid(hv, new)
            for kd in kinds[1:]:
                h2 = hv.copy()
                h2.var[(fr.depth, lk)] = FieldAddr(kd[0], kd[1], fresh(lk + '_base', Ptr))
                heads.append(h2)
            return heads

        # ---- spec
        li = self.loopidx.setdefault((fr.f.name, header), len(self.loopidx)) if not self.dry else self.loopidx.get((fr.f.name, header), 0)
        if not self.dry: self.name_mem(ps); self.name_vars(ps)
        entry_var = dict(ps.var); entry_mem = ps.mem.copy()
        if not self.dry:
            mkL = lambda roles: LoopCtx(self, self.c, fr, header, entry_var, entry_mem, names, roles)
            auto = self.auto_links(fr, names, keep, pr, ps, trials)
            if self.choice.get('_l'):       # trial runs of the body from such a state
                trials = []
                self.dry += 1
                for h in havoc(()):
                    bk = []

                    def arrive(p, bk=bk):
                        self.name_mem(p); self.name_vars(p); bk.append(p)
                    trials.append((dict(h.var), h.mem.copy(), bk))
                    paths0 = self.paths
                    self.dry_body(h, fr, header, body, pred, list(loopstack) + [dict(depth=fr.depth, header=header, body=body, back=arrive)])
                    self.paths = paths0
                self.dry -= 1
            spec, roles, nalt = self.pick_spec(fr, li, names, keep, pr, ps, mkL, trials, at_start, auto)
            self.nalts[li] = nalt
            L0 = mkL(roles)
            La = L0.at(ps.var, ps.mem)
            walks = lambda L: [('link of an object', L._v[(fr.depth, lk)].base != NULL)] if lk and not at_start(L._v[(fr.depth, lk)]) else []
            inv = lambda L: clauses(walks(L)) + clauses(spec.inv(L)) + clauses(auto(L))
            for cl in inv(La):
                for x in (cl.lem or []): self.assume(ps, x)
                self.oblige(ps, 'inv-init', cl.name, cl.goal if cl.goal is not None else cl.f, self.hdr_dbg(fr, header), loop=li)
        heads = havoc(() if self.dry else self.carried)
        if self.dry:
            st = list(loopstack) + [dict(depth=fr.depth, header=header, body=body, back=lambda p: None)]
            return heads, st
        hd = []
        for h in heads:
            Lh = L0.at(dict(h.var), h.mem.copy())
            for cl in inv(Lh):
                self.assume(h, cl.f)
            h.trail.append('loop@%s' % header)
            hd.append((h.trail, Lh, spec.dec(Lh) if spec.dec else None))

        def back(p):
            self.paths += 1
            self.name_mem(p)
            self.name_vars(p)
            Lb = L0.at(p.var, p.mem)
            # the head this iteration started from
            Lh, dec0 = hd[p.headno.get((fr.depth, header), 0)][1:]
            if lk:
                v = p.var[(fr.depth, lk)]
                if not (isinstance(v, FieldAddr) and (at_start(v) or (v.st, v.fi) in kinds)): raise Unsupported('loop variable ' + lk)
            dbg = self.hdr_dbg(fr, header)
            if spec.lemmas:
                for nm, lf in spec.lemmas(Lh, Lb):
                    self.oblige(p, 'lemma', nm, lf, dbg)
            base = list(p.facts)
            for cl in inv(Lb):
                p.facts = list(base)
                for x in (cl.lem or []): p.facts.append(x)
                self.oblige(p, 'inv-pres', cl.name, cl.goal if cl.goal is not None else cl.f, dbg, loop=li)
                base = base + [cl.f]
            p.facts = base
            if dec0 is not None:
                self.oblige(p, 'dec', 'loop measure', And(dec0 >= 0, spec.dec(Lb) < dec0), dbg, loop=li)
            else:
                self.oblige(p, 'dec', 'loop measure missing', BoolVal(False), dbg, loop=li)
        for k, h in enumerate(heads): h.headno = dict(h.headno); h.headno[(fr.depth, header)] = k
        return heads, list(loopstack) + [dict(depth=fr.depth, header=header, body=body, back=back)]

    def auto_links(self, fr, names, keep, pr, ps, trials):
        """invariants that link variables which every iteration moves by constants (tried with the alternatives only)"""
        if not self.choice.get('_l'): return lambda L: []
        step = {}
        for n in names:
            key = (fr.depth, n)
            v0 = ps.var.get(key)
            if not z3.is_expr(v0) or not (n in keep or z3.is_int(v0)): continue
            val = (lambda v: OFF(v)) if n in keep else (lambda v: v)
            cs = set()
            for hv0, hm, bk in trials:
                for b in bk:
                    if not z3.is_expr(b.var.get(key)): cs.add(None); continue
                    cs.add(self.const_step(b, val(b.var[key]), val(hv0[key])))
            if len(cs) == 1 and None not in cs and 0 not in cs: step[n] = (cs.pop(), val)
        ns = sorted(step, key=lambda n: (abs(step[n][0]), names.index(n)))
        if not ns: return lambda L: []

        def f(L):
            out = []
            d = {n: step[n][1](L.cur(n)) - step[n][1](L.ent(n)) for n in ns}
            c0 = step[ns[0]][0]
            out.append(('auto direction', d[ns[0]] >= 0 if c0 > 0 else d[ns[0]] <= 0))
            for n in ns[1:]: out.append(('auto link %s %s' % (ns[0], n), d[n] * c0 == d[ns[0]] * step[n][0]))
            return out
        return f

    def const_step(self, b, new, old):
        def cands(e):
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE: return cands(e.arg(1)) + cands(e.arg(2))
            return [e]
        s = None
        for e in cands(simplify(new)):
            d = simplify(e - old)
            if not z3.is_int_value(d) or abs(d.as_long()) > 16: continue
            s = z3.Solver(); s.set('timeout', 500)
            for f in b.facts:
                if not has_quant_c(f): s.add(f)
            s.add(new - old != d)
            if s.check() == z3.unsat: return d.as_long()
        return None

    def hdr_dbg(self, fr, header):
        for x in fr.f.blocks[header].insts:
            if x.dbg: return x.dbg
        return None

    def mark(self):
        import smt
        return smt._ctr[0]

    def stale(self, e, mark):
        for n in consts_of(e):
            if '!' in n:
                k = n.rsplit('!', 1)[1]
                if k.isdigit() and int(k) > mark: return True
        return False

    def dry_body(self, ps, fr, header, body, pred, st):
        """execute the loop body once from the header, ignoring exits"""
        # execute header block directly (bypassing loop entry)
        blk = fr.f.blocks[header]
        for x in blk.insts:
            if x.op != 'phi': break
            for v, b in x.a:
                if b == pred:
                    ps.env[(fr.depth, x.res)] = self.val(ps, fr, x.ty, v)
        eng = self

        def kret(p, rv, dbg): pass
        # a wrapper loopstack entry marks exit: when leaving body, stop
        r = self.exec_insts_dry(ps, fr, blk, kret, st, body)

    def exec_insts_dry(self, ps, fr, blk, kret, st, body):
        # run with a frame-level filter: exits from the body end the path
        saved = getattr(self, 'dry_bodies', [])
        self.dry_bodies = saved + [(fr.depth, body)]
        try:
            r = self.exec_insts(ps, fr, blk, 0, kret, st)
            if r is not None:
                ps, b, pred = r
                self.exec_block(ps, fr, b, pred, kret, st)
        finally:
            self.dry_bodies = saved

    # -------- choosing loop specifications
    def pick_spec(self, fr, li, names, keep, pr, ps, mkL, trials, at_start, auto):
        specs = self.con.loops
        if not specs: raise Unsupported('loop without invariant in %s' % self.fname)
        ints = [n for n in names if pr[n].kind == 'int' and pr[n].bits > 8 and not isinstance(ps.var.get((fr.depth, n)), (Undef, type(None)))]
        ptrs = [n for n in names if pr[n].kind == 'ptr' and not isinstance(ps.var.get((fr.depth, n)), (Undef, type(None), FieldAddr))]
        small = [n for n in names if pr[n].kind == 'int' and pr[n].bits <= 8 and z3.is_expr(ps.var.get((fr.depth, n))) and z3.is_int(ps.var[(fr.depth, n)])]
        links = [n for n in names if isinstance(ps.var.get((fr.depth, n)), FieldAddr)]
        chain = [fr]
        while getattr(chain[-1], 'parent', None): chain.append(chain[-1].parent)
        alts = []
        order = [min(li, len(specs) - 1)] + [k for k in range(len(specs)) if k != min(li, len(specs) - 1)]
        for si in order:
            sp = specs[si]
            cands = []
            for role in sp.roles:
                rn, rk = role[0], role[1]
                pref = role[2:] if len(role) > 2 else ()
                cs = []
                if rk == 'int':
                    for n in sorted(ints, key=lambda n: (n.replace('.addr', '') not in pref, ints.index(n))):
                        cs.append((n, lambda v, e, n=n: v[(fr.depth, n)]))
                    for n in ptrs:
                        if n in keep:
                            cs.append(('off:' + n, lambda v, e, n=n: OFF(v[(fr.depth, n)]) - OFF(e[(fr.depth, n)])))
                    for n in ints:
                        cs.append(('down:' + n, lambda v, e, n=n: e[(fr.depth, n)] - v[(fr.depth, n)]))
                        cs.append(('succ:' + n, lambda v, e, n=n: v[(fr.depth, n)] + 1))
                        cs.append(('pred:' + n, lambda v, e, n=n: v[(fr.depth, n)] - 1))
                    for n in ptrs:
                        for m in pr:
                            if n in keep and m not in names and pr[m].kind == 'ptr' and not isinstance(ps.var.get((fr.depth, m)), (Undef, type(None), FieldAddr)):
                                cs.append(('rel:%s-%s' % (n, m), lambda v, e, n=n, m=m: OFF(v[(fr.depth, n)]) - OFF(v[(fr.depth, m)])))
                    for n in small: cs.append((n, lambda v, e, n=n: v[(fr.depth, n)]))
                elif rk == 'dist':   # distance walked from loop entry / index
                    for n in sorted(ptrs, key=lambda n: (n.replace('.addr', '') not in pref, ptrs.index(n))):
                        if n in keep:
                            cs.append(('off:' + n, lambda v, e, n=n: OFF(v[(fr.depth, n)]) - OFF(e[(fr.depth, n)])))
                    for n in ints:
                        cs.append((n, lambda v, e, n=n: v[(fr.depth, n)]))
                elif rk == 'ptr':
                    for n in sorted(ptrs, key=lambda n: (n.replace('.addr', '') not in pref, ptrs.index(n))):
                        cs.append((n, lambda v, e, n=n: v[(fr.depth, n)]))
                    # base pointer and index
                    for m in pr:
                        if m in names or pr[m].kind != 'ptr' or m.replace('.addr', '') not in pref or isinstance(ps.var.get((fr.depth, m)), (Undef, type(None), FieldAddr)): continue
                        for n in ints:
                            cs.append(('at:%s+%s' % (m, n), lambda v, e, m=m, n=n: mk(O(v[(fr.depth, m)]), OFF(v[(fr.depth, m)]) + v[(fr.depth, n)])))
                    for n in links:
                        def cell(v, e, s, n=n): return s.lv(v[(fr.depth, n)])
                        def owner(v, e, n=n): return NULL if at_start(v[(fr.depth, n)]) else v[(fr.depth, n)].base
                        cell.mem = True
                        both = [('cell:' + n, cell), ('owner:' + n, owner)]
                        cs += both if rn != 'prev' else both[::-1]
                elif rk == 'undef':            # an integer that is set inside the loop only
                    al = [n for n in names if pr[n].kind == 'int' and isinstance(ps.var.get((fr.depth, n)), (Undef, type(None)))]
                    for n in sorted(al, key=lambda n: (n not in pref, al.index(n))):
                        cs.append(('undef:' + n, lambda v, e, n=n: v[(fr.depth, n)] if z3.is_expr(v.get((fr.depth, n))) else fresh('undef', I)))
                elif rk == 'array':            # a local array of pointers, preferred by order of declaration
                    al = [(y.res, ps.env[(fr.depth, y.res)]) for b in fr.f.order for y in fr.f.blocks[b].insts
                          if y.op == 'alloca' and (fr.depth, y.res) in ps.env and (y.ty.kind == 'ptr' and y.a is not None or y.ty.kind == 'array' and y.ty.elem.kind == 'ptr')]
                    al = [(n + str(q), v) for q, (n, v) in enumerate(al)]
                    for n, v0 in al[pref[0]:pref[0] + 1] + al[:pref[0]] + al[pref[0] + 1:] if pref else al:
                        cs.append((n, lambda v, e, v0=v0: v0))
                elif rk.startswith('outer'):   # a local that this loop does not modify
                    w0 = rk.split(':')[1] if ':' in rk else ''
                    kd = 'ptr' if rk.startswith('outerptr') else 'int'
                    al = []
                    for g in chain:
                        gp = self.promotable(g.f)
                        al += [(n, g.depth) for n in gp if not (g is fr and n in names) and gp[n].kind == kd and (kd == 'ptr' or gp[n].bits > 8) and
                               not isinstance(ps.var.get((g.depth, n)), (Undef, type(None), FieldAddr))]
                    for n, gd in sorted(al, key=lambda n: (n[0].replace('.addr', '') != w0, al.index(n))):
                        cs.append((n if gd == fr.depth else '%s/%d' % (n, gd), lambda v, e, n=n, gd=gd: v[(gd, n)]))
                if not cs: cs = None
                cands.append((rn, cs))
            if any(cs is None for _, cs in cands): continue
            for combo in itertools.product(*[cs for _, cs in cands]):
                one = sum(r[1] == 'array' for r in sp.roles) > 1 and all(len(cs) == 1 for (_, cs), r in zip(cands, sp.roles) if r[1] == 'array')   # used for both
                used = [x[0] if x[0].startswith(('at:', 'cell:', 'owner:')) else x[0].split(':')[-1] for x, r in zip(combo, sp.roles) if not (one and r[1] == 'array')]
                if len(set(used)) < len(used): continue
                alts.append((sp, {rn: acc for (rn, _), (_, acc) in zip(cands, combo)}, [x[0] for x in combo]))
        if not alts: raise Unsupported('no loop specification fits')
        k = self.choice.get(li, 0)
        raw = isinstance(k, tuple)       # in the order of the contract, not of promise
        if raw: k = k[1]
        if k >= len(alts): k = 0
        if self.choice.get('_l') and len(alts) > 1 and not raw:
            key = (ir.REPO, self.fname, fr.f.name, li, len(alts))
            if key not in _rank: _rank[key] = self.rank(alts, ps, mkL, trials, auto)
            k = _rank[key][k]
        self.chosen[li] = k
        self.carried = {x[6:] for x in alts[k][2] if x.startswith('undef:')}
        return alts[k][0], alts[k][1], len(alts)


    def rank(self, alts, ps, mkL, trials, auto):
        """order in which the alternatives are worth trying: those whose invariant holds at the start and (on a trial run of
        the body) is kept come first; the order decides nothing but time"""
        import solve
        cost = self._cost = {}
        extra = self.literal_facts(self.used_globals)

        def run(jobs):
            rs = solve.pool([(o, extra) for k, o in jobs], min(8, os.cpu_count() or 1), None, t1=0.4, full=False, cvc=False)
            return [(k, r) for (k, o), r in zip(jobs, rs) if r['result'] != 'proved']

        def add(jobs, k, facts, cl):
            g = cl.goal if cl.goal is not None else cl.f
            if isinstance(g, bool): g = BoolVal(g)
            if z3.is_true(simplify(g)): return
            facts = [BoolVal(f) if isinstance(f, bool) else f for f in facts]
            jobs.append((k, Oblig(self.fname, 'rank', cl.name, 0, list(facts) + list(cl.lem or []), g, self.con.axioms, [])))
        by = {}                 # the plainest ways to read each specification
        for k in range(len(alts)): by.setdefault(id(alts[k][0]), []).append(k)
        init = []
        for k in sorted(k for ks in by.values() for k in sorted(ks, key=lambda k: (sum(l.count(':') for l in alts[k][2]), k))[:160 // len(by)]):
            sp, roles, labels = alts[k]
            cost[k] = [0, sum(l.count(':') for l in labels)]
            n0 = len(init)
            try:
                pre = list(ps.facts)
                for cl in clauses(sp.inv(mkL(roles).at(ps.var, ps.mem))):
                    add(init, k, pre, cl); pre.append(cl.f)
            except Exception as x:
                del init[n0:]; cost[k][0] = 1000
        for k, r in run(init): cost[k][0] += 10 if r['time'] < 0.3 else 0.04   # plainly wrong, or perhaps only hard
        best = min([c[0] for c in cost.values()] or [0])
        step = []
        for k in cost:
            if cost[k][0] >= best + 10: cost[k][0] += 500; continue      # a start that is plainly wrong makes every step easy
            sp, roles, labels = alts[k]
            n0 = len(step)
            try:
                L = mkL(roles)
                for hv0, hm, bk in trials:
                    Lh = L.at(hv0, hm)
                    hyp = [cl.f for cl in clauses(sp.inv(Lh)) + clauses(auto(Lh))]
                    d0 = sp.dec(Lh) if sp.dec is not None else None
                    for b in bk[:4]:
                        if d0 is not None and not isinstance(d0, tuple):
                            d1 = sp.dec(L.at(b.var, b.mem))
                            if z3.is_expr(d0) and z3.is_expr(d1): add(step, k, list(b.facts) + hyp, Clause('dec', And(d0 >= 0, d1 < d0)))
                        pre = list(b.facts) + hyp
                        for cl in clauses(sp.inv(L.at(b.var, b.mem))):
                            add(step, k, pre, cl); pre.append(cl.f)
            except Exception as x:
                del step[n0:]; cost[k][0] = 1000
        for k, r in run(step): cost[k][0] += 1 if r['time'] < 0.3 else 0.04
        return sorted(range(len(alts)), key=lambda k: (tuple(cost[k]) if k in cost else (999, 0), k))


_rank = {}


class PtrCmp(Exception):
    pass


PTRT = ir.PTR
_hq = {}


def has_quant_c(e):
    k = e.get_id()
    if k not in _hq:
        _hq[k] = (has_quant(e), e)
    return _hq[k][0]
