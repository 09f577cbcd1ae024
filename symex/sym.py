#!/usr/bin/env python3
"""Symbolic execution of LLVM IR with unwinding.

`sym.py DIR ENTRY`: executes the function ENTRY of the modules (*.ll) in DIR on
symbolic inputs (vb_u8), follows every feasible path, including the ones on
which a panic unwinds, and lets z3 decide each assertion, each memory access
and each branch under the path's condition, for all values of the inputs.
Prints a JSON report.

Memory is a set of objects (bytes: int, undefined, or a byte of a z3 term) at
fixed addresses, far from each other and aligned to no more than they ask for.
An access outside a live object, an access that is misaligned, a branch on an
undefined value, overlapping copies, the violation of nuw/nsw, `unreachable`,
a double or mismatched deallocation and an abort (a panic that leaves a
cleanup, a violated precondition of std) are failures.
"""
import bisect, glob, json, os, re, sys, time
import z3
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ll

MAX_STEPS = int(os.environ.get('SYM_STEPS', '400000'))      # instructions of one path
MAX_DEPTH = 200
MAX_VALUES = 64            # distinct values of a term that has to be made concrete
GAP = 1 << 12
JOBS = int(os.environ.get('SYM_JOBS', '8'))


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Mixed:
    """An integer of which some bytes are undefined."""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b


class Violation(Exception):
    def __init__(self, kind, what):
        self.kind, self.what = kind, what


class Cannot(Exception):
    pass


class Fork(Exception):
    """Execute the instruction again: the state was split."""


class Done(Exception):
    pass


class Frame:
    __slots__ = ('f', 'lab', 'blk', 'prev', 'ip', 'regs', 'objs', 'catch')

    def __init__(self, f):
        f.parse()
        self.f, self.lab, self.prev, self.ip = f, f.entry, None, 0
        self.blk = f.blocks[f.entry]
        self.regs, self.objs, self.catch = {}, [], False

    def copy(self):
        n = object.__new__(Frame)
        n.f, n.lab, n.blk, n.prev, n.ip, n.catch = self.f, self.lab, self.blk, self.prev, self.ip, self.catch
        n.regs, n.objs = dict(self.regs), list(self.objs)
        return n

    def goto(self, lab):
        self.prev, self.lab, self.blk, self.ip = self.lab, lab, self.f.blocks[lab], 0


class State:
    def __init__(self):
        self.pc, self.model, self.frames, self.mem, self.own, self.dead = [], None, [], {}, set(), set()
        self.inputs, self.may_abort, self.heap, self.steps, self.known, self.thrown = [], False, set(), 0, {}, ''

    def copy(self):
        n = State()
        n.pc, n.model, n.inputs = list(self.pc), self.model, list(self.inputs)
        n.frames = [f.copy() for f in self.frames]
        n.mem, n.dead, n.heap, n.known = dict(self.mem), set(self.dead), set(self.heap), dict(self.known)
        self.own = set()
        n.may_abort, n.steps, n.thrown = self.may_abort, self.steps, self.thrown
        return n


def bv(v, n):
    return z3.BitVecVal(v, n) if isinstance(v, int) else v


def isbool(v):
    return isinstance(v, z3.BoolRef)


def norm(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


def as_bool(v):
    if isinstance(v, int):
        return z3.BoolVal(bool(v))
    if isbool(v):
        return v
    return v == 1


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) else v


class Exec:
    def __init__(self, d, entry):
        self.mods = [ll.Module(f) for f in sorted(glob.glob(d + '/*.ll'))]
        self.symf, self.symg = {}, {}
        for m in self.mods:
            for k, f in m.funcs.items():
                self.symf.setdefault(k, f)
            for k in m.globals:
                self.symg.setdefault(k, m)
        self.entry = entry
        self.bases, self.info = [], []      # object id -> base; (size, align, kind)
        self.top = 1 << 20
        self.gaddr, self.faddr, self.atf, self.ginit = {}, {}, {}, {}
        self.solver = z3.Solver()
        self.stack = []
        self.queries, self.qtime, self.sats, self.unsats = 0, 0.0, 0, 0
        self.asserts, self.checks, self.paths, self.aborted, self.infeasible, self.throws = 0, 0, 0, 0, 0, 0
        self.steps = 0
        self.covers, self.seen, self.viol, self.cannot, self.amsgs = {}, {}, {}, {}, {}
        self.work = []
        self.ops = {k[3:]: getattr(self, k) for k in dir(self) if k.startswith('op_')}

    # ---- solver -------------------------------------------------------
    def sat(self, st, extra):
        """Model of the path condition and `extra`, or None."""
        pc = st.pc
        n = 0
        while n < len(self.stack) and n < len(pc) and self.stack[n] is pc[n]:
            n += 1
        if len(self.stack) > n:
            self.solver.pop(len(self.stack) - n)
            del self.stack[n:]
        for c in pc[n:]:
            self.solver.push()
            self.solver.add(c)
            self.stack.append(c)
        t = time.time()
        self.queries += 1
        r = self.solver.check(extra) if extra is not None else self.solver.check()
        self.qtime += time.time() - t
        if r == z3.unknown:
            raise Cannot('solver: unknown')
        if r == z3.sat:
            self.sats += 1
            return self.solver.model()
        self.unsats += 1
        return None

    def holds(self, st, c):
        """None if c holds on the path for all values, else a model against it."""
        self.checks += 1
        if isinstance(c, int):
            return None if c else self.model(st)
        return self.sat(st, z3.Not(c))

    def model(self, st):
        if st.model is None:
            st.model = self.sat(st, None)
        return st.model

    def add(self, st, c, model=None):
        st.pc.append(c)
        st.model = model

    def ev(self, st, e):
        m = self.model(st)
        return m.eval(e, model_completion=True)

    def decide(self, st, c):
        """Both outcomes of a condition: returns (outcome for this state, other state or None)."""
        if isinstance(c, int):
            return bool(c), None
        c = as_bool(c)
        here = z3.is_true(self.ev(st, c))
        other = z3.Not(c) if here else c
        m = self.sat(st, other)
        if m is None:
            return here, None
        n = st.copy()
        self.add(n, other, m)
        self.add(st, c if here else z3.Not(c), st.model)
        return here, n

    def values(self, st, e, limit=MAX_VALUES):
        out, ex = [], []
        m = self.model(st)
        while m is not None:
            v = m.eval(e, model_completion=True).as_long()
            out.append(v)
            if len(out) > limit:
                return None
            ex.append(e != v)
            m = self.sat(st, z3.And(ex))
        return out

    def concrete(self, st, e):
        if isinstance(e, int):
            return e
        if e is UNDEF or isinstance(e, Mixed):
            raise Violation('undef', 'use of an undefined value')
        if isbool(e):
            e = z3.If(e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        k = st.known.get(e.get_id())
        if k is not None and k[0].eq(e):
            return k[1]
        vs = self.values(st, e)
        if vs is None:
            raise Cannot('too many values for a size or address')
        for v in vs[1:]:
            n = st.copy()
            self.add(n, e == v)
            n.known[e.get_id()] = (e, v)
            self.work.append(n)
        if len(vs) > 1:
            self.add(st, e == vs[0])
        st.known[e.get_id()] = (e, vs[0])
        return vs[0]

    # ---- memory -------------------------------------------------------
    def new(self, size, align, kind):
        a = max(align, 1)
        b = (self.top + 2 * a - 1) // (2 * a) * (2 * a) + (a if a > 1 else 1)
        self.top = b + size + GAP
        self.bases.append(b)
        self.info.append((size, align, kind))
        return len(self.bases) - 1

    def obj(self, st, addr, n, what, align=1):
        if n == 0:
            return None, 0
        i = bisect.bisect_right(self.bases, addr) - 1
        if i < 0 or addr + n > self.bases[i] + self.info[i][0]:
            raise Violation('pointer', f'{what} outside of any object')
        if i in st.dead:
            raise Violation('pointer', f'{what} of a dead object ({self.info[i][2]})')
        if addr % align:
            raise Violation('alignment', f'misaligned {what}')
        if i not in st.mem:
            if i in self.ginit:
                st.mem[i] = self.ginit[i]()
                st.own.add(i)
            else:
                raise Violation('pointer', f'{what} of a dead object')
        return i, addr - self.bases[i]

    def wobj(self, st, addr, n, what, align=1):
        i, o = self.obj(st, addr, n, what, align)
        if i is None:
            return [], 0
        if self.info[i][2] == 'constant':
            raise Violation('pointer', f'{what}: constant memory')
        if i not in st.own:
            st.mem[i] = list(st.mem[i])
            st.own.add(i)
        return st.mem[i], o

    def join(self, bs, t):
        """Value of type t made from bytes."""
        n = len(bs)
        f = bs[0]
        if n == 1 and not isinstance(f, tuple):
            if f is None:
                return UNDEF
            return f & 1 if t == ('i', 1) else f
        if all(isinstance(b, int) for b in bs):
            v = int.from_bytes(bytes(bs), 'little')
            return v & ((1 << t[1]) - 1) if t[0] == 'i' and t[1] % 8 else v
        if any(b is None for b in bs):
            return UNDEF if all(b is None for b in bs) else Mixed(tuple(bs))
        if isinstance(f, tuple) and f[1] == 0 and f[2] == n and all(isinstance(b, tuple) and b[0] is f[0] and b[1] == i for i, b in enumerate(bs)):
            e = f[0]
        else:
            parts = [bv(b, 8) if isinstance(b, int) else (b[0] if b[2] == 1 else z3.Extract(8 * b[1] + 7, 8 * b[1], b[0])) for b in bs]
            e = norm(z3.Concat(*reversed(parts)) if n > 1 else parts[0])
        if t[0] == 'i' and t[1] == 1:
            return norm(z3.Extract(0, 0, e) == 1) if not isinstance(e, int) else e & 1
        if t[0] == 'i' and t[1] % 8 and not isinstance(e, int):
            return norm(z3.Extract(t[1] - 1, 0, e))
        return e

    def split(self, v, t):
        n = ll.storesize(t)
        if v is UNDEF:
            return [None] * n
        if isinstance(v, Mixed):
            return list(v.b)
        if isinstance(v, int):
            return list((v & ((1 << 8 * n) - 1)).to_bytes(n, 'little'))
        if isbool(v):
            v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        elif v.size() < 8 * n:
            v = z3.ZeroExt(8 * n - v.size(), v)
        return [(v, i, n) for i in range(n)]

    def load(self, st, t, a, al=1):
        if t[0] in ('st', 'arr', 'vec'):
            cnt = len(t[1]) if t[0] == 'st' else t[1]
            a = self.concrete(st, a)
            return [self.load(st, ll.elem(t, i), a + ll.offset(t, i), 1) for i in range(cnt)]
        n = ll.storesize(t)
        if not isinstance(a, int):
            if a is UNDEF or isinstance(a, Mixed):
                raise Violation('undef', 'load from an undefined address')
            vs = self.values(st, a)
            if vs is None:
                raise Cannot('load: too many addresses')
            if len(vs) == 1:
                a = vs[0]
            else:
                got, ids = [], set()
                try:
                    for v in vs:
                        i, o = self.obj(st, v, n, 'load', al)
                        ids.add(i)
                        got.append(self.join(st.mem[i][o:o + n], t))
                except Violation:
                    ids = ()
                if len(ids) == 1 and all(isinstance(g, (int, z3.ExprRef)) for g in got):
                    isb = t == ('i', 1)
                    conv = as_bool if isb else lambda x: bv(x, 8 * n if t[0] != 'i' else t[1])
                    e = conv(got[-1])
                    for v, g in zip(vs[:-1], got[:-1]):
                        e = z3.If(a == v, conv(g), e)
                    return norm(e)
                a = self.concrete(st, a)
        i, o = self.obj(st, a, n, 'load', al)
        if i is None:
            return 0
        return self.join(st.mem[i][o:o + n], t)

    def store(self, st, t, v, a, al=1):
        if t[0] in ('st', 'arr', 'vec'):
            cnt = len(t[1]) if t[0] == 'st' else t[1]
            a = self.concrete(st, a)
            if v is UNDEF:
                v = [UNDEF] * cnt
            for i in range(cnt):
                self.store(st, ll.elem(t, i), v[i], a + ll.offset(t, i), 1)
            return
        n = ll.storesize(t)
        bs = self.split(v, t)
        if not isinstance(a, int):
            if a is UNDEF or isinstance(a, Mixed):
                raise Violation('undef', 'store to an undefined address')
            vs = self.values(st, a)
            if vs is None:
                raise Cannot('store: too many addresses')
            if len(vs) == 1:
                a = vs[0]
            else:
                ids, ok = set(), n == 1 and bs[0] is not None
                try:
                    for x in vs:
                        i, o = self.obj(st, x, n, 'store', al)
                        ids.add(i)
                        ok = ok and st.mem[i][o] is not None
                except Violation:
                    ok = False
                if ok and len(ids) == 1:
                    new = self.byte(bs[0])
                    for x in vs:
                        m, o = self.wobj(st, x, 1, 'store')
                        e = norm(z3.If(a == x, bv(new, 8), bv(self.byte(m[o]), 8)))
                        m[o] = e if isinstance(e, int) else (e, 0, 1)
                    return
                a = self.concrete(st, a)
        m, o = self.wobj(st, a, n, 'store', al)
        m[o:o + n] = bs

    def byte(self, b):
        if isinstance(b, int):
            return b
        return b[0] if b[2] == 1 else z3.Extract(8 * b[1] + 7, 8 * b[1], b[0])

    def copy(self, st, d, s, n, overlap_ok):
        if n == 0:
            return
        i, o = self.obj(st, s, n, 'read by a copy')
        src = st.mem[i][o:o + n]
        if not overlap_ok and d != s and d < s + n and s < d + n:
            raise Violation('overlap', 'memcpy between overlapping ranges')
        m, o = self.wobj(st, d, n, 'write by a copy')
        m[o:o + n] = src

    def function(self, mod, nm):
        f = mod.funcs.get(nm) if mod else None
        return f or self.symf.get(nm)

    def global_addr(self, mod, nm):
        f = self.function(mod, nm)
        key = (f.mod.path if f and nm in mod.funcs else '', nm) if f else None
        if f:
            k = (f.mod.path, nm)
            if k not in self.faddr:
                i = self.new(1, 16, 'function')
                self.faddr[k] = self.bases[i]
                self.atf[self.bases[i]] = f
            return self.faddr[k]
        m = mod if nm in mod.globals else self.symg.get(nm)
        if m is not None and m.global_init(nm)[1] is None and nm in self.symg:
            for o in self.mods:     # an external declaration: find the definition
                if nm in o.globals and o.global_init(nm)[1] is not None:
                    m = o
        if m is None:
            # a function that is not in any module
            if ('', nm) not in self.faddr:
                i = self.new(1, 16, 'function')
                self.faddr['', nm] = self.bases[i]
                self.atf[self.bases[i]] = nm
            return self.faddr['', nm]
        k = (m.path, nm)
        if k not in self.gaddr:
            t, v, al, const = m.global_init(nm)
            i = self.new(ll.sizeof(t), al, 'constant' if const else 'static ' + nm)
            self.gaddr[k] = self.bases[i]
            if v is None:
                raise Cannot('external static ' + nm)
            self.ginit[i] = lambda: self.initial(m, t, v)
        return self.gaddr[k]

    def initial(self, mod, t, v):
        n = ll.sizeof(t)
        if v == ('undef',):
            return [None] * n
        if v == ('zero',):
            return [0] * n
        if isinstance(v, tuple) and v[0] == 'bytes':
            return list(v[1])
        if isinstance(v, tuple) and v[0] == 'agg':
            out = [None] * n
            for i, (et, evl) in enumerate(v[1]):
                o = ll.offset(t, i)
                b = self.initial(mod, et, evl)
                out[o:o + len(b)] = b
            return out
        return self.split(self.const(mod, t, v), t)

    def const(self, mod, t, v):
        if isinstance(v, int):
            return v
        k = v[0]
        if k == 'g':
            return self.global_addr(mod, v[1])
        if k == 'gep':
            _, bt, base, idx = v
            return self.gep(bt, self.const(mod, ll.PTR, base), [(it, self.const(mod, it, iv)) for it, iv in idx])
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            if t[0] == 'st':
                return [self.const(mod, e, v) for e in t[1]]
            if t[0] in ('arr', 'vec'):
                return [self.const(mod, t[2], v)] * t[1]
            return 0
        if k == 'agg':
            return [self.const(mod, et, e) for et, e in v[1]]
        raise Cannot(f'constant {v}')

    def val(self, st, t, v):
        if isinstance(v, int):
            return v
        if v[0] == 'r':
            return st.frames[-1].regs[v[1]]
        if v[0] == 'agg':
            return [self.val(st, et, e) for et, e in v[1]]
        return self.const(st.frames[-1].f.mod, t, v)

    def gep(self, bt, base, idx):
        off, t, sym = 0, bt, None
        for j, (it, iv) in enumerate(idx):
            if iv is UNDEF or isinstance(iv, Mixed):
                return UNDEF
            if j == 0:
                scale = ll.sizeof(bt)
            elif t[0] == 'st':
                off += ll.offset(t, iv)
                t = t[1][iv]
                continue
            else:
                scale, t = ll.sizeof(t[2]), t[2]
            if isinstance(iv, int):
                off += sgn(iv, it[1]) * scale
            else:
                e = iv if iv.size() == 64 else z3.SignExt(64 - iv.size(), iv)
                sym = e * scale if sym is None else sym + e * scale
        if base is UNDEF or isinstance(base, Mixed):
            return UNDEF
        if isinstance(base, int) and sym is None:
            return (base + off) & (2**64 - 1)
        e = bv(base, 64) + z3.BitVecVal(off & (2**64 - 1), 64)
        return norm(e + sym if sym is not None else e)

    # ---- instructions -------------------------------------------------
    def set(self, fr, d, v):
        if d is not None:
            fr.regs[d] = v
        fr.ip += 1

    def op_bad(self, st, fr, i):
        raise Cannot('instruction: ' + i[2])

    def op_nop(self, st, fr, i):
        fr.ip += 1

    def op_alloca(self, st, fr, i):
        o = self.new(i[2], i[3], f'local of {fr.f.pretty}')
        st.mem[o] = [None] * i[2]
        st.own.add(o)
        fr.objs.append(o)
        self.set(fr, i[1], self.bases[o])

    def op_load(self, st, fr, i):
        self.set(fr, i[1], self.load(st, i[2], self.val(st, ll.PTR, i[3]), i[4]))

    def op_store(self, st, fr, i):
        self.store(st, i[2], self.val(st, i[2], i[3]), self.val(st, ll.PTR, i[4]), i[5])
        fr.ip += 1

    def op_gep(self, st, fr, i):
        base = self.val(st, ll.PTR, i[3])
        self.set(fr, i[1], self.gep(i[2], base, [(t, self.val(st, t, v)) for t, v in i[4]]))

    def op_jmp(self, st, fr, i):
        fr.goto(i[2])

    def op_br(self, st, fr, i):
        c = self.val(st, ('i', 1), i[2])
        if c is UNDEF:
            raise Violation('undef', 'branch on an undefined value')
        here, other = self.decide(st, c)
        if other is not None:
            other.frames[-1].goto(i[4] if here else i[3])
            self.work.append(other)
        fr.goto(i[3] if here else i[4])

    def op_switch(self, st, fr, i):
        v = self.val(st, i[2], i[3])
        if v is UNDEF or isinstance(v, Mixed):
            raise Violation('undef', 'branch on an undefined value')
        if isinstance(v, int):
            for c, l in i[5]:
                if c == v:
                    return fr.goto(l)
            return fr.goto(i[4])
        for c, l in i[5]:
            cond = v == c if not isbool(v) else (v if c else z3.Not(v))
            here, other = self.decide(st, norm(cond))
            if here:
                if other is not None:
                    self.work.append(other)     # repeats the switch without this case
                return fr.goto(l)
            if other is not None:
                other.frames[-1].goto(l)
                self.work.append(other)
        fr.goto(i[4])

    def op_ret(self, st, fr, i):
        v = None if i[3] is None else self.val(st, i[2], i[3])
        catch = fr.catch
        self.pop(st)
        if not st.frames:
            raise Done
        fr = st.frames[-1]
        self.after(fr, 0 if catch else v)

    def pop(self, st):
        fr = st.frames.pop()
        for o in fr.objs:
            st.dead.add(o)
            st.mem.pop(o, None)

    def after(self, fr, v):
        c = fr.blk[fr.ip]
        if c[1] is not None:
            fr.regs[c[1]] = v
        if c[5] is not None:
            fr.goto(c[5])
        else:
            fr.ip += 1

    def throw(self, st, what):
        """Unwind from the current call."""
        st.thrown = what
        self.throws += 1
        while st.frames:
            fr = st.frames[-1]
            c = fr.blk[fr.ip]
            if c[0] == 'call' and c[6] is not None:
                fr.goto(c[6])
                return
            catch = fr.catch
            self.pop(st)
            if catch:
                self.after(st.frames[-1], 1)
                return
        raise Violation('assertion', 'a panic leaves the harness: ' + what)

    def op_landingpad(self, st, fr, i):
        self.set(fr, i[1], [0xE000, 0])

    def op_resume(self, st, fr, i):
        catch = fr.catch
        what = st.thrown
        self.pop(st)
        if catch:
            self.after(st.frames[-1], 1)
        else:
            self.throw(st, what)
            self.throws -= 1

    def op_unreachable(self, st, fr, i):
        raise Violation('unreachable', 'unreachable code is reached')

    def op_extractvalue(self, st, fr, i):
        v = self.val(st, i[2], i[3])
        for x in i[4]:
            if v is UNDEF:
                break
            v = v[x]
        self.set(fr, i[1], v)

    def op_insertvalue(self, st, fr, i):
        v, e = self.val(st, i[2], i[3]), self.val(st, i[4], i[5])

        def ins(v, t, ix):
            if not ix:
                return e
            cnt = len(t[1]) if t[0] == 'st' else t[1]
            v = [UNDEF] * cnt if v is UNDEF else list(v)
            v[ix[0]] = ins(v[ix[0]], ll.elem(t, ix[0]), ix[1:])
            return v
        self.set(fr, i[1], ins(v, i[2], i[6]))

    def op_select(self, st, fr, i):
        c, t = self.val(st, ('i', 1), i[3]), i[2]
        a, b = self.val(st, t, i[4]), self.val(st, t, i[5])
        if c is UNDEF:
            return self.set(fr, i[1], UNDEF)
        if isinstance(c, int):
            return self.set(fr, i[1], a if c else b)
        if all(isinstance(x, (int, z3.ExprRef)) for x in (a, b)):
            if t == ('i', 1):
                r = z3.If(as_bool(c), as_bool(a), as_bool(b))
            else:
                n = 64 if t == ll.PTR else t[1]
                r = z3.If(as_bool(c), bv(a, n), bv(b, n))
            return self.set(fr, i[1], norm(r))
        here, other = self.decide(st, c)
        if other is not None:
            self.set(other.frames[-1], i[1], b if here else a)
            self.work.append(other)
        self.set(fr, i[1], a if here else b)

    def op_phi(self, st, fr, i):
        # all phis of a block read the values before any of them is assigned
        k, new = fr.ip, []
        while fr.blk[k][0] == 'phi':
            _, d, t, inc = fr.blk[k]
            for v, l in inc:
                if l == fr.prev:
                    new.append((d, self.val(st, t, v)))
                    break
            k += 1
        for d, v in new:
            fr.regs[d] = v
        fr.ip = k

    def op_icmp(self, st, fr, i):
        t = i[3]
        a, b = self.val(st, t, i[4]), self.val(st, t, i[5])
        self.set(fr, i[1], self.icmp(i[2], 64 if t == ll.PTR else t[1], a, b))

    def icmp(self, p, n, a, b):
        if any(x is UNDEF or isinstance(x, Mixed) for x in (a, b)):
            return UNDEF
        if isinstance(a, int) and isinstance(b, int):
            if p[0] == 's':
                a, b = sgn(a, n), sgn(b, n)
            return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p if p in ('eq', 'ne') else p[1:]])
        if n == 1:
            a, b = as_bool(a), as_bool(b)
            if p in ('eq', 'ne'):
                return norm(a == b if p == 'eq' else a != b)
            a, b = (z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for x in (a, b))
        a, b = bv(a, n), bv(b, n)
        f = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b),
             'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'sgt': lambda: a > b, 'sge': lambda: a >= b,
             'slt': lambda: a < b, 'sle': lambda: a <= b}[p]
        return norm(f())

    def binop(self, st, op, n, a, b, fl=()):
        if isinstance(a, Mixed) and op == 'lshr' and isinstance(b, int) and b % 8 == 0:
            r = list(a.b[b // 8:]) + [0] * (b // 8)
            return Mixed(tuple(r)) if any(x is None for x in r) else self.join(r, ('i', n))
        if any(x is UNDEF or isinstance(x, Mixed) for x in (a, b)):
            return UNDEF
        M = (1 << n) - 1
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = sgn(a, n), sgn(b, n)
            if op in ('add', 'sub', 'mul'):
                r = {'add': a + b, 'sub': a - b, 'mul': a * b}[op]
                s = {'add': sa + sb, 'sub': sa - sb, 'mul': sa * sb}[op]
                if 'nuw' in fl and not 0 <= r <= M or 'nsw' in fl and not -(1 << n - 1) <= s < 1 << n - 1:
                    raise Violation('overflow', f'{op} overflows although it must not')
                return r & M
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0:
                    raise Violation('division', 'division by zero')
                if op == 'udiv':
                    return a // b
                if op == 'urem':
                    return a % b
                q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
                return (q if op == 'sdiv' else sa - q * sb) & M
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if b >= n:
                return UNDEF
            if op == 'shl':
                r = a << b
                if 'nuw' in fl and r > M:
                    raise Violation('overflow', 'shl overflows although it must not')
                return r & M
            return a >> b if op == 'lshr' else (sa >> b) & M
        if n == 1:
            a, b = as_bool(a), as_bool(b)
            return norm({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor, 'add': z3.Xor, 'sub': z3.Xor}[op](a, b))
        a, b = bv(a, n), bv(b, n)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            self.must(st, b != 0, 'division', 'division by zero')
        if op in ('add', 'sub', 'mul'):
            sg = {'add': z3.BVAddNoOverflow, 'mul': z3.BVMulNoOverflow}
            if 'nuw' in fl:
                self.must(st, z3.BVSubNoUnderflow(a, b, False) if op == 'sub' else sg[op](a, b, False), 'overflow', f'{op} overflows although it must not')
            if 'nsw' in fl and op != 'sub':
                self.must(st, z3.And(sg[op](a, b, True), z3.BVAddNoUnderflow(a, b) if op == 'add' else z3.BVMulNoUnderflow(a, b)), 'overflow', f'{op} overflows although it must not')
        if op in ('shl', 'lshr', 'ashr'):
            m = self.sat(st, z3.UGE(b, n))
            if m is not None:
                b = self.concrete(st, b)
                return self.binop(st, op, n, norm(a), b, fl)
        r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'udiv': lambda: z3.UDiv(a, b),
             'urem': lambda: z3.URem(a, b), 'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b), 'and': lambda: a & b,
             'or': lambda: a | b, 'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b}[op]()
        return norm(r)

    def must(self, st, c, kind, what):
        """c on every value of the path, else a violation."""
        c = norm(c)
        m = self.holds(st, c)
        if m is not None:
            st.model = m
            if not isinstance(c, int):
                self.add(st, z3.Not(c), m)
            raise Violation(kind, what)

    def op_bin(self, st, fr, i):
        t = i[2]
        if t[0] == 'vec':
            a, b = self.val(st, t, i[3]), self.val(st, t, i[4])
            return self.set(fr, i[1], [self.binop(st, i[0], t[2][1], x, y) for x, y in zip(a, b)])
        self.set(fr, i[1], self.binop(st, i[0], t[1], self.val(st, t, i[3]), self.val(st, t, i[4]), i[5]))

    def op_cast(self, st, fr, i):
        op, d, t, v, to, fl = i
        x = self.val(st, t, v)
        n = 64 if t == ll.PTR else t[1]
        m = 64 if to == ll.PTR else to[1]
        if x is UNDEF:
            r = UNDEF
        elif isinstance(x, Mixed):
            if op == 'trunc' and m % 8 == 0:
                b = x.b[:m // 8]
                r = self.join(list(b), to)
            elif op in ('ptrtoint', 'inttoptr', 'bitcast') and n == m:
                r = x
            elif op == 'trunc' and m < 8:
                b = x.b[0]
                r = UNDEF if b is None else (b & ((1 << m) - 1) if isinstance(b, int) else self.trunc(self.byte(b), m))
            elif op == 'zext':
                r = Mixed(tuple(list(x.b) + [0] * (m // 8 - len(x.b))))
            else:
                r = UNDEF
        elif isinstance(x, int):
            if op == 'trunc' and 'nuw' in fl and x >> m:
                raise Violation('overflow', 'trunc loses bits although it must not')
            r = sgn(x, n) & ((1 << m) - 1) if op == 'sext' else x & ((1 << m) - 1)
        elif n == m:
            r = x
        elif op == 'trunc':
            if 'nuw' in fl:
                self.must(st, z3.Extract(n - 1, m, x) == 0, 'overflow', 'trunc loses bits although it must not')
            r = self.trunc(x, m)
        else:
            if isbool(x):
                x = z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            r = norm(z3.SignExt(m - n, x) if op == 'sext' else z3.ZeroExt(m - n, x))
        self.set(fr, d, r)

    def trunc(self, x, m):
        e = z3.Extract(m - 1, 0, x)
        return norm(e == 1) if m == 1 else norm(e)

    def op_freeze(self, st, fr, i):
        v = self.val(st, i[2], i[3])
        self.set(fr, i[1], v)

    def op_cmpxchg(self, st, fr, i):
        _, d, t, a, e, n = i
        a = self.concrete(st, self.val(st, ll.PTR, a))
        old = self.load(st, t, a, ll.alignof(t))
        c = self.icmp('eq', 64 if t == ll.PTR else t[1], old, self.val(st, t, e))
        if c is UNDEF:
            raise Violation('undef', 'compare-exchange with an undefined value')
        here, other = self.decide(st, c)
        for s, ok in ((st, here), (other, not here)):
            if s is None:
                continue
            if ok:
                self.store(s, t, self.val(s, t, n), a)
            self.set(s.frames[-1], d, [old, int(ok)])
        if other is not None:
            self.work.append(other)

    def op_atomicrmw(self, st, fr, i):
        _, d, k, t, a, v = i
        a = self.concrete(st, self.val(st, ll.PTR, a))
        old, x = self.load(st, t, a, ll.alignof(t)), self.val(st, t, v)
        n = 64 if t == ll.PTR else t[1]
        if k == 'xchg':
            new = x
        elif k in ('add', 'sub', 'and', 'or', 'xor'):
            new = self.binop(st, k, n, old, x)
        elif k in ('umax', 'umin', 'max', 'min'):
            new = self.minmax(('u' if k[0] == 'u' else 's') + k[-3:], n, old, x)
        else:
            raise Cannot('atomicrmw ' + k)
        self.store(st, t, new, a)
        self.set(fr, d, old)

    def minmax(self, k, n, a, b):
        c = self.icmp(('u' if k[0] == 'u' else 's') + ('gt' if k.endswith('max') else 'lt'), n, a, b)
        if c is UNDEF:
            return UNDEF
        if isinstance(c, int):
            return a if c else b
        return norm(z3.If(c, bv(a, n), bv(b, n)))

    # ---- calls --------------------------------------------------------
    def op_call(self, st, fr, i):
        _, d, t, fn, args, no, un = i
        if fn[0] == 'r':
            a = self.concrete(st, fr.regs[fn[1]])
            f = self.atf.get(a)
            if f is None:
                raise Violation('pointer', 'call of something that is not a function')
            nm = f if isinstance(f, str) else f.name
            f = None if isinstance(f, str) else f
        else:
            nm = fn[1]
            f = None if nm.startswith('vb_') else self.function(fr.f.mod, nm)
        av = [self.val(st, at, x) for at, x in args]
        if f is not None and not self.shadow(nm):
            return self.enter(st, f, av)
        if nm.startswith('llvm.'):
            r = self.intrinsic(st, fr, nm, args, av)
        else:
            r = self.extern(st, fr, nm, args, av)
        if r is not NotImplemented:
            self.after(fr, r)

    def shadow(self, nm):
        return False

    def enter(self, st, f, av, catch=False):
        if len(st.frames) > MAX_DEPTH:
            raise Violation('recursion', 'recursion too deep')
        n = Frame(f)
        n.catch = catch
        n.regs = dict(zip(f.params, av))
        st.frames.append(n)
        self.seen[f.pretty] = self.seen.get(f.pretty, 0) + 1

    def text(self, st, p, n):
        p, n = self.concrete(st, p), self.concrete(st, n)
        if n == 0:
            return ''
        i, o = self.obj(st, p, n, 'load')
        return bytes(st.mem[i][o:o + n]).decode('utf8', 'replace')

    def abort(self, st, what):
        if st.may_abort:
            self.aborted += 1
            raise Done
        raise Violation('abort', 'the process aborts: ' + what)

    def extern(self, st, fr, nm, args, av):
        if nm == 'vb_u8':
            v = z3.BitVec(f'in{len(st.inputs)}', 8)
            st.inputs.append(v)
            return v
        if nm == 'vb_assume':
            c = norm(as_bool(av[0]))
            if c == 0 if isinstance(c, int) else False:
                self.infeasible += 1
                raise Done
            if not isinstance(c, int):
                m = self.sat(st, c)
                if m is None:
                    self.infeasible += 1
                    raise Done
                self.add(st, c, m)
            return None
        if nm == 'vb_assert':
            if av[0] is UNDEF:
                raise Violation('undef', 'assertion on an undefined value')
            c = norm(as_bool(av[0]))
            msg = self.text(st, av[1], av[2])
            self.asserts += 1
            self.amsgs[msg] = self.amsgs.get(msg, 0) + 1
            self.must(st, c, 'assertion', msg)
            return None
        if nm == 'vb_cover':
            msg = self.text(st, av[1], av[2])
            if not self.covers.get(msg):
                c = norm(as_bool(av[0]))
                self.covers[msg] = bool(c) if isinstance(c, int) else self.sat(st, c) is not None
            return None
        if nm == 'vb_panic':
            self.throw(st, 'vb_panic')
            return NotImplemented
        if nm == 'vb_may_abort':
            st.may_abort = True
            return None
        if nm == 'vb_heap':
            return len(st.heap)
        if nm == 'vb_catch':
            f = self.atf[self.concrete(st, av[0])]
            self.enter(st, f, [av[1]], True)
            return NotImplemented
        if nm.endswith('rust_eh_personality'):
            return 0
        if '___rust_no_alloc_shim' in nm:
            return None
        if nm.endswith('___rust_alloc') or nm.endswith('___rust_alloc_zeroed'):
            size, al = self.concrete(st, av[0]), self.concrete(st, av[1])
            o = self.new(size, al, 'heap')
            st.mem[o] = [0 if nm.endswith('zeroed') else None] * size
            st.own.add(o)
            st.heap.add(o)
            return self.bases[o]
        if nm.endswith('___rust_dealloc'):
            p, size, al = (self.concrete(st, x) for x in av[:3])
            self.free(st, p, size, al)
            return None
        if nm.endswith('___rust_realloc'):
            p, size, al, new = (self.concrete(st, x) for x in av[:4])
            i = bisect.bisect_right(self.bases, p) - 1
            o = self.new(new, al, 'heap')
            old = list(st.mem.get(i, []))
            self.free(st, p, size, al)
            st.mem[o] = (old + [None] * new)[:new]
            st.own.add(o)
            st.heap.add(o)
            return self.bases[o]
        if nm in ('memcmp', 'bcmp'):
            n = self.concrete(st, av[2])
            a, b = self.concrete(st, av[0]), self.concrete(st, av[1])
            r = z3.BitVecVal(0, 32)
            for k in reversed(range(n)):
                x, y = (self.load(st, ('i', 8), p + k) for p in (a, b))
                if x is UNDEF or y is UNDEF:
                    raise Violation('undef', 'comparison of undefined memory')
                x, y = bv(x, 8), bv(y, 8)
                r = z3.If(x == y, r, z3.If(z3.ULT(x, y), z3.BitVecVal(2**32 - 1, 32), z3.BitVecVal(1, 32)))
            return norm(r)
        m = re.search(r'9panicking\d+(panic_in_cleanup|panic_cannot_unwind|panic_nounwind\w*|panic_null_pointer\w*)', nm)
        if m:
            what = m[1]
            if what == 'panic_nounwind' and len(av) >= 2:
                what = self.text(st, av[0], av[1])
            if not what.startswith('panic_in_cleanup') and not what.startswith('panic_cannot_unwind'):
                raise Violation('precondition', 'violated precondition: ' + what.split('\n')[0])
            self.abort(st, what)
        # Anything in core or alloc that is named after a failure, or is a part of such a function.
        if '4core9panicking' in nm or re.search(r'(_fail|failed|panic\w*|unwrap_failed|expect_failed|capacity_overflow)(Cs\w+|B\w*)?$', nm) or \
           re.search(r'_(4core|5alloc)\d.*\d(\w+_fail|\w+_failed|do_panic|panic_\w+|capacity_overflow)\d', nm):
            what = nm
            if nm.endswith('9panicking5panic'):
                what = self.text(st, av[0], av[1])
            else:
                m = re.search(r'\d+((?:panic|unwrap|expect|assert|slice|str|cell)[a-z_]*)$', nm)
                what = m[1] if m else nm
            self.throw(st, what)
            return NotImplemented
        raise Cannot('function without a body: ' + nm)

    def free(self, st, p, size, al):
        i = bisect.bisect_right(self.bases, p) - 1
        if i < 0 or self.bases[i] != p or self.info[i][2] != 'heap':
            raise Violation('free', 'deallocation of something that was not allocated')
        if i not in st.heap:
            raise Violation('free', 'double deallocation')
        if self.info[i][:2] != (size, al):
            raise Violation('free', 'deallocation with another layout')
        st.heap.discard(i)
        st.dead.add(i)
        st.mem.pop(i, None)

    def intrinsic(self, st, fr, nm, args, av):
        k = nm[5:]
        n = args[0][0][1] if args and args[0][0][0] == 'i' else 64
        und = any(x is UNDEF or isinstance(x, Mixed) for x in av)
        if k.startswith(('lifetime', 'dbg', 'experimental.noalias', 'donothing', 'x86.sse2.pause')):
            return None
        if k.startswith(('memcpy', 'memmove')):
            ln = self.concrete(st, av[2])
            if ln:
                d, s = self.concrete(st, av[0]), self.concrete(st, av[1])
                self.copy(st, d, s, ln, k.startswith('memmove'))
            return None
        if k.startswith('memset'):
            ln = self.concrete(st, av[2])
            if ln:
                d = self.concrete(st, av[0])
                m, o = self.wobj(st, d, ln, 'memset')
                m[o:o + ln] = self.split(av[1], ('i', 8)) * ln
            return None
        if k.startswith('assume'):
            if und:
                return None
            self.must(st, as_bool(av[0]), 'assume', 'a false assumption')
            return None
        if k.startswith(('expect', 'ssa.copy')):
            return av[0]
        if k.startswith('is.constant'):
            return 0
        if k.startswith(('trap', 'ubsantrap')):
            self.abort(st, 'trap')
        if k.startswith('threadlocal.address'):
            return av[0]
        if 'with.overflow' in k:
            if und:
                return [UNDEF, UNDEF]
            s, op = k[0] == 's', k[1:4]
            a, b = av
            if isinstance(a, int) and isinstance(b, int):
                x, y = (sgn(a, n), sgn(b, n)) if s else (a, b)
                r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
                lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if s else (0, (1 << n) - 1)
                return [r & ((1 << n) - 1), int(not lo <= r <= hi)]
            a, b = bv(a, n), bv(b, n)
            w = 2 * n if op == 'mul' else n + 1
            x, y = (z3.SignExt(w - n, a), z3.SignExt(w - n, b)) if s else (z3.ZeroExt(w - n, a), z3.ZeroExt(w - n, b))
            r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
            lo = z3.Extract(n - 1, 0, r)
            back = z3.SignExt(w - n, lo) if s else z3.ZeroExt(w - n, lo)
            return [norm(lo), norm(r != back)]
        if und:
            return UNDEF
        if k.startswith(('umax', 'umin', 'smax', 'smin')):
            return self.minmax(k[:4], n, av[0], av[1])
        if k.startswith(('uadd.sat', 'usub.sat')):
            a, b = av
            if k[1] == 'a':
                r = self.binop(st, 'add', n, a, b)
                c = self.icmp('ult', n, r, a)
                lim = (1 << n) - 1
            else:
                r = self.binop(st, 'sub', n, a, b)
                c = self.icmp('ult', n, a, b)
                lim = 0
            if isinstance(c, int):
                return lim if c else r
            return norm(z3.If(c, z3.BitVecVal(lim, n), bv(r, n)))
        if k.startswith(('ucmp', 'scmp')):
            m = int(k.split('.')[1][1:])
            lt, gt = self.icmp(k[0] + 'lt', n, *av), self.icmp(k[0] + 'gt', n, *av)
            if isinstance(lt, int) and isinstance(gt, int):
                return (gt - lt) & ((1 << m) - 1)
            return norm(z3.If(as_bool(lt), z3.BitVecVal(-1, m), z3.If(as_bool(gt), z3.BitVecVal(1, m), z3.BitVecVal(0, m))))
        if k.startswith(('ctpop', 'cttz', 'ctlz')):
            a = av[0]
            if isinstance(a, int):
                if k.startswith('ctpop'):
                    return bin(a).count('1')
                if a == 0:
                    return UNDEF if av[1] == 1 else n
                return (a & -a).bit_length() - 1 if k.startswith('cttz') else n - a.bit_length()
            if k.startswith('ctpop'):
                return norm(sum((z3.ZeroExt(n - 1, z3.Extract(j, j, a)) for j in range(n)), z3.BitVecVal(0, n)))
            if k.startswith('cttz'):
                r = z3.BitVecVal(n, n)
                for j in reversed(range(n)):
                    r = z3.If(z3.Extract(j, j, a) == 1, z3.BitVecVal(j, n), r)
            else:
                r = z3.BitVecVal(n, n)
                for j in range(n):
                    r = z3.If(z3.Extract(j, j, a) == 1, z3.BitVecVal(n - 1 - j, n), r)
            return norm(r)
        if k.startswith('ptrmask'):
            return self.binop(st, 'and', 64, av[0], av[1])
        if k.startswith('abs'):
            a = self.concrete(st, av[0])
            return abs(sgn(a, n)) & ((1 << n) - 1)
        if k.startswith(('fshl', 'fshr')):
            a, b, c = (self.concrete(st, x) for x in av)
            c %= n
            w = (a << n) | b
            w = (w << c) >> n if k.startswith('fshl') else w >> c
            return w & ((1 << n) - 1)
        if k.startswith('bswap'):
            a = self.concrete(st, av[0])
            return int.from_bytes(a.to_bytes(n // 8, 'little'), 'big')
        raise Cannot('intrinsic ' + nm)

    # ---- driver -------------------------------------------------------
    def report(self, st, v):
        key = (v.kind, v.what)
        if key in self.viol:
            return
        try:
            m = self.model(st)
            ins = [m.eval(x, model_completion=True).as_long() for x in st.inputs] if m is not None else []
        except Cannot:
            ins = []
        fr = st.frames[-1] if st.frames else None
        self.viol[key] = dict(kind=v.kind, what=v.what, values=ins, function=fr.f.pretty if fr else self.entry,
                              stack=[f.f.pretty for f in st.frames[-6:]], thrown=st.thrown)

    def run(self, deadline):
        st = State()
        f = self.symf[self.entry]
        self.enter(st, f, [])
        self.work = [st]
        ops = self.ops
        for k in ll.BIN:
            ops[k] = self.op_bin
        for k in ll.CAST:
            ops.setdefault(k, self.op_cast)
        ops['freeze'] = self.op_freeze
        self.explore(deadline, 6 * JOBS if JOBS > 1 else None)
        if not self.work or self.viol:
            return
        # Share the remaining states among processes.
        kids = []
        for j in range(JOBS):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    mine = self.work[j::JOBS]
                    self.reset()
                    self.work = mine
                    self.explore(deadline, None)
                    with os.fdopen(w, 'w') as f:
                        f.write(json.dumps(self.json(time.time())))
                except BaseException as e:
                    code = 1
                    print(repr(e), file=sys.stderr)
                os._exit(code)
            os.close(w)
            kids.append((pid, r))
        self.work = []
        for pid, r in kids:
            with os.fdopen(r) as f:
                text = f.read()
            os.waitpid(pid, 0)
            if not text:
                self.cannot['a worker died'] = 1
                continue
            d = json.loads(text)
            for v in d['violations']:
                self.viol.setdefault((v['kind'], v['what']), v)
            for c in d['cannot']:
                self.cannot[c] = 1
            for k, v in d['covers'].items():
                self.covers[k] = self.covers.get(k) or v
            for k, v in d['messages'].items():
                self.amsgs[k] = self.amsgs.get(k, 0) + v
            for f in d['functions']:
                self.seen[f] = 1
            for k, a in dict(paths='paths', aborted='aborted', infeasible='infeasible', throws='throws', queries='queries', sat='sats',
                             unsat='unsats', solver_s='qtime', asserts='asserts', checks='checks', steps='steps').items():
                setattr(self, a, getattr(self, a) + d[k])

    def reset(self):
        """Forget what the parent counts."""
        self.queries, self.qtime, self.sats, self.unsats = 0, 0.0, 0, 0
        self.asserts, self.checks, self.paths, self.aborted, self.infeasible, self.throws, self.steps = 0, 0, 0, 0, 0, 0, 0
        self.amsgs, self.covers, self.seen = {}, {k: v for k, v in self.covers.items() if v}, {}

    def explore(self, deadline, enough):
        """Depth first; breadth first while there are not `enough` states to share."""
        ops = self.ops
        while self.work and (enough is None or len(self.work) < enough):
            st = self.work.pop(0 if enough else -1)
            before = st.steps
            if time.time() > deadline:
                self.cannot['out of time'] = 1
                break
            if len(self.viol) >= 4:
                break
            try:
                while True:
                    fr = st.frames[-1]
                    i = fr.blk[fr.ip]
                    st.steps += 1
                    if st.steps > MAX_STEPS:
                        raise Violation('unwind', 'does not terminate within the bound on steps')
                    ops[i[0]](st, fr, i)
            except Done:
                self.paths += 1
            except Violation as v:
                self.paths += 1
                self.report(st, v)
            except Cannot as c:
                self.cannot[str(c)] = 1
            self.steps += st.steps - before

    def json(self, t):
        return dict(entry=self.entry, violations=list(self.viol.values()), cannot=sorted(self.cannot), covers=self.covers,
                    paths=self.paths, aborted=self.aborted, infeasible=self.infeasible, throws=self.throws, queries=self.queries,
                    sat=self.sats, unsat=self.unsats, solver_s=round(self.qtime, 3), asserts=self.asserts, checks=self.checks,
                    messages=self.amsgs, steps=self.steps, functions=sorted(self.seen), wall_s=round(time.time() - t, 2))


def main():
    t = time.time()
    sys.setrecursionlimit(10000)
    ex = Exec(sys.argv[1], sys.argv[2])
    ex.run(t + float(sys.argv[3] if len(sys.argv) > 3 else 600))
    print(json.dumps(ex.json(t)))


if __name__ == '__main__':
    main()
