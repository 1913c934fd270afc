"""LLVM bitcode -> per-function Python transfer functions for the value analysis."""
import ctypes, struct
from . import ll

M = [(1 << i) - 1 for i in range(1025)]
BASE = 0x1000000


class AnalysisError(Exception):
    """The analysis cannot give an answer here (never a verdict)."""


class Ty:
    __slots__ = ("k", "w", "n", "el", "elts", "offs", "size", "store", "align", "ll", "_s")


class Module:
    def __init__(self, path):
        self.path = path
        self.ctx = ll.ctx_create()
        mb = ctypes.c_void_p()
        err = ctypes.c_char_p()
        if ll.membuf(path.encode(), ctypes.byref(mb), ctypes.byref(err)):
            raise AnalysisError("cannot read %s: %s" % (path, err.value))
        m = ctypes.c_void_p()
        if ll.parse_bc(self.ctx, mb, ctypes.byref(m)):
            raise AnalysisError("cannot parse bitcode %s" % path)
        self.m = m
        self.dl = ll.data_layout(m)
        self.tycache = {}
        self.fns = {}          # name -> Fn
        self.addr2fn = {}
        self.val2addr = {}     # value ptr -> address
        self.gvs = {}          # object id -> GV record
        self.gvname = {}
        oid = 1
        f = ll.first_fn(m)
        while f:
            fn = Fn(self, f, oid)
            self.fns[fn.name] = fn
            self.addr2fn[(oid << 32) + BASE] = fn
            self.val2addr[f] = (oid << 32) + BASE
            oid += 1
            f = ll.next_fn(f)
        g = ll.first_gv(m)
        while g:
            n = ll.vname(g)
            self.gvs[oid] = GV(self, g, n, oid)
            self.gvname[n] = oid
            self.val2addr[g] = (oid << 32) + BASE
            oid += 1
            g = ll.next_gv(g)
        self.next_oid = oid
        a = ll.first_alias(m)
        while a:
            self.val2addr[a] = None
            t = self.const(ll.aliasee(a))
            self.val2addr[a] = t
            if t in self.addr2fn:
                self.fns[ll.vname(a)] = self.addr2fn[t]
            a = ll.next_alias(a)

    def ty(self, t):
        r = self.tycache.get(t)
        if r is not None:
            return r
        r = Ty()
        r.ll = t
        k = ll.type_kind(t)
        r.offs = r.elts = r.el = None
        r.n = 0
        r.w = 0
        r._s = None
        if k == ll.TK_INT:
            r.k, r.w = 'i', ll.int_width(t)
        elif k == ll.TK_PTR:
            r.k, r.w = 'p', 64
        elif k == ll.TK_FLOAT:
            r.k, r.w = 'f', 32
        elif k == ll.TK_DOUBLE:
            r.k, r.w = 'f', 64
        elif k == ll.TK_X86F80:
            r.k, r.w = 'f', 80
        elif k == ll.TK_VEC:
            r.k, r.n, r.el = 'v', ll.vec_len(t), self.ty(ll.elem_type(t))
            r.w = r.n * r.el.w
        elif k == ll.TK_ARRAY:
            r.k, r.n, r.el = 'a', ll.array_len(t), self.ty(ll.elem_type(t))
        elif k == ll.TK_STRUCT:
            r.k = 's'
            r.n = ll.struct_n(t)
            self.tycache[t] = r
            r.elts = [self.ty(ll.struct_at(t, i)) for i in range(r.n)]
            try:
                r.offs = [ll.offset_of(self.dl, t, i) for i in range(r.n)]
            except Exception:
                r.offs = None
        elif k == ll.TK_VOID:
            r.k = 'void'
        else:
            r.k = 'other%d' % k
        if r.k in 'ipfvas':
            r.size = ll.abi_size(self.dl, t)
            r.store = ll.store_size(self.dl, t)
            r.align = ll.abi_align(self.dl, t)
        else:
            r.size = r.store = r.align = 0
        self.tycache[t] = r
        return r

    # ---- constants -----------------------------------------------------
    def const(self, v):
        """constant -> int (packed) or tuple for aggregates"""
        k = ll.value_kind(v)
        if k == ll.VK_CINT:
            t = self.ty(ll.type_of(v))
            if t.w <= 64:
                return ll.zext_val(v) & M[t.w]
            s = ll.pv(v).split()[-1]
            return int(s) & M[t.w]
        if k in (ll.VK_CNULL,):
            return 0
        if k in (ll.VK_UNDEF, ll.VK_POISON, ll.VK_CAZ):
            t = self.ty(ll.type_of(v))
            return self.zero(t)
        if k in (ll.VK_FN, ll.VK_GV, ll.VK_ALIAS):
            a = self.val2addr.get(v)
            if a is None:
                raise AnalysisError("unresolved alias")
            if k == ll.VK_FN and ll.linkage(v) == 12 and ll.is_decl(v) and ll.pv(v).split("@")[1].startswith("_ZTH"):
                return 0            # thread-local initialiser that does not exist
            return a
        if k == ll.VK_CFP:
            t = self.ty(ll.type_of(v))
            lose = ctypes.c_int()
            d = ll.real_val(v, ctypes.byref(lose))
            if t.w == 32:
                return struct.unpack("<I", struct.pack("<f", d))[0]
            if t.w == 64:
                return struct.unpack("<Q", struct.pack("<d", d))[0]
            return struct.unpack("<Q", struct.pack("<d", d))[0]
        if k in (ll.VK_CVEC, ll.VK_CDV):
            t = self.ty(ll.type_of(v))
            r = 0
            for i in range(t.n):
                e = ll.agg_elem(v, i)
                r |= self.const(e) << (i * t.el.w)
            return r
        if k in (ll.VK_CARRAY, ll.VK_CSTRUCT, ll.VK_CDA):
            t = self.ty(ll.type_of(v))
            return tuple(self.const(ll.agg_elem(v, i)) for i in range(t.n))
        if k == ll.VK_CE:
            op = ll.OPC.get(ll.const_opcode(v))
            if op == 'gep':
                return self.const_gep(v)
            if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
                return self.const(ll.operand(v, 0))
            t = self.ty(ll.type_of(v))
            a = self.const(ll.operand(v, 0))
            if op in ('trunc', 'zext'):
                return a & M[t.w]
            b = self.const(ll.operand(v, 1))
            if op == 'add':
                return (a + b) & M[t.w]
            if op == 'sub':
                return (a - b) & M[t.w]
            if op == 'mul':
                return (a * b) & M[t.w]
            if op == 'and':
                return a & b
            if op == 'icmp':
                p = ll.IPRED[ll.icmp_pred(v)]
                if p in ('eq', 'ne'):
                    return int((a == b) == (p == 'eq'))
            raise AnalysisError("constant expression %s" % ll.pv(v))
        raise AnalysisError("constant kind %d: %s" % (k, ll.pv(v)[:200]))

    def zero(self, t):
        if t.k in 'ipfv':
            return 0
        if t.k == 'a':
            return tuple(self.zero(t.el) for _ in range(t.n))
        if t.k == 's':
            return tuple(self.zero(e) for e in t.elts)
        return 0

    def const_gep(self, v):
        base = self.const(ll.operand(v, 0))
        t = self.ty(ll.gep_src(v))
        off = 0
        n = ll.num_ops(v)
        for i in range(1, n):
            ix = self.const(ll.operand(v, i))
            wt = self.ty(ll.type_of(ll.operand(v, i)))
            if ix >> (wt.w - 1):
                ix -= 1 << wt.w
            if i == 1:
                off += ix * t.size
            elif t.k == 's':
                off += t.offs[ix]
                t = t.elts[ix]
            else:
                t = t.el
                off += ix * t.size
        return (base + off) & M[64]


class GV:
    def __init__(self, mod, v, name, oid):
        self.mod, self.v, self.name, self.oid = mod, v, name, oid
        self.decl = bool(ll.is_decl(v))
        t = mod.ty(ll.gv_valtype(v))
        self.size = t.size
        self.ty = t
        self.const = bool(ll.gv_const(v))
        self.tls = bool(ll.gv_tls(v))
        self._img = None

    def image(self):
        """(bytes, relocations {off: (val,n)}) of the initializer"""
        if self._img is None:
            buf = bytearray(self.size)
            rel = {}
            if not self.decl:
                init = ll.gv_init(self.v)
                if init:
                    self._fill(init, 0, buf, rel)
            self._img = (bytes(buf), rel)
        return self._img

    def _fill(self, v, off, buf, rel):
        mod = self.mod
        k = ll.value_kind(v)
        if k in (ll.VK_CAZ, ll.VK_UNDEF, ll.VK_POISON, ll.VK_CNULL):
            return
        t = mod.ty(ll.type_of(v))
        if k == ll.VK_CDA:
            if ll.is_cstring(v):
                n = ctypes.c_size_t()
                s = ll.get_string(v, ctypes.byref(n))
                buf[off:off + n.value] = ctypes.string_at(s, n.value)
                return
            es = t.el.size
            for i in range(t.n):
                buf[off + i * es:off + (i + 1) * es] = mod.const(ll.elem_const(v, i)).to_bytes(es, 'little')
            return
        if k == ll.VK_CARRAY:
            for i in range(t.n):
                self._fill(ll.operand(v, i), off + i * t.el.size, buf, rel)
            return
        if k == ll.VK_CSTRUCT:
            for i in range(t.n):
                self._fill(ll.operand(v, i), off + t.offs[i], buf, rel)
            return
        c = mod.const(v)
        n = t.store
        if c >= 1 << 32 and t.k == 'p':
            rel[off] = c
        else:
            buf[off:off + n] = c.to_bytes(n, 'little')


class Fn:
    def __init__(self, mod, v, oid):
        self.mod, self.v, self.oid = mod, v, oid
        self.name = ll.vname(v)
        self.decl = bool(ll.is_decl(v))
        self.code = None
        self.cfg = None
        self.byval = None
        self.model = False       # resolved by the machine: None or callable
        self.ninst = 0
        self._demangled = None
        self.retty = mod.ty(ll.ret_type(ll.gv_valtype(v)))

    @property
    def addr(self):
        return (self.oid << 32) + BASE

    # --- control flow (normal edges only; exceptional control flow ends the path)
    def build_cfg(self):
        if self.cfg is not None:
            return
        bbs, idx = [], {}
        b = ll.first_bb(self.v)
        while b:
            idx[b] = len(bbs)
            bbs.append(b)
            b = ll.next_bb(b)
        self.bbs, self.bbidx = bbs, idx
        succ = []
        exits = []
        for i, b in enumerate(bbs):
            t = ll.bb_term(b)
            op = ll.OPC[ll.opcode(t)]
            if op == 'invoke':
                succ.append([idx[ll.succ(t, 0)]])
            elif op in ('br', 'switch'):
                s = []
                for k in range(ll.num_succ(t)):
                    x = idx[ll.succ(t, k)]
                    if x not in s:
                        s.append(x)
                succ.append(s)
            else:
                succ.append([])
                if op == 'ret':
                    exits.append(i)
        self.cfg = succ
        n = len(bbs)
        pred = [[] for _ in range(n)]
        for i, s in enumerate(succ):
            for x in s:
                pred[x].append(i)
        # post-dominators on the sub-graph that can reach a return
        can = set(exits)
        st = list(exits)
        while st:
            x = st.pop()
            for p in pred[x]:
                if p not in can:
                    can.add(p)
                    st.append(p)
        EX = n
        # reverse post order of the reverse graph from EX
        order, seen = [], set()
        stack = [(EX, iter(exits))]
        seen.add(EX)
        while stack:
            node, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(pred[y])))
                    break
            else:
                order.append(node)
                stack.pop()
        rpo = order[::-1]
        num = {x: i for i, x in enumerate(rpo)}
        ip = {EX: EX}
        changed = True
        while changed:
            changed = False
            for x in rpo[1:]:
                ss = [y for y in succ[x] if y in can] if x not in exits else [EX]
                new = None
                for y in ss:
                    if y in ip:
                        if new is None:
                            new = y
                        else:
                            a, c = new, y
                            while a != c:
                                while num[a] > num[c]:
                                    a = ip[a]
                                while num[c] > num[a]:
                                    c = ip[c]
                            new = a
                if new is not None and ip.get(x) != new:
                    ip[x] = new
                    changed = True
        self.ipdom = [ip.get(i, None) for i in range(n)]
        self.ipdom = [None if (x is None or x == EX) else x for x in self.ipdom]
        self.pred = pred

    def livejoin(self, j):
        """registers that can be used after joining at block j: their definition dominates j"""
        t = self.__dict__.get("_lj")
        if t is None:
            t = self._lj = {}
            n = len(self.cfg)
            full = (1 << n) - 1
            dom = [full] * n
            dom[0] = 1
            ch = True
            while ch:
                ch = False
                for b in range(1, n):
                    d = full
                    for p in self.pred[b]:
                        d &= dom[p]
                    d |= 1 << b
                    if d != dom[b]:
                        dom[b] = d
                        ch = True
            self._dom = dom
        r = t.get(j)
        if r is None:
            d = self._dom[j]
            r = t[j] = [(d >> b) & 1 for b in self.slotblk]
        return r

    def compile(self):
        if self.code is None:
            Codegen(self).run()
        return self.code


_IDIV = {'udiv', 'sdiv', 'urem', 'srem'}


class Codegen:
    def __init__(self, fn):
        self.fn, self.mod = fn, fn.mod

    def run(self):
        fn, mod = self.fn, self.mod
        fn.build_cfg()
        slots = {}
        widths = []
        npar = ll.param_count(fn.v)
        kind_byval = ll.attr_kind(b"byval", 5)
        fn.byval = {}
        for i in range(npar):
            p = ll.get_param(fn.v, i)
            slots[p] = i
            t = mod.ty(ll.type_of(p))
            widths.append(t)
            a = ll.enum_attr(fn.v, i + 1, kind_byval)
            if a:
                fn.byval[i] = mod.ty(ll.attr_type(a)).size
        insts = []
        slotblk = fn.slotblk = [0] * npar
        for b in fn.bbs:
            li = []
            i = ll.first_inst(b)
            while i:
                op = ll.OPC.get(ll.opcode(i), '?%d' % ll.opcode(i))
                li.append((i, op))
                slots[i] = len(widths)
                widths.append(mod.ty(ll.type_of(i)))
                slotblk.append(len(insts))
                i = ll.next_inst(i)
            insts.append(li)
        self.slots = slots
        fn.nslots = len(widths)
        fn.tys = widths
        self.ns = dict(MACH)
        self.out = []
        self.lines = {}
        self.ncallee = 0
        fn.ninst = sum(len(x) for x in insts)
        self.insts = insts
        for bi, li in enumerate(insts):
            self.emit("def b%d(R):" % bi, None)
            self.cur = bi
            body = False
            for v, op in li:
                if op == 'phi':
                    continue
                body = True
                self.inst(v, op)
        src = "\n".join(self.out)
        fname = "ir:" + fn.name
        fn.linemap = self.lines
        FNBYFILE[fname] = fn
        exec(compile(src, fname, "exec"), self.ns)
        fn.code = [self.ns["b%d" % i] for i in range(len(insts))]
        self.ns['CODE'] = fn.code

    def emit(self, s, v):
        self.out.append(s)
        if v is not None:
            self.lines[len(self.out)] = v

    def opd(self, v):
        k = ll.value_kind(v)
        if k == ll.VK_INST or k == ll.VK_ARG:
            return "R[%d]" % self.slots[v]
        if k == ll.VK_MD or k == ll.VK_BB:
            return "0"
        if k == ll.VK_ASM:
            return "'asm'"
        return repr(self.mod.const(v))

    def edge(self, target):
        """code statements for the phi moves of edge cur->target (list) """
        tb = self.fn.bbs[target]
        dst, src = [], []
        cb = self.fn.bbs[self.cur]
        for v, op in self.insts[target]:
            if op != 'phi':
                break
            for k in range(ll.num_incoming(v)):
                if ll.incoming_b(v, k) == cb:
                    dst.append("R[%d]" % self.slots[v])
                    src.append(self.opd(ll.incoming_v(v, k)))
                    break
        if not dst:
            return ""
        if len(dst) == 1:
            return "%s = %s" % (dst[0], src[0])
        return "%s = %s" % (", ".join(dst), ", ".join(src))

    def jump(self, target, ind, v):
        e = self.edge(target)
        if e:
            self.emit(ind + e, v)
        self.emit(ind + "return %d" % target, v)

    def edgefn(self, target):
        """expression for a callable applying the edge's phi moves, or None"""
        e = self.edge(target)
        if not e:
            return "None"
        n = "e%d_%d" % (self.cur, target)
        if n not in self.ns:
            ns = {}
            exec("def f(R):\n %s" % e, ns)
            self.ns[n] = ns['f']
        return n

    def inst(self, v, op):
        mod = self.mod
        t = mod.ty(ll.type_of(v))
        d = "R[%d]" % self.slots[v]
        E = lambda s: self.emit(" " + s, v)
        o = lambda i: self.opd(ll.operand(v, i))
        ot = lambda i: mod.ty(ll.type_of(ll.operand(v, i)))
        if op in ('load', 'store', 'atomicrmw', 'cmpxchg'):
            at = op in ('atomicrmw', 'cmpxchg') or ll.ordering(v) != 0
            if at:
                E("atomic(1)")
                self._mem(v, op, t, d, E, o, ot)
                E("atomic(0)")
            else:
                self._mem(v, op, t, d, E, o, ot)
            return
        self._inst(v, op, t, d, E, o, ot)

    def _mem(self, v, op, t, d, E, o, ot):
        if op == 'load':
            if t.k == 'v' and t.store >= 16 and ll.gv_align(v) >= 16:
                E("chkalign(%s, %d)" % (o(0), ll.gv_align(v)))
            if t.k in 'ipfv':
                if t.w == t.store * 8:
                    E("%s = load(%s, %d)" % (d, o(0), t.store))
                else:
                    E("%s = load(%s, %d) & %d" % (d, o(0), t.store, M[t.w]))
                    if t.w < t.store * 8:
                        E("%s = trunc(%s, %d)" % (d, d, t.w))
            else:
                self.ns['T%d' % self.slots[v]] = t
                E("%s = loadagg(%s, T%d)" % (d, o(0), self.slots[v]))
        elif op == 'store':
            st = ot(0)
            if st.k == 'v' and st.store >= 16 and ll.gv_align(v) >= 16:
                E("chkalign(%s, %d)" % (o(1), ll.gv_align(v)))
            if st.k in 'ipfv':
                if st.w == st.store * 8:
                    E("store(%s, %s, %d)" % (o(1), o(0), st.store))
                else:
                    E("store(%s, zext(%s, %d, %d), %d)" % (o(1), o(0), st.w, st.store * 8, st.store))
            else:
                self.ns['T%d' % self.slots[v]] = st
                E("storeagg(%s, %s, T%d)" % (o(1), o(0), self.slots[v]))
        elif op == 'atomicrmw':
            st = ot(1)
            E("%s = atomicrmw(%d, %s, %s, %d)" % (d, ll.rmw_op(v), o(0), o(1), st.store))
        elif op == 'cmpxchg':
            st = ot(1)
            E("%s = cmpxchg(%s, %s, %s, %d)" % (d, o(0), o(1), o(2), st.store))

    def _inst(self, v, op, t, d, E, o, ot):
        mod = self.mod
        if op == 'gep':
            self.gep(v, d, E)
        elif op in ('add', 'sub', 'mul'):
            s = {'add': '+', 'sub': '-', 'mul': '*'}[op]
            if t.k == 'v':
                E("%s = vecbin('%s', %s, %s, %d, %d)" % (d, op, o(0), o(1), t.n, t.el.w))
            else:
                E("%s = (%s %s %s) & %d" % (d, o(0), s, o(1), M[t.w]))
        elif op in ('and', 'or', 'xor'):
            s = {'and': '&', 'or': '|', 'xor': '^'}[op]
            E("%s = %s %s %s" % (d, o(0), s, o(1)))
        elif op in ('shl', 'lshr', 'ashr'):
            if t.k == 'v':
                E("%s = vecbin('%s', %s, %s, %d, %d)" % (d, op, o(0), o(1), t.n, t.el.w))
            else:
                E("%s = %s(%s, %s, %d)" % (d, op, o(0), o(1), t.w))
        elif op in _IDIV:
            if t.k == 'v':
                E("%s = vecbin('%s', %s, %s, %d, %d)" % (d, op, o(0), o(1), t.n, t.el.w))
            else:
                E("%s = %s(%s, %s, %d)" % (d, op, o(0), o(1), t.w))
        elif op == 'icmp':
            a, b, w = o(0), o(1), ot(0).w
            p = ll.IPRED[ll.icmp_pred(v)]
            if ot(0).k == 'v':
                E("%s = vecicmp('%s', %s, %s, %d, %d)" % (d, p, a, b, ot(0).n, ot(0).el.w))
            elif p in ('eq', 'ne', 'ult', 'ule', 'ugt', 'uge'):
                s = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}[p]
                E("a = %s; b = %s" % (a, b))
                E("%s = (1 if a %s b else 0) if a.__class__ is int and b.__class__ is int else icmp('%s', a, b, %d)" % (d, s, p, w))
            else:
                s = {'slt': '<', 'sle': '<=', 'sgt': '>', 'sge': '>='}[p]
                h = 1 << (w - 1)
                E("a = %s; b = %s" % (a, b))
                E("%s = (1 if (a ^ %d) %s (b ^ %d) else 0) if a.__class__ is int and b.__class__ is int else icmp('%s', a, b, %d)" % (d, h, s, h, p, w))
        elif op == 'trunc':
            if t.k == 'v':
                E("%s = vectrunc(%s, %d, %d, %d)" % (d, o(0), t.n, ot(0).el.w, t.el.w))
            else:
                E("a = %s" % o(0))
                E("%s = a & %d if a.__class__ is int else trunc(a, %d)" % (d, M[t.w], t.w))
        elif op == 'zext':
            if t.k == 'v':
                E("%s = vecext(%s, %d, %d, %d, 0)" % (d, o(0), t.n, ot(0).el.w, t.el.w))
            else:
                E("a = %s" % o(0))
                E("%s = a if a.__class__ is int else zext(a, %d, %d)" % (d, ot(0).w, t.w))
        elif op == 'sext':
            if t.k == 'v':
                E("%s = vecext(%s, %d, %d, %d, 1)" % (d, o(0), t.n, ot(0).el.w, t.el.w))
            else:
                w0 = ot(0).w
                E("a = %s" % o(0))
                E("%s = ((a ^ %d) - %d) & %d if a.__class__ is int else sext(a, %d, %d)" % (d, 1 << (w0 - 1), 1 << (w0 - 1), M[t.w], w0, t.w))
        elif op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'freeze'):
            if op in ('ptrtoint', 'inttoptr') and ot(0).w != t.w:
                E("%s = trunc(%s, %d)" % (d, o(0), t.w) if t.w < ot(0).w else "%s = zext(%s, %d, %d)" % (d, o(0), ot(0).w, t.w))
            else:
                E("%s = %s" % (d, o(0)))
        elif op == 'alloca':
            at = mod.ty(ll.alloca_type(v))
            E("%s = alloca(%s * %d, %r)" % (d, o(0), at.size, self.fn.name))
        elif op == 'select':
            E("c = %s" % o(0))
            if ot(0).k == 'v':
                E("%s = vecselect(c, %s, %s, %d, %d)" % (d, o(1), o(2), t.n, t.el.w))
            else:
                E("%s = (%s if c else %s) if c.__class__ is int else select(c, %s, %s, %d)" % (d, o(1), o(2), o(1), o(2), t.w))
        elif op == 'br':
            if not ll.is_cond(v):
                self.jump(self.fn.bbidx[ll.succ(v, 0)], " ", v)
            else:
                tt, ff = self.fn.bbidx[ll.succ(v, 0)], self.fn.bbidx[ll.succ(v, 1)]
                E("c = %s" % o(0))
                if tt == ff:
                    self.jump(tt, " ", v)
                    return
                E("if c.__class__ is int:")
                self.emit("  if c:", v)
                self.jump(tt, "   ", v)
                self.jump(ff, "  ", v)
                E("return ((c, %s, %d), (None, %s, %d))" % (self.edgefn(tt), tt, self.edgefn(ff), ff))
        elif op == 'switch':
            n = ll.num_ops(v)
            dflt = self.fn.bbidx[ll.succ(v, 0)]
            E("c = %s" % o(0))
            cases = {}
            for k in range(1, n // 2):
                cv = mod.const(ll.operand(v, 2 * k))
                cases[cv] = self.fn.bbidx[ll.succ(v, k)]
            E("if c.__class__ is int:")
            for cv, tg in cases.items():
                self.emit("  if c == %d:" % cv, v)
                self.jump(tg, "   ", v)
            self.jump(dflt, "  ", v)
            alts = ", ".join("(icmp('eq', c, %d, %d), %s, %d)" % (cv, ot(0).w, self.edgefn(tg), tg) for cv, tg in cases.items())
            E("return (%s (None, %s, %d))" % (alts + "," if alts else "", self.edgefn(dflt), dflt))
        elif op == 'ret':
            if ll.num_ops(v) == 0:
                E("return ('ret', None)")
            else:
                E("return ('ret', %s)" % o(0))
        elif op == 'unreachable':
            E("raise Dead('unreachable')")
        elif op == 'resume':
            E("resume(%s)" % o(0))
        elif op in ('call', 'invoke'):
            self.call(v, d, E, op)
        elif op == 'landingpad':
            cl = [ll.clause(v, i) for i in range(ll.num_clauses(v))]
            E("%s = landing((%s))" % (d, "".join("%s, " % ("None" if ll.value_kind(c) in (ll.VK_CARRAY, ll.VK_CAZ) else mod.const(c)) for c in cl)))
        elif op == 'extractvalue':
            ix = ll.indices(v)
            s = "".join("[%d]" % ix[k] for k in range(ll.num_indices(v)))
            E("%s = %s%s" % (d, o(0), s))
        elif op == 'insertvalue':
            ix = ll.indices(v)
            E("%s = insertvalue(%s, %s, %r)" % (d, o(0), o(1), tuple(ix[k] for k in range(ll.num_indices(v)))))
        elif op == 'extractelement':
            vt = ot(0)
            E("%s = extractelement(%s, %s, %d, %d)" % (d, o(0), o(1), vt.n, vt.el.w))
        elif op == 'insertelement':
            E("%s = insertelement(%s, %s, %s, %d, %d)" % (d, o(0), o(1), o(2), t.n, t.el.w))
        elif op == 'shufflevector':
            n = ll.shuf_n(v)
            mask = tuple(ll.shuf_m(v, k) for k in range(n))
            vt = ot(0)
            E("%s = shuffle(%s, %s, %r, %d, %d)" % (d, o(0), o(1), mask, vt.n, vt.el.w))
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'fcmp', 'fpext', 'fptrunc', 'fptoui', 'fptosi', 'uitofp', 'sitofp'):
            args = ", ".join(o(i) for i in range(ll.num_ops(v)))
            pred = ll.fcmp_pred(v) if op == 'fcmp' else 0
            E("%s = fpop(%r, %d, %d, %d, %s)" % (d, op, pred, ot(0).w, t.w, args))
        elif op == 'fence':
            pass
        else:
            E("raise AnalysisError('instruction %s')" % op)

    def gep(self, v, d, E):
        mod = self.mod
        t = mod.ty(ll.gep_src(v))
        n = ll.num_ops(v)
        off = 0
        dyn = []
        for i in range(1, n):
            ov = ll.operand(v, i)
            k = ll.value_kind(ov)
            wt = mod.ty(ll.type_of(ov))
            if i == 1:
                size = t.size
            elif t.k == 's':
                ix = mod.const(ov)
                off += t.offs[ix]
                t = t.elts[ix]
                continue
            else:
                t = t.el
                size = t.size
            if k in (ll.VK_INST, ll.VK_ARG):
                dyn.append((self.opd(ov), wt.w, size))
            else:
                ix = mod.const(ov)
                if ix >> (wt.w - 1):
                    ix -= 1 << wt.w
                off += ix * size
        base = self.opd(ll.operand(v, 0))
        if not dyn:
            if off == 0:
                E("%s = %s" % (d, base))
            else:
                E("%s = (%s + %d) & %d" % (d, base, off & M[64], M[64]))
            return
        terms = [base]
        for j, (e, w, size) in enumerate(dyn):
            if w != 64:
                h = 1 << (w - 1)
                E("i%d = %s" % (j, e))
                E("i%d = (i%d ^ %d) - %d if i%d.__class__ is int else sext(i%d, %d, 64)" % (j, j, h, h, j, j, w))
                terms.append("i%d * %d" % (j, size))
            else:
                terms.append("%s * %d" % (e, size))
        if off:
            terms.append(str(off & M[64]))
        E("%s = (%s) & %d" % (d, " + ".join(terms), M[64]))

    def call(self, v, d, E, op):
        mod = self.mod
        cv = ll.called_value(v)
        na = ll.num_args(v)
        k = ll.value_kind(cv)
        t = mod.ty(ll.type_of(v))
        args = [self.opd(ll.operand(v, i)) for i in range(na)]
        X = E
        if op == 'invoke':
            def X(s):
                E("try:")
                E(" " + s)
                E("except Throw as ex:")
                E(" caught(ex)")
                self.jump(self.fn.bbidx[ll.succ(v, 1)], "  ", v)
        if k == ll.VK_ALIAS:
            a = mod.const(cv)
            if a in mod.addr2fn:
                fn = mod.addr2fn[a]
                k = ll.VK_FN
            else:
                raise AnalysisError("call of alias")
        elif k == ll.VK_FN:
            fn = mod.fns[ll.vname(cv)]
        if k == ll.VK_FN:
            nm = fn.name
            if nm.startswith("llvm."):
                if nm.startswith(("llvm.dbg", "llvm.lifetime", "llvm.experimental.noalias", "llvm.assume", "llvm.prefetch", "llvm.donothing", "llvm.invariant", "llvm.var.annotation")):
                    return
            cn = "C%d" % self.ncallee
            self.ncallee += 1
            self.ns[cn] = fn
            X("%s = do_call(%s, (%s))" % (d, cn, "".join(a + ", " for a in args)))
        elif k == ll.VK_ASM:
            E("raise AnalysisError('inline asm')")
        else:
            X("%s = do_icall(%s, (%s))" % (d, self.opd(cv), "".join(a + ", " for a in args)))
        if op == 'invoke':
            self.jump(self.fn.bbidx[ll.succ(v, 0)], " ", v)


MACH = {}          # filled by machine.py
FNBYFILE = {}


def srcloc(fn, lineno):
    v = fn.linemap.get(lineno)
    if not v:
        return None
    n = ll.dbg_line(v)
    f = ll.dbg_file(v)
    return (f, n)
