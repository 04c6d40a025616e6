"""Symbolic executor for GIMPLE (GCC -fdump-tree-cfg).

Integers are Python ints when concrete (patch boxes, ghost widths, loop counters), Int terms otherwise;
doubles are Real terms.  A branch on a symbolic condition is executed on both sides up to the immediate
post-dominator and the states are merged with ite; a side ending in STOP/abort is dropped from the merge and
recorded with its path condition.
"""
import os
import re
from fractions import Fraction
from . import terms as tm
from .terms import T
from .gimple import P, parse_dump, TYPEKW

INTTYPES = {"integer(kind=4)": 32, "integer(kind=8)": 64, "integer(kind=1)": 8, "integer(kind=2)": 16,
            "int": 32, "long int": 64, "short int": 16, "char": 8, "signed char": 8}
UINTTYPES = {"sizetype": 64, "bitsizetype": None, "long unsigned int": 64, "unsigned int": 32,
             "unsigned char": 8, "short unsigned int": 16, "size_t": 64, "ssizetype": 64}


class SymErr(Exception):
    pass


class Unsupported(SymErr):
    pass


class Abort(Exception):
    """the current path ended in STOP"""


REGISTRY = {}


class Obj:
    """an array object; offset 0 is the first element"""
    _c = [0]
    __slots__ = ("id", "name", "size", "default", "kind", "base", "esize", "writable")

    def __init__(self, name, size=None, default=None, kind="heap", esize=8, writable=True):
        Obj._c[0] += 1
        self.id = Obj._c[0]
        self.name = name
        self.size = size
        self.default = default
        self.kind = kind
        self.esize = esize
        self.writable = writable
        REGISTRY[self.id] = self

    def __repr__(self):
        return "<%s>" % self.name


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off

    def __eq__(a, b):
        return isinstance(b, Ptr) and a.obj is b.obj and a.off == b.off

    def __hash__(self):
        return hash((self.obj.id, self.off))

    def __repr__(self):
        return "&%s[%s]" % (self.obj.name, self.off)


UNDEF = object()


class State:
    __slots__ = ("frame", "mem", "owned")

    def __init__(self):
        self.frame = {}
        self.mem = {}
        self.owned = set()

    def clone(self):
        s = State()
        s.frame = dict(self.frame)
        s.mem = dict(self.mem)
        s.owned = set()
        self.owned = set()
        return s


class Program:
    """all functions of a set of dumps"""

    def __init__(self):
        self.funcs = {}
        self.byname = {}

    def load(self, path):
        consts = {}
        orig = path[:-4] + ".orig"
        if os.path.exists(orig):
            # read-only literals passed by reference ("static real(kind=8) C.12 = 1.0e+0;") are missing from the cfg dump
            for m in re.finditer(r"^\s*static ([^;{}]*?) (\w+\.\d+)(?:\[[^\]]*\])? = (\{[^;]*\}|[^;{]*);", open(orig).read(), re.M):
                consts[m.group(2)] = (m.group(1), m.group(3))
        for f in parse_dump(path):
            f.consts = consts
            self.funcs[f.asm] = f
            self.byname[f.name] = f
        return self

    def get(self, name):
        return self.funcs.get(name + "_") or self.funcs.get(name) or self.byname.get(name)


def is_real_type(t):
    return t.startswith(("real", "double", "float")) or t.startswith("const double")


class Engine:
    def __init__(self, prog, maxsteps=3_000_000):
        self.prog = prog
        self.pc = []            # path condition (list of terms)
        self.aborts = []        # (pc, message)
        self.errors = []        # (pc, message)  memory errors
        self.steps = 0
        self.maxsteps = maxsteps
        self.calls = {}
        self.functions = set()
        self.intrinsics = {}
        self.nfresh = 0
        self.unroll_cap = 20000
        self.feasible = None    # optional callback(pc list) -> bool
        self.reads = None       # optional set of (obj, off)
        self.writes = None
        self.depth = 0
        self.stmts = set()
        self.uninit = []
        self.queries = 0
        self.literals = {}

    # --------------------------------------------------------------- utilities
    def fresh(self, p, sort="R"):
        self.nfresh += 1
        return tm.var("%s!%d" % (p, self.nfresh), sort)

    def err(self, msg):
        self.errors.append((list(self.pc), msg))

    def load_cell(self, st, obj, off):
        if isinstance(off, T):
            if tm.isc(off):
                off = int(tm.cval(off))
            else:
                return self.load_sym(st, obj, off)
        if obj.size is not None and not (0 <= off < obj.size):
            self.err("read out of bounds: %s[%d] (size %d)" % (obj.name, off, obj.size))
            return self.fresh("oob")
        if self.reads is not None:
            self.reads.add((obj.id, off))
        cells = st.mem.get(obj.id)
        if cells is not None and off in cells:
            v = cells[off]
            if v is UNDEF:
                return self.undef(obj.name + "[%s]" % off)
            return v
        if obj.default is not None:
            v = obj.default(off)
            self._own(st, obj)[off] = v
            return v
        return self.undef(obj.name + "[%s]" % off)

    def undef(self, what):
        self.uninit.append((list(self.pc), what))
        return self.fresh("undef:" + what)

    def load_sym(self, st, obj, off):
        if obj.size is None:
            raise Unsupported("symbolic index into unsized object " + obj.name)
        self.errors.append((self.pc + [tm.or_(tm.lt(off, tm.const(0, "I")),
                                              tm.le(tm.const(obj.size, "I"), off))],
                            "read out of bounds (symbolic index) of " + obj.name))
        r = None
        for k in range(obj.size - 1, -1, -1):
            v = self.load_cell(st, obj, k)
            r = v if r is None else self.ite(tm.eq(off, tm.const(k, "I")), v, r)
        return r

    def _own(self, st, obj):
        if obj.id not in st.owned:
            st.mem[obj.id] = dict(st.mem.get(obj.id, {}))
            st.owned.add(obj.id)
        return st.mem[obj.id]

    def store_cell(self, st, obj, off, v):
        if isinstance(off, T):
            if tm.isc(off):
                off = int(tm.cval(off))
            else:
                self.errors.append((self.pc + [tm.or_(tm.lt(off, tm.const(0, "I")),
                                                      tm.le(tm.const(obj.size, "I"), off))],
                                    "write out of bounds (symbolic index) of " + obj.name))
                for k in range(obj.size):
                    old = None
                    cells = st.mem.get(obj.id, {})
                    if k in cells or obj.default is not None:
                        old = self.load_cell(st, obj, k)
                        if old is UNDEF: old = None
                    c = tm.eq(off, tm.const(k, "I"))
                    nv = v if old is None else self.ite(c, v, old)
                    self._own(st, obj)[k] = nv
                return
        if obj.size is not None and not (0 <= off < obj.size):
            self.err("write out of bounds: %s[%d] (size %d)" % (obj.name, off, obj.size))
            return
        if not obj.writable:
            self.err("write to read-only object %s[%d]" % (obj.name, off))
            return
        if self.writes is not None:
            self.writes.add((obj.id, off))
        self._own(st, obj)[off] = v

    # --------------------------------------------------------------- values
    @staticmethod
    def tobool(v):
        """value used as a condition -> bool or B term"""
        if isinstance(v, T):
            if v.sort == "B":
                return True if v is tm.TRUE else False if v is tm.FALSE else v
            if tm.isc(v):
                return tm.cval(v) != 0
            return tm.not_(tm.eq(v, tm.const(0, v.sort)))
        if isinstance(v, Ptr):
            return True
        return v != 0

    @staticmethod
    def num(v):
        if isinstance(v, T) and v.sort == "B":
            if v is tm.TRUE: return 1
            if v is tm.FALSE: return 0
            return tm.ite(v, tm.const(1, "I"), tm.const(0, "I"))
        if isinstance(v, T) and v.op == "c" and v.sort == "I":
            return int(v.args[0])
        return v

    def ite(self, c, a, b):
        if a is b: return a
        if a is UNDEF and b is UNDEF: return UNDEF
        if a is UNDEF:
            a = self.fresh("undef")
            if isinstance(b, T) and b.sort != "R":
                a = self.fresh("undef", b.sort)
            elif isinstance(b, int):
                a = self.fresh("undef", "I")
        if b is UNDEF:
            return self.ite(tm.not_(c), b, a)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if a == b: return a
            raise Unsupported("merge of pointers")
        if isinstance(a, tuple) or isinstance(b, tuple):
            return UNDEF
        if not isinstance(a, T) and not isinstance(b, T):
            if a == b: return a
            a, b = tm.const(a, "I"), tm.const(b, "I")
        if isinstance(a, T) and not isinstance(b, T):
            b = tm.lift(b, a.sort) if a.sort != "B" else tm.boolc(bool(b))
        if isinstance(b, T) and not isinstance(a, T):
            a = tm.lift(a, b.sort) if b.sort != "B" else tm.boolc(bool(a))
        if a.sort != b.sort:
            if a.sort == "B": a = tm.lift(a, b.sort)
            elif b.sort == "B": b = tm.lift(b, a.sort)
            else: raise SymErr("sort mismatch in merge %s %s" % (a.sort, b.sort))
        return tm.ite(c, a, b)

    # --------------------------------------------------------------- compile a function
    def compile(self, f):
        if f.compiled:
            return f.compiled
        names = set(f.decls) | {p[0] for p in f.params}
        addr = set()
        arrays = {}
        f.scalars = set()
        for b in f.order:
            for s in f.blocks[b]:
                for m in re.finditer(r"&([A-Za-z_$][A-Za-z0-9_$.]*)", s):
                    nm = m.group(1)
                    if nm in names:
                        addr.add(nm)
                    else:
                        # &D.123.field : strip fields
                        q = nm
                        while "." in q:
                            q = q.rsplit(".", 1)[0]
                            if q in names:
                                addr.add(q)
                                break
        for n, t in f.decls.items():
            m = re.search(r"\[([^\]]*)\](?!.*\*)", t)
            if m and not t.rstrip().endswith(("*", "&")) and not re.search(r"\*\s*(const|restrict)?\s*$", t):
                arrays[n] = t
        f.arrays = arrays
        f.addr = addr
        blocks = {}
        succ = {}
        for b in f.order:
            raw = f.blocks[b]
            i = 0
            stm = []
            term = None
            while i < len(raw):
                s = raw[i]
                s = re.sub(r";\s*\[[^\]]*\]$", ";", s)
                s = re.sub(r"\s*\[(?:INV|[0-9.]+%)\];?$", ";", s)
                if s.startswith("if ("):
                    c = s[3:].strip()
                    t1 = re.match(r"goto <bb (\d+)>", raw[i + 1]).group(1)
                    assert raw[i + 2] == "else"
                    t2 = re.match(r"goto <bb (\d+)>", raw[i + 3]).group(1)
                    p = P(c, names)
                    p.expect("(")
                    e = p.rhs()
                    term = ("if", e, int(t1), int(t2))
                    i += 4
                    continue
                m = re.match(r"^goto <bb (\d+)>", s)
                if m:
                    term = ("goto", int(m.group(1)))
                elif s.startswith("switch ("):
                    term = ("switch", s)
                elif s.startswith("return"):
                    v = s[6:].rstrip(";").strip()
                    term = ("ret", P(v, names).rhs() if v else None)
                elif re.match(r"^<L\d+>:|^<D\.\d+>:|^[A-Za-z_][\w.]*:$|^<[^>]*>:?$", s) or s.startswith("//") or s.startswith("__builtin_stack") \
                        or s.startswith("resx") or s.startswith("# ") :
                    pass
                elif s in (";", "") or s.startswith("GIMPLE_NOP") or s.startswith("[INV]"):
                    pass
                else:
                    stm.append(self.parse_stmt(f, s, names))
                i += 1
            blocks[b] = (stm, term)
        order = f.order
        f.uns = {n for n, t in f.decls.items() if t == "unsigned int"}

        def isuns(e):
            return e[0] == "var" and e[1] in f.uns or e[0] == "cast" and e[1] == "unsigned int" or \
                e[0] == "neg" and isuns(e[1]) or e[0] == "bin" and e[1] in ("+", "-", "*", "/", "%") and (isuns(e[2]) or isuns(e[3]))
        for b in order:
            for x in blocks[b][0]:
                if x[0] == "asg" and x[1][0] == "var" and x[1][1] not in f.decls and isuns(x[2]): f.uns.add(x[1][1])
        for k, b in enumerate(order):
            stm, term = blocks[b]
            if term is None:
                nxt = order[k + 1] if k + 1 < len(order) else None
                last = stm[-1] if stm else None
                if last is not None and last[0] == "call" and self.is_noreturn(last[1]):
                    nxt = None
                blocks[b] = (stm, ("goto", nxt) if nxt is not None else ("end",))
                term = blocks[b][1]
            if term[0] == "if": succ[b] = [term[2], term[3]]
            elif term[0] == "goto": succ[b] = [term[1]]
            else: succ[b] = []
        f.compiled = (blocks, self.ipdoms(f, blocks, succ))
        return f.compiled

    @staticmethod
    def is_noreturn(name):
        return name in ("_gfortran_stop_string", "_gfortran_stop_numeric", "_gfortran_error_stop_string", "abort",
                        "__assert_fail", "_gfortran_runtime_error_at", "_gfortran_runtime_error", "exit",
                        "_gfortran_os_error_at", "__builtin_unreachable")

    def ipdoms(self, f, blocks, succ):
        order = f.order
        ALL = set(order)
        pd = {}
        for b in order:
            if not succ[b]:
                pd[b] = {b} if blocks[b][1][0] == "ret" else set(ALL)
            else:
                pd[b] = set(ALL)
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                if succ[b]:
                    s = set.intersection(*[pd[x] for x in succ[b]]) | {b}
                    if s != pd[b]:
                        pd[b] = s
                        ch = True
        ip = {}
        for b in order:
            c = pd[b] - {b}
            best = None
            if len(pd[b]) == len(ALL) and not succ[b]:
                ip[b] = None
                continue
            for x in c:
                if len(c & pd[x]) == len(c):   # x is post-dominated by all others: the closest
                    best = x
                    break
            ip[b] = best
        return ip

    def parse_stmt(self, f, s, names):
        s = s.rstrip(";").strip()
        # assignment?
        p = self.find_assign(s)
        if p is None:
            return self.parse_call(f, s, names, None)
        lhs, rhs = s[:p].strip(), s[p + 3:].strip()
        l = P(lhs, names)
        lv = l.postfix(l.prim_lv())
        m = re.match(r"^([A-Za-z_~][^\"=]*?) \((.*)\)$", rhs)
        if m and not rhs.startswith(("MAX_EXPR", "MIN_EXPR", "ABS_EXPR", "(", "*", "&", "-")) and m.group(1) not in names \
           and self.balanced(m.group(2)) and not re.search(r" [-+*/<>=&|]+ ", re.sub(r"<[^()]*>", "", m.group(1))):
            c = self.parse_call(f, rhs, names, lv)
            return c
        return ("asg", lv, P(rhs, names).rhs(), s)

    @staticmethod
    def balanced(s):
        d = 0
        for ch in s:
            if ch == "(": d += 1
            if ch == ")":
                d -= 1
                if d < 0: return False
        return d == 0

    @staticmethod
    def find_assign(s):
        d, q = 0, None
        for i, ch in enumerate(s):
            if q:
                if ch == q: q = None
                continue
            if ch in "\"": q = ch
            if ch in "([{": d += 1
            if ch in ")]}": d -= 1
            if d == 0 and s.startswith(" = ", i):
                return i
        return None

    def parse_call(self, f, s, names, lv):
        s = re.sub(r"\s*\[(tail call|return slot optimization|static-chain:[^\]]*|must tail call)\]", "", s)
        # the argument list is the last top-level (...)
        if not s.endswith(")"):
            raise Unsupported("stmt: " + s)
        depth, q = 0, False
        for i in range(len(s) - 1, -1, -1):
            ch = s[i]
            if ch == '"' and (i == 0 or s[i - 1] != "\\"):
                q = not q
            if q:
                continue
            if ch == ")": depth += 1
            elif ch == "(":
                depth -= 1
                if depth == 0:
                    break
        name = s[:i].strip()
        inner = s[i + 1:-1]
        args = []
        from .gimple import split_args
        for a in split_args_raw(inner):
            args.append(P(a, names).rhs())
        return ("call", name, args, lv, s)

    # --------------------------------------------------------------- expression evaluation
    def ev(self, e, st, f):
        k = e[0]
        if k == "var":
            return self.readvar(e[1], st, f)
        if k == "int":
            return e[1]
        if k == "real":
            return tm.const(tm.rationalize(float(e[1])))
        if k == "bin":
            return self.binop(e[1], self.ev(e[2], st, f), self.ev(e[3], st, f))
        if k == "cast":
            return self.cast(e[1], self.ev(e[2], st, f))
        if k == "neg":
            v = self.num(self.ev(e[1], st, f))
            return -v
        if k == "index" or k == "deref" or k == "mem" or k == "field":
            obj, off = self.lval(e, st, f)
            if isinstance(obj, str):
                return self.readvar(obj, st, f)
            return self.load_cell(st, obj, off)
        if k == "addr":
            t = e[1]
            if t[0] == "str":
                o = Obj("str:" + t[1], len(t[1]) + 1, kind="str", esize=1, writable=False)
                s = t[1] + "\0"
                o.default = lambda i, s=s: ord(s[i])
                return Ptr(o, 0)
            if t[0] == "index" and t[1][0] == "str":
                return self.ev(("addr", t[1]), st, f)
            if t[0] == "var" and t[1] not in f.arrays and t[1] not in f.addr:
                cst = getattr(f, "consts", {}).get(t[1])
                if cst is not None:
                    return Ptr(self.literal(t[1], *cst), 0)
                return ("fnptr", t[1])
            obj, off = self.lval(t, st, f)
            return Ptr(obj, off)
        if k == "MAX_EXPR" or k == "MIN_EXPR":
            a, b = self.num(self.ev(e[1], st, f)), self.num(self.ev(e[2], st, f))
            if isinstance(a, int) and isinstance(b, int):
                return max(a, b) if k == "MAX_EXPR" else min(a, b)
            if isinstance(a, int): a = tm.lift(a, b.sort)
            if isinstance(b, int): b = tm.lift(b, a.sort)
            if a.sort == "I":
                return tm.ite(tm.lt(a, b), b, a) if k == "MAX_EXPR" else tm.ite(tm.lt(a, b), a, b)
            return tm.max_(a, b) if k == "MAX_EXPR" else tm.min_(a, b)
        if k == "ABS_EXPR":
            a = self.num(self.ev(e[1], st, f))
            if isinstance(a, int): return abs(a)
            if a.sort == "I": return tm.ite(tm.lt(a, tm.const(0, "I")), -a, a)
            return tm.abs_(a)
        if k == "ite":
            c = self.tobool(self.ev(e[1], st, f))
            if c is True: return self.ev(e[2], st, f)
            if c is False: return self.ev(e[3], st, f)
            return self.ite(c, self.ev(e[2], st, f), self.ev(e[3], st, f))
        if k == "bnot":
            v = self.ev(e[1], st, f)
            if isinstance(v, T) and v.sort == "B": return tm.not_(v)
            return ~self.num(v)
        if k == "lnot":
            v = self.tobool(self.ev(e[1], st, f))
            return tm.not_(v) if isinstance(v, T) else int(not v)
        if k == "call":
            return self.call(e[1], [self.ev(a, st, f) for a in e[2]], st, f)
        if k == "ctor":
            return UNDEF
        if k == "str":
            return self.ev(("addr", e), st, f)
        raise Unsupported("expr %r" % (e,))

    def readvar(self, n, st, f):
        v = st.frame.get(n, UNDEF)
        if isinstance(v, Obj):
            if n in f.arrays:
                return Ptr(v, 0)
            return self.load_cell(st, v, 0)
        if v is UNDEF:
            if re.match(r"^.*_\d+\(D\)$", n):
                n = n[:-3]
            return self.undef("%s:%s" % (f.name, n))
        return v

    def lval(self, e, st, f):
        k = e[0]
        if k == "var":
            v = st.frame.get(e[1])
            if isinstance(v, Obj):
                return v, 0
            if isinstance(v, Ptr) and e[1] in f.arrays:
                return v.obj, v.off
            return e[1], None
        if k == "deref":
            p = self.ev(e[1], st, f)
            if not isinstance(p, Ptr):
                raise Unsupported("deref of %r" % (p,))
            return p.obj, p.off
        if k == "index":
            obj, off = self.lval(e[1], st, f)
            if isinstance(obj, str):
                raise Unsupported("index of scalar " + obj)
            i = self.num(self.ev(e[2], st, f))
            lb = e[3]
            if lb != 0:
                lb = self.num(self.ev(lb, st, f))
            i = i - lb
            return obj, (off + i)
        if k == "mem":
            p = self.ev(e[1], st, f)
            if not isinstance(p, Ptr):
                raise Unsupported("MEM of %r" % (p,))
            return p.obj, p.off + e[2] // p.obj.esize
        if k == "field":
            obj, off = self.lval(e[1], st, f)
            if isinstance(obj, str):
                return obj + "." + e[2], None
            return obj, ("f", off, e[2])
        raise Unsupported("lval %r" % (e,))

    def binop(self, op, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op in ("==", "!="):
                r = (a == b)
                return int(r if op == "==" else not r)
            if isinstance(a, Ptr) and op == "+" and isinstance(b, int):
                if b % a.obj.esize: raise Unsupported("misaligned pointer arithmetic")
                return Ptr(a.obj, a.off + b // a.obj.esize)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "-" and a.obj is b.obj:
                return (a.off - b.off) * a.obj.esize
            raise Unsupported("pointer op " + op)
        if op in ("&", "|", "^") and ((isinstance(a, T) and a.sort == "B") or (isinstance(b, T) and b.sort == "B")):
            a = a if isinstance(a, T) else tm.boolc(bool(a))
            b = b if isinstance(b, T) else tm.boolc(bool(b))
            if op == "&": return tm.and_(a, b)
            if op == "|": return tm.or_(a, b)
            return tm.or_(tm.and_(a, tm.not_(b)), tm.and_(tm.not_(a), b))
        if op in ("==", "!=") and isinstance(a, T) and a.sort == "B":
            bb = bool(b) if isinstance(b, int) else None
            if bb is not None:
                r = a if bb else tm.not_(a)
                if op == "!=": r = tm.not_(r)
                return r
            b2 = b if b.sort == "B" else self.tobool(b)
            r = tm.or_(tm.and_(a, b2), tm.and_(tm.not_(a), tm.not_(b2)))
            return r if op == "==" else tm.not_(r)
        a, b = self.num(a), self.num(b)
        ca, cb = isinstance(a, int), isinstance(b, int)
        if ca and cb:
            if op == "+": return a + b
            if op == "-": return a - b
            if op == "*": return a * b
            if op == "/":
                if b == 0:
                    self.err("integer division by zero")
                    return 0
                q = abs(a) // abs(b)
                return q if (a >= 0) == (b >= 0) else -q
            if op == "%":
                if b == 0:
                    self.err("integer modulo by zero")
                    return 0
                return abs(a) % abs(b) * (1 if a >= 0 else -1)
            if op == "%[fl]" and b: return a % b
            if op == "/[fl]" and b: return a // b
            if op == "/[ex]" and b: return a // b
            if op == "<": return int(a < b)
            if op == "<=": return int(a <= b)
            if op == ">": return int(a > b)
            if op == ">=": return int(a >= b)
            if op == "==": return int(a == b)
            if op == "!=": return int(a != b)
            if op == "&": return a & b
            if op == "|": return a | b
            if op == "^": return a ^ b
            if op == "<<": return a << b
            if op == ">>": return a >> b
            raise Unsupported(op)
        sort = a.sort if not ca else b.sort
        if ca: a = tm.lift(a, sort)
        if cb: b = tm.lift(b, sort)
        if a.sort != b.sort:
            raise SymErr("sort mismatch %s %s %s" % (a.sort, op, b.sort))
        if op == "+": r = a + b
        elif op == "-": r = a - b
        elif op == "*": r = a * b
        elif op == "/":
            if sort == "I":
                r = self.idiv(a, b)
            else:
                r = a / b
        elif op == "/[ex]" and sort == "I":
            r = self.idiv(a, b)
        elif op == "%[fl]" and sort == "I":
            m = a - b * self.idiv(a, b)
            r = tm.ite(tm.and_(tm.not_(tm.eq(m, tm.const(0, "I"))), tm.lt(m * b, tm.const(0, "I"))), m + b, m)
        elif op == "%" and sort == "I":
            r = a - b * self.idiv(a, b)
        elif op == "<": r = tm.lt(a, b)
        elif op == "<=": r = tm.le(a, b)
        elif op == ">": r = tm.gt(a, b)
        elif op == ">=": r = tm.ge(a, b)
        elif op == "==": r = tm.eq(a, b)
        elif op == "!=": r = tm.not_(tm.eq(a, b))
        elif op == "ltgt": r = tm.not_(tm.eq(a, b))
        elif op in ("unlt", "unle", "ungt", "unge", "uneq"):
            r = {"unlt": tm.lt, "unle": tm.le, "ungt": tm.gt, "unge": tm.ge, "uneq": tm.eq}[op](a, b)
        elif op == "unord": r = tm.FALSE
        elif op == "ord": r = tm.TRUE
        else: raise Unsupported("op %s on terms" % op)
        if r is tm.TRUE: return 1
        if r is tm.FALSE: return 0
        return r

    def idiv(self, a, b):
        """C truncating division on Int terms with constant divisor"""
        if not tm.isc(b) or tm.cval(b) == 0:
            raise Unsupported("symbolic integer division")
        return tm._mk("tdiv", (a, b), "I")

    def cast(self, ty, v):
        ty = ty.replace("  ", " ").strip()
        ty = re.sub(r"\s*\(\s*kind\s*=\s*(\d+)\s*\)", r"(kind=\1)", ty)
        if isinstance(v, Ptr) or v is UNDEF or isinstance(v, tuple):
            return v
        if ty.endswith("*") or ty.endswith("&"):
            return v
        if is_real_type(ty):
            v = self.num(v)
            if isinstance(v, int): return tm.const(v)
            if v.sort == "R": return v
            return tm._mk("toreal", (v,), "R") if not tm.isc(v) else tm.const(tm.cval(v))
        if ty in ("bool", "_Bool", "boolean_type") or ty.startswith("logical"):
            if isinstance(v, T) and v.sort == "B": return v
            return self.tobool(v) if isinstance(self.tobool(v), T) else int(self.tobool(v))
        if isinstance(v, T) and v.sort == "B":
            return v
        if isinstance(v, T) and v.sort == "R":
            if tm.isc(v):
                x = tm.cval(v)
                return int(x) if x >= 0 else -int(-x)
            return tm._mk("toint", (v,), "I")
        if isinstance(v, int):
            w = UINTTYPES.get(ty)
            if w: return v & ((1 << w) - 1) if v < 0 or v >= (1 << w) else v
            w = INTTYPES.get(ty)
            if w:
                v &= (1 << w) - 1
                return v - (1 << w) if v >> (w - 1) else v
        return v

    def literal(self, name, ty, txt):
        o = self.literals.get((name, txt))
        if o is None:
            real = is_real_type(ty)
            vals = []
            for x in txt.strip("{} ").split(","):
                x = x.strip()
                x = re.sub(r"^\[\d+(\.\.\.\d+)?\]=", "", x)
                vals.append(tm.const(tm.rationalize(float(x))) if real else int(x))
            o = Obj("literal " + name, len(vals), kind="const", esize=8 if real and "kind=4" not in ty else 4, writable=False)
            o.default = lambda i, vals=vals: vals[i]
            self.literals[(name, txt)] = o
        return o

    # --------------------------------------------------------------- statements
    def assign(self, lv, v, st, f):
        if lv[0] == "var":
            n = lv[1]
            cur = st.frame.get(n)
            if isinstance(cur, Obj):
                if v is UNDEF:
                    st.mem[cur.id] = {}
                    st.owned.add(cur.id)
                    return
                self.store_cell(st, cur, 0, v)
            else:
                if type(v) is int and f is not None and (v < 0 or v > 0x7fffffff):
                    if n in f.uns: v &= 0xffffffff           # unsigned int wraps
                st.frame[n] = v
            return
        obj, off = self.lval(lv, st, f)
        if isinstance(obj, str):
            st.frame[obj] = v
        elif v is UNDEF:
            st.mem[obj.id] = {}
            st.owned.add(obj.id)
        else:
            self.store_cell(st, obj, off, v)

    def call(self, name, args, st, f, raw=None):
        h = self.intrinsics.get(name)
        if h is not None:
            return h(self, args, st)
        if name.startswith("__builtin_") or name in ("exp", "log", "sqrt", "pow", "sin", "cos", "tanh", "acos", "fabs",
                                                    "cosh", "sinh", "atan", "atan2", "tan", "asin", "std::sqrt", "erf",
                                                    "std::abs", "std::pow", "std::fabs", "std::exp", "std::log"):
            return self.builtin(name.replace("std::", "").replace("__builtin_", ""), args, st)
        if name.startswith("_gfortran_"):
            if self.is_noreturn(name):
                self.aborts.append((list(self.pc), "%s: %s" % (f.name, name)))
                if name.startswith("_gfortran_runtime_error"):
                    self.err("runtime bounds check failed in " + f.name)
                raise Abort()
            if name in ("_gfortran_compare_string",):
                return self.cmpstr(args, st)
            if name in ("_gfortran_st_write", "_gfortran_st_write_done", "_gfortran_transfer_character_write",
                        "_gfortran_transfer_real_write", "_gfortran_transfer_integer_write", "_gfortran_flush_i4",
                        "_gfortran_transfer_logical_write", "_gfortran_transfer_array_write"):
                self.io = True
                return 0
            raise Unsupported("runtime call " + name)
        if self.is_noreturn(name):
            self.aborts.append((list(self.pc), "%s: %s" % (f.name, name)))
            raise Abort()
        g = self.prog.get(name)
        if g is None:
            raise Unsupported("call to unknown function %s" % name)
        return self.run(g, args, st)

    def cmpstr(self, args, st):
        n1, p1, n2, p2 = args
        s1 = [self.load_cell(st, p1.obj, p1.off + i) for i in range(n1)]
        s2 = [self.load_cell(st, p2.obj, p2.off + i) for i in range(n2)]
        if any(isinstance(x, T) for x in s1 + s2):
            n = max(len(s1), len(s2))
            s1 += [32] * (n - len(s1))
            s2 += [32] * (n - len(s2))
            e = tm.and_(*[tm.boolc(a == b) if isinstance(a, int) and isinstance(b, int)
                          else tm.eq(tm.lift(a, "I"), tm.lift(b, "I")) for a, b in zip(s1, s2)])
            return tm.ite(e, tm.const(0, "I"), tm.const(1, "I"))
        a = bytes(s1).rstrip(b" ")
        b = bytes(s2).rstrip(b" ")
        return 0 if a == b else (1 if a > b else -1)

    def builtin(self, n, a, st):
        if n in ("fabs", "abs"):
            v = self.num(a[0])
            if isinstance(v, int): return abs(v)
            return tm.abs_(v)
        if n == "sqrt": return tm.sqrt(a[0])
        if n == "powi" or (n == "pow" and (isinstance(a[1], int) or (tm.isc(a[1]) and tm.cval(a[1]).denominator == 1
                                                                    and abs(tm.cval(a[1])) <= 16))):
            k = a[1] if isinstance(a[1], int) else int(tm.cval(a[1])) if tm.isc(a[1]) else None
            if k is None: raise Unsupported("powi with symbolic exponent")
            return a[0] ** k
        if n == "pow":
            if tm.isc(a[1]) and tm.cval(a[1]).denominator == 2 and abs(tm.cval(a[1])) <= 8:
                return tm.sqrt(a[0]) ** int(tm.cval(a[1]) * 2)
            return tm.uf("pow", a[0], a[1])
        if n in ("exp", "log", "sin", "cos", "tan", "tanh", "cosh", "sinh", "acos", "asin", "atan", "atan2", "erf",
                 "floor", "ceil", "log10"):
            return tm.uf(n, *a)
        if n == "fmod":
            x, y = self.num(a[0]), self.num(a[1])
            return x - y * tm._mk("toreal", (tm._mk("toint", (tm.div(tm.lift(x), tm.lift(y)),), "I"),), "R")
        if n == "copysign":
            x = tm.abs_(a[0])
            return tm.ite(tm.lt(tm.lift(a[1]), tm.const(0)), -x, x)
        if n == "malloc":
            sz = a[0]
            if isinstance(sz, T): raise Unsupported("malloc with symbolic size")
            o = Obj("malloc", None, kind="heap")
            o.size = max(1, (sz + 7) // 8)
            return Ptr(o, 0)
        if n in ("free", "memcpy", "memmove", "memset"):
            if n == "free": return 0
            if n in ("memcpy", "memmove"):
                d, s, sz = a
                k = sz // d.obj.esize
                vals = [self.load_cell(st, s.obj, s.off + i) for i in range(k)]
                for i, v in enumerate(vals):
                    self.store_cell(st, d.obj, d.off + i, v)
                return d
            d, c, sz = a
            for i in range(sz // d.obj.esize):
                self.store_cell(st, d.obj, d.off + i, tm.const(0) if c == 0 else c)
            return d
        if n == "unreachable":
            raise Abort()
        if n in ("isnan", "isinf"):
            return 0
        if n == "expect":
            return a[0]
        raise Unsupported("builtin " + n)

    # --------------------------------------------------------------- running
    def run(self, f, args, st):
        self.functions.add(f.asm)
        blocks, ip = self.compile(f)
        if self.depth > 60:
            raise Unsupported("recursion")
        saved = st.frame
        fr = {}
        for n, t in f.decls.items():
            if n in f.arrays:
                m = re.findall(r"\[([^\]]*)\]", t)
                size = 1
                for d in m:
                    if ":" in d:
                        lo, hi = d.split(":")
                        try:
                            d = int(hi) - int(lo) + 1
                        except ValueError:
                            d = None
                    else:
                        d = int(d) if d.isdigit() else None
                    size = size * d if (d is not None and size is not None) else None
                o = Obj("%s:%s" % (f.name, n), size, kind="local", esize=(4 if "kind=4" in t or t.startswith("int") else
                                                                         1 if "char" in t else 8))
                fr[n] = o
            elif n in f.addr:
                fr[n] = Obj("%s:%s" % (f.name, n), 1, kind="local",
                            esize=4 if t.strip() in ("integer(kind=4)", "int") else 8)
        inits = getattr(f, "decls_init", {})
        for i, (n, t) in enumerate(f.params):
            v = args[i] if i < len(args) else UNDEF
            if n in f.addr:
                o = Obj("%s:%s" % (f.name, n), 1, kind="local")
                fr[n] = o
                st.mem[o.id] = {0: v}
                st.owned.add(o.id)
            else:
                fr[n] = v
        st.frame = fr
        for n, ini in inits.items():
            try:
                v = self.ev(P(ini, set(f.decls)).rhs(), st, f)
                self.assign(("var", n), v, st, f)
            except Exception:
                if ini.startswith("{"):
                    self.init_array(st, fr.get(n), ini)
                else:
                    raise
        self.depth += 1
        try:
            st2 = self.region(f, f.order[0], None, st)
        finally:
            self.depth -= 1
        r = st2.frame.get("<ret>", 0)
        if st2 is not st:
            st.mem = st2.mem
            st.owned = set()
        st.frame = saved
        return r

    def init_array(self, st, obj, ini):
        from .gimple import split_args
        vals = split_args(ini.strip()[1:-1])
        for i, v in enumerate(vals):
            v = re.sub(r"^\[\d+\]=", "", v)
            e = P(v, set()).rhs()
            self.store_cell(st, obj, i, self.ev(e, st, None))

    def region(self, f, b, stop, st):
        """execute from block b until block `stop` (exclusive); returns the state. raises Abort."""
        blocks, ip = f.compiled
        while b is not None and b != stop:
            stm, term = blocks[b]
            for s in stm:
                self.steps += 1
                if self.steps > self.maxsteps:
                    raise Unsupported("step budget exceeded")
                if s[0] == "asg":
                    v = self.ev(s[2], st, f)
                    self.assign(s[1], v, st, f)
                else:
                    args = [self.ev(a, st, f) for a in s[2]]
                    r = self.call(s[1], args, st, f)
                    if s[3] is not None:
                        self.assign(s[3], r, st, f)
            k = term[0]
            if k == "goto":
                b = term[1]
            elif k == "ret":
                st.frame["<ret>"] = self.ev(term[1], st, f) if term[1] is not None else 0
                return st
            elif k == "if":
                c = self.tobool(self.ev(term[1], st, f))
                c = self.known(c)
                if c is True or c is False:
                    b = term[2] if c else term[3]
                    continue
                j = ip.get(b)
                st = self.fork(f, c, term[2], term[3], j, stop, st)
                if j is None:
                    return st
                b = j
            else:
                raise Abort()
        return st

    def known(self, c):
        if c is True or c is False:
            return c
        n = tm.not_(c)
        for p in self.pc:
            if p is c: return True
            if p is n: return False
        if self.feasible is not None:
            self.queries += 1
            if not self.feasible(self.pc + [c]): return False
            if not self.feasible(self.pc + [n]): return True
        return c

    def fork(self, f, c, b1, b2, join, stop, st):
        s2 = st.clone()
        n0 = len(self.pc)
        r1 = r2 = None
        try:
            self.pc.append(c)
            r1 = self.region(f, b1, join, st)
        except Abort:
            r1 = None
        del self.pc[n0:]
        try:
            self.pc.append(tm.not_(c))
            r2 = self.region(f, b2, join, s2)
        except Abort:
            r2 = None
        del self.pc[n0:]
        if r1 is None and r2 is None:
            raise Abort()
        if r1 is None or r2 is None:
            # the rest of the path is under the surviving condition
            self.pc.append(c if r2 is None else tm.not_(c))
            return r1 if r2 is None else r2
        return self.merge(c, r1, r2)

    def merge(self, c, a, b):
        r = State()
        fa, fb = a.frame, b.frame
        if fa is not fb:
            fr = {}
            for k, v in fa.items():
                if k in fb:
                    w = fb[k]
                    if v is w: fr[k] = v
                    elif isinstance(v, Obj) or isinstance(w, Obj):
                        raise SymErr("frame object mismatch")
                    else:
                        fr[k] = self.mval(c, v, w)
                elif isinstance(v, Obj):
                    fr[k] = v
                elif re.match(r"^_\d+$", k):
                    pass
                else:
                    fr[k] = self.mval(c, v, UNDEF)
            for k, w in fb.items():
                if k not in fa and not re.match(r"^_\d+$", k):
                    fr[k] = self.mval(c, UNDEF, w)
            r.frame = fr
        else:
            r.frame = dict(fa)
        for oid in set(a.mem) | set(b.mem):
            x, y = a.mem.get(oid, {}), b.mem.get(oid, {})
            if x is y:
                r.mem[oid] = x
                continue
            o = {}
            for off in set(x) | set(y):
                if off in x and off in y:
                    o[off] = x[off] if x[off] is y[off] else self.mval(c, x[off], y[off])
                else:
                    # one side touched a lazily created cell (inputs) or left it uninitialised
                    obj = self.objs.get(oid)
                    if obj is not None and obj.default is not None:
                        d = obj.default(off)
                        o[off] = self.mval(c, x.get(off, d), y.get(off, d))
                    else:
                        o[off] = self.mval(c, x.get(off, UNDEF), y.get(off, UNDEF))
            r.mem[oid] = o
            r.owned.add(oid)
        return r

    objs = REGISTRY

    def mval(self, c, v, w):
        if v is w: return v
        try:
            return self.ite(c, v, w)
        except Unsupported:
            return ("poison",)


def split_args_raw(s):
    out, d, cur, q = [], 0, "", False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in "([{": d += 1
            if ch in ")]}": d -= 1
            if ch == "," and d == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out
