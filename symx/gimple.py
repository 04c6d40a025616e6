"""Parser for GCC's -fdump-tree-cfg GIMPLE dumps (Fortran and C++)."""
import re
from . import terms as tm

TOK = re.compile(r'''\s*(?:
 (?P<str>"(?:[^"\\]|\\.)*")
|(?P<hex>0x[0-9a-fA-F]+)
|(?P<real>\d+\.\d*(?:e[+-]?\d+)?|\d+e[+-]\d+)
|(?P<int>\d+)
|(?P<chr>'(?:[^'\\]|\\.)*')
|(?P<name>[A-Za-z_$][A-Za-z0-9_$]*(?:(?:\.[A-Za-z0-9_]+)|(?:::~?[A-Za-z0-9_]+))*)
|(?P<op><<|>>|<=|>=|==|!=|->|&&|\|\||[-+*/%&|^~!<>=?:.,;()\[\]{}])
)''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == "":
                break
            raise SyntaxError("tok: " + s[i:i + 60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out


TYPEKW = re.compile(r"^(integer|real|logical|character|sizetype|bitsizetype|complex|struct|void|int|double|float|long|short|"
                    r"unsigned|signed|char|bool|const|_Bool|size_t|ptrdiff_t|ssizetype|boolean_type)\b")


class Func:
    def __init__(self):
        self.name = self.asm = None
        self.params = []      # (name, type)
        self.decls = {}       # name -> type
        self.blocks = {}      # bb id -> list of raw statements
        self.order = []
        self.file = None
        self.ret = None
        self.compiled = None


def split_args(s):
    out, d, cur, q = [], 0, "", None
    for ch in s:
        if q:
            cur += ch
            if ch == q: q = None
            continue
        if ch in "\"'":
            q = ch
        if ch in "([{<": d += 1
        if ch in ")]}>": d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def split_decl(d):
    """'real(kind=8)[0:D.4312] * restrict field' -> (name, type)"""
    d = d.strip()
    m = re.search(r"([A-Za-z_$][A-Za-z0-9_$.]*)\s*$", d)
    name = m.group(1)
    ty = d[:m.start()].strip()
    return name, ty


def parse_dump(path):
    funcs = []
    f = None
    cur = None
    state = "top"
    pending = ""
    for line in open(path, errors="replace"):
        line = line.rstrip("\n")
        m = re.match(r"^;; Function (.*) \(([^(), ]+), funcdef_no", line)
        if m:
            f = Func()
            f.name, f.asm, f.file = m.group(1), m.group(2), path
            funcs.append(f)
            state = "head"
            cur = None
            pending = ""
            continue
        if f is None:
            continue
        if state == "head":
            if line.startswith(";;") or not line.strip() or line.startswith("__attribute__") \
               or re.match(r"^(Merging|Removing|Deleted|Fix|Created|Adding|Scope|Computing)", line):
                continue
            if line.startswith("{"):
                state = "decl"
                sig = pending.strip()
                f.sig = sig
                # find the parameter list: matching paren at end
                depth = 0
                for i in range(len(sig) - 1, -1, -1):
                    if sig[i] == ")": depth += 1
                    elif sig[i] == "(":
                        depth -= 1
                        if depth == 0:
                            break
                inner = sig[i + 1:sig.rfind(")")]
                f.ret = sig[:i].strip()
                for p in split_args(inner):
                    if p in ("void", "..."):
                        continue
                    f.params.append(split_decl(p))
                continue
            pending += " " + line.strip()
            continue
        if state == "decl":
            m = re.match(r"^\s*<bb (\d+)>", line)
            if m:
                state = "body"
                cur = int(m.group(1))
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            t = line.strip()
            if t.endswith(";") and t != "":
                t = re.sub(r"\s*=\s*\{.*\};$", ";", t) if " = {" in t and not t.startswith("static") else t
                init = None
                if " = " in t:
                    t, init = t[:-1].split(" = ", 1)
                    t += ";"
                try:
                    name, ty = split_decl(t[:-1])
                    # several C arrays 'double v01[3]'
                    f.decls[name] = ty
                except AttributeError:
                    mm = re.match(r"^(.*?)([A-Za-z_$][A-Za-z0-9_$.]*)((?:\[[^\]]*\])+);$", t)
                    if mm:
                        name = mm.group(2)
                        f.decls[name] = mm.group(1).strip() + mm.group(3)
                if init is not None:
                    f.decls_init = getattr(f, "decls_init", {})
                    f.decls_init[name] = init
            continue
        if state == "body":
            m = re.match(r"^\s*<bb (\d+)>", line)
            if m:
                cur = int(m.group(1))
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            if line.startswith("}"):
                state = "done"
                continue
            t = line.strip()
            if not t:
                continue
            f.blocks[cur].append(t)
    return funcs


# ------------------------------------------------------------------ expression AST
class P:
    """recursive descent over one GIMPLE operand / rhs"""

    def __init__(self, s, names):
        self.t = tokenize(s)
        self.i = 0
        self.names = names

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] != "str":
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise SyntaxError("expected %r at %r" % (v, self.t[self.i:self.i + 6]))

    # full rhs ------------------------------------------------------------
    def rhs(self):
        a = self.unary()
        k, v = self.peek()
        if k is None:
            return a
        if v == "?":
            self.next()
            b = self.unary()
            self.expect(":")
            c = self.unary()
            return ("ite", a, b, c)
        if v in ("+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&&", "||"):
            self.next()
            if v in "/%" and self.peek()[1] == "[" and self.peek(2)[1] == "]" and self.peek(1)[1] in ("fl", "ex"):
                v += "[%s]" % self.peek(1)[1]
                self.next(), self.next(), self.next()
            b = self.unary()
            r = ("bin", v, a, b)
            if self.peek()[1] == "?":
                self.next()
                x = self.unary()
                self.expect(":")
                y = self.unary()
                return ("ite", r, x, y)
            return r
        if k == "name" and v in ("unord", "ltgt", "uneq", "unlt", "unle", "unge", "ungt", "ord"):
            self.next()
            return ("bin", v, a, self.unary())
        if v in ("]", ")", ",", ":", "}"):
            return a
        raise SyntaxError("rhs tail %r" % (self.t[self.i:],))

    def is_cast(self):
        # at '(' : is this '(type) operand' ?
        j = self.i + 1
        k, v = self.t[j]
        if k != "name":
            return None
        depth = 1
        while j < len(self.t):
            vv = self.t[j][1]
            if vv == "(": depth += 1
            elif vv == ")":
                depth -= 1
                if depth == 0:
                    break
            j += 1
        inner = self.t[self.i + 1:j]
        txt = " ".join(x[1] for x in inner)
        nxt = self.t[j + 1] if j + 1 < len(self.t) else (None, None)
        if nxt[0] is None:
            return None
        if nxt[0] in ("name", "int", "real", "str", "hex") or nxt[1] in ("(", "&", "-", "*"):
            return txt, j + 1
        return None

    def unary(self):
        k, v = self.peek()
        if v == "-" and k == "op":
            self.next()
            return ("neg", self.unary())
        if v == "~" and k == "op":
            self.next()
            return ("bnot", self.unary())
        if v == "!" and k == "op":
            self.next()
            return ("lnot", self.unary())
        if v == "&" and k == "op":
            self.next()
            return ("addr", self.postfix(self.prim_lv()))
        if v == "(" and k == "op":
            c = self.is_cast()
            if c and not (self.peek(1)[1] == "("):
                txt, j = c
                # '((x))' parens are handled below because peek(1) is '('
                if not (self.peek(1)[0] == "name" and self.peek(2)[1] == ")" and self._isvar(self.peek(1)[1])):
                    self.i = j
                    return ("cast", txt, self.unary())
            if self.peek(1)[1] == "*" and self.peek(1)[0] == "op":
                return self.postfix(self.prim_lv())
            self.next()
            e = self.rhs()
            self.expect(")")
            return self.postfix(e)
        return self.postfix(self.prim_lv())

    def _isvar(self, v):
        return v in self.names or re.match(r"^.*_\d+$", v) is not None or v.startswith("D.")

    def prim_lv(self):
        k, v = self.peek()
        if v == "*" and k == "op":
            self.next()
            return ("deref", self.prim_lv())
        if v == "(" and k == "op":
            self.next()
            e = self.rhs() if not (self.peek()[1] == "*" and self.peek()[0] == "op") else self.prim_lv()
            if isinstance(e, tuple) and e[0] == "deref":
                e = self.postfix(e)
            self.expect(")")
            return e
        if k == "name":
            self.next()
            if v in ("MAX_EXPR", "MIN_EXPR"):
                self.expect("<")
                a = self.unary()
                self.expect(",")
                b = self.unary()
                self.expect(">")
                return (v, a, b)
            if v in ("ABS_EXPR", "ABSU_EXPR"):
                self.expect("<")
                a = self.unary()
                self.expect(">")
                return ("ABS_EXPR", a)
            if v == "MEM":
                # MEM <type> [(T *)p + 8B]  |  MEM[(T *)p + 8B]
                if self.accept("<"):
                    ty = []
                    d = 1
                    while d:
                        x = self.next()[1]
                        if x == "<": d += 1
                        if x == ">": d -= 1
                        ty.append(x)
                self.expect("[")
                if self.peek()[1] == "(":
                    c = self.is_cast()
                    if c:
                        self.i = c[1]
                base = self.unary()
                off = 0
                if self.accept("+"):
                    off = int(self.next()[1])
                    self.accept("B")
                self.expect("]")
                return ("mem", base, off)
            if v in ("Inf", "Nan"):
                return ("special", v)
            if self.peek()[1] == "(" and self.peek()[0] == "op" and not (v in self.names):
                # a call
                self.next()
                args = []
                while not self.accept(")"):
                    args.append(self.unary())
                    self.accept(",")
                return ("call", v, args)
            return ("var", v)
        if k == "int":
            self.next()
            if self.peek() == ("name", "B"):
                self.next()
            return ("int", int(v))
        if k == "hex":
            self.next()
            return ("int", int(v, 16))
        if k == "real":
            self.next()
            return ("real", v)
        if k == "str":
            self.next()
            return ("str", v[1:-1])
        if k == "chr":
            self.next()
            return ("int", ord(v[1:-1]) if len(v) == 3 else {"\\n": 10, "\\0": 0, "\\t": 9}.get(v[1:-1], 0))
        if v == "{":
            # constructor {CLOBBER...} / {}
            d = 0
            while True:
                x = self.next()[1]
                if x == "{": d += 1
                if x == "}": d -= 1
                if d == 0: break
            return ("ctor",)
        if v == "-":
            self.next()
            return ("neg", self.prim_lv())
        raise SyntaxError("prim %r" % (self.t[self.i:self.i + 8],))

    def postfix(self, e):
        while True:
            k, v = self.peek()
            if v == "[" and k == "op":
                self.next()
                ix = self.rhs()
                self.expect("]")
                lb = 0
                if self.peek()[1] == "{":
                    self.next()
                    while not self.accept("}"):
                        n = self.next()[1]
                        if n == "lb":
                            self.expect(":")
                            lb = self.unary()
                        else:
                            self.accept(":")
                e = ("index", e, ix, lb)
            elif v == "->" and k == "op":
                self.next()
                e = ("field", ("deref", e), self.next()[1])
            elif v == "." and k == "op":
                self.next()
                e = ("field", e, self.next()[1])
            else:
                return e
