"""Translates functions of /repo (the JSON AST that cxxdump prints) into Verus.

Every function under contract becomes one Verus function over mathematical ("ghost") values; every
statement of the C++ body is translated mechanically, in order.  Anything outside the supported subset
raises Unsupported: nothing is skipped silently.  See DESIGN.md, section "What the extraction drops".
"""
import json, os, re, subprocess


class Unsupported(Exception):
    """The code uses something outside the translated subset."""


class Unbound(Exception):
    """An annotation names something that the code no longer has."""


OPAQUE_DEFAULT = {"std::wstring_convert": "()", "std::basic_ostringstream": "oss_new()", "std::linear_congruential_engine": "()",
                  "std::mersenne_twister_engine": "()", "std::uniform_real_distribution": "()", "std::random_device": "()"}
OSTREAMS = ("std::basic_ostringstream", "std::basic_ostream", "std::basic_stringstream")
ISTREAMS = ("std::basic_istringstream", "std::basic_istream", "std::basic_stringstream", "std::basic_ios")


def strip_ptr(t):
    t = strip_ref(t)
    return t[2] if isinstance(t, list) and t[0] == "*" else t


INTS = {"int": (True, 32), "unsigned int": (False, 32), "long": (True, 64), "unsigned long": (False, 64),
        "short": (True, 16), "unsigned short": (False, 16), "char": (True, 8), "signed char": (True, 8),
        "unsigned char": (False, 8), "wchar_t": (True, 32), "char16_t": (False, 16), "char32_t": (False, 32),
        "long long": (True, 64), "unsigned long long": (False, 64)}
SEQ1 = {"std::vector", "std::initializer_list", "std::deque", "std::list"}
STRS = {"std::basic_string", "std::basic_string_view"}
OPTS = {"std::optional", "std::unique_ptr", "std::shared_ptr"}
MAPS = {"std::unordered_map", "std::map"}
SETS = {"std::unordered_set", "std::set"}
USTR = "icu_74::UnicodeString"
OPAQUE_TYPES = {"icu_74::Normalizer2": "Normalizer2", "icu_74::RegexPattern": "RePat", "icu_74::RegexMatcher": "ReMat"}


def head(t):
    return t if isinstance(t, str) else t[0]


def strip_ref(t):
    while isinstance(t, list) and t[0] in ("&", "&&"):
        t = t[2]
    return t


def is_ref(t):
    return isinstance(t, list) and t[0] in ("&", "&&")


def is_mut_ref(t):
    return isinstance(t, list) and t[0] == "&" and not t[1]


def is_mut_ptr(t):
    return isinstance(t, list) and t[0] == "*" and not t[1]


def is_seq(t):
    t = strip_ref(t)
    h = head(t)
    return h in SEQ1 or h in STRS or h == USTR or h == "array" or h == "std::priority_queue"


def is_map(t):
    return head(strip_ref(t)) in MAPS


def is_set(t):
    return head(strip_ref(t)) in SETS


def is_opt(t):
    t = strip_ref(t)
    return head(t) in OPTS or (head(t) == "*" and not is_charptr(t))


def is_charptr(t):
    return isinstance(t, list) and t[0] == "*" and head(t[2]) in ("char", "wchar_t", "char16_t")


def is_int(t):
    t = strip_ref(t)
    return t in INTS if isinstance(t, str) else head(t) == "enum"


def is_float(t):
    return strip_ref(t) in ("float", "double", "long double")


def is_vit(t):
    return head(strip_ref(t)) == "__gnu_cxx::__normal_iterator" or head(strip_ref(t)) == "std::_Bit_iterator"


def is_mit(t):
    return head(strip_ref(t)) in ("std::__detail::_Node_iterator", "std::__detail::_Node_const_iterator",
                                  "std::__detail::_Node_iterator_base", "std::_Rb_tree_iterator",
                                  "std::_Rb_tree_const_iterator")


def elem(t):
    t = strip_ref(t)
    if head(t) in STRS or t == USTR:
        return t[1] if isinstance(t, list) and len(t) > 1 else "char16_t"
    return t[1]


class Prog:
    """The repository as extracted."""

    def __init__(self, units, baseline):
        self.records, self.enums, self.fns, self.globals = {}, {}, {}, {}
        for u in units:
            for r in u["records"]:
                self.records.setdefault(r["name"], r)
            for e in u["enums"]:
                self.enums.setdefault(e["name"], e)
            for f in u["functions"]:
                lst = self.fns.setdefault(f["qname"], [])
                key = [p["type"] for p in f["params"]]
                if not any([p["type"] for p in g["params"]] == key for g in lst):
                    lst.append(f)
            for g in u.get("globals", []):
                self.globals.setdefault(g["name"], g)
        # rust name of each field: the name the contracts use, when a field was merely renamed
        self.fname = {}
        for n, r in self.records.items():
            b = (baseline or {}).get("records", {}).get(n)
            cur = [(f["name"], f["type"]) for f in r["fields"]]
            names = [f for f, _ in cur]
            if b and sorted(map(lambda x: x[0], b)) != sorted(names) and len(b) == len(cur):
                missing = [(x, t) for x, t in b if x not in names]
                extra = [(x, t) for x, t in cur if x not in [y for y, _ in b]]
                if [t for _, t in missing] == [t for _, t in extra]:
                    for (x, _), (y, _) in zip(missing, extra):
                        self.fname[(n, y)] = x

    def bases(self, n):
        r = self.records.get(n)
        return [head(b) for b in r["bases"]] if r else []

    def fields(self, n):
        """All fields, base classes first, as (rust name, C++ name, type)."""
        r = self.records.get(n)
        if r is None:
            raise Unsupported("unknown class " + str(n))
        out = []
        for b in self.bases(n):
            out += self.fields(b)
        for f in r["fields"]:
            out.append((self.fname.get((n, f["name"]), f["name"]), f["name"], f["type"]))
        return out

    def abstract(self, n):
        return self.records[n].get("abstract", False)

    def derived(self, n):
        return [m for m in self.records if n in self.bases(m) or any(n in self.bases(b) for b in self.bases(m))]

    def find(self, qname, params=None):
        lst = self.fns.get(qname, [])
        if params is not None:
            lst = [f for f in lst if len(f["params"]) == len(params) and
                   [p["type"] for p in f["params"]] == params] or \
                  [f for f in lst if len(f["params"]) == len(params)]
        return lst[0] if len(lst) >= 1 else None

    def lambdas(self, qname, nparams=None):
        """The lambdas of a function, in the order in which they are written."""
        out = []

        def walk(n):
            if isinstance(n, list):
                for x in n:
                    walk(x)
            elif isinstance(n, dict):
                if n.get("k") == "LambdaExpr":
                    out.append(n)
                for kk, v in n.items():
                    if isinstance(v, (dict, list)) and kk != "fn":
                        walk(v)
        f = self.find(qname)
        if f is not None:
            walk(f.get("inits", []))
            walk(f["body"])
        return f, out

    def lambda_fn(self, key):
        """Lambda number N of a function (key "outer#lambdaN") as a function of its own."""
        outer, k = key.rsplit("#lambda", 1)
        f, ls = self.lambdas(outer)
        if int(k) >= len(ls):
            raise Unbound("no lambda %s in %s" % (k, outer))
        n = ls[int(k)]
        if any(not c["this"] for c in n["captures"]):
            raise Unsupported("lambda that captures variables")
        return {"name": key, "qname": key, "cls": f.get("cls"), "static": f.get("static"), "params": n["params"],
                "ret": n["ret"], "body": n["body"], "file": f["file"], "line": n.get("line", f["line"]),
                "endline": n.get("endline", f["endline"]), "ctor": None}

    def struct_fields(self, n):
        fs = [(a, t) for a, _, t in self.fields(n)]
        return fs


def rname(n):
    return n.replace("::", "_").replace("<", "_").replace(">", "_").replace("#", "_").replace("~", "_")


KEYWORDS = {"type", "match", "loop", "fn", "let", "mut", "ref", "move", "in", "use", "impl", "mod", "pub", "self",
            "spec", "proof", "exec", "assert", "assume", "ghost", "tracked", "final", "box", "where", "dyn", "str",
            "as", "priv", "yield", "open", "closed", "forall", "exists", "choose", "is", "has", "matches", "via", "opaque"}


def vname(n):
    return "v_" + n


class Path:
    def __init__(self, root, steps, t):
        self.root, self.steps, self.t = root, list(steps), t

    def ext(self, step, t):
        return Path(self.root, self.steps + [step], t)

    def read(self):
        e = self.root
        for s in self.steps:
            e = Path.read1(e, s)
        return e

    @staticmethod
    def read1(e, s):
        if s[0] == "f":
            return "%s.%s" % (e, s[1])
        if s[0] == "i":
            return "%s[%s]" % (e, s[1])
        if s[0] == "m":
            return "%s[%s]" % (e, s[1])
        if s[0] == "s":
            return "%s->0" % e
        raise Unsupported("path step")

    def write(self, val):
        def up(base, steps):
            if not steps:
                return val
            s = steps[0]
            v = up(Path.read1(base, s), steps[1:])
            if s[0] == "f":
                return "%s { %s: %s, ..%s }" % (s[2], s[1], v, base)
            if s[0] == "i":
                return "%s.update(%s, %s)" % (base, s[1], v)
            if s[0] == "m":
                return "%s.insert(%s, %s)" % (base, s[1], v)
            if s[0] == "s":
                return "Some(%s)" % v
        return up(self.root, self.steps)

    def shape(self):
        return tuple(s[1] if s[0] == "f" else "[]" if s[0] == "i" else "[k]" if s[0] == "m" else "->" for s in self.steps)


class Var:
    def __init__(self, kind, t, **kw):
        self.kind, self.t = kind, t
        self.__dict__.update(kw)


def size_text(e):
    """e is slen(...) or u_count32(...)"""
    m = re.match(r"\(*(slen|u_count32)\(", e)
    if not m:
        return False
    d = 0
    for i, ch in enumerate(e):
        d += (ch == "(") - (ch == ")")
        if d == 0 and ch == ")":
            return i == len(e) - 1
    return False


def size_terms(e):
    out = []
    for m in re.finditer(r"\b(slen|u_count32)\(", e):
        d = 0
        for i in range(m.end() - 1, len(e)):
            d += (e[i] == "(") - (e[i] == ")")
            if d == 0:
                out.append(e[m.start():i + 1])
                break
    return out


class Line:
    __slots__ = ("text", "label", "kind")

    def __init__(self, text, label=None, kind=None):
        self.text, self.label, self.kind = text, label, kind


class FnT:
    """Translation of one function under contract."""

    def __init__(self, tr, contract, fn, lam=None, outer=None):
        self.tr, self.P, self.c, self.fn = tr, tr.P, contract, fn
        self.lines = []
        self.names = {}
        self.env = {}
        self.scopes = []
        self.vis = {}          # C++ name -> rust expression (visible now)
        self.guards = []
        self.pure = 0
        self.writes = set()
        self.nloops = 0
        self.ncalls = {}
        self.inline_stack = []
        self.this = None
        self.ret_mode = None
        self.entry = {}
        self.n_ob = 0
        self.loops_info = []
        self.decl_log = []
        self.name = contract["name"]
        self.loop_depth = 0
        self.brk = []
        self.lambda_count = 0
        self.cur_line = 0

    # ---- small helpers ----
    def fresh(self, base):
        base = re.sub(r"\W", "_", base)
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else "%s_%d" % (base, n + 1)

    def rt(self, t):
        return self.tr.rt(t)

    def emit(self, s, label=None, kind=None):
        if self.pure:
            raise Unsupported("effect in a pure context: " + s[:80])
        self.lines.append(Line(s, label, kind))

    def ob(self, cond, kind, n=None):
        if cond == "true":
            return
        if self.pure:
            if self.pure_obs is not None:
                o = ("(%s) ==> (%s)" % (" && ".join("(%s)" % g for g in self.guards), cond)) if self.guards else cond
                self.pure_obs.append(("{ %s %s }" % (" ".join(self.pure_lets), o) if self.pure_lets else o,
                                      (n or {}).get("line", self.cur_line), kind))
            return
        if self.guards:
            cond = "(%s) ==> (%s)" % (" && ".join("(%s)" % g for g in self.guards), cond)
        line = (n or {}).get("line", self.cur_line)
        self.n_ob += 1
        self.emit("proof { assert(%s); }" % cond, "%s: line %s: %s" % (self.name, line, kind), "safety")

    def push_scope(self):
        self.scopes.append((dict(self.vis)))

    def pop_scope(self):
        new = self.vis
        self.vis = self.scopes.pop()
        for k, v in new.items():
            if k[0] == "#" and k not in self.vis:
                self.vis[k] = v

    def declare(self, cid, cname, t, init, mut=True):
        r = self.fresh(vname(cname))
        self.env[cid] = Var("var", t, r=r)
        self.vis[cname] = r
        if not self.inline_stack:
            self.decl_log.append((cname, json.dumps(t)))
        self.emit("let ghost mut %s: %s = %s;" % (r, self.rt(t), init))
        self.hint("decl " + cname)
        return r

    def temp(self, t_rust, init, base="t"):
        r = self.fresh(base)
        self.emit("let ghost %s: %s = %s;" % (r, t_rust, init))
        return r

    def tempmut(self, t_rust, init, base="t"):
        r = self.fresh(base)
        self.emit("let ghost mut %s: %s = %s;" % (r, t_rust, init))
        return r

    def assign(self, path, val):
        self.writes.add((path.root, path.shape()))
        self.emit("proof { %s = %s; }" % (path.root, path.write(val)))

    def hint(self, key, extra=None):
        h = self.c.get("hints", {}).get(key)
        if h:
            self.used_hints.add(key)
            self.emit_hint(h, "%s: hint %s" % (self.name, key), extra)

    def emit_hint(self, text, label, extra=None):
        """'@let x = e;' keeps the value of e here under the name #x; the rest is proof text."""
        while True:
            m = re.match(r"\s*@let (\w+) = ([^;]*);", text)
            if not m:
                break
            x = self.fresh("k_" + m.group(1))
            self.emit("let ghost %s = %s;" % (x, self.subst(m.group(2), extra)))
            self.vis["#" + m.group(1)] = x
            text = text[m.end():]
        if text.strip():
            self.emit("proof { %s }" % self.subst(text, extra), label, "hint")

    used_hints = None

    # ---- $-substitution of contract text ----
    def subst(self, text, extra=None):
        def r(m):
            zero, name, post = m.group(1), m.group(2), m.group(3)
            name = self.tr.renamed(self, name)
            if extra and (zero + name + post) in extra:
                return extra[zero + name + post]
            if post:
                raise Unsupported("post-state name $%s' here" % name)
            if zero == "0" or (name not in self.vis and name in self.entry):
                if name in self.entry:
                    return self.entry[name]
                raise Unbound("$0%s" % name)
            if name in self.vis:
                v = self.vis[name]
                return v() if callable(v) else v
            raise Unbound("$" + name)
        text = re.sub(r"\$(0?)([A-Za-z_]\w*)('?)", r, text)

        def rl(m):
            k = m.group(1)
            v = self.vis.get("#" + k)
            if v is None:
                raise Unbound("#" + k)
            return v
        text = re.sub(r"#([a-z]+\d*)\b", rl, text)
        return self.tr.expand_str(text)

    # ---- expressions ----
    def kids(self, n):
        return n.get("c", [])

    def skip(self, n):
        """Through value-preserving wrappers."""
        while True:
            k = n["k"]
            if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr"):
                if n["cast"] in ("NoOp", "LValueToRValue", "FunctionToPointerDecay", "ConstructorConversion",
                                 "ArrayToPointerDecay", "DerivedToBase", "UncheckedDerivedToBase", "BuiltinFnToFnPtr",
                                 "UserDefinedConversion"):
                    n = n["c"][0]
                    continue
            if k == "CXXConstructExpr" and n.get("copy") and len(self.kids(n)) == 1:
                n = n["c"][0]
                continue
            if k == "CallExpr" and n.get("fn") and n["fn"]["name"] in ("std::move", "std::forward", "std::as_const"):
                n = n["c"][1]
                continue
            return n

    def effects(self, n):
        """Does evaluating n change a variable or call a function under contract?"""
        if n is None:
            return False
        if isinstance(n, list):
            return any(self.effects(x) for x in n)
        k = n["k"]
        if k == "LambdaExpr":
            return False
        if k == "CXXDeleteExpr" or k == "UnaryOperator" and n["op"] in ("++", "--"):
            return True
        if k == "CompoundAssignOperator" or (k == "BinaryOperator" and n["op"] == "="):
            return True
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr", "CXXConstructExpr", "CXXTemporaryObjectExpr"):
            fn = n.get("fn")
            if fn is None:
                return True
            if fn["repo"] and k not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                return True
            if fn["repo"] and self.tr.contract_for(fn):
                return True
            short = fn["name"].split("::")[-1]
            if k == "CXXOperatorCallExpr" and n.get("op") in ("=", "+=", "-=", "++", "--", "<<", ">>"):
                return True
            if k == "CXXOperatorCallExpr" and n.get("op") == "[]" and self.kids(n) and len(self.kids(n)) > 1 and \
                    is_map(self.kids(n)[1].get("type", "")):
                return True
            if "RegexMatcher::" in fn["name"] and short not in ("start", "end"):
                return True
            if k == "CXXOperatorCallExpr" and n.get("op") == "()":
                return not fn["name"].startswith("std::function")
            if short in ("push_back", "insert", "erase", "emplace", "emplace_back", "pop", "push", "clear", "append",
                         "replace", "resize", "reset", "toUTF8String", "toUTF32", "transform", "accumulate", "pop_back",
                         "reserve", "assign", "swap", "find_if", "remove_if", "max_element", "min_element", "any_of",
                         "all_of", "none_of", "matcher", "compile", "sort", "reverse", "copy", "fill"):
                if short == "replace" and fn["name"].startswith("std::replace"):
                    return True
                if short in ("find_if", "max_element", "min_element", "any_of", "all_of", "none_of"):
                    return False
                return True
        return any(self.effects(x) for x in self.kids(n))

    def args(self, n):
        k = n["k"]
        c = self.kids(n)
        return c[1:] if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr") else c

    def conv(self, e, src, dst, node=None):
        """Integer conversion, exact."""
        src, dst = strip_ref(src), strip_ref(dst)
        if dst == "bool":
            return "(%s != 0)" % e
        if src == "bool":
            return "b2i(%s)" % e
        if head(dst) == "enum" or head(src) == "enum" and dst in ("int", "unsigned int", "long", "unsigned long"):
            return e
        if dst not in INTS:
            raise Unsupported("conversion to %s" % (dst,))
        if head(src) == "enum":
            src = "unsigned int"
        if src not in INTS:
            raise Unsupported("conversion from %s" % (src,))
        (ss, sb), (ds, db) = INTS[src], INTS[dst]
        m = re.fullmatch(r"\(?(-?\d+)\)?", e)
        if m:
            v = int(m.group(1))
            lo, hi = (-(1 << (db - 1)), (1 << (db - 1)) - 1) if ds else (0, (1 << db) - 1)
            v = (v - lo) % (hi - lo + 1) + lo
            return "(%d)" % v if v < 0 else str(v)
        if ss == ds and db >= sb or (ds and not ss and db > sb):
            return e
        if node is not None and self.is_size(node) or size_text(e):
            return e        # assumption: sizes fit the target type
        if ds and db == 32 and not ss and not self.pure and not self.guards:
            for x in size_terms(e):
                self.emit("size_fits(Ghost(%s));" % x)
        return "%s%d(%s)" % ("iw" if ds else "uw", db, e)

    def is_size(self, n):
        n = self.skip(n)
        if n["k"] == "CXXMemberCallExpr":
            s = n["fn"]["name"].split("::")[-1]
            return s in ("size", "length", "countChar32")
        if n["k"] == "BinaryOperator" and n["op"] in ("+",):
            return all(self.is_size(x) for x in n["c"])
        return False

    def cond(self, n):
        return self.ex(n)

    def ex(self, n):
        """Value of an expression, as a Verus spec expression."""
        if n is None:
            raise Unsupported("missing expression")
        if "line" in n:
            self.cur_line = n["line"]
        k = n["k"]
        m = getattr(self, "x_" + k, None)
        if m is None:
            raise Unsupported("expression " + k)
        return m(n)

    def x_IntegerLiteral(self, n):
        return n["value"]

    def x_CharacterLiteral(self, n):
        return str(n["value"])

    def x_CXXBoolLiteralExpr(self, n):
        return "true" if n["value"] else "false"

    def x_FloatingLiteral(self, n):
        return self.tr.flit(n["value"])

    def x_StringLiteral(self, n):
        return self.tr.slit(n["units"])

    def x_CXXNullPtrLiteralExpr(self, n):
        return "None"

    def x_GNUNullExpr(self, n):
        return "None"

    def x_UnaryExprOrTypeTraitExpr(self, n):
        if "value" in n:
            return n["value"]
        raise Unsupported("sizeof")

    def x_CXXScalarValueInitExpr(self, n):
        return self.default(n["type"])

    def x_ImplicitValueInitExpr(self, n):
        return self.default(n["type"])

    def x_CXXThisExpr(self, n):
        return "Some(%s)" % self.this.read()

    def x_DeclRefExpr(self, n):
        if n.get("dk") == "EnumConstant":
            return n["value"]
        if n.get("qname") == "std::nullopt":
            return "None"
        if n.get("qname", "").endswith("::npos"):
            return "18446744073709551615"
        p = self.path(n)
        if p is not None:
            return p.read()
        v = self.env.get(n["id"])
        if v is not None and v.kind == "expr":
            return v.e
        raise Unsupported("reference to " + n.get("qname", n.get("name", "?")))

    def x_MemberExpr(self, n):
        p = self.path(n)
        if p is not None:
            return p.read()
        base = n["c"][0]
        e = self.ex(base)
        if n.get("arrow"):
            bn = self.skip(base)
            if is_mit(bn.get("type", "")) or bn["k"] == "CXXOperatorCallExpr" and bn.get("op") == "->":
                pass
            else:
                e = "%s->0" % e
        return "%s.%s" % (e, self.field(n))

    def field(self, n):
        q = n["qname"]
        cls = q.rsplit("::", 1)[0]
        return self.P.fname.get((cls, n["name"]), n["name"])

    def x_ImplicitCastExpr(self, n):
        c = n["cast"]
        s = n["c"][0]
        if c in ("NoOp", "LValueToRValue", "FunctionToPointerDecay", "ConstructorConversion", "ArrayToPointerDecay",
                 "BuiltinFnToFnPtr", "UserDefinedConversion"):
            return self.ex(s)
        if c == "IntegralCast":
            q = self.skip(s)
            while q["k"] == "ParenExpr":
                q = self.skip(q["c"][0])
            if q["k"] == "ConditionalOperator" and strip_ref(n["type"]) in INTS:
                # the conversion of each alternative
                cc = [q["c"][0]] + [dict(n, k="ImplicitCastExpr", c=[x]) for x in q["c"][1:]]
                return self.ex(dict(q, c=cc, type=n["type"]))
            if q["k"] == "ImplicitCastExpr" and q["cast"] == "IntegralCast" and \
                    strip_ref(q["c"][0]["type"]) == strip_ref(n["type"]) and strip_ref(n["type"]) in INTS and \
                    INTS.get(strip_ref(q["type"]), (0, 0))[1] >= INTS[strip_ref(n["type"])][1]:
                return self.ex(q["c"][0])       # there and back
            return self.conv(self.ex(s), s["type"], n["type"], s)
        if c == "IntegralToBoolean":
            return "(%s != 0)" % self.ex(s)
        if c in ("DerivedToBase", "UncheckedDerivedToBase"):
            if head(strip_ref(n["type"])) == "simdjson::simdjson_result":
                return self.ex(s)
            if is_mit(n["type"]) or is_vit(n["type"]):
                return self.ex(s)
            if isinstance(n["type"], list) and n["type"][0] == "*":
                inner = self.skip(s)
                return "Some(%s)" % self.upcast(self.ex_deref(s), strip_ptr(s["type"]), n["type"][2])
            return self.upcast(self.ex(s), s["type"], n["type"])
        if c == "NullToPointer":
            return "None"
        if c in ("FloatingCast",):
            return self.ex(s)
        if c in ("IntegralToFloating",):
            return "fl_of_int(%s)" % self.ex(s)
        if c in ("PointerToBoolean",):
            return "%s.is_some()" % self.ex(s)
        raise Unsupported("cast " + c)

    def literal_bool_op(self, n):
        return False

    x_CXXStaticCastExpr = x_ImplicitCastExpr
    x_CStyleCastExpr = x_ImplicitCastExpr
    x_CXXFunctionalCastExpr = x_ImplicitCastExpr

    def x_CXXReinterpretCastExpr(self, n):
        raise Unsupported("reinterpret_cast")

    def ex_deref(self, n):
        p = self.deref(n)
        return p.read()

    def upcast(self, e, src, dst):
        src, dst = head(strip_ref(src)), head(strip_ref(dst))
        if src == dst:
            return e
        fs = self.P.fields(dst)
        lit = ", ".join("%s: %s.%s" % (a, e, a) for a, _, _ in fs)
        if self.P.abstract(dst):
            dyn = "dyn_%s(%s)" % (rname(src), e)
            self.tr.need_dyn(src, dst)
            lit = ("dyn_id: %s" % dyn) + (", " + lit if lit else "")
        return "%s { %s }" % (self.rt(dst), lit)

    def x_ParenExpr(self, n):
        return self.ex(n["c"][0])

    def x_UnaryOperator(self, n):
        op = n["op"]
        s = n["c"][0]
        if op == "!":
            return "!(%s)" % self.ex(s)
        if op == "-":
            e = self.ex(s)
            if re.fullmatch(r"\d+", e):
                return "(-%s)" % e
            return self.wrap("-(%s)" % e, n)
        if op == "+":
            return self.ex(s)
        if op in ("++", "--"):
            p = self.need_path(s)
            old = p.read()
            if n.get("postfix"):
                t = self.temp(self.rt(s["type"]), old)
            v = self.wrap("%s %s 1" % (old, op[0]), n)
            self.assign(p, v)
            return t if n.get("postfix") else p.read()
        if op == "*":
            return self.deref(s).read()
        if op == "&":
            inner = self.skip(s)
            if inner["k"] == "DeclRefExpr" and inner.get("dk") == "Function":
                return self.ex(inner)
            return "Some(%s)" % self.ex(s)
        if op == "~":
            return "bnot(%s)" % self.ex(s)
        raise Unsupported("unary " + op)

    def wrap(self, e, n):
        """Result of an arithmetic operation in the type of n."""
        t = strip_ref(n["type"])
        m = re.fullmatch(r"(\d+) ([-+*]) (\d+)", e)
        if m:       # constants are folded
            a, b = int(m.group(1)), int(m.group(3))
            v = a + b if m.group(2) == "+" else a - b if m.group(2) == "-" else a * b
            if t in INTS:
                sgn, bits = INTS[t]
                lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sgn else (0, (1 << bits) - 1)
                v = (v - lo) % (hi - lo + 1) + lo
                return str(v) if v >= 0 else "(%d)" % v
        if t in INTS:
            sgn, bits = INTS[t]
            if not sgn:
                return "uw%d(%s)" % (bits, e)
            if self.c.get("overflow"):
                self.ob("in%d(%s)" % (bits, e), "signed overflow", n)
            return "(%s)" % e
        raise Unsupported("arithmetic on %s" % (t,))

    def x_BinaryOperator(self, n):
        op = n["op"]
        a, b = n["c"]
        if op == "=":
            return self.x_assign(n, a, b)
        if op in ("&&", "||"):
            ea = self.ex(a)
            if self.effects(b):
                t = self.tempmut("bool", ea, "sc")
                self.emit("if test(Ghost(%s)) {" % (t if op == "&&" else "!" + t))
                eb = self.ex(b)
                self.emit("proof { %s = %s; }" % (t, eb))
                self.emit("}")
                return t
            self.guards.append(ea if op == "&&" else "!(%s)" % ea)
            eb = self.ex(b)
            self.guards.pop()
            return "(%s %s %s)" % (ea, op, eb)
        if op == ",":
            self.ex(a)
            return self.ex(b)
        ea = self.ex(a)
        if self.effects(b) and not re.fullmatch(r"[\d()-]+", ea):
            ea = self.temp(self.rt(a["type"]), ea)
        eb = self.ex(b)
        return self.binop(op, ea, eb, a["type"], b["type"], n)

    def binop(self, op, ea, eb, ta, tb, n):
        ta, tb = strip_ref(ta), strip_ref(tb)
        if op in ("==", "!="):
            if is_float(ta):
                e = "fl_eq(%s, %s)" % (ea, eb)
            elif is_opt(ta) and eb == "None":
                e = "%s.is_none()" % ea
            elif is_opt(tb) and ea == "None":
                e = "%s.is_none()" % eb
            else:
                e = self.eq(ea, eb, ta)
            return e if op == "==" else "!(%s)" % e
        if op in ("<", ">", "<=", ">="):
            if is_float(ta):
                return "fl_lt(%s, %s)" % ((ea, eb) if op == "<" else (eb, ea)) if op in ("<", ">") else \
                    "fl_le(%s, %s)" % ((ea, eb) if op == "<=" else (eb, ea))
            if not (is_int(ta) and is_int(tb)):
                raise Unsupported("comparison of %s" % (ta,))
            for x, y in ((ea, eb), (eb, ea)):
                if x.startswith("uw64(") and not self.pure:
                    for z in size_terms(y):
                        self.emit("size_max(Ghost(%s));" % z)
            return "(%s %s %s)" % (ea, op, eb)
        t = strip_ref(n["type"]) if "ctype" not in n else strip_ref(n["ctype"])
        nn = dict(n, type=t)
        if is_float(t):
            return "fl_op(%s, %s)" % (ea, eb)
        if op in ("+", "-", "*"):
            return self.wrap("%s %s %s" % (ea, op, eb), nn)
        if op in ("/", "%"):
            self.ob("%s != 0" % eb, "division by zero", n)
            if INTS[t][0]:
                return ("cdiv(%s, %s)" if op == "/" else "cmod(%s, %s)") % (ea, eb)
            return "((%s) %s (%s))" % (ea, op, eb)
        lit = re.fullmatch(r"\(?(\d+)\)?", eb)
        if op == "<<" and lit:
            return self.wrap("%s * %d" % (ea, 1 << int(lit.group(1))), nn)
        if op == ">>" and lit:
            return "((%s) / %d)" % (ea, 1 << int(lit.group(1)))
        if op == "&":
            return "band(%s, %s)" % (ea, eb)
        if op == "|":
            la = re.fullmatch(r"\(?(\d+)\)?", ea)
            if la and lit:
                return str(int(la.group(1)) | int(lit.group(1)))
            return "bor(%s, %s)" % (ea, eb)
        if op == "<<":
            return "shl(%s, %s)" % (ea, eb)
        raise Unsupported("operator " + op)

    def eq(self, a, b, t):
        t = strip_ref(t)
        if is_seq(t):
            if is_seq(elem(t)):
                return "(%s =~~= %s)" % (a, b)
            return "(%s =~= %s)" % (a, b)
        return "(%s == %s)" % (a, b)

    def x_assign(self, n, a, b):
        v = self.ex(b)
        s = self.skip(a)
        if s["k"] == "CXXOperatorCallExpr" and s.get("op") == "[]" and is_map(self.args(s)[0]["type"]) and not self.pure:
            # m[k] = v: the entry, new or not, becomes v
            x = self.args(s)
            t = strip_ref(x[0]["type"])
            p = self.need_path(x[0])
            k = self.coerce(self.ex(x[1]), x[1]["type"], t[1])
            self.assign(p, "%s.insert(%s, %s)" % (p.read(), k, v))
            return v
        p = self.need_path(a)
        self.assign(p, v)
        return p.read()

    def x_CompoundAssignOperator(self, n):
        a, b = n["c"]
        v = self.ex(b)
        p = self.need_path(a)
        op = n["op"][:-1]
        ct = n.get("ctype", a["type"])
        old = p.read()
        if op in ("+", "-") and strip_ref(a["type"]) in INTS and INTS[strip_ref(a["type"])][0] and \
                strip_ref(a["type"]) != strip_ref(ct) and self.is_size(b):
            self.assign(p, "(%s %s %s)" % (old, op, v))     # assumption: sizes fit the target type
            return p.read()
        if is_int(a["type"]) and strip_ref(a["type"]) != strip_ref(ct):
            old = self.conv(old, a["type"], ct)
        r = self.binop(op, old, v, ct, b["type"], dict(n, type=ct))
        if is_int(a["type"]) and strip_ref(a["type"]) != strip_ref(ct):
            r = self.conv(r, ct, a["type"])
        self.assign(p, r)
        return p.read()

    def x_ConditionalOperator(self, n):
        c, a, b = n["c"]
        ec = self.ex(c)
        if self.effects(a) or self.effects(b):
            t = self.tempmut(self.rt(n["type"]), "arbitrary()", "sel")
            self.emit("if test(Ghost(%s)) {" % ec)
            self.emit("proof { %s = %s; }" % (t, self.ex(a)))
            self.emit("} else {")
            self.emit("proof { %s = %s; }" % (t, self.ex(b)))
            self.emit("}")
            return t
        self.guards.append(ec)
        ea = self.ex(a)
        self.guards[-1] = "!(%s)" % ec
        eb = self.ex(b)
        self.guards.pop()
        ea, eb = [x + "int" if re.fullmatch(r"\d+", x) else x for x in (ea, eb)]
        return "(if %s { %s } else { %s })" % (ec, ea, eb)

    def x_CXXDeleteExpr(self, n):
        p = self.path(n["c"][0])
        if p is not None:
            self.assign(p, "None")      # not to be used any more
        return "()"

    def x_CXXThrowExpr(self, n):
        raise Unsupported("throw in an expression")

    def x_LambdaExpr(self, n):
        raise Unsupported("lambda value")

    def x_CXXStdInitializerListExpr(self, n):
        return self.ex(n["c"][0])

    def x_InitListExpr(self, n):
        t = strip_ref(n["type"])
        c = self.kids(n)
        if is_seq(t):
            return self.seqlit([self.ex(x) for x in c], elem(t))
        if isinstance(t, str) and t in self.P.records:
            fs = self.P.fields(t)
            vals = [self.ex(x) for x in c]
            out = []
            for i, (a, cn, ft) in enumerate(fs):
                out.append("%s: %s" % (a, vals[i] if i < len(vals) else self.default(ft)))
            return "%s { %s }" % (self.rt(t), ", ".join(out))
        if len(c) == 1:
            return self.ex(c[0])
        if not c:
            return self.default(t)
        raise Unsupported("initializer list of %s" % (t,))

    def seqlit(self, xs, et):
        if not xs:
            return "Seq::<%s>::empty()" % self.rt(et)
        return "seq![%s]" % ", ".join(xs)

    def default(self, t):
        t = strip_ref(t)
        h = head(t)
        if t == "bool":
            return "false"
        if is_float(t):
            return self.tr.flit("0.0")
        if is_int(t):
            return "0"
        if is_seq(t):
            return "Seq::<%s>::empty()" % self.rt(elem(t))
        if is_map(t):
            return "Map::<%s, %s>::empty()" % (self.rt(t[1]), self.rt(t[2]))
        if is_set(t):
            return "Set::<%s>::empty()" % self.rt(t[1])
        if h in OPTS or h == "*":
            return "None"
        if t == "simdjson::json":
            return "arbitrary()"
        if h == "std::pair":
            return "Pair { first: %s, second: %s }" % (self.default(t[1]), self.default(t[2]))
        if h == "std::tuple":
            return "Tup%d { %s }" % (len(t) - 1, ", ".join("t%d: %s" % (i, self.default(x)) for i, x in enumerate(t[1:])))
        if isinstance(t, str) and t in self.P.records:
            f = self.P.find(t + "::" + t.split("::")[-1], [])
            if f is not None:
                return self.construct(t, dict(f, name=f["qname"], repo=True), [], None)
            return "%s { %s }" % (self.rt(t), ", ".join("%s: %s" % (a, self.default(ft)) for a, _, ft in self.P.fields(t)))
        if h in OPAQUE_DEFAULT:
            return OPAQUE_DEFAULT[h]
        raise Unsupported("default value of %s" % (t,))

    # ---- l-values ----
    def need_path(self, n):
        p = self.path(n)
        if p is None:
            raise Unsupported("assignment to a temporary (%s)" % n["k"])
        return p

    def freeze(self, p):
        """A path whose indices are constants: for references."""
        steps = []
        for s in p.steps:
            if s[0] in ("i", "m") and not re.fullmatch(r"\d+|f_\w+|#\w+", s[1]):
                ty = "int" if s[0] == "i" else None
                if ty:
                    steps.append((s[0], self.temp(ty, s[1], "f_i")))
                    continue
                r = self.fresh("f_k")
                self.emit("let ghost %s = %s;" % (r, s[1]))
                steps.append((s[0], r))
            else:
                steps.append(s)
        return Path(p.root, steps, p.t)

    def nondet(self, rt):
        """An unknown value, another one on every evaluation."""
        if self.pure:
            raise Unsupported("random value in a pure context")
        r = self.fresh("nd")
        self.emit("let Ghost(%s) = nondet::<%s>();" % (r, rt))
        return r

    def stream_root(self, n):
        """The stream that a chain of << or >> works on."""
        n = self.skip(n)
        while n["k"] == "CXXOperatorCallExpr" and n.get("op") in ("<<", ">>"):
            n = self.skip(self.args(n)[0])
        return n

    def path(self, n):
        n = self.skip(n)
        k = n["k"]
        if k == "DeclRefExpr":
            v = self.env.get(n["id"])
            if v is None:
                return None
            if v.kind == "var":
                return Path(v.r, [], v.t)
            if v.kind == "alias":
                return v.p
            return None
        if k == "MemberExpr" and n.get("dk") == "Field":
            base = n["c"][0]
            if n.get("arrow"):
                p = self.deref(base)
            else:
                p = self.path(base)
            if p is None:
                return None
            bt = strip_ref(p.t) if p.t is not None else None
            if head(bt) == "std::pair":
                return p.ext(("f", n["name"], "Pair"), n["type"])
            cls = n["qname"].rsplit("::", 1)[0]
            st = self.rt(bt) if isinstance(bt, str) and bt in self.P.records else None
            if st is None:
                raise Unsupported("member of %s" % (bt,))
            return p.ext(("f", self.field(n), st), n["type"])
        if k == "UnaryOperator" and n["op"] == "*":
            return self.deref(n["c"][0])
        if k == "UnaryOperator" and n["op"] in ("++", "--") and not n.get("postfix"):
            self.ex(n)
            return self.path(n["c"][0])
        if k in ("BinaryOperator", "CompoundAssignOperator") and (n["op"] == "=" or k[0] == "C"):
            self.ex(n)
            return self.path(n["c"][0])
        if k == "CXXOperatorCallExpr":
            op = n.get("op")
            a = self.args(n)
            if op in ("<<", ">>") and head(strip_ref(a[0]["type"])) in OSTREAMS + ISTREAMS:
                self.ex(n)
                return self.path(self.stream_root(n))
            if op == "[]":
                t = strip_ref(a[0]["type"])
                if is_seq(t):
                    p = self.path(a[0])
                    i = self.ex(a[1])
                    if p is None:
                        return None
                    self.ob("0 <= %s && %s < %s.len()" % (i, i, p.read()), "index in range", n)
                    return p.ext(("i", i), elem(t))
                if is_map(t):
                    p = self.need_path(a[0])
                    key = self.ex(a[1])
                    if not re.fullmatch(r"\w+", key):
                        r = self.fresh("f_k")
                        self.emit("let ghost %s = %s;" % (r, key))
                        key = r
                    d = self.default(t[2])
                    self.assign(p, "(if %s.dom().contains(%s) { %s } else { %s.insert(%s, %s) })" % (
                        p.read(), key, p.read(), p.read(), key, d))
                    return p.ext(("m", key), t[2])
            if op in ("*", "->"):
                return self.deref(a[0])
            if op in ("=", "+=", "++", "--") :
                self.ex(n)
                return self.path(a[0])
            return None
        if k == "CXXMemberCallExpr":
            s = n["fn"]["name"].split("::")[-1]
            obj = self.obj(n)
            a = self.args(n)
            if obj is None:
                return None
            t = obj.get("type")
            arrow = self.kids(n)[0].get("arrow")
            if not n["fn"]["repo"] and is_seq(t) and s in ("at", "back", "front") and not arrow:
                p = self.path(obj)
                if p is None:
                    return None
                if s == "at":
                    i = self.ex(a[0])
                    self.ob("0 <= %s && %s < %s.len()" % (i, i, p.read()), "at() in range", n)
                elif s == "back":
                    i = "(%s.len() - 1)" % p.read()
                    self.ob("%s.len() > 0" % p.read(), "back() of a non-empty container", n)
                else:
                    i = "0"
                    self.ob("%s.len() > 0" % p.read(), "front() of a non-empty container", n)
                return p.ext(("i", i), elem(t))
            if not n["fn"]["repo"] and is_opt(t) and s == "value":
                p = self.path(obj)
                if p is None:
                    return None
                self.ob("%s.is_some()" % p.read(), "value() of an engaged optional", n)
                return p.ext(("s",), strip_ref(t)[1])
            if not n["fn"]["repo"] and is_map(t) and s == "at":
                p = self.path(obj)
                if p is None:
                    return None
                key = self.ex(a[0])
                self.ob("%s.dom().contains(%s)" % (p.read(), key), "at() of a present key", n)
                return p.ext(("m", key), strip_ref(t)[2])
            return None
        if k == "CallExpr" and n.get("fn") and n["fn"]["name"] == "std::get":
            p = self.path(self.args(n)[0])
            if p is None:
                return None
            i = self.tuple_index(n, p)
            return p.ext(("f", "t%d" % i, "Tup%d" % (len(strip_ref(p.t)) - 1)), strip_ref(p.t)[1 + i])
        if k == "ConditionalOperator":
            return None
        return None

    def tuple_index(self, n, p):
        i = n.get("targ")
        if i is None:
            raise Unsupported("std::get")
        return i

    def obj(self, n):
        m = n["c"][0]
        if m["k"] != "MemberExpr":
            m = self.skip(m)
        if m["k"] != "MemberExpr":
            raise Unsupported("call of %s" % m["k"])
        return m["c"][0] if m.get("c") else None

    def deref(self, n):
        """Path of *n for a pointer, smart pointer, optional or iterator expression n."""
        s = self.skip(n)
        k = s["k"]
        if k == "CXXThisExpr":
            return self.this
        if k == "DeclRefExpr" and self.env.get(s["id"]) is not None and self.env[s["id"]].kind == "ptrref":
            return self.env[s["id"]].p
        if k == "UnaryOperator" and s["op"] == "&":
            return self.need_path(s["c"][0])
        if k == "CXXOperatorCallExpr" and s.get("op") == "->":
            # it->field: the arrow call yields a pointer to the element
            return self.deref(self.args(s)[0])
        if k == "CXXMemberCallExpr" and s["fn"]["name"].split("::")[-1] == "get" and not s["fn"]["repo"]:
            return self.deref(self.obj(s))
        t = strip_ref(s["type"])
        if is_vit(t):
            cp, idx = self.iter(s)
            self.ob("0 <= %s && %s < %s.len()" % (idx, idx, cp.read()), "iterator dereferenceable", n)
            return cp.ext(("i", idx), elem(cp.t))
        if is_mit(t):
            p = self.path(s)
            if p is None:
                e = self.ex(s)
                r = self.fresh("mit")
                self.emit("let ghost %s = %s;" % (r, e))
                p = Path(r, [], t)
            self.ob("%s.is_some()" % p.read(), "iterator is not end()", n)
            q = p.ext(("s",), t[1])
            return q
        if is_opt(t):
            p = self.path(s)
            if p is None:
                e = self.ex(s)
                r = self.fresh("ptr")
                self.emit("let ghost %s = %s;" % (r, e))
                p = Path(r, [], t)
            self.ob("%s.is_some()" % p.read(), "dereferenced pointer or optional is not empty", n)
            return p.ext(("s",), t[2] if head(t) == "*" else t[1])
        raise Unsupported("dereference of %s" % (t,))

    # ---- iterators into sequences ----
    def iter(self, n):
        """(path of the container, index) of an iterator expression."""
        s = self.skip(n)
        while s["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(self.kids(s)) == 1:
            s = self.skip(s["c"][0])
        k = s["k"]
        if k == "DeclRefExpr":
            v = self.env.get(s["id"])
            if v is not None and v.kind == "iter":
                return v.cont, v.r
            raise Unsupported("iterator variable")
        if k == "CXXMemberCallExpr":
            m = s["fn"]["name"].split("::")[-1]
            o = self.obj(s)
            if m in ("begin", "cbegin", "end", "cend"):
                if self.kids(s)[0].get("arrow"):
                    cp = self.deref(o)
                else:
                    cp = self.path(o)
                if cp is None:
                    raise Unsupported("iterator into a temporary")
                return cp, "0" if "begin" in m else "slen(%s)" % cp.read()
            if m == "erase":
                cp = self.path(o)
                a, b = self.erase_seq(s, cp)
                return cp, a
        if k == "CXXOperatorCallExpr" and s.get("op") in ("+", "-"):
            a = self.args(s)
            cp, i = self.iter(a[0])
            return cp, "(%s %s %s)" % (i, s["op"], self.ex(a[1]))
        if k == "CallExpr":
            m = s["fn"]["name"]
            a = self.args(s)
            if m in ("std::begin", "std::end", "std::cbegin", "std::cend"):
                cp = self.need_path(a[0])
                return cp, "0" if "begin" in m else "slen(%s)" % cp.read()
            if m in ("std::next", "std::prev"):
                cp, i = self.iter(a[0])
                d = self.ex(a[1]) if len(a) > 1 else "1"
                return cp, "(%s %s %s)" % (i, "+" if m == "std::next" else "-", d)
            if m in ("std::find", "std::find_if", "std::find_if_not"):
                cp, i = self.iter(a[0])
                _, j = self.iter(a[1])
                if m == "std::find":
                    f = "|x: %s| %s" % (self.rt(elem(cp.t)), self.eq("x", self.ex(a[2]), elem(cp.t)))
                else:
                    f = self.closure_over(a[2], cp.read())
                    if m.endswith("not"):
                        raise Unsupported(m)
                if not self.pure:
                    f = self.bind_closure(f)
                    r = self.temp("int", "find_from(%s, %s, %s, %s)" % (cp.read(), f, i, j), "fnd")
                    self.emit("proof { if %s <= %s { lemma_find_from(%s, %s, %s, %s); } }" % (i, j, cp.read(), f, i, j))
                    return cp, r
                return cp, "find_from(%s, %s, %s, %s)" % (cp.read(), f, i, j)
            if m == "std::remove_if":
                raise Unsupported("remove_if outside erase")
        raise Unsupported("iterator expression " + k)

    def range_of(self, a, b):
        """Sequence between two iterator expressions, with bounds checked."""
        ca, i = self.iter(a)
        cb, j = self.iter(b)
        if ca.read() != cb.read():
            raise Unsupported("iterators into different containers")
        s = ca.read()
        if i == "0" and j == "slen(%s)" % s:
            return s, ca, i, j
        self.ob("0 <= %s && %s <= %s && %s <= %s.len()" % (i, i, j, j, s), "iterator range valid", a)
        return "%s.subrange(%s, %s)" % (s, i, j), ca, i, j

    # ---- closures ----
    def closure(self, n):
        """A pure lambda (or function) as a Verus spec closure."""
        s = self.skip(n)
        while s["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXBindTemporaryExpr") and len(self.kids(s)) == 1:
            s = self.skip(s["c"][0])
        if s["k"] == "LambdaExpr":
            return self.lambda_closure(s)
        if s["k"] == "DeclRefExpr" and s.get("dk") == "Function":
            f = s["fn"]
            ps = ["a%d" % i for i in range(len(f["params"]))]
            body = self.pure_call(f, ps)
            return "(|%s| %s)" % (", ".join("%s: %s" % (p, self.rt(t)) for p, t in zip(ps, f["params"])), body)
        if s["k"] == "DeclRefExpr":
            v = self.env.get(s["id"])
            if v is not None and v.kind == "lambda":
                return self.lambda_closure(v.node)
            if v is not None and v.kind == "var":
                return v.r
        raise Unsupported("callable " + s["k"])

    def lambda_closure(self, n):
        ord_ = self.lambda_ord(n)
        c = self.tr.contracts.get("%s#lambda%d" % (self.fnkey(), ord_))
        names = []
        save = (dict(self.env), dict(self.vis), self.guards, self.pure)
        for p in n["params"]:
            r = "l_" + p["name"]
            names.append((r, p))
        if c is not None and c.get("spec"):
            e = self.tr.lambda_spec(c, n, self, [r for r, _ in names])
            self.tr.use_lambda(c, n, self)
        else:
            for r, p in names:
                self.env[p["id"]] = Var("var", strip_ref(p["type"]), r=r)
                self.vis[p["name"]] = r
            self.guards = []
            self.pure += 1
            try:
                e = self.pure_body([n["body"]])
            finally:
                self.env, self.vis, self.guards, self.pure = save
        return "(|%s| %s)" % (", ".join("%s: %s" % (r, self.rt(p["type"])) for r, p in names), e)

    def fnkey(self):
        return self.inline_stack[-1] if self.inline_stack else self.c["fn"]

    def lambda_ord(self, n):
        ls = [x["lid"] for x in self.P.lambdas(self.fnkey())[1]]
        return ls.index(n["lid"]) if n["lid"] in ls else len(ls)

    pure_obs = None
    pure_lets = ()

    nclo = 0

    def bind_closure(self, f):
        """Names a closure, so that hints can speak about it as #clo0, #clo1, ..."""
        if re.fullmatch(r"\w+", f):
            return f
        r = self.fresh("clo")
        self.emit("let ghost %s = %s;" % (r, f))
        self.vis["#clo%d" % self.nclo] = self.vis["#clo"] = r
        self.nclo += 1
        return r

    def closure_over(self, node, seq, acc=False):
        """closure(), with its obligations checked for every element of seq."""
        save, savel = self.pure_obs, self.pure_lets
        self.pure_obs, self.pure_lets = [], []
        try:
            f = self.closure(node)
            obs = self.pure_obs
        finally:
            self.pure_obs, self.pure_lets = save, savel
        m = re.match(r"\(?\|([^|]*)\|", f)
        if obs and m:
            ps = [x.strip() for x in re.split(r",\s*(?=\w+:)", m.group(1))]
            elemp = ps[-1].split(":")[0]
            for o, line, kind in obs:
                accs = [x for x in ps[:-1] if re.search(r"\b%s\b" % x.split(":")[0], o)]
                if accs:
                    o = "forall|%s| #![auto] %s" % (", ".join(accs), o)
                self.ob("forall|k_: int| 0 <= k_ && k_ < (%s).len() ==> { let %s = #[trigger] (%s)[k_]; %s }" % (
                    seq, elemp, seq, o), kind, {"line": line})
        return f

    def pure_body(self, stmts):
        """A loop-free body as one expression."""
        if not stmts:
            raise Unsupported("pure function without a value")
        s, rest = stmts[0], stmts[1:]
        k = s["k"]
        if k == "CompoundStmt":
            return self.pure_body(self.kids(s) + rest)
        if k == "ReturnStmt":
            return self.ex(s["c"][0])
        if k == "DeclStmt":
            out = []
            for d in s["decls"]:
                if "unsupported" in d or "init" not in d:
                    raise Unsupported("declaration in a pure body")
                if is_vit(d["type"]):
                    raise Unsupported("iterator in a pure body")
                e = self.coerce(self.ex(d["init"]), d["init"]["type"], d["type"])
                r = self.fresh("l_" + d["name"])
                self.env[d["id"]] = Var("var", strip_ref(d["type"]), r=r)
                self.vis[d["name"]] = r
                if self.pure:
                    out.append("let %s = %s;" % (r, e))
                else:
                    self.emit("let ghost %s = %s;" % (r, e))
            if not out:
                return self.pure_body(rest)
            save = self.pure_lets
            self.pure_lets = list(save) + out
            v = self.pure_body(rest)
            self.pure_lets = save
            return "{ %s %s }" % (" ".join(out), v)
        if k == "IfStmt":
            c = self.ex(s["cond"])
            self.guards.append(c)
            a = self.pure_body([s["then"]] + rest)
            self.guards[-1] = "!(%s)" % c
            b = self.pure_body(([s["else"]] if s.get("else") else []) + rest)
            self.guards.pop()
            return "(if %s { %s } else { %s })" % (c, a, b)
        if k == "NullStmt":
            return self.pure_body(rest)
        if k == "ExprStmt":
            raise Unsupported("statement in a pure body")
        if k == "SwitchStmt":
            return self.pure_body([self.switch_to_if(s)] + rest)
        if not self.effects(s) and k.endswith("Expr"):
            return self.pure_body(rest)
        raise Unsupported("statement %s in a pure body" % k)

    def pure_call(self, f, args, this=None):
        """Value of a repo function on spec arguments, without obligations."""
        c = self.tr.contract_for(f)
        if c is not None and c.get("spec"):
            return self.tr.spec_app(c, f, args, this)
        if c is not None:
            raise Unsupported("call of %s in a pure context" % f["name"])
        g = self.tr.resolve(f)
        if g is None:
            raise Unsupported("no body for " + f["name"])
        if len(self.inline_stack) > 12 or f["name"] in self.inline_stack:
            raise Unsupported("recursion in a pure context")
        save = (self.env, self.vis, self.this, self.guards, self.pure)
        self.env, self.vis, self.guards = dict(self.env), dict(self.vis), []
        self.inline_stack.append(f["name"])
        self.pure += 1
        try:
            for p, a in zip(g["params"], args):
                self.env[p["id"]] = Var("var", strip_ref(p["type"]), r=a)
            if this is not None:
                self.this = this
            return self.pure_body([g["body"]])
        finally:
            self.inline_stack.pop()
            self.env, self.vis, self.this, self.guards, self.pure = save
