"""Calls: constructors, functions of the repository, and the library (whose semantics is stated here)."""
import re
from cxx2verus import *


def short(fn):
    return fn["name"].split("::")[-1]


class Calls(FnT):
    # ------------------------------------------------------------------ constructors
    def x_CXXConstructExpr(self, n):
        t = strip_ref(n["cls"])
        h = head(t)
        c = [x for x in self.kids(n) if not self.is_alloc(x)]
        fn = n["fn"]
        if fn["repo"]:
            if n.get("copy") and len(c) == 1:
                return self.ex(c[0])
            return self.construct(t, fn, c, n)
        if n.get("copy") and len(c) == 1:
            return self.ex(c[0])
        if not c:
            return self.default(t)
        if h in OPTS:
            a = c[0]
            at = strip_ref(a["type"])
            e = self.ex(a)
            if e != "None" and head(at) in OPTS and head(at[1]) != head(t[1]) and head(t[1]) in self.P.records:
                if self.simple(e) and not self.pure:
                    return "(if %s.is_some() { Some(%s) } else { None })" % (e, self.upcast(e + "->0", at[1], t[1]))
                if e.startswith("Some("):
                    x = e[5:-1] if self.pure else self.temp(self.rt(at[1]), e[5:-1], "up")
                    return "Some(%s)" % self.upcast(x, at[1], t[1])
                raise Unsupported("conversion of a pointer to %s" % (at[1],))
            if e == "None" or is_opt(at):
                return e
            return "Some(%s)" % self.coerce(e, at, t[1])
        if h == "std::pair":
            if len(c) == 2:
                ea = self.ex(c[0])
                if self.effects(c[1]):
                    ea = self.temp(self.rt(t[1]), self.coerce(ea, c[0]["type"], t[1]))
                    return "Pair { first: %s, second: %s }" % (ea, self.coerce(self.ex(c[1]), c[1]["type"], t[2]))
                return "Pair { first: %s, second: %s }" % (self.coerce(ea, c[0]["type"], t[1]),
                                                          self.coerce(self.ex(c[1]), c[1]["type"], t[2]))
            return self.pair_conv(self.ex(c[0]), strip_ref(c[0]["type"]), t)
        if h == "std::tuple":
            if len(c) == len(t) - 1:
                return "Tup%d { %s }" % (len(c), ", ".join(
                    "t%d: %s" % (i, self.coerce(self.ex(x), x["type"], tt)) for i, (x, tt) in enumerate(zip(c, t[1:]))))
            return self.ex(c[0])
        if h in STRS or h in SEQ1 or t == USTR or t == "icu_74::StringPiece":
            return self.seq_construct(n, t, c)
        if is_map(t):
            return self.map_construct(t, c)
        if is_set(t):
            r = "Set::<%s>::empty()" % self.rt(t[1])
            il = self.skip(c[0])
            return "%s.to_set()" % self.ex(il)
        if h == "std::function":
            return self.closure(c[0])
        if is_mit(t) or is_vit(t):
            return self.ex(c[0])
        if h == "std::priority_queue" and len(c) == 1:
            return self.ex(c[0])
        if h == "std::nullopt_t":
            return "None"
        if h == "std::basic_istringstream":
            return "Iss { rest: %s, ok: true }" % self.ex(c[0])
        if h in OPAQUE_DEFAULT and h != "std::basic_ostringstream":
            return "()"
        if t == "simdjson::parser":
            return "0int"
        raise Unsupported("construction of %s" % (t,))

    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def is_alloc(self, x):
        return head(x.get("type", "")) in ("std::allocator", "std::equal_to", "std::hash", "std::less", "PairHash") or \
            (x["k"] == "IntegerLiteral" and x.get("type") == "unsigned long" and x.get("defarg"))

    def coerce(self, e, src, dst):
        src, dst = strip_ref(src), strip_ref(dst)
        if src == dst:
            return e
        if is_int(dst) and (is_int(src) or src == "bool"):
            return self.conv(e, src, dst)
        if is_opt(dst) and not is_opt(src) and head(dst) == "std::optional":
            if e == "None":
                return e
            return "Some(%s)" % self.coerce(e, src, dst[1])
        if head(dst) == "std::pair" and head(src) == "std::pair":
            return self.pair_conv(e, src, dst)
        return e

    def pair_conv(self, e, src, dst):
        if head(src) == "std::pair" and [strip_ref(x) for x in src[1:]] != [strip_ref(x) for x in dst[1:]]:
            a = self.coerce(e + ".first", src[1], dst[1])
            b = self.coerce(e + ".second", src[2], dst[2])
            if a == e + ".first" and b == e + ".second":
                return e
            return "Pair { first: %s, second: %s }" % (a, b)
        return e

    def seq_construct(self, n, t, c):
        et = elem(t) if t != "icu_74::StringPiece" else "char"
        a = c[0]
        at = strip_ref(a["type"])
        if len(c) == 1:
            if is_seq(at) or at == "icu_74::StringPiece":
                return self.ex(a)
            if is_charptr(at) or (isinstance(at, list) and at[0] == "array"):
                return self.ex(a)
            if is_int(at):
                if t == USTR:
                    if strip_ref(n["fn"]["params"][0]) == "char16_t":
                        return "seq![%s]" % self.ex(a)
                    return "u_append32(Seq::<int>::empty(), %s)" % self.ex(a)
                v = self.ex(a)
                self.ob("%s >= 0" % v, "size is not negative", n)
                return "srep(%s, %s)" % (v, self.default(et))
            raise Unsupported("construction of %s from %s" % (t, at))
        if is_vit(at) or (is_vit(self.skip(a)["type"])):
            return self.range_of(c[0], c[1])[0]
        if is_int(at) and len(c) >= 2 and not n.get("stdinit"):
            v = self.ex(a)
            if h_str(t) and self.is_int_node(c[1]) is False:
                raise Unsupported("string constructor")
            w = self.coerce(self.ex(c[1]), c[1]["type"], et)
            self.ob("%s >= 0" % v, "size is not negative", n)
            return "srep(%s, %s)" % (v, w)
        if is_charptr(at) and len(c) == 2 and is_int(strip_ref(c[1]["type"])):
            v, k = self.ex(a), self.ex(c[1])
            self.ob("0 <= %s && %s <= %s.len()" % (k, k, v), "length of the characters", n)
            return "%s.subrange(0, %s)" % (v, k)
        raise Unsupported("construction of %s with %d arguments" % (t, len(c)))

    def is_int_node(self, n):
        return is_int(strip_ref(n["type"]))

    def map_construct(self, t, c):
        il = self.skip(c[0])
        while il["k"] in ("CXXStdInitializerListExpr", "CXXConstructExpr") and self.kids(il):
            il = self.skip(il["c"][0])
        if il["k"] != "InitListExpr":
            if (is_map(il["type"]) or head(strip_ref(il["type"])) == "std::initializer_list") and il["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and not self.kids(il):
                return self.default(t)
            if is_map(il["type"]):
                return self.ex(il)
            raise Unsupported("map construction from %s" % il["k"])
        e = "Map::<%s, %s>::empty()" % (self.rt(t[1]), self.rt(t[2]))
        for x in self.kids(il):
            y = self.skip(x)
            k, v = [z for z in self.kids(y) if not self.is_alloc(z)]
            e = "map_ins(%s, %s, %s)" % (e, self.coerce(self.ex(k), k["type"], t[1]), self.coerce(self.ex(v), v["type"], t[2]))
        return e

    def construct(self, t, fn, c, n):
        """A class of the repository: its constructor inlined, or its contract."""
        con = self.tr.contract_for(fn)
        if con is not None and con is not self.c:
            return self.call_contract(con, fn, None, c, n)
        g = self.tr.resolve(fn)
        if g is None:
            if not c:
                r = self.P.records.get(t)
                return self.default_fields(t)
            raise Unsupported("constructor of %s" % t)
        if len(self.inline_stack) > 12:
            raise Unsupported("deep inlining")
        vals = []
        for x, p in zip(c, g["params"]):
            vals.append(self.arg_binding(p, x))
        if len(vals) != len(g["params"]):
            raise Unsupported("constructor arguments")
        save = (dict(self.env), dict(self.vis), self.this)
        self.inline_stack.append(g["qname"])
        try:
            for p, v in zip(g["params"], vals):
                self.env[p["id"]] = v
            e = self.ctor_fields(t, g)
            body = [s for s in self.kids(g["body"])] if g.get("body") else []
            if not body:
                return e
            if self.pure:
                raise Unsupported("constructor with a body in a pure context")
            r = self.tempmut(self.rt(t), e, "obj")
            self.this = Path(r, [], t)
            self.inline_stmts(body, None)
            return r
        finally:
            self.inline_stack.pop()
            self.env, self.vis, self.this = save

    def default_fields(self, t):
        return "%s { %s }" % (self.rt(t), ", ".join("%s: %s" % (a, self.default(ft)) for a, _, ft in self.P.fields(t)))

    def ctor_fields(self, t, g):
        inits = {}
        base = None
        for i in g["inits"]:
            if "field" in i:
                inits[i["field"]] = i["e"]
            elif "base" in i:
                base = (head(i["base"]), i["e"])
            else:
                raise Unsupported("delegating constructor")
        parts = []
        bf = set()
        if base and base[0] in self.P.records:
            fs = self.P.fields(base[0])
            if fs:
                e = self.ex(base[1])
                if not re.fullmatch(r"\w+", e):
                    e = self.fresh_let(e) if not self.pure else e
                for a, cn, ft in fs:
                    parts.append("%s: %s.%s" % (a, e, a))
                    bf.add(cn)
        r = self.P.records[t]
        if self.P.abstract(t):
            parts.append("dyn_id: arbitrary()")
        for f in r["fields"]:
            a = self.P.fname.get((t, f["name"]), f["name"])
            if f["name"] in inits and inits[f["name"]] is not None:
                x = inits[f["name"]]
                v = self.coerce(self.ex(x), x["type"], f["type"])
            elif f.get("init"):
                v = self.ex(f["init"])
            elif is_int(f["type"]) or f["type"] == "bool" or is_float(f["type"]):
                v = "arbitrary()"
            else:
                v = self.default(f["type"])
            parts.append("%s: %s" % (a, v))
        return "%s { %s }" % (self.rt(t), ", ".join(parts))

    def fresh_let(self, e):
        r = self.fresh("t")
        self.emit("let ghost %s = %s;" % (r, e))
        return r

    # ------------------------------------------------------------------ calls of repo functions
    def arg_binding(self, p, x):
        """What an inlined function's parameter stands for."""
        t = p["type"]
        if is_mut_ptr(t) and head(t[2]) in self.P.records and self.ptr_target(x) is not None:
            return Var("ptrref", t, p=self.freeze(self.ptr_target(x)))
        if is_ref(t) or is_mut_ptr(t):
            if is_ref(t):
                q = self.path(x) if not self.effects(x) else None
                if q is not None:
                    return Var("alias", strip_ref(t), p=self.freeze(q)) if not self.pure else Var("var", strip_ref(t), r=q.read())
            if is_mut_ref(t):
                raise Unsupported("reference to a temporary")
        s = self.skip(x)
        if s["k"] == "LambdaExpr":
            return Var("lambda", t, node=s)
        if s["k"] == "DeclRefExpr" and s.get("id") in self.env and self.env[s["id"]].kind == "lambda":
            return self.env[s["id"]]
        e = self.coerce(self.ex(x), x["type"], t)
        if self.pure:
            return Var("var", strip_ref(t), r=e)
        r = self.tempmut(self.rt(t), e, "p_" + p["name"])
        return Var("var", strip_ref(t), r=r)

    def ptr_target(self, x):
        """The object that &object or a pointer parameter points to."""
        s = self.skip(x)
        if s["k"] == "UnaryOperator" and s["op"] == "&":
            return self.need_path(s["c"][0])
        if s["k"] == "DeclRefExpr" and self.env.get(s["id"]) is not None and self.env[s["id"]].kind == "ptrref":
            return self.env[s["id"]].p
        return None

    def call_repo(self, fn, this, args, n):
        con = self.tr.contract_for(fn)
        if con is not None:
            return self.call_contract(con, fn, this, args, n)
        if fn.get("virtual"):
            v = self.tr.virtuals.get(fn["name"])
            q = self.tr.resolve(fn)
            if v is not None:
                es = [self.coerce(self.ex(a), a["type"], t) for a, t in zip(args, fn["params"])]
                return self.tr.virt_app(fn, this.read(), es)
            if not (q is not None and this is not None and not self.P.abstract(fn["cls"]) and self.exact(this)):
                raise Unsupported("virtual call of " + fn["name"])
        g = self.tr.resolve(fn)
        if g is None:
            raise Unsupported("no body for " + fn["name"])
        if g["qname"] in self.inline_stack or g["qname"] == self.c["fn"]:
            raise Unsupported("recursion through a function without contract: " + fn["name"])
        if len(self.inline_stack) > 12:
            raise Unsupported("deep inlining")
        return self.inline_call(g, this, args)

    def exact(self, this):
        return True

    def inline_call(self, g, this, args):
        binds = [self.arg_binding(p, x) for p, x in zip(g["params"], args)]
        if len(binds) != len(g["params"]):
            raise Unsupported("arguments of " + g["qname"])
        save = (dict(self.env), dict(self.vis), self.this, self.guards, self.inl)
        self.inline_stack.append(g["qname"])
        try:
            for p, b in zip(g["params"], binds):
                self.env[p["id"]] = b
                self.vis.setdefault(p["name"], self.var_read(b)) if b.kind != "lambda" else None
                if b.kind != "lambda":
                    self.vis[p["name"]] = self.var_read(b)
            if this is not None:
                self.this = this
            if self.pure or not self.has_effects_body(g["body"]):
                try:
                    save2 = (len(self.lines), self.pure)
                    return self.pure_inline(g)
                except Unsupported:
                    if self.pure:
                        raise
                    del self.lines[save2[0]:]
            self.guards = []
            if save[3]:
                raise Unsupported("call with effects under a condition")
            rt = g["ret"]
            res = None
            if rt != "void":
                res = self.tempmut(self.rt(rt), "arbitrary()", "r_" + rname(g["qname"]))
            self.inline_stmts(self.kids(g["body"]), (res, rt))
            return res if res else "()"
        finally:
            self.inline_stack.pop()
            self.env, self.vis, self.this, self.guards, self.inl = save

    def pure_inline(self, g):
        """Value of a loop-free, effect-free body; its obligations are kept."""
        return self.pure_body([g["body"]])

    def has_effects_body(self, s):
        """Anything but declarations, ifs and returns of effect-free expressions."""
        if s is None:
            return False
        k = s["k"]
        if k == "CompoundStmt":
            return any(self.has_effects_body(x) for x in self.kids(s))
        if k == "ReturnStmt":
            return not self.kids(s) or self.effects2(s["c"][0])
        if k == "IfStmt":
            if s.get("init") or s.get("condvar"):
                return True
            return self.effects2(s["cond"]) or self.has_effects_body(s["then"]) or self.has_effects_body(s.get("else"))
        if k == "DeclStmt":
            return any("init" not in d or is_vit(d["type"]) or self.effects2(d["init"]) for d in s["decls"])
        if k == "NullStmt":
            return False
        return True

    def effects2(self, n):
        """effects, but a call of an effect-free uncontracted function does not count."""
        if not self.effects(n):
            return False
        return True

    inl = None      # (result variable, type, returned flag, loop depth) of the inlined function

    def inline_stmts(self, stmts, ret):
        may = any(self.may_return(s) for s in stmts)
        flag = None
        tail_only = self.tail_returns(stmts)
        if may and not tail_only:
            flag = self.tempmut("bool", "false", "done")
        save = self.inl
        self.inl = dict(res=ret[0] if ret else None, t=ret[1] if ret else "void", flag=flag, depth=self.loop_depth)
        try:
            self.block(stmts)
        finally:
            self.inl = save

    def may_return(self, s):
        if s is None:
            return False
        if isinstance(s, list):
            return any(self.may_return(x) for x in s)
        k = s["k"]
        if k == "ReturnStmt":
            return True
        if k == "LambdaExpr" or k.endswith("Expr") or k.endswith("Operator"):
            return False
        return any(self.may_return(s.get(x)) for x in ("then", "else", "body", "sub")) or \
            any(self.may_return(x) for x in self.kids(s))

    def tail_returns(self, stmts):
        """Every return is in tail position."""
        for i, s in enumerate(stmts):
            last = i == len(stmts) - 1
            if not self.may_return(s):
                continue
            if not last:
                return False
            k = s["k"]
            if k == "ReturnStmt":
                return True
            if k == "CompoundStmt":
                return self.tail_returns(self.kids(s))
            if k == "IfStmt":
                return self.tail_returns([s["then"]]) and (not s.get("else") or self.tail_returns([s["else"]]))
            return False
        return True

    def var_read(self, v):
        return v.p.read() if v.kind in ("alias", "ptrref") else v.r

    def call_contract(self, con, fn, this, args, n):
        """A call checked against the callee's contract."""
        g = self.tr.resolve(fn)
        if g is None:
            raise Unsupported("no body for " + fn["name"])
        mut = con.get("mut", [])
        es, paths = [], {}
        ctor = g.get("ctor")
        thisp = this
        for x, p in zip(args, g["params"]):
            pn = self.tr.pname(con, g, p["name"])
            if pn in mut:
                q = self.need_path(x) if not is_mut_ptr(p["type"]) else self.ptr_target(x)
                if q is None:
                    raise Unsupported("pointer argument")
                paths[pn] = self.freeze(q) if not self.pure else q
                es.append(q.read())
            else:
                es.append(self.coerce(self.ex(x), x["type"], p["type"]))
        if len(es) != len(g["params"]):
            raise Unsupported("arguments of " + fn["name"])
        if con.get("spec") and not mut and (self.pure or con.get("total")):
            self.tr.used_contract(self.c, con)
            th = thisp.read() if thisp is not None else None
            for rq in con.get("requires", []):
                self.ob(self.tr.call_subst(con, g, rq, es, th), "precondition of " + g["qname"], n)
            if con.get("throws"):
                self.ob("!(%s)" % self.tr.call_subst(con, g, con["throws"], es, th), "no exception from " + g["qname"], n)
            return self.tr.spec_app(con, g, es, th)
        if self.pure:
            raise Unsupported("call of %s in a pure context" % fn["name"])
        if self.guards:
            raise Unsupported("call of %s under a condition" % fn["name"])
        al = []
        if g.get("cls") and not g.get("static") and not ctor:
            al.append("Ghost(%s)" % thisp.read())
            if "this" in mut:
                paths["this"] = thisp
        for e, p in zip(es, g["params"]):
            rt = self.rt(p["type"])
            x = e if self.simple(e) else self.temp(rt, e, "arg")
            if rt.startswith("spec_fn"):
                self.vis["#clo%d" % self.nclo] = self.vis["#clo"] = x
                self.nclo += 1
            al.append("Ghost(%s)" % x)
        k = self.ncalls.get(g["qname"], 0)
        self.ncalls[g["qname"]] = k + 1
        self.hint("before %s#%d" % (g["qname"], k))
        self.tr.used_contract(self.c, con)
        if con.get("throws"):
            q = self.tr.call_subst(con, g, con["throws"], es, thisp.read() if thisp is not None else None)
            self.emit("if test(Ghost(%s)) {" % self.temp("bool", q, "thr"))
            self.throw_site(n, "call of " + g["qname"])
            self.emit("}")
        elif con.get("may_throw") and not self.c.get("may_throw"):
            raise Unsupported("call of %s, which may throw" % fn["name"])
        r = self.fresh("c_" + rname(con["name"]))
        self.emit("let %s = %s(%s);" % (r, con["name"], ", ".join(al)),
                  "%s: line %s: precondition of %s" % (self.name, n.get("line", self.cur_line), g["qname"]), "call")
        self.n_ob += 1
        ret = g["ret"] if not ctor else g["cls"]
        if mut:
            v = self.temp("_", "%s@" % r, r + "v")
            for i, m in enumerate(self.tr.mut_order(con, g)):
                if m in paths:
                    self.assign(paths[m], "%s.%d" % (v, i + 1))
            val = v + ".0"
        else:
            val = "%s@" % r
        self.vis["#call"] = val
        self.hint("call %s#%d" % (g["qname"], k))
        if ret != "void" and mut:
            return val
        if ret == "void":
            return "()"
        return self.temp(self.rt(ret), val, r + "r")

    def throw_site(self, n, what):
        p = self.c.get("throws")
        if self.c.get("may_throw"):
            pass
        elif p:
            self.n_ob += 1
            self.emit("proof { assert(%s); }" % self.subst(p.replace("$", "$0").replace("$00", "$0")),
                      "%s: line %s: throws only as specified (%s)" % (self.name, n.get("line", self.cur_line), what), "throw")
        else:
            self.n_ob += 1
            self.emit("proof { assert(false); }",
                      "%s: line %s: no exception (%s)" % (self.name, n.get("line", self.cur_line), what), "throw")
        self.emit("let _d = diverge();")
        self.emit("return Ghost(arbitrary());")

    # ------------------------------------------------------------------ calls
    def x_CallExpr(self, n):
        fn = n.get("fn")
        a = self.args(n)
        if fn is None:
            raise Unsupported("indirect call")
        if fn["repo"]:
            return self.call_repo(fn, None, a, n)
        name = fn["name"]
        if name in ("std::move", "std::forward", "std::as_const"):
            return self.ex(a[0])
        if name == "std::make_pair" and len(a) == 2:
            t = strip_ref(n["type"])
            return "Pair { first: %s, second: %s }" % tuple(
                self.coerce(self.ex(x), strip_ref(x["type"]), strip_ref(t[1 + i])) for i, x in enumerate(a))
        if name in ("std::make_unique", "std::make_shared"):
            t = strip_ref(n["type"])
            cls = head(t[1]) if len(t) > 1 else None
            if len(a) == 1 and strip_ref(a[0]["type"]) == cls:
                return "Some(%s)" % self.ex(a[0])        # copied or moved
            gs = [g for g in self.P.fns.get("%s::%s" % (cls, str(cls).split("::")[-1]), [])
                  if len(g["params"]) == len(a) and not (len(a) == 1 and strip_ref(g["params"][0]["type"]) == cls)]
            if len(gs) != 1:
                raise Unsupported("make_unique of %s" % cls)
            fn = {"name": gs[0]["qname"], "params": [p["type"] for p in gs[0]["params"]], "repo": True}
            return "Some(%s)" % self.construct(cls, fn, a, n)
        if name in ("std::min", "std::max") and len(a) == 2:
            x, y = self.ex(a[0]), self.ex(a[1])
            return "i%s(%s, %s)" % (name[5:], x, y)
        if name == "std::find_if" or name == "std::find":
            raise Unsupported("iterator value")
        if name == "std::get":
            p = self.path(n)
            if p is not None:
                return p.read()
            return "%s.t%d" % (self.ex(a[0]), self.tuple_index(n, None))
        if name == "std::transform" and len(a) == 4:
            return self.transform(n, a)
        if name == "std::accumulate":
            s = self.range_of(a[0], a[1])[0]
            it = strip_ref(a[2]["type"])
            init = self.ex(a[2])
            et = elem(self.iter(a[0])[0].t)
            if len(a) == 4:
                f = self.closure_over(a[3], s)
            elif is_seq(it):
                f = "|a: %s, b: %s| a + b" % (self.rt(it), self.rt(et))
            else:
                f = "|a: int, b: int| a + b"
            if not self.pure:
                f = self.bind_closure(f)
                s = self.fresh_let(s) if not self.simple(s) else s
                self.vis["#foldseq"] = s
            return "fold(%s, %s, %s)" % (s, init, f)
        if name in ("std::max_element", "std::min_element") and is_mit(n["type"]) and len(a) == 3:
            x, y = [self.skip(z) for z in a[:2]]
            while x["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(self.kids(x)) == 1:
                x = self.skip(x["c"][0])
            while y["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(self.kids(y)) == 1:
                y = self.skip(y["c"][0])
            if not (x["k"] == y["k"] == "CXXMemberCallExpr" and x["fn"]["name"].split("::")[-1] in ("begin", "cbegin") and
                    y["fn"]["name"].split("::")[-1] in ("end", "cend")) or name == "std::min_element":
                raise Unsupported(name)
            m, m2 = self.path(self.obj(x)), self.path(self.obj(y))
            if m is None or m2 is None or m.read() != m2.read() or not is_map(m.t):
                raise Unsupported(name)
            f = self.closure(a[2])
            if not self.pure:
                f = self.bind_closure(f)
            return "max_entry(%s, %s)" % (m.read(), f)
        if name in ("std::all_of", "std::any_of", "std::none_of"):
            s = self.range_of(a[0], a[1])[0]
            f = self.closure_over(a[2], s)
            et = self.rt(elem(self.iter(a[0])[0].t))
            if not self.pure:
                f = self.bind_closure(f)
            e = "seq_all(%s, %s)" % (s, f) if name == "std::all_of" else "seq_any(%s, %s)" % (s, f)
            return "!%s" % e if name == "std::none_of" else e
        if name == "std::make_unique":
            t = strip_ref(n["type"])[1]
            x = self.skip(a[0]) if len(a) == 1 else None
            if x is not None and strip_ref(a[0]["type"]) == t:
                return "Some(%s)" % self.ex(a[0])
            raise Unsupported("make_unique")
        if name == "std::copy" and len(a) == 3:
            return self.transform(n, a[:3] + [None])
        if name == "std::to_string":
            return "i_to_string(%s)" % self.ex(a[0])
        if name == "std::reverse":
            cp, i = self.iter(a[0])
            s = self.range_of(a[0], a[1])[0]
            if i != "0" or ".subrange(" in s:
                raise Unsupported("partial reverse")
            self.assign(cp, "%s.reverse()" % s)
            return "()"
        if name == "std::swap":
            p, q = self.need_path(a[0]), self.need_path(a[1])
            t = self.temp("_", p.read())
            self.assign(p, q.read())
            self.assign(q, t)
            return "()"
        if name == "std::distance":
            c1, i = self.iter(a[0])
            c2, j = self.iter(a[1])
            return "(%s - %s)" % (j, i)
        m = re.fullmatch(r"(u_\w+?)(_\d+)?", name)
        if m and len(a) >= 1:
            self.tr.need_icu(m.group(1), fn)
            return "%s(%s)" % (m.group(1), ", ".join(self.ex(x) for x in a))
        return self.icu_call(n, name, a)

    def icu_call(self, n, name, a):
        if name.endswith("UnicodeString::fromUTF8"):
            return "u_from8(%s)" % self.ex(a[0])
        if name.endswith("UnicodeString::fromUTF32"):
            src = self.charptr_seq(a[0])
            k = self.ex(a[1])
            self.ob("0 <= %s && %s <= %s.len()" % (k, k, src), "length of the characters", n)
            return "u_from32(stake(%s, %s))" % (src, k)
        if name == "U_FAILURE":
            e = "(%s > 0)" % self.ex(a[0])
            return e if strip_ref(n["type"]) == "bool" else "b2i(%s)" % e
        if name == "U_SUCCESS":
            e = "(%s <= 0)" % self.ex(a[0])
            return e if strip_ref(n["type"]) == "bool" else "b2i(%s)" % e
        return self.tr.special_call(self, n, name, a)

    def charptr_seq(self, n):
        """The characters a pointer points to (c_str(), data(), &s[0])."""
        s = self.skip(n)
        while s["k"] in ("CXXReinterpretCastExpr", "CStyleCastExpr", "ImplicitCastExpr"):
            s = self.skip(s["c"][0])
        if s["k"] == "CXXMemberCallExpr" and short(s["fn"]) in ("c_str", "data"):
            return self.ex(self.obj(s))
        if s["k"] == "UnaryOperator" and s["op"] == "&":
            i = self.skip(s["c"][0])
            if i["k"] == "CXXOperatorCallExpr" and i.get("op") == "[]" and self.ex(self.args(i)[1]) == "0":
                return self.ex(self.args(i)[0])
        raise Unsupported("pointer to characters")

    def charptr_path(self, n):
        s = self.skip(n)
        while s["k"] in ("CXXReinterpretCastExpr", "CStyleCastExpr", "ImplicitCastExpr"):
            s = self.skip(s["c"][0])
        if s["k"] == "UnaryOperator" and s["op"] == "&":
            i = self.skip(s["c"][0])
            if i["k"] == "CXXOperatorCallExpr" and i.get("op") == "[]" and self.ex(self.args(i)[1]) == "0":
                return self.need_path(self.args(i)[0])
        raise Unsupported("pointer to a buffer")

    def transform(self, n, a):
        s, cp, i, j = self.range_of(a[0], a[1])
        if a[3] is None:
            v = s
        else:
            f = self.closure_over(a[3], s)
            if not self.pure:
                f = self.bind_closure(f)
            v = "smap(%s, %s)" % (s, f)
        d = self.skip(a[2])
        if d["k"] == "CallExpr" and d["fn"]["name"] == "std::back_inserter":
            p = self.need_path(self.args(d)[0])
            self.assign(p, "(%s + %s)" % (p.read(), v))
            return "()"
        dp, k = self.iter(a[2])
        if i == "0" and k == "0" and ".subrange(" not in s and dp.read() == cp.read():
            self.assign(dp, v)
            return "()"
        if k == "0":
            self.ob("%s.len() <= %s.len()" % (s, dp.read()), "destination of transform is large enough", n)
            self.assign(dp, "(%s + %s.skip(%s.len() as int))" % (v, dp.read(), s))
            return "()"
        raise Unsupported("std::transform")

    # ------------------------------------------------------------------ member calls
    def this_of(self, n):
        """Path of the object a member function is called on."""
        m = n["c"][0]
        o = self.obj(n)
        if o is None:
            return self.this
        if m.get("arrow"):
            return self.deref(o)
        p = self.path(o)
        if p is None:
            e = self.ex(o)
            if self.pure:
                return Path(e, [], strip_ref(o["type"]))
            r = self.fresh("obj")
            self.emit("let ghost mut %s = %s;" % (r, e))
            p = Path(r, [], strip_ref(o["type"]))
        return p

    def upcast_path(self, p, n):
        return p

    def x_CXXMemberCallExpr(self, n):
        fn = n.get("fn")
        a = self.args(n)
        if fn["repo"]:
            return self.call_repo(fn, self.this_of(n), a, n)
        m = n["c"][0]
        o = self.obj(n)
        s = short(fn)
        if o is None:
            raise Unsupported("member call without object")
        if fn["name"].startswith("simdjson::"):
            return self.tr.json_member(self, n, s, o, a)
        t = strip_ref(o["type"])
        if t == "std::_Bit_reference" and s == "operator bool":
            return self.ex(o)
        if m.get("arrow"):
            if is_opt(t) or is_vit(t) or is_mit(t):
                pass
            p = self.deref(o)
            t = strip_ref(p.t)
            read = p.read
        else:
            p = self.path(o)
            if p is None:
                e0 = self.ex(o)
                read = lambda: e0
            else:
                read = p.read
        if s in ("get",) and is_opt(t):
            return read()
        if is_map(t) or is_set(t):
            return self.map_call(n, s, t, p, read, a)
        if head(t) == "std::priority_queue":
            return self.pq_call(n, s, t, p, read, a)
        if is_seq(t):
            return self.seq_call(n, s, t, p, read, a)
        if is_opt(t):
            if s == "has_value" or s == "operator bool":
                return "%s.is_some()" % read()
            if s == "value":
                self.ob("%s.is_some()" % read(), "value() of an engaged optional", n)
                return "%s->0" % read()
            if s == "value_or":
                return "(if %s.is_some() { %s->0 } else { %s })" % (read(), read(), self.ex(a[0]))
            if s == "reset":
                if a:
                    self.assign(p, self.ex(a[0]))
                else:
                    self.assign(p, "None")
                return "()"
        return self.tr.special_member(self, n, s, t, p, read, a)

    def map_call(self, n, s, t, p, read, a):
        if is_set(t):
            k = lambda: self.ex(a[0])
            if s in ("count",):
                return "b2i(%s.contains(%s))" % (read(), k())
            if s == "contains":
                return "%s.contains(%s)" % (read(), k())
            if s in ("insert", "emplace"):
                v = self.coerce(self.ex(a[0]), a[0]["type"], t[1])
                self.assign(p, "%s.insert(%s)" % (read(), v))
                return "()"
            if s == "clear":
                self.assign(p, self.default(t))
                return "()"
            if s == "erase":
                self.assign(p, "%s.remove(%s)" % (read(), k()))
                return "()"
            if s == "find":
                return "set_find(%s, %s)" % (read(), k())
            if s in ("end", "cend"):
                return "None"
            if s == "size":
                return "(%s.len() as int)" % read()
            if s == "empty":
                return "(%s =~= %s)" % (read(), self.default(t))
            raise Unsupported("set::" + s)
        if s == "find":
            return "map_find(%s, %s)" % (read(), self.coerce(self.ex(a[0]), a[0]["type"], t[1]))
        if s in ("end", "cend"):
            return "None"
        if s == "count":
            return "b2i(%s.dom().contains(%s))" % (read(), self.ex(a[0]))
        if s == "contains":
            return "%s.dom().contains(%s)" % (read(), self.ex(a[0]))
        if s == "at":
            k = self.ex(a[0])
            self.ob("%s.dom().contains(%s)" % (read(), k), "at() of a present key", n)
            return "%s[%s]" % (read(), k)
        if s == "size":
            return "map_size(%s)" % read()
        if s == "empty":
            return "(map_size(%s) == 0)" % read()
        if s == "clear":
            self.assign(p, self.default(t))
            return "()"
        if s == "erase" and not is_mit(a[0]["type"]):
            self.assign(p, "%s.remove(%s)" % (read(), self.ex(a[0])))
            return "()"
        if s in ("insert", "emplace", "try_emplace", "insert_or_assign"):
            if len(a) == 1:
                x = self.skip(a[0])
                e = self.ex(a[0])
                if not self.simple(e):
                    e = self.fresh_let(e)
                k, v = e + ".first", e + ".second"
            else:
                k = self.coerce(self.ex(a[0]), a[0]["type"], t[1])
                v = self.coerce(self.ex(a[1]), a[1]["type"], t[2])
            if s == "insert_or_assign":
                self.assign(p, "%s.insert(%s, %s)" % (read(), k, v))
            else:
                self.assign(p, "map_ins(%s, %s, %s)" % (read(), k, v))
            return "()"
        raise Unsupported("map::" + s)

    def simple(self, e):
        return re.fullmatch(r"[\w.]+", e) is not None

    def seq_call(self, n, s, t, p, read, a):
        et = elem(t)
        ustr = t == USTR
        if s in ("size", "length"):
            return "slen(%s)" % read()
        if s in ("empty", "isEmpty"):
            return "(slen(%s) == 0)" % read()
        if s in ("at", "back", "front"):
            q = self.path(n)
            if q is not None:
                return q.read()
            e = read()
            if not self.simple(e):
                e = self.fresh_let(e)
            i = {"front": "0", "back": "(%s.len() - 1)" % e}.get(s) or self.ex(a[0])
            self.ob("0 <= %s && %s < %s.len()" % (i, i, e), s + "() in range", n)
            return "%s[%s]" % (e, i)
        if s in ("c_str", "data", "operator basic_string_view", "shrink_to_fit"):
            return read()
        if s == "reserve":
            for x in a:
                self.ex(x)
            return "()"
        if s in ("push_back", "emplace_back"):
            if s == "emplace_back" and not (len(a) == 1 and (strip_ref(a[0]["type"]) == et or is_int(et) and is_int(a[0]["type"]))):
                v = self.emplace(et, a)
            else:
                v = self.coerce(self.ex(a[0]), a[0]["type"], et)
            if p is None:
                raise Unsupported("push_back on a temporary")
            self.assign(p, "%s.push(%s)" % (read(), v))
            return "()"
        if s == "pop_back":
            self.ob("%s.len() > 0" % read(), "pop_back() of a non-empty container", n)
            self.assign(p, "%s.drop_last()" % read())
            return "()"
        if s == "clear" or s == "remove" and ustr and not a:
            self.assign(p, self.default(t))
            return "()"
        if s == "resize":
            k = self.ex(a[0])
            v = self.coerce(self.ex(a[1]), a[1]["type"], et) if len(a) > 1 else self.default(et)
            self.ob("%s >= 0" % k, "size is not negative", n)
            self.assign(p, "sresize(%s, %s, %s)" % (read(), k, v))
            return "()"
        if s == "append":
            if ustr and len(a) == 1 and is_int(a[0]["type"]):
                pt = strip_ref(n["fn"]["params"][0])
                v = self.ex(a[0])
                self.assign(p, "%s.push(%s)" % (read(), v) if pt == "char16_t" else "u_append32(%s, %s)" % (read(), v))
                return read()
            if len(a) == 1:
                self.assign(p, "(%s + %s)" % (read(), self.ex(a[0])))
                return read()
            if len(a) == 2 and is_vit(a[0]["type"]):
                r = self.range_of(a[0], a[1])[0]
                self.assign(p, "(%s + %s)" % (read(), r))
                return read()
            if len(a) == 2 and is_int(a[0]["type"]):
                k = self.ex(a[0])
                self.assign(p, "(%s + srep(%s, %s))" % (read(), k, self.ex(a[1])))
                return read()
        if s == "assign":
            if len(a) == 2 and is_vit(a[0]["type"]):
                self.assign(p, self.range_of(a[0], a[1])[0])
                return "()"
            if len(a) == 2 and is_int(a[0]["type"]):
                k = self.ex(a[0])
                self.ob("%s >= 0" % k, "size is not negative", n)
                self.assign(p, "srep(%s, %s)" % (k, self.coerce(self.ex(a[1]), a[1]["type"], et)))
                return "()"
        if s == "insert":
            if is_int(a[0]["type"]):       # string::insert(pos, count, char) / (pos, string)
                i = self.ex(a[0])
                self.ob("0 <= %s && %s <= %s.len()" % (i, i, read()), "insert position in range", n)
                if len(a) == 3 and is_int(a[1]["type"]):
                    v = "srep(%s, %s)" % (self.ex(a[1]), self.ex(a[2]))
                elif len(a) == 2:
                    v = self.ex(a[1])
                else:
                    raise Unsupported("string::insert")
                self.assign(p, "sins(%s, %s, %s)" % (read(), i, v))
                return read()
            cp, i = self.iter(a[0])
            if cp.read() != read():
                raise Unsupported("insert at a foreign iterator")
            if len(a) == 3 and is_vit(self.skip(a[1])["type"]):
                v = self.range_of(a[1], a[2])[0]
            elif len(a) == 3 and is_int(a[1]["type"]):
                k = self.ex(a[1])
                self.ob("%s >= 0" % k, "count is not negative", n)
                v = "srep(%s, %s)" % (k, self.coerce(self.ex(a[2]), a[2]["type"], et))
            elif len(a) == 2:
                x = self.skip(a[1])
                if head(x["type"]) == "std::initializer_list" or is_seq(x["type"]) and not is_seq(et):
                    v = self.ex(a[1])
                else:
                    v = "seq![%s]" % self.coerce(self.ex(a[1]), a[1]["type"], et)
            else:
                raise Unsupported("vector::insert")
            self.ob("0 <= %s && %s <= %s.len()" % (i, i, read()), "insert position in range", n)
            self.assign(p, "(%s + %s)" % (v, read()) if i == "0" else
                        "(%s + %s)" % (read(), v) if i == "slen(%s)" % read() else "sins(%s, %s, %s)" % (read(), i, v))
            return "()"
        if s == "erase":
            self.erase_seq(n, p)
            return "()"
        if s in ("substr", "tempSubString"):
            i = self.ex(a[0]) if a else "0"
            e = read()
            if ustr:
                l = self.ex(a[1]) if len(a) > 1 and self.ex(a[1]) != "2147483647" else "slen(%s)" % e
                return "u_sub(%s, %s, %s)" % (e, i, l)
            self.ob("0 <= %s && %s <= %s.len()" % (i, i, e), "substr position in range", n)
            l = self.ex(a[1]) if len(a) > 1 else None
            if l is None or re.fullmatch(r"\(?(-1|18446744073709551615)\)?", l):
                return "%s.skip(%s)" % (e, i) if False else "ssub(%s, %s, %s.len() as int)" % (e, i, e)
            return "ssub(%s, %s, %s)" % (e, i, l)
        if s == "tempSubStringBetween":
            i, j = self.ex(a[0]), self.ex(a[1])
            return "u_sub(%s, %s, %s - %s)" % (read(), i, j, i)
        if s == "toUTF8String":
            q = self.need_path(a[0])
            self.assign(q, "(%s + u_to8(%s))" % (q.read(), read()) if self.known_empty(q) is False else
                        "(%s + u_to8(%s))" % (q.read(), read()))
            return q.read()
        if s == "char32At":
            return "u_at32(%s, %s)" % (read(), self.ex(a[0]))
        if s == "charAt":
            return "u_at(%s, %s)" % (read(), self.ex(a[0]))
        if s == "countChar32":
            if not a:
                return "u_count32(%s)" % read()
            i = self.ex(a[0])
            l = self.ex(a[1]) if len(a) > 1 else "2147483647"
            e = read()
            if i == "0" and l == "2147483647":
                return "u_count32(%s)" % e
            return "u_count32(u_sub(%s, %s, %s))" % (e, i, l)
        if s == "toUTF32":
            q = self.charptr_path(a[0])
            cap = self.ex(a[1])
            self.ob("%s <= %s.len()" % (cap, q.read()), "capacity of the buffer", n)
            e = read()
            if len(a) > 2 and not self.skip(a[2])["k"].endswith("Literal"):
                st = self.path(a[2])
                if st is not None:
                    self.assign(st, "(if slen(u_to32(%s)) > %s { 15 } else { 0 })" % (e, cap))
            self.assign(q, "sover(%s, stake(u_to32(%s), %s))" % (q.read(), e, cap))
            return "slen(u_to32(%s))" % e
        if s == "compare" and len(a) == 3:
            i, l = self.ex(a[0]), self.ex(a[1])
            e = read()
            self.ob("0 <= %s && %s <= %s.len()" % (i, i, e), "compare position in range", n)
            return "seq_cmp(ssub(%s, %s, %s), %s)" % (e, i, l, self.ex(a[2]))
        if s == "compare" and len(a) == 1:
            return "seq_cmp(%s, %s)" % (read(), self.ex(a[0]))
        if s == "find":
            pos = self.ex(a[1]) if len(a) > 1 else "0"
            x = self.ex(a[0])
            if is_int(strip_ref(a[0]["type"])):
                x = "seq![%s]" % x
            return "s_find(%s, %s, %s)" % (read(), x, pos)
        if s == "replace" and len(a) == 3 and is_int(a[0]["type"]):
            i, l = self.ex(a[0]), self.ex(a[1])
            v = self.ex(a[2])
            self.ob("0 <= %s && %s <= %s.len()" % (i, i, read()), "replace position in range", n)
            self.assign(p, "s_replace(%s, %s, %s, %s)" % (read(), i, l, v))
            return read()
        if s == "startsWith":
            return "(%s).is_prefix_of(%s)" % (self.ex(a[0]), read())
        raise Unsupported("%s::%s" % (head(t), s))

    def known_empty(self, q):
        return None

    def emplace(self, et, a):
        es = [self.ex(x) for x in a]
        if head(et) == "std::pair" and len(a) == 2:
            return "Pair { first: %s, second: %s }" % (self.coerce(es[0], a[0]["type"], et[1]), self.coerce(es[1], a[1]["type"], et[2]))
        if head(et) == "std::tuple":
            return "Tup%d { %s }" % (len(a), ", ".join("t%d: %s" % (i, self.coerce(e, x["type"], et[i + 1])) for i, (e, x) in enumerate(zip(es, a))))
        if isinstance(et, str) and et in self.P.records:
            fs = self.P.find(et + "::" + et.split("::")[-1], a)
            if fs is not None:
                return self.construct(et, {"name": fs["qname"], "params": [p["type"] for p in fs["params"]], "repo": True,
                                           "cls": et}, a, None)
        raise Unsupported("emplace of %s" % (et,))

    def erase_seq(self, n, p):
        a = self.args(n)
        x = self.skip(a[0])
        while x["k"] in ("CXXConstructExpr",) and len(self.kids(x)) == 1:
            x = self.skip(x["c"][0])
        if len(a) == 2 and x["k"] == "CallExpr" and x["fn"]["name"] == "std::remove_if":
            b = self.args(x)
            s, cp, i, j = self.range_of(b[0], b[1])
            if cp.read() != p.read() or ".subrange(" in s:
                raise Unsupported("remove_if of a part")
            f = self.closure_over(b[2], p.read())
            if not self.pure:
                f = self.bind_closure(f)
            self.assign(p, "sfilter_not(%s, %s)" % (p.read(), f))
            return "0", "0"
        if is_int(a[0]["type"]):
            i = self.ex(a[0])
            l = self.ex(a[1]) if len(a) > 1 else "%s.len()" % p.read()
            self.ob("0 <= %s && %s <= %s.len()" % (i, i, p.read()), "erase position in range", n)
            self.assign(p, "s_replace(%s, %s, %s, Seq::empty())" % (p.read(), i, l))
            return i, i
        cp, i = self.iter(a[0])
        if cp.read() != p.read():
            raise Unsupported("erase at a foreign iterator")
        if len(a) == 1:
            self.ob("0 <= %s && %s < %s.len()" % (i, i, p.read()), "erase position in range", n)
            self.assign(p, "%s.remove(%s)" % (p.read(), i))
            return i, i
        _, j = self.iter(a[1])
        self.ob("0 <= %s && %s <= %s && %s <= %s.len()" % (i, i, j, j, p.read()), "erase range valid", n)
        self.assign(p, "(%s.subrange(0, %s) + %s.subrange(%s, %s.len() as int))" % (p.read(), i, p.read(), j, p.read()))
        return i, i

    def pq_call(self, n, s, t, p, read, a):
        """std::priority_queue as the sequence of its elements in insertion order; top() is a greatest one."""
        et = t[1]
        if s in ("push", "emplace"):
            v = self.ex(a[0]) if len(a) == 1 else self.emplace(et, a)
            self.assign(p, "%s.push(%s)" % (read(), v))
            return "()"
        if s == "empty":
            return "(slen(%s) == 0)" % read()
        if s == "size":
            return "slen(%s)" % read()
        if s in ("top", "pop"):
            self.ob("%s.len() > 0" % read(), "%s() of a non-empty queue" % s, n)
            f = self.tr.queue_order(self, et)
            self.emit("proof { axiom_pqtop_%s(%s); }" % (f, read()), "%s: line %s: the order of the queue is a strict weak order" % (self.name, self.cur_line), "order")
            if s == "top":
                return "%s[pqtop_%s(%s)]" % (read(), f, read())
            self.assign(p, "%s.remove(pqtop_%s(%s))" % (read(), f, read()))
            return "()"
        raise Unsupported("priority_queue::" + s)

    # ------------------------------------------------------------------ operators
    def x_CXXOperatorCallExpr(self, n):
        fn = n.get("fn")
        op = n.get("op")
        a = self.args(n)
        if op == "()":
            s = self.skip(a[0])
            if s["k"] == "DeclRefExpr" and s["id"] in self.env and self.env[s["id"]].kind == "lambda":
                return self.call_lambda(self.env[s["id"]].node, a[1:])
            if s["k"] == "LambdaExpr":
                return self.call_lambda(s, a[1:])
            if fn["name"].startswith("std::function"):
                f = self.ex(a[0])
                return "(%s)(%s)" % (f, ", ".join(self.ex(x) for x in a[1:]))
            if fn["repo"]:
                return self.call_repo(fn, self.path(a[0]), a[1:], n)
            return self.tr.special_op(self, n, fn, a)
        if fn["repo"]:
            if fn.get("method"):
                if op == "=":
                    return self.x_assign(n, a[0], a[1])
                return self.call_repo(fn, self.path(a[0]) or self.tmp_path(a[0]), a[1:], n)
            return self.call_repo(fn, None, a, n)
        t = strip_ref(a[0]["type"])
        if op == "[]" and fn["name"].startswith("simdjson::"):
            return self.tr.json_at(self, n, a)
        if op == "[]":
            q = self.path(n)
            if q is not None:
                return q.read()
            e = self.ex(a[0])
            i = self.ex(a[1])
            if t == USTR:
                return "u_at(%s, %s)" % (e, i)
            if is_seq(t):
                self.ob("0 <= %s && %s < %s.len()" % (i, i, e), "index in range", n)
                return "%s[%s]" % (e, i)
            raise Unsupported("operator[] on %s" % (t,))
        if op == "*":
            return self.deref(a[0]).read()
        if op == "->":
            return "Some(%s)" % self.deref(a[0]).read()
        if op in ("==", "!="):
            tb = strip_ref(a[1]["type"])
            if is_vit(t):
                if self.is_end(a[1]) and self.find_call(a[0]):
                    pass
                _, i = self.iter(a[0])
                _, j = self.iter(a[1])
                return "(%s %s %s)" % (i, op, j)
            x = self.ex(a[0])
            if self.effects(a[1]):
                x = self.fresh_let(x)
            y = self.ex(a[1])
            if is_mit(t) or is_mit(tb):
                e = "%s.is_none()" % x if y == "None" else "%s.is_none()" % y if x == "None" else None
                if e is None:
                    raise Unsupported("comparison of iterators")
            elif y == "None":
                e = "%s.is_none()" % x
            elif x == "None":
                e = "%s.is_none()" % y
            elif is_opt(t) and not is_opt(tb):
                e = "(%s == Some(%s))" % (x, self.coerce(y, tb, t[1]))
            elif is_opt(tb) and not is_opt(t):
                e = "(%s == Some(%s))" % (y, self.coerce(x, t, tb[1]))
            elif is_seq(t):
                e = self.eq(x, y, t)
            else:
                e = "(%s == %s)" % (x, y)
            return e if op == "==" else "!%s" % e if e.startswith("(") else "!(%s)" % e
        if op in ("=",):
            if is_opt(t) and head(t) == "std::optional" and not is_opt(strip_ref(a[1]["type"])):
                v = self.ex(a[1])
                v = v if v == "None" else "Some(%s)" % self.coerce(v, a[1]["type"], t[1])
            elif is_vit(t):
                return self.iter_assign(a[0], self.iter(a[1]))
            else:
                v = self.coerce(self.ex(a[1]), a[1]["type"], t)
                if is_seq(t) and is_int(strip_ref(a[1]["type"])):
                    v = "seq![%s]" % v
            p = self.need_path(a[0])
            self.assign(p, v)
            return p.read()
        if op in ("+", "-") and is_vit(t):
            if op == "-" and is_vit(a[1]["type"]):
                _, i = self.iter(a[0])
                _, j = self.iter(a[1])
                return "(%s - %s)" % (i, j)
            raise Unsupported("iterator value")
        if op == "+":
            x = self.ex(a[0])
            if self.effects(a[1]):
                x = self.fresh_let(x)
            y = self.ex(a[1])
            if not is_seq(t) and not is_charptr(t) and head(t) != "array":
                x = "seq![%s]" % x
            tb = strip_ref(a[1]["type"])
            if not is_seq(tb) and not is_charptr(tb) and head(tb) != "array":
                y = "seq![%s]" % y
            return "(%s + %s)" % (x, y)
        if op == "+=" and is_seq(t):
            y = self.ex(a[1])
            tb = strip_ref(a[1]["type"])
            p = self.need_path(a[0])
            if is_int(tb):
                self.assign(p, "%s.push(%s)" % (p.read(), self.coerce(y, tb, elem(t))))
            else:
                self.assign(p, "(%s + %s)" % (p.read(), y))
            return p.read()
        if op in ("++", "--", "+=", "-=") and is_vit(t):
            s = self.skip(a[0])
            v = self.env.get(s.get("id"))
            if v is None or v.kind != "iter":
                raise Unsupported("iterator " + op)
            d = "1" if op in ("++", "--") else self.ex(a[1])
            self.assign(Path(v.r, [], None), "%s %s %s" % (v.r, op[0], d))
            return v.r
        if op in ("<", ">", "<=", ">=") and is_seq(t):
            x, y = self.ex(a[0]), self.ex(a[1])
            return "(seq_cmp(%s, %s) %s 0)" % (x, y, op)
        if op in ("<", ">", "<=", ">=") and is_vit(t):
            _, i = self.iter(a[0])
            _, j = self.iter(a[1])
            return "(%s %s %s)" % (i, op, j)
        return self.tr.special_op(self, n, fn, a)

    def is_end(self, n):
        return False

    def find_call(self, n):
        return False

    def tmp_path(self, n):
        e = self.ex(n)
        if self.pure:
            return Path(e, [], strip_ref(n["type"]))
        return Path(self.fresh_let(e), [], strip_ref(n["type"]))

    def iter_assign(self, n, ci):
        s = self.skip(n)
        v = self.env.get(s.get("id"))
        if v is None or v.kind != "iter" or v.cont.read() != ci[0].read():
            raise Unsupported("assignment of an iterator")
        self.assign(Path(v.r, [], None), ci[1])
        return v.r

    def call_lambda(self, node, args):
        """A call of a local lambda, inlined."""
        g = {"qname": "lambda#%d" % node["lid"], "params": node["params"], "ret": node["ret"], "body": node["body"]}
        if g["qname"] in self.inline_stack:
            raise Unsupported("recursive lambda")
        return self.inline_call(g, self.this, args)


def h_str(t):
    return head(t) in STRS
