"""Statements, and functions under contract as a whole."""
import json, re
from cxx2verus import *
from cxxcalls import Calls


def has_kind(s, kinds, stop=("LambdaExpr",)):
    if s is None:
        return False
    if isinstance(s, list):
        return any(has_kind(x, kinds, stop) for x in s)
    if not isinstance(s, dict):
        return False
    if s.get("k") in kinds:
        return True
    if s.get("k") in stop:
        return False
    return any(has_kind(v, kinds, stop) for v in s.values() if isinstance(v, (dict, list)))


LOOPS = ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt")


def decls_of(f):
    """Names and types declared by a function, in order."""
    out = [(p["name"], p["type"]) for p in f["params"]]

    def walk(n):
        if isinstance(n, list):
            for x in n:
                walk(x)
        elif isinstance(n, dict):
            if n.get("k") == "DeclStmt":
                for d in n["decls"]:
                    if "name" in d:
                        out.append((d["name"], d["type"]))
            if n.get("k") == "CXXForRangeStmt":
                out.append((n["var"]["name"], n["var"]["type"]))
            if n.get("k") == "LambdaExpr":
                for p in n["params"]:
                    out.append((p["name"], p["type"]))
            for k, v in n.items():
                if isinstance(v, (dict, list)) and k != "fn":
                    walk(v)
    walk(f.get("inits", []))
    walk(f["body"])
    return [[a, json.dumps(t)] for a, t in out]


WRAP = ("ImplicitCastExpr", "ParenExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "ExprWithCleanups",
        "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr")


def shape(n):
    """What an expression or statement computes, without names, types and positions."""
    if isinstance(n, list):
        return [x for x in (shape(y) for y in n) if x is not None]
    if not isinstance(n, dict):
        return None
    if n.get("k") in WRAP and len(n.get("c", [])) == 1:
        return shape(n["c"][0])
    op = n.get("op")
    if n.get("k") == "UnaryOperator" and op in ("++", "--"):
        return [op]
    out = [n.get("k"), op, n.get("value"), (n.get("fn") or {}).get("name")]
    for k, v in n.items():
        if k not in ("fn", "type") and isinstance(v, (dict, list)):
            x = shape(v)
            if x:
                out.append(x)
    return out


def jumps(n):
    """Numbers of breaks and returns in a loop body, outside inner loops and lambdas."""
    b = r = 0
    if isinstance(n, list):
        for x in n:
            i, j = jumps(x)
            b, r = b + i, r + j
    elif isinstance(n, dict):
        k = n.get("k")
        if k == "LambdaExpr":
            return 0, 0
        if k == "BreakStmt":
            return 1, 0
        if k == "ReturnStmt":
            return 0, 1
        for key, v in n.items():
            if isinstance(v, (dict, list)) and key != "fn":
                i, j = jumps(v)
                b, r = b + (0 if k in LOOPS + ("SwitchStmt",) else i), r + j
    return b, r


class Stmts(Calls):
    def __init__(self, *a, **k):
        Calls.__init__(self, *a, **k)
        self.root_types = {}
        self.used_hints = set()
        self.sigs = []
        self.ifdepth = 0
        self.loopvars = []
        self.key = None
        self.loop_stack = []
        self.notes = []

    def declare(self, cid, cname, t, init, mut=True):
        r = Calls.declare(self, cid, cname, t, init, mut)
        self.root_types[r] = strip_ref(t)
        return r

    # ------------------------------------------------------------------ statements
    def block(self, stmts):
        for i, s in enumerate(stmts):
            self.stmt(s)
            rest = stmts[i + 1:]
            if self.inl and self.inl["flag"] and self.may_return(s):
                if self.loop_depth > self.inl["depth"]:
                    self.do_break("test(Ghost(%s))" % self.inl["flag"])
                elif rest:
                    self.emit("if test(Ghost(!%s)) {" % self.inl["flag"])
                    self.block(rest)
                    self.emit("}")
                    return

    def do_break(self, cond=None):
        b = self.loop_stack[-1]["brk"]
        self.loop_stack[-1]["used_brk"] = True
        if cond:
            self.emit("if %s {" % cond)
        if b:
            self.emit("proof { %s = true; }" % b)
        self.emit("break;", "%s: line %s: at break" % (self.name, self.cur_line), "break")
        if cond:
            self.emit("}")

    def stmt(self, s):
        if s is None:
            return
        if "line" in s:
            self.cur_line = s["line"]
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m:
            return m(s)
        if k.endswith("Expr") or k.endswith("Operator"):
            if k == "CXXThrowExpr":
                return self.throw_site(s, "throw")
            self.ex(s)
            return
        raise Unsupported("statement " + k)

    def s_CompoundStmt(self, s):
        self.push_scope()
        self.block(self.kids(s))
        self.pop_scope()

    def s_NullStmt(self, s):
        pass

    def s_DeclStmt(self, s):
        for d in s["decls"]:
            self.decl(d)

    def decl(self, d):
        self.decl1(d)
        self.bindings(d)

    def bindings(self, d):
        """Structured bindings: each name is a member of the (unnamed) object."""
        for i, b in enumerate(d.get("bindings", [])):
            v = self.env[d["id"]]
            p = v.p if v.kind == "alias" else Path(v.r, [], v.t)
            t = strip_ref(p.t)
            if head(t) == "std::pair":
                q = p.ext(("f", ("first", "second")[i]), t[1 + i])
            elif isinstance(t, str) and t in self.P.records and not self.P.abstract(t):
                f = self.P.fields(t)[i]
                q = p.ext(("f", f[0]), f[2])
            else:
                raise Unsupported("structured binding of %s" % (t,))
            self.env[b["id"]] = Var("alias", strip_ref(b["type"]), p=q)
            self.vis[b["name"]] = q.read
            self.hint("decl " + b["name"])

    def decl1(self, d):
        if "unsupported" in d:
            if d["unsupported"] in ("TypeAlias", "Typedef", "StaticAssert", "Using", "UsingDirective", "Empty"):
                return
            raise Unsupported("declaration " + d["unsupported"])
        t = d["type"]
        init = d.get("init")
        name, cid = d["name"], d["id"]
        if d.get("static") and not d.get("const"):
            raise Unsupported("static local variable " + name)
        if is_ref(t):
            p = self.path(init)
            if p is not None:
                p = self.freeze(p)
                self.env[cid] = Var("alias", strip_ref(t), p=p)
                self.vis[name] = p.read
                self.hint("decl " + name)
                return
            if is_mut_ref(t):
                raise Unsupported("reference to a temporary")
            t = strip_ref(t)
        if is_vit(t):
            cp, i = self.iter(init)
            cp = self.freeze(cp)
            r = self.fresh(vname(name))
            self.emit("let ghost mut %s: int = %s;" % (r, i))
            self.root_types[r] = "int"
            self.env[cid] = Var("iter", t, cont=cp, r=r)
            self.vis[name] = r
            self.hint("decl " + name)
            return
        if init is not None and self.skip(init)["k"] == "LambdaExpr":
            self.env[cid] = Var("lambda", t, node=self.skip(init))
            return
        if isinstance(t, list) and t[0] == "lambda":
            raise Unsupported("lambda variable")
        if is_mut_ptr(t) and head(t[2]) in self.P.records and init is not None:
            x = self.skip(init)
            if x["k"] == "CXXNullPtrLiteralExpr":
                raise Unsupported("null pointer variable")
            # a pointer to an object that the function may change: an alias of that object
            mutable = not self.P.abstract(head(t[2]))
            if mutable:
                raise Unsupported("pointer to a changeable object")
        if init is None:
            e = "arbitrary()" if is_int(t) or t == "bool" or is_float(t) else self.default(t)
        else:
            e = self.coerce(self.ex(init), init["type"], t)
        special = self.tr.special_decl(self, d, t)
        if special:
            return
        self.declare(cid, name, t, e)

    def s_IfStmt(self, s):
        self.push_scope()
        if s.get("init"):
            self.stmt(s["init"])
        if s.get("condvar"):
            self.stmt(s["condvar"])
        c = self.ex(s["cond"])
        if c == "true" or c == "false":
            pass
        self.emit("if test(Ghost(%s)) {" % c)
        self.push_scope()
        self.ifdepth += 1
        self.stmt(s["then"])
        self.pop_scope()
        if s.get("else"):
            self.emit("} else {")
            self.push_scope()
            self.stmt(s["else"])
            self.pop_scope()
        self.ifdepth -= 1
        self.emit("}")
        self.pop_scope()

    def s_ReturnStmt(self, s):
        c = self.kids(s)
        if self.inl is not None:
            if self.inl["res"] is not None and c:
                e = self.coerce(self.ex(c[0]), c[0]["type"], self.inl["t"])
                self.emit("proof { %s = %s; }" % (self.inl["res"], e))
            elif c and c[0]:
                self.ex(c[0])
            if self.inl["flag"]:
                self.emit("proof { %s = true; }" % self.inl["flag"])
                self.writes.add((self.inl["flag"], ()))
                if self.inl["res"]:
                    self.writes.add((self.inl["res"], ()))
            return
        e = "()"
        if c and c[0] is not None and self.fn["ret"] != "void":
            e = self.coerce(self.ex(c[0]), c[0]["type"], self.fn["ret"])
        elif c and c[0] is not None:
            self.ex(c[0])
        self.ret(e)

    def ret(self, e):
        muts = self.tr.mut_order(self.c, self.fn)
        if not self.simple(e) and e != "()":
            e = self.fresh_let(e)
        if self.c.get("hints", {}).get("return"):
            self.vis["r"] = e
            self.hint("return")
            self.vis.pop("r")
        if self.c.get("throws"):
            self.n_ob += 1
            self.emit("proof { assert(!(%s)); }" % self.subst(self.c["throws"].replace("$", "$0").replace("$00", "$0")),
                      "%s: line %s: throws whenever specified" % (self.name, self.cur_line), "throw")
        if muts:
            self.emit("return Ghost((%s, %s));" % (e, ", ".join(self.cur(m) for m in muts)),
                      "%s: return" % self.name, "return")
        else:
            self.emit("return Ghost(%s);" % e, "%s: return" % self.name, "return")

    def cur(self, m):
        v = self.mutvars[m]
        return v() if callable(v) else v

    def s_BreakStmt(self, s):
        if not self.loop_stack:
            raise Unsupported("break outside a loop")
        self.do_break()

    def s_ContinueStmt(self, s):
        l = self.loop_stack[-1]
        if l["inc"] is None:
            raise Unsupported("continue in a do loop")
        l["inc"]()
        self.emit("continue;", "%s: line %s: at continue" % (self.name, self.cur_line), "continue")

    def s_SwitchStmt(self, s):
        if has_kind(s["body"], ("BreakStmt",)) or True:
            self.stmt(self.switch_to_if(s))

    def switch_to_if(self, s):
        """case a: ...; break; chains without fall through."""
        cases, cur = [], None
        for x in self.kids(s["body"]):
            labels = []
            while x["k"] in ("CaseStmt", "DefaultStmt"):
                labels.append(x["lhs"] if x["k"] == "CaseStmt" else None)
                x = x["sub"]
            if labels:
                if cur is not None and not cur["closed"] and cur["body"]:
                    raise Unsupported("fall through")
                cur = {"labels": labels, "body": [], "closed": False}
                cases.append(cur)
            if cur is None:
                raise Unsupported("switch")
            if x["k"] == "BreakStmt":
                cur["closed"] = True
                continue
            cur["body"].append(x)
            if x["k"] == "ReturnStmt":
                cur["closed"] = True
            elif x["k"] == "CompoundStmt" and self.kids(x) and self.kids(x)[-1]["k"] in ("BreakStmt", "ReturnStmt"):
                ks = self.kids(x)
                if ks[-1]["k"] == "BreakStmt":
                    cur["body"][-1] = dict(x, c=ks[:-1])
                cur["closed"] = True
        if any(has_kind(c["body"], ("BreakStmt",), ("LambdaExpr",) + LOOPS) for c in cases):
            raise Unsupported("break inside a case")
        out = None
        default = [c for c in cases if None in c["labels"]]
        if default:
            out = {"k": "CompoundStmt", "c": default[0]["body"]}
        for c in reversed([c for c in cases if None not in c["labels"]]):
            cond = None
            for l in c["labels"]:
                e = {"k": "BinaryOperator", "op": "==", "type": "bool", "c": [s["cond"], l]}
                cond = e if cond is None else {"k": "BinaryOperator", "op": "||", "type": "bool", "c": [cond, e]}
            i = {"k": "IfStmt", "cond": cond, "then": {"k": "CompoundStmt", "c": c["body"]}}
            if out is not None:
                i["else"] = out
            out = i
        return out or {"k": "NullStmt"}

    def s_CXXTryStmt(self, s):
        """Handlers that only throw: an exception inside is an exception outside, of another type."""
        if not all(self.only_throws(h["body"]) for h in s["handlers"]):
            raise Unsupported("a handler that does not throw")
        self.stmt(s["body"])

    def only_throws(self, b):
        while b and b["k"] == "CompoundStmt" and len(b.get("c", [])) == 1:
            b = b["c"][0]
        while b and b["k"] in ("ExprWithCleanups",):
            b = b["c"][0]
        return bool(b) and b["k"] == "CXXThrowExpr"

    # ------------------------------------------------------------------ loops
    def s_ForStmt(self, s):
        self.push_scope()
        if s.get("init"):
            self.stmt(s["init"])
        self.loop(s, s.get("cond"), s.get("inc"), s["body"])
        self.pop_scope()

    def s_WhileStmt(self, s):
        if s.get("condvar"):
            raise Unsupported("declaration in a while condition")
        self.loop(s, s["cond"], None, s["body"])

    def s_DoStmt(self, s):
        self.loop(s, s["cond"], None, s["body"], do=True)

    def s_CXXForRangeStmt(self, s):
        self.push_scope()
        if s.get("init"):
            self.stmt(s["init"])
        rng, var = s["range"], s["var"]
        rt = strip_ref(rng["type"])
        vt = var["type"]
        json = None
        if head(rt) == "simdjson::simdjson_result":
            rt, json = rt[1], self.temp(self.rt(rt[1]), self.tr.json_unwrap(self, self.ex(rng), s), "rng")
        if is_map(rt):
            e = self.temp("Seq<Pair<%s, %s>>" % (self.rt(rt[1]), self.rt(rt[2])), "map_enum(%s)" % self.ex(rng), "rng")
            p = Path(e, [], ["std::vector", ["std::pair", rt[1], rt[2]]])
            if is_mut_ref(vt):
                raise Unsupported("changing a map through a range loop")
        elif is_seq(rt):
            p = self.path(rng) if json is None else None
            if p is None:
                e = json or self.temp(self.rt(rt), self.ex(rng), "rng")
                p = Path(e, [], rt)
            p = self.freeze(p)
        else:
            raise Unsupported("range of %s" % (rt,))
        i = self.fresh("i_" + var["name"])
        self.emit("let ghost mut %s: int = 0;" % i)
        self.root_types[i] = "int"
        length = lambda: "slen(%s)" % p.read()

        def head_():
            q = p.ext(("i", i), elem(p.t))
            if is_ref(vt):
                self.env[var["id"]] = Var("alias", strip_ref(vt), p=q)
                self.vis[var["name"]] = q.read
                self.hint("decl " + var["name"])
            else:
                res = head(vt) == "simdjson::simdjson_result" and head(elem(p.t)) != head(vt)
                self.declare(var["id"], var["name"], vt, "Some(%s)" % q.read() if res else q.read())
            self.bindings(var)

        def inc():
            self.assign(Path(i, [], "int"), "%s + 1" % i)
        self.loop(s, None, inc, s["body"], rng=dict(i=i, p=p, head=head_))
        self.pop_scope()

    def loop(self, s, cond, inc, body, do=False, rng=None):
        k = self.nloops
        self.nloops += 1
        line = s.get("line", self.cur_line)
        specs = self.c.get("loops", [])
        if k >= len(specs):
            raise Unbound("loop at line %s has no invariant" % line)
        sp = specs[k]
        self.sigs.append(json.dumps([s["k"], shape(s.get("init")), shape(cond), shape(inc) if isinstance(inc, dict) else None,
                                     shape(s.get("range")) if rng else None, list(jumps(body)), self.ifdepth]))
        if self.pure:
            raise Unsupported("loop in a pure context")
        brk = None
        if has_kind(body, ("BreakStmt", "ReturnStmt")):
            brk = self.fresh("brk")
            self.emit("let ghost mut %s: bool = false;" % brk)
            self.root_types[brk] = "bool"
        self.vis["#brk%d" % k] = self.vis["#brk"] = brk or "false"
        if rng:
            self.vis["#i%d" % k] = self.vis["#i"] = rng["i"]
            self.vis["#r%d" % k] = self.vis["#r"] = rng["p"].read()
        if sp.get("before"):
            self.emit_hint(sp["before"], "%s: line %s: hint before loop" % (self.name, line))
        # the simple counting loop: var, bound
        cv = self.counter(cond, inc, body) if not rng else None
        start = None
        self.loopvars.append(cv["name"] if cv else None)
        written = self.tr.baseline.get("anchors", {}).get(self.key, {})
        was = written["loops"][k] if k < len(written.get("loops", [])) else ""
        if cv and not rng and was.startswith('["CXXForRangeStmt"'):
            # the annotations were written for a range loop: its index and range
            m = re.fullmatch(r"\(?slen\((.*)\)\)?", cv["bound"])
            if m and cv["op"] in ("<", "!="):
                self.vis["#i%d" % k] = self.vis["#i"] = cv["var"]
                self.vis["#r%d" % k] = self.vis["#r"] = m.group(1)
        elif rng and was.startswith('["ForStmt"') and written["loopvars"][k]:
            # ... or for an index loop
            self.vis.setdefault(written["loopvars"][k], rng["i"])
        if cv:
            start = self.fresh("start")
            self.emit("let ghost %s: int = %s;" % (start, cv["var"]))
            self.vis["#start%d" % k] = self.vis["#start"] = start
        outer_lines, outer_writes = self.lines, self.writes
        self.lines, self.writes = [], set()
        known = set(self.names)
        roots_before = set(self.root_types) | {self.this.root if self.this else ""} | set(self.tmp_roots())
        vis_header = dict(self.vis)
        self.loop_depth += 1
        self.push_scope()

        def do_inc():
            if callable(inc):
                inc()
            elif inc is not None:
                self.ex(inc)
            if sp.get("end"):
                self.emit_hint(sp["end"], "%s: line %s: hint at end of loop" % (self.name, line))
        info = {"brk": brk, "inc": None if do else do_inc, "used_brk": False}
        self.loop_stack.append(info)
        cpure, c = True, None
        if sp.get("top"):
            self.emit_hint(sp["top"], "%s: line %s: hint at top of loop" % (self.name, line))
        if rng:
            c = "%s < slen(%s)" % (rng["i"], rng["p"].read())
            self.emit("if !test(Ghost(%s)) { break; }" % c, "%s: line %s: loop exit" % (self.name, line), "exit")
            rng["head"]()
        elif not do and cond is not None:
            n0 = len(self.lines)
            c = self.ex(cond)
            cpure = len(self.lines) == n0 or all(l.kind == "safety" for l in self.lines[n0:])
            self.emit("if !test(Ghost(%s)) { break; }" % c, "%s: line %s: loop exit" % (self.name, line), "exit")
        if sp.get("head"):
            self.emit_hint(sp["head"], "%s: line %s: hint in loop" % (self.name, line))
        if sp.get("last") and body["k"] == "CompoundStmt":       # at the end of the body, not at continue
            self.push_scope()
            self.block(self.kids(body))
            self.emit_hint(sp["last"], "%s: line %s: hint at end of loop" % (self.name, line))
            self.pop_scope()
        else:
            self.stmt(body)
        if do:
            if sp.get("end"):
                self.emit_hint(sp["end"], "%s: line %s: hint at end of loop" % (self.name, line))
            c = self.ex(cond)
            self.emit("if !test(Ghost(%s)) { break; }" % c, "%s: line %s: loop exit" % (self.name, line), "exit")
            cpure = False
        else:
            do_inc()
        self.loop_stack.pop()
        self.pop_scope()
        self.loop_depth -= 1
        buf, w = self.lines, self.writes
        self.lines, self.writes = outer_lines, outer_writes
        self.writes |= w
        vis_body = self.vis
        self.vis = dict(vis_header)
        # frame of partially written objects
        frames = []
        wroots = {}
        for r, sh in w:
            wroots.setdefault(r, set()).add(sh)
        for r in sorted(wroots):
            shapes = wroots[r]
            if r not in roots_before or () in shapes:
                continue
            t = self.root_types.get(r)
            if not (isinstance(t, str) and t in self.P.records):
                if all(sh and sh[0] == "[]" for sh in shapes) and t is not None and is_seq(t):
                    pre = self.fresh("pre_" + r)
                    self.emit("let ghost %s = %s;" % (pre, r))
                    frames.append("%s.len() == %s.len()" % (r, pre))
                continue
            pre = self.fresh("pre_" + r)
            self.emit("let ghost %s = %s;" % (pre, r))
            for a, _, ft in self.P.fields(t):
                if not any(sh[0] == a for sh in shapes):
                    frames.append("%s.%s == %s.%s" % (r, a, pre, a))
                elif is_seq(ft) and all(len(sh) > 1 and sh[1] == "[]" for sh in shapes if sh[0] == a):
                    frames.append("%s.%s.len() == %s.%s.len()" % (r, a, pre, a))
        inv, xinv, ens = [], [], []
        for f in frames:
            inv.append((f, "frame"))
        if rng:
            inv.append(("0 <= %s" % rng["i"], "index"))
            xinv.append(("%s <= slen(%s)" % (rng["i"], rng["p"].read()), "index"))
        dec = None
        if cv:
            bound, broots = cv["bound"], cv["roots"]
            stable = not any(re.search(r"\b%s\b" % re.escape(r), bound) for r in wroots)
            if cv["up"]:
                inv.append(("%s >= %s" % (cv["var"], start), "index"))
                if stable and cv["step1"] and cv["op"] in ("<", "!=", "<="):
                    lim = bound if cv["op"] != "<=" else "(%s + 1int)" % bound
                    inv.append(("%s <= imax(%s, %s)" % (cv["var"], start, lim), "index") if cv["op"] != "!=" else
                               ("(%s <= %s) ==> (%s <= %s)" % (start, lim, cv["var"], lim), "index"))
                if stable and cv["op"] in ("<", "<=", "!="):
                    dec = "imax(0, %s - %s + 1)" % (bound, cv["var"])
            else:
                inv.append(("%s <= %s" % (cv["var"], start), "index"))
                if stable and cv["step1"] and cv["op"] in (">", ">="):
                    lim = bound if cv["op"] == ">" else "(%s - 1int)" % bound
                    inv.append(("%s >= imin(%s, %s)" % (cv["var"], start, lim), "index"))
                if stable:
                    dec = "imax(0, %s - %s + 1)" % (cv["var"], bound)
        if rng and not any(re.search(r"\b%s\b" % re.escape(r), rng["p"].read()) for r in wroots if () in wroots[r]):
            dec = "imax(0, slen(%s) - %s)" % (rng["p"].read(), rng["i"])
        for lst, key in ((inv, "inv"), (xinv, "xinv"), (ens, "exit")):
            for e in sp.get(key, []):
                if isinstance(e, tuple):
                    if self.tr.prop not in e[0].split(","):
                        continue
                    e = e[1]
                lst.append((self.subst(e), "invariant" if key != "exit" else "on exit"))
        if self.inl and self.inl["flag"] and self.loop_depth >= self.inl["depth"] and has_kind(body, ("ReturnStmt",)):
            xinv.append(("!%s" % self.inl["flag"], "index"))
        if brk:
            xinv.append(("!%s" % brk, "index"))
        if c is not None and cpure:
            ens.append(("%s || !(%s)" % (brk, c) if brk else "!(%s)" % c, "exit"))
            if self.inl and self.inl["flag"] and brk and has_kind(body, ("ReturnStmt",)):
                ens.append(("%s ==> %s" % (self.inl["flag"], brk), "exit"))
        if rng and not brk:
            ens.append(("%s == slen(%s)" % (rng["i"], rng["p"].read()), "exit"))
        if sp.get("dec"):
            dec = self.subst(sp["dec"])
        self.emit("loop")
        if xinv:
            self.emit("  invariant_except_break")
            for e, kind in xinv:
                self.n_ob += 2
                self.emit("    %s," % e, "%s: loop at line %s: %s: %s" % (self.name, line, kind, e[:200]), "inv")
        if inv:
            self.emit("  invariant")
            for e, kind in inv:
                self.n_ob += 2
                self.emit("    %s," % e, "%s: loop at line %s: %s: %s" % (self.name, line, kind, e[:200]), "inv")
        if ens:
            self.emit("  ensures")
            for e, kind in ens:
                self.n_ob += 1
                self.emit("    %s," % e, "%s: loop at line %s: %s: %s" % (self.name, line, kind, e[:200]), "inv")
        if dec:
            self.emit("  decreases %s" % dec, "%s: loop at line %s terminates" % (self.name, line), "dec")
            self.n_ob += 1
        else:
            self.notes.append("termination of the loop at line %s of %s" % (line, self.name))
        self.emit("{")
        self.lines += buf
        self.emit("}")
        self.vis = dict(vis_header)
        for x in list(vis_body):
            if x.startswith("#") and x not in self.vis:
                self.vis[x] = vis_body[x]
        if sp.get("after"):
            self.emit_hint(sp["after"], "%s: line %s: hint after loop" % (self.name, line))

    def tmp_roots(self):
        return [n if c == 1 else n for n, c in self.names.items()] + \
            ["%s_%d" % (n, i) for n, c in self.names.items() for i in range(2, c + 1)]

    def tempmut(self, t_rust, init, base="t"):
        r = Calls.tempmut(self, t_rust, init, base)
        self.root_types.setdefault(r, None)
        return r

    def counter(self, cond, inc, body):
        """for (...; i < bound; i += step) whose body leaves i alone."""
        if cond is None or inc is None or callable(inc):
            return None
        c = self.skip(cond)
        if c["k"] != "BinaryOperator" or c["op"] not in ("<", "<=", ">", ">=", "!="):
            return None

        def through(n):
            while n["k"] in ("ImplicitCastExpr", "CXXStaticCastExpr"):
                n = n["c"][0]
            return n
        l = through(c["c"][0])
        if l["k"] != "DeclRefExpr" or self.env.get(l["id"]) is None or self.env[l["id"]].kind != "var":
            return None
        if not is_int(l["type"]):
            return None
        vid = l["id"]
        i = self.skip(inc)
        step1, up = False, None
        if i["k"] == "UnaryOperator" and i["op"] in ("++", "--") and through(i["c"][0]).get("id") == vid:
            step1, up = True, i["op"] == "++"
        elif i["k"] == "CompoundAssignOperator" and i["op"] in ("+=", "-=") and through(i["c"][0]).get("id") == vid:
            up = i["op"] == "+="
            st = through(i["c"][1])
            if st["k"] == "IntegerLiteral":
                step1 = st["value"] == "1"
            else:
                return None
        else:
            return None
        if up and c["op"] in (">", ">=") or not up and c["op"] in ("<", "<=", "!="):
            return None
        if self.assigned(body, vid):
            return None
        if self.effects(c["c"][1]):
            return None
        save_lines, save_ob = self.lines, self.n_ob
        self.lines = []
        try:
            b = self.ex(c["c"][1])
        except Unsupported:
            return None
        finally:
            self.lines, self.n_ob = save_lines, save_ob
        return {"var": self.env[vid].r, "name": l["name"], "bound": b, "op": c["op"], "up": up, "step1": step1, "roots": None}

    def assigned(self, n, vid):
        if isinstance(n, list):
            return any(self.assigned(x, vid) for x in n)
        if not isinstance(n, dict):
            return False
        k = n.get("k")
        if k == "UnaryOperator" and n["op"] in ("++", "--", "&") or k == "CompoundAssignOperator" or \
                (k == "BinaryOperator" and n["op"] == "="):
            x = n["c"][0]
            while x["k"] in ("ImplicitCastExpr",):
                x = x["c"][0]
            if x["k"] == "DeclRefExpr" and x["id"] == vid:
                return True
        if k in ("CallExpr", "CXXMemberCallExpr") and n.get("fn"):
            for x, p in zip(self.args(n), n["fn"]["params"]):
                if is_mut_ref(p) and x["k"] == "DeclRefExpr" and x["id"] == vid:
                    return True
        return any(self.assigned(v, vid) for kk, v in n.items() if isinstance(v, (dict, list)) and kk != "fn")

    # ------------------------------------------------------------------ a whole function
    def translate(self):
        f, c, tr = self.fn, self.c, self.tr
        muts = tr.mut_order(c, f)
        self.mutvars = {}
        params = []
        ctor = f.get("ctor")
        if f.get("cls") and not f.get("static") and not ctor:
            params.append(("this", f["cls"]))
        for p in f["params"]:
            pn = tr.pname(c, f, p["name"])
            params.append((pn, strip_ref(p["type"]) if not (pn in muts and is_mut_ptr(p["type"])) else p["type"][2]))
        head_ = []
        for n, t in params:
            if isinstance(t, list) and t[0] == "lambda":
                raise Unsupported("lambda parameter")
            head_.append("p_%s: Ghost<%s>" % (n, self.rt(t)))
            self.entry[n] = "p_%s@" % n
        ret = f["ret"] if not ctor else f["cls"]
        rt = self.rt(ret) if ret != "void" else "()"
        full = rt if not muts else "(%s, %s)" % (rt, ", ".join(self.rt(dict(params)[m]) for m in muts))
        # ensures and requires
        post = {"r'": None}
        res = "r@" if not muts else "r@.0"
        extra = {"r": res}
        for i, m in enumerate(muts):
            extra[m + "'"] = "r@.%d" % (i + 1)
        self.vis = {}
        req = [self.subst(x, extra) for x in c.get("requires", [])]
        ens = []
        for lab, e in tr.ensures_of(c, f):
            ens.append((lab, self.subst(e, extra)))
        # body
        for n, t in params:
            r = self.fresh(vname(n))
            self.root_types[r] = t
            self.emit("let ghost mut %s: %s = p_%s@;" % (r, self.rt(t), n))
            if n == "this":
                self.this = Path(r, [], t)
                self.vis["this"] = r
            self.vis[n] = r
            if n in muts:
                self.mutvars[n] = r
        off = len(params) - len(f["params"])
        for p, (n, t) in zip(f["params"], params[off:]):
            self.env[p["id"]] = Var("var", t, r=self.vis[n]) if not (n in muts and is_mut_ptr(p["type"])) else \
                Var("ptrref", p["type"], p=Path(self.vis[n], [], t))
        if c.get("hints", {}).get("entry"):
            self.hint("entry")
        if ctor:
            e = self.ctor_fields(f["cls"], f)
            r = self.fresh("v_this")
            self.emit("let ghost mut %s: %s = %s;" % (r, rt, e))
            self.root_types[r] = f["cls"]
            self.this = Path(r, [], f["cls"])
            self.vis["this"] = r
        stmts = self.kids(f["body"])
        self.block(stmts)
        if ret == "void" or ctor:
            if not (stmts and stmts[-1]["k"] == "ReturnStmt"):
                self.ret("()" if not ctor else self.this.read())
        else:
            if not stmts or stmts[-1]["k"] not in ("ReturnStmt",):
                self.emit("return Ghost(arbitrary());") if False else self.emit(
                    "let _e = unreachable_end(); return Ghost(arbitrary());", "%s: end of the function is not reached" % self.name, "call")
        if self.nloops != len(c.get("loops", [])):
            raise Unbound("%s has %d loops, the contract annotates %d" % (self.name, self.nloops, len(c.get("loops", []))))
        out = []
        out.append(Line("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]"))
        out.append(Line("#[verifier::exec_allows_no_decreases_clause]"))
        if c.get("rlimit"):
            out.append(Line("#[verifier::rlimit(%d)]" % c["rlimit"]))
        if c.get("spinoff", True):
            out.append(Line("#[verifier::spinoff_prover]"))
        out.append(Line("fn %s(%s) -> (r: Ghost<%s>)" % (c["name"], ", ".join(head_), full)))
        if req:
            out.append(Line("  requires"))
            for x in req:
                out.append(Line("    %s," % x, "%s: precondition: %s" % (self.name, x[:200]), "req"))
        if ens:
            out.append(Line("  ensures"))
            for lab, x in ens:
                self.n_ob += 1
                out.append(Line("    %s," % x, "%s: postcondition %s: %s" % (self.name, lab, x[:300]), "ens"))
        out.append(Line("{"))
        if c.get("hide"):
            out.append(Line("    " + " ".join("hide(%s);" % h for h in c["hide"].split())))
        out += self.lines
        out.append(Line("}"))
        return out
