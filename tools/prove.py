"""Proves the contracts of one property from the current source of the repository.

prove(prop, repo, scratch, tier): extracts the functions (cxxdump), translates them (cxx2verus & co.),
and has Verus discharge every obligation.
"""
import glob, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cxx2verus import *
from cxxstmt import Stmts, decls_of
import setup

CXXFLAGS = ["-std=c++17", "-Descaped_key=unescaped_key"]
RESOURCE = "/usr/lib/llvm-18/lib/clang/18"


def extract(repo, file):
    r = subprocess.run([setup.ensure(), repo, os.path.join(repo, "src", file + ".cpp")] + CXXFLAGS +
                       ["-I" + repo + "/include", "-resource-dir", RESOURCE], capture_output=True, text=True)
    if r.returncode or not r.stdout.strip():
        raise Unsupported("cannot extract %s: %s" % (file, r.stderr[-500:]))
    off = UNIT_OFF.setdefault(file, (len(UNIT_OFF) + 1) * 1000000)
    return jsonize(json.loads(re.sub(r'"(id|lid)":(\d+)', lambda m: '"%s":%d' % (m.group(1), int(m.group(2)) + off), r.stdout)))


STRING = ["std::basic_string", "char", ["std::char_traits", "char"], ["std::allocator", "char"]]
JSON_TYPES = {"value": "simdjson::json", "document": "simdjson::json", "document_reference": "simdjson::json",
              "array": ["std::vector", "simdjson::json"], "object": ["std::vector", ["std::pair", STRING, "simdjson::json"]],
              "field": ["std::pair", STRING, "simdjson::json"], "parser": "simdjson::parser"}


def jsonize(x):
    """simdjson's values as the parsed tree: an array is its elements, an object its fields in order."""
    if isinstance(x, dict):
        for k, v in x.items():
            if isinstance(v, (dict, list)) or isinstance(v, str) and v[:10] == "simdjson::":
                x[k] = jsonize(v)
        return x
    if isinstance(x, list):
        if x and isinstance(x[0], str) and re.fullmatch(r"simdjson::\w+::implementation_simdjson_result_base", x[0]):
            x = ["simdjson::simdjson_result"] + x[1:]
        return [jsonize(v) if isinstance(v, (dict, list, str)) else v for v in x]
    if x in ("simdjson::padded_string", "simdjson::padded_string_view"):
        return STRING
    m = re.fullmatch(r"simdjson::\w+::ondemand::(\w+)", x)
    return JSON_TYPES.get(m.group(1), x) if m else x


UNIT_OFF = {}


def load_contracts():
    """All contracts, and the specification text of each contract file, in file order."""
    contracts, specs, virtuals, trusted = {}, [], {}, []
    for p in sorted(glob.glob(os.path.join(HERE, "contracts", "*.py"))):
        unit = os.path.basename(p)[:-3].split("_", 1)[1]

        def fn(name, **kw):
            kw["fn"] = name.split("/")[0].split("#")[0] if "#" not in name else name
            kw["key"] = name
            kw["file"] = unit
            kw.setdefault("name", "f_" + re.sub(r"\W+", "_", name))
            contracts[name] = kw

        def spec(text, unit_=unit, only=None):
            specs.append((unit_, text, only.split(",") if only else None))

        def virt(name):
            virtuals[name] = {}

        def trust(text, only=None):
            trusted.append((text, only.split(",") if only else None))
        g = {"fn": fn, "spec": spec, "virt": virt, "trust": trust}
        exec(compile(open(p).read(), p, "exec"), g)
    return contracts, specs, virtuals, trusted


class Tr:
    def __init__(self, repo, prop, units, baseline):
        self.prop = prop
        self.P = Prog(units, baseline)
        self.contracts, self.specs, self.virtuals, self.trusted = load_contracts()
        for c in self.contracts.values():        # hints for some properties only: [text, ("C04,C22", text), ...]
            for k, h in list(c.get("hints", {}).items()):
                if not isinstance(h, str):
                    h = " ".join(x if isinstance(x, str) else x[1] for x in h if isinstance(x, str) or prop in x[0].split(","))
                    c["hints"][k] = h
                if not h:
                    del c["hints"][k]
            if isinstance(c.get("hide"), list):
                c["hide"] = " ".join(x if isinstance(x, str) else x[1] for x in c["hide"] if isinstance(x, str) or prop in x[0].split(","))
            for lp in c.get("loops", []):
                for k in ("before", "top", "head", "end", "last", "after"):
                    if isinstance(lp.get(k), list):
                        lp[k] = " ".join(x if isinstance(x, str) else x[1] for x in lp[k] if isinstance(x, str) or prop in x[0].split(","))
        self.baseline = baseline
        self.types = {}          # rust struct name -> text
        self.uninterp = {}
        self.deps = {}
        self.renames = {}
        self.assumptions = set()
        self.anchors = {}        # contract -> the loops and hints its annotations are attached to

    # ---- types ----
    def rt(self, t):
        t = strip_ref(t)
        h = head(t)
        if t == "void":
            return "()"
        if t == "bool":
            return "bool"
        if is_float(t):
            return "Fl"
        if is_int(t):
            return "int"
        if t == USTR or h in STRS or t == "icu_74::StringPiece" or is_charptr(t):
            return "Seq<int>"
        if h in SEQ1 or h == "std::priority_queue":
            return "Seq<%s>" % self.rt(t[1])
        if h == "array":
            return "Seq<%s>" % self.rt(t[1])
        if h in MAPS:
            return "Map<%s, %s>" % (self.rt(t[1]), self.rt(t[2]))
        if h in SETS:
            return "Set<%s>" % self.rt(t[1])
        if h in OPTS or h == "simdjson::simdjson_result":
            return "Option<%s>" % self.rt(t[1])
        if t == "simdjson::json":
            return "Json"
        if t == "simdjson::parser":
            return "int"
        if h == "*":
            return "Option<%s>" % self.rt(t[2])
        if h == "std::pair":
            return "Pair<%s, %s>" % (self.rt(t[1]), self.rt(t[2]))
        if h == "std::tuple":
            return "Tup%d<%s>" % (len(t) - 1, ", ".join(self.rt(x) for x in t[1:]))
        if is_mit(t):
            return "Option<%s>" % self.rt(t[1])
        if h == "std::function":
            f = t[1]
            return "spec_fn(%s) -> %s" % (", ".join(self.rt(x) for x in f[2:]), self.rt(f[1]))
        if isinstance(t, str) and t in OPAQUE_TYPES:
            return OPAQUE_TYPES[t]
        if h in OPAQUE_DEFAULT and h != "std::basic_ostringstream":
            return "()"
        if h == "std::basic_ostringstream":
            return "Oss"
        if h == "std::basic_istringstream":
            return "Iss"
        if t == "UErrorCode" or h == "enum":
            return "int"
        if isinstance(t, str) and t in self.P.records:
            n = rname(t)
            if n not in self.types:
                self.types[n] = None
                fs = []
                if self.P.abstract(t):
                    fs.append("pub dyn_id: int")
                for a, _, ft in self.P.fields(t):
                    fs.append("pub %s: %s" % (a, self.rt(ft)))
                self.types[n] = "#[verifier::ext_equal]\npub struct %s { %s }" % (n, ", ".join(fs))
            return n
        raise Unsupported("type %s" % (t,))

    def flit(self, v):
        try:
            x = float(v)
        except ValueError:
            raise Unsupported("floating literal")
        if x == 0:
            return "Fl { v: 0 }"
        return "fl_lit(%d)" % int(x * 1000000)

    def slit(self, units):
        if not units:
            return "Seq::<int>::empty()"
        return "seq![%s]" % ", ".join("%dint" % (u if u < 128 else u - 256 if u < 256 else u) for u in units)

    def expand_str(self, text):
        return re.sub(r'S"((?:[^"\\]|\\.)*)"', lambda m: self.slit(list(m.group(1).encode().decode("unicode_escape").encode("latin-1"))), text)

    # ---- contracts ----
    def contract_for(self, fn):
        k = "%s/%d" % (fn["name"], len(fn["params"]))
        return self.contracts.get(k) or self.contracts.get(fn["name"])

    def resolve(self, fn):
        return self.P.find(fn["name"], fn.get("params"))

    def mut_order(self, c, f):
        return c.get("mut", [])

    def rename_map(self, c, f):
        """contract name -> current name"""
        k = c["key"]
        if k in self.renames:
            return self.renames[k]
        m = {}
        b = self.baseline.get("decls", {}).get(k)
        cur = decls_of(f)
        if b:
            if len(b) == len(cur) and [t for _, t in b] == [t for _, t in cur]:
                for (x, _), (y, _) in zip(b, cur):
                    if x != y:
                        m.setdefault(x, y)
            else:
                bn, cn = [x for x, _ in b], [x for x, _ in cur]
                missing = [(x, t) for x, t in b if x not in cn]
                extra = [(x, t) for x, t in cur if x not in bn]
                for t in set(t for _, t in missing):
                    ms, es = [x for x, tt in missing if tt == t], [x for x, tt in extra if tt == t]
                    if len(ms) == len(es):
                        m.update(zip(ms, es))
        self.renames[k] = m
        return m

    def renamed(self, ft, name):
        if name in ft.vis or name in ft.entry or name == "this":
            return name
        return self.rename_map(ft.c, ft.fn).get(name, name)

    def pname(self, c, f, name):
        m = self.rename_map(c, f)
        for x, y in m.items():
            if y == name:
                return x
        return name

    def ensures_of(self, c, f):
        out = []
        for lab, e in c.get("ensures", {}).items():
            props = lab.split(":")[0].split(",")
            if "*" in props or self.prop in props:
                out.append((lab, e))
        if c.get("spec"):
            out.append(("value", "$r =~~= " + c["spec"]))
        if c.get("throws"):
            out.append(("throws", "!(%s)" % c["throws"]))
        return out

    def call_subst(self, c, f, text, es, this):
        names = {}
        for p, e in zip(f["params"], es):
            names[self.pname(c, f, p["name"])] = e
        if this is not None:
            names["this"] = this

        def r(m):
            if m.group(1) not in names:
                raise Unbound("$" + m.group(1))
            return "(%s)" % names[m.group(1)]
        return self.expand_str(re.sub(r"\$0?([A-Za-z_]\w*)", r, text))

    def spec_app(self, c, f, es, this):
        g = f if "body" in f else self.resolve(f)
        return self.call_subst(c, g, c["spec"], es, this)

    def used_contract(self, caller, callee):
        self.deps.setdefault(caller["key"], set()).add(callee["key"])

    def lambda_spec(self, c, n, ft, names):
        f = self.P.lambda_fn(c["fn"])
        return self.call_subst(c, f, c["spec"], names, ft.this.read() if ft.this is not None else None)

    def use_lambda(self, c, n, ft):
        self.deps.setdefault(ft.c["key"], set()).add(c["key"])

    def virt_app(self, fn, this, es):
        n = "virt_" + rname(fn["name"])
        cls = head(fn["cls"])
        ps = ["o: %s" % self.rt(cls)] + ["a%d: %s" % (i, self.rt(t)) for i, t in enumerate(fn["params"])]
        self.uninterp[n] = "pub uninterp spec fn %s(%s) -> %s;" % (n, ", ".join(ps), self.rt(fn["ret"]))
        return "%s(%s)" % (n, ", ".join([this] + es))

    def need_dyn(self, src, dst):
        n = "dyn_" + rname(head(strip_ref(src)))
        self.uninterp[n] = "pub uninterp spec fn %s(o: %s) -> int;" % (n, self.rt(head(strip_ref(src))))

    def need_icu(self, name, fn):
        ps = ", ".join("a%d: %s" % (i, self.rt(t)) for i, t in enumerate(fn["params"]))
        self.uninterp[name] = "pub uninterp spec fn %s(%s) -> %s;" % (name, ps, self.rt(fn["ret"]))

    def queue_order(self, ft, et):
        """Declares the order of a priority queue's elements: operator< of the class."""
        r = self.rt(et)
        k = re.sub(r"\W+", "_", r).strip("_")
        if "pqtop_" + k in self.uninterp:
            return k
        if is_int(et):
            body = "a < b"
        else:
            f = self.P.find(et + "::operator<") or self.P.find("operator<")
            if f is None:
                raise Unsupported("order of %s" % (et,))
            fd = {"name": f["qname"], "params": [p["type"] for p in f["params"]], "repo": True}
            body = ft.pure_call(fd, ["b"], this=Path("a", [], et)) if len(f["params"]) == 1 else ft.pure_call(fd, ["a", "b"])
        self.uninterp["pqtop_" + k] = """pub open spec fn less_%s(a: %s, b: %s) -> bool { %s }
// an element that no other one exceeds; which of them is not known
pub uninterp spec fn pqtop_%s(s: Seq<%s>) -> int;
pub axiom fn axiom_pqtop_%s(s: Seq<%s>)
    requires s.len() > 0, forall|a: %s, b: %s| #[trigger] less_%s(a, b) ==> !less_%s(b, a), forall|a: %s, b: %s, c: %s| !#[trigger] less_%s(a, b) && !#[trigger] less_%s(b, c) ==> !less_%s(a, c)
    ensures 0 <= pqtop_%s(s) < s.len(), forall|i: int| 0 <= i < s.len() ==> !less_%s(s[pqtop_%s(s)], #[trigger] s[i]);""" % (
            (k, r, r, body) + (k, r, k, r) + (r, r, k, k, r, r, r, k, k, k) + (k, k, k))
        return k

    def json_opt(self, ft, o):
        """A simdjson value or result of one, as an optional; its type."""
        o = self.json_skip(ft, o)
        t = strip_ref(o["type"])
        e = ft.ex(o)
        if head(t) == "simdjson::simdjson_result":
            return e, t[1]
        return "Some(%s)" % e, t

    def json_skip(self, ft, o):
        o = ft.skip(o)
        while o["k"] == "ImplicitCastExpr" and o["cast"] in ("UncheckedDerivedToBase", "DerivedToBase", "NoOp"):
            o = ft.skip(o["c"][0])
        return o

    def json_unwrap(self, ft, e, n):
        ft.ob("(%s).is_some()" % e, "the configuration has the value read here (else simdjson throws)", n)
        return "(%s)->0" % e

    def json_member(self, ft, n, s, o, a):
        if s == "iterate" and strip_ref(o["type"]) == "simdjson::parser" and len(a) == 1:
            return "json_parse(%s)" % ft.ex(a[0])
        e, t = self.json_opt(ft, o)
        kind = "Json" if t == "simdjson::json" else "obj" if is_seq(t) and head(elem(t)) == "std::pair" else \
            "arr" if is_seq(t) and elem(t) == "simdjson::json" else "field" if head(t) == "std::pair" else "plain"
        if kind == "field":
            if s == "value" and not a:
                r = "Some((%s)->0.second)" % e if e.startswith("Some(") else "jr_fval(%s)" % e
                return r if head(strip_ref(n["type"])) == "simdjson::simdjson_result" else self.json_unwrap(ft, r, n)
            if s == "unescaped_key":
                return "jr_fkey(%s)" % e
        if s in ("value", "take_value", "value_unsafe") and not a:
            return self.json_unwrap(ft, e, n)
        if s == "error" and not a:
            return "(if (%s).is_some() { 0int } else { 1int })" % e
        if kind == "Json" and not [x for x in a if ft.skip(x)["k"] != "CXXBoolLiteralExpr"]:
            g = {"get_string": "str", "get_bool": "bool", "get_int64": "int", "get_double": "dbl", "get_object": "obj",
                 "get_array": "arr", "type": "type", "is_null": "null"}.get(s)
            if g and s in ("type", "is_null") or g and head(strip_ref(n["type"])) == "simdjson::simdjson_result":
                r = "jr_%s(%s)" % (g, e)
                return r if head(strip_ref(n["type"])) == "simdjson::simdjson_result" else self.json_unwrap(ft, r, n)
        if s in ("find_field", "find_field_unordered", "at_key") and len(a) == 1 and kind in ("Json", "obj"):
            return "jr_%s(%s, %s)" % ("at" if kind == "Json" else "oat", e, ft.ex(a[0]))
        if "::operator " in n["fn"]["name"] and not a:
            r = strip_ref(n["type"])
            if self.rt(r) == self.rt(t):
                return self.json_unwrap(ft, e, n)
            g = "str" if head(r) in STRS else "bool" if r == "bool" else "int" if r in ("long", "long long") else \
                "dbl" if is_float(r) else "obj" if is_seq(r) and head(elem(r)) == "std::pair" else \
                "arr" if is_seq(r) and elem(r) == "simdjson::json" else None
            if kind == "Json" and g:
                return self.json_unwrap(ft, "jr_%s(%s)" % (g, e), n)
        raise Unsupported("simdjson: %s of %s" % (s, t))

    def json_at(self, ft, n, a):
        e, t = self.json_opt(ft, a[0])
        return "jr_%s(%s, %s)" % ("oat" if is_seq(t) else "at", e, ft.ex(a[1]))

    def special_call(self, ft, n, name, a):
        if name == "simdjson::padded_string::load" and len(a) == 1:
            return "json_file(%s)" % ft.ex(a[0])
        m = re.fullmatch(r"icu_\d+::Normalizer2::get(NFK?[CD])Instance", name)
        if m:
            return "Some(Normalizer2 { mode: %s })" % NF[m.group(1)]
        if re.fullmatch(r"icu_\d+::Normalizer::normalize", name):
            src, mode = ft.temp("Seq<int>", ft.ex(a[0])), ft.ex(a[1])
            ft.ob("%s == 0" % ft.ex(a[2]), "no normalization options", n)
            ft.assign(ft.need_path(a[3]), "nz(%s, %s)" % (mode, src))
            return "()"
        if re.fullmatch(r"icu_\d+::RegexPattern::compile", name) and len(a) == 3:
            pat, flags = ft.temp("Seq<int>", ft.ex(a[0])), ft.temp("int", ft.ex(a[1]))
            st = ft.need_path(a[2])
            ft.ob("%s <= 0" % st.read(), "no earlier error in the status", n)
            ft.assign(st, "(if re_bad(%s, %s) { 1int } else { %s })" % (pat, flags, st.read()))
            return "(if re_bad(%s, %s) { None } else { Some(RePat { pat: %s, flags: %s }) })" % (pat, flags, pat, flags)
        raise Unsupported("call of " + name)

    def special_member(self, ft, n, s, t, p, read, a):
        if re.fullmatch(r"icu_\d+::Normalizer2", str(t)):
            if s == "hasBoundaryBefore":
                return "nz_before(%s.mode, %s)" % (read(), ft.ex(a[0]))
            if s == "normalize" and len(a) == 2:
                return "nz(%s.mode, %s)" % (read(), ft.ex(a[0]))
        if re.fullmatch(r"icu_\d+::RegexPattern", str(t)) and s == "matcher" and len(a) == 2:
            return "Some(ReMat { pat: %s.pat, flags: %s.flags, input: %s, k: 0 })" % (read(), read(), ft.ex(a[0]))
        if re.fullmatch(r"icu_\d+::RegexMatcher", str(t)):
            m = read()
            if s == "find" and len(a) <= 1:
                ft.assign(p, "re_step(%s)" % m)
                b = "re_found(%s)" % p.read()
                return b if strip_ref(n["type"]) == "bool" else "b2i(%s)" % b
            if s in ("start", "end") and len(a) <= 1:
                ft.ob("re_found(%s)" % m, "there is a current match", n)
                return "re_at(%s).%s" % (m, "first" if s == "start" else "second")
        if head(t) == "std::wstring_convert" and s == "from_bytes" and len(a) == 1:
            v = ft.temp("Seq<int>", ft.ex(a[0]))
            ft.ob("w8_ok(%s)" % v, "the text is valid UTF-8 (else from_bytes throws)", n)
            return "w_from8(%s)" % v
        if head(t) == "std::wstring_convert" and s == "to_bytes" and len(a) == 1:
            v = ft.temp("Seq<int>", ft.ex(a[0]))
            ft.ob("scalars(%s)" % v, "the characters are Unicode scalar values (else to_bytes may throw)", n)
            return "w_to8(%s)" % v
        if head(t) in OSTREAMS and s == "str" and not a:
            return "%s.out" % read()
        if head(t) in ISTREAMS and s == "operator bool":
            return "%s.ok" % read()
        if head(t) in ISTREAMS and s in ("fail", "operator!"):
            return "!%s.ok" % read()
        raise Unsupported("call of %s::%s" % (head(t), s))

    def special_op(self, ft, n, fn, a):
        op = n.get("op")
        if op == "()" and fn["name"].startswith(("std::uniform_real_distribution", "std::linear_congruential_engine", "std::mersenne_twister_engine", "std::random_device")):
            return ft.nondet(self.rt(n["type"]))
        h = head(strip_ref(a[0]["type"])) if a else None
        if op == "<<" and h in OSTREAMS:
            p = ft.need_path(a[0])
            x = ft.skip(a[1])
            t = strip_ref(x["type"])
            if x["k"] == "CallExpr" and x["fn"]["name"] in ("std::setw", "std::setfill"):
                v = "Oss { %s: %s, ..%s }" % (x["fn"]["name"][8:].replace("set", ""), ft.ex(ft.args(x)[0]), p.read())
                v = v.replace("Oss { w:", "Oss { width:")
            elif x["k"] == "DeclRefExpr" and x.get("fn"):
                m = {"hex": "hex: true", "dec": "hex: false", "uppercase": "upper: true", "nouppercase": "upper: false"}
                f = m.get(x["fn"]["name"].split("::")[-1])
                if f is None:
                    raise Unsupported("manipulator " + x["fn"]["name"])
                v = "Oss { %s, ..%s }" % (f, p.read())
            elif is_seq(t) or is_charptr(t) or head(t) == "array":
                v = "oss_str(%s, %s)" % (p.read(), ft.ex(a[1]))
            elif t in ("char", "signed char", "unsigned char"):
                v = "oss_str(%s, seq![%s])" % (p.read(), ft.ex(a[1]))
            elif is_int(t):
                e = ft.temp("int", ft.ex(a[1]))
                ft.ob("!%s.hex || %s >= 0" % (p.read(), e), "a number written in hexadecimal is not negative", n)
                v = "oss_int(%s, %s)" % (p.read(), e)
            else:
                raise Unsupported("output of %s" % (t,))
            ft.assign(p, v)
            return p.read()
        if op == ">>" and h in ISTREAMS and is_seq(strip_ref(a[1]["type"])):
            p = ft.need_path(a[0])
            q = ft.need_path(a[1])
            w = ft.temp("Iss", p.read())
            ft.assign(q, "(if %s.ok && ws_skip(%s.rest).len() > 0 { ws_word(%s.rest) } else { %s })" % (w, w, w, q.read()))
            ft.assign(p, "iss_next(%s)" % w)
            return p.read()
        raise Unsupported("operator %s of %s" % (n.get("op"), fn["name"]))

    def special_decl(self, ft, d, t):
        return False


NF = {"NFD": 2, "NFKD": 3, "NFC": 4, "NFKC": 5}      # values of UNormalizationMode
PROPS = None


def prop_functions(contracts, prop):
    """Keys of the contracts with an obligation for the property (label or props=)."""
    return [k for k, c in contracts.items() if prop in props_of(c)]


def props_of(c):
    props = set(c.get("props", "").split(",")) - {""}
    for lab in c.get("ensures", {}):
        props |= set(lab.split(":")[0].split(","))
    return props - {"*"}


def translate(prop, repo, files=None):
    """Translates everything property prop needs; returns (text, labels per line, info)."""
    base_p = os.path.join(HERE, "contracts", "baseline.json")
    baseline = json.load(open(base_p)) if os.path.exists(base_p) else {}
    contracts, specs, virtuals, trusted = load_contracts()
    roots = prop_functions(contracts, prop)
    if not roots:
        return None
    # translation units, with everything they include
    all_units = sorted(os.path.basename(p)[:-4] for p in glob.glob(repo + "/src/*.cpp"))
    with ThreadPoolExecutor(8) as ex:
        units = list(ex.map(lambda u: extract(repo, u), all_units))
    tr = Tr(repo, prop, units, baseline)
    done, fns, info = set(), [], []
    todo = list(roots)
    while todo:
        k = todo.pop(0)
        if k in done:
            continue
        done.add(k)
        c = tr.contracts[k]
        f = tr.P.fns.get(c["fn"], []) if "#lambda" not in k else [tr.P.lambda_fn(k)]
        if "/" in k:
            f = [x for x in f if len(x["params"]) == int(k.rsplit("/", 1)[1])]
        if not f:
            raise Unbound("no function %s" % k)
        ft = Stmts(tr, c, f[0])
        ft.key = k
        try:
            lines = ft.translate()
        except (Unsupported, Unbound) as e:
            raise type(e)("%s (line %s): %s" % (c["fn"], ft.cur_line, e))
        fns.append((k, lines))
        info.append({"function": c["fn"], "file": f[0]["file"], "lines": "%d-%d" % (f[0]["line"], f[0]["endline"]),
                     "obligations": ft.n_ob, "unproved_termination": ft.notes, "contract": k})
        tr.anchors[k] = {"loops": ft.sigs, "hints": sorted(ft.used_hints), "loopvars": ft.loopvars}
        for d in sorted(tr.deps.get(k, [])) + c.get("needs", []):
            if d not in done:
                todo.append(d)
    files = {tr.contracts[k]["file"] for k in done}
    out = [Line(l) for l in open(os.path.join(HERE, "tools", "prelude.rs")).read().splitlines()]
    out += [Line(l) for l in open(os.path.join(HERE, "tools", "icu.rs")).read().splitlines()]
    stext = []
    used_units = closure_units(files, specs)
    for u, text, only in specs:
        if only is not None and prop not in only:
            continue
        if u not in used_units:
            continue
        text = tr.expand_str(text)
        words = set(re.findall(r"[A-Z]\w+", text))
        for rec in tr.P.records:
            if rname(rec) in words:
                tr.rt(rec)
        for m in re.finditer(r"@(struct|virt|icu|dyn) ([\w:]+)", text):
            if m.group(1) == "struct":
                tr.rt(m.group(2))
            elif m.group(1) == "dyn":
                tr.need_dyn(m.group(2), None)
            elif m.group(1) == "virt":
                f = next((x for fs in tr.P.fns.values() for x in fs if m.group(2) in x.get("overrides", [])), None)
                if f is None:
                    raise Unbound("virtual " + m.group(2))
                tr.virt_app({"name": m.group(2), "cls": m.group(2).rsplit("::", 1)[0], "ret": f["ret"],
                             "params": [p["type"] for p in f["params"]]}, "", [])
            else:
                tr.uninterp.setdefault(m.group(2), "pub uninterp spec fn %s(a0: int) -> %s;" % (
                    m.group(2), "int"))
        for l in text.splitlines():
            stext.append(Line(l, "specification", "spec"))
    out += [Line(t) for t in tr.types.values() if t]
    out += [Line(t) for t in tr.uninterp.values()]
    out += stext
    for _, ls in fns:
        out += ls
    out.append(Line("fn main() {}"))
    out.append(Line("} // verus!"))
    # one physical line per Line
    text, labels = [], {}
    for l in out:
        for part in l.text.split("\n"):
            text.append(part)
            labels[len(text)] = l
    return "\n".join(text) + "\n", labels, info, tr, done


def closure_units(files, specs):
    """Contract files may say '# uses: a b' in their specification text."""
    uses = {}
    for u, text, _ in specs:
        for m in re.finditer(r"//\s*uses:([^\n]*)", text):
            uses.setdefault(u, set()).update(m.group(1).split())
    out, todo = set(), list(files)
    while todo:
        u = todo.pop()
        if u in out:
            continue
        out.add(u)
        todo += uses.get(u, [])
    return out


VERUS = ["verus", "--error-format=json", "--output-json", "--multiple-errors", "6", "--num-threads", "8"]


def run_verus(path, timeout, extra=()):
    try:
        r = subprocess.run(VERUS + list(extra) + [path], capture_output=True, text=True, timeout=timeout,
                           cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return None
    errs = []
    for l in r.stderr.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error":
                errs.append(d)
    m = re.search(r'"verified":\s*(\d+)', r.stdout)
    e = re.search(r'"errors":\s*(\d+)', r.stdout)
    return {"errs": errs, "verified": int(m.group(1)) if m else 0, "errors": int(e.group(1)) if e else -1,
            "stderr": r.stderr, "rc": r.returncode, "stdout": r.stdout}


FAIL = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
        "loop ensures not satisfied", "decreases not satisfied", "assertion not satisfied", "could not prove termination",
        "unable to prove", "possible division by zero")


def prove(prop, repo, scratch, tier, keep=None):
    t0 = time.time()
    try:
        x = translate(prop, repo)
    except Unbound as e:
        return {"status": "undecided", "why": "an annotation does not fit the code any more: %s" % e}
    except Unsupported as e:
        return {"status": "undecided", "why": "outside the translated subset: %s" % e}
    if x is None:
        return {"status": "undecided", "why": "no contracts for this property"}
    text, labels, info, tr, done = x
    path = os.path.join(scratch, prop.lower() + ".rs")
    open(path, "w").write(text)
    if keep:
        open(keep, "w").write(text)
    r = run_verus(path, 300 if tier == "quick" else 1200)
    base = {"functions": info, "prove_s": round(time.time() - t0, 2)}
    if r is None:
        return dict(base, status="undecided", why="the solver ran out of time")
    n = sum(1 for l in labels.values() if l.label)
    failed, und = [], []
    for e in r["errs"]:
        msg = e["message"]
        if msg.startswith("aborting due to"):
            continue
        where = []
        for s in e.get("spans", []):
            l = labels.get(s["line_start"])
            if l is not None and l.label and l.label not in where:
                where.append(l.label)
        if any(msg.startswith(f) or f in msg for f in FAIL):
            failed.append("%s: %s" % (msg, " / ".join(where) or "?"))
        else:
            und.append("%s: %s" % (msg[:300], " / ".join(where) or str([s["line_start"] for s in e.get("spans", [])])))
    if und:
        return dict(base, status="undecided", why="verifier: " + "; ".join(und[:5]), maybe_failed=failed)
    moved = moved_anchors(tr, prop)
    if failed and moved:
        # the annotations of these functions were written for other loops or statements: a failure may only mean
        # that they do not fit any more, so it decides nothing
        bad = [f for f in failed if not any(re.search(r"(: |/ )%s: " % re.escape(tr.contracts[k]["name"]), f) for k in moved)]
        if not bad:
            return dict(base, status="undecided", why="the annotations of %s do not fit the changed code: %s" % (
                ", ".join(sorted(moved)), "; ".join(failed[:5])), maybe_failed=failed)
        failed = bad
    if failed:
        return dict(base, status="failed", failed=failed, output="\n".join(e.get("rendered", "") for e in r["errs"])[:20000])
    if r["errors"] != 0 or r["rc"] != 0 or r["verified"] == 0:
        return dict(base, status="undecided", why="verifier: " + r["stderr"][-800:])
    # vacuity: with an impossible postcondition every function must fail
    vac = vacuity(text, labels, scratch, prop, done, tr, tier)
    if vac:
        return dict(base, status="undecided", why="vacuous: " + "; ".join(vac))
    obs = sum(i["obligations"] for i in info)
    terms = [t for i in info for t in i["unproved_termination"]]
    scan = scan_assumptions(text)
    ass = ["machine integers: signed arithmetic is mathematical (no overflow); unsigned 64-bit arithmetic does not exceed 2^64",
           "sizes converted to int fit an int",
           "library semantics (std, ICU) as stated in tools/prelude.rs, tools/icu.rs and tools/cxxcalls.py"]
    ass += [t for t, only in tr.trusted if only is None or prop in only]
    def reaches(a, b, seen=()):
        return any(x == b or x not in seen and reaches(x, b, seen + (x,)) for x in sorted(tr.deps.get(a, [])) if x not in seen)
    rec = sorted(k for k in done if reaches(k, k))
    if terms:
        ass.append("termination not proved: " + "; ".join(terms))
    if rec:
        ass.append("the depth of the recursion is finite (nested overflow encodings, sequence members, configuration objects): " + ", ".join(rec))
    return dict(base, status="proved", level="proof", obligations=obs, discharged=obs, verified_items=r["verified"],
                checker_cmd=" ".join(VERUS) + " <generated>.rs (Verus 0.2026.09.13, Z3)", trusted=scan, assumptions=ass,
                prove_s=round(time.time() - t0, 2))


def moved_anchors(tr, prop):
    """Contracts whose loops or hints are attached to code that is not the code they were written for."""
    base = tr.baseline.get("anchors", {})
    out = set()
    for k, a in tr.anchors.items():
        b = base.get(k)
        if b is None:
            continue
        hints = set(b["hints"].get(prop, []))
        if a["loops"] != b["loops"] or not hints <= set(a["hints"]):
            out.add(k)
    return out


def scan_assumptions(text):
    out = []
    for m in re.finditer(r"(?:pub\s+)?(?:broadcast\s+)?axiom fn (\w+)|\b(assume|admit)\s*\(|(?:uninterp spec fn (\w+))|external_body\]\s*\n\s*fn (\w+)", text):
        if m.group(1):
            out.append("axiom " + m.group(1))
        elif m.group(2):
            out.append("UNEXPECTED " + m.group(2))
        elif m.group(3):
            out.append("uninterpreted " + m.group(3))
        else:
            out.append("external " + m.group(4))
    return out


def vacuity(text, labels, scratch, prop, done, tr, tier):
    """Adds 'ensures false' to every function: each must then fail (its preconditions are satisfiable and
    its end is reached), and 'assert(false)' at the start of each."""
    lines = text.split("\n")
    want = []
    for i, l in enumerate(lines):
        m = re.match(r"fn (f_\w+)\(.*\) -> \(r: Ghost<", l)
        if m:
            # the body's opening brace
            j = i
            while lines[j] != "{":
                j += 1
            if lines[j + 1].strip().startswith("hide("):
                j += 1
            lines[j] = lines[j] + " proof { assert(false); } // vac " + m.group(1)
            want.append(j + 1)
    p = os.path.join(scratch, prop.lower() + "_vac.rs")
    open(p, "w").write("\n".join(lines))
    r = run_verus(p, 300)
    if r is None:
        return ["the vacuity run ran out of time"]
    hit = set()
    for e in r["errs"]:
        for s in e.get("spans", []):
            hit.add(s["line_start"])
    return ["%s has an unsatisfiable precondition" % lines[w - 1].split("// vac ")[1] for w in want if w not in hit]


def make_baseline(repo):
    contracts, _, _, _ = load_contracts()
    units = [extract(repo, os.path.basename(p)[:-4]) for p in sorted(glob.glob(repo + "/src/*.cpp"))]
    P = Prog(units, None)
    d = {}
    for k, c in contracts.items():
        f = P.fns.get(c["fn"], []) if "#lambda" not in k else [P.lambda_fn(k)]
        if "/" in k:
            f = [x for x in f if len(x["params"]) == int(k.rsplit("/", 1)[1])]
        if f:
            d[k] = decls_of(f[0])
    rec = {n: [[f["name"], f["type"]] for f in r["fields"]] for n, r in P.records.items()}
    anchors = {}
    for prop in sorted({q for c in contracts.values() for q in props_of(c)}):
        try:
            x = translate(prop, repo)
        except (Unbound, Unsupported) as e:
            print(prop, "not translated:", e)
            continue
        for k, a in x[3].anchors.items():
            o = anchors.setdefault(k, {"loops": a["loops"], "loopvars": a["loopvars"], "hints": {}})
            assert o["loops"] == a["loops"], k
            o["hints"][prop] = a["hints"]
    json.dump({"decls": d, "records": rec, "anchors": anchors}, open(os.path.join(HERE, "contracts", "baseline.json"), "w"), indent=0, sort_keys=True)


if __name__ == "__main__":
    import tempfile, shutil
    repo = os.environ.get("VERIF_REPO", "/repo")
    if sys.argv[1] == "--baseline":
        make_baseline(repo)
        sys.exit()
    d = tempfile.mkdtemp(prefix="prove_")
    try:
        r = prove(sys.argv[1], repo, d, "quick", keep="/tmp/%s.rs" % sys.argv[1].lower())
    finally:
        shutil.rmtree(d)
    for f in r.get("failed", []) + r.get("maybe_failed", []):
        print("FAILED", f)
    r.pop("output", None)
    print(json.dumps({k: v for k, v in r.items() if k not in ("failed", "maybe_failed", "functions", "assumptions", "trusted")}, indent=1))
    for i in r.get("functions", []):
        print("  ", i["function"], i["obligations"])
