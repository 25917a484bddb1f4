"""Put the contracts of a unit (specs/*.rs, lines starting with //@) on the functions the extractor
took from /repo/src, and write one Verus file.  Knows nothing about what the code should do."""
import re, os, json, difflib

HERE = os.path.dirname(os.path.abspath(__file__))
SPECS = os.path.join(HERE, "..", "specs")


class Lost(Exception):
    """a contract's anchor is not in the code any more (function gone, other shape)"""


def idsub(text, mapping):
    if not mapping:
        return text
    rx = re.compile(r"(?<![A-Za-z0-9_.$])(" + "|".join(re.escape(k) for k in sorted(mapping, key=len, reverse=True)) + r")(?![A-Za-z0-9_])")
    return rx.sub(lambda m: mapping[m.group(1)], text)


def read_spec(name):
    out = []
    for i, line in enumerate(open(os.path.join(SPECS, name)).read().split("\n")):
        m = re.match(r"//@include (\S+)", line)
        if m:
            out += read_spec(m.group(1))
        else:
            out.append(line)
    return out


def body_of(fn):
    b = fn["body"]
    i = b.index("{")
    return b[i:].rstrip()


def known_keys():
    every = [l for f in sorted(os.listdir(SPECS)) for l in open(os.path.join(SPECS, f)).read().split("\n")]
    return set(m.group(1) for l in every for m in [re.match(r"//@(?:impl)?fn (.+?) \(", l)] if m)


class Unit:
    def __init__(self, spec, ext, exempt=(), probe=False):
        self.ext = ext
        self.probe = probe      # vacuity: every function and loop body starts with assert(false)
        self.out = []
        self.regions = []       # (first line, last line, key)
        self.keys = []
        self.lost = []          # (key, reason)
        self.imported = []      # contracts proved in another unit
        self.assumed_fns = []   # functions emitted without their body
        self.exempt = set(exempt)   # keys whose body is replaced by an assumed contract (after loss)
        self.name = spec
        self.spec = spec
        self.build(read_spec(spec))

    opaque = []
    splits = frozenset()

    def emit(self, text):
        for n in self.opaque:
            text = re.sub(r"(?m)^pub open spec fn %s\b" % n, "#[verifier::opaque] pub open spec fn %s" % n, text)
        self.out += text.split("\n")

    def type_(self, key, derives):
        t = self.ext["types"].get(key)
        if not t:
            self.lost.append((key, "type not found"))
            return
        if derives:
            self.emit("#[derive(%s)]" % derives)
        x = t["extra"]
        if t["text"].lstrip().startswith("pub enum") and x.get("discriminants") and all(d[2] for d in x["discriminants"]):
            self.emit("#[repr(u8)]")
        self.emit("#[allow(inconsistent_fields)]")
        self.emit(t["text"].rstrip())
        names = []
        for variant, ty in (x.get("from") or []):
            short = key.split("::")[-1]
            self.emit("impl vstd::std_specs::convert::FromSpecImpl<%s> for %s { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: %s) -> Self { %s::%s(e) } }" % (ty, short, ty, short, variant))
            self.emit("impl From<%s> for %s { fn from(e: %s) -> (r: %s) { %s::%s(e) } }" % (ty, short, ty, short, short, variant))
            n = "axiom_q_%s_%s" % (short, variant)
            self.emit("/// `?` converts an error with From")
            self.emit("pub mod %s { use super::*; verus! { pub broadcast axiom fn axiom_question_mark_uses_from(e: %s, m: %s) requires #[trigger] vstd::std_specs::control_flow::spec_from::<%s, %s>(e, m) ensures m == %s::%s(e); } }" % (n, ty, short, short, ty, short, variant))
            names.append(n + "::axiom_question_mark_uses_from")
        if names:
            self.emit("broadcast use {%s};" % ", ".join(names))

    def disc(self, key):
        t = self.ext["types"].get(key)
        if not t:
            self.lost.append((key, "type not found"))
            return
        s = key.split("::")[-1]
        ds = t["extra"]["discriminants"]
        valid = " || ".join("v == %d" % d[1] for d in ds)
        arms_s = " ".join("%sif v == %d { %s::%s }" % ("else " if i else "", d[1], s, d[0]) for i, d in enumerate(ds))
        self.emit("pub open spec fn %s_of(v: u8) -> %s { %s else { arbitrary() } }" % (s, s, arms_s))
        self.emit("/// transmute of a valid discriminant (an invalid one is undefined behaviour: a precondition)")
        arms = " ".join("%d => %s::%s," % (d[1], s, d[0]) for d in ds)
        self.emit("pub fn %s_from_discriminant(v: u8) -> (r: %s) requires %s, ensures r == %s_of(v) { match v { %s _ => { assert(false); %s::%s } } }"
                  % (s, s, valid, s, arms, s, ds[0][0]))

    def fn(self, key, pnames, ret, blocks, is_impl):
        f = self.ext["fns"].get(key)
        if f is None:
            f = self.find_moved(key)
        if f is None:
            self.lost.append((key, "function not found"))
            f = None
            return
        if f["unsupported"]:
            self.lost.append((key, "unsupported: " + ", ".join(f["unsupported"])))
        if blocks.get("params"):
            # an async block has no parameters: the contract names what it captures
            f = dict(f)
            f["params"] = [{"name": a.split(":")[0].strip(), "mut": False, "ty": a.split(":", 1)[1].strip()} for a in blocks["params"]]
        actual = [p["name"] for p in f["params"]]
        if len(actual) != len(pnames):
            self.lost.append((key, "parameters changed"))
            return
        names = [p if a == "_" else a for a, p in zip(actual, pnames)]
        mapping = {p: a for p, a in zip(pnames, names) if p != a}
        # locals
        base = blocks.get("locals", [])
        if base:
            cur = f["locals"]
            if len(cur) == len(base):
                for b, c in zip(base, cur):
                    if b != c and b not in cur:
                        mapping[b] = c
            else:
                missing = [b for b in base if b not in cur]
                extra = [c for c in cur if c not in base]
                if missing and len(missing) == len(extra):
                    for b, c in zip(missing, extra):
                        mapping[b] = c
        loops = f["loops"]
        its = [k.split()[1] if k.startswith("for ") else None for k in loops]
        outs = [l for l in f["locals"] if l.startswith("out__")]
        if not outs:
            # a loop that pushes by itself
            outs = list(dict.fromkeys(x for x in re.findall(r"\b(\w+)\s*\.\s*push\s*\(", body_of(f)) if x in f["locals"] and not x.startswith("arms__")))

        def sub(t):
            t = re.sub(r"\$it(\d+)", lambda m: (its[int(m.group(1))] if int(m.group(1)) < len(its) and its[int(m.group(1))] else "missing_iter"), t)
            t = re.sub(r"\$out(\d+)", lambda m: (outs[int(m.group(1))] if int(m.group(1)) < len(outs) else "missing_out"), t)
            return idsub(t, mapping)

        want = sorted(int(k) for k in blocks.get("loops", {}))
        if "loops" in blocks and len(loops) != len(want) and key not in self.exempt:
            self.lost.append((key, "%d loops, invariants for %d" % (len(loops), len(want))))
        if not blocks.get("loops") and loops and key not in self.exempt and not blocks.get("external"):
            self.lost.append((key, "%d loops, invariants for 0" % len(loops)))
        ptxt = []
        if f["self"]:
            ptxt.append(f["self"])
        if f["world"]:
            ptxt.append("__w: &mut World")
        for n, p in zip(names, f["params"]):
            ptxt.append("%s%s: %s" % ("mut " if p["mut"] else "", n, p["ty"]))
        rt = ""
        if f["ret"] and ret:
            rt = " -> (%s: %s)" % (ret, f["ret"].replace("Self :: Error", "MqttError"))
        elif f["ret"]:
            rt = " -> " + f["ret"].replace("Self :: Error", "MqttError")
        name = f["name"]
        name = {"from": "vfrom", "try_from": "vtry_from"}.get(name, name) if is_impl else name
        body = body_of(f)
        loopspec = blocks.get("loops", {})

        def loop_repl(m):
            k = m.group(1)
            inv = sub("\n".join(loopspec.get(k, [])))
            st = sub("\n".join(blocks.get("loopstart", {}).get(k, [])))
            if self.probe:
                st = "proof { assert(false); /*probe*/ }\n" + st
            return "\n%s\n{\n%s\n" % (inv, st)

        body = re.sub(r"\{\s*__loop!\((\d+)\);", loop_repl, body)
        arms = f.get("selects") or []
        for pat, _ in blocks.get("got", []):
            if not any(re.search(pat, t) for a in arms for t in a):
                self.lost.append((key, "no select branch like " + pat))
        for pat, _ in blocks.get("await", []):
            if not re.search(pat, body):
                self.lost.append((key, "no place like " + pat))

        def select_repl(m):
            mine = arms[int(m.group(1))]

            def arm_no(mm):
                i = [i for i, t in enumerate(mine) if re.search(mm.group(1), t)]
                return "%d" % i[0] if i else "missing_branch"
            return re.sub(r"\$arm\{(.*?)\}", arm_no, sub("\n".join(blocks.get("select", []))))

        def got_repl(m):
            t = arms[int(m.group(1))][int(m.group(2))]
            return "\n".join(sub("\n".join(x)) for p, x in blocks.get("got", []) if re.search(p, t))
        body = re.sub(r"__select_got!\((\d+), (\d+)\);", got_repl, body)
        body = re.sub(r"__select!\((\d+)\);", select_repl, body)
        # nothing touches the world after a return
        body = re.sub(r"__returns!\(\);", "proof { assume(has_resolved(__w)); }", body)
        for pat, repl in blocks.get("rewrite", []):
            body = re.sub(pat, repl, body)
        body = self.preds(body)
        for where, pat, text in blocks.get("hint", []):
            text = sub("\n".join(text))
            rx = re.compile(pat)
            m = rx.search(body)
            if not m:
                continue      # a hint that finds no place is only a missing hint
            pos = m.end() if where == "after" else m.start()
            body = body[:pos] + "\n" + text + "\n" + body[pos:]
        for pat, text in blocks.get("await", []):
            # before every statement that has such a place
            text = "\n" + sub("\n".join(text)) + "\n"
            at = sorted(set(max(body.rfind(c, 0, m.start()) for c in ";{}") + 1 for m in re.finditer(pat, body)), reverse=True)
            for a in at:
                body = body[:a] + text + body[a:]
        start = sub("\n".join(blocks.get("start", [])))
        if self.probe:
            start = "proof { assert(false); /*probe*/ }\n" + start
        body = self.exits(body, sub("\n".join(blocks.get("finish", []))))
        if blocks.get("finish"):
            body = "{\n" + start + "\nlet result__ = " + body + ";\n" + sub("\n".join(blocks["finish"])) + "\nresult__\n}"
        else:
            body = "{\n" + start + body[1:]
        first = len(self.out) + 1
        header = "\n".join(blocks.get("header", []))
        contract = sub("\n".join(blocks.get("contract", [])))
        ext = key in self.exempt or bool(blocks.get("external"))
        attrs = "\n".join(blocks.get("attr", []))
        if ext:
            attrs += "\n#[verifier::external_body]"
            body = "{ unimplemented!() }"
            self.assumed_fns.append(key)
        cases = blocks.get("case", [])
        if cases and not ext:
            # the same body once per case; then the function itself, which dispatches on the case (verified)
            args = ([] if not f["world"] else ["__w"]) + [n for n in names]
            pre = ("self." if f["self"] else ("Self::" if f["self_ty"] else ""))
            disp = ""
            for ci, (cn, cc) in enumerate(cases):
                m = re.match(r"\s*requires", contract)
                cc = sub(cc)
                ctr = "    requires " + cc + ",\n" + (contract[m.end():] if m else contract)
                sig = "pub fn %s__%s(%s)%s" % (name, cn, ", ".join(ptxt), rt)
                first_c = len(self.out) + 1
                self.emit("// extracted: %s (%s:%d), case %s" % (key, f["file"], f["line"], cn))
                if f["self_ty"]:
                    self.emit("impl %s {" % f["self_ty"])
                self.emit(attrs + "\n" + sig + "\n" + ctr)
                self.emit(body)
                if f["self_ty"]:
                    self.emit("}")
                self.regions.append((first_c, len(self.out), key + "#" + cn))
                self.keys.append(key + "#" + cn)
                old = re.sub(r"old\((\w+)\)", r"\1", cc)
                disp += "let ghost_case = case_of(Ghost((%s) == true)); if ghost_case { return %s%s__%s(%s); }\n" % (old, pre, name, cn, ", ".join(args))
            body = "{\n" + disp + "unreached()\n}"
            attrs = ""
            first = len(self.out) + 1
        splits = blocks.get("split", [])
        if splits and not ext:
            # the same body once per case of what happens at the $split places, and once for "none of these": together
            # every path is covered; $rest places are covered by the last copy alone
            none = " && ".join("!(%s)" % sub(c) for _, c in splits)
            for cn, cc in splits + [("rest", none)]:
                b = body.replace("$split", "proof { assume(%s); }" % sub(cc)).replace("$rest", "" if cn == "rest" else "proof { assume(false); }")
                sig = "pub fn %s__%s(%s)%s" % (name, cn, ", ".join(ptxt), rt)
                first_c = len(self.out) + 1
                self.emit("// extracted: %s (%s:%d), where %s" % (key, f["file"], f["line"], cn))
                if f["self_ty"]:
                    self.emit("impl %s {" % f["self_ty"])
                self.emit("#[verifier::spinoff_prover]\n" + attrs + "\n" + sig + "\n" + contract)
                self.emit(b)
                if f["self_ty"]:
                    self.emit("}")
                self.regions.append((first_c, len(self.out), key + "#" + cn))
                self.keys.append(key + "#" + cn)
            self.splits = self.splits | {key}
            body = "{ unimplemented!() }"
            attrs += "\n#[verifier::external_body]"
            first = len(self.out) + 1
        sig = "%s fn %s(%s)%s" % ("" if is_impl else "pub", name, ", ".join(ptxt), rt)
        self.emit("// extracted: %s (%s:%d)" % (key, f["file"], f["line"]))
        if is_impl:
            self.emit(header)
            self.emit(attrs + "\n" + sig + "\n" + contract)
            self.emit(body)
            self.emit("}")
        elif f["self_ty"]:
            self.emit("impl %s {" % f["self_ty"])
            self.emit(attrs + "\n" + sig + "\n" + contract)
            self.emit(body)
            self.emit("}")
        else:
            self.emit(attrs + "\n" + sig + "\n" + contract)
            self.emit(body)
        self.regions.append((first, len(self.out), key))
        if not ext and not splits:
            self.keys.append(key)

    def preds(self, body):
        """__pred!(|pat|, expr): a closure that has its own body as postcondition"""
        out = ""
        i = 0
        while True:
            j = body.find("__pred!(", i)
            if j < 0:
                return out + body[i:]
            out += body[i:j]
            k = j + len("__pred!(")
            depth, m = 1, k
            while depth:
                c = body[m]
                depth += c in "([{"
                depth -= c in ")]}"
                m += 1
            inner = body[k:m - 1]
            pat, ex = inner.split(",", 1)
            out += "|%s| -> (pr: bool) ensures pr == (%s) { %s }" % (pat.strip() + self.predty, ex.strip(), ex.strip())
            i = m

    def exits(self, body, finish):
        """return __fin!(v): what is proved at the end of the body is proved at every return"""
        while True:
            j = body.find("return __fin!(")
            if j < 0:
                return body
            k = j + len("return __fin!(")
            depth, m = 1, k
            while depth:
                c = body[m]
                depth += c in "([{"
                depth -= c in ")]}"
                m += 1
            v = body[k:m - 1]
            if finish.strip():
                v = "{ let result__ = %s;\n%s\nreturn result__ }" % (v, finish)
            else:
                v = "return" if v.strip() == "()" else "return " + v
            body = body[:j] + v + body[m:]

    predty = ""

    def find_moved(self, key):
        """a private function that only moved to another module keeps its contract"""
        short = key.split("::")[-1]
        c = [k for k in self.ext["fns"] if k.split("::")[-1] == short and k not in self.known]
        if len(c) == 1:
            return self.ext["fns"][c[0]]
        return None

    def build(self, lines):
        self.known = known_keys()
        i = 0
        self.emit("#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, unused_assignments, non_snake_case, unreachable_code)]")
        self.emit("// a loop knows what holds before it of the variables it does not change\n#![verifier::loop_isolation(false)]\n#![verifier::allow_complex_invariants]")
        self.emit("use vstd::prelude::*;\nuse vstd::utf8::*;\nuse vstd::string::*;\nuse vstd::slice::*;\nuse vstd::std_specs::cmp::*;\nuse core::cmp::Ordering;\nverus! {\nglobal size_of usize == 8;")
        n = len(lines)
        while i < n:
            l = lines[i]
            m = re.match(r"//@(\w+) ?(.*)", l)
            if not m:
                self.emit(l)
                i += 1
                continue
            d, rest = m.group(1), m.group(2).strip()
            if d == "unit":
                self.name = rest
            elif d == "opaque":
                # (only in this unit) specifications that the proofs reveal where they need them
                self.opaque = rest.split()
            elif d == "type":
                mm = re.match(r"(\S+)(?: derive\((.*)\))?$", rest)
                self.type_(mm.group(1), mm.group(2))
            elif d == "const":
                c = self.ext["consts"].get(rest)
                if c:
                    self.emit(c["text"])
                else:
                    # a constant that is gone is no longer used
                    pass
            elif d == "disc":
                self.disc(rest)
            elif d in ("fn", "implfn"):
                mm = re.match(r"(.+?) \((.*?)\)(?: -> (\w+))?$", rest)
                key, ps, ret = mm.group(1), [p.strip() for p in mm.group(2).split(",") if p.strip()], mm.group(3)
                blocks = {"contract": [], "loops": {}, "loopstart": {}, "arm": {}, "hint": []}
                cur = blocks["contract"]
                if d == "implfn":
                    blocks["header"] = []
                    cur = blocks["header"]
                i += 1
                hadloops = False
                while not lines[i].startswith("//@end"):
                    l2 = lines[i]
                    m2 = re.match(r"//@(\w+) ?(.*)", l2)
                    if m2:
                        dd, rr = m2.group(1), m2.group(2).strip()
                        if dd == "body":
                            cur = blocks["contract"]
                        elif dd == "start":
                            cur = blocks.setdefault("start", [])
                        elif dd == "finish":
                            cur = blocks.setdefault("finish", [])
                        elif dd == "loop":
                            cur = blocks["loops"].setdefault(rr, [])
                        elif dd == "loopstart":
                            cur = blocks["loopstart"].setdefault(rr, [])
                        elif dd in ("got", "await"):
                            cur = []
                            blocks.setdefault(dd, []).append((rr, cur))
                        elif dd == "select":
                            cur = blocks.setdefault("select", [])
                        elif dd == "params":
                            blocks["params"] = [x for x in rr.split(";") if x.strip()]
                        elif dd == "locals":
                            blocks["locals"] = rr.split()
                        elif dd == "attr":
                            blocks.setdefault("attr", []).append(rr)
                        elif dd == "case":
                            cn, cc = rr.split(" ", 1)
                            blocks.setdefault("case", []).append((cn, cc))
                        elif dd == "split":
                            cn, cc = rr.split(" ", 1)
                            blocks.setdefault("split", []).append((cn, cc))
                        elif dd == "external":
                            blocks["external"] = True
                        elif dd in ("after", "before"):
                            cur = []
                            blocks["hint"].append((dd, rr, cur))
                        elif dd == "rewrite":
                            a, b = rr.split(" ==> ")
                            blocks.setdefault("rewrite", []).append((a, b))
                        else:
                            raise Exception("bad directive " + l2)
                    else:
                        cur.append(l2)
                    i += 1
                if not blocks["loops"]:
                    del blocks["loops"]
                self.fn(key, ps, ret, blocks, d == "implfn")
            elif d == "predty":
                self.predty = rest
            elif d == "use":
                # a contract another unit proves: here it is assumed at the call
                src, key = rest.split(" ", 1)
                ls = read_spec(src)
                at = [j for j, x in enumerate(ls) if re.match(r"//@fn " + re.escape(key) + r" \(", x)]
                if not at:
                    raise Exception("no contract for %s in %s" % (key, src))
                j = at[0]
                blk = [ls[j], "//@external"]
                j += 1
                while not ls[j].startswith("//@"):
                    blk.append(ls[j])
                    j += 1
                lines[i:i + 1] = blk + ["//@end"]
                n = len(lines)
                self.imported.append((src, key))
                continue
            else:
                raise Exception("bad directive " + l)
            i += 1
        self.constants()
        self.emit("/// must fail: the axioms do not contradict each other and failures are reported\nproof fn canary__()\n    ensures false,\n{ /*canary__*/ }")
        self.emit("} // verus!\nfn main() {}")

    def constants(self):
        """the constants that the code uses and no directive brings in"""
        while True:
            text = "\n".join(self.out)
            words = set(re.findall(r"\b[A-Z][A-Z0-9_]*\b", text))
            new = []
            for k, c in sorted(self.ext["consts"].items()):
                name = k.split("::")[-1]
                if name in words and not re.search(r"\b(const|static) +%s\b" % name, text) \
                        and sum(1 for x in self.ext["consts"] if x.split("::")[-1] == name) == 1 \
                        and re.match(r"pub const \w+ : ([ui](8|16|32|64|128|size)|bool) =", c["text"]):
                    new.append(c["text"])
            if not new:
                return
            for t in new:
                self.emit(t)

    def text(self):
        return "\n".join(self.out) + "\n"

    def locate(self, line):
        for a, b, k in self.regions:
            if a <= line <= b:
                return k
        return None


if __name__ == "__main__":
    import sys
    ext = json.load(open(sys.argv[2]))
    u = Unit(sys.argv[1], ext)
    open(sys.argv[3], "w").write(u.text())
    for k, r in u.lost:
        print("LOST", k, r)
