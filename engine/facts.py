"""Loading of the compiler facts written by /verif/driver, and their pretty printing."""
import json
import os
import re
import sys


def strip_generics(p):
    """`core::option::Option::<T>::map` -> `core::option::Option::map` (turbofish only)."""
    out = []
    i = 0
    while i < len(p):
        if p.startswith("::<", i):
            d = 0
            j = i + 2
            while j < len(p):
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
        else:
            out.append(p[i])
            i += 1
    return "".join(out)


SCHEMA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "schema.json")


def shape(data):
    """What there is in a crate under which name: types with their fields, and functions with their types."""
    tys = data["tys"]

    def ty(i):
        return tys[i]["s"] if i is not None else ""

    pre = data["crate"] + "#"
    adts = {strip_generics(v["d"]): [[x["n"], [[n, ty(t)] for n, t in x["f"]]] for x in v["v"]] for k, v in data["adts"].items() if k.startswith(pre)}
    fns = {}
    for b in data["bodies"]:
        if b["kind"] in ("fn", "assoc") and "{" not in b["path"] and not b["path"].startswith("<"):
            fns[strip_generics(b["path"])] = [ty(l[0]) for l in b["locals"][: b["argc"] + 1]]
    return {"adts": adts, "fns": fns}


def pairs(missing, extra, key):
    """Which of the extra names stands for which of the missing ones: those alone with their key."""
    out = {}
    for m in missing:
        ks = [e for e in extra if key(e, True) == key(m, False)]
        if len(ks) == 1 and sum(key(x, False) == key(m, False) for x in missing) == 1:
            out[ks[0]] = m
    return out


def renamed(text, load):
    """The facts of a crate in which what was merely renamed since the rules were written has the name the rules use."""
    data = load(text)
    try:
        with open(SCHEMA) as f:
            old = json.load(f).get(data["crate"])
    except FileNotFoundError:
        old = None
    if old is None:
        return data
    for part in ("adts", "fns"):
        for _ in range(3):
            new = shape(data)
            missing, extra = [[p for p in a[part] if p not in b[part]] for a, b in ((old, new), (new, old))]
            if not missing or not extra:
                break

            def key(p, is_new):
                m, n = p.rsplit("::", 1) if "::" in p else ("", p)
                x = (new if is_new else old)[part][p]
                if part == "adts":
                    x = [[v if v != n else "Self", fs] for v, fs in x]
                return m, json.dumps(x).replace(p, "Self")

            sub = pairs(missing, extra, key)
            if not sub:
                break
            for e, m in sub.items():
                text = re.sub(r"(?<![\w:])%s(?!\w)" % re.escape(e), m, text) if part == "adts" else text
                g = r"(?:::<[^\"]*?>)?"
                if part == "fns":
                    i, j = e.rsplit("::", 1)
                    text = re.sub(r"(?<![\w:])(%s%s)::%s(?!\w)" % (re.escape(i), g, re.escape(j)), lambda x: x.group(1) + "::" + m.rsplit("::", 1)[1], text)
                n, o = e.rsplit("::", 1)[-1], m.rsplit("::", 1)[-1]
                text = re.sub(r'("name":|"n":)"%s"' % re.escape(n), lambda x: x.group(1) + '"%s"' % o, text) if sum(p.endswith("::" + n) for p in new[part]) == 1 else text
            data = load(text)
    new = shape(data)
    fields = {}
    for p, vs in new["adts"].items():
        for (vn, fs), (on, ofs) in zip(vs, old["adts"].get(p, [])):
            if vn != on:
                continue
            missing = [x for x in ofs if x[0] not in [n for n, _ in fs]]
            extra = [x for x in fs if x[0] not in [n for n, _ in ofs]]
            if len(missing) == len(extra) and [t for _, t in missing] == [t for _, t in extra]:
                hit = {e[0]: m[0] for e, m in zip(extra, missing)}
            else:
                ex, mi = {n: t for n, t in extra}, {n: t for n, t in missing}
                hit = pairs(mi, ex, lambda n, is_new: (ex if is_new else mi)[n])
            fields.update({(p, e): m for e, m in hit.items()})
    if fields:
        for k, v in data["adts"].items():
            for x in v["v"]:
                for f in x["f"]:
                    f[0] = fields.get((strip_generics(v["d"]), f[0]), f[0])

        def walk(x):
            if isinstance(x, list):
                if len(x) == 5 and x[0] == "f":
                    x[2] = fields.get((strip_generics(x[4]), x[2]), x[2])
                    return
                for y in x:
                    if y.__class__ in (list, dict):
                        walk(y)
            else:
                for y in x.values():
                    if y.__class__ in (list, dict):
                        walk(y)

        walk(data["bodies"])
    return data


class Crate:
    def __init__(self, data):
        self.name = data["crate"]
        self.tys = data["tys"]
        self.spans = data["spans"]
        self.adts = data["adts"]
        self.impls = data["impls"]
        self.raw_bodies = data["bodies"]


class Body:
    __slots__ = ("crate", "id", "path", "kind", "raw", "locals", "blocks", "argc", "name", "parent", "root", "spath", "upv", "_live")

    def __init__(self, crate, raw):
        self.crate = crate
        self.raw = raw
        self.id = raw["id"]
        self.path = raw["path"]
        self.spath = strip_generics(raw["path"])
        self.kind = raw["kind"]
        self.locals = raw["locals"]
        self.blocks = raw["blocks"]
        self.argc = raw["argc"]
        self.name = raw.get("name")
        self.parent = raw["parent"]
        self.root = raw["root"]
        self.upv = {int(k): v for k, v in raw["upv"].items()}
        self._live = None

    def ty(self, i):
        return self.crate.tys[i]

    def span(self, i):
        return self.crate.spans[i]

    def loc(self, i):
        f, l, _ = self.crate.spans[i]
        f = f.split("/repo/")[-1]
        return "%s:%d" % (f, l)

    @property
    def where(self):
        return self.loc(self.raw["span"])

    @property
    def file(self):
        return self.crate.spans[self.raw["span"]][0].split("/repo/")[-1]


class Program:
    def __init__(self, directory, names=("paladin", "paladin_opkind_derive", "probe")):
        self.crates = {}
        self.bodies = {}
        self.adts = {}
        self.impls = []
        self.children = {}
        for n in names:
            p = os.path.join(directory, n + ".json")
            with open(p) as f:
                c = Crate(renamed(f.read(), json.loads))
            self.crates[n] = c
            for b in c.raw_bodies:
                body = Body(c, b)
                self.bodies[body.id] = body
            for k, v in c.adts.items():
                self.adts.setdefault(k, v)
                if k.startswith(n + "#"):
                    self.adts[k] = v
            for i in c.impls:
                i["crate"] = c
                self.impls.append(i)
        for b in self.bodies.values():
            self.children.setdefault(b.parent, []).append(b)
        self.adt_by_path = {strip_generics(v["d"]): v for v in self.adts.values()}
        self.adt_ids = {}
        for k, v in self.adts.items():
            self.adt_ids.setdefault(strip_generics(v["d"]), []).append(k)
        # (trait path, self adt id) -> {method: body id}
        self.trait_impls = {}
        for i in self.impls:
            if "trait" not in i:
                continue
            st = i["crate"].tys[i["self"]]
            head = st.get("id") if st["k"] == "adt" else st["k"] + ":" + st["s"]
            m = {it["n"]: it["id"] for it in i["items"] if it["id"] in self.bodies}
            self.trait_impls.setdefault((strip_generics(i["trait"]), head), []).append((m, i))

    def impl_method(self, trait, adt_path, name):
        """The body of a trait's method for a type, or None."""
        for h in self.adt_ids.get(adt_path, ()):
            for m, i in self.trait_impls.get((trait, h), ()):
                if name in m:
                    return self.bodies[m[name]]
        return None

    def find(self, pred):
        return [b for b in self.bodies.values() if pred(b)]

    def by_path(self, sp):
        r = [b for b in self.bodies.values() if b.spath == sp]
        return r[0] if r else None

    # The impls of a trait, as (impl, self type, {method: body}).
    def impls_of(self, trait):
        out = []
        for (t, head), l in self.trait_impls.items():
            if t == trait:
                for m, i in l:
                    out.append((i, i["crate"].tys[i["self"]], {k: self.bodies[v] for k, v in m.items()}))
        return out


def fmt_place(p):
    s = "_%d" % p["l"]
    for e in p.get("p", ()):
        if e[0] == "d":
            s = "(*%s)" % s
        elif e[0] == "f":
            s += "." + (e[2] or str(e[1]))
        elif e[0] == "v":
            s = "(%s as %s)" % (s, e[2] or e[1])
        elif e[0] == "i":
            s += "[_%d]" % e[1]
        else:
            s += "[%s]" % e
    return s


def fmt_const(k):
    if "fn" in k:
        r = k["fn"].get("r")
        return "fn " + k["fn"]["path"] + ("" if not r or r["path"] == k["fn"]["path"] else " => " + r["k"] + " " + r["path"])
    for x in ("i", "str", "static", "o", "z", "pc", "fnptr"):
        if x in k:
            d = (k.get("def") or "") + "=" if k.get("def") else ""
            return "%sconst %s %r" % (d, x, k[x])
    return str(k)


def fmt_op(o):
    if "c" in o:
        return fmt_place(o["c"])
    if "m" in o:
        return "move " + fmt_place(o["m"])
    if "k" in o:
        return fmt_const(o["k"])
    return "?"


def fmt_rv(v, b):
    r = v["r"]
    if r == "use":
        return fmt_op(v["o"])
    if r in ("ref", "reborrow"):
        return "&%s%s" % ("mut " if v["mut"] else "", fmt_place(v["p"])) + (" fake" if v.get("fake") else "")
    if r == "cast":
        return "%s as %s (%s)" % (fmt_op(v["o"]), b.ty(v["to"])["s"][:60], v["k"])
    if r == "bin":
        return "%s(%s, %s)" % (v["op"], fmt_op(v["a"]), fmt_op(v["b"]))
    if r == "un":
        return "%s(%s)" % (v["op"], fmt_op(v["a"]))
    if r == "discr":
        return "discr(%s)" % fmt_place(v["p"])
    if r == "agg":
        return "%s%s(%s)" % (v["k"], ":" + v.get("d", v.get("id", "")) + "::" + str(v.get("vn", "")), ", ".join(fmt_op(o) for o in v["f"]))
    return str(v)


def dump(b, out=sys.stdout):
    print("== %s %s [%s] argc=%d %s" % (b.kind, b.path, b.id, b.argc, b.where), file=out)
    print("   upv", b.upv, file=out)
    for i, l in enumerate(b.locals):
        print("   _%d: %s %s" % (i, b.ty(l[0])["s"][:150], l[1] if len(l) > 1 else ""), file=out)
    for i, bl in enumerate(b.blocks):
        if bl["cl"]:
            continue
        print(" bb%d:" % i, file=out)
        for s in bl["s"]:
            if "dead" in s:
                print("    dead _%d" % s["dead"], file=out)
            elif "live" in s:
                pass
            elif "sd" in s:
                print("    setdiscr", s, file=out)
            else:
                print("    %s = %s" % (fmt_place(s["p"]), fmt_rv(s["v"], b)), file=out)
        t = bl["t"]
        k = t["k"]
        m = b.span(t["s"])[2]
        sfx = "   // %s %s" % (b.loc(t["s"]), ",".join(m) if m else "")
        if k == "call":
            print("    %s = %s(%s) -> %s%s" % (fmt_place(t["d"]), fmt_op(t["f"]), ", ".join(fmt_op(a) for a in t["a"]), t.get("to"), sfx), file=out)
        elif k == "switch":
            print("    switch %s %s else %s%s" % (fmt_op(t["o"]), t["v"], t["else"], sfx), file=out)
        elif k == "drop":
            print("    drop %s -> %s needs=%s%s" % (fmt_place(t["p"]), t["to"], t["needs"], sfx), file=out)
        elif k == "yield":
            print("    yield %s -> %s ra=%s%s" % (fmt_op(t["o"]), t["to"], fmt_place(t["ra"]), sfx), file=out)
        elif k == "assert":
            print("    assert %s==%s %s -> %s" % (fmt_op(t["o"]), t["exp"], t["msg"][:40], t["to"]), file=out)
        else:
            print("    %s %s" % (k, t.get("to", "")), file=out)


if __name__ == "__main__":
    pr = Program(sys.argv[1])
    for b in pr.bodies.values():
        if len(sys.argv) < 3 or re.search(sys.argv[2], b.path):
            if len(sys.argv) > 3:
                print(b.kind, b.path, b.id)
            else:
                dump(b)
