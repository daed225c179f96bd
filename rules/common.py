"""What several rules share."""
import ast
from lib import *

ATOMIC = "core::sync::atomic::Atomic"
PUBLISH = "paladin::queue::publisher::Publisher::publish"
CLOSE = "paladin::queue::publisher::Publisher::close"
ACK = "paladin::acker::Acker::ack"
NACK = "paladin::acker::Acker::nack"
POLL_NEXT = "futures_core::stream::Stream::poll_next"
SEQCST = "SeqCst"


def atomic(ev):
    """(method, the field the atomic is) of a call on an atomic."""
    if ev.kind == "call" and ev.path.startswith(ATOMIC + "::") and ev.args:
        return ev.path[len(ATOMIC) + 2 :], strip_proj(ev.args[0])[1][-1:]
    return None, ()


def order_of(t):
    return t.a[2] if t.tag == "agg" and t.a[0].endswith("atomic::Ordering") else None


def field_users(prog, names, within):
    """The functions that mention one of the fields by name, in bodies that satisfy `within`."""
    out = {}

    def place(p, b, span):
        for e in p.get("p", ()):
            if e[0] == "f" and len(e) > 2 and e[2] in names:
                out.setdefault(b.id, (b, b.loc(span)))

    def op(o, b, span):
        if o is None:
            return
        for k in ("c", "m"):
            if k in o:
                place(o[k], b, span)

    for b in prog.bodies.values():
        if not within(b):
            continue
        for bl in b.blocks:
            if bl["cl"]:
                continue
            for s in bl["s"]:
                if "p" in s and "v" in s:
                    sp = s.get("s", b.raw["span"])
                    place(s["p"], b, sp)
                    v = s["v"]
                    for k in ("p",):
                        if k in v:
                            place(v[k], b, sp)
                    for k in ("o", "a", "b"):
                        if isinstance(v.get(k), dict):
                            op(v[k], b, sp)
                    if isinstance(v.get("f"), list):
                        for o in v["f"]:
                            op(o, b, sp)
            t = bl["t"]
            if t["k"] == "call":
                for a in t["a"]:
                    op(a, b, t["s"])
                place(t["d"], b, t["s"])
            elif t["k"] in ("switch", "assert"):
                op(t.get("o"), b, t["s"])
            elif t["k"] == "drop":
                place(t["p"], b, t["s"])
    return out


def err_paths(p):
    return p.kind == "ret" and result_kind(p) == "Err"


def ok_paths(p):
    return p.kind == "ret" and result_kind(p) == "Ok"


COPIES = ("::from", "::into", "::to_owned", "::to_string", "::clone", "::borrow", "::as_ref", "::as_str", "::deref", "::into_owned", "::into_boxed_str", "::into_string")


def same_text(t, text):
    """`t` is all of `text`, unchanged, perhaps in another type."""
    while t is not text:
        if t.tag == "ret" and t.a[2].endswith(COPIES) and len(t.a[3]) == 1:
            t = t.a[3][0]
        elif t.tag == "pure" and t.a[0].split(" ")[0].endswith(COPIES) and len(t.a[1]) == 1:
            t = t.a[1][0]
        else:
            return False
    return True


# what makes less of a text or an error than there was
LOSSY = re.compile(r"::(trim\w*|r?split\w*|lines|replace\w*|truncate|chars|char_indices|to_(ascii_)?(lower|upper)case|strip_\w+|get|index|nth|take|root_cause|retain|drain|pop|remove)\Z")


def short_head(t):
    return t.a[2] if t.tag == "ret" else t.a[0] if t.tag == "pure" else ""


def args_of(t):
    return t.a[3] if t.tag == "ret" else t.a[1] if t.tag == "pure" else ()


def cut_short(t):
    """A text that is formatted with a precision, which cuts off what is longer."""
    if not short_head(t).endswith("fmt::Arguments::new"):
        return False
    b = next((x.a[0][6:] for x in subterms(args_of(t)[0]) if x.tag == "pure" and x.a[0].startswith('const b"')), None)
    if b is None:
        return False
    b, i = ast.literal_eval(b), 0
    while i < len(b) and b[i]:
        n, i = b[i], i + 1
        if n < 0x80:
            i += n
        elif n == 0x80:
            i += 2 + int.from_bytes(b[i : i + 2], "little")
        else:
            if n & 4:
                return True
            i += 4 * (n & 1) + (n & 2) + (n & 8) // 4
    return False


def whole_text(t, src):
    """`t` is made of all of `src`."""
    return any_sub(t, lambda s: s is src) and not any_sub(t, lambda s: (LOSSY.search(short_head(s)) or cut_short(s)) and any_sub(s, lambda x: x is src))


# what makes less of bytes
CUTS = re.compile(r"::(trim\w*|r?split\w*|truncate|slice\w*|advance|get|nth|take|skip|step_by|chunks?\w*|windows|retain|drain|pop|remove|to_(ascii_)?(lower|upper)case|replace\w*|resize|clear|rev|reverse|sort\w*|dedup\w*)\Z")


def edited(s):
    """A value that has been changed in place by code outside of the crate."""
    return s.tag == "f" and str(s.a[1]).startswith("$mut") and s.a[0].tag == "ret"


def intact(t, src):
    """`t` is made of all of `src` (a term, or what tells one), which has not been changed in between."""
    is_src = src if callable(src) else lambda x: x is src

    def spoils(s):
        if is_src(s):
            return False
        if edited(s):
            # a buffer into which it is written still has it; one that has it already loses it
            args = args_of(s.a[0])
            i = int(s.a[1][4:])
            return i < len(args) and any_sub(args[i], is_src)
        return bool(CUTS.search(short_head(s))) and bool(args_of(s)) and any_sub(args_of(s)[0], is_src)

    return any_sub(t, is_src) and not any_sub(t, spoils)


# ways in which a value is kept from being dropped
FORGETS = re.compile(r"(^|::)(mem::forget|forget_unsized|leak|ManuallyDrop(::<[^>]*>)?::new|into_raw|into_raw_parts)\Z")


def unleaked(c, rule, where=("paladin::", "<paladin::")):
    n = 0
    for x in c.prog.bodies.values():
        if not x.spath.startswith(where):
            continue
        n += 1
        for bl in x.blocks:
            t = bl["t"]
            if t["k"] == "call" and not bl["cl"]:
                f = (t["f"].get("k") or {}).get("fn") if isinstance(t.get("f"), dict) else None
                if f and FORGETS.search(strip_generics(f["path"])):
                    c.ob(rule, x.spath, False, "something is kept from being dropped", x.loc(t["s"]))
    c.ob(rule, "all functions of the library", n > (100 if where[0] == "paladin::" else 3), "the functions of the library were not found")


# ----------------------------------------------------------------------------- copies

# what is a thing of its own once it is copied, unless it is behind a shared pointer
OWN = re.compile(r"\b(?:DashMap|DashSet|RefCell|Cell|Mutex|RwLock)<|\bAtomic\w*\b")
SHARED = re.compile(r"\b(?:Arc|Rc|Weak)<|&")


def unshared(t):
    """The state in a type that a copy of the value does not share."""
    m, s = OWN.search(t), SHARED.search(t)
    return m and (s is None or m.start() < s.start())


def is_copy(val, t):
    """`val` is `t`, or put together again of all the parts of `t`."""
    if val is t or val.tag == "agg" and "PhantomData" in val.a[0]:
        return True
    if val.tag == "agg" and t.tag == "agg" and val.a[:3] == t.a[:3]:
        return len(val.a[3]) == len(t.a[3]) and all(is_copy(x, y) for x, y in zip(val.a[3], t.a[3]))
    return False


def clones(c, rule, *where, shares=True):
    """A clone of a type of the library, in `where`, is the same: it has the same parts and shares what the original shares."""
    n = 0
    for i in c.prog.impls:
        if strip_generics(i.get("trait", "")) != "core::clone::Clone":
            continue
        b = next((c.prog.bodies[x["id"]] for x in i["items"] if x["n"] == "clone" and x["id"] in c.prog.bodies), None)
        m = re.match(r"<((?:\w+::)*\w+)", b.spath) if b else None
        if not m or not m.group(1).startswith(where) or m.group(1) not in c.prog.adt_ids:
            continue
        n += 1
        adt = m.group(1)
        k = next((k for k in c.prog.adt_ids[adt] if k.split("#")[0] in c.prog.crates), None)
        if k is None:
            continue
        tys = c.prog.crates[k.split("#")[0]].tys
        vs = c.prog.adts[k]["v"]
        if i["derived"]:
            own = [f for v in vs for f, t in v["f"] if shares and t is not None and unshared(tys[t]["s"])]
            c.ob(rule, b.spath, not own, "a clone has a state of its own" + (": " + own[0] if own else ""), b.where)
            continue
        me = c.params(b)[0]
        ps = c.paths(b, Want(("none", r"\A\Z", "none")))

        def same(p):
            v = p.resolve(p.val)
            if v is me:
                return None
            if v.tag != "agg":
                return "a clone is not made of the original"
            many = len(vs) > 1
            var = v.a[2] if many else None
            if many and p.variant(me) != var:
                return "a clone is of another kind"
            fs = dict(next(x["f"] for x in vs if not many or x["n"] == var))
            for (f, ty), x in zip(fs.items(), v.a[3]):
                o = mk("vf", me, var, f) if many else mk("f", me, f)
                if not is_copy(p.resolve(x), o):
                    return "a clone does not keep " + f

        c.forall(rule, b, ps, same, lambda p: p.kind in ("ret", "panic"))
        own = [f for v in vs for f, t in v["f"] if shares and t is not None and unshared(tys[t]["s"])]
        c.ob(rule, b.spath, not own, "a clone has a state of its own", b.where)
    c.ob(rule, "the types of " + ", ".join(where), n, "no type was found")


# ----------------------------------------------------------------------------- who calls what


def calls(c):
    """{the id of a function: [(the body that calls it, where)]}, trait methods under the id of the method and of what it resolves to."""
    if not hasattr(c.prog, "_calls"):
        r = {}
        for x in c.prog.bodies.values():
            for bl in x.blocks:
                t = bl["t"]
                if t["k"] == "call" and not bl["cl"]:
                    f = (t["f"].get("k") or {}).get("fn") if isinstance(t.get("f"), dict) else None
                    if f:
                        for k in {f.get("id"), (f.get("r") or {}).get("id"), strip_generics(f["path"])}:
                            r.setdefault(k, []).append((x, t["s"]))
        c.prog._calls = r
    return c.prog._calls


def owner(x):
    return re.sub(r"(::\{closure#\d+\})+\Z", "", x.spath)


def only_from(c, rule, path, allowed, msg):
    """The function `path` is called only in functions that are `allowed`, or in helpers that only those use."""
    byname = {}
    for x in c.prog.bodies.values():
        byname.setdefault(owner(x), x if owner(x) == x.spath else byname.get(owner(x)))
    n, bad, seen = 0, [], set()
    work = [(owner(x), x, s) for x, s in calls(c).get(path, ())]
    while work:
        name, x, s = work.pop()
        n += 1
        if name in seen or re.search(allowed, name):
            continue
        seen.add(name)
        b = byname.get(name)
        # the way a derived or generated function is reached is not followed
        if name.startswith("<") or b is None:
            bad.append((name, x, s))
            continue
        work += [(owner(y), x, s) for y, _ in calls(c).get(b.id, ())]
    for name, x, s in bad:
        c.ob(rule, name, False, msg, x.loc(s))
    if not bad:
        c.ob(rule, path, n, "the function is not used")
