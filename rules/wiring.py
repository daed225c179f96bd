"""What has to agree: C21 (identity of operations), C22 (serialization)."""
from common import *
from operation import FROM, TO, USERS, RETRIES, USER, named, feasible, strip, formats
from runtime import EXECUTE, generated, names_its_own

SER = "paladin::serializer::Serializer"
CODECS = {"Postcard": "postcard", "Cbor": "ciborium"}

# --------------------------------------------------------------------------- C21


def c21(c):
    # the macro: every expansion takes the next number, and none gets a number another one has
    b = c.fn("paladin_opkind_derive::operation_derive")
    ps = c.paths(b, (("call", r"\Acore::sync::atomic::Atomic::", "count"), ("call", r"ToTokens::to_tokens\Z", "token"), ("call", r"to_compile_error\Z|to_compile_error", "refuse")), count=200)
    counters = {id(e.args[0]): e.args[0] for p in ps for e in p.all("count")}
    c.ob("operations are counted by one counter", b.spath, len(counters) == 1, "operations are counted by %d counters" % len(counters), b.where)

    def numbered(p):
        k = p.all("count")
        if len(k) != 1:
            return "an operation takes %d numbers" % len(k)
        e = k[0]
        m = e.ret.a[2].rsplit("::", 1)[1] if e.ret.tag == "ret" else "?"
        if m != "fetch_add" or p.fact_int(e.args[1]) != 1:
            return ("operations are not numbered one after the other", e.loc)
        used = [t for t in p.all("token") if any_sub(t.args[0], lambda s: s is e.ret)]
        if not used:
            return ("the number of an operation is not used", e.loc)
        for t in used:
            x = t.args[0]
            if any(s.tag in ("bin", "wide") for s in subterms(x)):
                return ("the number of an operation is changed", t.loc)
            if any_sub(x, lambda s: s.tag == "vf" and s.a[1] == "Ok" and head(s.a[0]) and re.search(r"TryFrom::try_from|TryInto::try_into", head(s.a[0]))):
                continue
            if "Ident::new" in (head(x) or ""):
                continue  # a name that is made of the number
            if feasible(p, e.ret, (256, 257, 511, 512, 65536)):
                return ("the 257th operation gets the number of another one", t.loc)

    c.forall("every operation has a number of its own", b, ps, numbered, lambda p: p.kind == "ret" and not p.all("refuse"))
    c.forall("too many operations are refused when they are compiled", b, ps, lambda p: True, lambda p: p.kind == "panic" and p.all("count") or p.all("refuse") and p.all("count"))

    # what it expands to
    ids = {}
    gen = {b.spath.rsplit("::", 1)[1]: b for b in generated(c)}
    for name, b in sorted(gen.items()):
        ran = set()
        ps = c.paths(b, (("call", USER, "run"), ("call", r"\A%s\Z" % FROM, "decode")), opaque=RETRIES + USERS + (TO, FROM))
        for p in ps:
            for e in p.all("run"):
                path = head(e.ret) or ""
                ran.add("ProbeMonoid" if path.endswith("Monoid::combine") else "Probe" + path.rsplit("probe_", 1)[1].capitalize())
        task = c.params(b)[0]

        def decoded(p):
            d = p.all("decode")
            for e, f in zip(d, ("op", "input")):
                if e.args[1] is not mk("f", task, f):
                    return ("the %s of a task is not decoded from the %s of the task" % (("operation", "input")["op" != f], f), e.loc)
            r = p.one("run")
            if r:
                op, inp = (mk("vf", e.ret, "Ok", "0") for e in d)
                if not any_sub(r.args[0], lambda s: s is op):
                    return ("another operation is executed than the one the task contains", r.loc)
                ins = r.args[1:-1]
                good = ins[0] is inp if len(ins) == 1 else (ins[0] is mk("f", inp, 0) and ins[1] is mk("f", inp, 1))
                if not good:
                    return ("an operation is not executed on the input of its task", r.loc)

        c.forall("a task's operation is executed on the task's input", b, ps, decoded, lambda p: p.kind == "ret", floor=4)
        if c.ob("a generated function executes one operation", b.spath, len(ran) == 1, "a generated function executes %d operations" % len(ran), b.where):
            ids[name] = ran.pop()
    ran = {}
    for x in c.prog.bodies.values():
        m = re.match(r"<probe::(\w+) as paladin::operation::RemoteExecute>::ID\Z", x.spath)
        if m:
            ran[m.group(1)] = (x, c.paths(x, ()))
    vals = {}
    for k, (x, ps) in ran.items():
        v = [p.fact_int(p.val) for p in ps if p.kind == "ret"]
        c.ob("an operation has one number", x.spath, len(v) == 1 and v[0] is not None, "the number of an operation is not a constant", x.where)
        vals[k] = v[0] if v else None
    order = sorted(ran, key=lambda k: int(ran[k][0].where.rsplit(":", 1)[1]))
    c.ob("operations are numbered from zero in the order of their definition", "probe", len(order) >= 3 and [vals[k] for k in order] == list(range(len(order))), "the operations %s have the numbers %s" % (order, [vals[k] for k in order]), ran[order[0]][0].where if order else "")

    # every one of them is registered, and under its own number
    n = 0
    for x in c.prog.bodies.values():
        m = re.match(r"probe::_LINKME_ELEMENT_(\w+)\Z", x.spath)
        if not m:
            continue
        n += 1
        ps = c.paths(x, ())
        fns = {t.a[2] for p in ps if p.kind == "ret" for t in subterms(p.val) if t.tag == "fn"}
        name = m.group(1)
        c.ob("what is registered is the generated function", x.spath, fns == {"probe::" + name} and name in gen, "%s is registered for %s" % (sorted(fns), name), x.where)
    c.ob("every generated function is registered", "probe", n == len(gen), "%d of %d generated functions are registered" % (n, len(gen)))
    for name, b in gen.items():
        k = executed(c, b)
        c.ob("a generated function stands for the operation of its number", b.spath, k in vals and name == "__execute_%s" % vals[k] or k in vals and order.index(k) == sorted(gen, key=lambda g: int(gen[g].where.rsplit(":", 1)[1])).index(name), "the function generated for another operation executes %s" % k, b.where)

    # a worker looks up that number
    b = c.fn(EXECUTE)
    me = c.params(b)[0]
    c.forall("a worker executes the operation whose number the task carries", b, c.paths(b, (("call", r"\A<fn value>\Z", "run"),)),
             lambda p: None if names_its_own(p.one("run").args[0], me) else ("another operation is executed than the one the task names", p.one("run").loc), lambda p: p.all("run"))

    # the task names its operation
    b = c.fn("paladin::task::Task::as_any_task")
    ps = c.paths(b, (), opaque=(TO,))

    def names(p):
        f = named(c, p.val.a[3][0], "paladin::task::AnyTask")
        i = f and f["operation_id"]
        if f is None or not (i.tag == "pure" and "RemoteExecute::ID" in i.a[0]):
            return "a task does not name its operation by the operation's number"

    c.forall("a task names its operation", b, ps, names, ok_paths)


def executed(c, b):
    for p in c.paths(b, (("call", USER, "run"),), opaque=RETRIES + USERS + (TO, FROM)):
        for e in p.all("run"):
            path = head(e.ret) or ""
            return "ProbeMonoid" if path.endswith("Monoid::combine") else "Probe" + path.rsplit("probe_", 1)[1].capitalize()


# --------------------------------------------------------------------------- C22

PASS = r"(::freeze|::into_inner|BufMut::writer|Buf::reader|BytesMut::new|BytesMut::with_capacity|Bytes::from|BytesMut::from|From::from .*Bytes.*|Into::into|Vec::new|Vec::with_capacity|::get_ref|::into_vec|::to_vec|::copy_from_slice|Cursor::new|::as_ref|::split)\Z"


def codecs(p):
    return [e for e in p.all("code")]


def c22(c):
    formats(c)
    clones(c, "a copy of a serializer is the same serializer", "paladin::serializer::", "paladin::task::")
    rows = (("call", r"\A(postcard|ciborium)(_io)?::", "code"),)
    pairs = {}
    for name, data in (("to_bytes", "value"), ("from_bytes", "bytes")):
        b = c.fn(SER + "::" + name)
        me, arg = c.params(b)[:2]
        ps = c.paths(b, rows)
        seen = set()

        def coded(p):
            v = p.variant(me)
            k = codecs(p)
            if v not in CODECS:
                return "what is encoded or decoded does not depend on the serializer"
            seen.add(v)
            if len(k) != 1:
                return "a value is encoded or decoded %d times" % len(k)
            e = k[0]
            crate = (head(e.ret) or "").split("::")[0]
            if crate != CODECS[v]:
                return ("the serializer %s encodes or decodes with %s" % (v, crate), e.loc)
            pairs.setdefault(v, set()).add(crate)
            if not any(x is arg or clean(x, arg) for x in e.args):
                return ("something else than what was given is encoded or decoded", e.loc)
            bad = p.variant(e.ret) == "Err"
            if bad != (result_kind(p) == "Err"):
                return ("a failure to encode or decode is not reported", e.loc)
            if bad:
                return None
            got = p.val.a[3][0] if p.val.tag == "agg" else p.val
            if name == "from_bytes":
                return None if got is mk("vf", e.ret, "Ok", "0") or p.val is e.ret else ("something else is returned than what was decoded", e.loc)
            sinks = [x for x in e.args if x is not arg] + [e.ret]
            late = [s for s in subterms(got) if edited(s) and s.a[0] is not e.ret]
            if late:
                return ("what was encoded is changed", e.loc)
            if not any_sub(got, lambda s: any(s is x for x in sinks)):
                return ("something else is returned than what was encoded", e.loc)
            t = got
            while t.tag in ("ret", "pure") and not any(t is x for x in sinks):
                if not re.search(PASS, head(t)):
                    return ("what was encoded is changed", e.loc)
                args = t.a[3] if t.tag == "ret" else t.a[1]
                t = args[0] if args else got

        c.forall("the serializer decides how a value is encoded and decoded", b, ps, coded, lambda p: p.kind == "ret", floor=4)
        c.forall("encoding and decoding do not panic", b, ps, lambda p: "encoding or decoding panics", lambda p: p.kind == "panic", floor=0)
        c.ob("every serializer encodes and decodes", b.spath, seen == set(CODECS), "only %s can be used" % sorted(seen), b.where)

    # a task and its output are encoded with the serializer they carry
    opq = (TO, FROM)
    code = (("call", r"\A(%s|%s)\Z" % (FROM, TO), "code"),)
    b = c.fn("paladin::task::Task::as_any_task")
    me, ser = c.params(b)[:2]

    def packed(p):
        f = named(c, p.val.a[3][0], "paladin::task::AnyTask")
        if f is None:
            return "a task is encoded to something else"
        if f["serializer"] is not ser:
            return "a task does not carry the serializer it was encoded with"
        if f["routing_key"] is not mk("f", me, "routing_key"):
            return "a task loses where its result is to be sent"
        for k in ("metadata", "op", "input"):
            if not encoded(p, f[k], ser, mk("f", me, k)):
                return "the %s of a task is not what was given, encoded with the serializer of the task" % k

    c.forall("a task is encoded with the serializer it carries", b, c.paths(b, code, opaque=opq), packed, ok_paths)

    b = None
    for i, ty, ms in c.prog.impls_of("core::convert::TryFrom"):
        if strip(ty.get("s", "")) == "paladin::task::TaskOutput" and "try_from" in ms:
            b = ms["try_from"]
    if b is None:
        raise Broken("the output of a task cannot be decoded")
    src = c.params(b)[0]

    def unpacked(p):
        f = named(c, p.val.a[3][0], "paladin::task::TaskOutput")
        if f is None:
            return "the output of a task is decoded to something else"
        for k in ("metadata", "output"):
            if not decoded(f[k], mk("f", src, "serializer"), mk("f", src, k)):
                return "the %s of an output is not what was sent, decoded with the serializer of the output" % k

    c.forall("an output is decoded with the serializer it carries", b, c.paths(b, code, opaque=opq), unpacked, ok_paths)

    for b in generated(c):
        task = c.params(b)[0]
        ps = c.paths(b, code, opaque=opq + RETRIES + USERS)

        def same(p):
            for e in p.all("code"):
                if e.args[0] is not mk("f", task, "serializer"):
                    return ("a worker encodes or decodes with another serializer than the task carries", e.loc)

        c.forall("a worker uses the serializer of the task", b, ps, same, lambda p: p.all("code"), floor=3)

    # the leader encodes with the configured one
    b = None
    for i, ty, ms in c.prog.impls_of("core::convert::From"):
        if strip(ty.get("s", "")) == SER and "from" in ms and "Config" in ms["from"].ty(ms["from"].locals[1][0])["s"]:
            b = ms["from"]
    if b is None:
        raise Broken("a configuration does not decide the serializer")
    cfg = mk("f", c.params(b)[0], "serializer")
    ps = c.paths(b, ())
    c.forall("the configured serializer is the one that is used", b, ps, lambda p: None if p.val is cfg or is_agg(p.val, "adt:" + SER) and p.val.a[2] == p.variant(cfg) else "another serializer is used than the configured one", lambda p: p.kind == "ret", floor=2)

    F = "paladin::runtime::dynamic_channel::DynamicChannelFactory::from_config"
    b = c.fn("paladin::runtime::Runtime::from_config")
    cfg = mk("f", c.params(b)[0], "serializer")
    ps = c.paths(b, (), opaque=(F, "paladin::channel::ChannelFactory::get", "paladin::runtime::Runtime::spawn_emulator"))

    def chosen(p, t, cfg):
        return t is cfg or is_agg(t, "adt:" + SER) and t.a[2] == p.variant(cfg)

    fld = c.field("paladin::runtime::Runtime", lambda s: s.endswith("Serializer"), "serializer")
    c.forall("a runtime encodes with the configured serializer", b, ps, lambda p: None if chosen(p, named(c, p.val.a[3][0], "paladin::runtime::Runtime")[fld], cfg) else "a runtime encodes with another serializer than the configured one", ok_paths, floor=2)

    b = c.fn(F)
    cfg = mk("f", c.params(b)[0], "serializer")
    ps = c.paths(b, (("call", r"::(AMQPConnection|InMemoryConnection)::new\Z", "connect"),), opaque=("paladin::queue::amqp::AMQPConnection::new", "paladin::queue::in_memory::InMemoryConnection::new"))

    def connected(p):
        k = p.all("connect")
        if len(k) != 1:
            return "%d connections are made" % len(k)
        want = [s for s in subterms(k[0].args[0]) if s is cfg or is_agg(s, "adt:" + SER)]
        if not want or not chosen(p, want[0], cfg):
            return ("queues encode with another serializer than the configured one", k[0].loc)

    c.forall("queues encode with the configured serializer", b, ps, connected, ok_paths, floor=2)

    A = "paladin::task::Task::as_any_task"
    # a helper, or what used to call it
    R = "paladin::runtime::Runtime::"
    spaths = {x.spath for x in c.prog.bodies.values()}
    packs = [R + n for n in ("get_task_sender", "lease_coordinated_task_channel") if R + n in spaths][:1]
    c.ob("where tasks are encoded was found", "paladin::runtime::Runtime", len(packs) == 1, "tasks are not encoded when they are sent")
    for name in packs:
        b = c.fn(name)
        me = c.params(b)[0]
        ps = c.paths(b, (), opaque=("paladin::channel::Channel::*", "paladin::channel::ChannelFactory::*", "paladin::channel::coordinated_channel::*"))

        def sends(p):
            n = 0
            for clo in {s for s in subterms(p.val) if s.tag == "agg" and s.a[0].startswith("closure:")}:
                try:
                    qs = c.continued(p, b, clo, (("call", r"\A%s\Z" % A, "pack"),), opaque=(A,))
                except Broken:
                    continue  # for something else
                for q in qs:
                    e = q.one("pack")
                    if e is None:
                        continue
                    n += 1
                    if len(q.all("pack")) != 1:
                        return "a task is encoded %d times" % len(q.all("pack"))
                    if e.args[1] is not mk("f", me, fld):
                        return ("a task is encoded with another serializer than that of the runtime", e.loc)
                    if q.val is not e.ret and not any_sub(q.val, lambda s: s is mk("vf", e.ret, q.variant(e.ret) or "Ok", "0")):
                        return ("something else than the task is sent", e.loc)
            if not n:
                return "a task is sent without being encoded"

        c.forall("a task is encoded with the serializer of the runtime when it is sent", b, ps, sends, ok_paths)
    wire(c)


def clean(x, arg):
    """`x` is all of `arg`, in another guise."""
    return any_sub(x, lambda s: s is arg) and not any(s.tag in ("bin", "int", "wide") or "Range" in str(s.a[0]) and "RangeFull" not in str(s.a[0]) for s in subterms(x)) and x.tag in ("ret", "pure", "agg")


def encoded(p, t, ser, what):
    e = t.a[0] if t.tag == "vf" and t.a[1] == "Ok" else None
    return e is not None and head(e) == TO and e.a[3][0] is ser and e.a[3][1] is what


def decoded(t, ser, what):
    e = t.a[0] if t.tag == "vf" and t.a[1] == "Ok" else None
    return e is not None and head(e) == FROM and e.a[3][0] is ser and (e.a[3][1] is what or clean(e.a[3][1], what))


def wire(c):
    """The types that are sent are read back as they were written: with all their fields, in the order they are written in."""
    def of(trait):
        r = {}
        for i, ty, ms in c.prog.impls_of(trait):
            if i["crate"].name == "paladin" if hasattr(i["crate"], "name") else True:
                r.setdefault(ty.get("s", ""), []).append(ms)
        return r

    ser = of("serde::ser::Serialize")
    visitors = of("serde::de::Visitor")
    n = 0
    for ty, ims in sorted(ser.items()):
        if not ty.startswith("paladin::"):
            continue
        adt = c.prog.adt_by_path.get(strip(ty))
        b = ims[0].get("serialize")
        if adt is None or b is None:
            continue
        vis = {}
        for t, ms in visitors.items():
            if ("<impl serde::de::Deserialize<'de> for %s>::deserialize::__Visitor" % ty) in t and not t.startswith("<"):
                for m in ms:
                    vis.update(m)
        rows = (("call", r"serialize_(struct|field|unit_variant|newtype_variant|struct_variant|tuple_variant|tuple_struct|unit_struct|newtype_struct|element)\Z", "write"),)
        me = c.params(b)[0]
        ps = [p for p in c.paths(b, rows, count=30) if p.kind == "ret" and not is_res(p.val, "Err")]
        if len(adt["v"]) == 1 and "visit_seq" in vis:
            n += 1
            names = [f for f, *_ in adt["v"][0]["f"]]
            written = []
            for p in ps:
                w = [e for e in p.all("write") if (head(e.ret) or "").endswith("serialize_field")]
                written.append(tuple(e.args[-1].a[1] if e.args[-1].tag == "f" and e.args[-1].a[0] is me else "?" for e in w))
            v = vis["visit_seq"]
            read = []
            for p in c.paths(v, (("call", r"next_element(_seed)?\Z", "read"),), count=30):
                if ok_paths(p):
                    f = named(c, p.val.a[3][0], strip(ty))
                    els = [e.ret for e in p.all("read")]
                    pos = {}
                    for k, t in (f or {}).items():
                        pos[k] = next((j for j, e in enumerate(els) if any_sub(t, lambda s: s is e)), None)
                    read.append(tuple(sorted(pos, key=lambda k: -1 if pos[k] is None else pos[k])) if None not in pos.values() else ("?",))
            good = len(written) >= 1 and set(written) == set(read) and len(set(read)) == 1 and sorted(written[0]) == sorted(names)
            c.ob("what is sent is read back with all its fields", ty, good, "%s has the fields %s, is written as %s and read as %s" % (ty, names, sorted(set(written)), sorted(set(read))), b.where)
        elif "visit_enum" in vis and len(adt["v"]) >= 1:
            n += 1
            wrote = {}
            for p in ps:
                for e in p.all("write"):
                    if re.search(r"serialize_\w+_variant\Z", head(e.ret) or ""):
                        wrote.setdefault(p.variant(me), set()).add(p.fact_int(e.args[2]))
            if len(adt["v"]) == 1 and None in wrote:
                wrote = {adt["v"][0]["n"] if isinstance(adt["v"][0], dict) and "n" in adt["v"][0] else next(iter(wrote)): wrote[None]}
            v = vis["visit_enum"]
            got = {}
            for p in c.paths(v, (("call", r"EnumAccess::variant(_seed)?\Z", "read"),), count=30):
                if p.kind == "ret" and not is_res(p.val, "Err"):
                    x = p.val.a[3][0] if p.val.tag == "agg" else p.val
                    k = None
                    for t, f in p.st.facts.items():
                        if f[0] == "v" and re.match(r"__field\d+\Z", str(f[1])):
                            k = int(f[1][7:])
                    if k is None and len(adt["v"]) == 1:
                        k = 0
                    if x.tag == "agg":
                        got.setdefault(x.a[2], set()).add(k)
                    elif re.search(r"VariantAccess::(struct|tuple)_variant\Z", head(x) or "") and k is not None:
                        got.setdefault(adt["v"][k][0] if not isinstance(adt["v"][k], dict) else adt["v"][k]["n"], set()).add(k)
            good = set(wrote) == set(got) and all(wrote[k] == got[k] and len(got[k]) == 1 for k in got) and len(got) == len(adt["v"])
            c.ob("what is sent is read back as the same variant", ty, good, "%s is written as %s and read as %s" % (ty, wrote, got), b.where)
    c.ob("the types that are sent were found", "paladin", n >= 5, "only %d types that are sent were found" % n)


RULES = {"C21": c21, "C22": c22}
