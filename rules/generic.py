"""Rules over every function of the library: C07 (no lost wake-ups), C10 (success means every step
succeeded), C11 (no lock held while waiting)."""
import re
from common import *
from queue_roles import stream_kind

GENERATED = re.compile(r"serde|clap|Debug|Display|::_::|derive")
LIB = "paladin#"


def library(prog, *kinds):
    return [b for b in prog.bodies.values() if b.id.startswith(LIB) and b.kind in kinds and not GENERATED.search(b.spath) and "/src/" in b.file]


# --------------------------------------------------------------------------- C07


def from_cx(t):
    return t is CTX or t.tag == "param" and t.a[0] in ("cx", "_cx", "ctx", "context")


def c07(c):
    n = 0
    closers = closes_semaphore(c)
    c.ob("no semaphore is ever closed", "paladin", not closers, "a semaphore is closed: waiting for it may end without a permit", closers[0][1] if closers else "")
    for b in library(c.prog, "fn", "assoc", "closure"):
        t = b.ty(b.locals[0][0])
        if not t["s"].startswith("core::task::poll::Poll<"):
            continue
        if b.kind == "closure" and any("select" in x or "join" in x for x in b.span(b.raw["span"])[2]):
            continue
        if not any("task::wake::Context<" in b.ty(b.locals[i + 1][0])["s"] for i in range(b.argc)):
            continue
        cxs = [p for i, p in enumerate(c.params(b)) if "task::wake::Context<" in b.ty(b.locals[i + 1][0])["s"]]
        n += 1
        mine = lambda t: any(any_sub(t, lambda s: s is x) for x in cxs)  # noqa
        want = Want(("call", r"AtomicWaker::take\Z", "take"), ("call|await|poll|opaque", r".*", "poll", lambda ev: any(mine(ev_arg(ev, a)) for a in ev.args)))
        ps = c.paths(b, want, future=False)

        def woken(p):
            if p.variant(p.val) != "Pending":
                return None
            for e in p.ev:
                name = e.ret.a[2] if e.ret is not None and e.ret.tag == "ret" else ""
                if name.endswith("AtomicWaker::register") and [x for x in p.all("take") if x.i > e.i]:
                    continue  # taken away again
                if name.endswith(("Waker::wake_by_ref", "Waker::wake", "AtomicWaker::register")):
                    return None
                if e.ret is not None and p.variant(e.ret) == "Pending":
                    return None
                if e.ret is not None and name.endswith("PollSemaphore::poll_acquire") and p.variant(mk("vf", e.ret, "Ready", "0")) == "None":
                    return None  # only a closed semaphore does this
            return "a poll returns pending without anything that will wake the task"

        c.forall("a pending poll has arranged to be woken", b, ps, woken, lambda p: p.kind == "ret")

        def latest(p):
            if p.variant(p.val) != "Pending":
                return None
            reg = [e for e in p.ev if e.ret is not None and e.ret.tag == "ret" and e.ret.a[2].endswith("AtomicWaker::register")]
            polls = [e for e in p.ev if e.ret is not None and p.variant(e.ret) in ("Pending", "Ready")]
            if reg or not polls:
                return None
            last = polls[-1]
            wakes = [e for e in p.ev if e.i > last.i and e.ret is not None and e.ret.tag == "ret" and "Waker::wake" in e.ret.a[2]]
            if p.variant(last.ret) == "Ready" and not wakes and not last.ret.a[2].endswith("PollSemaphore::poll_acquire"):
                return ("a poll took something from what it waits for, returns pending and will not be woken for the next", last.loc)

        c.forall("a poll that took something does not go to sleep", b, ps, latest, lambda p: p.kind == "ret")
    c.ob("the hand-written polls were found", "paladin", n >= 4, "only %d hand-written polls were found" % n)


def ev_arg(ev, a):
    return a if isinstance(a, N) else UNIT


def closes_semaphore(c):
    r = []
    for b in library(c.prog, "fn", "assoc", "closure", "coroutine"):
        for bl in b.blocks:
            t = bl["t"]
            if t["k"] == "call" and "k" in t["f"] and t["f"]["k"].get("fn"):
                p = strip_generics(t["f"]["k"]["fn"]["path"])
                if p.endswith(("Semaphore::close",)):
                    r.append((b, b.loc(t["s"])))
    return r


# --------------------------------------------------------------------------- C10


class Failures(Monitor):
    """Remembers which results a path found to be failures."""

    def __init__(self, opaque):
        super().__init__(lambda ev: None, opaque, None, {})

    def branch(self, interp, st, node, fact):
        if fact == ("v", "Err") and node.tag in ("ret", "out", "vf", "f"):
            # by what failed: a loop adds nothing by failing again
            what = mk("str", origin(node))
            e = ("failed", (what,), what, "", "")
            if e not in st.mon:
                st.mon = st.mon + (e,)


def origin(t):
    while True:
        if t.tag in ("vf", "f", "out"):
            t = t.a[0]
        elif t.tag == "ret":
            if t.a[2] in ("await",) and t.a[3]:
                t = t.a[3][0]
                continue
            return t.a[2]
        else:
            return show(t, 2)


def fallible(prog):
    """The operations that report failure: functions that return a Result, or a future of one."""
    r = []
    for b in library(prog, "fn", "assoc"):
        t = b.ty(b.locals[0][0])["s"]
        if t.startswith("core::result::Result<"):
            r.append(b)
            continue
        for k in prog.bodies.values():
            if k.kind == "coroutine" and k.parent == b.id and k.ty(k.locals[0][0])["s"].startswith("core::result::Result<"):
                r.append(b)
                break
    return r


OPAQUE = ("paladin::contiguous::*", "paladin::runtime::WorkerRuntime::*", "paladin::runtime::Runtime::*", "paladin::channel::coordinated_channel::*", "paladin::queue::amqp::AMQPConnection::new", "paladin::operation::error::RetryStrategy::*", "paladin::operation::error::OperationError::retry*")
# a loop that is meant to survive failures: what it does about each is C12 to C16
SURVIVES = ("paladin::runtime::WorkerRuntime::main_loop",)
# retrying means succeeding after failed attempts (C19)
RETRIES = re.compile(r"::retry")


def c10(c):
    n = 0
    for b in fallible(c.prog):
        if b.spath in SURVIVES or RETRIES.search(b.spath) or b.spath.startswith("paladin::contiguous"):
            continue
        n += 1
        rule = Failures([o for o in OPAQUE if not (b.spath == o or o.endswith("*") and b.spath.startswith(o[:-1]))])
        ps = run_with(c, b, rule)

        def swallowed(p):
            for e in p.ev:
                if e.label == "failed" and not any(b.spath.lstrip("<").startswith(m) and e.args[0].a[0] == o for m, o in GIVEN_UP):
                    return ("success is reported although `%s` failed" % e.args[0].a[0], b.where)

        c.forall("success means every step succeeded", b, ps, swallowed, ok_paths, floor=0)
    c.ob("the operations that report failure were found", "paladin", n >= 50, "only %d operations that report failure were found" % n)
    unread(c)


def run_with(c, b, rule):
    I = Interp(c.prog, rule, max_states=40000)
    st = St(mon=())
    res = []
    for o in I.run(b, c.params(b), st, I.ctx(None, b, -1, b.id)):
        if o.kind == "ret" and o.val.tag == "agg" and o.val.a[0].startswith(("coroutine:", "lazy:f_", "lazy:tf_")):
            call = Call(I, b, 0, {"s": b.raw["span"], "k": "call", "at": []}, I.ctx(None, b, -1, b.id), 999999, None, False)
            res.extend(I.run_future(call, o.st, o.val))
        else:
            res.append(o)
    c.fns |= {c.prog.bodies[i].spath for i in I.visited_fns}
    c.npaths += len(res)
    c.nstates += I.nstates
    c.ncalls += I.ncalls
    c.nawaits += I.nawaits
    return [Path(o.kind, o.val, o.st, I) for o in res]


# results that are given up on purpose, by what produced them and the module that does so
GIVEN_UP = (
    ("paladin::queue::amqp", "lapin::channel::Channel::close"), ("paladin::queue::amqp", "lapin::connection::Connection::close"),
    ("paladin::channel::queue", "paladin::queue::Connection::delete_queue"),
    ("paladin::runtime", "paladin::acker::Acker::nack"), ("paladin::runtime", "paladin::acker::Acker::ack"),
    ("paladin::runtime", "<fn value>"),  # the failure of an operation: what is done about it is C12 to C16
)


def unread(c):
    """Results nobody looks at: assigned, and then only dropped."""
    n = 0
    for b in library(c.prog, "fn", "assoc", "closure", "coroutine"):
        for l, (src, span) in results(b).items():
            n += 1
            if l in read_locals(b):
                continue
            who = producer(c.prog, b, l, src)
            ok = any(b.spath.lstrip("<").startswith(m) and who == p for m, p in GIVEN_UP)
            c.ob("every result is looked at", "%s in %s" % (who, b.spath.split("::{closure")[0]), ok, "the outcome of `%s` is ignored" % who, b.loc(span))
        for (l, i), (t, span) in paired(b).items():
            n += 1
            if l in whole_reads(b) or (l, i) in field_reads(b):
                continue
            who = "%s (.%d)" % (producer(c.prog, b, l, t), i)
            c.ob("every result is looked at", "%s in %s" % (who, b.spath.split("::{closure")[0]), False, "one outcome of `%s` is ignored" % who, b.loc(span))
    c.ob("the results were found", "paladin", n >= 200, "only %d results were found" % n)


def paired(b):
    """The results that come in a tuple: {(local, field): (what, span)}"""
    r = {}
    for bl in b.blocks:
        if bl["cl"]:
            continue
        t = bl["t"]
        for x, d in [(s, s["p"]) for s in bl["s"] if "v" in s] + ([(t, t["d"])] if t["k"] == "call" else []):
            l = d["l"]
            if d.get("p") or not l:
                continue
            ty = b.ty(b.locals[l][0])
            if ty["s"].startswith("(") and "core::result::Result<" in ty["s"]:
                for i, s in enumerate(elements(ty["s"])):
                    if s.startswith("core::result::Result<"):
                        r.setdefault((l, i), (x, x["s"]))
    return r


def elements(s):
    """The element types of a tuple type."""
    r, depth, cur = [], 0, ""
    for k, ch in enumerate(s[1:-1]):
        if ch in "<([{":
            depth += 1
        elif ch in ")]}" or ch == ">" and s[k] != "-":
            depth -= 1
        if ch == "," and not depth:
            r.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return r + ([cur.strip()] if cur.strip() else [])


def results(b):
    """The locals of type Result that are assigned: {local: (what, span)}"""
    r = {}
    for bl in b.blocks:
        if bl["cl"]:
            continue
        for s in bl["s"]:
            if "v" in s and not s["p"].get("p"):
                l = s["p"]["l"]
                if l and b.ty(b.locals[l][0])["s"].startswith("core::result::Result<"):
                    r.setdefault(l, (s, s["s"]))
        t = bl["t"]
        if t["k"] == "call" and not t["d"].get("p"):
            l = t["d"]["l"]
            if l and b.ty(b.locals[l][0])["s"].startswith("core::result::Result<"):
                r.setdefault(l, (t, t["s"]))
            elif l and is_ok_call(t):
                r.setdefault(l, (t, t["s"]))
    return r


def is_ok_call(t):
    f = fn_of(t)
    return f is not None and strip_generics(f["path"]) in ("core::result::Result::ok", "core::result::Result::err")


def fn_of(t):
    return t["f"]["k"].get("fn") if "k" in t["f"] else None


_reads = {}


def read_locals(b):
    return reads(b)[0]


def whole_reads(b):
    return reads(b)[1]


def field_reads(b):
    return reads(b)[2]


def reads(b):
    """The locals that are read: all, those read as a whole, and (local, field)."""
    r = _reads.get(id(b))
    if r is not None:
        return r[1]
    r, whole, fields = set(), set(), set()

    def pl(p):
        r.add(p["l"])
        q = p.get("p") or ()
        if q and q[0][0] == "f":
            fields.add((p["l"], q[0][1]))
        else:
            whole.add(p["l"])
        for e in p.get("p", ()):
            if e[0] == "i":
                r.add(e[1])

    def op(o):
        if o is None:
            return
        for k in ("c", "m"):
            if k in o:
                pl(o[k])

    for bl in b.blocks:
        if bl["cl"]:
            continue
        for s in bl["s"]:
            if "v" not in s:
                continue
            v = s["v"]
            if "p" in v:
                pl(v["p"])
            for k in ("o", "a", "b"):
                if isinstance(v.get(k), dict):
                    op(v[k])
            if isinstance(v.get("f"), list):
                for o in v["f"]:
                    op(o)
            if s["p"].get("p"):
                pl(s["p"])
        t = bl["t"]
        if t["k"] == "call":
            for a in t["a"]:
                op(a)
            op(t["f"])
        elif t["k"] in ("switch", "assert", "yield"):
            op(t.get("o"))
    _reads[id(b)] = b, (r, whole, fields)
    return r, whole, fields


def producer(prog, b, l, src):
    """What a result comes from: the call, or the call whose future was awaited."""
    for _ in range(12):
        if src.get("k") == "call":
            f = fn_of(src)
            if f is None:
                return "a closure"
            p = strip_generics(f["path"])
            if p in ("core::future::future::Future::poll",) or is_ok_call(src) or p.endswith(("IntoFuture::into_future", "Instrument::instrument", "Pin::new_unchecked", "Pin::as_mut")):
                o = src["a"][0]
            else:
                return p
        else:
            v = src["v"]
            o = v.get("o")
            if o is None and "p" in v:
                o = {"c": v["p"]}
            if o is None:
                return "an expression"
        place = o.get("c") or o.get("m")
        if place is None:
            return "an expression"
        src = definition(b, place["l"])
        if src is None:
            return "a value"
    return "a value"


def definition(b, l):
    for bl in b.blocks:
        for s in bl["s"]:
            if "v" in s and s["p"]["l"] == l and not s["p"].get("p"):
                return s
        t = bl["t"]
        if t["k"] == "call" and t["d"]["l"] == l and not t["d"].get("p"):
            return t
    return None


# --------------------------------------------------------------------------- C11

GUARD = re.compile(r"dashmap::mapref::|dashmap::iter::|dashmap::lock::|\bMutexGuard<|RwLock(Read|Write|UpgradableRead)Guard<|lock_api::|parking_lot::|core::cell::Ref(Mut)?<|ReentrantLockGuard")
ASYNC_GUARD = re.compile(r"tokio::sync::|futures_util::lock::|async_lock::")


def holds_guard(s):
    if "Fn(" in s:
        return False
    return any(not ASYNC_GUARD.search(s[max(0, m.start() - 60): m.start()]) for m in GUARD.finditer(s))


def c11(c):
    n = y = 0
    for b in library(c.prog, "coroutine"):
        n += 1
        guards = {i for i, l in enumerate(b.locals) if not b.ty(l[0])["s"].startswith(("&", "impl ", "{")) and holds_guard(b.ty(l[0])["s"])}
        held, yields = across(b, guards)
        y += yields
        bad = next(iter(held), None)
        c.ob("no lock is held while waiting", b.spath, bad is None,
             "a `%s` taken at %s may still be held while awaiting: others who need the lock block the thread" % (b.ty(b.locals[bad[0]][0])["s"].split("<")[0] if bad else "", "") if bad else "", b.loc(bad[1]) if bad else "")
        c.fns.add(b.spath)
    c.npaths = c.nawaits = y
    c.ob("the places where the library waits were found", "paladin", n >= 30 and y >= 60, "only %d asynchronous functions with %d waits were found" % (n, y))


def across(b, guards):
    """Forward dataflow: which guard locals may be initialised at a yield."""
    held = set()
    yields = 0
    if not guards:
        return held, sum(1 for bl in b.blocks if bl["t"]["k"] == "yield" and not bl["cl"])
    ins = {0: frozenset()}
    work = [0]

    def op(o, s):
        if o and "m" in o and o["m"]["l"] in guards:
            s.discard(o["m"]["l"])

    while work:
        i = work.pop()
        s = set(ins[i])
        bl = b.blocks[i]
        for x in bl["s"]:
            if "dead" in x:
                s.discard(x["dead"])
            if "v" in x:
                v = x["v"]
                for k in ("o", "a", "b"):
                    if isinstance(v.get(k), dict):
                        op(v[k], s)
                for o in v.get("f", ()) if isinstance(v.get("f"), list) else ():
                    op(o, s)
                if x["p"]["l"] in guards and not empty_variant(v):
                    s.add(x["p"]["l"])
        t = bl["t"]
        if t["k"] == "call":
            for a in t["a"]:
                op(a, s)
            if t["d"]["l"] in guards:
                s.add(t["d"]["l"])
        elif t["k"] == "drop":
            s.discard(t["p"]["l"])
        elif t["k"] == "yield":
            for l in s:
                held.add((l, t["s"]))
        for j in succ(t):
            if b.blocks[j]["cl"]:
                continue
            new = ins.get(j, frozenset()) | s
            if j not in ins or new != ins[j]:
                ins[j] = frozenset(new)
                work.append(j)
    return held, sum(1 for bl in b.blocks if bl["t"]["k"] == "yield" and not bl["cl"])


def empty_variant(v):
    return v.get("r") == "agg" and not v.get("f")


def succ(t):
    r = [t[k] for k in ("to", "else") if isinstance(t.get(k), int)]
    for v in t.get("v", ()) if isinstance(t.get("v"), list) else ():
        r.append(v[1])
    return r


RULES = {"C07": c07, "C10": c10, "C11": c11}
