"""Directives: C23 (mapping), C24 (what is combined), C25 (when a fold ends), C26 (nothing is lost), C27 (the queue of partial results), C28 (indices)."""
from common import *
from operation import named

DIR = "paladin::directive::"
STREAM = DIR + "indexed_stream::IndexedStream"
LITERAL = DIR + "literal::Literal"
LEASE = "paladin::runtime::Runtime::lease_coordinated_task_channel"
TASK = "paladin::task::Task"
NEXT = r"StreamExt::next\Z|TryStreamExt::try_next\Z|Stream::poll_next\Z"
SETTLE = (("await", r"Acker::ack\Z", "ack"), ("await", r"Acker::nack\Z", "nack"))
SEND = (("await", r"Publisher::publish\Z", "publish"), ("await", r"Publisher::close\Z", "close"))
DROP = ("drop", "", "drop")


def leased(ev):
    """The stream an event reads is the one that was leased."""
    return any_sub(ev.args[0], lambda t: head(t) == LEASE)


TAKE = ("await", NEXT, "take", lambda ev: not leased(ev))
RESULT = ("await", NEXT, "result", leased)


def lease(p):
    """(channel identifier, sender, receiver) of the channel that was leased on a path."""
    e = p.one("lease")
    t = mk("vf", e.ret, "Ok", "0")
    return tuple(mk("f", t, i) for i in range(3))


def some_of(p):
    """The payload of a path's `Some`, if it is one."""
    return p.val.a[3][0] if p.kind == "ret" and p.val.tag == "agg" and p.val.a[2] == "Some" else None


def is_ok(t):
    return t.a[3][0] if is_res(t, "Ok") else None


def is_err(t):
    return t.a[3][0] if is_res(t, "Err") else None


def payload(p, e):
    """('Some'/'None', 'Ok'/'Err', the payload) of what a stream of results yielded, as far as the path knows."""
    o = p.variant(e.ret)
    if o != "Some":
        return o, None, None
    t = mk("vf", e.ret, "Some", "0")
    v = p.variant(t)
    return o, v, (mk("vf", t, v, "0") if v else None)


def place_of(t, x):
    """Where in `t` the term `x` is: the field names that lead to it, or None."""
    if t is x:
        return ()
    if t.tag == "agg" and t.a[0] not in ("array",):
        for i, y in enumerate(t.a[3]):
            r = place_of(y, x)
            if r is not None:
                return (i,) + r
    return None


def walk(c, t, path, like):
    """The term the fields of `path` lead to from `t`, by the shape of `like`."""
    for i in path:
        if like.a[0].startswith("adt:"):
            names = [n for n, _ in c.adt(like.a[0][4:])["v"][0]["f"]]
            t = mk("f", t, names[i])
        else:
            t = mk("f", t, i)
        like = like.a[3][i]
    return t


def c23(c):
    b = c.method(DIR + "Functor", STREAM, "f_map")
    ps = c.paths(b, Want(("await", re.escape(LEASE) + r"\Z", "lease")), opaque=(LEASE,))
    starts = [p for p in ps if ok_paths(p)]
    c.forall("mapping leases one channel", b, ps, lambda p: None if len(p.all("lease")) == 1 and p.variant(p.one("lease").ret) == "Ok" else "a map works without a channel", ok_paths)
    c.forall("starting a map fails only if there is no channel", b, ps, lambda p: None if p.variant(p.one("lease").ret) == "Err" else "a map fails although its channel was leased", lambda p: err_paths(p) and p.one("lease"))
    where = {}
    for s in starts[:1]:
        ident, sender, receiver = lease(s)
        me, op = c.params(b)[:2]
        qs = c.continued(s, b, s.val.a[3][0], (TAKE, RESULT) + SETTLE + SEND + (DROP,), cut="take")
        taking = lambda o, v=None: lambda q: q.ev and q.one("take") is not None and q.ev[0].label in ("take", "drop") and payload(q, q.one("take"))[:2] == (o, v)  # noqa

        def sent(q):
            t = q.one("take")
            item = payload(q, t)[2]
            if strip_proj(t.args[0])[0] is not me:
                return "what is mapped is not the input", t.loc
            pubs = q.all("publish")
            if len(pubs) != 1:
                return "an item of the input is sent %d times" % len(pubs), t.loc
            e = pubs[0]
            f = named(c, e.args[1], TASK)
            if e.args[0] is not sender:
                return "a task is not sent on the channel that was leased", e.loc
            if f is None:
                return "what is sent is not a task for the item", e.loc
            if f["routing_key"] is not ident:
                return "a task names another channel than the one its result is awaited on", e.loc
            if f["op"] is not op:
                return "a task is not for the operation that is mapped", e.loc
            if f["input"] is not mk("f", item, 1):
                return "the input of a task is not the item", e.loc
            w = place_of(f["metadata"], mk("f", item, 0))
            if w is None:
                return "the index of the item does not go with its task", e.loc
            where[w] = f["metadata"]
            if q.variant(e.ret) == "Err":
                x = some_of(q)
                if x is None or is_err(x) is None or not any_sub(x, lambda y: y is mk("vf", e.ret, "Err", "0")):
                    return "a task that was not sent is not reported", e.loc
            elif q.kind != "cut":
                return "sending ends although there may be more input", e.loc

        c.forall("every item of the input is sent once, with its index", b, qs, sent, taking("Some", "Ok"), floor=2)

        def failed(q):
            t = q.one("take")
            x = some_of(q)
            if q.all("publish"):
                return "something is sent for an item that failed", t.loc
            if x is None or is_err(x) is None or not any_sub(x, lambda y: y is payload(q, t)[2]):
                return "an error of the input is not reported", t.loc

        c.forall("an error of the input is reported", b, qs, failed, taking("Some", "Err"))

        def closed(q):
            e = q.one("close") or next((d for d in q.all("drop") if any(a is sender for a in d.args)), None)
            if e is None:
                return "sending ends without closing the channel", q.one("take").loc
            if q.one("close") and q.variant(e.ret) == "Err":
                x = some_of(q)
                if x is None or is_err(x) is None:
                    return "closing the channel failed and that is not reported", e.loc

        c.forall("the channel is closed once all input is sent", b, qs, closed, taking("None"))
        c.forall("nothing is closed before all input is sent", b, qs, lambda q: ("the channel is closed before all input is sent", q.one("close").loc) if q.all("close") else None, taking("Some", "Ok"))

        c.forall("the channel is closed only after the input", b, qs, lambda q: None if any(t.i < q.one("close").i for t in q.all("take")) else ("the channel is closed while the input is being sent", q.one("close").loc), lambda q: q.all("close"), floor=0)

        def answered(q):
            e = q.one("result")
            t = mk("vf", e.ret, "Some", "0")
            r, acker = mk("f", t, 0), mk("f", t, 1)
            x = some_of(q)
            acks = q.all("ack", "nack")
            if x is None:
                return "a result that arrived is not handed out", e.loc
            if len(acks) != 1 or acks[0].label != "ack" or acks[0].args[0] is not acker:
                return "a result is not acknowledged once", e.loc
            if q.variant(acks[0].ret) == "Err":
                return None if is_err(x) is not None else ("a failed acknowledgement is not reported", acks[0].loc)
            if q.variant(r) == "Err":
                return None if is_err(x) is not None and any_sub(x, lambda y: y is mk("vf", r, "Err", "0")) else ("an error of a task is not reported", e.loc)
            v = is_ok(x)
            o = mk("vf", r, "Ok", "0")
            if v is None or not is_agg(v, "tuple") or len(v.a[3]) != 2:
                return "the result of a task is not handed out", e.loc
            if v.a[3][1] is not mk("f", o, "output"):
                return "what is handed out is not the output of the task", e.loc
            if not any(v.a[3][0] is walk(c, mk("f", o, "metadata"), w, like) for w, like in where.items()):
                return "an output is handed out with another index than the one of its input", e.loc

        got = lambda v: lambda q: q.one("result") is not None and q.variant(q.one("result").ret) == v  # noqa
        c.forall("every result is acknowledged and handed out once, with its index", b, qs, answered, got("Some"), floor=3)
        c.forall("no result is passed over", b, qs, lambda q: None if len({e.i for e in q.all("result")[:-1] if q.variant(e.ret) != "None"}) == 0 else ("a result that arrived is not handed out", q.all("result")[0].loc), lambda q: q.all("result"), floor=3)
        c.forall("a map ends when its results end", b, qs, lambda q: None if q.kind != "ret" or q.val.tag == "agg" and q.val.a[2] == "None" else "something is handed out that is no result", got("None"))
        c.forall("a map ends no sooner than its results", b, qs, lambda q: None if any(q.variant(e.ret) == "None" for e in q.all("result")) else "a map may end before its results do", lambda q: q.kind == "ret" and q.val.tag == "agg" and q.val.a[2] == "None")
        c.forall("mapping does not panic", b, qs, lambda q: "mapping panics", lambda q: q.kind == "panic", floor=0)
    one_value(c)
    chained(c)


def one_value(c):
    b = c.method(DIR + "Functor", LITERAL, "f_map")
    ps = c.paths(b, Want(("await", re.escape(LEASE) + r"\Z", "lease"), RESULT, *SETTLE, *SEND), opaque=("paladin::runtime::*",))
    me, op = c.params(b)[:2]

    def sent(p):
        ident, sender, receiver = lease(p)
        pubs = p.all("publish")
        if len(pubs) != 1:
            return "the value is sent %d times" % len(pubs), p.one("lease").loc
        e = pubs[0]
        f = named(c, e.args[1], TASK)
        if any(x.i < e.i for x in p.all("close")):
            return "the channel is closed before the value is sent", e.loc
        if e.args[0] is not sender or f is None:
            return "a task is not sent on the channel that was leased", e.loc
        if f["routing_key"] is not ident:
            return "a task names another channel than the one its result is awaited on", e.loc
        if f["op"] is not op or strip_proj(f["input"])[0] is not me or len(strip_proj(f["input"])[1]) != 1:
            return "a task is not for the operation and the value that are mapped", e.loc

    c.forall("the value is sent once", b, ps, sent, lambda p: p.all("publish", "result") or ok_paths(p))

    def answered(p):
        e = p.one("result")
        t = mk("vf", e.ret, "Some", "0")
        r, acker = mk("f", t, 0), mk("f", t, 1)
        acks = p.all("ack", "nack")
        if p.kind != "ret" or p.all("result")[1:]:
            return "a result that arrived is not handed out", e.loc
        if len(acks) != 1 or acks[0].label != "ack" or acks[0].args[0] is not acker:
            return "a result is not acknowledged once", e.loc
        if p.variant(acks[0].ret) == "Err" or p.variant(r) == "Err":
            return None if result_kind(p) == "Err" else ("a failure is not reported", e.loc)
        want = mk("f", mk("vf", r, "Ok", "0"), "output")
        if result_kind(p) != "Ok" or not is_agg(p.val.a[3][0], "adt:" + LITERAL) or p.val.a[3][0].a[3][0] is not want:
            return "what is handed out is not the output of the task", e.loc

    c.forall("the result is acknowledged and handed out once", b, ps, answered, lambda p: p.one("result") is not None and p.variant(p.one("result").ret) == "Some", floor=3)
    c.forall("a value is mapped only by a result", b, ps, lambda p: None if p.one("result") is not None and p.variant(p.one("result").ret) == "Some" else "a map succeeds without a result", ok_paths)


def chained(c):
    for name, method, what in (("Map", "f_map", "op"), ("Fold", "f_fold", "m")):
        b = c.method(DIR + "Directive", DIR + name, "run")
        me, rt = c.params(b)[:2]
        ps = c.paths(b, Want(("await", r"Directive::run\Z", "input"), ("await", r"::%s\Z" % method, "stage")))

        def staged(p):
            i, s = p.one("input"), p.one("stage")
            if len(p.all("input")) != 1 or strip_proj(i.args[0])[0] is not me or i.args[1] is not rt:
                return "the directives before are not run once with the same runtime"
            if p.variant(i.ret) == "Err":
                return None if result_kind(p) == "Err" and not s else ("a failure of the directives before is not reported", i.loc)
            if len(p.all("stage")) != 1 or s.args[0] is not mk("vf", i.ret, "Ok", "0") or strip_proj(s.args[1])[0] is not me or s.args[2] is not rt:
                return "what the directives before produced is not what is worked on", s.loc if s else i.loc
            if p.val is not s.ret and not (p.variant(s.ret) == result_kind(p) and p.val.a[3][0] is mk("vf", s.ret, result_kind(p), "0")):
                return "the outcome is not the one of the last directive", s.loc

        c.forall("directives are run one after the other", b, ps, staged, lambda p: p.kind == "ret", floor=2)
    n = 0
    for imp, ty, ms in c.prog.impls_of(DIR + "Directive"):
        adt = ty["s"].split("<")[0]
        if adt in (DIR + "Map", DIR + "Fold") or "run" not in ms:
            continue
        n += 1
        b = ms["run"]
        ps = c.paths(b, ())
        c.forall("running a value gives the value", b, ps, lambda p: None if result_kind(p) == "Ok" and p.val.a[3][0] is c.params(b)[0] else "running a value does not give the value", lambda p: p.kind == "ret")
    c.ob("the directives were found", DIR, n >= 2, "only %d directives were found" % n)


# ----------------------------------------------------------------------------- folding

QUEUE = "paladin::contiguous::queue::ContiguousQueue::"
OUTPUT = "paladin::task::TaskOutput"
START = "core::ops::range::RangeInclusive::start"
END = "core::ops::range::RangeInclusive::end"


class Unknown(Exception):
    pass


def value(t, env):
    """What a term is for given values of its leaves (numbers and booleans); Unknown if it depends on others."""
    if t in env:
        return env[t]
    if t.tag == "int":
        return t.a[0]
    if t.tag == "bin":
        op, x, y = t.a[0], value(t.a[1], env), value(t.a[2], env)
        op = op.replace("Unchecked", "").replace("WithOverflow", "")
        if op == "Add":
            return x + y
        if op == "Sub":
            return x - y
        if op == "Mul":
            return x * y
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return int({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])
        if op in ("BitAnd", "BitOr", "BitXor"):
            return {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[op]
    if t.tag == "un" and t.a[0] == "Not":
        return 1 - value(t.a[1], env)
    if t.tag == "cast":
        return value(t.a[-1], env)
    raise Unknown(show(t, 3))


def known(p, leaves):
    """The facts of a path that are about the given leaves: [(term, fact)]."""
    return [(t, f) for t, f in p.st.facts.items() if f[0] in ("i", "ni") and any_sub(t, lambda x: x in leaves)]


def holds(facts, env):
    """Whether the facts hold for given values; facts that depend on other things are left open."""
    for t, f in facts:
        try:
            v = value(t, env)
        except Unknown:
            continue
        if f[0] == "i" and v != f[1] or f[0] == "ni" and v in f[1]:
            return False
    return True


def implied(p, leaves, domain, goal):
    """Whether the facts of a path imply `goal` for all values (`domain`: assignments to the leaves).  The facts are comparisons of sums
    with small constants, for which small values show everything."""
    fs = known(p, set(leaves))
    vals = [dict(zip(leaves, v)) for v in domain]
    left = [e for e in vals if holds(fs, e)]
    return bool(fs) and len(left) < len(vals) and all(goal(e) for e in left)


def bounds(rng):
    return mk("pure", START, (rng,)), mk("pure", END, (rng,))


def range_leaves(p, rng):
    """(start, end) of a range as the path speaks of them."""
    def find(path):
        for t in list(p.st.facts) + ([p.val] if p.val is not None else []):
            for x in subterms(t):
                if head(x) == path and (x.a[1] if x.tag == "pure" else x.a[3])[0] is rng:
                    return x
        return None
    return find(START), find(END)


def contiguity(c):
    b = c.method("paladin::contiguous::Contiguous", OUTPUT, "is_contiguous")
    ps = c.paths(b, ())
    x, y = c.params(b)[:2]
    leaves = {}
    for p in ps:
        for t in list(p.st.facts) + [p.val]:
            for s in subterms(t):
                if head(s) in (START, END):
                    a = args_of(s)[0]
                    if strip_proj(a)[0] in (x, y):
                        leaves[s] = (strip_proj(a)[0] is y, head(s) == END)
    n = 4
    bad = None
    cases = 0
    for s1 in range(n):
        for e1 in range(s1, n + 1):
            for s2 in range(n + 2):
                for e2 in range(s2, n + 3):
                    if not (e1 < s2 or e2 < s1):
                        continue  # parts of one input do not overlap
                    env = {t: [[s1, e1], [s2, e2]][o][h] for t, (o, h) in leaves.items()}
                    want = int(e1 + 1 == s2 or e2 + 1 == s1)
                    for p in ps:
                        try:
                            if p.kind != "ret" or not all(value(t, env) == f[1] if f[0] == "i" else value(t, env) not in f[1] for t, f in p.st.facts.items() if f[0] in ("i", "ni")):
                                continue
                            cases += 1
                            if value(p.val, env) != want:
                                bad = "%d..=%d and %d..=%d" % (s1, e1, s2, e2)
                        except Unknown as u:
                            bad = "they are compared by something else: %s" % u
    c.ob("two results are neighbours if one begins where the other ends", b.spath, bad is None and cases > 50, "which results are neighbours is decided wrongly: %s" % bad, b.where)
    b = c.method("paladin::contiguous::Contiguous", OUTPUT, "key")
    ps = c.paths(b, ())

    def begins(p):
        v = p.interp.deref_all(p.st, p.val) if p.val.tag == "ref" else p.val
        return None if head(v) == START and strip_proj(args_of(v)[0])[0] is c.params(b)[0] else "the key of a result is not the index it begins with"

    c.forall("a result is kept under the index it begins with", b, ps, begins, lambda p: p.kind == "ret")


def args_of(t):
    return t.a[1] if t.tag == "pure" else t.a[3]


def range_in(t):
    """The range that is part of a value."""
    if head(t) == "core::ops::range::RangeInclusive::new" or is_agg(t, "adt:core::ops::range::RangeInclusive"):
        return t
    if t.tag == "agg":
        return next((r for r in map(range_in, t.a[3]) if r is not None), None)
    return None


class Fold:
    """The paths of a fold, cut at what it waits for."""

    def __init__(self, c, want=Want):
        self.c = c
        self.b = c.method(DIR + "Foldable", STREAM, "f_fold")
        self.me, self.m = c.params(self.b)[:2]
        rows = (
            ("await", re.escape(LEASE) + r"\Z", "lease"), TAKE, RESULT, *SETTLE, *SEND,
            ("call|opaque", re.escape(QUEUE) + r"(queue|dequeue|acquire_contiguous_pair_or_queue|find_contiguous)\Z", "queue"),
            ("await", r"SinkExt::(send|feed)\Z", "hand"), ("call", r"mpsc::(Sender|UnboundedSender)::(try_send|unbounded_send|start_send)\Z", "hand"),
            ("call", r"oneshot::Sender::send\Z", "finish"), ("call", r"core::sync::atomic::Atomic::\w+\Z", "count"), ("call", r"Notify::notify_\w+\Z", "notify"),
            ("call", r"Monoid::empty\Z", "empty"), ("await", r"::pending\Z", "pending"),  ("await", r"", "wait"),
        )
        self.want = want(*rows)
        self.ps = c.paths(self.b, self.want, opaque=("paladin::runtime::*", "paladin::contiguous::*"), cut=("take", "result", "pending"))
        self.ident, self.sender, self.receiver = next((lease(p) for p in self.ps if p.one("lease")), (None,) * 3)
        if self.ident is None:
            f = next((e.args[0] for p in self.ps for e in p.all("result")), None)
            if f is None:
                raise Broken("a fold does not lease a channel")
        base = next(t for p in self.ps for e in p.all("result") for t in subterms(e.args[0]) if head(t) == LEASE)
        e = next((t for p in self.ps for e in p.all("result") for t in subterms(e.args[0]) if t.tag == "vf" and t.a[1] == "Ok" and any_sub(t, lambda x: x is base)), None)
        if e is None:
            raise Broken("a fold does not lease a channel")
        self.ident, self.sender, self.receiver = (mk("f", e, i) for i in range(3))
        # the channels between the parts of the fold
        self.counters = {e.args[0] for p in self.items("Some", "Ok") for e in p.all("count") if e.args[0].tag != "int" and self.method(e) in ("fetch_add",)}

    @staticmethod
    def method(e):
        return None if e.ret is None else (head(e.ret) or "").rsplit("::", 1)[-1]

    def first(self, p, label):
        return bool(p.ev) and p.ev[0].label == label

    def input(self, e):
        return strip_proj(e.args[0])[0] is self.me

    def items(self, o, v=None):
        return [p for p in self.ps if self.first(p, "take") and self.input(p.ev[0]) and payload(p, p.ev[0])[:2] == (o, v)]

    def results(self, v):
        for p in self.ps:
            if self.first(p, "result") and p.variant(p.ev[0].ret) == "Some":
                t = mk("vf", p.ev[0].ret, "Some", "0")
                if p.variant(mk("f", t, 0)) == v:
                    yield p, mk("vf", mk("f", t, 0), v, "0"), mk("f", t, 1)

    def forwarded(self):
        """The paths that take a task from the channel between the parts."""
        return [p for p in self.ps if self.first(p, "take") and not self.input(p.ev[0])]

    def queued(self, p):
        """[(what, value, event)] of what goes into the queue."""
        return [(head(e.ret).rsplit("::", 1)[-1], e.args[1], e) for e in p.all("queue") if head(e.ret) is not None and not head(e.ret).endswith("::dequeue")]

    def tasks(self, p):
        """The tasks a path hands on: [(task, event)]."""
        return [(e.args[1], e) for e in p.all("hand", "publish") if len(e.args) > 1 and is_agg(e.args[1], "adt:" + TASK)]

    def sizes(self, p):
        """The terms that are the number of inputs on a path, once all are counted."""
        known_sizes = set()
        for q in self.ps:
            for e in q.all("count"):
                if self.method(e) == "load" and e.args[0] in self.counters and self.first(q, "take") and self.input(q.ev[0]) and payload(q, q.ev[0])[0] == "None":
                    known_sizes.add(e.ret)
        return known_sizes

    def published_sizes(self):
        """The atomics the size is stored in: {atomic: initial value}."""
        res = {}
        sizes = self.sizes(None)
        for q in self.items("None"):
            for e in q.all("count"):
                if self.stores(e) and e.args[1] in sizes:
                    init = next((x.a[0] for x in args_of(e.args[0]) if x.tag == "int"), None) if head(e.args[0]) else None
                    res[e.args[0]] = init
        return res

    @staticmethod
    def stores(e):
        return len(e.args) == 3 and e.args[2].tag == "agg" and "Ordering" in e.args[2].a[0] and (e.ret is None or head(e.ret) is None or head(e.ret).endswith("::store"))

    def size_terms(self, p):
        """The size as a path knows it: the count after the end of the input, or what was stored then, if it is known to be stored."""
        out = [t for t in self.sizes(p) if any(e.ret is t for e in p.all("count"))]
        stored = self.published_sizes()
        for e in p.all("count"):
            if self.method(e) == "load" and e.args[0] in stored:
                init = stored[e.args[0]]
                if init == 0 or init is not None and init in p.fact_not(e.ret):
                    out.append(e.ret)
        return out

    def known_of(self, p, r, goal, domain):
        for rng in {args_of(x)[0] for t in p.st.facts for x in subterms(t) if head(x) in (START, END)}:
            if strip_proj(rng)[0] is not strip_proj(r)[0] or not any_sub(rng, lambda x: x is r):
                continue
            lo, hi = range_leaves(p, rng)
            for size in self.size_terms(p):
                if lo is not None and hi is not None and implied(p, (lo, hi, size), domain, lambda env: goal(env[lo], env[hi], env[size])):
                    return True
        return False

    def final(self, p, r):
        """The path knows that the task output `r` is made of all inputs."""
        dom = [(s, e, n) for s in range(5) for e in range(s, 6) for n in range(9)]
        return self.known_of(p, r, lambda s, e, n: e - s + 1 == n, dom)

    def partial(self, p, r):
        """The path knows that the task output `r` is not made of all inputs, or does not know how many there are."""
        stored = self.published_sizes()
        if any(self.method(e) == "load" and e.args[0] in stored and p.fact_int(e.ret) == stored[e.args[0]] for e in p.all("count")):
            return True
        dom = [(s, e, n) for n in range(1, 9) for e in range(n) for s in range(e + 1)]
        return self.known_of(p, r, lambda s, e, n: (s, e) != (0, n - 1), dom)

    def size_is(self, p, n):
        return any(p.fact_int(t) == n for t in self.size_terms(p))


def whole(F, p, v):
    """`v` is the output of a task output that is made of all inputs, as far as the path knows."""
    if v.tag != "f" or v.a[-1] != "output":
        return False
    r = v.a[0]
    if F.final(p, r):
        return True
    return F.size_is(p, 1) and any(x is r for e in p.all("queue") if head(e.ret) == QUEUE + "dequeue" and p.fact_int(e.args[1]) == 0 for x in (mk("vf", e.ret, "Some", "0"),))


WAITS = ("wait", "hand", "publish", "close", "ack", "nack", "lease")


class Where(Want):
    """Events of futures that are waited for, with the calls they are waited for in as their last argument."""

    def __init__(self, *rows):
        super().__init__(*rows)
        self.at = {}

    def __call__(self, ev):
        l = super().__call__(ev)
        if l is None or ev.ctx is None:
            return l
        return l, ev.args + (intn(self.at.setdefault(ev.ctx, len(self.at))),)


def side_by_side(F, p, wait, call):
    """What is waited for is one of several futures that run together, and the call is made by another of them."""
    back = {v: k for k, v in p.interp.ctxs.items()}

    def chain(ctx):
        r = {}
        while ctx is not None and ctx in back:
            parent, body, bb, what = back[ctx]
            r[parent, body, bb] = str(what)
            ctx = parent
        return r

    at = next((x for x, n in F.want.at.items() if intn(n) is wait.args[-1]), None)
    if at is None or call.ret is None or call.ret.tag != "ret":
        return False
    a, b = chain(at), chain(p.interp.site_info[call.ret.a[0]][0])
    return any(k in b and a[k] != b[k] and a[k].startswith("arm") and b[k].startswith("arm") for k in a)


def c24(c):
    F = Fold(c)
    b = F.b

    def paired(p):
        for what, x, e in F.queued(p):
            if what != "acquire_contiguous_pair_or_queue":
                if what == "find_contiguous":
                    return "what is found in the queue is taken without its neighbour", e.loc
                continue
            got = p.variant(e.ret)
            ts = F.tasks(p)
            if got == "None":
                if ts:
                    return "a task is made without a pair of neighbours", e.loc
                continue
            if got is None:
                return "whether a neighbour was found is not looked at", e.loc
            if len(ts) != 1:
                return "a pair of neighbours makes %d tasks" % len(ts), e.loc
            pair = mk("vf", e.ret, "Some", "0")
            l, r = mk("f", pair, 0), mk("f", pair, 1)
            t, te = ts[0]
            f = named(c, t, TASK)
            if not (is_agg(f["input"], "tuple") and f["input"].a[3][0] is mk("f", l, "output") and f["input"].a[3][1] is mk("f", r, "output")):
                return "the input of a task is not the pair of neighbours in their order", te.loc
            rng = range_in(f["metadata"])
            lo, hi = (args_of(rng)[:2] if head(rng) else rng.a[3][:2]) if rng is not None else (None, None)
            ok_lo = lo is not None and head(lo) == START and any_sub(lo, lambda x: x is l) and not any_sub(lo, lambda x: x is r)
            ok_hi = hi is not None and head(hi) == END and any_sub(hi, lambda x: x is r) and not any_sub(hi, lambda x: x is l)
            if not (ok_lo and ok_hi):
                return "a task does not stand for the inputs of both neighbours", te.loc
            if f["op"] is not F.m:
                return "a task is not for the monoid of the fold", te.loc
            if f["routing_key"] is not F.ident:
                return "a task names another channel than the one its result is awaited on", te.loc
        return None

    c.forall("neighbours are combined in their order", b, F.ps, paired, lambda p: F.queued(p), floor=4)
    c.forall("only neighbours are combined", b, F.ps, lambda p: None if len([q for q in F.queued(p) if q[0].startswith("acquire")]) >= len(F.tasks(p)) else ("a task is made of something else than neighbours", F.tasks(p)[0][1].loc), lambda p: F.tasks(p), floor=2)

    def element(p):
        item = payload(p, p.ev[0])[2]
        for what, x, e in F.queued(p):
            f = named(c, x, OUTPUT)
            idx = mk("f", item, 0)
            rng = range_in(f["metadata"]) if f else None
            if rng is None or f["output"] is not mk("f", item, 1) or any(y is not idx for y in (args_of(rng)[:2] if head(rng) else rng.a[3][:2])):
                return "an item of the input does not stand for its own index", e.loc

    c.forall("an item of the input stands for its index", b, F.items("Some", "Ok"), element, floor=2)
    contiguity(c)
    # the monoid as an operation
    n = 0
    for imp, ty, ms in c.prog.impls_of("paladin::operation::Operation"):
        if "execute" not in ms or not ms["execute"].loc(ms["execute"].raw["span"]).startswith("paladin-core"):
            continue
        x = ms["execute"]
        ps = c.paths(x, Want(("call", r"Monoid::combine\Z", "combine")))
        if not any(p.all("combine") for p in ps):
            continue
        n += 1
        me, inp, abort = c.params(x)[:3]

        def combined(p):
            es = p.all("combine")
            if len(es) != 1:
                return "two values are combined %d times" % len(es)
            e = es[0]
            a = [p.resolve(y) for y in e.args]
            if strip_proj(a[0])[0] is not me or a[1] is not mk("f", inp, 0) or a[2] is not mk("f", inp, 1) or a[3] is not abort:
                return "two values are not combined in their order", e.loc
            if p.val is not e.ret:
                return "what is combined is not the result", e.loc

        c.forall("a monoid combines its two inputs in their order", x, ps, combined, lambda p: p.kind == "ret")
    c.ob("the operation of a monoid was found", "paladin::operation", n == 1, "%d operations of monoids were found" % n)


def awaited(c, F):
    def woken(p):
        """Results are awaited once there is a task."""
        if any(head(e.ret) and head(e.ret).endswith(("notify_one", "notify_last")) for e in p.all("notify")):
            return None
        if p.all("notify"):
            return "who does not wait yet is not told that there is a task", p.all("notify")[0].loc
        adds = [a.ret for a in p.all("count") if F.method(a) == "fetch_add"]
        if len(adds) == 1 and implied(p, (adds[0],), [(n,) for n in range(6)], lambda env: env[adds[0]] != 1):
            return None
        return "results are not awaited although there is a task", p.ev[0].loc

    c.forall("results are awaited once there is a task", F.b, F.items("Some", "Ok"), woken, lambda p: F.tasks(p))


def c25(c):
    F = Fold(c)
    b = F.b
    awaited(c, F)

    def complete(p):
        v = p.val.a[3][0]
        if head(v) == "paladin::operation::Monoid::empty":
            return None if args_of(v)[0] is F.m and F.size_is(p, 0) else "an input that is not known to be empty folds to the empty value"
        if whole(F, p, v):
            return None
        once = [x for x in subterms(v) if head(x) == "futures_channel::oneshot::channel"]
        if once and v.tag == "vf" and v.a[1] == "Ok" and any(any_sub(e.args[0], lambda x: x is once[0]) for q in F.ps for e in q.all("finish")):
            return None
        return "a fold succeeds with something that is not known to be made of all inputs"

    oks = [p for p in F.ps if ok_paths(p)]
    c.forall("a fold gives what is made of all inputs", b, oks, complete, floor=3)

    def sent(p):
        e = p.one("finish")
        return None if whole(F, p, e.args[1]) else ("something that is not known to be made of all inputs is taken for the result", e.loc)

    c.forall("the result is what is made of all inputs", b, F.ps, sent, lambda p: p.all("finish"))
    # every way in which a fold can come to its end is there
    has = lambda f: any(f(p) for p in F.ps)  # noqa
    c.ob("an empty input folds to the empty value", b.spath, has(lambda p: ok_paths(p) and F.size_is(p, 0) and head(p.val.a[3][0]) == "paladin::operation::Monoid::empty"), "an empty input does not fold to the empty value", b.where)
    c.ob("one input folds to itself", b.spath, has(lambda p: ok_paths(p) and F.size_is(p, 1) and whole(F, p, p.val.a[3][0])), "one input does not fold to itself", b.where)
    done = lambda p, r: ok_paths(p) and p.val.a[3][0] is mk("f", r, "output") or any(e.args[1] is mk("f", r, "output") for e in p.all("finish"))  # noqa
    rs = list(F.results("Ok"))

    def arrived(p):
        r, acker = next((r, a) for q, r, a in rs if q is p)
        acks = p.all("ack", "nack")
        if any(e.label == "nack" or e.args[0] is not acker for e in acks) or len(acks) > 1:
            return "another result than the one that arrived is acknowledged", acks[0].loc
        if not (acks and p.variant(acks[0].ret) == "Err") and F.final(p, r) and not done(p, r) and p.kind != "panic" and not known_lost(p):
            return "the result that is made of all inputs is not given", p.ev[0].loc
        if not (acks and p.variant(acks[0].ret) == "Err") and p.kind != "panic" and not known_lost(p) and not F.final(p, r) and not F.partial(p, r):
            return "a result that may be made of all inputs is taken for a partial one", p.ev[0].loc

    def known_lost(p):
        return err_paths(p)  # the result was given before

    c.forall("the result is given when it arrives", b, [p for p, _, _ in rs], arrived, floor=4)
    c.ob("the result is given when it arrives after all inputs", b.spath, any(F.final(p, r) and done(p, r) for p, r, _ in rs), "the result that is made of all inputs is not recognized when it arrives", b.where)

    G = Fold(c, Where)
    gs = list(G.results("Ok"))

    def at_once(p, since, e):
        """Nothing is waited for between two events, so that nothing else happens in between."""
        w = next((x for x in p.ev if since.i < x.i < e.i and x.label in WAITS and not side_by_side(G, p, x, e)), None)
        return None if w is None else w.loc

    def stale(p):
        r, acker = next((r, a) for q, r, a in gs if q is p)
        stored = G.published_sizes()
        for what, x, e in G.queued(p):
            seen = [l for l in p.all("count") if l.i < e.i and G.method(l) == "load" and l.args[0] in stored]
            loc = seen and at_once(p, seen[-1], e)
            if x is r and loc:
                return "all inputs may be counted between looking at their number and queueing a result: the whole result is then never given", loc

    c.forall("a result is queued at once after the number of inputs is looked at", b, [p for p, _, _ in gs], stale, floor=4)

    def put_back(p):
        for e in p.all("queue"):
            if head(e.ret) == QUEUE + "dequeue" and p.variant(e.ret) == "Some":
                r = mk("vf", e.ret, "Some", "0")
                for what, x, q in G.queued(p):
                    loc = x is r and what == "queue" and at_once(p, e, q)
                    if loc:
                        return "the neighbour of a result may be queued while the result is out of the queue: the two are then never combined", loc

    c.forall("a result that is looked at is put back at once", b, G.ps, put_back, lambda p: p.all("queue"))

    late = [p for p in F.items("None") if not (F.size_is(p, 0) or F.size_is(p, 1))]

    def checked(p):
        e = next((e for e in p.all("queue") if head(e.ret) == QUEUE + "dequeue"), None)
        if e is None:
            return "a result that is complete before the size is known is never given", p.ev[0].loc
        if p.variant(e.ret) == "Some":
            r = mk("vf", e.ret, "Some", "0")
            if F.final(p, r):
                return None if ok_paths(p) and p.val.a[3][0] is mk("f", r, "output") else ("a result that is complete before the size is known is not given", e.loc)
            if ok_paths(p):
                return "a result that is not known to be complete is given", e.loc
            if p.kind != "panic" and not F.partial(p, r):
                return "a result that may be complete is taken for a partial one", e.loc
            back = [q for q in F.queued(p) if q[1] is r]
            if len(back) != 1 or back[0][0] not in ("queue", "acquire_contiguous_pair_or_queue"):
                return "a partial result is lost", e.loc

    if F.published_sizes():
        c.forall("a result that is complete before the size is known is given", b, late, checked, floor=2)
        # it is looked for under the index a whole result begins with
        c.forall("a whole result is looked for at the first index", b, late, lambda p: None if all(p.fact_int(e.args[1]) == 0 for e in p.all("queue") if head(e.ret) == QUEUE + "dequeue") else "a whole result is not looked for at the first index", floor=1)
        c.forall("the size is stored once all inputs are counted", b, F.items("None"), lambda p: None if any(F.stores(e) and e.args[1] in F.sizes(p) for e in p.all("count")) else ("the size is not stored", p.ev[0].loc))

    def counted(p):
        adds = [e for e in p.all("count") if F.method(e) == "fetch_add"]
        if len(adds) != 1 or p.fact_int(adds[0].args[1]) != 1 and adds[0].args[1] is not intn(1):
            return "an input is counted %d times" % len(adds), p.ev[0].loc

    c.forall("every input is counted once", b, F.items("Some", "Ok"), counted, floor=2)
    c.ob("inputs are counted by one counter", b.spath, len(F.counters) == 1 and len(F.sizes(None)) >= 1, "the size is not the number of inputs", b.where)
    zero = [x.a[0] for t in F.counters if head(t) for x in args_of(t) if x.tag == "int"]
    c.ob("inputs are counted from zero", b.spath, zero == [0], "inputs are not counted from zero", b.where)

    def allowed(p):
        """No other panics than those of an input without the index zero and of a channel that ended while it was open."""
        if any(F.first(p, "result") and p.variant(p.ev[0].ret) == "None" for _ in (0,)):
            return None
        if any(head(e.ret) == QUEUE + "dequeue" and p.variant(e.ret) == "None" and p.fact_int(e.args[1]) == 0 for e in p.all("queue")) and F.size_is(p, 1):
            return None
        return "folding panics"

    c.forall("folding does not panic", b, F.ps, allowed, lambda p: p.kind == "panic", floor=0)
    errs = [p for p in F.items("Some", "Err")]
    c.forall("an error of the input fails the fold", b, errs, lambda p: None if result_kind(p) == "Err" and p.kind == "ret" and any_sub(p.val, lambda x: x is payload(p, p.ev[0])[2]) else ("an error of the input does not fail the fold", p.ev[0].loc))
    c.forall("an error of a task fails the fold", b, [p for p, _, _ in F.results("Err")], lambda p: None if p.kind == "ret" and result_kind(p) == "Err" else ("an error of a task does not fail the fold", p.ev[0].loc))


def c26(c):
    F = Fold(c)
    b = F.b

    def kept(p):
        q = F.queued(p)
        if len(q) != 1:
            return "an item of the input is put into the queue %d times" % len(q), p.ev[0].loc
        what, x, e = q[0]
        if what == "queue":
            # nothing else can be in the queue
            adds = [a.ret for a in p.all("count") if F.method(a) == "fetch_add"]
            if len(adds) != 1 or not implied(p, (adds[0],), [(n,) for n in range(6)], lambda env: env[adds[0]] == 0):
                return "an item of the input is put into the queue without looking for a neighbour", e.loc
        elif what != "acquire_contiguous_pair_or_queue":
            return "an item of the input is lost", e.loc
        return None

    c.forall("every input is queued or combined", b, F.items("Some", "Ok"), kept, floor=2)
    rs = list(F.results("Ok"))

    def gone(p):
        r, acker = next((r, a) for q, r, a in rs if q is p)
        q = [x for x in F.queued(p) if x[1] is r]
        if F.final(p, r) or err_paths(p) and any(e.label == "ack" and p.variant(e.ret) == "Err" for e in p.ev):
            if len(q) > 1:
                return "a result is put into the queue twice", q[1][2].loc
            return None
        if len(q) != 1 or q[0][0] != "acquire_contiguous_pair_or_queue" or len(F.queued(p)) != 1:
            return "a result is lost", p.ev[0].loc

    c.forall("every result is queued or combined", b, [p for p, _, _ in rs], gone, floor=4)

    def settled(p):
        acks = p.all("ack", "nack")
        return None if len(acks) == 1 and acks[0].label == "ack" else ("a result is acknowledged %d times" % len(acks), p.ev[0].loc)

    c.forall("every result is acknowledged once", b, [p for p, _, _ in rs if p.kind == "cut"], settled, floor=3)

    def before(p):
        """The fold may end as soon as its result is given: what is to be done after that may not happen."""
        f = p.one("finish")
        acks = [e for e in p.all("ack") if f is None or e.i < f.i]
        return None if acks else ("the last result is given before it is acknowledged, which may then not happen", f.loc if f else p.loc())

    c.forall("the last result is acknowledged before the fold can end", b, [p for p, _, _ in rs if p.all("finish") or ok_paths(p)], before, floor=1)
    # tasks that are handed on are published
    through = set()

    def passed(p):
        for t, e in F.tasks(p):
            if e.label == "publish":
                if e.args[0] is not F.sender:
                    return "a task is not sent on the channel that was leased", e.loc
                continue
            ch = next((x for x in subterms(e.args[0]) if head(x) and head(x).endswith("::channel")), None)
            if ch is None:
                return "where a task is sent is not known", e.loc
            through.add(ch)
        return None

    c.forall("every task is sent on", b, F.ps, passed, lambda p: F.tasks(p), floor=2)
    fw = F.forwarded()

    def onward(p):
        e = p.ev[0]
        pubs = p.all("publish")
        if p.variant(e.ret) != "Some":
            return None
        t = mk("vf", e.ret, "Some", "0")
        if len(pubs) != 1 or pubs[0].args[0] is not F.sender or not any(p.resolve(pubs[0].args[1]) is x for x in (t, mk("vf", t, "Ok", "0"))):
            return "a task that was made is not sent once on the channel that was leased", e.loc
        if p.variant(pubs[0].ret) == "Err":
            return None if err_paths(p) else ("a task that could not be sent is not reported", pubs[0].loc)
        return None if p.kind == "cut" else ("sending tasks ends before the fold does", pubs[0].loc)

    c.forall("no part of a fold rests before what it reads has ended", b, F.ps, lambda p: None if p.ev and p.ev[0].label in ("take", "result") else ("a part of a fold stops while there may be more to do", p.ev[-1].loc if p.ev else b.where), lambda p: p.kind == "cut" and "pending" in p.at)
    if through:
        c.forall("every task that is made is sent once", b, fw, onward, lambda p: p.kind in ("ret", "cut"), floor=2)
        read = {x for p in fw for x in subterms(p.ev[0].args[0]) if head(x) and head(x).endswith("::channel")}
        c.ob("the tasks that are sent are the ones that are made", b.spath, through <= read, "tasks are handed to a channel nobody reads", b.where)

    awaited(c, F)
    c.forall("a fold fails if a task cannot be handed on", b, F.ps, lambda p: None if err_paths(p) else ("a task that was not handed on is forgotten", p.one("hand").loc), lambda p: any(p.variant(e.ret) == "Err" for e in p.all("hand")))


# ----------------------------------------------------------------------------- the queue of partial results

SKIP = "crossbeam_skiplist::map::SkipMap::"
ENTRY = "crossbeam_skiplist::map::Entry::"
CELL = "crossbeam_utils::atomic::atomic_cell::AtomicCell::"


def short(t):
    return "::".join((head(t) or "").split("::")[-2:])


def side(t, key):
    """Whether an entry is the nearest at or above ('above') or below ('below') a key, and its lookup."""
    if t.tag != "vf" or t.a[1] != "Some":
        return None, None
    n = t.a[0]
    s = short(n)
    a = args_of(n) if head(n) else ()
    if s in ("SkipMap::lower_bound", "SkipMap::upper_bound") and a[1].tag == "agg" and a[1].a[3] and key(a[1].a[3][0]):
        return ("above" if s.endswith("lower_bound") else "below"), n
    if s in ("Iterator::next", "DoubleEndedIterator::next_back", "Range::next", "Range::next_back") and short(a[0]) == "SkipMap::range":
        bound = args_of(a[0])[1]
        lo, hi = None, None
        if is_agg(bound, "adt:core::ops::range::RangeFrom"):
            lo = bound.a[3][0]
        elif is_agg(bound, "adt:core::ops::range::RangeTo") or is_agg(bound, "adt:core::ops::range::RangeToInclusive"):
            hi = bound.a[3][0]
        elif is_agg(bound, "tuple") and len(bound.a[3]) == 2:
            lo, hi = ((x.a[3][0] if x.tag == "agg" and x.a[3] else None) for x in bound.a[3])
        if lo is not None and key(lo) and hi is None and s.endswith("::next"):
            return "above", n
        if hi is not None and key(hi) and lo is None and s.endswith("::next_back"):
            return "below", n
    return None, None


def entry_of(t):
    """The entry a cell is the value of."""
    return args_of(t)[0] if short(t) == "Entry::value" else None


def c27(c):
    want = Want(("call|opaque", r"crossbeam_skiplist|AtomicCell::|Contiguous::|Iterator::next|next_back", "q"))
    b = c.fn(QUEUE + "acquire_contiguous_pair_or_queue")
    me, new = c.params(b)[:2]
    ps = c.paths(b, want)

    def own_key(t):
        return (head(t) or "").endswith("Contiguous::key") and args_of(t)[0] is new

    class Q:
        def __init__(self, p):
            self.p = p
            self.takes = [e for e in p.ev if short(e.ret) in ("AtomicCell::take", "AtomicCell::swap") and p.variant(e.ret) != "None"]
            self.inserts = [e for e in p.ev if short(e.ret) in ("SkipMap::insert", "SkipMap::get_or_insert", "SkipMap::get_or_insert_with", "SkipMap::compare_insert")]
            self.removes = [e for e in p.ev if short(e.ret) in ("SkipMap::remove", "Entry::remove", "SkipMap::pop_front", "SkipMap::pop_back", "SkipMap::clear")]

        def sides(self):
            """{side: [(lookup, entry)]} of the neighbours that were looked up."""
            r = {"above": [], "below": []}
            terms = {x for e in self.p.ev if e.ret is not None for x in subterms(e.ret)} | {x for t in self.p.st.facts for x in subterms(t)}
            for n in terms:
                t = mk("vf", n, "Some", "0")
                s, _ = side(t, own_key)
                if s:
                    r[s].append((n, t))
            return r

        def contiguous(self, entry, val):
            for t, f in self.p.st.facts.items():
                if (head(t) or "").endswith("Contiguous::is_contiguous") and f == ("i", val):
                    a = args_of(t)
                    o = [x for x in a if x is not new]
                    if len(o) == 1 and any_sub(o[0], lambda x: short(x) == "Entry::value" and args_of(x)[0] is entry):
                        return True
            return False

    def took(p):
        q = Q(p)
        pair = p.val.a[3][0] if p.val.tag == "agg" and p.val.a[3] else None
        if pair is None or not is_agg(pair, "tuple") or len(pair.a[3]) != 2:
            return "what is handed out is not a pair"
        if q.inserts:
            return "a value is handed out and queued", q.inserts[0].loc
        if len(q.takes) != 1:
            return "%d values are taken for a pair" % len(q.takes)
        tk = q.takes[0]
        got = mk("vf", tk.ret, "Some", "0")
        entry = entry_of(tk.args[0])
        s, _ = side(entry, own_key) if entry is not None else (None, None)
        if s is None:
            return "what is taken is not a neighbour", tk.loc
        if not q.contiguous(entry, 1):
            return "what is taken is not known to be contiguous", tk.loc
        want_pair = (got, new) if s == "below" else (new, got)
        if pair.a[3] != want_pair:
            return "a pair is handed out in the wrong order", tk.loc
        if not any(e.args[-1] is entry or short(e.args[-1]) == "Entry::key" and args_of(e.args[-1])[0] is entry for e in q.removes) or len(q.removes) != 1:
            return "the value that is handed out stays in the queue", tk.loc

    some = lambda p: p.kind == "ret" and p.variant(p.val) == "Some"  # noqa
    none = lambda p: p.kind == "ret" and p.variant(p.val) == "None"  # noqa
    c.forall("a pair is the value and a neighbour that is taken from the queue, in order", b, ps, took, some, floor=2)

    def stored(p):
        q = Q(p)
        if q.takes:
            return "a value that is taken from the queue is lost", q.takes[0].loc
        if q.removes:
            return "a value of the queue is lost", q.removes[0].loc
        if len(q.inserts) != 1:
            return "a value is queued %d times" % len(q.inserts)
        e = q.inserts[0]
        if not own_key(e.args[1]) or not any_sub(e.args[2], lambda x: x is new):
            return "a value is not queued under its key", e.loc
        sides = q.sides()
        for s in ("above", "below"):
            if not any(p.variant(n) == "None" or q.contiguous(t, 0) or empty(p, t) for n, t in sides[s]):
                return "a value is queued without looking for a neighbour %s it" % s, e.loc

    def empty(p, entry):
        """The cell of the entry was found empty."""
        for e in p.ev:
            if short(e.ret) in ("AtomicCell::take", "AtomicCell::as_ptr", "AtomicCell::swap") and e.args[0].tag in ("ret", "pure") and entry_of(e.args[0]) is entry and p.variant(e.ret) == "None":
                return True
        return False

    c.forall("a value is queued only if it has no neighbour", b, ps, stored, none, floor=2)
    c.forall("looking for a neighbour does not panic", b, ps, lambda p: "looking for a neighbour panics", lambda p: p.kind == "panic", floor=0)
    b2 = c.fn(QUEUE + "queue")
    v = c.params(b2)[1]
    ps = c.paths(b2, want)

    def inserted(p):
        es = Q(p).inserts
        if len(es) != 1 or Q(p).removes or Q(p).takes:
            return "a value is queued %d times" % len(es)
        e = es[0]
        k = e.args[1]
        if not ((head(k) or "").endswith("Contiguous::key") and args_of(k)[0] is v) or not any_sub(e.args[2], lambda x: x is v):
            return "a value is not queued under its key", e.loc

    c.forall("a value is queued under its key", b2, ps, inserted, lambda p: p.kind == "ret")
    b3 = c.fn(QUEUE + "dequeue")
    ps = c.paths(b3, want)
    k3 = c.params(b3)[1]

    def taken_out(p):
        q = Q(p)
        if len(q.removes) != 1 or q.removes[0].args[-1] is not k3 or q.inserts:
            return "the value is not taken from the queue"
        e = q.removes[0]
        if p.variant(e.ret) == "None":
            return None if p.variant(p.val) == "None" else "a value is made up"
        t = [x for x in p.ev if short(x.ret) in ("AtomicCell::take", "AtomicCell::swap", "AtomicCell::into_inner")]
        if len(t) != 1 or not any_sub(t[0].args[0], lambda x: x is mk("vf", e.ret, "Some", "0")):
            return "the value is not taken out of its cell once", e.loc
        if p.val is t[0].ret or p.variant(t[0].ret) == p.variant(p.val) and (p.variant(p.val) == "None" or p.val.tag == "agg" and p.val.a[3][0] is mk("vf", t[0].ret, "Some", "0")):
            return None
        return "what is taken from the queue is not handed out", e.loc

    c.forall("a value that is taken is removed and handed out", b3, ps, taken_out, lambda p: p.kind == "ret", floor=2)
    b4 = next((x for x in c.prog.bodies.values() if re.match(r"<" + re.escape(QUEUE[:-2]) + r"<.*> as core::convert::From<.*>>::from\Z", x.spath)), None)
    if b4 is not None:
        def made(p):
            nxt = next((e.ret for e in p.all("q") if (head(e.ret) or "").endswith("Iterator::next")), None)
            item = mk("vf", nxt, "Some", "0")
            isk = lambda k: (head(k) or "").endswith("Contiguous::key") and args_of(k)[0] is item  # noqa
            pairs = [x for x in subterms(p.val) if is_agg(x, "tuple") and len(x.a[3]) == 2 and isk(x.a[3][0]) and any_sub(x.a[3][1], lambda y: y is item)]
            ins = [e for e in p.all("q") if short(e.ret) == "SkipMap::insert" and isk(e.args[1]) and any_sub(e.args[2], lambda y: y is item)]
            if nxt is None:
                return "what a queue is made from is not looked at to its end"
            if p.variant(nxt) == "Some" and not pairs and not ins:
                return "an element the queue is made from is not queued under its key"

        c.forall("what a queue is made from is queued under its key", b4, c.paths(b4, want), made, lambda p: p.kind == "ret")
    # values leave their cells only by being taken
    for x in c.prog.bodies.values():
        if not x.spath.startswith(QUEUE[:-2]):
            continue
        for bl in x.blocks:
            t = bl["t"]
            if t["k"] == "call" and bl["cl"] == 0:
                path = strip_generics(callee(t))
                if path.endswith(("ptr::read", "mem::transmute", "ptr::mut_ptr::read", "const_ptr::read", "mut_ptr::read", "read_volatile", "transmute_copy", "ptr::read_unaligned")):
                    c.ob("values leave the queue only by being taken", x.spath, False, "a value is copied out of the queue", x.loc(t["s"]))
    c.ob("values leave the queue only by being taken", QUEUE, True)


def callee(t):
    f = t.get("f") or {}
    for k in ("k", "c"):
        if isinstance(f.get(k), dict) and "fn" in f[k]:
            return f[k]["fn"]["path"]
    return (f.get("fn") or {}).get("path", "") if isinstance(f, dict) else ""


RULES = {"C23": c23, "C24": c24, "C25": c25, "C26": c26, "C27": c27}
