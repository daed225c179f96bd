"""The worker: C12 (settling), C13 (results), C14 (failures), C15 (terminated jobs), C16 (abort signals), C17 (background tasks)."""
from common import *

RT = "paladin::runtime::"
WORKER = RT + "WorkerRuntime"
MAIN = WORKER + "::main_loop"
FACTORY = "paladin::channel::ChannelFactory::"
CHANNEL = "paladin::channel::Channel::"
EXECUTE = "paladin::task::AnyTask::remote_execute"
CHANNELS = (FACTORY + "get", FACTORY + "issue", CHANNEL + "sender", CHANNEL + "receiver", "paladin::common::get_random_routing_key")
OPAQUE = CHANNELS + (EXECUTE,)
NEXT = ("await", r"StreamExt::next\Z|TryStreamExt::try_next\Z|Stream::poll_next\Z", "next")
SETTLE = (("await", r"Acker::ack\Z", "ack"), ("await", r"Acker::nack\Z", "nack"))
MAP = ("call", r"\Adashmap::|DashMap::|VacantEntry::|OccupiedEntry::", "map")
SEND = (("await", r"Publisher::publish\Z", "publish"), ("await", r"Publisher::close\Z", "close"))
RUN = (("await", re.escape(EXECUTE) + r"\Z", "outcome"), ("call", re.escape(EXECUTE) + r"\Z", "execute"))
# what the output of an operation comes from
OUTPUT = re.compile(r"::(to_bytes|retry|retry_trace)\Z")
WATCHED = (("watch", r"::set\Z", "signal"), ("watch", r"::read\Z", "value"), ("await", r"watch::Receiver::(changed|wait_for)\Z", "changed"), ("call", r"watch::(Receiver|Sender)::\w+\Z", "watch"))
FLAG = ("call", r"core::sync::atomic::AtomicBool::|core::sync::atomic::Atomic::", "flag")
SPAWN = ("call", r"JoinSet::\w+\Z|::spawn\Z|::spawn_blocking\Z|::spawn_local\Z", "spawn")


class Turn:
    """One turn of the worker's loop: the task that was taken and what happened to it."""

    def __init__(self, p):
        self.p = p
        self.next = p.one("next")
        self.taken = self.next is not None and p.ev[0] is self.next and p.variant(self.next.ret) == "Some"
        if self.taken:
            t = mk("vf", self.next.ret, "Some", "0")
            self.payload, self.acker = mk("f", t, 0), mk("f", t, 1)
            self.key = mk("f", self.payload, "routing_key")
            self.executed = p.one("execute")
            o = p.one("outcome")
            self.outcome = p.variant(o.ret) if o else None
            self.out = o.ret if o else None
        # how the turn ends: it goes on with the next task, the worker stops, or it fails
        self.ends = "next" if p.kind == "cut" else {"Ok": "stop", "Err": "fail"}.get(result_kind(p)) if p.kind == "ret" else p.kind


def turns(c, *rows):
    b = c.fn(MAIN)
    ps = c.paths(b, Want(NEXT, *rows), opaque=OPAQUE, cut="next")
    return b, ps


def taken(select=lambda t: True):
    def f(p):
        t = Turn(p)
        return t.taken and select(t)

    return f


def from_queue(t):
    """(identifier, type) of the channel a sender or receiver belongs to."""
    for s in subterms(t):
        if s.tag == "ret" and s.a[2] == FACTORY + "get":
            return s.a[3][1], s.a[3][2]
    return None


def is_type(t, name):
    return t is not None and is_agg(t, "adt:paladin::channel::ChannelType") and t.a[2] == name


def settled(p, acker):
    return [e.label for e in p.all("ack", "nack") if e.args[0] is acker]


# --------------------------------------------------------------------------- C12


def c12(c):
    b, ps = turns(c, *SETTLE, *RUN, FLAG)

    def own(p):
        t = Turn(p)
        if any(e.args[0] is not t.acker for e in p.all("ack", "nack")):
            return ("something else than the task that was taken is acknowledged", p.all("ack", "nack")[0].loc)

    c.forall("a worker settles only the task it took", b, ps, own, taken())

    def executed_once(p):
        t = Turn(p)
        if len(p.all("execute")) != 1:
            return "a task is executed more than once"
        if t.executed.args[0] is not t.payload:
            return ("something else than the task that was taken is executed", t.executed.loc)

    c.forall("a task that is executed is executed once", b, ps, executed_once, taken(lambda t: t.executed))

    def succeeded(p):
        t = Turn(p)
        s = settled(p, t.acker)
        if t.ends in ("next", "stop"):
            return None if s == ["ack"] else "a task that succeeded is %s" % ("never settled" if not s else "settled by " + " and ".join(s))
        return None if s in ([], ["ack"]) else "a task that succeeded is settled by " + " and ".join(s)

    c.forall("a task that succeeded is acknowledged once", b, ps, succeeded, taken(lambda t: t.outcome == "Ok"), floor=2)

    def failed(p):
        t = Turn(p)
        s = settled(p, t.acker)
        if t.ends in ("next", "stop"):
            return None if s == ["nack"] else "a task that failed is %s" % ("never settled" if not s else "settled by " + " and ".join(s))
        return None if s in ([], ["nack"]) else "a task that failed is settled by " + " and ".join(s)

    c.forall("a task that failed is negatively acknowledged once", b, ps, failed, taken(lambda t: t.outcome == "Err"), floor=2)

    def unfinished(p):
        t = Turn(p)
        s = settled(p, t.acker)
        if not t.executed and t.ends == "stop" and not s and flagged(p):
            return None  # what is left to the connection when a worker was told to stop
        if t.ends in ("next", "stop"):
            return None if s == ["nack"] else "a task that was not completed is %s" % ("never settled" if not s else "settled by " + " and ".join(s))
        return None if s in ([], ["nack"]) else "a task that was not completed is settled by " + " and ".join(s)

    c.forall("a task that was not completed is negatively acknowledged once", b, ps, unfinished, taken(lambda t: t.outcome is None and t.ends in ("next", "stop", "fail")), floor=2)

    def order(p):
        s = p.all("ack", "nack")
        o = p.one("outcome")
        if s and o and s[0].i < o.i:
            return ("a task is settled before its outcome is known", s[0].loc)

    c.forall("a task is settled once its outcome is known", b, ps, order, taken())
    c.forall("every task that was taken is looked at", b, ps, lambda p: None if p.all("flag", "ack", "nack", "execute") else "a task that was taken is forgotten", taken())


def flagged(p):
    """The path found the abort flag set."""
    return any(atomic(e)[0] == "load" and p.truth(e.ret) is True for e in Calls(p))


def Calls(p):
    for e in p.all("flag"):
        yield Ev_(e)


class Ev_:
    def __init__(self, e):
        self.kind, self.path, self.args, self.ret, self.loc = "call", e.ret.a[2] if e.ret.tag == "ret" else "", e.args, e.ret, e.loc


# --------------------------------------------------------------------------- C13

RESULT = "adt:paladin::task::AnyTaskResult"
IPC = "adt:paladin::runtime::CommandIpc"


def published(p):
    """[(channel identifier, channel type, message, event)] of everything sent on a path, failed sends included."""
    r = []
    for e in p.all("publish"):
        q = from_queue(e.args[0])
        r.append((q[0] if q else None, q[1] if q else None, e.args[1], e))
    return r


def closed_first(p):
    """A sender that is used after it was closed."""
    shut = {}
    for e in p.all("publish", "close"):
        if e.label == "close":
            shut.setdefault(e.args[0], e)
        elif e.args[0] in shut:
            return ("a sender is closed before what it is for is sent", shut[e.args[0]].loc)


def c13(c):
    clones(c, "a copy of a task is the same task", "paladin::task::")
    b, ps = turns(c, *SEND, *RUN)

    def answered(p):
        t = Turn(p)
        sent = published(p)
        for ident, kind, msg, e in sent:
            if not is_agg(msg, RESULT) or msg.a[2] != "Ok":
                return ("something else than its result is sent for a task that succeeded", e.loc)
            if fields(msg)[0] is not mk("vf", t.out, "Ok", "0"):
                return ("the result that is sent is not the output of the task", e.loc)
            if ident is not t.key:
                return ("the result of a task is not sent to the channel the task names", e.loc)
            if not is_type(kind, "ExactlyOnce"):
                return ("the result of a task is sent to a channel of another type than the one that is read", e.loc)
        if t.ends in ("next", "stop") and len(sent) != 1 or len(sent) > 1:
            return "the result of a task that succeeded is sent %d times" % len(sent)
        if t.ends in ("next", "stop") and p.variant(sent[0][3].ret) != "Ok":
            return ("the worker goes on without knowing that the result was sent", sent[0][3].loc)

    c.forall("the output of a task is sent once, to the channel the task names", b, ps, answered, taken(lambda t: t.outcome == "Ok"), floor=2)
    c.forall("the channel of a result is closed after it was sent", b, ps, closed_first, taken(lambda t: t.outcome == "Ok"), floor=2)
    c.forall("no result is sent for a task that has none", b, ps, lambda p: ("a result is sent for a task without one", p.one("publish").loc) if p.all("publish") else None, taken(lambda t: t.outcome is None))

    # what is executed is the task itself, by the operation it names
    b = c.fn(EXECUTE)
    ps = c.paths(b, (("call", r"\A<fn value>\Z", "run"), ("await", r"\A<fn value>\Z", "result"), ("call", r"slice::.*::get\Z|slice::get\Z|SliceIndex|Index::index\Z", "lookup")))
    me, abort = c.params(b)[:2]

    def runs(p):
        r = p.all("run")
        if not r:
            return None if result_kind(p) == "Err" else "a task succeeds without being executed"
        if len(r) != 1:
            return "a task is executed more than once"
        a = r[0].args
        if a[1] is not me or a[2] is not abort:
            return ("an operation is not executed with the task and the abort signal it is given", r[0].loc)
        if not names_its_own(a[0], me):
            return ("the operation that is executed is not the one the task names", r[0].loc)
        o = p.one("result")
        if o is None:
            return "an operation is not awaited"
        if p.val is not o.ret and not (p.val.tag == "agg" and fields(p.val) and fields(p.val)[0] is mk("vf", o.ret, p.variant(p.val), "0")):
            return "the result of the operation is changed"

    c.forall("a task is executed by the operation it names, and its result is passed on", b, ps, runs, lambda p: p.kind == "ret", floor=2)
    c.forall("executing a task does not panic", b, ps, lambda p: "a task makes the worker panic", lambda p: p.kind == "panic", floor=0)

    n = 0
    for b in generated(c):
        n += 1
        ps = c.paths(b, (), may_panic=None, opaque=("paladin::operation::error::OperationError::retry_trace", "paladin::operation::error::OperationError::retry", "paladin::serializer::Serializer::to_bytes"))
        task = c.params(b)[0]

        def wrapped(p):
            v = p.val.a[3][0] if p.val.tag == "agg" else None
            if v is None or not is_agg(v, "adt:paladin::task::AnyTaskOutput"):
                return "a task succeeds without an output"
            f = dict(zip([n for n, _ in c.adt("paladin::task::AnyTaskOutput")["v"][0]["f"]], fields(v)))
            if f["metadata"] is not mk("f", task, "metadata") or f["serializer"] is not mk("f", task, "serializer"):
                return "the output of a task does not carry the metadata and the serializer of the task"
            if not intact(f["output"], lambda t: OUTPUT.search(head(t.a[0] if t.tag == "out" else t) or "")):
                return "the output of a task is not all of what the operation returned"

        c.forall("an output carries the metadata and the serializer of its task", b, ps, wrapped, ok_paths)
    c.ob("the generated functions were found", "paladin-opkind-derive", n >= 3, "only %d generated functions were found" % n)


def names_its_own(f, me):
    """The function is the one found under exactly the number the task carries."""
    return any_sub(f, lambda t: t.tag == "f" and t.a[0] is me and t.a[1] == "operation_id") and not any_sub(f, lambda t: t.tag in ("bin", "binop"))


def generated(c):
    """The functions `#[derive(RemoteExecute)]` generates."""
    r = []
    for b in c.prog.bodies.values():
        if b.kind == "fn" and re.search(r"__execute_\d+\Z", b.spath) and b.id.startswith("probe#"):
            r.append(b)
    return r


# --------------------------------------------------------------------------- C14


def c14(c):
    CUT = ("call", r"string::String::(truncate|clear|pop|remove|drain|retain|replace_range|split_off)\Z", "cut")
    b, ps = turns(c, *SEND, *RUN, MAP, *SETTLE, CUT)

    def strategy(p):
        t = Turn(p)
        e = mk("vf", t.out, "Err", "0")
        got = set()
        for x, f in p.st.facts.items():
            if any_sub(x, lambda s: s is e):
                if f[0] == "v" and f[1] in ("Terminate", "Ignore"):
                    got.add(f[1])
                elif f[0] == "nv" and len({"Terminate", "Ignore"} - set(f[1])) == 1 and set(f[1]) & {"Terminate", "Ignore"}:
                    got |= {"Terminate", "Ignore"} - set(f[1])
        return got.pop() if len(got) == 1 else None

    fails = taken(lambda t: t.outcome == "Err")
    c.forall("what happens about a failure depends on its strategy", b, ps, lambda p: None if strategy(p) else "a failure is dealt with without looking at its strategy", lambda p: fails(p) and (Turn(p).ends in ("next", "stop")), floor=2)

    def terminates(p):
        t = Turn(p)
        e = mk("vf", t.out, "Err", "0")
        told = aborted = 0
        for ident, kind, msg, ev in published(p):
            if is_agg(msg, RESULT):
                if msg.a[2] != "Err":
                    return ("a failed task is reported as a success", ev.loc)
                if ident is not t.key or not is_type(kind, "ExactlyOnce"):
                    return ("the failure of a task is not sent to the channel the task names", ev.loc)
                if not any_sub(fields(msg)[0], lambda s: s is e):
                    return ("the failure that is sent is not that of the task", ev.loc)
                if not whole_text(fields(msg)[0], e) or any(any_sub(x.args[0], lambda s: s is e) for x in p.all("cut")):
                    return ("not all of a failure is sent", ev.loc)
                told += 1
            elif is_agg(msg, IPC):
                if not is_key(ident, "command-ipc-routing-key") or not is_type(kind, "Broadcast"):
                    return ("the abort signal is not broadcast on the command channel", ev.loc)
                if not is_key(fields(msg)[0], "abort-all-key"):
                    return ("the abort signal does not stop everything", ev.loc)
                aborted += 1
            else:
                return ("something else than a failure and an abort signal is sent for a failed task", ev.loc)
        if t.ends in ("next", "stop"):
            if told != 1:
                return "a fatal failure is reported to the leader %d times" % told
            if aborted != 1:
                return "a fatal failure aborts the workers %d times" % aborted
            bad = [x for x in p.all("publish") if p.variant(x.ret) != "Ok"]
            if bad:
                return ("the worker goes on although a fatal failure was not reported", bad[0].loc)
        elif told > 1 or aborted > 1:
            return "a fatal failure is reported more than once"

    c.forall("a fatal failure is sent to the job's leader and aborts the workers", b, ps, terminates, lambda p: fails(p) and strategy(p) == "Terminate")
    c.forall("a channel is closed after the failure or the signal was sent", b, ps, closed_first, fails)
    c.forall("an ignored failure is not reported and stops nothing", b, ps,
             lambda p: ("an ignored failure is sent to somebody", p.one("publish").loc) if p.all("publish") else (("an ignored failure terminates its job", marks(p)[0].loc) if marks(p) else None),
             lambda p: fails(p) and strategy(p) == "Ignore")
    c.forall("the worker goes on after an ignored failure", b, ps, lambda p: None if p.kind == "cut" else "the worker stops because of a failure that is to be ignored",
             lambda p: fails(p) and strategy(p) == "Ignore" and not (p.kind == "ret" and result_kind(p) == "Err" and all(p.variant(e.ret) == "Err" for e in p.all("nack")[-1:])))

    # the leader: a failure that arrives is a failure
    b = c.fn("paladin::task::AnyTaskResult::into_task_result")
    ps = c.paths(b, ())
    me = c.params(b)[0]

    def read(p):
        v = p.variant(me)
        if v == "Err":
            if result_kind(p) != "Err":
                return "the leader takes a failure for a result"
            if not any_sub(p.val, lambda s: s is mk("vf", me, "Err", "0")):
                return "the leader loses the message of a failure"
        elif v != "Ok":
            return "the leader does not look at what it receives"

    c.forall("a failure that arrives at the leader is a failure", b, ps, read, lambda p: p.kind == "ret", floor=2)
    c.forall("reading a result does not panic", b, ps, lambda p: "reading a result panics", lambda p: p.kind == "panic", floor=0)


def is_key(t, s):
    return t is not None and t.tag == "str" and t.a[0] == s


def marks(p):
    return [e for e in p.all("map") if e.ret.tag == "ret" and e.ret.a[2].rsplit("::", 1)[1] in ("insert", "insert_entry", "or_insert", "or_insert_with")]


# --------------------------------------------------------------------------- C15


def root_map(t):
    """The map a call on it or on one of its entries is about."""
    while t.tag in ("vf", "f", "arc") or t.tag == "ret" and t.a[2].endswith("DashMap::entry"):
        t = t.a[0] if t.tag != "ret" else t.a[3][0]
    return t


def key_of(e):
    """The key a write to a map is for."""
    name = e.ret.a[2]
    if "DashMap::" in name:
        return e.args[1]
    t = e.args[0]
    for s in subterms(t):
        if s.tag == "ret" and s.a[2].endswith("DashMap::entry"):
            return s.a[3][1]
    return None


def background(c, *rows):
    """The futures the worker runs in the background: [(spawn event, paths of the future)]"""
    b, ps = turns(c, SPAWN)
    pre = [p for p in ps if p.kind == "cut" and not p.all("next")]
    ways = {tuple((e.loc, e.ret.a[2], tuple(a.a[0] for a in e.args if a.tag == "agg")) for e in p.all("spawn")) for p in pre}
    if len(ways) != 1:
        raise Broken("the worker starts its loop in %d ways" % len(ways))
    r = []
    for e in pre[0].all("spawn"):
        fut = [a for a in e.args if a.tag == "agg" and a.a[0].startswith(("coroutine:", "closure:", "lazy:"))]
        if e.ret.a[2].rsplit("::", 1)[1] in ("new", "default"):
            continue
        if len(fut) != 1:
            raise Broken("what the worker runs in the background at %s is not known" % e.loc)
        r.append((e, c.continued(pre[0], b, fut[0], Want(NEXT, ("await", r"time::sleep|Interval::tick|sleep_until", "next"), *rows), opaque=OPAQUE, cut="next")))
    return b, pre[0], r


def listener(c, *rows):
    """The background future that listens to the command channel."""
    b, pre, fs = background(c, *rows)
    hit = []
    for e, ps in fs:
        if any(p.all("next") and listens(p.one("next")) for p in ps):
            hit.append((e, ps))
    if len(hit) != 1:
        raise Broken("%d background tasks of the worker listen to the command channel" % len(hit))
    return b, pre, hit[0], fs


def listens(e):
    return any(s.tag == "ret" and s.a[2] == FACTORY + "get" and is_key(s.a[3][1], "command-ipc-routing-key") and is_type(s.a[3][2], "Broadcast") for a in e.args + (e.ret,) for s in subterms(a))


def command(p):
    """The key of the abort command a turn of the listener received."""
    n = p.one("next")
    if n is None or p.variant(n.ret) != "Some" or p.ev[0] is not n:
        return None
    return mk("f", mk("vf", n.ret, "Some", "0"), 0)


def c15(c):
    b, ps = turns(c, MAP, *RUN, *SETTLE)
    maps = set()

    def looked(p):
        t = Turn(p)
        seen = [e for e in p.all("map") if e.i < t.executed.i and consults(p, e, t.key)]
        if not seen:
            return ("a task is executed without looking whether its job was terminated", t.executed.loc)
        maps.add(root_map(seen[-1].args[0]))

    c.forall("a task is executed only if its job is not terminated", b, ps, looked, taken(lambda t: t.executed))

    def skipped(p):
        t = Turn(p)
        if t.executed:
            return ("a task of a terminated job is executed", t.executed.loc)

    def terminated(p):
        t = Turn(p)
        return any(known_entry(p, e, t.key) for e in p.all("map") if not t.executed or e.i < t.executed.i)

    c.forall("a task of a terminated job is not executed, and the worker goes on", b, ps, lambda p: skipped(p) or (None if p.kind == "cut" or p.kind == "ret" and result_kind(p) == "Err" else "a worker stops at a task of a terminated job"),
             lambda p: taken()(p) and terminated(p))
    c.ob("one record of the terminated jobs is consulted", MAIN, len(maps) == 1, "tasks are looked up in %d records of terminated jobs" % len(maps))
    the = next(iter(maps), None)

    def marked(p):
        t = Turn(p)
        e = mk("vf", t.out, "Err", "0")
        ms = [m for m in marks(p) if root_map(m.args[0]) is the and key_of(m) is t.key]
        if not ms and not any(known_entry(p, m, t.key) for m in p.all("map") if root_map(m.args[0]) is the and m.i > t.executed.i):
            return "a job whose task failed fatally is not recorded as terminated"

    def fatal(p):
        t = Turn(p)
        return any(f[0] == "v" and f[1] == "Terminate" and any_sub(x, lambda s: s is t.out) for x, f in p.st.facts.items())

    c.forall("a job is terminated by a fatal failure of one of its tasks", b, ps, marked, lambda p: taken(lambda t: t.outcome == "Err" and t.ends == "next")(p) and fatal(p))

    b, pre, (e, ls), fs = listener(c, MAP, ("watch", r"::set\Z", "signal"), ("watch", r"::read\Z", "value"))

    def recorded(p):
        k = mk("f", mk("vf", command(p), "Abort", "0"), "routing_key")
        ks = command_keys(p)
        ms = [m for m in marks(p) if key_of(m) in ks]
        if any(root_map(m.args[0]) is not the for m in ms):
            return ("an aborted job is recorded elsewhere than where tasks look", ms[0].loc)
        if not ms and not any(known_entry(p, m, x) for m in p.all("map") for x in ks):
            return "a job that is aborted is not recorded as terminated"

    c.forall("a job is terminated by an abort command", e.loc, ls, recorded, lambda p: command(p) is not None and p.kind == "cut")

    # nothing but old entries leaves the record
    n = 0
    for e, qs in fs + [(None, ps)]:
        for p in qs:
            for m in p.all("map"):
                if root_map(m.args[0]) is not the:
                    continue
                name = m.ret.a[2].rsplit("::", 1)[1]
                if name in ("remove", "clear", "remove_if", "remove_entry", "alter", "alter_all", "shrink_to_fit", "insert_entry", "replace_entry", "get_mut", "iter_mut"):
                    c.ob("terminated jobs are not forgotten", m.fn, False, "`%s` removes a terminated job from the record" % name, m.loc)
                if name == "retain":
                    n += 1
                    retained(c, p, m)
    c.notes.append("%d places where the record of terminated jobs is pruned" % n)


def command_keys(p):
    """Terms for the key of the command of a turn of the listener (any field of the one variant)."""
    m = command(p)
    ks = set()
    for e in p.ev:
        for a in e.args:
            if not isinstance(a, N):
                continue
            for s in subterms(a):
                if s.tag in ("f", "vf") and s.a[-1] == "routing_key" and any_sub(s, lambda x: x is m):
                    ks.add(s)
    return ks


def consults(p, e, key):
    """The event asks the map for the key, and the path knows it is not there."""
    name = e.ret.a[2].rsplit("::", 1)[1] if e.ret.tag == "ret" else ""
    if len(e.args) < 2 or e.args[1] is not key:
        return False
    if name == "contains_key":
        return p.truth(e.ret) is False
    if name in ("get", "try_get", "get_mut", "view"):
        return p.variant(e.ret) == "None"
    if name in ("entry", "try_entry"):
        return p.variant(e.ret) == "Vacant"
    return False


def found(p, e, key):
    name = e.ret.a[2].rsplit("::", 1)[1] if e.ret.tag == "ret" else ""
    if len(e.args) < 2 or e.args[1] is not key:
        return False
    if name == "contains_key":
        return p.truth(e.ret) is True
    if name in ("get", "try_get", "get_mut", "view"):
        return p.variant(e.ret) == "Some"
    return False


def known_entry(p, e, key):
    """The path found the key to be in the map already."""
    name = e.ret.a[2].rsplit("::", 1)[1] if e.ret.tag == "ret" else ""
    return len(e.args) > 1 and e.args[1] is key and (name == "entry" and p.variant(e.ret) == "Occupied" or found(p, e, key))


def retained(c, p, m):
    """What `retain` keeps: entries that are younger than some interval."""
    clo = m.args[1]
    b = c.prog.bodies[clo.a[0].split(":", 1)[1]] if clo.tag == "agg" and clo.a[0].startswith("closure:") else None
    if b is None:
        return c.ob("only old entries leave the record of terminated jobs", m.fn, False, "what is kept in the record is not known", m.loc)
    qs = c.applied(p, b, clo, [mk("param", "$key"), mk("param", "$since")], (("call", r"Instant::(elapsed|duration_since)\Z", "age"),))

    def young(q):
        v = q.val
        if v.tag == "int":
            ages = [(t, f) for t, f in q.st.facts.items() if f[0] == "i" and t.tag not in ("vf", "f") and any_sub(t, lambda x: x.tag == "ret" and "Instant::" in x.a[2])]
            if not ages:
                return None if v.a[0] else "entries leave the record of terminated jobs whatever their age"
            t, f = ages[0]
            v = t if f[1] == v.a[0] else mk("not", t)
        if not any_sub(v, lambda t: t.tag == "ret" and "Instant::" in t.a[2]):
            return "entries leave the record of terminated jobs for another reason than their age"
        if keeps_old(v):
            return "the record of terminated jobs keeps the old entries and forgets the recent ones"
        if any(no_time(c, t) for t in subterms(v)):
            return "entries leave the record of terminated jobs at once"

    c.forall("only old entries leave the record of terminated jobs", b, qs, young, lambda q: q.kind == "ret")


def no_time(c, t):
    """A duration, given in place or by a constant, that is zero."""
    name = t.a[0] if t.tag == "pure" else t.a[2] if t.tag == "ret" else ""
    if re.search(r"Duration::from_(secs|millis|micros|nanos)\Z", name):
        args = t.a[1] if t.tag == "pure" else t.a[3]
        return bool(args) and args[0].tag == "int" and args[0].a[0] == 0
    for b in c.prog.bodies.values():
        if t.tag == "pure" and not t.a[1] and b.kind == "const" and name in (b.spath, "const " + b.spath):
            return any(p.kind == "ret" and any(no_time(c, s) for s in subterms(p.val)) for p in c.paths(b, ()))
    return name.endswith("Duration::ZERO")


def is_age(t):
    return any_sub(t, lambda s: s.tag == "ret" and "Instant::" in s.a[2])


def keeps_old(v):
    neg = False
    while v.tag == "not":
        v, neg = v.a[0], not neg
    op, x, y = None, None, None
    if v.tag == "bin":
        op, x, y = v.a[0], v.a[1], v.a[2]
    elif v.tag in ("pure", "ret"):
        name = (v.a[0] if v.tag == "pure" else v.a[2]).rsplit("::", 1)[-1]
        args = v.a[1] if v.tag == "pure" else v.a[3]
        op, x, y = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}.get(name), *(args + (None, None))[:2]
    if op in ("Lt", "Le"):
        r = is_age(y) if not is_age(x) else False
    elif op in ("Gt", "Ge"):
        r = is_age(x)
    else:
        return True
    return r != neg


# --------------------------------------------------------------------------- C16

ALL = "abort-all-key"


def signalled(p):
    """The path saw the signal that aborts everything: the term that was compared."""
    for x, f in p.st.facts.items():
        if f == ("i", 1) and any_sub(x, lambda s: is_key(s, ALL)) and x.tag != "ret":
            for s in subterms(x):
                if s.tag == "ret" and (s.a[2].startswith("tokio::sync::watch::Receiver::borrow") or s.a[2] == "watch::value"):
                    return s
    return None


def compared(p, v, want):
    """Whether the path knows a term to be (or not to be) the key that aborts everything."""
    for x, f in p.st.facts.items():
        if f == ("i", 1 if want else 0) and any_sub(x, lambda s: is_key(s, ALL)) and any_sub(x, lambda s: s is v):
            return True
    return is_key(v, ALL) if want else v.tag == "str" and not is_key(v, ALL)


def watch_of(t):
    """The watch channel one of whose halves this is."""
    for s in subterms(t):
        if s.tag == "ret" and s.a[2] == "tokio::sync::watch::channel":
            return s
    return None


def c16(c):
    b, ps = turns(c, *RUN, FLAG, *WATCHED, *SETTLE)
    chans = set()

    def stores(p):
        return [(Ev_(e), e) for e in p.all("flag") if e.ret.tag == "ret" and e.ret.a[2].endswith(("::store", "::swap", "::fetch_or"))]

    def obeyed(p):
        t = Turn(p)
        w = watch_of(signalled(p))
        if w is None:
            return "the abort signal is not read from the worker's signal channel"
        chans.add(w)
        if t.outcome is not None:
            return None
        st = [e for _, e in stores(p) if p.truth(e.args[1]) is True or e.args[1].tag == "int" and e.args[1].a[0]]
        if not st:
            return "an abort signal does not set the flag that running operations see"
        if order_of(st[-1].args[2]) not in ("SeqCst", "Release", "AcqRel", "Relaxed"):
            return ("the abort flag is not written atomically", st[-1].loc)
        if t.executed and not any_sub(t.executed.args[1], lambda s: s is st[-1].args[0]):
            return ("the flag that is set is not the one the running operation was given", st[-1].loc)
        if t.ends not in ("stop", "fail"):
            return "a worker goes on after a signal to abort everything"

    c.forall("an abort signal sets the running operation's flag and stops the worker", b, ps, obeyed, lambda p: taken()(p) and signalled(p) is not None and p.kind != "panic")
    c.forall("an abort signal is acted on while an operation runs", b, ps, lambda p: None,
             lambda p: taken(lambda t: t.executed and t.outcome is None and t.ends == "stop")(p) and signalled(p) is not None)

    def ignored(p):
        sig = signalled(p)
        at = next((e.i for e in p.all("watch") if e.ret is sig), None)
        if at is not None and any(e.i > at for e in p.all("changed")) and not stores(p):
            return ("a signal to abort everything is passed over", p.one("changed").loc)

    def unread(p):
        """A change that was waited for, and then another is waited for before the first is looked at."""
        last = None
        for e in p.ev:
            if e.label == "changed" and e.ret is not None:
                if last is not None and p.variant(last.ret) != "Err" and last.args and e.args and watch_of(last.args[0]) is watch_of(e.args[0]):
                    return ("a signal is passed over: another is waited for before it is looked at", e.loc)
                last = e
            elif e.label == "value" or e.label == "watch" and not Ev_(e).path.endswith(("::changed", "::wait_for")):
                last = None

    def kept(p):
        for x, e in stores(p):
            if p.truth(e.args[1]) is False or e.args[1].tag == "int" and not e.args[1].a[0]:
                return ("the abort flag is taken back", e.loc)

    c.forall("every signal that is waited for is looked at", b, ps, unread)
    c.forall("the abort flag is never taken back", b, ps, kept, floor=0)
    c.forall("a worker does not wait on after a signal to abort everything", b, ps, ignored, lambda p: signalled(p) is not None)

    def spurious(p):
        t = Turn(p)
        if any(not (e.args[1].tag == "int" and not e.args[1].a[0]) for _, e in stores(p)) and signalled(p) is None:
            return ("the abort flag is set without a signal to abort everything", stores(p)[0][1].loc)
        if t.ends == "stop" and signalled(p) is None and not flagged(p):
            return "a worker stops without a signal to abort everything"

    c.forall("nothing but a signal to abort everything stops a worker", b, ps, spurious, taken())

    def given(p):
        t = Turn(p)
        a = t.executed.args[1]
        if not (a.tag == "agg" and a.a[2] == "Some"):
            return ("an operation is executed without the abort flag", t.executed.loc)
        if any(x.tag in ("ret", "pure") and re.search(r"Atomic\w*::(new|from)\Z", short_head(x)) and not (args_of(x)[0].tag == "int" and not args_of(x)[0].a[0]) for x in subterms(a)):
            return ("the abort flag is set from the start", t.executed.loc)

    c.forall("an operation is given the abort flag", b, ps, given, taken(lambda t: t.executed))

    def spins(p):
        seen = set()
        if p.all("changed"):
            return None
        for e in p.all("watch"):
            if e.ret.tag == "ret" and "borrow" in e.ret.a[2]:
                if e.loc in seen:
                    return ("the worker looks for a signal again and again without waiting for one: nothing else can run", e.loc)
                seen.add(e.loc)

    c.forall("a worker waits for signals", b, ps, spins, taken(lambda t: t.executed))

    def halted(p):
        t = Turn(p)
        if t.executed:
            return ("a task is executed although the abort flag is set", t.executed.loc)
        if t.ends == "next":
            return "a worker goes on although the abort flag is set"

    def was_set(p):
        t = Turn(p)
        return any(Ev_(e).path.endswith("::load") and p.truth(e.ret) is True and (not t.executed or e.i < t.executed.i) for e in p.all("flag"))

    c.forall("a worker whose abort flag is set executes nothing more", b, ps, halted, lambda p: taken()(p) and was_set(p))

    def unseen(p):
        for e in p.all("watch"):
            n = e.ret.a[2].rsplit("::", 1)[1] if e.ret.tag == "ret" else ""
            if n not in ("borrow_and_update", "mark_unchanged", "subscribe"):
                continue
            waits = [x.i for x in p.all("changed")]
            if any(w < e.i for w in waits):
                continue
            reads = [x for x in p.all("watch") if x.i >= e.i and x.ret.tag == "ret" and "borrow" in x.ret.a[2] and all(x.i < w for w in waits)]
            if not any(compared(p, r.ret, True) or compared(p, r.ret, False) for r in reads):
                return ("a signal that arrived before the worker waits is passed over", e.loc)

    c.forall("a signal that came while no task was running is not passed over", b, ps, unseen, taken(lambda t: t.executed))
    c.ob("workers wait for one signal channel", MAIN, len(chans) == 1, "abort signals are read from %d channels" % len(chans))
    the = next(iter(chans), None)

    b, pre, (e, ls), fs = listener(c, MAP, ("watch", r"::set\Z", "signal"), ("watch", r"::read\Z", "value"))

    def raised(p):
        ks = command_keys(p)
        sig = [s for s in p.all("signal") if watch_of(s.args[0]) is the]
        done = False
        for s in sig:
            tx, old, new, told = s.args
            if not told.a[0]:
                if compared(p, old, True):
                    done = True
                continue
            if not (new in ks or is_key(new, ALL)):
                return ("something else than the command that was received is signalled", s.loc)
            if not compared(p, old, False) and not compared(p, new, True):
                return ("a later signal may replace a signal to abort everything before the worker sees it", s.loc)
            done = True
        if done or any(compared(p, k, False) for k in ks):
            return None
        if any(known_entry(p, m, k) for m in p.all("map") for k in ks):
            return None  # it was signalled when it was recorded
        return "an abort command is not signalled to the running task"

    c.forall("an abort command is signalled to the running task", e.loc, ls, raised, lambda p: command(p) is not None and p.kind == "cut")

    def recorded_first(p):
        ks = command_keys(p)
        s, m = p.all("signal"), [m for m in marks(p) if key_of(m) in ks]
        if s and m and s[0].i < m[0].i:
            return ("a job is signalled before it is recorded as terminated", s[0].loc)

    c.forall("a command is recorded before it is signalled", e.loc, ls, recorded_first, lambda p: command(p) is not None and p.kind == "cut")
    c.forall("the listener goes on after every command", e.loc, ls, lambda p: "the listener ends at a command", lambda p: command(p) is not None and p.kind != "cut", floor=0)
    q = c.paths(c.fn(WORKER + "::get_command_ipc_receiver"), (), opaque=CHANNELS)
    c.forall("commands are received from the broadcast channel they are sent to", WORKER + "::get_command_ipc_receiver", q,
             lambda p: None if any(s.tag == "ret" and s.a[2] == FACTORY + "get" and is_key(s.a[3][1], "command-ipc-routing-key") and is_type(s.a[3][2], "Broadcast") for s in subterms(p.val)) else "commands are received from another channel", ok_paths)


# --------------------------------------------------------------------------- C17

SPAWNERS = re.compile(r"\A(tokio::task::(spawn|blocking|local|builder)::|tokio::task::join_set::JoinSet::(spawn|build)|tokio::runtime::.*::spawn|std::thread::(spawn|Builder)|tokio::runtime::.*::block_on|async_std::|futures_util::.*::spawn)")
JOINSET = "tokio::task::join_set::JoinSet::"
LEAKS = re.compile(r"JoinSet::(detach_all)\Z|core::mem::forget\Z|ManuallyDrop::new\Z|Box::(leak|into_raw)\Z")


def spawn_sites(c):
    r = []
    for b in c.prog.bodies.values():
        if not b.id.startswith("paladin#") or "/src/" not in b.file:
            continue
        for bl in b.blocks:
            t = bl["t"]
            if t["k"] == "call" and "k" in t["f"] and t["f"]["k"].get("fn"):
                p = strip_generics(t["f"]["k"]["fn"]["path"])
                if SPAWNERS.search(p):
                    r.append((b, p, b.loc(t["s"])))
    return r


def c17(c):
    want = (("call", SPAWNERS.pattern, "spawn"), ("call", r"JoinSet::\w+\Z|core::mem::forget\Z|Box::(leak|into_raw)\Z", "set"), *RUN)
    b, ps = turns(c, *want)
    pre = [p for p in ps if p.kind == "cut" and not p.all("next")]

    def owned(p):
        for e in p.all("spawn"):
            n = e.ret.a[2]
            if not n.startswith(JOINSET):
                return ("a worker starts a task that nobody stops when the worker ends", e.loc)
            s = e.args[0]
            if not (s.tag == "ret" and s.a[2] in (JOINSET + "new", JOINSET + "default") or s.tag == "ret" and s.a[2].endswith("Default::default")):
                return ("a worker's background task is put in a set that the worker does not own", e.loc)
        for e in p.all("set"):
            if LEAKS.search(e.ret.a[2]):
                return ("a worker's background tasks are detached from it", e.loc)

    c.forall("the background tasks of a worker are stopped when its main loop ends or is dropped", b, ps, owned)
    unleaked(c, "what a worker or a runtime holds is dropped with it", (RT, "<" + RT))
    c.ob("the background tasks of a worker were found", MAIN, bool(pre) and all(p.all("spawn") for p in pre), "no background task of the worker was found")
    entered = set(c.fns)

    # the emulated workers of an in-memory runtime
    em = [x for x in spawn_sites(c) if not (x[0].spath.split("::{closure")[0] in {f.split("::{closure")[0] for f in entered})]
    d = c.method("core::ops::drop::Drop", RT + "Runtime", "drop")
    dp = c.paths(d, (("call", r"JoinHandle::abort\Z|AbortHandle::abort\Z", "abort"), ("call|item", r"Iterator::next\Z|(Vec|VecDeque)::(pop|pop_front|pop_back)\Z", "item"), ("call", r"JoinSet::\w+\Z", "set"), ("call", r"::(is_empty|len)\Z", "size")), cut="item")
    holder = c.field(RT + "Runtime", lambda t: "JoinHandle" in t or "JoinSet" in t, "worker_emulator")
    joinset = any("JoinSet" in c.prog.crates["paladin"].tys[t]["s"] for n, t in c.adt(RT + "Runtime")["v"][0]["f"] if n == holder and t is not None)

    dme = c.params(d)[0]

    counted = {}

    def numbered(p):
        """How many workers there are on a path that goes through them by their numbers, if it stops each."""
        ends = []
        for t, f in p.st.facts.items():
            if t.tag != "bin" or f[0] != "i":
                continue
            op, x, y = t.a[0], t.a[1], t.a[2]
            n = next((v for v in (x, y) if (head(v) or "").endswith("::len") and any_sub(v, lambda s: s is dme)), None)
            i = y if n is x else x
            if n is None or (op, i is x, f[1]) not in (("Lt", True, 0), ("Ge", True, 1), ("Gt", False, 0), ("Le", False, 1), ("Eq", True, 1), ("Eq", False, 1), ("Ne", True, 0), ("Ne", False, 0)):
                if any_sub(t, lambda s: s.tag == "wide") and n is None:
                    return None  # something else depends on the number
                continue
            ends.append((i, args_of(n)[0]))
        if len(ends) != 1 or ends[0][0].tag not in ("int", "wide"):
            return None
        i, of = ends[0]
        last = p.all("abort")[-1:]
        if not last:
            return i.a[0] if i.tag == "int" and i.a[0] == 0 else None
        h = last[0].args[0]
        if not (head(h) or "").endswith("Index::index") or args_of(h)[0] is not of:
            return None
        k = args_of(h)[1]
        if i.tag == "int":
            return i.a[0] if k.tag == "int" and k.a[0] + 1 == i.a[0] else None
        return -1 if k.tag == "wide" or k.tag == "int" else None

    def all_seen(p):
        its = p.all("item")
        if p.all("set") or any(p.variant(e.ret) == "None" for e in its):
            return None
        if not its and numbered(p) is not None:
            counted[numbered(p)] = p
            return None
        if its:
            return "some of the workers are not looked at when the runtime is dropped"
        for t, f in p.st.facts.items():
            if strip_proj(t)[0] is dme and strip_proj(t)[1][-1:] == (holder,) and f == ("v", "None"):
                return None  # there are no workers
            h = head(t) or ""
            if (h.endswith("::is_empty") and f == ("i", 1) or h.endswith("::len") and f == ("i", 0)) and any_sub(t, lambda s: s is dme):
                return None
        return "some of the workers are not looked at when the runtime is dropped"

    c.forall("dropping a runtime leaves out none of its workers", d, dp, all_seen, lambda p: p.kind == "ret")

    def aborted(p):
        it = p.one("item")
        if it is None or p.variant(it.ret) != "Some":
            return None
        h = mk("vf", it.ret, "Some", "0")
        if not any(a.args[0] is h for a in p.all("abort")):
            return ("an emulated worker is not stopped when the runtime is dropped", it.loc)

    c.forall("dropping a runtime stops each of its workers", d, dp, aborted, lambda p: p.kind in ("cut", "ret"))
    if counted:
        c.ob("workers are gone through by their numbers", d.spath, {0, 1, 2} <= set(counted), "not every worker is looked at when the runtime is dropped", d.where)
    elif not joinset:
        c.forall("dropping a runtime looks at all of its workers", d, dp, lambda p: None,
                 lambda p: p.kind == "cut" and p.all("item") and p.variant(p.one("item").ret) == "Some" and p.all("abort"))

    b = c.fn(RT + "Runtime::from_config")
    fp = c.paths(b, (("call", SPAWNERS.pattern, "spawn"), ("call", r"(Vec|VecDeque|LinkedList|SmallVec)\w*::(push|push_back)\Z", "push")), opaque=(*CHANNELS, RT + "dynamic_channel::DynamicChannelFactory::from_config", MAIN))

    def held(p):
        sp = p.all("spawn")
        if not sp:
            return None
        v = next((t for t in subterms(p.val) if is_agg(t, "adt:" + RT + "Runtime")), None)
        if v is None:
            return ("the workers of a runtime that could not be made go on running", sp[0].loc) if result_kind(p) == "Err" else "a runtime's workers are not held by the runtime"
        f = dict(zip([n for n, _ in c.adt(RT + "Runtime")["v"][0]["f"]], fields(v)))
        h = f[holder]
        for e in sp:
            if any(u.args[1] is e.ret and any_sub(h, lambda s: s is u.args[0]) for u in p.all("push")):
                continue
            if not e.ret.a[2].startswith(JOINSET) and not any_sub(h, lambda s: s is e.ret or e.ret.tag == "ret" and s.tag == "ret" and s.a[2] == e.ret.a[2] and s.a[0] == e.ret.a[0]):
                return ("a worker is started that the runtime does not hold on to", e.loc)

    c.forall("a runtime holds on to the workers it starts", b, fp, held, lambda p: p.kind == "ret", floor=2)
    entered |= set(c.fns)

    # whatever else is started ends by itself
    others = {"release": c.method("paladin::channel::Channel", "paladin::channel::queue::QueueChannel", "release")}
    for n, b in others.items():
        qs = c.paths(b, (("call", SPAWNERS.pattern, "spawn"),))
        for p in qs:
            for e in p.all("spawn"):
                fut = [a for a in e.args if a.tag == "agg"]
                rs = c.continued(p, b, fut[0], (("await", "", "step"),)) if fut else []
                c.forall("a task that is started on its own ends", b, rs, lambda q: None if len(q.all("step")) <= 4 else "a task that is started on its own does not end", lambda q: q.kind == "ret")
    entered |= set(c.fns)
    for b, what, loc in spawn_sites(c):
        base = b.spath.split("::{closure")[0]
        c.ob("every task that is started is accounted for", base, base in {f.split("::{closure")[0] for f in entered}, "`%s` starts a task that nobody waits for or stops" % base, loc)


RULES = {"C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17}
