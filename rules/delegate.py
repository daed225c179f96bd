"""C30: what wraps an acknowledger, a publisher or a channel passes everything on to it; C31: both ends of a channel agree on it."""
import re

from common import *
from directive import LEASE, args_of
from indexed import same_outcome
from operation import named

ACKER = "paladin::acker::Acker"
PUBLISHER = "paladin::queue::publisher::Publisher"
EXT = "paladin::queue::publisher::PublisherExt"
CHANNEL = "paladin::channel::Channel"
FACTORY = "paladin::channel::ChannelFactory"
QCHANNEL = "paladin::channel::queue::QueueChannel"
QFACTORY = "paladin::channel::queue::QueueChannelFactory"
DYN = "paladin::runtime::dynamic_channel::DynamicChannel"
DYNF = "paladin::runtime::dynamic_channel::DynamicChannelFactory"
CONN = "paladin::queue::Connection"
HANDLE = "paladin::queue::QueueHandle"
TYPE = "adt:paladin::channel::ChannelType"
CONFIG = "paladin::config::Config"
INNER = ("await", r"(acker::Acker|publisher::Publisher)::(ack|nack|publish|close)\Z", "inner")
OPQ = (ACKER + "::*", PUBLISHER + "::*")
# what settles and sends itself, with rules of its own
LEAVES = re.compile(r"<paladin::(acker::(NoopAcker|ComposedAcker)|channel::coordinated_channel|queue::amqp|queue::in_memory|queue::publisher::With)")


def done(p):
    return p.kind == "ret"


def meth(e):
    return (head(e.ret.a[0] if e.ret.tag == "out" else e.ret) or "").rsplit("::", 1)[-1]


def result_of(p, t):
    """What a path returns is the result `t`."""
    if p.val is t:
        return True
    k = p.variant(t)
    if k is None or result_kind(p) != k:
        return False
    if k == "Err":
        return any_sub(p.val, lambda x: x is mk("vf", t, "Err", "0"))
    return True


def name_of(e):
    return e.what if hasattr(e, "what") else None


def passes(c, b, name, what):
    me, *rest = c.params(b)

    def one(p):
        es = p.all("inner")
        if len(es) != 1:
            return "%s passes on a call %d times" % (what, len(es))
        e = es[0]
        if called_name(e) != name:
            return "%s passes on `%s` as `%s`" % (what, name, called_name(e)), e.loc
        if strip_proj(e.args[0])[0] is not me or any(x is not y for x, y in zip(e.args[1:], rest)) or len(e.args) - 1 != len(rest):
            return "%s passes on something else" % what, e.loc
        if not result_of(p, e.ret):
            return "%s reports another result than that of what it wraps" % what, e.loc

    c.forall("a wrapper passes on what it is asked for", b, c.paths(b, Want(INNER), opaque=OPQ), one, done)
    c.forall("a wrapper does not panic", b, c.paths(b, Want(INNER), opaque=OPQ), lambda p: "%s panics" % what, lambda p: p.kind == "panic", floor=0)


def called_name(e):
    for t in subterms(e.ret):
        h = head(t)
        if h and re.search(r"(Acker|Publisher)::(ack|nack|publish|close)\Z", h) and args_of(t) == e.args:
            return h.rsplit("::", 1)[-1]
    t = e.ret
    while t.tag in ("out", "vf", "f"):
        t = t.a[0]
    return (head(t) or "").rsplit("::", 1)[-1]


# what gives the same value again each time
ONCE = re.compile(r"\b(OnceLock|OnceCell|LazyLock|LazyCell|Lazy)::|Atomic::load\Z|LocalKey::")


def c30(c):
    clones(c, "a copy of a channel or a factory is of the same back end", "paladin::channel::", "paladin::runtime::dynamic_channel::")
    n = 0
    for b in sorted(c.prog.bodies.values(), key=lambda b: b.spath):
        m = re.match(r"<(.*) as paladin::(acker::Acker|queue::publisher::Publisher<.*>)>::(ack|nack|publish|close)\Z", b.spath)
        if not m or LEAVES.match(b.spath):
            continue
        n += 1
        passes(c, b, m.group(3), "a wrapped %s" % ("acknowledger" if "acker" in m.group(2) else "publisher"))
    c.ob("the wrappers were found", "all implementations of Acker and Publisher", n >= 6, "the wrappers were not found")
    # two acknowledgers in one
    comp = "paladin::acker::ComposedAcker"
    nb = c.fn(comp + "::new")
    one, two = c.params(nb)[:2]
    made = [p for p in c.paths(nb, Want()) if p.kind == "ret"]
    for name in ("ack", "nack"):
        b = c.method(ACKER, comp, name)
        me = c.params(b)[0]
        ps = c.paths(b, Want(INNER), opaque=OPQ)

        def both(p, me=me, name=name):
            es = p.all("inner")
            f = named(c, made[0].val, comp) if made else None
            if f is None:
                return "what two acknowledgers are made of is not known"
            places = {k: (0 if v is one else 1 if v is two else None) for k, v in f.items()}
            seq = []
            for e in es:
                r, pr = strip_proj(e.args[0])
                if r is not me or len(pr) != 1 or places.get(pr[0]) is None:
                    return "something else is settled", e.loc
                if called_name(e) != name:
                    return "two acknowledgers are settled differently", e.loc
                seq.append(places[pr[0]])
            if len(set(seq)) != len(seq):
                return "an acknowledger is settled twice", es[0].loc
            bad = [e for e in es if p.variant(e.ret) == "Err"]
            if bad:
                if es[-1] is not bad[0] and seq != [0, 1]:
                    return "an acknowledger is settled although the one before it failed", bad[0].loc
                if seq and seq[0] != 0:
                    return "the second acknowledger is settled before the first", es[0].loc
                return None if result_kind(p) == "Err" else ("a failure to settle is not reported", bad[0].loc)
            if seq != [0, 1]:
                return "settling does not settle the first and then the second acknowledger"
            if result_kind(p) != "Ok" and p.val is not es[-1].ret:
                return "a failure is reported although both are settled"

        c.forall("two acknowledgers are settled alike, the first one first", b, ps, both, done, floor=2)
    # a publisher that translates
    w = "paladin::queue::publisher::With"
    wb = next((x for x in c.prog.bodies.values() if x.spath == EXT + "::with"), None)
    if wb is None:
        raise Broken("`%s::with` is not there" % EXT)
    inner, func = c.params(wb)[:2]
    wp = [p for p in c.paths(wb, Want()) if p.kind == "ret"]
    f = named(c, wp[0].val, w) if wp else None
    c.ob("translating keeps the publisher and the function", wb.spath, f is not None and inner in f.values() and func in f.values(), "what translates does not keep its publisher and its function", wb.where)
    fields = {k: ("p" if v is inner else "f" if v is func else None) for k, v in (f or {}).items()}
    b = c.method(PUBLISHER, w, "publish")
    me, msg = c.params(b)[:2]
    APPLY = ("call|opaque", r"core::ops::function::Fn(Mut|Once)?::call(_mut|_once)?\Z|<fn value>", "apply")
    ps = c.paths(b, Want(INNER, APPLY), opaque=OPQ)

    def translated(p):
        ap, es = p.all("apply"), p.all("inner")
        if len(ap) != 1 or not any_sub(tuple_term(ap[0].args), lambda x: x is msg):
            return "what is published is not translated once"
        r, pr = strip_proj(ap[0].args[0])
        if r is not me or fields.get(pr[-1] if pr else None) != "f":
            return "what is published is translated by something else", ap[0].loc
        v = p.variant(ap[0].ret)
        if v == "Err":
            if es or result_kind(p) != "Err" or not any_sub(p.val, lambda x: x is mk("vf", ap[0].ret, "Err", "0")):
                return "a message that cannot be translated is not refused", ap[0].loc
            return None
        if len(es) != 1 or called_name(es[0]) != "publish":
            return "a message is published %d times" % len(es), ap[0].loc
        e = es[0]
        r, pr = strip_proj(e.args[0])
        if r is not me or fields.get(pr[-1] if pr else None) != "p" or e.args[1] is not mk("vf", ap[0].ret, "Ok", "0"):
            return "what is published is not the translation", e.loc
        if not result_of(p, e.ret):
            return "publishing reports another result", e.loc

    c.forall("a message is translated and published once", b, ps, translated, done, floor=2)
    b = c.method(PUBLISHER, w, "close")
    passes(c, b, "close", "what translates")
    # many at once
    b = c.fn(EXT + "::publish_all")
    me, src = c.params(b)[:2]
    TK = ("await|call|opaque", r"::(try_)?next(_unpin)?\Z|::(try_)?poll_next\Z", "take")
    ps = c.paths(b, Want(INNER, TK), opaque=OPQ, cut="take")

    def each(p):
        if not p.ev:
            return None if p.kind == "cut" else "publishing all ends before it begins"
        t, es = p.ev[0], p.all("inner")
        if t.label != "take" or strip_proj(t.args[0])[0] is not src:
            return "what is published is not taken from the stream", t.loc
        v = p.variant(t.ret)
        if v == "None":
            return None if not es and result_kind(p) == "Ok" else ("the end of the stream is not the end of publishing", t.loc)
        x = mk("vf", t.ret, "Some", "0")
        if p.variant(x) == "Err":
            return None if not es and result_kind(p) == "Err" and any_sub(p.val, lambda y: y is mk("vf", x, "Err", "0")) else ("an error of the stream is not reported", t.loc)
        if len(es) != 1 or called_name(es[0]) != "publish" or strip_proj(es[0].args[0])[0] is not me or es[0].args[1] is not mk("vf", x, "Ok", "0"):
            return "an item is published %d times" % len(es), t.loc
        if p.variant(es[0].ret) == "Err":
            return None if p.kind == "ret" and result_kind(p) == "Err" else ("a failure to publish is not reported", es[0].loc)
        if p.variant(es[0].ret) != "Ok":
            return "publishing goes on without looking at whether it succeeded", es[0].loc
        return None if p.kind == "cut" else ("publishing ends before the stream does", t.loc)

    c.forall("every item of a stream is published once", b, ps, each, lambda p: p.kind in ("ret", "cut"), floor=4)
    channels(c)


def tuple_term(args):
    return mk("agg", "tuple", 0, "", tuple(args))


def channels(c):
    # channels made of queues
    DECL = ("await", r"Connection::declare_queue\Z", "declare")
    PUB = ("call|opaque", r"QueueHandle::publisher\Z", "publisher")
    CONS = ("await", r"QueueHandle::declare_consumer\Z", "consumer")
    CLOSE = ("await", r"Connection::close\Z", "close")
    DEL = ("await|call|opaque", r"Connection::delete_queue\Z", "delete")
    qopq = (CONN + "::*", HANDLE + "::*")
    for name, label in (("sender", "publisher"), ("receiver", "consumer")):
        b = c.method(CHANNEL, QCHANNEL, name)
        me = c.params(b)[0]

        def made(p, me=me, label=label, name=name):
            ds, es = p.all("declare"), p.all("publisher", "consumer")
            if len(ds) != 1 or p.all("close", "delete"):
                return "%d queues are declared for a %s" % (len(ds), name)
            d = ds[0]
            conn, ident = strip_proj(d.args[0]), strip_proj(d.args[1])
            if conn != (me, ("connection",)) or ident != (me, ("identifier",)):
                return "a %s is not of the queue with the channel's name on its connection" % name, d.loc
            if not mode_of(p, d.args[2], mk("f", me, "channel_type")):
                return "a queue is not declared with the channel's mode", d.loc
            if p.variant(d.ret) == "Err":
                return None if result_of(p, d.ret) else ("a failure to declare a queue is not reported", d.loc)
            if len(es) != 1 or es[0].label != label or es[0].args[0] is not mk("vf", d.ret, "Ok", "0"):
                return "a %s is not of the queue that is declared" % name, d.loc
            e = es[0]
            if label == "consumer" and not any_sub(e.args[1], lambda t: t.tag in ("ret", "out") and t is not d.ret and not any_sub(t, lambda x: x is me) and not ONCE.search(short_head(t))):
                return "the consumers of a queue have one name", e.loc
            if label == "consumer":
                return None if result_of(p, e.ret) and (p.variant(e.ret) == "Err" or p.val is e.ret or p.val.a[3][0] is mk("vf", e.ret, "Ok", "0")) else ("a receiver is not the consumer of the queue", e.loc)
            return None if result_kind(p) == "Ok" and p.val.a[3][0] is e.ret else ("a sender is not the publisher of the queue", e.loc)

        c.forall("a %s is of the queue of its channel" % name, b, c.paths(b, Want(DECL, PUB, CONS, CLOSE, DEL), opaque=qopq), made, done, floor=2)
    b = c.method(CHANNEL, QCHANNEL, "close")
    me = c.params(b)[0]
    c.forall("closing a channel closes its connection", b, c.paths(b, Want(CLOSE, DEL), opaque=qopq), lambda p: None if len(p.all("close")) == 1 and not p.all("delete") and strip_proj(p.one("close").args[0]) == (me, ("connection",)) and result_of(p, p.one("close").ret) else "closing a channel does not close its connection", done)
    for name in ("get", "issue"):
        b = c.method(FACTORY, QFACTORY, name)
        ps = c.params(b)
        RAND = ("call|opaque", r"common::get_random_routing_key\Z", "random")

        def named_right(p, ps=ps, name=name):
            if result_kind(p) != "Ok":
                return "making a channel fails"
            v = p.val.a[3][0]
            if name == "issue":
                if not is_agg(v, "tuple"):
                    return "a channel is issued without its name"
                ident, v = v.a[3]
            f = named(c, v, QCHANNEL)
            if f is None:
                return "what is made is not a channel"
            if strip_proj(f["connection"])[0] is not ps[0] or f["channel_type"] is not ps[-1] and not is_variant_of(p, f["channel_type"], ps[-1]):
                return "a channel has not the connection and the type it is asked for"
            if name == "get":
                return None if f["identifier"] is ps[1] else "a channel has not the name it is asked for"
            rs = p.all("random")
            if not rs or f["identifier"] is not rs[-1].ret and f["identifier"] not in [r.ret for r in rs]:
                return "a channel is issued under a name that is not fresh"
            if ident is not f["identifier"]:
                return "a channel is issued under another name than the one that is told"

        c.forall("a channel has the name and type it is asked for" if name == "get" else "a channel is issued under a fresh name", b, c.paths(b, Want(RAND), opaque=("paladin::common::*",)), named_right, done)
    # what a mode means for the queue
    b = c.method("core::convert::From", "paladin::queue::QueueOptions", "from")
    t = c.params(b)[0]

    def option(p):
        v = p.variant(t)
        f = named(c, p.val, "paladin::queue::QueueOptions")
        if v is None or f is None:
            return "the options of a queue do not depend on the channel's type"
        m = p.variant(f["syndication_mode"])
        if m != v:
            return "a channel of type %s gets a queue of mode %s" % (v, m)
        if p.variant(f["delivery_mode"]) != "Persistent":
            return "what is sent on a channel of type %s is not kept for a receiver that comes later" % v

    c.forall("a channel's queue has the channel's mode", b, c.paths(b, Want()), option, done, floor=2)
    # channels of either kind
    INC = ("await", r"channel::Channel(>)?::(close|sender|receiver)\Z", "inner")
    INF = ("await", r"channel::ChannelFactory(>)?::(get|issue)\Z", "inner")
    opq = (CHANNEL + "::*", FACTORY + "::*")
    for trait, adt, names, row in ((CHANNEL, DYN, ("close", "sender", "receiver"), INC), (FACTORY, DYNF, ("get", "issue"), INF)):
        for name in names:
            b = c.method(trait, adt, name)
            me, *rest = c.params(b)

            def chosen(p, me=me, rest=rest, name=name):
                es = p.all("inner")
                v = p.variant(me)
                if len(es) != 1 or v is None:
                    return "a channel of either kind passes on a call %d times" % len(es)
                e = es[0]
                if e.args[0] is not mk("vf", me, v, "0") or any(x is not y for x, y in zip(e.args[1:], rest)):
                    return "a channel of either kind passes on something else", e.loc
                if last_name(e) != name:
                    return "a channel of either kind passes on `%s` as `%s`" % (name, last_name(e)), e.loc
                k = p.variant(e.ret)
                if p.val is e.ret:
                    return None if name == "close" else ("a channel is not made of what was asked for", e.loc)
                if result_kind(p) != k:
                    return "a channel of either kind reports another result", e.loc
                if k == "Err":
                    return None if result_of(p, e.ret) else ("a channel of either kind reports another failure", e.loc)
                ok, got = mk("vf", e.ret, "Ok", "0"), p.val.a[3][0]
                if name == "get":
                    good = is_agg(got, "adt:" + DYN) and got.a[2] == v and got.a[3][0] is ok
                elif name == "issue":
                    good = is_agg(got, "tuple") and got.a[3][0] is mk("f", ok, 0) and is_agg(got.a[3][1], "adt:" + DYN) and got.a[3][1].a[2] == v and got.a[3][1].a[3][0] is mk("f", ok, 1)
                elif name == "sender":
                    good = got is ok
                elif name == "receiver":
                    return received(p, got, ok, e)
                else:
                    good = True
                return None if good else ("a channel of either kind gives something else than it is asked for", e.loc)

            def received(p, got, ok, e, b=b):
                if got is ok:
                    return None
                for q in c.continued(p, b, got, (("await", r"::(try_)?next(_unpin)?\Z|::poll_next\Z", "take"),)):
                    if q.kind == "panic":
                        return "receiving panics", e.loc
                    ts = q.all("take")
                    if len(ts) != 1 or ts[0].args[0] is not ok:
                        return "what is received is not from the channel", e.loc
                    o = q.variant(ts[0].ret)
                    if q.variant(q.val) != o:
                        return "a message is lost or made up", e.loc
                    if o == "Some":
                        x = mk("vf", ts[0].ret, "Some", "0")
                        y = q.val.a[3][0] if q.val.tag == "agg" else None
                        if not (q.val is ts[0].ret or y is x or y is not None and is_agg(y, "tuple") and len(y.a[3]) == 2 and y.a[3][0] is mk("f", x, 0) and y.a[3][1] is mk("f", x, 1)):
                            return "a message is not handed out with its acknowledger", e.loc

            c.forall("a channel of either kind passes on what it is asked for", b, c.paths(b, Want(row), opaque=opq), chosen, done, floor=2)
    # commands
    b = c.fn("paladin::runtime::WorkerRuntime::get_command_ipc_receiver")
    RC = ("await", r"channel::Channel(>)?::receiver\Z", "receiver")
    TK = ("await", r"::(try_)?next(_unpin)?\Z|::poll_next\Z", "take")
    for p in [p for p in c.paths(b, Want(RC), opaque=opq) if ok_paths(p)]:
        src = mk("vf", p.one("receiver").ret, "Ok", "0") if p.one("receiver") else None

        def command(q):
            ts = q.all("take")
            if len(ts) != 1 or ts[0].args[0] is not src:
                return "%d commands are taken for one" % len(ts)
            if q.variant(ts[0].ret) == "None":
                return None if q.variant(q.val) == "None" else "a command is made up"
            x = mk("vf", ts[0].ret, "Some", "0")
            if q.variant(q.val) != "Some" or q.val.a[3][0] is not mk("f", x, 0):
                return "a command is not handed out", ts[0].loc
            acks = q.all("inner")
            if len(acks) != 1 or called_name(acks[0]) != "ack" or acks[0].args[0] is not mk("f", x, 1):
                return "a command is not acknowledged", ts[0].loc

        c.forall("every command is acknowledged and handed out once", b, c.continued(p, b, p.val.a[3][0], (TK, INNER)), command, done, floor=2)


def last_name(e):
    for t in subterms(e.ret):
        if head(t) and args_of(t)[: len(e.args)] == e.args:
            return head(t).rsplit("::", 1)[-1]
    return None


def is_variant_of(p, t, of):
    return t.tag == "agg" and t.a[2] == p.variant(of)


def mode_of(p, t, kind):
    """The options of a queue are those of a channel's type."""
    return t is kind or any_sub(t, lambda x: x is kind) or t.tag == "agg" and any(x.tag == "agg" and x.a[0].endswith("SyndicationMode") and x.a[2] == p.variant(kind) for x in t.a[3])


RT = "paladin::runtime::Runtime"
WRT = "paladin::runtime::WorkerRuntime"
GET = ("await", r"channel::ChannelFactory(>)?::get\Z", "get")
ISSUE = ("await", r"channel::ChannelFactory(>)?::issue\Z", "issue")
ENDS = ("await", r"channel::Channel(>)?::(sender|receiver)\Z", "ends")
COPQ = (CHANNEL + "::*", FACTORY + "::*")


def asked(e):
    """(factory, name, type) of a channel that is asked for."""
    return e.args[0], e.args[1], e.args[2]


def kind_is(t, name):
    return is_agg(t, TYPE) and t.a[2] == name


def text(t):
    return t.a[0] if t.tag == "str" else (t if not any_sub(t, lambda x: x.tag in ("param", "ret")) else None)


def c31(c):
    clones(c, "a copy of a configuration, a runtime or a command is the same", "paladin::config::", "paladin::runtime::")
    FROM = ("await", r"DynamicChannelFactory::from_config\Z", "factory")
    opq = COPQ + (DYNF + "::from_config", WRT + "::main_loop")
    SPAWN = ("call|opaque", r"(^|::)spawn\Z", "spawn")
    default = {}

    def bus(p, side, f, cfg):
        """The task channel of a runtime is the one the configuration names."""
        gs = [e for e in p.all("get")]
        if f["task_channel"] not in [mk("vf", e.ret, "Ok", "0") for e in gs]:
            return "the task channel of a %s is not one it asked for" % side
        e = next(e for e in gs if mk("vf", e.ret, "Ok", "0") is f["task_channel"])
        fac, name, kind = asked(e)
        fs = p.all("factory")
        if len(fs) != 1 or strip_proj(fs[0].args[0])[0] is not cfg or fac is not mk("vf", fs[0].ret, "Ok", "0") or f["channel_factory"] is not fac:
            return "the channels of a %s are not those of its configuration" % side, e.loc
        if not kind_is(kind, "ExactlyOnce"):
            return "tasks are not given to one worker each", e.loc
        key = mk("f", cfg, "task_bus_routing_key")
        v = p.variant(key)
        if v == "Some":
            return None if name is mk("vf", key, "Some", "0") else ("a %s does not use the task channel it is configured with" % side, e.loc)
        if v != "None" or name.tag == "param" or any_sub(name, lambda x: x.tag in ("param", "ret")):
            return "the task channel of a %s does not depend on the configuration alone" % side, e.loc
        default.setdefault(side, set()).add(name)

    for adt, side in ((RT, "leader"), (WRT, "worker")):
        b = c.fn(adt + "::from_config")
        cfg = c.params(b)[0]
        ps = c.paths(b, Want(GET, FROM, SPAWN, ("call", r"Iterator::next\Z|core::iter::range::next\Z", "next"), ("call", r"core::iter::range::end\Z", "end")), opaque=opq)

        def start(p, adt=adt, side=side, cfg=cfg):
            f = named(c, p.val.a[3][0], adt)
            if f is None:
                return "what is made is not a runtime"
            return bus(p, side, f, cfg)

        c.forall("a %s takes the task channel of its configuration" % side, b, ps, start, ok_paths, floor=2)
        if adt is RT:
            emulated(c, b, ps, cfg)
    c.ob("leader and worker have the same task channel by default", RT, default.get("leader") == default.get("worker") and len(default.get("leader", ())) == 1, "leaders and workers do not have the same task channel by default", c.fn(WRT + "::from_config").where)
    # tasks are sent and received there
    b = c.fn(WRT + "::get_task_receiver")
    me = c.params(b)[0]
    c.forall("a worker receives from its task channel", b, c.paths(b, Want(ENDS, GET), opaque=COPQ), lambda p: None if len(p.all("ends")) == 1 and not p.all("get") and p.one("ends").args[0] is mk("f", me, "task_channel") and last_name(p.one("ends")) == "receiver" and result_of(p, p.one("ends").ret) else "a worker does not receive from its task channel", done)
    b = c.fn(LEASE)
    me = c.params(b)[0]
    COORD = ("call|opaque", r"coordinated_channel::coordinated_channel\Z", "coordinate")
    ps = c.paths(b, Want(ENDS, GET, ISSUE, COORD), opaque=COPQ + ("paladin::channel::coordinated_channel::*",))

    def leased(p):
        snd = [e for e in p.all("ends") if last_name(e) == "sender"]
        rcv = [e for e in p.all("ends") if last_name(e) == "receiver"]
        if len(snd) != 1 or snd[0].args[0] is not mk("f", me, "task_channel"):
            return "tasks are not sent on the task channel"
        iss = p.all("issue")
        if len(iss) != 1 or iss[0].args[0] is not mk("f", me, "channel_factory") or not kind_is(iss[0].args[1], "ExactlyOnce"):
            return "results do not have a channel of their own"
        if len(rcv) != 1 or rcv[0].args[0] is not mk("f", mk("vf", iss[0].ret, "Ok", "0"), 1):
            return "results are not received from the channel that is issued for them", iss[0].loc
        co = p.all("coordinate")
        if len(co) != 1 or not any_sub(co[0].args[0], lambda x: x is mk("vf", snd[0].ret, "Ok", "0")) or not any_sub(co[0].args[1], lambda x: x is mk("vf", rcv[0].ret, "Ok", "0")):
            return "the channel for tasks and the one for results are not coordinated", iss[0].loc
        out = p.val.a[3][0]
        if not any_sub(out.a[3][1], lambda x: x is mk("f", co[0].ret, 0)) or not any_sub(out.a[3][2], lambda x: x is mk("f", co[0].ret, 1)):
            return "what is leased is not the coordinated channel", co[0].loc

    c.forall("tasks go to the task channel and results come from a channel issued for them", b, ps, leased, ok_paths)
    # each result comes with both acknowledgers
    COMP = ("call|opaque", r"acker::ComposedAcker::new\Z", "compose")
    TK = ("await", r"::(try_)?next(_unpin)?\Z|::poll_next\Z", "take")
    for p in [p for p in ps if ok_paths(p)][:1]:
        out = p.val.a[3][0].a[3][2]
        fs = named(c, out, "paladin::channel::LeaseGuard")
        pipe = fs["pipe"] if fs else out
        co = p.one("coordinate")
        late = set()

        def result(q):
            ts = q.all("take")
            if len(ts) != 1 or ts[0].args[0] is not mk("f", co.ret, 1):
                return "%d results are taken for one" % len(ts)
            if q.variant(ts[0].ret) == "None":
                return None if q.variant(q.val) == "None" else "a result is made up"
            x = mk("vf", ts[0].ret, "Some", "0")
            inner, second = mk("f", x, 0), mk("f", x, 1)
            if q.variant(q.val) != "Some" or not is_agg(q.val.a[3][0], "tuple"):
                return "a result is dropped", ts[0].loc
            r, ack = q.val.a[3][0].a[3]
            rd = q.all("read")
            if len(rd) > 1 or rd and rd[0].args[0] is not mk("f", inner, 0):
                return "a message is not read as a result", rd[0].loc
            late.add(bool(rd))
            if r is not (rd[0].ret if rd else mk("f", inner, 0)):
                return "what is handed out is not the result", ts[0].loc
            a = named(c, ack, "paladin::acker::ComposedAcker")
            if a is None or list(a.values()) != [mk("f", inner, 1), second]:
                return "a result does not come with its acknowledgers, that of the queue first", ts[0].loc

        READ, AS = ("call|opaque", r"into_task_result\Z", "read"), ("paladin::task::AnyTaskResult::into_task_result",)
        c.forall("a result comes with both its acknowledgers", b, c.continued(p, b, pipe, (TK, READ), opaque=AS), result, done, floor=2)
        if late == {True} and not is_lazy(co.args[1]):
            # it is read then
            continue
        # what comes from the queue is read as a result of the operation
        qs = c.continued(p, b, co.args[1], (TK, READ), opaque=AS)

        def read(q):
            ts = q.all("take")
            if len(ts) != 1:
                return "%d messages are taken for one" % len(ts)
            if q.variant(ts[0].ret) == "None":
                return None if q.variant(q.val) == "None" else "a message is made up"
            x = mk("vf", ts[0].ret, "Some", "0")
            rd = q.all("read")
            if len(rd) != 1 or rd[0].args[0] is not mk("f", x, 0) or late != {False}:
                return "a message is not read as a result, once", ts[0].loc
            v = q.val.a[3][0] if q.variant(q.val) == "Some" else None
            if v is None or not is_agg(v, "tuple") or v.a[3][0] is not rd[0].ret or v.a[3][1] is not mk("f", x, 1):
                return "a message is not handed on with its acknowledger", ts[0].loc

        c.forall("every message is read as a result of the operation", b, qs, read, done, floor=2)
    # results are sent to the channel a task names
    b = c.fn(WRT + "::get_result_sender")
    me, ident = c.params(b)[:2]

    def answer(p):
        g, e = p.one("get"), p.one("ends")
        if g is None or asked(g)[0] is not mk("f", me, "channel_factory") or asked(g)[1] is not ident or not kind_is(asked(g)[2], "ExactlyOnce"):
            return "results are not sent to the channel with the given name, to one receiver each"
        if p.variant(g.ret) == "Err":
            return None if result_of(p, g.ret) else "a failure is not reported"
        if len(p.all("ends")) != 1 or e.args[0] is not mk("vf", g.ret, "Ok", "0") or last_name(e) != "sender" or not result_of(p, e.ret):
            return "results are not sent to the channel with the given name", g.loc

    c.forall("results are sent to the channel a task names", b, c.paths(b, Want(GET, ENDS), opaque=COPQ), answer, done, floor=2)
    # commands
    names = {}
    for fn, end in ((RT + "::get_command_ipc_sender", "sender"), (WRT + "::get_command_ipc_sender", "sender"), (WRT + "::get_command_ipc_receiver", "receiver")):
        b = c.fn(fn)
        me = c.params(b)[0]

        def command(p, me=me, end=end, fn=fn):
            gs, es = p.all("get"), p.all("ends")
            if len(gs) != 1 or asked(gs[0])[0] is not mk("f", me, "channel_factory"):
                return "commands are not on one channel of the runtime"
            if not kind_is(asked(gs[0])[2], "Broadcast"):
                return "commands do not reach every worker", gs[0].loc
            name = asked(gs[0])[1]
            if any_sub(name, lambda x: x.tag in ("param", "ret")):
                return "the channel for commands is not the same everywhere", gs[0].loc
            names[fn] = name
            if p.variant(gs[0].ret) == "Err":
                return None if result_of(p, gs[0].ret) else "a failure is not reported"
            if len(es) != 1 or es[0].args[0] is not mk("vf", gs[0].ret, "Ok", "0") or last_name(es[0]) != end:
                return "commands are not on the command channel", gs[0].loc
            if end == "sender" and not result_of(p, es[0].ret):
                return "a sender of commands is not one of the command channel", gs[0].loc

        c.forall("commands go over one broadcast channel", b, c.paths(b, Want(GET, ENDS), opaque=COPQ), command, done, floor=2)
    c.ob("commands are sent where they are received", RT, len(names) == 3 and len(set(names.values())) == 1, "commands are not sent where they are received", c.fn(WRT + "::get_command_ipc_receiver").where)
    c.ob("tasks and commands do not mix", RT, not (set(names.values()) & default.get("leader", set())), "tasks and commands use one channel", c.fn(RT + "::from_config").where)
    # the configured back end
    b = c.fn(DYNF + "::from_config")
    cfg = c.params(b)[0]
    rt = mk("f", cfg, "runtime")
    CN = ("await|call|opaque", r"(AMQPConnection|InMemoryConnection)::new\Z", "connect")
    ps = c.paths(b, Want(CN), opaque=("paladin::queue::amqp::AMQPConnection::new", "paladin::queue::in_memory::InMemoryConnection::new"))

    def backend(p):
        v = p.variant(rt)
        got = p.val.a[3][0]
        if v is None or not is_agg(got, "adt:" + DYNF) or got.a[2] != v:
            return "the back end is not the configured one"
        es = [e for e in p.all("connect")]
        if not es or not any_sub(got, lambda x: any(x is e.ret or x is mk("vf", e.ret, "Ok", "0") for e in es)):
            return "the back end does not use its connection"
        if v == "Amqp":
            uri = mk("vf", mk("f", cfg, "amqp_uri"), "Some", "0")
            if not any(intact(tuple_term(e.args), uri) for e in es):
                return "the connection is not to the configured host", es[0].loc
            q = named(c, es[0].args[0], "paladin::queue::amqp::AMQPConnectionOptions")
            if q is not None and any(t.tag == "int" and t.a[0] == 0 for t in subterms(q["qos"])):
                return "the number of messages in flight is not limited", es[0].loc

    c.forall("the back end is the configured one", b, ps, backend, ok_paths, floor=2)


def bounds(r):
    """From what to what a range counts, and what it starts at to count to the end."""
    if is_agg(r, "adt:core::ops::range::Range"):
        return (*r.a[3][:2], 0)
    if is_agg(r, "adt:core::ops::range::RangeInclusive"):
        return (*r.a[3][:2], 1)
    if r.tag == "pure" and r.a[0] == "core::ops::range::RangeInclusive::new":
        return (*r.a[1], 1)
    return None


def emulated(c, b, ps, cfg):
    """In memory, the configured number of workers work on the channels of the runtime."""
    rt, num = mk("f", cfg, "runtime"), mk("f", cfg, "num_workers")

    def workers(p):
        f = named(c, p.val.a[3][0], RT)
        if p.variant(rt) != "InMemory":
            return ("a runtime that is not in memory has workers of its own" if p.all("spawn") else None)
        rs = [(e, r) for e in p.all("next", "end") for r in (bounds(e.args[0]),) if r]
        if not rs:
            return "how many workers there are is not known"
        lo, hi, base = rs[0][1]
        v = p.variant(num)
        if v == "Some":
            if hi is not mk("vf", num, "Some", "0") or lo.tag != "int" or lo.a[0] != base:
                return "there are not as many workers as configured", rs[0][0].loc
        elif v != "None" or lo.tag != "int" or hi.tag != "int" or hi.a[0] + base - lo.a[0] < 1:
            return "there is no worker by default", rs[0][0].loc
        n = None
        for e in p.all("next", "end", "spawn"):
            if e.label == "spawn":
                if n != 1:
                    return "more than one worker is started for one", e.loc
                n = 0
            elif bounds(e.args[0]):
                if n == 1:
                    return "no worker is started for one", e.loc
                n = int(p.variant(e.ret) == "Some")
        if n == 1:
            return "no worker is started for one", rs[0][0].loc
        for e in p.all("spawn"):
            for q in c.continued(p, b, e.args[0], (("await", r"WorkerRuntime::main_loop\Z", "work"),), opaque=(WRT + "::main_loop",)):
                w = q.one("work")
                wf = named(c, q.resolve(w.args[0]), WRT) if w else None
                if len(q.all("work")) != 1 or wf is None:
                    return "a worker does not work", e.loc
                if wf["task_channel"] is not f["task_channel"] or wf["channel_factory"] is not f["channel_factory"]:
                    return "a worker works on other channels than those of the runtime", e.loc

    c.forall("a runtime in memory has the configured workers", b, ps, workers, ok_paths, floor=4)
    c.ob("a runtime in memory starts its workers", b.spath, any(p.all("spawn") for p in ps), "a runtime in memory starts no worker", b.where)


RULES = {"C30": c30, "C31": c31}
