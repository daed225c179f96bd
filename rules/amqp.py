"""AMQP: C08 (mapping onto queues, options and acknowledgements), C09 (broadcast reaches every consumer)."""
from common import *
from queue_roles import SYN, DEL, DUR, TO_BYTES, FROM_BYTES, stream_kind

MOD = "paladin::queue::amqp::"
CONN = MOD + "AMQPConnection"
HANDLE = MOD + "AMQPQueueHandle"
ACKER = MOD + "AMQPAcker"
CONSUMER = MOD + "AMQPConsumer"
STEPS = ("queue_declare", "exchange_declare", "queue_bind", "queue_delete", "exchange_delete", "basic_publish", "basic_consume", "basic_qos", "exchange_bind", "queue_unbind", "queue_purge", "basic_cancel", "basic_get",
         "connect", "create_channel", "confirm_select")
WANT = Want(
    ("call", r"lapin::.*FieldTable::insert|amq_protocol.*FieldTable::insert|FieldTable::insert\Z", "table"),
    ("await", r"lapin|\A\Z", "await"), ("await", r".*", "await"),
    ("call", r"lapin::channel::Channel::\w+\Z|lapin::connection::Connection::\w+\Z|lapin::acker::Acker::\w+\Z|lapin::.*::(ack|nack|reject)\Z", "amqp"),
    ("opaque|call", r"Serializer::to_bytes\Z", "encode"), ("opaque|call", r"Serializer::from_bytes\Z", "decode"),
    ("call", r"stream::Stream::poll_next\Z", "poll"), ("call", r"DashMap::", "map"),
)


def run(c, b, cut=None):
    return c.paths(b, WANT, opaque=(TO_BYTES, FROM_BYTES), cut=cut)


def steps(p, *names):
    r = []
    for e in p.all("amqp"):
        n = e.ret.a[2].rsplit("::", 1)[1]
        if not names or n in names:
            r.append((n, e))
    return r


def result_of(p, e):
    """How an AMQP step went, if it was awaited."""
    for a in p.all("await"):
        if a.ret.tag == "out" and a.ret.a[0] is e.ret or any_sub(a.ret, lambda t: t is e.ret) and not any(any_sub(x, lambda t: t.tag == "out") for x in a.args if isinstance(x, N)):
            return p.variant(a.ret)
    return None


def every_step(c, b, ps, rule):
    def all_ok(p):
        for n, e in steps(p):
            if result_of(p, e) != "Ok":
                return ("success is reported although the outcome of `%s` was %s" % (n, "not awaited" if result_of(p, e) is None else "not looked at or a failure"), e.loc)
        for a in p.all("await"):
            if p.variant(a.ret) == "Err":
                return ("success is reported although a step failed", a.loc)

    def some_err(p):
        bad = [x for x in p.all("await") + p.all("encode") if p.variant(x.ret) == "Err"]
        if not bad:
            return "failure is reported although every step succeeded"
        if not any_sub(p.val, lambda t: t is bad[-1].ret):
            return "the failure reported is not the one that happened"

    c.forall(rule + " succeeds only if every step did", b, ps, all_ok, ok_paths)
    c.forall(rule + " fails only if a step did, with its error", b, ps, some_err, err_paths, floor=1)


def durable(t):
    """Whether options ask for durability: True, False or None."""
    if t.tag == "agg":
        for x in fields(t):
            if x.tag == "int":
                return bool(x.a[0])
        return False
    return False if t.tag == "pure" else None


def asks(t, but=()):
    """Whether options ask for anything, other than at the positions `but`; also if that cannot be told."""
    if t.tag != "agg":
        return t.tag != "pure"
    return any(i not in but and not (x.tag == "int" and not x.a[0]) and not (x.tag in ("f", "vf") and strip_proj(x)[0].tag == "pure")
               for i, x in enumerate(fields(t)))


# What may be put into the arguments of a queue or exchange without losing messages.
HARMLESS = ("x-expires",)


class Amqp:
    def __init__(self, c):
        self.c = c
        self.chan = c.field(HANDLE, lambda t: "Channel" in t, "channel")
        self.name = c.field(HANDLE, lambda t: "String" in t, "name")

    def handle(self, v):
        h = next((t for t in subterms(v) if is_agg(t, "adt:" + HANDLE)), None)
        return dict(zip([n for n, _ in self.c.adt(HANDLE)["v"][0]["f"]], fields(h))) if h is not None else None


def names(t):
    return strip_proj(t)[1]


def same_path(t, base, *tail):
    """`t` is this field of this parameter."""
    b, ns = strip_proj(t)
    return b is base and ns[-len(tail):] == tail


def c08(c):
    clones(c, "a copy of a handle is a handle of the same queue", "paladin::queue::amqp::", shares=False)
    q = Amqp(c)
    b = c.method("paladin::queue::Connection", CONN, "declare_queue")
    ps = run(c, b)
    me, name, options = c.params(b)[:3]

    def declared(p):
        h = q.handle(p.val)
        if h is None:
            return "declaring a queue does not give a handle of it"
        if h[q.name] is not name or not any(x is options for x in h.values()):
            return "the handle is not of the queue that was declared, with its options"
        if not any(same_path(x, me, "serializer") for x in h.values()):
            return "the handle uses another serializer than its connection"
        qd = steps(p, "queue_declare")
        if len(qd) != 1 or qd[0][1].args[1] is not name:
            return "not exactly one queue of the given name is declared"
        dur = p.enum("durability", DUR)
        if dur is None:
            return "a queue is declared without looking at its durability"
        for n, e in steps(p, "queue_declare", "exchange_declare"):
            o = e.args[2] if n == "queue_declare" else e.args[3]
            if durable(o) != (dur == "Durable"):
                return ("a queue that is %s is declared as if it were not" % ("durable" if dur == "Durable" else "not durable"), e.loc)
            if asks(o, (1,)):
                return ("a queue is declared with other options than its own", e.loc)
        for e in p.all("table"):
            key = next((t.a[0] for t in subterms(e.args[1]) if t.tag == "str"), None)
            if key not in HARMLESS and any(e.args[0] is d.args[-1] for n, d in steps(p, "queue_declare", "exchange_declare")):
                return ("a queue is declared with an argument (%s) that its options do not ask for" % key, e.loc)
        for n, e in steps(p, "queue_bind"):
            if e.args[1] is not name or e.args[2] is not name or asks(e.args[4]):
                return ("a queue is bound to something else", e.loc)
        tab = qd[0][1].args[-1]
        exp = [e for e in p.all("table") if e.args[0] is tab and any_sub(e.args[1], lambda t: t.tag == "str" and t.a[0] == "x-expires")]
        if dur == "Durable" and exp:
            return ("a durable queue expires", exp[0].loc)
        if dur != "Durable" and not exp:
            return ("a queue that is not durable is never removed", qd[0][1].loc)
        mode = p.enum("syndication_mode", SYN)
        if mode is None:
            return "a queue is declared without looking at its mode"
        if mode == "ExactlyOnce" and len(steps(p)) != 1:
            return "a queue of the mode exactly-once is declared as something else"
        if mode == "Broadcast" and not steps(p, "exchange_declare"):
            return "a queue of the mode broadcast is declared without an exchange"

    c.forall("a declared queue exists under its name, with its durability and mode", b, ps, declared, ok_paths, floor=4)
    every_step(c, b, ps, "declaring a queue")

    b = c.method("paladin::queue::publisher::Publisher", MOD + "AMQPPublisher", "publish")
    ps = run(c, b)
    payload = c.params(b)[1]

    def sent(p):
        pub = steps(p, "basic_publish")
        enc = p.all("encode")
        if len(pub) != 1 or len(steps(p)) != 1:
            return "a message is not published exactly once"
        e = pub[0][1]
        if not enc or enc[0].args[1] is not payload or not intact(e.args[4], enc[0].ret):
            return ("what is published is not the message given", e.loc)
        if names(e.args[0])[-1:] != (q.chan,):
            return ("a message is published on another connection", e.loc)
        mode = p.enum("syndication_mode", SYN)
        ex, key = e.args[1], e.args[2]
        if mode is None:
            return ("a message is published without looking at the mode of its queue", e.loc)
        if mode == "ExactlyOnce" and not (ex.tag == "str" and ex.a[0] == "" and names(key)[-1:] == (q.name,)):
            return ("a message is not published to its queue", e.loc)
        if mode == "Broadcast" and names(ex)[-1:] != (q.name,):
            return ("a message is not published to its exchange", e.loc)
        if asks(e.args[3]):
            return ("a message is published with options that may return it", e.loc)
        d = p.enum("delivery_mode", DEL)
        two = any_sub(e.args[5], lambda t: head(t) is not None and head(t).endswith("with_delivery_mode") and any(x.tag == "int" and x.a[0] == 2 for x in subterms(t)))
        if d is None or two != (d == "Persistent"):
            return ("a message is not published with the delivery mode of its queue", e.loc)
        aw = [a for a in p.all("await") if p.variant(a.ret) == "Ok" and any_sub(a.ret, lambda t: t is e.ret)]
        if len(aw) < 2:
            return ("publishing does not wait for the confirmation of the broker", e.loc)

    c.forall("a message is published once, to its queue, with its delivery mode, and confirmed", b, ps, sent, ok_paths, floor=4)
    every_step(c, b, ps, "publishing")

    b = c.method("paladin::queue::Connection", CONN, "delete_queue")
    ps = run(c, b)
    name = c.params(b)[1]

    def deleted(p):
        qd = steps(p, "queue_delete")
        if len(qd) != 1 or qd[0][1].args[1] is not name:
            return "the queue is not deleted"
        for n, e in steps(p):
            if n not in ("queue_delete", "exchange_delete") or e.args[1] is not name:
                return ("deleting a queue does something else", e.loc)
            if asks(e.args[2]):
                return ("a queue is deleted only under a condition", e.loc)
        if p.enum("syndication_mode", SYN) != "ExactlyOnce" and len(steps(p, "exchange_delete")) != 1:
            return "the exchange of a broadcast queue is not deleted"

    c.forall("deleting a name deletes its queue, and its exchange unless it is known to have none", b, ps, deleted, ok_paths)
    every_step(c, b, ps, "deleting a queue")

    b = c.method("paladin::queue::QueueHandle", HANDLE, "declare_consumer")
    ps = run(c, b)

    def consumes(p):
        k = steps(p, "basic_consume")
        if len(k) != 1:
            return "a consumer does not consume exactly one queue"
        e = k[0][1]
        o = e.args[3]
        if asks(o):
            return ("a consumer does not ask for messages to be acknowledged, or not for all of them", e.loc)
        if names(e.args[1])[-1:] != (q.name,):
            return ("a consumer consumes another queue", e.loc)
        v = next((t for t in subterms(p.val) if is_agg(t, "adt:" + CONSUMER)), None)
        if v is None or not any(any_sub(x, lambda t: t is e.ret) for x in fields(v)):
            return ("the consumer returned is not the one that was declared", e.loc)
        if not any(same_path(x, c.params(b)[0], "serializer") for x in fields(v)):
            return "a consumer does not use the serializer of its queue"

    c.forall("a consumer consumes with acknowledgements", b, ps, consumes, ok_paths)
    every_step(c, b, ps, "declaring a consumer")

    b = c.method("futures_core::stream::Stream", CONSUMER, "poll_next")
    ps = run(c, b)

    def item(p):
        x = p.val.a[3][0].a[3][0]
        polls, dec = p.all("poll"), p.all("decode")
        if not polls or not dec or p.variant(dec[-1].ret) != "Ok" or any(p.variant(d.ret) == "Ok" for d in dec[:-1]):
            return "what is delivered is not one message of the broker"
        if not intact(dec[-1].args[1], polls[-1].ret):
            return ("what is decoded is not what was received", dec[-1].loc)
        if not is_agg(x, "tuple") or not intact(fields(x)[0], dec[-1].ret):
            return "what is delivered is not the decoded message"
        a = fields(x)[1]
        if not is_agg(a, "adt:" + ACKER) or not any_sub(a, lambda t: t is polls[-1].ret):
            return "the acknowledger delivered is not of this message"

    c.forall("a received message is decoded and delivered with its own acknowledger", b, ps, item, lambda p: stream_kind(p) == "item")

    def pending(p):
        dec, polls = p.all("decode"), p.all("poll")
        lost = [d for d in dec if p.variant(d.ret) == "Ok"]
        if lost:
            return ("a message that was received is dropped", lost[0].loc)

    c.forall("only what cannot be read is skipped", b, run(c, b, cut="poll"), pending, lambda p: stream_kind(p) in ("pending", "end") or p.kind == "cut")
    c.forall("a consumer ends only when the broker ends it", b, ps,
             lambda p: None if [e for e in p.all("poll") if p.variant(mk("vf", e.ret, "Ready", "0")) == "None"] else "a consumer ends although the broker did not end it", lambda p: stream_kind(p) == "end")
    c.forall("receiving does not panic", b, ps, lambda p: "receiving panics", lambda p: p.kind == "panic", floor=0)
    for n in ("ack", "nack"):
        b = c.method("paladin::acker::Acker", ACKER, n)
        ps = run(c, b)

        def settle(p, n=n):
            k = steps(p)
            if len(k) != 1 or k[0][0] != n:
                return "%sing a message does not %s it" % (n, n)
            e = k[0][1]
            if strip_proj(e.args[0])[0].tag != "param":
                return ("another message is settled", e.loc)
            if len(e.args) > 1 and e.args[1].tag == "agg" and any(x.tag == "int" and x.a[0] for x in fields(e.args[1])[:1]):
                return ("other messages are settled as well", e.loc)

        c.forall("%sing settles this message" % n, b, ps, settle, lambda p: p.kind == "ret")
        every_step(c, b, ps, n + "ing")
    b = c.fn(CONN + "::new")
    ps = run(c, b)

    def connects(p):
        qos = steps(p, "basic_qos")
        if len(qos) != 1:
            return "a connection is used without limiting the messages in flight"
        n = qos[0][1].args[1]
        if n.tag == "int" and n.a[0] == 0:
            return ("the number of messages in flight is not limited", qos[0][1].loc)
        if n.tag != "int" and not any_sub(n, lambda t: t.tag in ("f", "vf") and t.a[-1] in ("qos", "0")):
            return ("the limit of messages in flight is not the one configured", qos[0][1].loc)
        co = steps(p, "connect")
        if len(co) != 1 or not intact(co[0][1].args[0], lambda t: t.tag == "f" and t.a[1] == "uri"):
            return "a connection goes elsewhere than configured"

    c.forall("a connection goes to the configured broker with the configured limit", b, ps, connects, ok_paths, floor=2)
    every_step(c, b, ps, "connecting")
    b = c.method("paladin::queue::Connection", CONN, "close")
    ps = run(c, b)
    me = c.params(b)[0]

    def closes(p):
        k = [e for n, e in steps(p) if n == "close" and re.search(r"\bConnection::close\Z", e.ret.a[2])]
        if len(k) != 1 or strip_proj(k[0].args[0])[0] is not me:
            return "closing a connection does not close it"
        if not any(any_sub(a.ret, lambda t: t is k[0].ret) for a in p.all("await")):
            return ("closing a connection does not wait for it", k[0].loc)

    c.forall("closing a connection closes it", b, ps, closes, lambda p: p.kind == "ret")


def c09(c):
    q = Amqp(c)
    b = c.method("paladin::queue::Connection", CONN, "declare_queue")
    ps = run(c, b)
    name = c.params(b)[1]
    cast = lambda p: ok_paths(p) and p.enum("syndication_mode", SYN) == "Broadcast"  # noqa

    def topology(p):
        ex = steps(p, "exchange_declare")
        if len(ex) != 1 or ex[0][1].args[1] is not name:
            return "no exchange of the name of the queue is declared"
        if not any_sub(ex[0][1].args[2], lambda t: t.tag == "agg" and t.a[2] == "Fanout"):
            return ("the exchange of a broadcast queue does not copy to everyone", ex[0][1].loc)
        for n, e in steps(p, "queue_bind"):
            qd = [x for _, x in steps(p, "queue_declare") if x.args[1] is e.args[1]]
            if e.args[2] is not name:
                return ("a queue is bound to another exchange", e.loc)
            if not qd or qd[0].i > e.i or ex[0][1].i > e.i:
                return ("a queue is bound before it and its exchange exist", e.loc)
        for n, e in steps(p, "queue_declare"):
            if not [x for _, x in steps(p, "queue_bind") if x.args[1] is e.args[1]]:
                return ("a queue is declared for a broadcast and not bound to its exchange", e.loc)

    c.forall("a broadcast queue is a fanout exchange with queues bound to it", b, ps, topology, cast, floor=2)
    b = c.method("paladin::queue::publisher::Publisher", MOD + "AMQPPublisher", "publish")
    ps = run(c, b)

    def published(p):
        pub = steps(p, "basic_publish")
        if len(pub) != 1 or names(pub[0][1].args[1])[-1:] != (q.name,):
            return "a broadcast message is not published to its exchange"

    c.forall("a broadcast message is published to the exchange", b, ps, published, cast, floor=2)
    b = c.method("paladin::queue::QueueHandle", HANDLE, "declare_consumer")
    ps = run(c, b)

    def own(p):
        e = steps(p, "basic_consume")[0][1]
        if p.enum("syndication_mode", SYN) == "ExactlyOnce":
            return None
        qd = [x for _, x in steps(p, "queue_declare") if x.i < e.i]
        if not qd or names(e.args[1])[-1:] == (q.name,):
            return ("every consumer of a broadcast queue consumes the same queue, so each message reaches only one of them", e.loc)
        if not steps(p, "queue_bind"):
            return ("the queue of a consumer is not bound to the exchange", e.loc)

    c.forall("each consumer of a broadcast queue has a queue of its own", b, ps, own, ok_paths)


RULES = {"C08": c08, "C09": c09}
