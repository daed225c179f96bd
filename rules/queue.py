"""The queues: C04, C05 (in-memory delivery), C06 (registry and modes)."""
import re

from common import *
from queue_roles import *

MOD = "paladin::queue::in_memory::"
HANDLE = MOD + "InMemoryQueueHandle"
CONSUMER = MOD + "InMemoryConsumer"
CONN = MOD + "InMemoryConnection"
QUEUE = r"(seg_queue::SegQueue|array_queue::ArrayQueue)::"


def types(c, adt):
    """The fields of a struct and their types."""
    k = next(k for k in c.prog.adt_ids[adt] if k.split("#")[0] in c.prog.crates)
    a = c.prog.adts[k]
    return {n: c.prog.crates[k.split("#")[0]].tys[t]["s"] if t is not None else "" for v in a["v"] for n, t in v["f"]}


class Memory:
    """The parts of the in-memory queues, by the role their type gives them."""

    def __init__(self, c):
        self.c = c
        seg = lambda t: "SegQueue<" in t  # noqa
        sem = lambda t: "Semaphore" in t and "Permit" not in t  # noqa
        own = {f: [a for a in re.findall(re.escape(MOD) + r"\w+", t) if a in c.prog.adt_ids] for f, t in types(c, HANDLE).items()}
        own = {f: a[0] for f, a in own.items() if a}
        broad = [f for f, a in own.items() if any("DashMap<" in t for t in types(c, a).values())]
        single = [f for f, a in own.items() if f not in broad and any(seg(t) for t in types(c, a).values())]
        if len(broad) != 1 or len(single) != 1:
            raise Broken("the two modes of a queue are not told apart")
        self.single, self.broad = single[0], broad[0]
        SINGLE, BROAD = own[self.single], own[self.broad]
        self.single_t, self.broad_t = SINGLE, BROAD
        BCONS = next((a for t in types(c, BROAD).values() if "DashMap<" in t for a in re.findall(re.escape(MOD) + r"\w+", t) if a in c.prog.adt_ids), None)
        if BCONS is None:
            raise Broken("the consumers of a broadcast queue are not found")
        self.bcons = BCONS
        self.s_msgs, self.s_sem = c.field(SINGLE, seg, "messages"), c.field(SINGLE, sem, "num_messages")
        self.b_msgs, self.b_sem = c.field(BCONS, seg, "messages"), c.field(BCONS, sem, "num_messages")
        self.b_seen = c.field(BCONS, lambda t: "DashMap<" in t, "seen")
        self.cons = c.field(BROAD, lambda t: "DashMap<" in t, "consumers")
        self.hist = c.field(BROAD, seg, "history")
        self.ctr = c.field(BROAD, lambda t: "AtomicU64" in t or "Atomic<u64>" in t or "AtomicUsize" in t, "message_counter")
        self.c_msgs, self.c_sem = c.field(CONSUMER, seg, "messages"), c.field(CONSUMER, sem, "num_messages")
        self.c_permit = c.field(CONSUMER, lambda t: "Permit" in t, "permit")
        self.c_ser = c.field(CONSUMER, lambda t: t.endswith("Serializer"), "serializer")
        self.queues = c.field(CONN, lambda t: "DashMap<" in t, "queues")

    def want(self, cut):
        return Want(
            ("call", QUEUE + r"push\Z", "push"), ("call", QUEUE + r"(pop)\Z", "pop"), ("call", QUEUE + "(is_empty|len)", "queue.size"),
            ("call", r"emaphore::add_permits\Z", "add"), ("call", r"emaphore::forget_permits", "forget"),
            ("call", r"::Semaphore::(new|const_new)\Z", "sem"), ("call", r"PollSemaphore::new\Z", "pollsem"),
            ("call", r"emaphore::(poll_acquire|poll_acquire_many)\Z", "acquire"), ("call", r"emaphore::(try_acquire|acquire|close)", "other"),
            ("call", r"OwnedSemaphorePermit::forget\Z", "spend"), ("call", r"OwnedSemaphorePermit::", "other"),
            ("opaque|call", r"Serializer::to_bytes\Z", "encode"), ("opaque|call", r"Serializer::from_bytes\Z", "decode"),
            ("call", r"DashMap::entry\Z", "entry"), ("call", r"DashMap::insert\Z", "insert"), ("call", r"VacantEntry::insert", "vacant"), ("call", r"OccupiedEntry::insert|DashMap::alter|DashMap::clear|DashMap::retain", "overwrite"),
            ("call", r"OccupiedEntry::remove|VacantEntry::remove", "remove"),
            ("call", r"OccupiedEntry::(get|into_ref)", "existing"), ("call", r"DashMap::(get|get_mut|view)\Z", "get"), ("call", r"DashMap::remove", "remove"),
            ("call", r"DashMap::(is_empty|len)\Z", "map.size"), ("call", r"DashMap::(iter|iter_mut)\Z", "iter"), ("call", r"DashMap::(contains_key)\Z", "contains"),
            ("call", r"HashMap::entry|HashSet::insert|HashMap::insert|BTreeSet::insert|HashSet::contains|HashMap::contains_key", "set"), ("call", r"Iterator::next\Z|IntoIterator", "next"),
            ("store|patch", r".*", "changed"),
            ("call", r"Atomic::fetch_add\Z", "id"), ("call", r"Atomic::(store|swap|fetch_sub|load)\Z", "id.other"),
        )

    def run(self, b, cut=None, **kw):
        return self.c.paths(b, self.want(cut), opaque=(TO_BYTES, FROM_BYTES), cut=cut, **kw)

    def publish(self):
        return self.c.method("paladin::queue::publisher::Publisher", MOD + "InMemoryPublisher", "publish")

    def consume(self):
        return self.c.method("paladin::queue::QueueHandle", HANDLE, "declare_consumer")

    def poll(self):
        return self.c.method("futures_core::stream::Stream", CONSUMER, "poll_next")

    def decl(self, n):
        return self.c.method("paladin::queue::Connection", CONN, n)


def tail(t, n=1):
    return strip_proj(t)[1][-n:]


def seen_before(p, e):
    """Whether a lookup of an identifier found it: True, False or None."""
    if e.label == "entry" or (e.label == "set" and p.variant(e.ret) in ("Occupied", "Vacant")):
        return {"Occupied": True, "Vacant": False}.get(p.variant(e.ret))
    v = p.variant(e.ret)
    if v in ("Some", "None"):
        return v == "Some"
    return None


def size_zero(p, e):
    """What a look at a size says: True (empty), False or None."""
    v = p.fact_int(e.ret)
    if e.ret.a[2].endswith("is_empty"):
        return None if v is None else bool(v)
    if v is not None:
        return v == 0
    return False if 0 in p.fact_not(e.ret) else None


def payload_of(t, enc):
    """The term is the encoded message."""
    return intact(t, enc.ret)


COPY = "a copy of a handle is a handle of the same queue"


def undisturbed(c, m, rule):
    """Giving up a handle or a consumer leaves the messages alone."""
    n = 0
    for x in list(c.prog.bodies.values()):
        if re.match("<" + re.escape(MOD) + r".* as (core::ops::drop::Drop|pin_project::__private::PinnedDrop)>::drop\Z", x.spath) and "<impl" not in x.spath:
            n += 1
            c.forall(rule, x, m.run(x), lambda p: next((("messages are taken or announced when something is dropped", e.loc) for e in p.all("pop", "push", "add", "forget", "spend", "other")), None), lambda p: p.kind != "panic")
    x = m.decl("close")
    c.forall(rule, x, m.run(x), lambda p: next((("messages are taken or announced by closing", e.loc) for e in p.all("pop", "push", "add", "forget", "spend", "other")), None), lambda p: p.kind != "panic")
    return n


def c04(c):
    m = Memory(c)
    clones(c, COPY, m.single_t, HANDLE)
    undisturbed(c, m, "giving up a handle or a consumer takes no message away")
    b = m.publish()
    ps = m.run(b)
    payload = c.params(b)[1]

    def sent(p):
        enc, push, add = p.all("encode"), p.all("push"), p.all("add")
        if not enc or enc[0].args[1] is not payload:
            return "what is put in the queue is not the message given"
        if len(push) != 1:
            return "a published message is put in the queue %d times" % len(push)
        if tail(push[0].args[0], 2) != (m.single, m.s_msgs):
            return ("the message is put in another queue than the one its consumers take from", push[0].loc)
        if not payload_of(push[0].args[1], enc[0]):
            return ("what is put in the queue is not the message given", push[0].loc)
        if len(add) != 1 or add[0].args[1].tag != "int" or add[0].args[1].a[0] != 1:
            return ("a published message does not announce itself exactly once", push[0].loc)
        if tail(add[0].args[0], 2) != (m.single, m.s_sem):
            return ("the message is announced to others than the consumers of its queue", add[0].loc)
        if add[0].i < push[0].i:
            return ("a message is announced before it is in the queue", add[0].loc)
        if p.all("pop", "spend", "forget", "other"):
            return ("publishing takes messages out", p.loc())

    mode = lambda v: lambda p: p.enum("syndication_mode", SYN) == v  # noqa
    c.forall("every path knows the mode of the queue", b, ps, lambda p: None if p.enum("syndication_mode", SYN) else "a message is published without looking at the mode of its queue")
    c.forall("a published message is put in the queue once and announced once", b, ps, sent, lambda p: ok_paths(p) and mode("ExactlyOnce")(p))

    def failed(p):
        if p.all("push", "add"):
            return "publishing fails although the message is in the queue, or partly is"
        if not any(p.variant(e.ret) == "Err" for e in p.all("encode")):
            return "publishing fails although the message can be serialized"

    c.forall("a message that cannot be serialized is not in the queue, and that is the only failure", b, ps, failed, lambda p: err_paths(p) and mode("ExactlyOnce")(p))
    c.forall("publishing does not panic", b, ps, lambda p: "publishing panics", lambda p: p.kind == "panic", floor=0)

    b = m.consume()
    ps = m.run(b)

    def shares(p):
        v = p.val.a[3][0]
        if not is_agg(v, "adt:" + CONSUMER):
            return "the consumer is not built here"
        f = dict(zip([n for n, _ in c.adt(CONSUMER)["v"][0]["f"]], fields(v)))
        if tail(f[m.c_msgs], 2) != (m.single, m.s_msgs):
            return "a consumer does not take from the queue messages are put in"
        if tail(f[m.c_sem], 2) != (m.single, m.s_sem):
            return "a consumer does not wait for the announcements of its queue"
        if p.variant(f[m.c_permit]) != "None":
            return "a consumer starts with a message it did not wait for"
        if p.all("pop", "push", "add", "spend"):
            return ("declaring a consumer changes what is in the queue", p.loc())

    c.forall("consumers share the queue and its announcements", b, ps, shares, lambda p: ok_paths(p) and mode("ExactlyOnce")(p))
    c.forall("declaring a consumer does not fail", b, ps, lambda p: "declaring a consumer fails", lambda p: err_paths(p) and mode("ExactlyOnce")(p), floor=0)

    b = c.fn(HANDLE + "::new")
    ps = m.run(b)

    def fresh(p):
        v = p.val
        for e in p.all("sem"):
            if e.args[0].tag != "int" or e.args[0].a[0] != 0:
                return ("a new queue announces messages it does not have", e.loc)
        if not p.all("sem"):
            return "a new queue has no announcements of its own"
        if p.all("push", "add"):
            return ("a new queue is not empty", p.loc())
        if any_sub(v, lambda t: t.tag == "param" and t.a[0] not in [x.a[0] for x in c.params(b)]):
            return "a new queue shares state with another"

    c.forall("a new queue is empty and announces nothing", b, ps, fresh, lambda p: p.kind == "ret")
    b = c.has_method("core::default::Default", HANDLE, "default")
    if b is not None:
        ps = m.run(b)
        c.forall("a default queue is empty and announces nothing", b, ps, fresh, lambda p: p.kind == "ret")
    consumer(c, m)


def consumer(c, m):
    b = m.poll()
    ps = m.run(b)
    me = c.params(b)[0]

    def take(p):
        x = p.val.a[3][0].a[3][0] if p.val.tag == "agg" and p.val.a[3][0].tag == "agg" else p.val
        pops, spends = p.all("pop"), p.all("spend")
        if len(pops) != 1 or tail(pops[0].args[0]) != (m.c_msgs,):
            return "a message is delivered without taking exactly one out of the queue"
        if len(spends) != 1:
            return "a message is delivered without spending its announcement: it would be announced again" if not spends else "two announcements are spent for one message"
        pm = spends[0].args[0]
        got = [e for e in p.all("acquire") if any_sub(pm, lambda t: t is e.ret)]
        if not got and tail(pm, 2) not in ((m.c_permit, "0"),) and m.c_permit not in strip_proj(pm)[1]:
            return ("the announcement spent is not the one the consumer got", spends[0].loc)
        if len(p.all("acquire")) > len(got):
            return ("an announcement is taken and not spent", p.all("acquire")[0].loc)
        if p.all("push", "add", "forget", "other"):
            return ("receiving changes the announcements of other messages", p.loc())
        dec = [e for e in p.all("decode") if intact(e.args[1], pops[0].ret)]
        if not dec or not intact(x, dec[0].ret):
            return "what is delivered is not the message that was taken out"
        if p.variant(c.now(p, me, CONSUMER, m.c_permit)) != "None":
            return ("a spent announcement is kept", spends[0].loc)

    c.forall("each delivered message is taken out once and spends one announcement", b, ps, take, lambda p: stream_kind(p) == "item", floor=2)

    def wait(p):
        if p.all("pop", "spend", "push", "add", "forget", "other"):
            return ("a poll that delivers nothing takes a message out or spends an announcement", p.loc())
        acq = p.all("acquire")
        if not acq:
            return "a poll returns pending without waiting for an announcement"
        if any(p.variant(e.ret) == "Ready" and p.variant(mk("vf", e.ret, "Ready", "0")) == "Some" for e in acq):
            return ("an announcement is taken and nothing is delivered", acq[-1].loc)
        if tail(acq[-1].args[0]) != (m.c_sem,):
            return ("the consumer waits for the announcements of another queue", acq[-1].loc)

    c.forall("a poll that delivers nothing leaves queue and announcements alone", b, ps, wait, lambda p: stream_kind(p) == "pending")

    def ends(p):
        if not [e for e in p.all("acquire") if p.variant(mk("vf", e.ret, "Ready", "0")) == "None"]:
            return "the consumer ends although its queue exists"
        return wait(p)

    c.forall("a consumer does not end", b, ps, ends, lambda p: stream_kind(p) == "end", floor=0)

    def breaks(p):
        if [e for e in p.all("pop") if p.variant(e.ret) == "None"]:
            return None  # an announced message is there: what is checked above
        if [e for e in p.all("decode") if p.variant(e.ret) == "Err"]:
            return None
        return "receiving panics"

    c.forall("receiving panics only on a message that cannot be read", b, ps, breaks, lambda p: p.kind == "panic", floor=0)


def c05(c):
    m = Memory(c)
    clones(c, COPY, m.broad_t, m.bcons, HANDLE)
    undisturbed(c, m, "giving up a handle or a consumer takes no message away")
    b = m.publish()
    ps = [p for p in m.run(b, cut="next") if p.enum("syndication_mode", SYN) == "Broadcast"]
    payload = c.params(b)[1]
    first = lambda p: p.kind == "cut" and not p.all("next")  # noqa

    def before(p):
        enc, ids, hist = p.all("encode"), p.all("id"), p.all("push")
        if not enc or enc[0].args[1] is not payload or p.variant(enc[0].ret) != "Ok":
            return "what is sent is not the message given"
        if len(ids) != 1 or tail(ids[0].args[0]) != (m.ctr,) or ids[0].args[1].tag != "int" or ids[0].args[1].a[0] == 0:
            return "a message does not get an identifier of its own"
        if p.all("id.other"):
            return ("the identifiers are set back", p.all("id.other")[0].loc)
        it = p.all("iter")
        if len(it) != 1 or tail(it[0].args[0]) != (m.cons,):
            return "a message is not offered to every consumer"
        if p.enum("delivery_mode", DEL) != "Persistent":
            if hist:
                return ("a message of a queue that is not persistent is kept for later consumers", hist[0].loc)
            return None
        look = [e for e in p.all("map.size") if tail(e.args[0]) == (m.cons,)]
        z = size_zero(p, look[-1]) if look else None
        if z is None:
            return "a persistent message is sent without looking whether there is a consumer"
        if not z:
            return ("a message that consumers receive is kept for later ones as well", hist[0].loc) if hist else None
        if len(hist) != 1 or tail(hist[0].args[0]) != (m.hist,):
            return "a persistent message without a consumer is not kept exactly once"
        if not payload_of(hist[0].args[1], enc[0]) or not any_sub(hist[0].args[1], lambda t: t is ids[0].ret):
            return ("what is kept for later consumers is not the message with its identifier", hist[0].loc)
        if hist[0].i > it[0].i:
            return ("a message is kept only after the consumers were looked at: one that appears in between misses it", hist[0].loc)

    c.forall("a message gets an identifier, is kept if nobody would receive it, and is then offered to every consumer", b, ps, before, first, floor=2)

    def offer(p):
        nx = p.all("next")
        item = nx[0].ret
        if p.variant(item) != "Some":
            return "the consumers are not gone through one by one"
        push, add = p.all("push"), p.all("add")
        mine = lambda t, f: strip_proj(t)[0] is item and tail(t) == (f,)  # noqa
        looks = [e for e in p.all("entry", "insert", "contains") if mine(e.args[0], m.b_seen)]
        dup = None
        if p.enum("delivery_mode", DEL) == "Persistent":
            if not looks:
                return "a consumer may get a persistent message from the past and again now"
            dup = seen_before(p, looks[0])
            if head(looks[0].args[1]) is None or not head(looks[0].args[1]).endswith("fetch_add"):
                return ("messages are not told apart by their identifiers", looks[0].loc)
            if dup is None:
                return ("whether the consumer has seen the message is not looked at", looks[0].loc)
            if not dup and looks[0].label == "entry" and not p.all("vacant"):
                return ("the message is not marked as seen", looks[0].loc)
        if dup:
            return ("a consumer gets a message again that it has seen", push[0].loc) if push or add else None
        if len(push) != 1 or not mine(push[0].args[0], m.b_msgs):
            return "a consumer is not given the message exactly once"
        if not intact(push[0].args[1], lambda t: head(t) == TO_BYTES):
            return ("what a consumer is given is not the message", push[0].loc)
        if len(add) != 1 or not mine(add[0].args[0], m.b_sem) or add[0].args[1].tag != "int" or add[0].args[1].a[0] != 1:
            return ("the message is not announced to the consumer exactly once", push[0].loc)
        if add[0].i < push[0].i:
            return ("a message is announced before it is there", add[0].loc)

    c.forall("each consumer is given each message once", b, ps, offer, lambda p: p.kind == "cut" and p.all("next"), floor=3)

    def done(p):
        nx = p.all("next")
        if not nx or p.variant(nx[-1].ret) != "None":
            return "publishing ends before every consumer was given the message"
        if p.all("push", "add"):
            return "a message is sent twice"

    c.forall("publishing ends after every consumer", b, ps, done, ok_paths)

    def takes(p):
        for e in p.all("pop", "forget"):
            return ("a message that was kept or sent is taken away again", e.loc)
        for e in p.all("remove", "overwrite"):
            return ("a consumer is taken away while a message is sent", e.loc)

    c.forall("publishing takes no message and no consumer away", b, ps, takes, lambda p: p.kind != "panic")
    c.forall("publishing fails only when the message cannot be serialized, and then sends nothing", b, ps,
             lambda p: None if p.all("encode") and p.variant(p.all("encode")[0].ret) == "Err" and not p.all("push", "add", "next") else "publishing fails part of the way", err_paths)

    b = m.consume()
    ps = [p for p in m.run(b, cut="pop") if p.enum("syndication_mode", SYN) == "Broadcast"]
    name = c.params(b)[1]

    def entered(p):
        en = [e for e in p.all("entry", "get", "contains", "insert") if tail(e.args[0]) == (m.cons,)]
        if not en:
            return "a consumer is declared without being registered"
        if en[0].label != "entry":
            return ("registering a consumer is not atomic", en[0].loc)
        if not any_sub(en[0].args[1], lambda t: t is name):
            return ("a consumer is registered under another name", en[0].loc)
        for e in p.all("pop", "queue.size"):
            if tail(e.args[0]) == (m.hist,) and e.i < en[0].i:
                return ("kept messages are read before the consumer is being registered: one published in between is lost", e.loc)

    c.forall("a consumer is registered atomically, before the kept messages are read", b, ps, entered, lambda p: not p.all("pop") and (ok_paths(p) or p.kind == "cut"), floor=2)
    queues = set()
    adds = set()

    def replay(p):
        pop = p.all("pop")[0]
        if tail(pop.args[0]) != (m.hist,) or p.variant(pop.ret) != "Some":
            return ("the messages replayed are not the ones kept", pop.loc)
        push = p.all("push")
        dup = [seen_before(p, e) for e in p.all("set", "insert", "entry") if any_sub(e.args[1], lambda t: t is pop.ret)]
        if True in dup:
            return ("a message is replayed twice", push[0].loc) if push else None
        if not dup:
            return ("a replayed message is not marked as seen: a concurrent publish would deliver it again", pop.loc)
        if not p.all("vacant", "insert") and not any(re.search(r"::insert\Z", e.ret.a[2]) for e in p.all("set") if e.ret is not None and e.ret.tag == "ret"):
            return ("a replayed message is looked up, but not marked as seen", pop.loc)
        if len(push) != 1 or not intact(push[0].args[1], pop.ret):
            return ("a kept message is taken out and not given to the new consumer", pop.loc)
        queues.add(push[0].args[0])
        adds.add(len(p.all("add")))

    c.forall("each kept message is given to the new consumer", b, ps, replay, lambda p: p.kind == "cut" and p.all("pop"))

    def built(p):
        v = p.val.a[3][0]
        if not is_agg(v, "adt:" + CONSUMER):
            return "the consumer is not built here"
        f = dict(zip([n for n, _ in c.adt(CONSUMER)["v"][0]["f"]], fields(v)))
        if p.variant(f[m.c_permit]) != "None":
            return "a consumer starts with a message it did not wait for"
        en = next((e for e in p.all("entry") if tail(e.args[0]) == (m.cons,)), None)
        known = p.variant(en.ret) if en is not None else None
        if known == "Occupied":
            ex = p.all("existing")
            if p.all("vacant", "insert", "overwrite"):
                return "declaring a consumer again replaces it"
            if not ex or tail(f[m.c_msgs]) != (m.b_msgs,) or strip_proj(f[m.c_msgs])[0] is not strip_proj(ex[-1].ret)[0] or tail(f[m.c_sem]) != (m.b_sem,):
                return "a consumer declared again does not share the messages of the first"
            return None
        ins = p.all("vacant")
        if len(ins) != 1:
            return "a new consumer is not registered"
        g = next((t for t in subterms(ins[0].args[1]) if is_agg(t, "adt:" + m.bcons)), None)
        if g is None:
            return ("what is registered is not the consumer", ins[0].loc)
        g = dict(zip([n for n, _ in c.adt(m.bcons)["v"][0]["f"]], fields(g)))
        if g[m.b_msgs] is not f[m.c_msgs] or g[m.b_sem] is not f[m.c_sem]:
            return ("the new consumer does not share the queue and announcements that are registered for it", ins[0].loc)
        pops = p.all("pop")
        if p.enum("delivery_mode", DEL) == "Persistent":
            size = [e for e in p.all("queue.size") if tail(e.args[0]) == (m.hist,)]
            drained = [e for e in pops if p.variant(e.ret) == "None"] or [e for e in size if size_zero(p, e)]
            if not drained:
                return "a new consumer does not get all of the kept messages"
        elif pops:
            return ("kept messages are taken although the queue is not persistent", pops[0].loc)
        sem = p.all("sem")
        n = sem[-1].args[0] if sem else next((t.a[3][0] for t in subterms(f[m.c_sem]) if head(t) and head(t).endswith("Semaphore::new")), None)
        if n is None:
            return "the new consumer has no announcements of its own"
        msgs = f[m.c_msgs]
        q = msgs.a[3][0] if is_agg(msgs, "arc") else msgs
        if pops and queues and q not in queues and not any(t in queues for t in subterms(q)):
            return "the kept messages are put in a queue that the new consumer does not have"
        if n.tag == "int" and n.a[0] == 0:
            if pops and adds != {1}:
                return "the replayed messages are not announced"
            return None
        of = n.a[3][0] if n.tag in ("ret",) and head(n).endswith("::len") else None
        if of is None:
            return "the replayed messages are not announced one by one"
        if of is not q and not any_sub(g[m.b_seen], lambda t: t is of):
            return "the number of announcements is not the number of replayed messages"
        if adds - {0}:
            return "the replayed messages are announced twice"

    c.forall("a new consumer is registered with the kept messages, all announced", b, ps, built, ok_paths, floor=3)
    c.forall("declaring a consumer does not fail", b, ps, lambda p: "declaring a consumer fails", err_paths, floor=0)
    consumer(c, m)


def c06(c):
    m = Memory(c)
    clones(c, "a copy of a connection has the same queues", CONN, HANDLE, "paladin::queue::QueueOptions", "paladin::queue::SyndicationMode", "paladin::queue::DeliveryMode", "paladin::queue::QueueDurability")
    opt = "paladin::queue::QueueOptions"
    b = m.decl("declare_queue")
    ps = m.run(b)
    name, options = c.params(b)[1:3]

    def declared(p):
        en = [e for e in p.all("entry", "get", "contains", "insert", "iter") if tail(e.args[0]) == (m.queues,)]
        if not en or en[0].label != "entry":
            return "declaring a queue is not atomic: two declarations of one name could get different queues"
        if not same_text(en[0].args[1], name):
            return ("a queue is declared under another name", en[0].loc)
        v = p.val.a[3][0]
        if p.all("remove", "overwrite"):
            return ("declaring a queue removes or replaces one", p.loc())
        if p.variant(en[0].ret) == "Occupied":
            ex = p.all("existing")
            if p.all("vacant", "insert"):
                return "declaring a queue again replaces it"
            if not ex or v is not ex[-1].ret:
                return "declaring a queue again does not give the existing one"
            if p.all("changed"):
                return ("declaring a queue again changes the existing one", p.one("changed").loc)
            return None
        ins = p.all("vacant")
        if len(ins) != 1:
            return "a new queue is not registered"
        if not any_sub(ins[0].args[1], lambda t: t is v):
            return ("the queue registered is not the one returned", ins[0].loc)
        if not any_sub(v, lambda t: t is options):
            return ("the options of a queue are lost", ins[0].loc)
        if not any_sub(v, lambda t: t.tag == "f" and t.a[1] == "serializer"):
            return ("a queue does not use the serializer of its connection", ins[0].loc)

    c.forall("declaring a name gives the one queue of that name, creating it atomically", b, ps, declared, ok_paths, floor=2)
    c.forall("declaring a queue does not fail", b, ps, lambda p: "declaring a queue fails", err_paths, floor=0)
    b = m.decl("delete_queue")
    ps = m.run(b)
    name = c.params(b)[1]

    def others_kept(p, e):
        """Whether what is given to `retain` keeps exactly the queues of other names."""
        key, what = mk("param", "name in the map"), mk("param", "queue in the map")
        if tail(e.args[0]) != (m.queues,):
            return False
        qs = c.applied(p, b, e.args[1], [key, what])
        for q in qs:
            t, negated = q.val, False
            while t is not None and t.tag == "not":
                t, negated = t.a[0], not negated
            if q.kind != "ret" or t is None or t.tag != "bin" or t.a[0] not in ("Eq", "Ne"):
                return False
            if (t.a[0].lower() == "ne") == negated or not ({True} == {any(same_text(x, y) for x in t.a[1:3]) for y in (key, name)}):
                return False
        return bool(qs)

    def deleted(p):
        if not p.all("remove") and len(p.all("overwrite")) == 1 and (head(p.one("overwrite").ret) or "").endswith("::retain"):
            return None if others_kept(p, p.one("overwrite")) else ("another queue is deleted, or the queue is not", p.one("overwrite").loc)
        rm = p.all("remove")
        if len(rm) != 1 or tail(rm[0].args[0]) != (m.queues,) and not any_sub(rm[0].args[0], lambda t: tail(t) == (m.queues,)):
            return "deleting a queue does not remove it, or removes more than one" if not any(p.variant(e.ret) == "Vacant" for e in p.all("entry")) else None
        if not any(same_text(x, name) or any_sub(x, lambda t: t.tag == "ret" and head(t).endswith("DashMap::entry") and same_text(t.a[3][1], name)) for x in rm[0].args):
            return ("another queue is deleted", rm[0].loc)
        if (head(rm[0].ret) or "").endswith(("::remove_if", "::remove_if_mut")):
            what = [mk("param", "name in the map"), mk("param", "queue in the map")]
            if any(q.kind != "ret" or q.val is not TRUE for q in c.applied(p, b, rm[0].args[2], what)):
                return ("not every queue is deleted", rm[0].loc)
        if p.all("vacant", "insert", "overwrite"):
            return "deleting a queue declares one"

    c.forall("deleting a name removes that queue only", b, ps, deleted, lambda p: p.kind == "ret")
    b = m.decl("close")
    ps = m.run(b)
    c.forall("closing a connection leaves the queues to those who still use them", b, ps, lambda p: ("closing a connection touches its queues", p.loc()) if p.ev else None)

    # the two modes
    b = c.fn(HANDLE + "::new")
    ps = m.run(b)
    ser, options = c.params(b)

    def kept(p):
        f = dict(zip([n for n, _ in c.adt(HANDLE)["v"][0]["f"]], fields(p.val)))
        for n, t in f.items():
            if not any_sub(t, lambda s: s is options):
                return "a part of the queue does not get the options it was declared with"
        for n in (m.single, m.broad):
            if not any_sub(f[n], lambda s: s is ser):
                return "a part of the queue does not get the serializer it was declared with"

    c.forall("a queue keeps the options and serializer it was declared with", b, ps, kept, lambda p: p.kind == "ret")
    pb, cb = m.publish(), m.consume()
    for b, what in ((pb, "a message"), (cb, "a consumer")):
        ps = m.run(b)

        def routed(p, what=what):
            mode = p.enum("syndication_mode", SYN)
            if mode is None:
                return "%s is handled without looking at the mode of the queue" % what
            wrong, right = (m.broad, m.single) if mode == "ExactlyOnce" else (m.single, m.broad)
            for t in [a for e in p.ev for a in e.args] + [p.val]:
                if any_sub(t, lambda s: s.tag == "f" and s.a[1] == wrong):
                    return "%s of a queue of the mode %s goes to the other kind of queue" % (what, mode)

        c.forall("the mode of the queue decides where %s goes" % what, b, ps, routed, lambda p: p.kind == "ret", floor=3)
    b = c.method("paladin::queue::QueueHandle", HANDLE, "publisher")
    ps = m.run(b)
    me = c.params(b)[0]
    c.forall("a publisher publishes to the queue it was made from", b, ps, lambda p: None if any(x is me for x in fields(p.val)) else "a publisher publishes to another queue", lambda p: p.kind == "ret")
    # the one place queues come from
    users = field_users(c.prog, {m.queues}, lambda b: b.file.endswith("in_memory.rs"))
    for b, loc in users.values():
        if b.kind in ("const", "static") or b.name in ("clone",) or "::clone" in b.spath:
            continue
        c.ob("every access to the registry of queues is analysed", b.spath, b.spath in c.fns or b.spath.endswith("InMemoryConnection::new"), "`%s` touches the registry of queues but is not analysed" % b.spath, loc)


RULES = {"C04": c04, "C05": c05, "C06": c06}
