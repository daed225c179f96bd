"""The coordinated channel: C01 (never ends early), C02 (always ends), C03 (closed is refused)."""
from common import *

MOD = "paladin::channel::coordinated_channel::"
PUB = MOD + "coordinated_publisher::CoordinatedPublisher"
STREAM = MOD + "coordinated_stream::CoordinatedStream"
ACKER = MOD + "coordinated_stream::CoordinatedAcker"
STATE = MOD + "ChannelState"


class Channel:
    def __init__(self, c):
        self.c = c
        self.closed = c.field(STATE, lambda t: "AtomicBool" in t or "Atomic<bool>" in t, "closed")
        self.count = c.field(STATE, lambda t: "AtomicUsize" in t or "Atomic<usize>" in t, "num_pending_sends")
        self.waker = c.field(STATE, lambda t: "AtomicWaker" in t, "receiver")
        self.once = c.field(ACKER, lambda t: "AtomicBool" in t or "Atomic<bool>" in t, "did_ack")
        self.inner_p = c.field(PUB, lambda t: t == "Inner", "inner")
        self.inner_s = c.field(STREAM, lambda t: t == "S", "inner")

    def want(self, ev):
        m, f = atomic(ev)
        if m:
            n = f[0] if f else None
            if n == self.count:
                return "count." + m
            if n == self.closed:
                return "closed." + m
            if n == self.once:
                return "once." + m
            return None
        if ev.kind in ("call", "await") and ev.path in (PUBLISH, CLOSE):
            return ("call " if ev.kind == "call" else "") + "inner." + ev.path.rsplit("::", 1)[1]
        if ev.kind == "call":
            if ev.path.endswith("AtomicWaker::wake"):
                return "wake"
            if ev.path.endswith("AtomicWaker::register"):
                return "register"
            if ev.path.endswith("AtomicWaker::take"):
                return "unregister"
            if ev.path.endswith(("Waker::wake_by_ref", "Waker::wake")):
                return "acker.wake"
            if ev.path == POLL_NEXT:
                return "inner.poll"
        return None

    def run(self, b, **kw):
        return self.c.paths(b, self.want, **kw)

    def publish(self):
        return self.c.method("paladin::queue::publisher::Publisher", PUB, "publish")

    def close(self):
        return self.c.method("paladin::queue::publisher::Publisher", PUB, "close")

    def acks(self):
        return [self.c.method("paladin::acker::Acker", ACKER, n) for n in ("ack", "nack")]

    def poll(self):
        return self.c.method("futures_core::stream::Stream", STREAM, "poll_next")

    def subs(self, p):
        return p.all("count.fetch_sub")

    def deltas(self, p):
        """The change of the number of outstanding sends along a path, or None if it cannot be told."""
        d = 0
        for e in p.ev:
            if e.label.startswith("count.") and e.label != "count.load":
                m = e.label[6:]
                if m not in ("fetch_add", "fetch_sub") or e.args[1].tag != "int":
                    return None
                d += e.args[1].a[0] if m == "fetch_add" else -e.args[1].a[0]
        return d

    def census(self):
        """Every function that touches the shared state is one the rules explored."""
        users = field_users(self.c.prog, {self.closed, self.count}, lambda b: "coordinated_channel" in b.file)
        n = 0
        for b, loc in users.values():
            if b.kind in ("const", "static") or "serde" in b.spath:
                continue
            n += 1
            self.c.ob("every access to the shared state of a channel is analysed", b.spath, b.spath in self.c.fns,
                      "`%s` touches the shared state of a coordinated channel but no analysed operation of the channel reaches it" % b.spath, loc)
        self.c.ob("the accesses to the shared state were found", STATE, n >= 4, "only %d functions touch the shared state" % n)


def ordered(e, i):
    return order_of(e.args[i]) == SEQCST


def explore_all(ch):
    c = ch.c
    r = {"publish": (ch.publish(), None), "close": (ch.close(), None), "poll": (ch.poll(), None)}
    r = {k: (b, ch.run(b)) for k, (b, _) in r.items()}
    for b in ch.acks():
        r[b.name or b.spath.rsplit("::", 1)[1]] = (b, ch.run(b))
    d = c.has_method("core::ops::drop::Drop", PUB, "drop")
    if d is not None:
        r["drop"] = (d, ch.run(d))
    for what in (ACKER, STREAM, STATE):
        # dropping these is not a way to settle, close or open anything
        d = c.has_method("core::ops::drop::Drop", what, "drop") or c.has_method("pin_project::__private::PinnedDrop", what, "drop")
        if d is not None:
            r["drop of " + what] = (d, ch.run(d))
    b = c.fn(MOD + "coordinated_channel")
    r["build"] = (b, ch.run(b))
    return r


def shared_state(ch, r):
    c = ch.c
    b, ps = r["build"]

    def pred(p):
        v = p.val
        if not is_agg(v, "tuple") or len(fields(v)) != 2:
            return "the channel is not a pair of a publisher and a stream"
        st = []
        for x in fields(v):
            if x.tag != "agg":
                return "the halves of the channel are not built here"
            s = [y for y in fields(x) if y.tag == "agg" and y.a[0] == "arc"]
            st.append(s[0] if s else None)
        if st[0] is None or st[0] is not st[1]:
            return "the two halves of the channel do not share one state"
        inner = st[0].a[3][0]
        for t in subterms(inner):
            if t.tag == "int" and t.a[0] != 0:
                return "a new channel starts closed, or with outstanding sends"

    c.forall("both halves of a channel share one state, open and with nothing outstanding", b, ps, pred, lambda p: p.kind == "ret")


def c01(c):
    ch = Channel(c)
    r = explore_all(ch)
    shared_state(ch, r)
    for k, (b, ps) in r.items():
        if k.startswith("drop of "):
            c.forall("dropping an acknowledger or a receiver settles nothing", b, ps,
                     lambda p: next((("a message counts as settled although it was not acknowledged", e.loc) for e in p.ev if e.label.startswith("count.") and e.label != "count.load"), None))
    b, ps = r["publish"]

    def admitted(p):
        send = p.one("call inner.publish")
        adds = p.all("count.fetch_add")
        loads = p.all("closed.load")
        if len(adds) != 1 or adds[0].i > send.i or adds[0].args[1].a[0] != 1:
            return ("a message is sent without being counted as outstanding exactly once beforehand", send.loc)
        before = [e for e in loads if adds[0].i < e.i < send.i and p.fact_int(e.ret) == 0]
        if not before:
            return ("a message is sent without checking, after it was counted, that the channel is open", send.loc)
        if not ordered(adds[0], 2):
            return ("counting a send is not sequentially consistent with closing the channel", adds[0].loc)
        if not ordered(before[0], 1):
            return ("the check that the channel is open is not sequentially consistent with counting the send", before[0].loc)
        for e in ch.subs(p):
            if e.i < send.i:
                return ("a send stops counting as outstanding before it was made", e.loc)

    c.forall("a send is counted as outstanding, then the channel is seen open, then it is made", b, ps, admitted, lambda p: p.one("call inner.publish"))

    def stays(p):
        if ch.deltas(p) != 1:
            return ("a message that was sent does not stay outstanding until it is settled", p.loc())

    c.forall("a successful send stays outstanding", b, ps, stays, ok_paths)
    for name in ("ack", "nack"):
        b, ps = r[name]

        def settle(p):
            subs = ch.subs(p)
            if ch.deltas(p) is None or p.all("count.fetch_add") or len(subs) > 1 or any(e.args[1].a[0] != 1 for e in subs):
                return ("settling one message changes the number of outstanding sends by more than one", p.loc())
            if subs and not [e for e in p.ev if e.i < subs[0].i and once_taken(ch, p, e)]:
                return ("a message can be settled twice", subs[0].loc)

        c.forall("a message stops being outstanding at most once", b, ps, settle)
    b, ps = r["poll"]

    def untouched(p):
        for e in p.ev:
            if e.label.startswith(("count.", "closed.")) and not e.label.endswith(".load"):
                return ("receiving changes what is outstanding", e.loc)

    c.forall("receiving does not settle", b, ps, untouched)

    def ended(p):
        polls = p.all("inner.poll")
        if not polls:
            return "the stream ends without asking the underlying one"
        v = polls[-1].ret
        zero = [e for e in p.all("count.load") if p.fact_int(e.ret) == 0]
        if not zero:
            return "the stream ends without having seen that nothing is outstanding"
        if not ordered(zero[-1], 1):
            return ("the read of the outstanding sends is not sequentially consistent", zero[-1].loc)
        if p.variant(v) == "Ready":
            return None  # the underlying stream has ended: only what is outstanding matters
        shut = [e for e in p.all("closed.load") if p.fact_int(e.ret) == 1 and e.i < zero[-1].i]
        if not shut:
            return "the stream ends without having seen the channel closed before it counted what is outstanding"
        if not ordered(shut[-1], 1):
            return ("the read of the closed flag is not sequentially consistent", shut[-1].loc)

    c.forall("the stream ends only when closed with nothing outstanding", b, ps, ended, lambda p: poll_kind(p) == "end", floor=2)

    def item(p):
        x = poll_item(p)
        polls = p.all("inner.poll")
        t = fields(x) if is_agg(x, "tuple") else ()
        acker = next((y for y in t if y.tag == "agg" and y.a[0] == "adt:" + ACKER), None)
        if acker is None:
            return "a message is delivered without the acknowledger that settles it"
        if not any(any_sub(y, lambda s: s is polls[-1].ret) for y in t if y is not acker):
            return "what is delivered is not what the underlying stream yielded"
        st = [y for y in fields(acker) if strip_proj(y)[1][-1:] and strip_proj(y)[0].tag == "param"]
        if not st:
            return "the acknowledger does not settle on the channel's own state"
        if any(t.tag == "int" and t.a[0] != 0 for y in fields(acker) for t in subterms(y)):
            return "the acknowledger starts as already used"

    c.forall("each message is delivered with its own unused acknowledger", b, ps, item, lambda p: poll_kind(p) == "item")
    for name in ("close", "drop"):
        if name in r:
            b, ps = r[name]
            c.forall("closing does not settle outstanding sends", b, ps,
                     lambda p: ("closing changes the number of outstanding sends", p.loc()) if [e for e in p.ev if e.label.startswith("count.") and e.label != "count.load"] else None)
            c.forall("closing is sequentially consistent", b, ps,
                     lambda p: next((("closing the channel is not sequentially consistent", e.loc) for e in p.ev if e.label.startswith("closed.") and e.label != "closed.load"
                                     and not any(order_of(a) == SEQCST for a in e.args)), None))
    ch.census()


def once_taken(ch, p, e):
    """The event is the one that won the right to settle."""
    if e.label == "once.swap":
        return e.args[1].tag == "int" and e.args[1].a[0] == 1 and p.fact_int(e.ret) == 0
    if e.label in ("once.compare_exchange",):
        return e.args[1].tag == "int" and e.args[1].a[0] == 0 and e.args[2].a[0] == 1 and p.variant(e.ret) == "Ok"
    if e.label == "once.fetch_or":
        return e.args[1].tag == "int" and e.args[1].a[0] == 1 and p.fact_int(e.ret) == 0
    return False


def once_lost(ch, p, e):
    if e.label in ("once.swap", "once.fetch_or", "once.load"):
        return p.fact_int(e.ret) == 1
    if e.label == "once.compare_exchange":
        return p.variant(e.ret) == "Err"
    return False


def poll_kind(p):
    if p.kind != "ret":
        return None
    v = p.variant(p.val)
    if v == "Pending":
        return "pending"
    if v == "Ready":
        x = p.val.a[3][0] if p.val.tag == "agg" else mk("vf", p.val, "Ready", "0")
        return {"None": "end", "Some": "item"}.get(p.variant(x))
    return None


def poll_item(p):
    x = p.val.a[3][0] if p.val.tag == "agg" else mk("vf", p.val, "Ready", "0")
    return x.a[3][0] if x.tag == "agg" else mk("vf", x, "Some", "0")


def wakes_if_last(p, e, receiver):
    """After the decrement `e`, the receiver is woken unless something is still outstanding."""
    if 1 in p.fact_not(e.ret):
        return True
    return bool([w for w in p.all(*receiver) if w.i > e.i])


def c02(c):
    ch = Channel(c)
    r = explore_all(ch)
    shared_state(ch, r)
    b, ps = r["publish"]

    def refused(p):
        if ch.deltas(p) != 0:
            return "a send that failed stays outstanding, or is settled more than once: the receiver would never end"
        for e in ch.subs(p):
            if not wakes_if_last(p, e, ("wake",)):
                return ("a failed send was the last outstanding one and the receiver is not woken", e.loc)

    c.forall("a failed send is not outstanding", b, ps, refused, err_paths, floor=2)
    for name in ("ack", "nack"):
        b, ps = r[name]

        def settles(p):
            won = [e for e in p.ev if once_taken(ch, p, e)]
            lost = [e for e in p.ev if once_lost(ch, p, e)]
            if lost and not won:
                return ("settling a message a second time counts", p.loc()) if ch.deltas(p) != 0 else None
            if ch.deltas(p) != -1:
                return ("settling a message does not make it stop being outstanding", b.where)
            for e in ch.subs(p):
                if not wakes_if_last(p, e, ("wake",)):
                    return ("the last outstanding message is settled and the receiver is not woken", e.loc)

        c.forall("settling a message the first time settles it and wakes the receiver at the last one", b, ps, settles)
    d = r.get("drop")
    c.ob("dropping the publisher closes the channel", PUB, d is not None, "the publisher of a coordinated channel can be dropped without closing it: the receiver would never end")

    def closes(p):
        st = [e for e in p.ev if e.label in ("closed.store", "closed.swap", "closed.fetch_or") and e.args[1].tag == "int" and e.args[1].a[0] == 1]
        st += [e for e in p.all("closed.compare_exchange") if e.args[1].a[0] == 0 and e.args[2].a[0] == 1]
        already = [e for e in p.ev if e.label in ("closed.load", "closed.swap", "closed.fetch_or") and p.fact_int(e.ret) == 1]
        already += [e for e in p.all("closed.compare_exchange") if p.variant(e.ret) == "Err"]
        # what it has marked itself says nothing about whether another has woken the receiver
        already = [e for e in already if not any(s.i < e.i for s in st)]
        for e in p.ev:
            if e.label.startswith("closed.") and e.label != "closed.load" and e not in st:
                return ("closing does not mark the channel closed", e.loc)
        if already:
            return None
        if not st:
            return "the channel is not marked closed"
        # one that is still outstanding wakes the receiver when it is settled
        if [e for e in p.all("count.load") if e.i > st[-1].i and (0 in p.fact_not(e.ret) or p.fact_int(e.ret))]:
            return None
        if not [w for w in p.all("wake") if w.i > st[-1].i]:
            return ("the receiver is not woken after the channel was marked closed", st[-1].loc)

    b, ps = r["close"]
    c.forall("a successful close marks the channel closed and wakes the receiver", b, ps, closes, ok_paths)
    if d is not None:
        c.forall("dropping the publisher marks the channel closed and wakes the receiver", d[0], d[1], closes, lambda p: p.kind == "ret")
    b, ps = r["poll"]

    def registered(p):
        reg = p.all("register")
        if not reg:
            return "a poll returns without registering whom to wake"
        first = [e for e in p.ev if e.label in ("closed.load", "count.load", "inner.poll")]
        if first and reg[0].i > first[0].i:
            return ("whom to wake is registered after the state was read: a wake in between is lost", reg[0].loc)
        for e in p.all("unregister"):
            if e.i > reg[0].i:
                return ("the waker that was registered is taken away again: a wake later on is lost", e.loc)
        if not any(any_sub(a, lambda t: t is c.params(b)[1]) for a in reg[0].args):
            return ("the waker registered is not the one of this poll", reg[0].loc)

    c.forall("a pending receiver has registered its waker before it looks", b, ps, registered, lambda p: poll_kind(p) == "pending")

    def ends(p):
        polls = p.all("inner.poll")
        if not polls:
            return "a poll returns pending without asking the underlying stream"
        busy = [e for e in p.all("count.load") if 0 in p.fact_not(e.ret) or (p.fact_int(e.ret) or 0) > 0]
        if busy:
            return None
        if p.variant(polls[-1].ret) == "Ready":
            return "the underlying stream ended, nothing is outstanding and the receiver does not end"
        if [e for e in p.all("closed.load") if p.fact_int(e.ret) == 0]:
            return None
        return "the channel is closed, nothing is outstanding and the receiver does not end"

    c.forall("a closed and drained channel ends", b, ps, ends, lambda p: poll_kind(p) == "pending", floor=2)
    ch.census()


def c03(c):
    ch = Channel(c)
    b = ch.publish()
    ps = ch.run(b)
    payload = c.params(b)[1]

    def forward(p):
        sends = p.all("call inner.publish")
        shut = [e for e in p.all("closed.load") if p.fact_int(e.ret) == 1]
        if not p.all("closed.load"):
            return "a message is published without checking whether the channel is closed"
        if shut:
            if sends:
                return ("a message is sent on a closed channel", sends[0].loc)
            return None if result_kind(p) == "Err" else ("publishing on a closed channel succeeds", shut[0].loc)
        done = p.all("inner.publish")
        if len(sends) != 1 or len(done) != 1:
            return "a message published on an open channel is not sent exactly once"
        if sends[0].args[1] is not payload:
            return ("what is sent is not what was published", sends[0].loc)
        if strip_proj(sends[0].args[0])[1][-1:] != (ch.inner_p,):
            return ("the message is sent on another publisher", sends[0].loc)
        inner = p.variant(done[0].ret)
        if inner != result_kind(p):
            return ("publishing reports %s when the send gave %s" % (result_kind(p), inner), done[0].loc)

    c.forall("publish refuses when closed, and otherwise sends the message exactly once and reports how that went", b, ps, forward, lambda p: p.kind == "ret", floor=3)
    c.forall("publishing does not panic", b, ps, lambda p: "publishing panics", lambda p: p.kind == "panic", floor=0)
    b = ch.close()
    ps = ch.run(b)

    def close(p):
        calls = p.all("inner.close")
        if len(calls) > 1:
            return ("the underlying publisher is closed twice", calls[1].loc)
        marks = [e for e in p.ev if e.label.startswith("closed.")]
        if not calls:
            return "the underlying publisher is not closed"
        if p.variant(calls[0].ret) == "Err" and result_kind(p) != "Err":
            return ("a failure to close the underlying publisher is not reported", calls[0].loc)
        if result_kind(p) == "Ok" and not marks:
            return "the channel is not marked closed: later messages would be accepted"

    c.forall("close closes the underlying publisher and marks the channel closed", b, ps, close, lambda p: p.kind == "ret", floor=2)

    def marks(p):
        for e in p.ev:
            if e.label.startswith("closed.") and e.label != "closed.load":
                v = e.args[2] if e.label.startswith("closed.compare") else e.args[1]
                if v.tag != "int" or v.a[0] != 1:
                    return ("a closed channel is opened again", e.loc)

    for bb, pp in explore_all(ch).values():
        c.forall("nothing opens a closed channel again", bb, pp, marks)
    c.forall("a successful close leaves the channel closed", b, ps,
             lambda p: None if [e for e in p.ev if (e.label in ("closed.store", "closed.swap", "closed.fetch_or") or (e.label == "closed.load" and p.fact_int(e.ret) == 1))] or p.all("closed.compare_exchange") else "the channel is not marked closed",
             ok_paths)
    ch.census()


RULES = {"C01": c01, "C02": c02, "C03": c03}
