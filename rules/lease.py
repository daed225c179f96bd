"""Leased channels: C29 (a leased channel is released once, when it is no longer used)."""
import re

from common import *
from directive import DIR, LEASE, LITERAL, RESULT, STREAM, TAKE, SEND, SETTLE, args_of, lease

GUARD = "paladin::channel::LeaseGuard"
CHANNEL = "paladin::channel::Channel"
QCHANNEL = "paladin::channel::queue::QueueChannel"
DYN = "paladin::runtime::dynamic_channel::DynamicChannel"
ISSUE = "paladin::channel::ChannelFactory::issue"
REL = ("call|opaque", r"(channel::Channel|as paladin::channel::Channel>)::release\Z", "release")


def spawned(c, p, b, want, opaque=()):
    """What a path hands to another task: [(event, paths)]."""
    return [(e, c.continued(p, b, e.args[0], want, opaque=opaque)) for e in p.all("spawn")]


def c29(c):
    # dropping the guard
    b = next((x for x in c.prog.bodies.values() if re.match(r"<" + re.escape(GUARD) + r"<.*> as pin_project::__private::PinnedDrop>::drop\Z", x.spath)), None)
    if b is None:
        b = c.method("core::ops::drop::Drop", GUARD, "drop")
    me = c.params(b)[0]

    def dropped(p):
        es = p.all("release")
        none = any(f == ("v", "None") and strip_proj(t)[0] is me for t, f in p.st.facts.items())
        if none:
            return ("a channel that is not there is released", es[0].loc) if es else None
        if len(es) != 1:
            return "a channel is released %d times when its lease ends" % len(es)
        if strip_proj(es[0].args[0])[0] is not me:
            return "another channel is released", es[0].loc

    c.forall("the end of a lease releases its channel once", b, c.paths(b, Want(REL), opaque=("paladin::channel::Channel::*",)), dropped, lambda p: p.kind in ("ret", "panic"))
    # making one
    b = c.fn(GUARD + "::new")
    ch, pipe = c.params(b)[:2]
    c.forall("a lease is made of the channel and what is received from it", b, c.paths(b, Want(REL)),
             lambda p: None if p.val.tag == "agg" and any(x is pipe for x in p.val.a[3]) and any(any_sub(x, lambda y: y is ch) for x in p.val.a[3]) and not p.all("release") else "a lease does not keep its channel", lambda p: p.kind == "ret")
    at = {i for p in c.paths(b, Want(REL)) if p.kind == "ret" and p.val.tag == "agg" for i, x in enumerate(p.val.a[3]) if any_sub(x, lambda y: y is ch)}
    names = [n for n, _ in c.adt(GUARD)["v"][0]["f"]]

    def forgets(x, p):
        own = c.params(x)[0]
        for k, v in p.st.mem.items():
            if k == ("O*", own):
                return "a lease forgets its channel while it is used"
            if k[0] == "O" and k[1] is own and k[3] in at:
                was = mk("f", own, names[k[3]])
                if v is not was and p.variant(was) != "None":
                    return "a lease forgets its channel while it is used"

    # using one does not end it
    uses = [x for x in c.prog.bodies.values() if re.search(re.escape(GUARD) + r"(<.*>)?( as .*>)?::(\w+)\Z", x.spath) and not re.search(r"PinnedDrop|::(new|drop)\Z|__drop_inner|core::ops::drop", x.spath)]
    n = 0
    for x in uses:
        n += 1
        c.forall("using a lease does not end it", x, c.paths(x, Want(REL), opaque=("paladin::channel::Channel::*",), future=False), lambda p: ("a channel is released while it is leased", p.one("release").loc) if p.all("release") else forgets(x, p) if c.params(x) else None)
    c.ob("the uses of a lease were found", GUARD, n >= 2, "the uses of a lease were not found")
    b = c.method("futures_core::stream::Stream", GUARD, "poll_next")
    gme = c.params(b)[0]
    PN = ("call|opaque", r"::poll_next(_unpin)?\Z", "inner")

    def handed(p):
        es = p.all("inner")
        if len(es) != 1 or strip_proj(es[0].args[0])[0] is not gme:
            return "what is received under a lease does not come from its channel"
        r, v = es[0].ret, p.val
        if v is r or p.resolve(v) is p.resolve(r):
            return None
        k = p.variant(r)
        if v.tag != "agg" or k is None or v.a[2] != k:
            return "what is received under a lease is changed", es[0].loc
        if k == "Ready":
            x, y = mk("vf", r, "Ready", "0"), v.a[3][0]
            if x is not y and not (p.variant(x) == "None" and y.tag == "agg" and y.a[2] == "None") and not (
                    y.tag == "agg" and y.a[2] == "Some" and p.variant(x) == "Some" and y.a[3][0] is mk("vf", x, "Some", "0")):
                return "what is received under a lease is changed", es[0].loc

    c.forall("a lease hands out what it receives", b, c.paths(b, Want(PN), opaque=("paladin::channel::Channel::*",), future=False), handed, lambda p: p.kind == "ret")
    # releasing a queue's channel deletes its queue
    b = c.method(CHANNEL, QCHANNEL, "release")
    me = c.params(b)[0]
    DEL = ("await", r"Connection::delete_queue\Z", "delete")
    SPAWN = ("call|opaque", r"(^|::)(spawn|spawn_local|spawn_on)\Z", "spawn")

    def deleted(p):
        runs = [p]
        for e, qs in spawned(c, p, b, (DEL,)):
            if len(runs) > 1 or p.all("delete"):
                return "a queue is deleted by several tasks", e.loc
            runs = qs
        for q in runs:
            if q.kind == "panic":
                continue
            es = q.all("delete")
            if len(es) != 1:
                return "releasing a channel deletes %d queues" % len(es)
            e = es[0]
            conn, name = (strip_proj(x) for x in e.args[:2])
            if conn[0] is not me or name[0] is not me:
                return "releasing a channel deletes the queue of another", e.loc
            if name[1][-1:] != ("identifier",) and e.args[1] is not ident_of(c, me):
                return "releasing a channel deletes a queue with another name", e.loc

    c.forall("releasing a channel deletes its queue once", b, c.paths(b, Want(SPAWN, DEL)), deleted, lambda p: p.kind == "ret")
    c.forall("releasing a channel does not panic", b, c.paths(b, Want()), lambda p: "releasing a channel panics", lambda p: p.kind == "panic", floor=0)
    # either kind of channel releases what it is
    b = c.method(CHANNEL, DYN, "release")
    me = c.params(b)[0]
    ps = c.paths(b, Want(REL), opaque=("paladin::channel::Channel::*",))

    def chosen(p):
        es = p.all("release")
        v = p.variant(me)
        if len(es) != 1 or v is None or es[0].args[0] is not mk("vf", me, v, "0"):
            return "releasing a channel releases %s" % ("another one" if len(es) == 1 else "%d" % len(es))

    c.forall("a channel of either kind is released as what it is", b, ps, chosen, lambda p: p.kind == "ret", floor=2)
    # a leased channel is the one that is issued
    b = c.fn(LEASE)
    ISS = ("await", r"ChannelFactory(>)?::issue\Z", "issue")
    RCV = ("await", r"Channel(>)?::receiver\Z", "receiver")
    GET = ("await", r"ChannelFactory(>)?::get\Z", "get")
    NEW = ("call|opaque", re.escape(GUARD) + r"::new\Z", "guard")
    ps = c.paths(b, Want(ISS, RCV, GET, NEW, REL), opaque=("paladin::channel::Channel::*", "paladin::channel::ChannelFactory::*", "paladin::channel::coordinated_channel::*", GUARD + "::new"))

    def made(p):
        es, rs, gs = p.all("issue"), p.all("receiver"), p.all("guard")
        if len(es) != 1 or p.all("get"):
            return "a lease takes %d channels" % (len(es) + len(p.all("get")))
        if p.all("release"):
            return "a channel is released although it is leased", p.one("release").loc
        t = mk("vf", es[0].ret, "Ok", "0")
        ident, chan = mk("f", t, 0), mk("f", t, 1)
        out = p.val.a[3][0]
        if not is_agg(out, "tuple") or out.a[3][0] is not ident:
            return "a lease does not name its channel", es[0].loc
        if len(gs) != 1 or gs[0].args[0] is not chan or out.a[3][2] is not gs[0].ret:
            return "a lease does not guard its channel", es[0].loc
        if len(rs) != 1 or rs[0].args[0] is not chan:
            return "the results are not received from the leased channel", es[0].loc
        if not any_sub(gs[0].args[1], lambda x: x is mk("vf", rs[0].ret, "Ok", "0")):
            return "the lease does not cover what is received from the channel", es[0].loc

    c.forall("a lease is of the channel that is issued for it", b, ps, made, ok_paths)
    # it is held as long as results are awaited
    END = ("call|opaque", REL[1], "end", lambda ev: any_sub(ev.args[0], lambda t: head(t) == LEASE))
    b = c.method(DIR + "Functor", STREAM, "f_map")
    LS = ("await", re.escape(LEASE) + r"\Z", "lease")
    ps = c.paths(b, Want(LS, END), opaque=(LEASE, "paladin::channel::Channel::*"))
    c.forall("a map keeps its channel for its results", b, ps, lambda p: ("a map gives up its channel before its results", p.one("end").loc) if p.all("end") else (None if any_sub(p.val, lambda x: x is lease(p)[2]) else "a map does not keep its channel"), ok_paths)
    b = c.method(DIR + "Functor", LITERAL, "f_map")
    ps = c.paths(b, Want(LS, END, RESULT, *SEND), opaque=(LEASE, "paladin::channel::Channel::*"))

    def held(p):
        for i, e in enumerate(p.ev):
            if e.label == "end" and any(x.label in ("result", "publish") for x in p.ev[i:]):
                return "the channel is given up before the result", e.loc

    c.forall("mapping a value keeps its channel for its result", b, ps, held, lambda p: p.all("publish"))
    b = c.method(DIR + "Foldable", STREAM, "f_fold")
    ps = c.paths(b, Want(LS, END, RESULT, TAKE, ("await", r"::pending\Z", "pending")), opaque=("paladin::runtime::*", "paladin::contiguous::*", "paladin::channel::Channel::*"), cut=("take", "result", "pending"))
    c.forall("a fold keeps its channel until it ends", b, ps, lambda p: ("a fold gives up its channel before it ends", p.one("end").loc) if p.kind == "cut" and p.all("end") else None)
    # nothing is leaked
    unleaked(c, "nothing is leaked")
    # and nothing else releases a channel or deletes its queue
    only_from(c, "only the end of a lease releases a channel", CHANNEL + "::release", r"<" + re.escape(GUARD) + r"<.*> as (pin_project::__private::PinnedDrop|core::ops::drop::Drop)>::|as " + re.escape(CHANNEL) + r">::release\Z", "a channel is released that is not leased, or before its lease ends")
    only_from(c, "only releasing a channel deletes its queue", "paladin::queue::Connection::delete_queue", r"as " + re.escape(CHANNEL) + r">::release\Z|as paladin::queue::Connection>::delete_queue\Z", "a queue is deleted although its channel is not released")


def ident_of(c, me):
    return mk("f", me, "identifier")


RULES = {"C29": c29}
