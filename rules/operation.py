"""Operations: C18 (containing user code), C19 (retrying), C20 (what errors carry), C21 (identity), C22 (serialization)."""
import struct

from common import *
from runtime import generated

ERR = "paladin::operation::error::"
OE = ERR + "OperationError"
TO, FROM = "paladin::serializer::Serializer::to_bytes", "paladin::serializer::Serializer::from_bytes"
RETRIES = (OE + "::retry_trace", OE + "::retry")
USER = r"\Aprobe::probe_\w+\Z|\Apaladin::operation::Monoid::combine\Z"
FATAL = "adt:" + OE


def named(c, v, adt):
    """The fields of a struct or of a variant's payload by name, or None."""
    if not is_agg(v, "adt:" + adt):
        return None
    a = c.adt(adt)
    var = next((x for x in a["v"] if x[0] == v.a[2]), a["v"][0]) if isinstance(a["v"][0], (list, tuple)) else next((x for x in a["v"] if x["n"] == v.a[2]), a["v"][0])
    fs = var["f"] if isinstance(var, dict) else var[1]
    return dict(zip([n for n, *_ in fs], fields(v)))


def is_fatal(c, v, strategy=None):
    f = named(c, v, OE)
    return f is not None and v.a[2] == "Fatal" and (strategy is None or is_agg(f["strategy"], "adt:" + ERR + "FatalStrategy") and f["strategy"].a[2] == strategy)


# --------------------------------------------------------------------------- C18

ROWS = (("call", USER, "run"), ("unwind", "", "unwind"), ("lost", "", "lost"), ("call", r"::(spawn|spawn_blocking|spawn_local|block_in_place)\Z", "spawn"), ("call", r"\A%s\Z" % FROM, "decode"), ("call", r"\A%s\Z" % TO, "encode"))
RETRY = (("call", r"\A%s::retry(_trace)?\Z" % OE, "retry"), ("await", r"\A%s::retry(_trace)?\Z" % OE, "retried"))
USERS = ("probe::probe_first", "probe::probe_second", "probe::probe_monoid")


def executions(c):
    """The generated functions with their paths, and the paths of the attempts they hand to retrying."""
    for b in sorted(generated(c), key=lambda b: b.spath):
        yield b, c.paths(b, ROWS + RETRY, opaque=RETRIES + USERS + (TO, FROM), may_panic=USER + "|%s" % TO)


def c18(c):
    n = 0
    for b, ps in executions(c):
        n += 1
        task, abort = c.params(b)[:2]
        c.forall("executing an operation never panics", b, ps, lambda p: "a panic of an operation or of its serialization is not contained", lambda p: p.kind == "panic", floor=0)

        def contained(p):
            for e in p.all("run"):
                if not any(s.i < e.i for s in p.all("spawn")):
                    return ("an operation is executed on a thread of the asynchronous runtime", e.loc)
                if e.args[-1] is not abort:
                    return ("an operation does not get the abort signal of its task", e.loc)
            if len(p.all("run")) > 1:
                return "an operation is executed twice in one attempt"

        c.forall("an operation is executed on a thread of its own, with the abort signal", b, ps, contained, floor=4)

        def failed(p):
            last = [e for e in p.all("unwind", "lost")]
            r = p.one("retry")
            if r is not None:
                v = r.args[0]
            elif result_kind(p) == "Err":
                v = p.val.a[3][0]
            else:
                return "a panic is taken for success"
            if not is_fatal(c, v, "Terminate"):
                return ("a panic or a lost thread is not a fatal error that terminates the job", last[-1].loc)

        c.forall("a panic is a fatal error that terminates the job", b, ps, failed, lambda p: p.all("unwind", "lost"), floor=2)

        def undecodable(p):
            e = [e for e in p.all("decode", "encode") if p.variant(e.ret) == "Err"][0]
            v = p.one("retry").args[0] if p.one("retry") else (p.val.a[3][0] if result_kind(p) == "Err" and p.val.tag == "agg" else None)
            if v is None or not is_fatal(c, v, "Terminate"):
                return ("what cannot be decoded or encoded is not a fatal error that terminates the job", e.loc)
            if not any_sub(v, lambda s: s is mk("vf", e.ret, "Err", "0")):
                return ("why something cannot be decoded or encoded is lost", e.loc)

        c.forall("what cannot be decoded or encoded is a fatal error", b, ps, undecodable, lambda p: any(p.variant(e.ret) == "Err" for e in p.all("decode", "encode")) and not p.all("unwind", "lost"), floor=2)

        def own(p):
            e = p.one("run")
            v = p.one("retry").args[0] if p.one("retry") else (p.val.a[3][0] if result_kind(p) == "Err" and p.val.tag == "agg" else None)
            if v is not mk("vf", e.ret, "Err", "0"):
                return ("the error of an operation is changed on the way", e.loc)

        c.forall("the error of an operation is what is retried", b, ps, own, lambda p: p.one("run") and p.variant(p.one("run").ret) == "Err" and not p.all("unwind", "lost"))

        def reported(p):
            r = p.one("retried")
            if r is None:
                return None if result_kind(p) == "Ok" or is_fatal(c, p.val.a[3][0]) else "a transient error is not retried"
            if p.variant(r.ret) != result_kind(p):
                return ("the outcome of retrying is turned into another", r.loc)
            if result_kind(p) == "Err":
                v = p.val if p.val.tag != "agg" else p.val.a[3][0]
                if v is not r.ret and v is not mk("vf", r.ret, "Err", "0"):
                    return ("the error that remains after retrying is changed", r.loc)
            elif not any_sub(p.val, lambda s: s is mk("vf", r.ret, "Ok", "0")):
                return ("the output that retrying gave is lost", r.loc)

        c.forall("the outcome of retrying is the outcome of the task", b, ps, reported, lambda p: p.kind == "ret", floor=4)

        # what is retried is what was attempted
        first = {attempt_key(p, p.one("retry")) for p in ps if p.kind == "ret" and not p.all("unwind", "lost")}
        q = next((p for p in ps if p.one("retry")), None)
        if c.ob("a failed operation is retried", b.spath, q is not None, "a failed operation is not retried", b.where):
            again = c.continued(q, b, q.one("retry").args[1], ROWS, opaque=RETRIES + USERS + (TO, FROM))
            second = {attempt_key(p, None) for p in again if p.kind == "ret" and not p.all("unwind", "lost")}
            c.ob("retrying attempts the same again", b.spath, first == second, "what is retried differs from the first attempt: %s / %s" % (sorted(first - second), sorted(second - first)), b.where)
            c.forall("the error of an attempt is what its retrying sees", b, again, lambda p: retried_error(c, p), lambda p: p.kind == "ret" and result_kind(p) == "Err")
    c.ob("the generated functions were found", "paladin-opkind-derive", n >= 3, "only %d generated functions were found" % n)

    # the operation a task names may not exist
    b = c.fn("paladin::task::AnyTask::remote_execute")
    ps = c.paths(b, (("call", r"\A<fn value>\Z", "run"),))
    c.forall("an unknown operation is a fatal error", b, ps, lambda p: None if result_kind(p) == "Err" and p.val.tag == "agg" and is_fatal(c, p.val.a[3][0], "Terminate") else "a task that names an unknown operation does not fail", lambda p: p.kind == "ret" and not p.all("run"))
    c.forall("an unknown operation does not make the worker panic", b, ps, lambda p: "a task that names an unknown operation makes the worker panic", lambda p: p.kind == "panic", floor=0)


def attempt_key(p, retry):
    """What an attempt does, without how it ends for whom."""
    ev = [e for e in p.ev if e.label in ("run", "decode", "encode", "spawn") and (retry is None or e.i < retry.i)]
    return tuple((e.label, show(e.args[0], 3) if e.label == "decode" else "", p.variant(e.ret) if e.label != "spawn" else "") for e in ev)


def retried_error(c, p):
    v = p.val.a[3][0] if p.val.tag == "agg" else None
    if p.all("unwind", "lost"):
        return None if v is not None and is_fatal(c, v, "Terminate") else "a panic of a later attempt is not a fatal error that terminates the job"
    bad = [e for e in p.all("decode", "encode") if p.variant(e.ret) == "Err"]
    if bad:
        return None if v is not None and is_fatal(c, v) else ("what cannot be decoded or encoded is not a fatal error", bad[0].loc)
    e = p.one("run")
    return None if e is None or v is mk("vf", e.ret, "Err", "0") else ("the error of an operation is changed on the way", e.loc)


# --------------------------------------------------------------------------- C19

COUNT = 12


def feasible(p, t, candidates):
    """The values of an unknown number the facts of a path leave possible."""
    def ev(x, m):
        if x is t:
            return m
        if x.tag == "int":
            return x.a[0]
        if x.tag == "bin":
            a, b = ev(x.a[1], m), ev(x.a[2], m)
            if a is None or b is None:
                return None
            return {"Eq": lambda: int(a == b), "Lt": lambda: int(a < b), "Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b}.get(x.a[0], lambda: None)()
        if x.tag == "not":
            a = ev(x.a[0], m)
            return None if a is None else int(not a)
        return None

    out = set()
    fs = [(x, f) for x, f in p.st.facts.items() if any_sub(x, lambda s: s is t)]
    for m in candidates:
        good = True
        for x, f in fs:
            v = ev(x, m)
            if v is None:
                continue
            if f[0] == "i" and v != f[1] or f[0] == "ni" and v in f[1]:
                good = False
                break
        if good:
            out.add(m)
    return out


def tried(c, b, ps, f, tracer, strategy, wraps):
    """`strategy` is followed on all paths; `wraps`: the errors are operation errors, the last of which becomes fatal."""
    n = {"Immediate": 0, "After": 0, "Exponential": 0}

    def attempts(p):
        return [e for e in p.all("call") if e.args[0] is f]

    def outs(p):
        return [e for e in p.all("out") if any_sub(e.args[0], lambda s: s is f)]

    def strat(p):
        return p.variant(strategy)

    def fatal(p, o):
        return wraps and p.variant(o.ret) == "Err" and p.variant(mk("vf", o.ret, "Err", "0")) == "Fatal"

    def outcome(p):
        """The result is that of the last attempt."""
        os = outs(p)
        if not os:
            return None
        last = os[-1]
        if last.i < max(e.i for e in attempts(p)):
            return ("an attempt is not awaited", last.loc)
        for o in os[:-1]:
            if p.variant(o.ret) == "Ok":
                return ("an operation that succeeded is executed again", o.loc)
            if fatal(p, o):
                return ("a fatal error is retried", o.loc)
        v = p.variant(last.ret)
        if v != result_kind(p):
            return ("the outcome of the last attempt is turned into another", last.loc)
        inner = mk("vf", last.ret, v, "0")
        got = p.val.a[3][0] if p.val.tag == "agg" else mk("vf", p.val, v, "0")
        if p.val is last.ret or got is inner:
            return None if v == "Ok" or not wraps or fatal(p, last) else ("an error that remains after retrying is not fatal", last.loc)
        if v == "Ok" or not wraps or fatal(p, last):
            return ("what the last attempt gave is not what is returned", last.loc)
        if not is_fatal(c, got):
            return ("an error that remains after retrying is not fatal", last.loc)
        g = named(c, got, OE)
        if g["strategy"] is not mk("vf", c.params(b)[0], "Transient", "fatal_strategy"):
            return ("an error that remains after retrying does not have the strategy that was chosen for that", last.loc)
        if not any_sub(g["err"], lambda s: s is inner):
            return ("the error that remains after retrying is not the last one", last.loc)

    sel = lambda p: p.kind == "ret" and outs(p) and len(attempts(p)) < COUNT  # noqa
    c.forall("the last attempt decides the outcome", b, ps, outcome, sel, floor=6)

    def counted(p):
        v = strat(p)
        if v not in ("Immediate", "After"):
            return None
        n[v] += 1
        k = len(attempts(p))
        m = mk("vf", strategy, v, "max_retries")
        poss = feasible(p, m, range(0, 3 * COUNT))
        if not poss:
            return None
        if min(poss) < k - 1:
            return "%d attempts are made with %d retries" % (k, min(poss))
        last = outs(p)[-1]
        if result_kind(p) == "Err" and not fatal(p, last) and max(poss) > k - 1:
            return "retrying ends after %d attempts with %s retries" % (k, "more than %d" % (k - 1) if len(poss) > 1 else max(poss))

    c.forall("as many retries are made as the strategy says", b, ps, counted, sel, floor=6)

    def paused(p):
        v = strat(p)
        if v not in ("Immediate", "After"):
            return None
        a = attempts(p)
        for x, y in zip(a, a[1:]):
            s = [e for e in p.all("sleep") if x.i < e.i < y.i]
            if v == "Immediate" and s:
                return ("an immediate retry is delayed", s[0].loc)
            if v == "After" and (len(s) != 1 or not any(z is mk("vf", strategy, v, "duration") for z in s[0].args)):
                return ("a retry is not made after the delay of its strategy", y.loc)
        if [e for e in p.all("sleep") if e.i < a[0].i or e.i > a[-1].i]:
            return ("time is spent waiting without a retry", p.one("sleep").loc)

    c.forall("retries are made after the delay of the strategy", b, ps, paused, sel, floor=6)

    def exponential(p):
        n["Exponential"] += 1
        s = p.one("start")
        if s is None:
            return "exponential retries are not made by exponential backoff"
        lo, hi = mk("vf", strategy, "Exponential", "min_duration"), mk("vf", strategy, "Exponential", "max_duration")
        conf = {e.ret.a[2].rsplit("::", 1)[1]: e for e in p.all("build") if e.ret.tag == "ret" and e.i < s.i}
        for name, want in (("initial_interval", lo), ("max_elapsed_time", hi)):
            e = conf.get("with_" + name)
            if e is not None and same_text(e.args[1].a[3][0] if is_agg(e.args[1]) and e.args[1].a[2] == "Some" else e.args[1], want):
                continue
            if e is None and any_sub(s.args[0], lambda t: t is want):
                continue
            return ("exponential retries do not have the %s of the strategy" % name.replace("_", " "), s.loc)
        for name, e in conf.items():
            if name == "with_multiplier" and not (e.args[1].tag == "int" and as_float(e.args[1].a[0]) > 1) or name == "with_max_interval" and any_sub(e.args[1], lambda t: t is lo):
                return ("the delays of exponential retries do not grow", e.loc)
        for e in attempts(p):
            if e.i < s.i:
                return ("an attempt is made before the backoff begins", e.loc)
        for e in p.all("after"):
            return ("a retry is not made after the delay of the backoff", e.loc)

    c.forall("exponential retries begin and end with the durations of the strategy", b, ps, exponential, lambda p: p.kind == "ret" and strat(p) == "Exponential", floor=3)
    c.forall("exponential retries are made again after a failure", b, ps, lambda p: True, lambda p: p.all("again"), floor=1)

    def traced(p):
        a = attempts(p)
        t = [e for e in p.all("call") if e.args[0] is tracer]
        os = outs(p)
        for o, nxt in zip(os, a[1:]):
            k = [e for e in t if o.i < e.i < nxt.i]
            if len(k) != 1:
                return ("a failure that is retried is reported %d times" % len(k), o.loc)
            if k[0].args[-1] is not mk("vf", o.ret, "Err", "0"):
                return ("something else than the failure is reported", k[0].loc)
        if len(t) > len(a) - 1:
            return ("something else than the failures that are retried is reported", t[-1].loc)

    if tracer is not None:
        c.forall("every failure that is retried is reported once", b, ps, traced, sel, floor=6)
    c.forall("retrying does not panic", b, ps, lambda p: "retrying panics", lambda p: p.kind == "panic" and len(attempts(p)) < COUNT, floor=0)
    for k, v in n.items():
        c.ob("the strategy is followed", "%s %s" % (b.spath, k), v > 0, "the strategy %s is not followed" % k, b.where)


def c19(c):
    clones(c, "a copy of a strategy is the same strategy", "paladin::operation::error::")
    rows = (("call", r"\A<fn value>\Z", "call"), ("await", r"\A<fn value>\Z", "out"), ("await", r"tokio::time::.*sleep", "sleep"), ("call", r"ExponentialBackoffBuilder::", "build"), ("backoff", "start", "start"), ("backoff", "again", "again"), ("backoff", "after", "after"))
    for owner, wraps in (("RetryStrategy", False), ("OperationError", True)):
        for name in ("retry", "retry_trace"):
            b = c.fn(ERR + owner + "::" + name)
            ps = c.paths(b, rows, count=COUNT)
            me, f = c.params(b)[:2]
            tracer = c.params(b)[2] if name == "retry_trace" else None
            tried(c, b, ps, f, tracer, mk("vf", me, "Transient", "retry_strategy") if wraps else me, wraps)
            if wraps:
                def fatal(p):
                    if p.all("call"):
                        return ("a fatal error is retried", p.one("call").loc)
                    if result_kind(p) != "Err" or p.val.tag != "agg" or not (fields(p.val)[0] is me or same_fatal(c, fields(p.val)[0], me)):
                        return "a fatal error is changed by retrying"

                c.forall("a fatal error is not retried", b, ps, fatal, lambda p: p.kind == "ret" and p.variant(me) == "Fatal")
            c.forall("an operation is attempted at least once more", b, ps, lambda p: None if p.all("call") else "a transient error is not retried", lambda p: p.kind == "ret" and (not wraps or p.variant(me) == "Transient"), floor=6)


def same_fatal(c, v, me):
    g = named(c, v, OE)
    return g is not None and v.a[2] == "Fatal" and g["err"] is mk("vf", me, "Fatal", "err") and g["strategy"] is mk("vf", me, "Fatal", "strategy")


# --------------------------------------------------------------------------- C20


def as_float(bits):
    return struct.unpack("<d", struct.pack("<Q", bits & (1 << 64) - 1))[0]


def c20(c):
    clones(c, "a copy of a strategy is the same strategy", "paladin::operation::error::")
    E = {"TransientError": ("err", "retry_strategy", "fatal_strategy"), "FatalError": ("err", "strategy")}

    def carries(v, adt, variant, want):
        """`v` is that error and its fields are the wanted terms (a predicate for what is converted)."""
        g = named(c, v, adt)
        if g is None or variant is not None and v.a[2] != variant:
            return "the error is not a %s" % (variant or adt.rsplit("::", 1)[1])
        for k, w in want.items():
            if not (w(g[k]) if callable(w) else g[k] is w):
                return "the error does not keep its %s" % {"err": "cause", "retry_strategy": "retry strategy"}.get(k, "fatal strategy")

    def holds(src):
        return lambda t: whole_text(t, src)

    def every(b, ps, f, sel=lambda p: p.kind == "ret", floor=1):
        c.forall("an error keeps what it was made with", b, ps, f, sel, floor=floor)
        c.forall("making an error does not panic", b, ps, lambda p: "making an error panics", lambda p: p.kind == "panic", floor=0)

    # made by hand
    for adt, fs in E.items():
        for name in ("new", "from_anyhow", "from_str"):
            b = c.fn(ERR + adt + "::" + name)
            a = c.params(b)
            want = dict(zip(fs[1:], a[1:]))
            want["err"] = holds(a[0])
            every(b, c.paths(b, ()), lambda p: carries(p.val, ERR + adt, None, want))

    # converted
    d = c.method("core::default::Default", ERR + "RetryStrategy", "default")
    dp = [p for p in c.paths(d, ()) if p.kind == "ret"]

    def default_retry(t):
        if t.tag == "ret" or t.tag == "pure":
            return t.a[2 if t.tag == "ret" else 0].endswith("Default::default")
        return any(t is p.val for p in dp)

    def terminate(t):
        return is_agg(t, "adt:" + ERR + "FatalStrategy") and t.a[2] == "Terminate"

    c.forall("the strategy a transient error has by default is to retry", d, dp, lambda p: None if is_agg(p.val, "adt:" + ERR + "RetryStrategy") else "there is no default strategy")
    d = c.method("core::default::Default", ERR + "FatalStrategy", "default")
    c.forall("a fatal error terminates the job unless it says otherwise", d, c.paths(d, ()), lambda p: None if terminate(p.val) else "a fatal error does not terminate the job by default")

    n = 0
    for i, ty, ms in c.prog.impls_of("core::convert::From"):
        b = ms.get("from")
        if b is None or not b.spath.startswith(("<paladin::operation::error", "paladin::operation::error")):
            continue
        src = b.ty(b.locals[1][0])
        me = c.params(b)[0]
        s = next((k for k in E if ERR + k == strip(src.get("s", ""))), None)
        out = ty.get("s", "")
        ps = c.paths(b, ())
        n += 1
        if s is None:
            # from whatever the user's code failed with
            tgt = next((k for k in E if strip(out) == ERR + k), None)
            if tgt is None:
                continue
            want = {"err": holds(me), "retry_strategy": default_retry, "fatal_strategy": terminate} if tgt == "TransientError" else {"err": holds(me), "strategy": terminate}
            every(b, ps, lambda p: carries(p.val, ERR + tgt, None, want))
            continue
        variant = s[: -len("Error")]
        want = {k: mk("f", me, k) for k in E[s]}
        if strip(out) == OE:
            every(b, ps, lambda p: carries(p.val, OE, variant, want))
        else:
            every(b, ps, lambda p: carries(p.val.a[3][0], OE, variant, want) if is_res(p.val, "Err") else "an error is converted to something that is not an error")
    c.ob("the conversions were found", ERR, n >= 6, "only %d conversions were found" % n)

    # taken apart
    V = {"Transient": "fatal_strategy", "Fatal": "strategy"}
    b = c.fn(OE + "::into_fatal")
    me = c.params(b)[0]

    def into_fatal(p):
        v = p.variant(me)
        if v is None:
            return "the kind of an error is not looked at"
        if v == "Fatal" and p.val is me:
            return None
        return carries(p.val, OE, "Fatal", {"err": mk("vf", me, v, "err"), "strategy": mk("vf", me, v, V[v])})

    every(b, c.paths(b, ()), into_fatal, floor=2)
    b = c.fn(OE + "::fatal_strategy")
    me = c.params(b)[0]
    every(b, c.paths(b, ()), lambda p: None if p.variant(me) and p.val is mk("vf", me, p.variant(me), V[p.variant(me)]) else "an error reports another fatal strategy than it has", floor=2)
    for name in ("into_err", "as_err"):
        b = c.fn(OE + "::" + name)
        me = c.params(b)[0]
        every(b, c.paths(b, ()), lambda p: None if p.variant(me) and p.resolve(p.val) is mk("vf", me, p.variant(me), "err") else "an error loses its cause", floor=2)

    # what cannot be encoded or decoded never succeeds when it is tried again
    for name, args in (("input_from_bytes", 2), ("output_to_bytes", 2), ("as_bytes", 1), ("from_bytes", 1)):
        b = c.fn("paladin::operation::Operation::" + name)
        ps = c.paths(b, (("call", r"\A(%s|%s)\Z" % (FROM, TO), "code"),), opaque=(TO, FROM))

        def coded(p):
            e = p.one("code")
            if e is None or len(p.all("code")) != 1:
                return "nothing is encoded or decoded"
            if p.variant(e.ret) != result_kind(p):
                return ("a failure to encode or decode is not reported", e.loc)
            inner = mk("vf", e.ret, result_kind(p), "0")
            if result_kind(p) == "Ok":
                return None if p.val is e.ret or p.val.a[3][0] is inner else ("something else is returned than what was encoded or decoded", e.loc)
            return carries(p.val.a[3][0], OE, "Fatal", {"err": holds(inner), "strategy": terminate})

        every(b, ps, coded, floor=2)


def on_bytes(c):
    # executing on bytes: the input is decoded, executed and its output encoded, all in the format that is asked for
    b = c.fn("paladin::operation::Operation::execute_as_bytes")
    me, fmt, data, abort = c.params(b)[:4]
    ps = c.paths(b, (("call", r"\Apaladin::operation::Operation::input_from_bytes\Z", "decode"), ("call", r"\Apaladin::operation::Operation::output_to_bytes\Z", "encode"), ("call", r"\Apaladin::operation::Operation::execute\Z", "run")))

    def executed(p):
        d, r, t = p.one("decode"), p.one("run"), p.one("encode")
        if d is None or len(p.all("decode")) != 1 or len(p.all("run")) > 1 or len(p.all("encode")) > 1:
            return "an input is not decoded, executed and encoded once"
        if p.resolve(d.args[2]) is not data:
            return ("something else is decoded than the input", d.loc)
        for e in (d, t):
            if e is not None and p.resolve(e.args[1]) is not fmt:
                return ("another format is used than the one that is asked for", e.loc)
        if p.variant(d.ret) == "Ok" and r is None or r is not None and p.variant(r.ret) == "Ok" and t is None:
            return ("an input that is decoded is not executed, or its output is not encoded", d.loc)
        if r is not None and (p.resolve(r.args[1]) is not mk("vf", d.ret, "Ok", "0") or r.args[2] is not abort):
            return ("something else is executed than the input, or without the abort signal", r.loc)
        if t is not None and p.resolve(t.args[2]) is not mk("vf", r.ret, "Ok", "0"):
            return ("something else is encoded than the output", t.loc)
        last = t or r or d
        if last is not t and result_kind(p) != "Err" or last is t and p.val is not t.ret and not (p.variant(t.ret) and result_kind(p) == p.variant(t.ret)):
            return ("a failure is not reported", last.loc)

    c.forall("an operation is executed on bytes in the format that is asked for", b, ps, executed, lambda p: p.kind == "ret", floor=3)


def formats(c):
    """What an operation encodes and decodes by itself is in the format that is asked for."""
    for name in ("input_from_bytes", "output_to_bytes", "as_bytes", "from_bytes"):
        b = c.fn("paladin::operation::Operation::" + name)
        ps = c.paths(b, (("call", r"\A(%s|%s)\Z" % (FROM, TO), "code"),), opaque=(TO, FROM))
        c.forall("an operation encodes and decodes in the format that is asked for", b, ps, lambda p: next((("another format is used than the one that is asked for", e.loc) for e in p.all("code") if not any(p.resolve(e.args[0]) is x for x in c.params(b))), None), lambda p: p.all("code"))
    on_bytes(c)


def strip(s):
    return re.sub(r"<.*", "", s).lstrip("&").replace("mut ", "")


RULES = {"C18": c18, "C19": c19, "C20": c20}
