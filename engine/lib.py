"""What the rules are written with: runs of the path-sensitive interpreter and questions about their paths."""
import re
from absint import *
import absint
import models


class Broken(Exception):
    """The rule cannot find what it speaks about: the check fails closed."""


class E:
    """One event on a path."""

    __slots__ = ("label", "args", "ret", "loc", "fn", "i")

    def __init__(self, t, i):
        self.label, self.args, self.ret, self.loc, self.fn = t
        self.i = i

    def __repr__(self):
        return "%s(%s)@%s" % (self.label, ", ".join(show(a, 3) for a in self.args) if isinstance(self.args, tuple) else show(self.args, 3), self.loc)


class Path:
    """One path: how it ends (`ret`, `panic`, `suspend` or `cut`), with what value and which events."""

    def __init__(self, kind, val, st, interp):
        self.kind, self.val, self.st, self.interp = kind, val, st, interp
        self.ev = [E(t, i) for i, t in enumerate(st.mon)]

    def all(self, *labels):
        return [e for e in self.ev if e.label in labels]

    def one(self, label):
        r = self.all(label)
        return r[0] if r else None

    def fact_int(self, t):
        """The integer (or boolean) the path knows for a term, or None."""
        if t.tag == "int":
            return t.a[0]
        f = self.st.facts.get(t)
        if f and f[0] == "i":
            return f[1]
        return None

    def fact_not(self, t):
        f = self.st.facts.get(t)
        return f[1] if f and f[0] == "ni" else frozenset()

    def variant(self, t):
        return self.interp.variant_of(self.st, t)

    def truth(self, t):
        return self.interp.truth(self.st, t)

    def resolve(self, t):
        return self.interp.resolve(self.st, t)

    def loc(self):
        return self.ev[-1].loc if self.ev else "?"

    def enum(self, field, variants):
        """The variant the path knows for the field of that name, wherever the struct it is in was reached."""
        got = set()
        for t, f in self.st.facts.items():
            if t.tag in ("f", "vf") and t.a[-1] == field:
                if f[0] == "v":
                    got.add(f[1])
                elif f[0] == "nv" and len(set(variants) - set(f[1])) == 1:
                    got |= set(variants) - set(f[1])
        return got.pop() if len(got) == 1 else None


class Run:
    """A rule's use of the interpreter over one entry point."""

    def __init__(self, check, name):
        self.check, self.name = check, name


class Want:
    """Maps events to labels: a list of (kind regex, path regex, label[, predicate on the event])."""

    def __init__(self, *rows):
        self.rows = [(re.compile(k + r"\Z"), re.compile(p), l, (x[0] if x else None)) for k, p, l, *x in rows]
        self.cache = {}

    def __call__(self, ev):
        k = (ev.kind, ev.path)
        c = self.cache.get(k)
        if c is None:
            c = self.cache[k] = [(l, p) for kr, pr, l, p in self.rows if kr.match(ev.kind) and pr.search(ev.path)]
        for l, p in c:
            if p is None or p(ev):
                return l
        return None


class Monitor(TraceRule):
    def __init__(self, want, opaque_paths, cut, segs):
        super().__init__(want, opaque_paths)
        self.cut, self.segs = cut, segs

    def event(self, interp, ev):
        l = self.want(ev)
        if l is None:
            return True
        if self.cut is not None and (l == self.cut or isinstance(self.cut, tuple) and l in self.cut):
            st = ev.st
            mem, facts, mon = interp.pre[1:] if interp.pre[0] is st else (st.mem, st.facts, st.mon)
            k = (mon, frozenset(facts.items()))
            if k not in self.segs:
                self.segs[k] = (St(dict(mem), dict(facts), mon), set())
            self.segs[k][1].add(l)
            st.mon = ()
        return super().event(interp, ev)


class Check:
    """One property's check on one tree."""

    def __init__(self, prog, pid, tier="quick"):
        self.prog, self.pid, self.tier = prog, pid, tier
        self.violations = []  # (key, location, message)
        self.obligations = []
        self.fns = set()
        self.npaths = self.nstates = self.ncalls = self.nawaits = 0
        self.runs = []
        self.notes = []

    # ---------------------------------------------------------------- anchors

    def method(self, trait, adt, name):
        b = self.prog.impl_method(trait, adt, name)
        if b is None:
            raise Broken("no `%s` of `%s` for `%s` in the program" % (name, trait, adt))
        return b

    def has_method(self, trait, adt, name):
        return self.prog.impl_method(trait, adt, name)

    def fn(self, path):
        b = self.prog.by_path(path)
        if b is None:
            raise Broken("no function `%s` in the program" % path)
        return b

    def adt(self, path):
        a = self.prog.adt_by_path.get(path)
        if a is None:
            raise Broken("no type `%s` in the program" % path)
        return a

    def field(self, adt, pred, default):
        """The name of the one field of a struct whose type satisfies `pred`."""
        a = self.adt(adt)
        ids = self.prog.adt_ids[adt]
        crate = None
        for k in ids:
            crate = self.prog.crates.get(k.split("#")[0], crate)
        a = next((self.prog.adts[k] for k in ids if self.prog.adts[k]["v"] and k.split("#")[0] in self.prog.crates), a)
        names = [(n, crate.tys[t]["s"] if t is not None else "") for n, t in a["v"][0]["f"]]
        hit = [n for n, t in names if pred(t)]
        if len(hit) == 1:
            return hit[0]
        if default in hit or (not hit and default in [n for n, _ in names]):
            return default
        raise Broken("no field of `%s` has the role of `%s`" % (adt, default))

    def index(self, adt, field):
        return [n for n, _ in self.adt(adt)["v"][0]["f"]].index(field)

    def now(self, p, t, adt, field):
        """What the field of an opaque struct holds at the end of a path."""
        k = ("O", t, None, self.index(adt, field))
        return p.st.mem.get(k) or mk("f", t, field)

    # ---------------------------------------------------------------- runs

    def paths(self, body, want, opaque=(), cut=None, args=None, cancel=False, st=None, max_states=40000, name=None, future=True, may_panic=None, count=None):
        """All paths of a function; of the future it returns as well, if it returns one."""
        segs = {}
        rule = Monitor(want if callable(want) else Want(*want), opaque, cut, segs)
        rule.may_panic = re.compile(may_panic) if may_panic else None
        I = Interp(self.prog, rule, max_states=max_states, cancel=cancel)
        if count is not None:
            # numbers are followed exactly up to `count`, and as many executions of a call site are told apart
            I.count, I.offset, I.exact = count, count, True
            rule.cap = count + 3
        if args is None:
            args = self.params(body)
        st = st.copy() if st is not None else St(mon=())
        return self.explored(I, body, I.run(body, args, st, I.ctx(None, body, -1, body.id)), segs, future)

    def continued(self, p, body, what, want, opaque=(), cut=None, max_states=40000):
        """All paths of a closure or future that a path made and handed to somebody else, from the state the path ended in."""
        segs = {}
        I = p.interp
        old = I.rule
        I.rule = Monitor(want if callable(want) else Want(*want), opaque, cut, segs)
        I.rule.may_panic = None
        st = p.st.copy()
        st.mon = ()
        call = Call(I, body, 0, {"s": body.raw["span"], "k": "call", "at": []}, I.ctx(None, body, -1, body.id), 999998, None, False)
        try:
            if what.tag == "agg" and what.a[0].startswith("closure:"):
                outs = I.invoke(call, st, what, [])
            elif models.is_stream(what) or what.tag == "agg" and what.a[0].startswith("adt:") and self.prog.impl_method("futures_core::stream::Stream", what.a[0][4:], "poll_next"):
                outs = models.stream_next(I, call, st, what)  # its next item
            elif what.tag == "agg":
                outs = I.run_future(call, st, what)
            else:
                raise Broken("what `%s` hands to another task is not known" % body.spath)
            return self.explored(I, body, outs, segs, True)
        finally:
            I.rule = old

    def applied(self, p, body, f, args, want=(), opaque=()):
        """All paths of a function value applied to given arguments, from the state a path ended in."""
        I = p.interp
        old = I.rule
        segs = {}
        I.rule = Monitor(want if callable(want) else Want(*want), opaque, None, segs)
        I.rule.may_panic = None
        st = p.st.copy()
        st.mon = ()
        call = Call(I, body, 0, {"s": body.raw["span"], "k": "call", "at": []}, I.ctx(None, body, -1, body.id), 999997, None, False)
        try:
            return self.explored(I, body, I.invoke(call, st, f, list(args)), segs, False)
        finally:
            I.rule = old

    def explored(self, I, body, outs, segs, future):
        res = []
        for o in outs:
            if future and o.kind == "ret" and o.val.tag == "agg" and (o.val.a[0].startswith("coroutine:") or o.val.a[0].startswith("lazy:f_") or o.val.a[0].startswith("lazy:tf_")):
                c = Call(I, body, 0, {"s": body.raw["span"], "k": "call", "at": []}, I.ctx(None, body, -1, body.id), 999999, None, False)
                res.extend(I.run_future(c, o.st, o.val))
            else:
                res.append(o)
        ps = [Path(o.kind, o.val, o.st, I) for o in res]
        for s, at in segs.values():
            p = Path("cut", None, s, I)
            p.at = at  # what it is cut at
            ps.append(p)
        self.fns |= {self.prog.bodies[i].spath for i in I.visited_fns}
        self.npaths += len(ps)
        self.nstates += I.nstates
        self.ncalls += I.ncalls
        self.nawaits += I.nawaits
        self.runs.append({"entry": body.spath, "at": body.where, "paths": len(ps), "states": I.nstates, "functions_entered": len(I.visited_fns)})
        if not ps:
            raise Broken("no path of `%s` was explored" % body.spath)
        return ps

    def params(self, body):
        return tuple(mk("param", body.locals[i + 1][1] if len(body.locals[i + 1]) > 1 and body.locals[i + 1][1] else "arg%d" % i) for i in range(body.argc))

    # ---------------------------------------------------------------- verdicts

    def ob(self, rule, where, ok, msg="", loc="", key=None):
        """An obligation: `rule` must hold at `where`."""
        self.obligations.append({"rule": rule, "at": where, "ok": bool(ok)})
        if not ok:
            k = key or "%s|%s" % (rule, where)
            if not any(v[0] == k for v in self.violations):
                self.violations.append((k, loc or where, msg or rule))
        return ok

    def forall(self, rule, body, paths, pred, select=None, floor=1):
        """`pred(path)` returns None / True, or a message (or (message, location))."""
        n = 0
        where = body if isinstance(body, str) else body.spath
        bad = None
        for p in paths:
            if select is not None and not select(p):
                continue
            n += 1
            r = pred(p)
            if r is not None and r is not True:
                if isinstance(r, tuple):
                    msg, loc = r
                else:
                    msg, loc = (r or rule), p.loc()
                if bad is None:
                    bad = (msg, loc, p)
        if n < floor:
            return self.ob(rule, where, False, "%s: only %d of the expected %d paths exist (%s)" % (rule, n, floor, where), body.where if not isinstance(body, str) else "")
        if bad:
            msg, loc, p = bad
            trace = " -> ".join("%s@%s" % (e.label, e.loc.rsplit("/", 1)[-1]) for e in p.ev[-8:])
            msg = "%s [path: %s => %s %s]" % (msg, trace or "(no event)", p.kind, show(p.val, 2) if p.val is not None else "")
            self.obligations.append({"rule": rule, "at": where, "ok": False, "paths": n})
            k = "%s|%s" % (rule, where)
            self.violations.append((k, loc if loc != "?" else (body.where if not isinstance(body, str) else ""), msg))
            return False
        self.obligations.append({"rule": rule, "at": where, "ok": True, "paths": n})
        return True


# -------------------------------------------------------------------- questions about terms


def head(t):
    """The path of the call a term is the result of, or None."""
    return t.a[2] if t.tag == "ret" else (t.a[0] if t.tag == "pure" else None)


def is_res(t, v):
    return t.tag == "agg" and t.a[0] == "adt:" + RES and t.a[2] == v


def result_kind(p, t=None):
    """'Ok' / 'Err' / None for a path's result."""
    t = p.val if t is None else t
    return p.variant(t)


def strip_proj(t):
    """The root of a projection chain, and the field names walked (outermost last)."""
    names = []
    while t.tag in ("f", "vf"):
        names.append(t.a[-1])
        t = t.a[0]
    return t, tuple(reversed(names))


def ends_with_fields(t, *names):
    _, n = strip_proj(t)
    return n[-len(names):] == names


def any_sub(t, pred):
    return any(pred(s) for s in subterms(t))
