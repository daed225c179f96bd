"""A path-sensitive abstract interpreter over the MIR facts.

The domain is a finite set of terms: constants, aggregates, references to places, and opaque
terms that name *where* a value came from (a parameter, a field of one, the result of a call
site). No values are computed for opaque terms and no constraints are solved: a branch on an
opaque term is taken both ways, and the only thing that is remembered is the way it was taken
(a variant, a constant, or a comparison's truth), until the term is dead. Loops are run to a
fixpoint: at every join point of the control flow graph the (pruned) state is compared with
the ones seen there before. Terms that stem from an earlier execution of a call site are
renamed to the one "stale" generation of that site, which makes the domain finite.

Calls of functions of the analysed crates are followed (closures, trait methods with a known
receiver, and the bodies of `async` blocks at the `await`); everything else is an opaque call,
or has a model here (the combinators of `Option`, `Result`, futures and streams, the `select!`
and `try_join!` macros, smart pointers).

A rule observes the events of a path: opaque calls, awaits, drops, stores through opaque
references, branches. Its monitor is part of the state.
"""
import re
import sys
import threading
import time

from facts import strip_generics

sys.setrecursionlimit(200000)
START = time.monotonic()
BUDGET = 480  # seconds after which what is not decided yet cannot be
threading.stack_size(512 * 1024 * 1024)


class Limit(Exception):
    pass


# --------------------------------------------------------------------------------------- terms

_interned = {}


class N:
    __slots__ = ("tag", "a", "deps", "id", "h")

    def __repr__(self):
        return show(self)


EMPTY = frozenset()


def mk(tag, *a):
    k = (tag, a)
    n = _interned.get(k)
    if n is None:
        n = N()
        n.tag = tag
        n.a = a
        n.id = len(_interned)
        deps = EMPTY
        h = 0
        if tag == "ret":
            deps = frozenset((a[0],)) if a[1] == 0 else EMPTY
        for x in a:
            if isinstance(x, N):
                if x.deps:
                    deps = deps | x.deps
                if x.h >= h:
                    h = x.h + 1
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, N) and y.h >= h:
                        h = y.h + 1
                d = deps_of(x)
                if d:
                    deps = deps | d
        n.deps = deps
        n.h = h
        _interned[k] = n
    return n


def deps_of(x):
    if isinstance(x, N):
        return x.deps
    if isinstance(x, (tuple, frozenset)):
        d = EMPTY
        for y in x:
            if isinstance(y, (N, tuple, frozenset)):
                e = deps_of(y)
                if e:
                    d = d | e
        return d
    return EMPTY


def intn(v):
    return mk("int", v)


def strn(v):
    return mk("str", v)


UNIT = mk("agg", "tuple", 0, "", ())
TRUE = intn(1)
FALSE = intn(0)
MOVED = mk("moved")
UNINIT = mk("uninit")
CTX = mk("param", "$context")
WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128, "bool": 1, "char": 32}

OPT = "core::option::Option"
RES = "core::result::Result"
POLL = "core::task::poll::Poll"
CF = "core::ops::control_flow::ControlFlow"
VIDX = {
    (OPT, "None"): 0, (OPT, "Some"): 1, (RES, "Ok"): 0, (RES, "Err"): 1,
    (POLL, "Ready"): 0, (POLL, "Pending"): 1, (CF, "Continue"): 0, (CF, "Break"): 1,
}


def adt(path, vname, *fields, vidx=None):
    if vidx is None:
        vidx = VIDX[(path, vname)]
    return mk("agg", "adt:" + path, vidx, vname, tuple(fields))


def some(x):
    return adt(OPT, "Some", x)


NONE = adt(OPT, "None")


def ok(x):
    return adt(RES, "Ok", x)


def err(x):
    return adt(RES, "Err", x)


def ready(x):
    return adt(POLL, "Ready", x)


PENDING = adt(POLL, "Pending")


def lazy(kind, *a):
    return mk("agg", "lazy:" + kind, 0, "", tuple(a))


def is_agg(n, kind=None):
    return n.tag == "agg" and (kind is None or n.a[0] == kind)


def is_lazy(n):
    return n.tag == "agg" and n.a[0].startswith("lazy:")


def fields(n):
    return n.a[3]


def opaque(n):
    return n.tag in ("param", "f", "vf", "ret", "out", "item", "pure", "bin", "not", "top", "discr", "str", "wide")


def show(n, d=5):
    if not isinstance(n, N):
        if isinstance(n, tuple):
            return "(" + ", ".join(show(x, d) for x in n) + ")"
        return str(n)
    if d < 0:
        return ".."
    t, a = n.tag, n.a
    if t in ("int",):
        return str(a[0])
    if t == "str":
        return repr(a[0])
    if t == "param":
        return a[0]
    if t == "f":
        return "%s.%s" % (show(a[0], d), a[1])
    if t == "vf":
        return "(%s as %s).%s" % (show(a[0], d), a[1], a[2])
    if t == "ret":
        return "%s%s(%s)" % ("stale " if a[1] else "", short(a[2]), ", ".join(show(x, d - 1) for x in a[3]))
    if t == "pure":
        return "%s(%s)" % (short(a[0]), ", ".join(show(x, d - 1) for x in a[1]))
    if t == "out":
        return "out(%s)" % show(a[0], d)
    if t == "agg":
        k = a[0]
        k = short(k[4:]) + "::" + a[2] if k.startswith("adt:") else k
        return "%s{%s}" % (k, ", ".join(show(x, d - 1) for x in a[3]))
    if t == "ref":
        return "&%s%s" % (a[0], "".join("." + str(e[2] if len(e) > 2 and e[2] is not None else e[1]) for e in a[1]))
    return "%s(%s)" % (t, ", ".join(show(x, d - 1) for x in a))


def short(p):
    s = p.split("::")
    return "::".join(s[-2:])


def subterms(n, seen=None):
    """All the subterms of a term."""
    if seen is None:
        seen = set()
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, N):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.a)
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)
    return seen


def contains(n, sub):
    return sub in subterms(n)


def subst(n, f, memo):
    """Rebuild a term bottom-up, with `f` deciding the replacement of `ret` nodes."""
    if isinstance(n, N):
        if not n.deps:
            return n
        r = memo.get(n)
        if r is None:
            r = f(n)
            if r is None:
                a = tuple(subst(x, f, memo) for x in n.a)
                r = n if a == n.a else mk(n.tag, *a)
            memo[n] = r
        return r
    if isinstance(n, tuple):
        return tuple(subst(x, f, memo) for x in n)
    if isinstance(n, frozenset):
        return frozenset(subst(x, f, memo) for x in n)
    return n


# --------------------------------------------------------------------------------------- state


class St:
    __slots__ = ("mem", "facts", "mon")

    def __init__(self, mem=None, facts=None, mon=()):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
        self.mon = mon

    def copy(self):
        return St(dict(self.mem), dict(self.facts), self.mon)

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()), self.mon)


WIDEN = 6  # how many numbers of a local are told apart where paths meet


class Ev:
    """An event: `kind` is one of call, await, poll, drop, store, enter, spawn, branch, item."""

    __slots__ = ("kind", "path", "args", "ret", "loc", "fn", "st", "x", "ctx")

    def __init__(self, kind, path, args, ret, loc, fn, st, x=None):
        self.kind, self.path, self.args, self.ret, self.loc, self.fn, self.st, self.x = kind, path, args, ret, loc, fn, st, x
        self.ctx = None

    def __repr__(self):
        return "%s %s(%s) @%s" % (self.kind, self.path, ", ".join(show(a, 4) for a in self.args), self.loc)


class Out:
    __slots__ = ("kind", "val", "st")

    def __init__(self, kind, val, st):
        self.kind, self.val, self.st = kind, val, st


NOISE_MACROS = ("tracing::macros::", "tracing_core::", "log::macros::")
NOISE_PATHS = (
    "tracing::", "tracing_core::", "log::", "core::fmt::", "core::panicking::", "std::rt::",
)


# what is another value once it is changed in place
DATA = re.compile(r"(alloc::string::String|str|bytes::bytes(_mut)?::Bytes(Mut)?|alloc::vec::Vec<u8>|\[u8\]|core::time::Duration|core::num::nonzero::NonZero<.*>|core::ops::range::Range\w*<.*>)\Z")


class Interp:
    def __init__(self, prog, rule=None, max_depth=60, max_states=40000, cancel=False):
        self.p = prog
        self.rule = rule
        self.max_depth = max_depth
        self.max_states = max_states
        self.cancel = cancel
        self.sites = {}
        self.site_info = []
        self.ctxs = {}
        self.nstates = 0
        self.visited_fns = set()
        self.ncalls = 0
        self.nawaits = 0
        self.nbranches = 0
        self.enums = {}  # of a value of an enum that was looked at, the variants there are
        self.spawned = []
        self.pre = (None, None, None, None)
        self.count, self.offset = 64, 4  # how far numbers and offsets of unknown numbers are followed
        self.exact = False  # whether counters are followed that far in loops
        self.fnmap = {}
        self._preds = {}
        self._live = {}
        self._localdrop = {}
        import models

        self.models = models
        self.mtab = models.TABLE

    # ------------------------------------------------------------------ bookkeeping

    def site(self, ctx, body, bb, extra=None):
        k = (ctx, body.id, bb, extra)
        s = self.sites.get(k)
        if s is None:
            s = self.sites[k] = len(self.site_info)
            self.site_info.append(k)
        return s

    def ctx(self, parent, body, bb, callee):
        k = (parent, body.id, bb, callee)
        c = self.ctxs.get(k)
        if c is None:
            depth = 0
            rec = {}
            if parent is not None:
                depth = parent[1] + 1
                rec = dict(parent[2])
            rec[callee] = rec.get(callee, 0) + 1
            c = self.ctxs[k] = (len(self.ctxs), depth, tuple(sorted(rec.items())))
        return c

    def preds(self, body):
        r = self._preds.get(body.id)
        if r is None:
            cnt = [0] * len(body.blocks)
            for b in body.blocks:
                if b["cl"]:
                    continue
                t = b["t"]
                for x in self.succs(t):
                    cnt[x] += 1
            r = self._preds[body.id] = cnt
        return r

    def succs(self, t):
        k = t["k"]
        if k == "switch":
            return [x[1] for x in t["v"]] + [t["else"]]
        if "to" in t:
            return [t["to"]]
        return []

    def live(self, body):
        """Locals live at the entry of each block (locals whose address is taken: always, until
        their StorageDead)."""
        r = self._live.get(body.id)
        if r is not None:
            return r
        nb = len(body.blocks)
        use = [set() for _ in range(nb)]
        dfn = [set() for _ in range(nb)]
        taken = set()

        def pl(p, u, d, write=False):
            for e in p.get("p", ()):
                if e[0] == "i":
                    if e[1] not in d:
                        u.add(e[1])
            if write and not p.get("p"):
                return
            if p["l"] not in d:
                u.add(p["l"])

        def op(o, u, d):
            if "c" in o:
                pl(o["c"], u, d)
            elif "m" in o:
                pl(o["m"], u, d)

        for i, b in enumerate(body.blocks):
            if b["cl"]:
                continue
            u, d = use[i], dfn[i]
            for s in b["s"]:
                if "dead" in s:
                    d.add(s["dead"])
                elif "live" in s:
                    d.add(s["live"])
                elif "sd" in s:
                    pl(s["sd"], u, d)
                else:
                    v = s["v"]
                    r_ = v["r"]
                    if r_ in ("ref", "reborrow"):
                        pl(v["p"], u, d)
                        if not any(e[0] == "d" and not (len(e) > 1 and e[1] == "box") for e in v["p"].get("p", ())):
                            taken.add(v["p"]["l"])
                    elif r_ == "discr":
                        pl(v["p"], u, d)
                    elif r_ == "agg":
                        for o in v["f"]:
                            op(o, u, d)
                    elif r_ == "bin":
                        op(v["a"], u, d)
                        op(v["b"], u, d)
                    elif r_ == "un":
                        op(v["a"], u, d)
                    elif "o" in v:
                        op(v["o"], u, d)
                    pl(s["p"], u, d, True)
                    if not s["p"].get("p"):
                        d.add(s["p"]["l"])
            t = b["t"]
            if t["k"] == "call":
                op(t["f"], u, d)
                for o in t["a"]:
                    op(o, u, d)
                pl(t["d"], u, d, True)
                if not t["d"].get("p"):
                    d.add(t["d"]["l"])
            elif t["k"] == "drop":
                pl(t["p"], u, d)
            elif t["k"] in ("switch", "assert", "yield"):
                op(t["o"], u, d)
                if t["k"] == "yield":
                    d.add(t["ra"]["l"])
            elif t["k"] == "return":
                u.add(0)
        livein = [set(x) for x in use]
        changed = True
        while changed:
            changed = False
            for i in range(nb - 1, -1, -1):
                b = body.blocks[i]
                if b["cl"]:
                    continue
                o = set()
                for s in self.succs(b["t"]):
                    o |= livein[s]
                n = use[i] | (o - dfn[i])
                if n != livein[i]:
                    livein[i] = n
                    changed = True
        r = ([frozenset(x) for x in livein], frozenset(taken))
        self._live[body.id] = r
        return r

    # ------------------------------------------------------------------ memory

    def read(self, st, root, path):
        if root[0] == "O":
            n = root[1]
            return self.walk(st, n, path)
        v = st.mem.get(root, UNINIT)
        return self.walk(st, v, path)

    def walk(self, st, v, path):
        vname = None
        base = v
        for i, e in enumerate(path):
            t = v.tag
            if t == "ref":
                # a projection through a transparent pointer
                v = self.read(st, v.a[0], v.a[1])
                t = v.tag
            if e[0] == "v":
                vname = e[2]
                if t == "agg":
                    if v.a[1] != e[1]:
                        return mk("bottom")
                    vname = None
                continue
            if t == "agg":
                if e[0] == "f":
                    if v.a[0] == "arc" and e[2] != "$arc":
                        v = v.a[3][0]
                        t = v.tag
                        if t != "agg":
                            v = self.ofield(st, v, vname, e)
                            vname = None
                            continue
                    fs = v.a[3]
                    if e[1] < len(fs):
                        v = fs[e[1]]
                        vname = None
                        continue
                    if v.a[0].startswith("lazy:"):
                        v = mk("f", v, e[2] if e[2] is not None else e[1])
                        continue
                    return mk("bottom")
                if v.a[0] == "array":
                    return mk("item", v)
                v = mk("item", v, *e[1:])
                continue
            if t in ("moved", "uninit", "bottom"):
                return v
            if e[0] == "f":
                v = self.ofield(st, v, vname, e)
                vname = None
            else:
                v = mk("item", v, *e[1:])
        return v

    def ofield(self, st, v, vname, e):
        """The field `e` of the opaque `v`."""
        if e[2] in ("$arc", "pointer", "__pointer"):
            return v
        k = ("O", v, vname, e[1])
        o = st.mem.get(k)
        if o is not None:
            return o
        name = e[2] if e[2] is not None else e[1]
        if vname is not None:
            return mk("vf", v, vname, name)
        return mk("f", v, name)

    def write(self, st, root, path, val):
        if root[0] == "O":
            self.owrite(st, root[1], path, val)
            return
        old = st.mem.get(root, UNINIT)
        st.mem[root] = self.upd(st, old, path, val)

    def owrite(self, st, n, path, val):
        if not path:
            st.mem[("O*", n)] = val
            return
        vname = None
        for i, e in enumerate(path):
            if e[0] == "v":
                vname = e[2]
                continue
            if e[0] != "f":
                return
            k = ("O", n, vname, e[1])
            rest = path[i + 1:]
            if not rest:
                st.mem[k] = val
                return
            cur = st.mem.get(k)
            if cur is None:
                n = self.ofield(st, n, vname, e)
                vname = None
                if n.tag == "ref":
                    self.write(st, n.a[0], n.a[1] + rest, val)
                    return
                continue
            st.mem[k] = self.upd(st, cur, rest, val)
            return

    def upd(self, st, old, path, val):
        if not path:
            return val
        e = path[0]
        if old.tag == "ref":
            self.write(st, old.a[0], old.a[1] + path, val)
            return old
        if e[0] == "v":
            return self.upd(st, old, path[1:], val)
        if old.tag == "agg" and e[0] == "f":
            fs = list(old.a[3])
            while len(fs) <= e[1]:
                fs.append(UNINIT)
            fs[e[1]] = self.upd(st, fs[e[1]], path[1:], val)
            return mk("agg", old.a[0], old.a[1], old.a[2], tuple(fs))
        if old.tag in ("uninit", "moved", "bottom"):
            # field-wise initialisation
            if e[0] == "f":
                fs = [old] * (e[1] + 1)
                fs[e[1]] = self.upd(st, old, path[1:], val)
                return mk("agg", "tuple", 0, "", tuple(fs))
            return val
        if val is MOVED:
            if e[0] == "f":
                # partially moved: remember it as an override
                self.owrite(st, old, path, val)
            return old
        if e[0] in ("i", "ci", "sub"):
            return old
        self.owrite(st, old, path, val)
        return old

    def place(self, st, fr, p):
        """-> (root, path)"""
        root = ("L", fr, p["l"])
        path = ()
        for e in p.get("p", ()):
            k = e[0]
            if k == "d":
                if len(e) > 1 and e[1] == "box":
                    continue
                v = self.read(st, root, path)
                root, path = self.target(st, v)
            elif k == "f":
                path = path + (("f", e[1], e[2]),)
            elif k == "v":
                path = path + (("v", e[1], e[2]),)
            elif k == "i":
                path = path + (("i", self.resolve(st, self.read(st, ("L", fr, e[1]), ()))),)
            elif k in ("ci", "sub"):
                path = path + (("i",),)
        return root, path

    def target(self, st, v):
        """The place a pointer value points at."""
        if v.tag == "ref":
            return v.a[0], v.a[1]
        o = st.mem.get(("O*", v))
        if o is not None:
            # `*opaque` was overwritten as a whole
            return ("O*", v), ()
        return ("O", v), ()

    def mkref(self, st, root, path):
        if root[0] == "O":
            if not path:
                return root[1]
            # a reference into an opaque value that was not overwritten is that opaque field
            v = self.walk(st, root[1], path)
            if opaque(v) or v.tag == "ref" and False:
                return v
        return mk("ref", root, path)

    def resolve(self, st, v, d=6):
        """Replace the references in a term by what they refer to."""
        if d < 0 or not isinstance(v, N):
            return v
        if v.tag == "ref":
            return self.resolve(st, self.read(st, v.a[0], v.a[1]), d - 1)
        if v.tag == "agg":
            fs = v.a[3]
            if not fs:
                return v
            n = tuple(self.resolve(st, x, d - 1) for x in fs)
            return v if n == fs else mk("agg", v.a[0], v.a[1], v.a[2], n)
        o = st.mem.get(("O*", v)) if opaque(v) else None
        if o is not None and o is not v:
            return self.resolve(st, o, d - 1)
        return v

    # ------------------------------------------------------------------ facts

    def fact(self, st, n):
        return st.facts.get(n)

    def variant_of(self, st, n):
        """The variant name of an enum value, if known."""
        if n.tag == "agg":
            return n.a[2]
        f = st.facts.get(n)
        if f and f[0] == "v":
            return f[1]
        return None

    def assume_variant(self, st, n, vname):
        f = st.facts.get(n)
        if f:
            if f[0] == "v":
                return f[1] == vname
            if f[0] == "nv" and vname in f[1]:
                return False
        st.facts[n] = ("v", vname)
        if self.rule:
            self.rule.branch(self, st, n, ("v", vname))
        return True

    def canon(self, c):
        """Canonical boolean: (node, negated)."""
        neg = False
        while c.tag == "not":
            c = c.a[0]
            neg = not neg
        return c, neg

    def truth(self, st, c):
        """True / False / None"""
        c, neg = self.canon(c)
        r = None
        if c.tag == "int":
            r = c.a[0] != 0
        else:
            f = st.facts.get(c)
            if f is not None and f[0] == "i":
                r = f[1] != 0
            elif c.tag == "bin" and c.a[0] == "Eq":
                r = self.eq_known(st, c.a[1], c.a[2])
            elif c.tag == "isv":
                v = self.variant_of(st, c.a[0])
                if v is not None:
                    r = v == c.a[1]
                else:
                    f = st.facts.get(c.a[0])
                    if f and f[0] == "nv" and c.a[1] in f[1]:
                        r = False
        if r is None:
            return None
        return r != neg

    def eq_known(self, st, a, b):
        if a is b:
            return True
        if a.tag in ("int", "str") and b.tag in ("int", "str"):
            return False
        for x, y in ((a, b), (b, a)):
            if y.tag == "int":
                f = st.facts.get(x)
                if f:
                    if f[0] == "i":
                        return f[1] == y.a[0]
                    if f[0] == "ni" and y.a[0] in f[1]:
                        return False
        return None

    def assume(self, st, c, val):
        """Assume the truth of a boolean; False if it contradicts what is known."""
        t = self.truth(st, c)
        if t is not None:
            return t == val
        c, neg = self.canon(c)
        v = val != neg
        if c.tag == "isv":
            if v:
                return self.assume_variant(st, c.a[0], c.a[1])
            return self.exclude_variant(st, c.a[0], c.a[1])
        st.facts[c] = ("i", 1 if v else 0)
        if self.rule:
            self.rule.branch(self, st, c, ("b", v))
        if c.tag == "bin" and c.a[0] == "Eq":
            a, b = c.a[1], c.a[2]
            for x, y in ((a, b), (b, a)):
                if y.tag == "int" and opaque(x):
                    return self.assume_int(st, x, y.a[0], v)
        return True

    def assume_int(self, st, x, k, eq):
        f = st.facts.get(x)
        if eq:
            if f:
                if f[0] == "i":
                    return f[1] == k
                if f[0] == "ni" and k in f[1]:
                    return False
            st.facts[x] = ("i", k)
            if self.rule:
                self.rule.branch(self, st, x, ("i", k))
        else:
            if f and f[0] == "i":
                return f[1] != k
            ex = f[1] if f and f[0] == "ni" else EMPTY
            if len(ex) < 6:
                st.facts[x] = ("ni", ex | {k})
            if self.rule:
                self.rule.branch(self, st, x, ("ni", k))
        return True

    VARIANTS = {OPT: ("None", "Some"), RES: ("Ok", "Err"), POLL: ("Ready", "Pending"), CF: ("Continue", "Break")}

    def exclude_variant(self, st, n, vname):
        f = st.facts.get(n)
        if f and f[0] == "v":
            return f[1] != vname
        ex = (f[1] if f and f[0] == "nv" else EMPTY) | {vname}
        for vs in (self.enums[n],) if n in self.enums else self.VARIANTS.values():
            left = [x for x in vs if x not in ex]
            if vname in vs and len(left) == 1:
                return self.assume_variant(st, n, left[0])
        st.facts[n] = ("nv", ex)
        return True

    def cases(self, st, n, ty):
        """Fork on the variants of an Option/Result/Poll: [(name, payload, state)]"""
        n = self.deref_all(st, n) if n.tag == "ref" else n
        vs = self.VARIANTS[ty]
        if n.tag == "agg":
            return [(n.a[2], n.a[3][0] if n.a[3] else None, st)]
        if n.tag in ("moved", "uninit", "bottom"):
            return []
        out = []
        for i, v in enumerate(vs):
            s = st.copy()
            if self.assume_variant(s, n, v):
                p = self.ofield(s, n, v, ("f", 0, None)) if v not in ("None", "Pending") else None
                if p is not None and p.tag == "vf" and p.a[2] == 0:
                    p = mk("vf", n, v, "0")
                out.append((v, p, s))
        return out

    def deref_all(self, st, v):
        for _ in range(10):
            if v.tag == "ref":
                v = self.read(st, v.a[0], v.a[1])
            else:
                o = st.mem.get(("O*", v)) if opaque(v) else None
                if o is None or o is v:
                    return v
                v = o
        return v

    # ------------------------------------------------------------------ events

    def emit(self, kind, path, args, ret, st, fr, body, bb, x=None, ctx=None):
        """Returns False when the rule prunes the path."""
        if self.rule is None:
            return True
        t = body.blocks[bb]["t"]
        ev = Ev(kind, path, args, ret, body.loc(t.get("fs", t["s"])), body, st, x)
        ev.ctx = ctx
        return self.rule.event(self, ev) is not False

    # ------------------------------------------------------------------ constants and operands

    def const(self, k, body):
        if "fn" in k:
            fn = k["fn"]
            n = mk("fn", fn["id"], (fn.get("r") or fn)["id"], strip_generics(fn["path"]), tuple(body.ty(a)["s"] for a in fn["a"]))
            self.fnmap[n] = (fn, body)
            return n
        t = body.ty(k["t"])
        if "i" in k:
            v = int(k["i"])
            if t.get("k") == "adt":
                d = self.p.adts.get(t["id"])
                if d and d["enum"]:
                    for i, va in enumerate(d["v"]):
                        if int(va["x"]) == v:
                            return mk("agg", "adt:" + strip_generics(t["d"]), i, va["n"], ())
            return intn(v)
        if "str" in k:
            return strn(k["str"])
        if "static" in k:
            return mk("pure", "static " + k["static"], ())
        if "z" in k:
            if t["k"] == "tuple":
                return UNIT
            if t["k"] == "closure":
                return mk("agg", "closure:" + t["id"], 0, "", ())
            if t["k"] == "adt":
                return mk("agg", "adt:" + strip_generics(t["d"]), 0, short(t["d"]).split("::")[-1], ())
            return mk("pure", "zst " + t["s"], ())
        if "fnptr" in k:
            return mk("fnptr", k["fnptr"])
        if "def" in k:
            d = strip_generics(k["def"])
            if "dtrait" in k and "dself" in k:
                d += " of " + body.ty(k["dself"])["s"]
            return mk("pure", "const " + d, ())
        if "pc" in k:
            return mk("pure", "const " + str(k["pc"]), ())
        return mk("pure", "const " + str(k.get("o")), ())

    def operand(self, st, fr, body, o):
        if "k" in o:
            return self.const(o["k"], body)
        if "c" in o:
            r, p = self.place(st, fr, o["c"])
            return self.rd(st, r, p)
        if "m" in o:
            r, p = self.place(st, fr, o["m"])
            v = self.rd(st, r, p)
            if r[0] == "L" and v.tag not in ("int", "str", "ref", "fn"):
                self.write(st, r, p, MOVED)
            return v
        return mk("top", "operand")

    def rd(self, st, r, p):
        v = self.read(st, r, p)
        if r[0] == "O" and not p:
            o = st.mem.get(("O*", r[1]))
            if o is not None:
                return o
        return v

    def binop(self, st, op, a, b):
        ovf = op.endswith("WithOverflow")
        if ovf:
            op = op[: -len("WithOverflow")]
        for sfx in ("Unchecked",):
            if op.endswith(sfx):
                op = op[: -len(sfx)]
        r = self.binop0(st, op, a, b)
        if ovf:
            return mk("agg", "tuple", 0, "", (r, FALSE))
        return r

    def binop0(self, st, op, a, b):
        a = self.known_int(st, a)
        b = self.known_int(st, b)
        if a.tag == "int" and b.tag == "int":
            x, y = a.a[0], b.a[0]
            try:
                r = {
                    "Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y,
                    "Eq": lambda: x == y, "Ne": lambda: x != y, "Lt": lambda: x < y,
                    "Le": lambda: x <= y, "Gt": lambda: x > y, "Ge": lambda: x >= y,
                    "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                    "Rem": lambda: x % y, "Div": lambda: x // y,
                    "Shl": lambda: x << y, "Shr": lambda: x >> y,
                }[op]()
            except Exception:
                return mk("bin", op, a, b)
            r = int(r)
            if abs(r) > self.count and op in ("Add", "Mul", "Sub"):
                return mk("wide", op)
            return intn(r)
        if a.tag == "agg" and b.tag == "agg" and op in ("Eq", "Ne") and not a.a[3] and not b.a[3]:
            return intn(int((a.a[1] == b.a[1]) == (op == "Eq")))
        if op == "Ne":
            return self.neg(self.binop0(st, "Eq", a, b))
        if op == "Ge":
            return self.neg(self.binop0(st, "Lt", a, b))
        if op == "Gt":
            return self.binop0(st, "Lt", b, a)
        if op == "Le":
            return self.neg(self.binop0(st, "Lt", b, a))
        if op == "Eq":
            if a is b and not stale(a):
                return TRUE
            for x, y in ((a, b), (b, a)):
                # a boolean compared with a constant
                if y.tag == "int" and y.a[0] in (0, 1) and (x.tag in ("not", "isv") or x.tag == "bin" and x.a[0] in ("Eq", "Lt")):
                    return x if y.a[0] == 1 else self.neg(x)
                if y.tag == "int" and x.tag == "bin" and x.a[0] == "Add" and x.a[2].tag == "int":
                    return self.binop0(st, "Eq", x.a[1], intn(y.a[0] - x.a[2].a[0]))
            if a.id > b.id:
                a, b = b, a
            return mk("bin", "Eq", a, b)
        if op == "Lt":
            if b.tag == "int" and b.a[0] == 1:
                return self.binop0(st, "Eq", a, FALSE)  # unsigned
            if a.tag == "int" and a.a[0] == 0:
                return self.neg(self.binop0(st, "Eq", b, FALSE))
            return mk("bin", "Lt", a, b)
        if op == "Sub" and b.tag == "int":
            return self.binop0(st, "Add", a, intn(-b.a[0]))
        if op == "Add":
            if a.tag == "int" and b.tag != "int":
                a, b = b, a
            if b.tag == "int":
                if b.a[0] == 0:
                    return a
                if a.tag == "bin" and a.a[0] == "Add" and a.a[2].tag == "int":
                    c = a.a[2].a[0] + b.a[0]
                    if abs(c) > self.offset:
                        return mk("wide", "Add")
                    return a.a[1] if c == 0 else mk("bin", "Add", a.a[1], intn(c))
                if a.tag == "wide":
                    return a
        if op in ("BitAnd", "BitOr"):
            for x, y in ((a, b), (b, a)):
                if y is FALSE:
                    return FALSE if op == "BitAnd" else x
                if y is TRUE and (x.tag in ("not", "isv") or x.tag == "bin" and x.a[0] in ("Eq", "Lt")):
                    return x if op == "BitAnd" else TRUE
        n = mk("bin", op, a, b)
        return capped(n, op)

    def known_int(self, st, a):
        f = st.facts.get(a)
        if f and f[0] == "i" and opaque(a):
            return intn(f[1])
        return a

    def neg(self, a):
        if a.tag == "int":
            return intn(1 - (1 if a.a[0] else 0))
        if a.tag == "not":
            return a.a[0]
        return mk("not", a)

    def num_cast(self, x, a, b):
        """A conversion between numbers: it shows only where it can change the value."""
        wa, wb = WIDTH.get(a), WIDTH.get(b)
        if wa and wb:
            if wb >= wa:
                return x
            if x.tag == "int":
                k = x.a[0] & ((1 << wb) - 1)
                return intn(k - (1 << wb) if b[0] == "i" and k >> (wb - 1) else k)
        elif a == b:
            return x
        return mk("pure", "as " + str(b), (x,))

    def rvalue(self, st, fr, body, v, bb):
        r = v["r"]
        if r == "use":
            return self.operand(st, fr, body, v["o"])
        if r in ("ref", "reborrow"):
            if v.get("fake"):
                return UNIT
            root, path = self.place(st, fr, v["p"])
            if v.get("mut") and path and root[0] == "O":
                return mk("ref", root, path)
            return self.mkref(st, root, path)
        if r == "cast":
            x = self.operand(st, fr, body, v["o"])
            if v["k"] in ("IntToInt", "FloatToInt", "IntToFloat", "FloatToFloat"):
                return self.num_cast(x, body.ty(v["from"]).get("s"), body.ty(v["to"]).get("s"))
            return x
        if r == "bin":
            a = self.operand(st, fr, body, v["a"])
            b = self.operand(st, fr, body, v["b"])
            return self.binop(st, v["op"], a, b)
        if r == "un":
            a = self.operand(st, fr, body, v["a"])
            if v["op"] == "Not":
                return self.neg(a)
            if v["op"] == "PtrMetadata":
                return mk("pure", "len", (self.resolve(st, a),))
            return mk("pure", v["op"], (a,))
        if r == "discr":
            root, path = self.place(st, fr, v["p"])
            x = self.rd(st, root, path)
            x = self.deref_all(st, x) if x.tag == "ref" else x
            ty = body.ty(v["t"])
            d = self.p.adts.get(ty.get("id")) or {}
            if x.tag == "agg" and x.a[0].startswith("adt:"):
                vs = d.get("v") or []
                if x.a[1] < len(vs):
                    return intn(int(vs[x.a[1]]["x"]))
                return intn(x.a[1])
            if x.tag in ("moved", "uninit", "bottom"):
                return mk("bottom")
            if d.get("v"):
                self.enums[x] = tuple(z["n"] for z in d["v"])
            return mk("discr", x, tuple((int(z["x"]), z["n"]) for z in d.get("v") or ()))
        if r == "agg":
            fs = tuple(self.operand(st, fr, body, o) for o in v["f"])
            k = v["k"]
            if k == "adt":
                p = strip_generics(v["d"])
                if p in TRANSPARENT:
                    return fs[0]
                return mk("agg", "adt:" + p, v["v"], v["vn"], fs)
            if k in ("closure", "coroutine", "coroclosure"):
                return mk("agg", k + ":" + v["id"], 0, "", fs)
            if k == "rawptr":
                return fs[0]
            return mk("agg", k, 0, "", fs)
        if r == "repeat":
            return mk("agg", "array", 0, "", (self.operand(st, fr, body, v["o"]),))
        if r == "tls":
            return mk("pure", "tls " + v["d"], ())
        return mk("top", r)

    # ------------------------------------------------------------------ staleness

    def retire(self, st, site):
        """A call site is executed again: rename what its last execution produced."""
        hit = False
        for k, v in st.mem.items():
            if site in v.deps or (k[0] in ("O", "O*") and site in k[1].deps):
                hit = True
                break
        if not hit and site not in deps_of(st.mon):
            if any(site in n.deps for n in st.facts):
                st.facts = {n: f for n, f in st.facts.items() if site not in n.deps}
            return

        def f(n):
            if n.tag == "ret" and n.a[0] == site and n.a[1] == 0:
                return mk("ret", n.a[0], 1, n.a[2], ())
            return None

        memo = {}
        mem = {}
        for k, v in st.mem.items():
            if k[0] in ("O", "O*"):
                if site in k[1].deps:
                    continue
            mem[k] = subst(v, f, memo) if site in v.deps else v
        st.mem = mem
        st.facts = {n: x for n, x in st.facts.items() if site not in n.deps}
        if site in deps_of(st.mon):
            st.mon = subst(st.mon, f, memo)

    def ret(self, st, site, path, args):
        self.pre = (st, st.mem, st.facts, st.mon)  # as it was before the last execution's terms are retired
        self.retire(st, site)
        # `retire` may have renamed the arguments' terms as well
        def f(n):
            if n.tag == "ret" and n.a[0] == site and n.a[1] == 0:
                return mk("ret", n.a[0], 1, n.a[2], ())
            return None

        args = tuple(subst(a, f, {}) if site in a.deps else a for a in args)
        return mk("ret", site, 0, path, args)

    # ------------------------------------------------------------------ execution

    def prune(self, st, fr, body, bb):
        live, taken = self.live(body)
        l = live[bb]
        mem = st.mem
        dead = [k for k in mem if k[0] == "L" and k[1] == fr and k[2] not in l and (k[2] not in taken) and k[2] != 0]
        for k in dead:
            del mem[k]
        deps = set()
        for k, v in mem.items():
            if v.deps:
                deps |= v.deps
        deps |= deps_of(st.mon)
        bad = [k for k in mem if k[0] in ("O", "O*") and not k[1].deps <= deps]
        for k in bad:
            del mem[k]
        fb = [n for n in st.facts if not n.deps <= deps]
        for n in fb:
            del st.facts[n]

    def widen(self, st, fr, bb, ints):
        """A local that has held many numbers where paths meet is a counter: it may hold any number."""
        if self.exact:
            return
        for k, v in st.mem.items():
            if v.tag == "int" and k[0] == "L" and k[1] == fr:
                s = ints.setdefault((bb, k), set())
                s.add(v)
                if len(s) > WIDEN:
                    st.mem[k] = mk("wide", "count")

    def call_body(self, body, args, st, pctx, pbody, pbb, kinds=("ret",)):
        """Run a function to completion; the outcomes."""
        c = self.ctx(pctx, pbody, pbb, body.id) if pbody is not None else self.ctx(None, body, -1, body.id)
        return self.run(body, args, st, c)

    def run(self, body, args, st, c):
        self.visited_fns.add(body.id)
        fr = c[0]
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[("L", fr, i + 1)] = a
        outs = []
        seen_out = set()
        visited = {}
        ints = {}
        work = [(0, st)]
        preds = self.preds(body)
        while work:
            bb, st = work.pop()
            while True:
                if preds[bb] > 1:
                    self.prune(st, fr, body, bb)
                    self.widen(st, fr, bb, ints)
                    k = st.key()
                    vs = visited.setdefault(bb, set())
                    if k in vs:
                        break
                    vs.add(k)
                    self.nstates += 1
                    if self.nstates > self.max_states:
                        raise Limit("%s: more than %d states" % (body.path, self.max_states))
                    if time.monotonic() - START > BUDGET:
                        raise Limit("%s: more than %d s" % (body.path, BUDGET))
                nxt = self.block(body, bb, st, c, fr, outs, seen_out)
                if not nxt:
                    break
                bb, st = nxt[0]
                if len(nxt) > 1:
                    work.extend(nxt[1:])
        return outs

    def finish(self, kind, val, st, fr, outs, seen):
        dead = [k for k in st.mem if k[0] == "L" and k[1] == fr]
        for k in dead:
            del st.mem[k]
        k = (kind, val, st.key())
        if k not in seen:
            seen.add(k)
            outs.append(Out(kind, val, st))

    def block(self, body, bb, st, c, fr, outs, seen):
        """Execute one block; the successors as [(block, state)]."""
        b = body.blocks[bb]
        for s in b["s"]:
            if "dead" in s:
                st.mem.pop(("L", fr, s["dead"]), None)
            elif "live" in s:
                st.mem.pop(("L", fr, s["live"]), None)
            elif "sd" in s:
                root, path = self.place(st, fr, s["sd"])
            else:
                v = self.rvalue(st, fr, body, s["v"], bb)
                self.assign(st, fr, body, bb, s["p"], v)
        t = b["t"]
        k = t["k"]
        if k == "goto":
            return [(t["to"], st)]
        if k == "return":
            v = st.mem.get(("L", fr, 0), UNIT)
            if v is UNINIT:
                v = UNIT
            # a value that refers to this frame's locals
            v = self.escape(st, v, fr)
            self.finish("ret", v, st, fr, outs, seen)
            return []
        if k == "switch":
            return self.switch(body, bb, t, st, c, fr)
        if k == "drop":
            root, path = self.place(st, fr, t["p"])
            v = self.rd(st, root, path)
            if not t["needs"]:
                return [(t["to"], st)]
            sts = self.drop_value(v, t["ty"], body, st, c, fr, bb, (root, path))
            r = []
            for s in sts:
                if root[0] == "L":
                    self.write(s, root, path, UNINIT)
                r.append((t["to"], s))
            return r
        if k == "assert":
            c_ = self.operand(st, fr, body, t["o"])
            tr = self.truth(st, c_)
            if tr is None:
                if t["msg"].startswith("BoundsCheck"):
                    s = st.copy()
                    self.assume_quiet(s, c_, not t["exp"])
                    self.finish("panic", UNIT, s, fr, outs, seen)
                self.assume_quiet(st, c_, t["exp"])
            elif tr != t["exp"]:
                self.finish("panic", UNIT, st, fr, outs, seen)
                return []
            return [(t["to"], st)]
        if k == "yield":
            return [(t["to"], st)]
        if k == "call":
            return self.call(body, bb, t, st, c, fr, outs, seen)
        return []

    def assume_quiet(self, st, c, val):
        r, self.rule = self.rule, None
        try:
            self.assume(st, c, val)
        finally:
            self.rule = r

    def escape(self, st, v, fr):
        if v.tag == "ref" and v.a[0][0] == "L" and v.a[0][1] == fr:
            return self.resolve(st, v)
        if v.tag == "agg" and any(isinstance(x, N) for x in v.a[3]):
            fs = tuple(self.escape(st, x, fr) for x in v.a[3])
            if fs != v.a[3]:
                return mk("agg", v.a[0], v.a[1], v.a[2], fs)
        return v

    def assign(self, st, fr, body, bb, p, v):
        root, path = self.place(st, fr, p)
        if root[0] in ("O", "O*") and self.rule is not None:
            t = body.blocks[bb]["t"]
            self.rule.event(self, Ev("store", "", (mk("ref", root, path) if path else root[1], self.resolve(st, v)), v, body.loc(t["s"]), body, st, (root, path)))
        elif path and self.rule is not None:
            old = st.mem.get(root, UNINIT)
            if opaque(old):
                # a field of a value that is held here, but was not made here
                t = body.blocks[bb]["t"]
                self.rule.event(self, Ev("patch", "", (self.walk(st, old, path), self.resolve(st, v)), v, body.loc(t["s"]), body, st, (root, path)))
        self.write(st, root, path, v)

    def switch(self, body, bb, t, st, c, fr):
        v = self.operand(st, fr, body, t["o"])
        macros = body.span(t["s"])[2]
        if v.tag == "bottom" or v.tag in ("moved", "uninit"):
            return []
        targets = [(int(x[0]), x[1]) for x in t["v"]]
        if v.tag == "int":
            for x, to in targets:
                if x == v.a[0]:
                    return [(to, st)]
            return [(t["else"], st)]
        if any(m.startswith(NOISE_MACROS) for m in macros):
            # diagnostics are taken to be disabled
            for x, to in targets:
                if x == 0:
                    return [(to, st)]
            return [(t["else"], st)]
        self.nbranches += 1
        out = []
        if v.tag == "discr":
            n, vs = v.a
            names = dict(vs)
            left = dict(vs)
            for x, to in targets:
                nm = names.get(x, str(x))
                left.pop(x, None)
                s = st.copy()
                if self.assume_variant(s, n, nm):
                    out.append((to, s))
            # otherwise
            f = st.facts.get(n)
            if f and f[0] == "v":
                if f[1] not in [names.get(x, str(x)) for x, _ in targets]:
                    out.append((t["else"], st.copy()))
            elif len(left) == 1:
                s = st.copy()
                if self.assume_variant(s, n, list(left.values())[0]):
                    out.append((t["else"], s))
            elif left or not vs:
                s = st.copy()
                ex = (f[1] if f and f[0] == "nv" else EMPTY) | {names.get(x, str(x)) for x, _ in targets}
                rest = [x for x in names.values() if x not in ex]
                if len(rest) == 1:
                    self.assume_variant(s, n, rest[0])
                else:
                    s.facts[n] = ("nv", ex)
                if rest or not vs:
                    out.append((t["else"], s))
            return out
        dt = body.ty(t["dt"])
        if dt["s"] == "bool":
            tr = self.truth(st, v)
            for x, to in targets + [(None, t["else"])]:
                val = bool(x) if x is not None else not bool(targets[0][0])
                if tr is not None:
                    if tr == val:
                        out.append((to, st.copy()))
                    continue
                s = st.copy()
                if self.assume(s, v, val):
                    out.append((to, s))
            return out
        # an integer
        f = st.facts.get(v)
        if f and f[0] == "i":
            for x, to in targets:
                if x == f[1]:
                    return [(to, st)]
            return [(t["else"], st)]
        for x, to in targets:
            s = st.copy()
            if self.assume_int(s, v, x, True):
                out.append((to, s))
        s = st.copy()
        good = True
        for x, to in targets:
            good = good and self.assume_int(s, v, x, False)
        if good:
            out.append((t["else"], s))
        return out

    # ------------------------------------------------------------------ drops

    def has_local_drop(self, crate, ti, seen=None):
        """Does dropping the type run code of the analysed crates?"""
        t = crate.tys[ti]
        k = (crate.name, ti)
        if k in self._localdrop:
            return self._localdrop[k]
        if seen is None:
            seen = set()
        if k in seen:
            return False
        seen.add(k)
        r = False
        if t["k"] == "adt":
            h = t["id"]
            if ("core::ops::drop::Drop", h) in self.p.trait_impls:
                r = True
            d = self.p.adts.get(h)
            if not r and d and h.split("#")[0] in self.p.crates:
                owner = self.p.crates[h.split("#")[0]]
                for v in d["v"]:
                    for _, ft in v["f"]:
                        if ft is not None and self.has_local_drop(owner, ft, seen):
                            r = True
            if not r:
                r = any(self.has_local_drop(crate, a, seen) for a in t["a"])
        elif t["k"] == "tuple":
            r = any(self.has_local_drop(crate, a, seen) for a in t["a"])
        self._localdrop[k] = r
        return r

    def drop_value(self, v, ti, body, st, c, fr, bb, where=None):
        """Drop a value of the type; the resulting states."""
        crate = body.crate
        ty = crate.tys[ti] if ti is not None else None
        if v.tag in ("moved", "uninit", "bottom", "int", "str", "fn", "ref"):
            return [st]
        if v.tag == "agg":
            kind = v.a[0]
            if kind == "arc":
                self.emit("droparc", "", (self.resolve(st, v),), None, st, fr, body, bb, ty)
                return [st]
            sts = [st]
            if kind.startswith("adt:"):
                p = kind[4:]
                b = self.drop_impl(p)
                if b is not None:
                    nsts = []
                    for s in sts:
                        root = ("T", fr, bb)
                        s.mem[root] = v
                        for o in self.call_body(b, (mk("ref", root, ()),), s, c, body, bb):
                            if o.kind == "ret":
                                v2 = o.st.mem.pop(root, v)
                                nsts.append((o.st, v2))
                    out = []
                    for s, v2 in nsts:
                        out.extend(self.drop_fields(v2, body, s, c, fr, bb))
                    return out
                self.emit("drop", p, (self.resolve(st, v),), None, st, fr, body, bb, ty)
            elif is_lazy(v) or kind.startswith(("coroutine:", "closure:")):
                self.emit("drop", kind, (self.resolve(st, v),), None, st, fr, body, bb, ty)
            return self.drop_fields(v, body, st, c, fr, bb)
        # opaque
        if ty is not None and ty["k"] == "adt":
            p = strip_generics(ty["d"])
            b = self.drop_impl(p)
            if b is not None:
                out = []
                for o in self.call_body(b, (v,), st, c, body, bb):
                    if o.kind == "ret":
                        out.append(o.st)
                return out
        self.emit("drop", ty["s"] if ty else "", (v,), None, st, fr, body, bb, ty)
        return [st]

    def drop_impl(self, adt_path):
        return self.p.impl_method("core::ops::drop::Drop", adt_path, "drop")

    def drop_fields(self, v, body, st, c, fr, bb):
        sts = [st]
        for f in v.a[3]:
            if isinstance(f, N) and (f.tag == "agg" or opaque(f)):
                n = []
                for s in sts:
                    n.extend(self.drop_value(f, None, body, s, c, fr, bb))
                sts = n
        return sts

    # ------------------------------------------------------------------ calls

    def call(self, body, bb, t, st, c, fr, outs, seen):
        f = self.operand(st, fr, body, t["f"])
        args = [self.operand(st, fr, body, a) for a in t["a"]]
        macros = body.span(t["s"])[2]
        noise = any(m.startswith(NOISE_MACROS) for m in macros)
        call = Call(self, body, bb, t, c, fr, f, noise)
        res = self.invoke(call, st, f, args)
        nxt = []
        for o in res:
            if o.kind == "ret":
                if "to" in t:
                    if o.val is not None:
                        self.assign_dest(o.st, fr, body, bb, t["d"], o.val)
                    nxt.append((t["to"], o.st))
            elif o.kind == "suspend":
                # the future is dropped at this await: with it, what the frame holds
                sts = [o.st]
                for i in range(len(body.locals) - 1, 0, -1):
                    n = []
                    for s in sts:
                        v = s.mem.pop(("L", fr, i), None)
                        if v is None or v.tag not in ("agg", "param", "f", "vf", "ret", "out", "item"):
                            n.append(s)
                        else:
                            n.extend(self.drop_value(v, body.locals[i][0], body, s, c, fr, bb))
                    sts = n
                for s in sts:
                    self.finish(o.kind, UNIT, s, fr, outs, seen)
            else:
                self.finish(o.kind, o.val, o.st, fr, outs, seen)
        return nxt

    def assign_dest(self, st, fr, body, bb, p, v):
        root, path = self.place(st, fr, p)
        self.write(st, root, path, v)

    def invoke(self, call, st, f, args):
        """Call a function value; the outcomes."""
        f = self.deref_all(st, f) if f.tag == "ref" else f
        if f.tag == "agg" and f.a[0].startswith("closure:"):
            return self.call_closure(call, st, f, args)
        if f.tag == "fn":
            fn, fbody = self.fnmap[f]
            return self.call_fn(call, st, fn, fbody, args)
        if f.tag == "fnptr" and f.a[0] in self.p.bodies:
            return self.enter(call, st, self.p.bodies[f.a[0]], args)
        if f.tag == "agg" and f.a[0] == "arc":
            return self.invoke(call, st, f.a[3][0], args)
        if f.tag in ("moved", "uninit", "bottom"):
            return []
        # an unknown function value
        return self.opaque_call(call, st, "<fn value>", [f] + list(args))

    def call_closure(self, call, st, f, args, self_arg=None):
        b = self.p.bodies[f.a[0].split(":", 1)[1]]
        # the first argument of a closure body is the closure or a reference to it
        sty = b.ty(b.locals[1][0])
        if sty["k"] == "ref":
            if self_arg is None:
                root = ("C", call.fr, call.bb, b.id)
                st = st.copy()
                st.mem[root] = f
                self_arg = mk("ref", root, ())
        else:
            self_arg = f
        return self.enter(call, st, b, [self_arg] + list(args))

    def enter(self, call, st, b, args):
        c = call.c
        rec = dict(c[2]).get(b.id, 0)
        if c[1] > self.max_depth or rec >= 2:
            return self.opaque_call(call, st, b.spath, args)
        args = list(args)[: b.argc]
        if self.rule is not None:
            self.rule.event(self, Ev("enter", b.spath, tuple(args), None, call.loc, call.body, st, b))
        return self.call_body(b, args, st, c, call.body, call.bb)

    def call_fn(self, call, st, fn, fbody, args):
        path = strip_generics(fn["path"])
        call.tbody = fbody
        if "ctor" in fn:
            d, v, vn = fn["ctor"]
            d = strip_generics(d)
            if d in TRANSPARENT:
                return [Out("ret", args[0], st)]
            return [Out("ret", mk("agg", "adt:" + d, v, vn, tuple(args)), st)]
        r = fn.get("r")
        rpath = strip_generics(r["path"]) if r else path
        # the rule may want it opaque
        if self.rule is not None and self.rule.is_opaque(path, rpath, fn):
            return self.opaque_call(call, st, path, args, fn)
        if call.noise and not any(m == "tracing_attributes::instrument" for m in ()):
            return self.noise_call(call, st, path, args)
        if "await" in call.tags and path == "core::future::future::Future::poll":
            return self.await_(call, st, args)
        if path.startswith("core::ops::function::"):
            return self.call_fntrait(call, st, args)
        m = self.mtab.get(path)
        if m is None and r and rpath != path:
            m = self.mtab.get(rpath)
        if r and r["id"] in self.p.bodies and r["k"] == "Item":
            b = self.p.bodies[r["id"]]
            if not (m is not None and self.derived(b)):
                return self.enter(call, st, b, args)
        if m is not None:
            o = m(self, call, st, fn, args)
            if o is not None:
                return o
        # a trait method whose receiver is known
        if "trait" in fn and args:
            b = self.dispatch(st, fn, args[0])
            if b is not None:
                return self.enter(call, st, b, args)
        if path.startswith(NOISE_PATHS):
            return self.noise_call(call, st, path, args)
        return self.opaque_call(call, st, path, args, fn)

    def derived(self, b):
        """Is it a method of a derived `Clone` or `PartialEq`, which the models cover?"""
        for i in self.p.impls:
            if i["id"] == b.raw.get("impl"):
                return i["derived"] and strip_generics(i.get("trait", "")) in ("core::clone::Clone", "core::cmp::PartialEq")
        return False

    def call_fntrait(self, call, st, args):
        f, tup = args[0], args[1]
        a = list(tup.a[3]) if is_agg(tup, "tuple") else [tup]
        fv = self.deref_all(st, f) if f.tag == "ref" else f
        if fv.tag == "agg" and fv.a[0].startswith("closure:"):
            b = self.p.bodies[fv.a[0].split(":", 1)[1]]
            return self.call_closure(call, st, fv, a, f if f.tag == "ref" and b.ty(b.locals[1][0])["k"] == "ref" else None)
        return self.invoke(call, st, f, a)

    def dispatch(self, st, fn, recv):
        v = self.deref_all(st, recv) if recv.tag == "ref" else recv
        if v.tag == "agg" and v.a[0] == "arc":
            v = v.a[3][0]
        if v.tag == "agg" and v.a[0].startswith("adt:"):
            return self.p.impl_method(strip_generics(fn["trait"]), v.a[0][4:], fn["name"])
        return None

    def noise_call(self, call, st, path, args):
        if path.endswith("::is_disabled"):
            return [Out("ret", intn(1), st)]
        return [Out("ret", self.pure(st, path, args), st)]

    def pure(self, st, path, args):
        return capped(mk("pure", path, tuple(self.resolve(st, a, 3) for a in args)), path)

    def opaque_call(self, call, st, path, args, fn=None):
        self.ncalls += 1
        rargs = tuple(self.resolve(st, a) for a in args)
        s = self.site(call.c, call.body, call.bb)
        v = self.ret(st, s, path, rargs)
        ty = call.body.ty(call.t["dty"]) if "dty" in call.t else None
        if ty and ty["k"] == "tuple" and not ty["a"]:
            v2 = UNIT
        else:
            v2 = v
        if not self.emit("call", path, rargs, v, st, call.fr, call.body, call.bb, (args, fn)):
            return []
        # what an opaque callee may do to a local through `&mut`
        ats = call.t.get("at", ())
        for i, a in enumerate(args):
            if a.tag == "ref" and a.a[0][0] in ("L", "T", "C") and i < len(ats):
                aty = call.body.ty(ats[i])
                if aty["k"] == "ref" and aty["m"]:
                    cur = self.read(st, a.a[0], a.a[1])
                    if cur.tag in ("int", "wide", "str", "bin") or (cur.tag == "agg" and cur.a[0] in ("adt:" + OPT, "adt:" + RES)) or DATA.match(call.body.ty(aty["t"])["s"]):
                        self.write(st, a.a[0], a.a[1], mk("f", v, "$mut%d" % i))
        if ty and ty["k"] == "never":
            return [Out("panic", UNIT, st)]
        mp = getattr(self.rule, "may_panic", None)
        if mp is not None and mp.search(path):
            s = st.copy()
            if self.emit("unwind", path, rargs, v, s, call.fr, call.body, call.bb):
                return [Out("ret", v2, st), Out("panic", UNIT, s)]
        return [Out("ret", v2, st)]

    # ------------------------------------------------------------------ futures

    def await_(self, call, st, args):
        outs = []
        for o in self.run_future(call, st, args[0]):
            if o.kind == "ret":
                outs.append(Out("ret", ready(o.val), o.st))
            else:
                outs.append(o)
        return outs

    def run_future(self, call, st, v):
        """Run a future to completion: outcomes of kind ret / panic / suspend."""
        self.nawaits += 1
        place = None
        while v.tag == "ref":
            place = (v.a[0], v.a[1])
            v = self.rd(st, *place)
        if v.tag in ("moved", "uninit", "bottom"):
            return []
        if v.tag == "agg":
            k = v.a[0]
            if k.startswith("coroutine:"):
                b = self.p.bodies[k.split(":", 1)[1]]
                rec = dict(call.c[2]).get(b.id, 0)
                if rec >= 2 or call.c[1] > self.max_depth:
                    return self.opaque_await(call, st, v)
                if place is not None and place[0][0] == "L":
                    st = st.copy()
                    self.write(st, place[0], place[1], MOVED)
                if self.rule is not None:
                    self.rule.event(self, Ev("enter", b.spath, (v,), None, call.loc, call.body, st, b))
                return self.call_body(b, (v, CTX), st, call.c, call.body, call.bb)
            if k.startswith("lazy:"):
                r = self.models.run_lazy(self, call, st, v)
                if r is not None:
                    return r
            if k.startswith("adt:"):
                p = k[4:]
                b = self.p.impl_method("core::future::future::Future", p, "poll")
                if b is not None:
                    root = ("T", call.fr, call.bb)
                    st = st.copy()
                    st.mem[root] = v
                    outs = []
                    for o in self.enter(call, st, b, [mk("ref", root, ()), CTX]):
                        if o.kind == "ret":
                            for nm, pv, s in self.cases(o.st, o.val, POLL):
                                if nm == "Ready":
                                    outs.append(Out("ret", pv, s))
                        else:
                            outs.append(o)
                    return outs
            if k == "arc":
                return self.run_future(call, st, v.a[3][0])
        if v.tag == "ret" and v.a[2] in self.models.SPAWNED:
            r = self.models.join_handle(self, call, st, v)
            if r is not None:
                return r
        return self.opaque_await(call, st, v)

    def opaque_await(self, call, st, v):
        outs = []
        if self.cancel:
            outs.append(Out("suspend", v, st.copy()))
        path, args = (v.a[2], v.a[3]) if v.tag == "ret" else ("", (v,))
        if v.tag == "ret" and v.a[1] == 0:
            o = mk("out", v)
        else:
            s = self.site(call.c, call.body, call.bb, "await")
            o = mk("out", self.ret(st, s, "await", (self.resolve(st, v),)))
        st0, st = st, st.copy()
        if self.pre[0] is st0:
            self.pre = (st,) + self.pre[1:]
        if self.emit("await", path, args, o, st, call.fr, call.body, call.bb, v, call.c):
            outs.append(Out("ret", o, st))
        return outs


class Call:
    __slots__ = ("interp", "body", "bb", "t", "c", "fr", "f", "noise", "tags", "tbody")

    def __init__(self, interp, body, bb, t, c, fr, f, noise):
        self.interp, self.body, self.bb, self.t, self.c, self.fr, self.f = interp, body, bb, t, c, fr, f
        self.noise = noise
        self.tbody = body
        m = body.span(t["s"])[2]
        self.tags = ("await",) if "desugar:Await" in m else ()

    @property
    def loc(self):
        return self.body.loc(self.t.get("fs", self.t["s"]))


def stale(n):
    return any(x.tag == "ret" and x.a[1] == 1 or x.tag == "wide" for x in subterms(n))


def capped(n, what):
    """Terms built by repeated operations are cut off."""
    return n if n.h < 40 else mk("wide", what)


TRANSPARENT = {"core::pin::Pin", "alloc::boxed::Box", "core::panic::unwind_safe::AssertUnwindSafe", "core::mem::manually_drop::ManuallyDrop", "core::cell::UnsafeCell"}


class Rule:
    """The default monitor: records nothing."""

    def event(self, interp, ev):
        return True

    def branch(self, interp, st, node, fact):
        pass

    def is_opaque(self, path, rpath, fn):
        return False


def called(t):
    return t.a[2] if t is not None and t.tag == "ret" else (t.a[0] if t is not None and t.tag == "pure" else None)


class TraceRule(Rule):
    """Records the events that `want(ev)` maps to a label: the monitor state is the tuple of
    (label, args, ret, loc)."""

    def __init__(self, want, opaque_paths=(), cap=2):
        self.want = want
        self.opaque_paths = tuple(opaque_paths)
        self.cap = cap

    def is_opaque(self, path, rpath, fn):
        return any(path == o or rpath == o or (o.endswith("*") and (path.startswith(o[:-1]) or rpath.startswith(o[:-1]))) for o in self.opaque_paths)

    def event(self, interp, ev):
        l = self.want(ev)
        if l is None:
            return True
        if l is False:
            return False
        if isinstance(l, tuple):
            l, args = l[0], l[1]
        else:
            args = ev.args
        e = (l, args, ev.ret, ev.loc, ev.fn.spath)
        # of the executions of one call site, the first and the latest are kept, so that a trace is bounded
        what = called(ev.ret)
        same = [i for i, x in enumerate(ev.st.mon) if x[0] == l and x[3] == e[3] and x[4] == e[4] and called(x[2]) == what]
        mon = ev.st.mon
        if len(same) >= self.cap:
            mon = mon[: same[-1]] + mon[same[-1] + 1 :]
        ev.st.mon = mon + (e,)
        return True


def run_in_thread(f):
    res = []

    def g():
        try:
            res.append((True, f()))
        except BaseException as e:  # noqa
            res.append((False, e))

    t = threading.Thread(target=g)
    t.start()
    t.join()
    if not res[0][0]:
        raise res[0][1]
    return res[0][1]
