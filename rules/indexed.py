"""Indexed streams: how they are numbered and how their values are put in order (C28)."""
import re

from lib import *
from common import *
from directive import args_of, payload

IS = "paladin::directive::indexed_stream::"
STREAM = IS + "IndexedStream"
NEXT = "core::iter::traits::iterator::Iterator::next"
ANY = (("call|opaque", r".*", "q"), ("await", r".*", "a"))


def plain(t):
    """The source of a chain of combinators that keep every item, in order."""
    seen = 0
    while t.tag == "agg" and t.a[0].startswith("lazy:"):
        k = t.a[0][5:]
        if re.sub(r"^(i_|s_|ts_)", "", k) in ("map", "enumerate", "inspect", "iter", "map_ok", "map_err", "zip", "inspect_ok", "inspect_err", "and_then", "then"):
            if k.endswith("zip"):
                rest = [x for x in t.a[3] if not counting(x)]
                if len(rest) != 1:
                    return None
                t = rest[0]
            else:
                t = t.a[3][0]
            seen += 1
            continue
        return None
    return t


def counting(t):
    """0, 1, 2, ..."""
    return is_agg(t, "adt:core::ops::range::RangeFrom") and t.a[3][0].tag == "int" and t.a[3][0].a[0] == 0


def index_of(t, item):
    """`t` is the number of `item` among the items of its source."""
    if t.tag == "pure" and t.a[0] == "index":
        return any_sub(t, lambda x: x is item)
    if t.tag == "vf" and t.a[1] == "Some" and head(t.a[0]) == NEXT:
        return counting(args_of(t.a[0])[0])
    return False


def numbered(c, b, fallible):
    src = c.params(b)[0]
    for p in c.paths(b, Want(*ANY)):
        if p.kind == "panic":
            c.ob("numbering does not panic", b.spath, False, "making an indexed stream panics", b.where)
            continue
        v = p.val
        while v.tag == "agg" and v.a[0].startswith("adt:") and len(v.a[3]) == 1:
            v = v.a[3][0]
        c.ob("every item is taken, in order", b.spath, plain(v) is src, "an indexed stream does not take every item of its source in order", b.where)
        qs = c.continued(p, b, v, ANY)

        def item(q):
            nexts = [e for e in q.all("q") if head(e.ret) == NEXT and e.args[0] is src]
            if len(nexts) != 1:
                return "%d items are taken for one" % len(nexts)
            nx = nexts[0].ret
            if q.variant(nx) == "None":
                return None if q.variant(q.val) == "None" else "an item is made up"
            x = mk("vf", nx, "Some", "0")
            if q.variant(q.val) != "Some":
                return "an item is dropped", nexts[0].loc
            r = q.val.a[3][0]
            if fallible and q.variant(x) == "Err":
                return None if is_agg(r, "adt:core::result::Result") and r.a[2] == "Err" and r.a[3][0] is mk("vf", x, "Err", "0") or r is x else ("an error of the source is not passed on", nexts[0].loc)
            want = mk("vf", x, "Ok", "0") if fallible else x
            if not (is_agg(r, "adt:core::result::Result") and r.a[2] == "Ok" and is_agg(r.a[3][0], "tuple")):
                return "an item is not passed on", nexts[0].loc
            i, y = r.a[3][0].a[3]
            if y is not want:
                return "an item is not passed on as it is", nexts[0].loc
            if not index_of(i, x):
                return "an item does not get the number of its place", nexts[0].loc

        c.forall("every item gets the number of its place", b, qs, item, lambda q: q.kind == "ret", floor=2)
        c.forall("taking an item does not panic", b, qs, lambda q: "taking an item panics", lambda q: q.kind == "panic", floor=0)


SORT = re.compile(r"(?:^|::)(sort|sort_unstable|sort_by|sort_unstable_by|sort_by_key|sort_unstable_by_key|sort_by_cached_key)\Z")


def ascending(c, p, b, name, cl):
    """The comparison or key a sort is given puts the smaller index first."""
    I = p.interp
    x, y = mk("param", "item a"), mk("param", "item b")
    fst = lambda t: mk("f", t, 0)  # noqa
    one = "_key" in name or "cached" in name
    outs = c.applied(p, b, cl, [x] if one else [x, y])
    if not outs:
        return False
    for o in outs:
        if o.kind == "panic" and any((head(n) or "").endswith("::partial_cmp") for n in o.st.facts):
            continue  # indices can be compared
        if o.kind != "ret":
            return False
        v = o.val
        while v.tag in ("pure", "ret") and (head(v) or "").rsplit("::", 1)[-1] in ("clone", "unwrap", "expect", "to_owned") or v.tag == "vf" and v.a[1] == "Some":
            v = args_of(v)[0] if v.tag != "vf" else v.a[0]
        if one:
            if v is not fst(x):
                return False
        elif (head(v) or "").rsplit("::", 1)[-1] in ("cmp", "partial_cmp"):
            if args_of(v)[:2] != (fst(x), fst(y)):
                return False
        else:
            return False
    return True


def c28(c):
    numbered(c, c.fn(IS + "from_into_iterator"), False)
    numbered(c, c.fn(IS + "try_from_into_iterator"), True)
    for b in sorted((x for x in c.prog.bodies.values() if re.match(r"<" + re.escape(STREAM) + r"<.*> as core::convert::From<.*>>::from\Z", x.spath)), key=lambda b: b.spath):
        numbered(c, b, False)
    # polling
    b = c.method("futures_core::stream::Stream", STREAM, "poll_next")
    me, cx = c.params(b)[:2]

    def polled(p):
        es = [e for e in p.all("q", "a") if head(e.ret) and head(e.ret).endswith("::poll_next")]
        if len(es) != 1 or strip_proj(es[0].args[0])[0] is not me or es[0].args[1] is not cx:
            return "polling an indexed stream does not poll what it is made of once"
        if p.val is not es[0].ret and not same_outcome(p, p.val, es[0].ret):
            return "what an indexed stream gives is not what it is made of", es[0].loc

    c.forall("an indexed stream gives what it is made of", b, c.paths(b, Want(*ANY), future=False), polled, lambda p: p.kind == "ret")
    b = c.fn(STREAM + "::new")
    c.forall("an indexed stream is made of what it is given", b, c.paths(b, Want(*ANY)), lambda p: None if any_sub(p.val, lambda x: x is c.params(b)[0]) and plain(p.val.a[3][0] if p.val.a[3] else p.val) is c.params(b)[0] else "an indexed stream is not made of what it is given", lambda p: p.kind == "ret")
    # sorting
    b = c.fn(STREAM + "::into_values_sorted")
    me = c.params(b)[0]
    of_me = lambda e: e.args and strip_proj(e.args[0])[0] is me  # noqa
    want = (("await|call|opaque", r"::(try_)?next(_unpin)?\Z|::poll_next\Z", "take", of_me), ("call|opaque", r"Iterator::next\Z", "item"), ("call|opaque", r"::(push|push_back)\Z", "push"), ("call|opaque|await", r".*", "q"))
    ps = c.paths(b, Want(*want))
    segs = c.paths(b, Want(*want), cut=("take", "item"))
    tail = lambda t: (head(t) or "").rsplit("::", 1)[-1]  # noqa

    def built(t):
        return tail(t) in ("new", "with_capacity", "default")

    def poured(p, vec, label, want_item):
        """Every item that is taken is pushed once."""
        n = 0
        for q in segs:
            if not q.ev or q.ev[0].label != label or q.variant(q.ev[0].ret) != "Some" or q.kind == "panic" or err_paths(q):
                continue
            x = want_item(q, mk("vf", q.ev[0].ret, "Some", "0"))
            if x is None:
                continue
            n += 1
            es = [e for e in q.all("push") if e.args[0] is vec]
            if len(es) != 1 or es[0].args[1] is not x or q.kind != "cut":
                return False
        return n > 0

    def result(p):
        ns = p.all("take")
        if not ns:
            return "the values are not taken from the stream"
        if p.variant(ns[-1].ret) != "None":
            return "the values are given before the stream ended", ns[-1].loc
        v = p.val.a[3][0]
        maps = []

        def inner(v):
            """What was sorted, if `v` gives its elements in order."""
            while True:
                if v.tag == "agg" and v.a[0] in ("lazy:i_map", "lazy:i_inspect"):
                    if v.a[0] == "lazy:i_map":
                        maps.append(v.a[3][1])
                    v = v.a[3][0]
                elif head(v) == "core::iter::traits::iterator::Iterator::collect":
                    v = args_of(v)[0]
                else:
                    return v

        vec = inner(v)
        x = mk("param", "item a")
        value = mk("f", x, 1)
        sorts = [e for e in p.all("q") if SORT.search(head(e.ret) or "")]
        if built(vec) and not any(e.args[0] is vec for e in sorts):
            src = {e.args[0] for e in p.all("item")}
            if len(src) != 1 or not poured(p, vec, "item", lambda q, it: mk("f", it, 1)):
                return "a value is not given"
            vec = inner(src.pop())
            if maps:
                return "what is given is not the value"
            mapped = True
        else:
            mapped = False
        if tail(vec) in ("try_collect", "collect"):
            if not any_sub(vec, lambda t: t is me):
                return "the values are not those of the stream"
        elif not built(vec) or not poured(p, vec, "take", lambda q, it: mk("vf", it, "Ok", "0")):
            return "a value of the stream is not given"
        others = [e for e in p.all("q") if e.args and e.args[0] is vec and tail(e.ret) in ("reverse", "dedup", "dedup_by", "dedup_by_key", "truncate", "pop", "retain", "swap", "remove", "swap_remove", "clear", "rotate_left", "rotate_right", "drain", "split_off")]
        if others:
            return "the values are changed", others[0].loc
        sorts = [e for e in sorts if e.args[0] is vec]
        if not sorts:
            return "the values are not sorted by their indices"
        e = sorts[-1]
        if len(e.args) < 2 or not ascending(c, p, b, SORT.search(head(e.ret)).group(1), e.args[1]):
            return "the values are not sorted by ascending index", e.loc
        if not mapped:
            ts = [x]
            for f in reversed(maps):
                outs = [o for y in ts for o in c.applied(p, b, f, [y])]
                if any(o.kind != "ret" for o in outs):
                    return "giving a value panics"
                ts = [o.val for o in outs]
            if any(y is not value for y in ts):
                return "what is given is not the value"

    c.forall("the values are given sorted by ascending index", b, ps, result, ok_paths)
    c.forall("sorting fails only with an error of the stream", b, ps,
             lambda p: None if any(any_sub(p.val, lambda x, e=e: x is mk("vf", mk("vf", e.ret, "Some", "0"), "Err", "0")) for e in p.all("take")) else "sorting fails without an error of the stream", err_paths)
    c.forall("sorting does not panic", b, ps, lambda p: "sorting panics", lambda p: p.kind == "panic", floor=0)


def same_outcome(p, a, b):
    """Two polls' results are the same as far as the path knows."""
    if a is b:
        return True
    va, vb = p.variant(a), p.variant(b)
    if va is None or va != vb:
        return False
    if a.tag == "agg":
        return all(x is mk("vf", b, va, str(i)) or same_outcome(p, x, mk("vf", b, va, str(i))) for i, x in enumerate(a.a[3]))
    return False


RULES = {"C28": c28}
