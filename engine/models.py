"""Models of the library functions that pass control or values along: without them a property
that holds could not be recognised when the code is written with a combinator."""
import copy
import re

from absint import (
    CF, CTX, DATA, EMPTY, FALSE, MOVED, NONE, OPT, PENDING, POLL, RES, TRUE, UNINIT, UNIT, Out, adt, capped, err,
    fields, intn, is_agg, is_lazy, lazy, mk, ok, opaque, ready, some, stale, strn,
)
from facts import strip_generics

TABLE = {}


def m(*paths):
    def d(f):
        for p in paths:
            TABLE[p] = f
        return f

    return d


def R(v, st):
    return [Out("ret", v, st)]


def bind(outs, f):
    """Continue the returning outcomes."""
    res = []
    for o in outs:
        if o.kind == "ret":
            res.extend(f(o.val, o.st))
        else:
            res.append(o)
    return res


def place_of(I, st, a):
    """The place a reference refers to, through references to references."""
    for _ in range(8):
        if a.tag != "ref":
            return None
        v = I.read(st, a.a[0], a.a[1])
        if v.tag == "ref":
            a = v
            continue
        return a
    return a


# ----------------------------------------------------------------------------- pointers


def ident(I, call, st, fn, args):
    return R(args[0], st)


for p in (
    "alloc::boxed::Box::new", "alloc::boxed::Box::pin", "core::pin::Pin::new", "core::pin::Pin::new_unchecked",
    "core::pin::Pin::get_mut", "core::pin::Pin::get_ref", "core::pin::Pin::get_unchecked_mut", "core::pin::Pin::into_inner",
    "core::pin::Pin::into_ref", "alloc::boxed::Box::into_pin", "core::pin::Pin::into_inner_unchecked",
    "core::future::into_future::IntoFuture::into_future", "core::future::get_context",
    "core::iter::traits::collect::IntoIterator::into_iter", "tracing::instrument::Instrument::instrument",
    "tracing::instrument::Instrument::in_current_span", "alloc::sync::Arc::as_ref",
    "futures_util::stream::stream::StreamExt::boxed", "futures_util::future::future::FutureExt::boxed",
    "futures_util::stream::stream::StreamExt::boxed_local", "futures_util::future::future::FutureExt::boxed_local",
    "futures_util::stream::stream::StreamExt::fuse", "futures_util::future::future::FutureExt::fuse",
    "futures_util::future::future::FutureExt::left_future", "futures_util::future::future::FutureExt::right_future",
    "futures_util::future::try_future::TryFutureExt::into_future", "futures_util::stream::try_stream::TryStreamExt::into_stream",
    "core::iter::traits::iterator::Iterator::by_ref", "core::iter::traits::iterator::Iterator::fuse", "core::hint::must_use", "core::convert::identity",
    "core::option::Option::copied", "core::option::Option::cloned", "core::option::Option::as_slice",
    "core::result::Result::copied", "core::result::Result::cloned",
    "anyhow::__private::must_use", "core::mem::manually_drop::ManuallyDrop::new", "core::hint::black_box",
    "core::option::Option::iter", "core::future::ready::Ready::into_inner", "core::iter::traits::iterator::Iterator::cloned", "core::iter::traits::iterator::Iterator::copied",
    "alloc::slice::into_vec", "alloc::boxed::box_new", "alloc::boxed::Box::from", "core::iter::traits::iterator::Iterator::peekable",
    "core::num::nonzero::NonZero::get",
):
    TABLE[p] = ident


@m("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::pin::Pin::as_mut", "core::pin::Pin::as_ref",
   "core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut", "core::borrow::Borrow::borrow", "core::borrow::BorrowMut::borrow_mut",
   "alloc::string::String::as_str", "alloc::string::String::as_bytes", "alloc::vec::Vec::as_slice", "core::str::as_bytes", "core::pin::Pin::as_deref_mut",
   "alloc::boxed::Box::as_ref", "alloc::boxed::Box::as_mut", "alloc::vec::Vec::as_mut_slice", "alloc::boxed::Box::leak",
   "dashmap::mapref::one::Ref::value", "dashmap::mapref::one::RefMut::value", "dashmap::mapref::one::RefMut::value_mut", "core::sync::atomic::Atomic::get_mut")
def deref(I, call, st, fn, args):
    a = args[0]
    if a.tag != "ref":
        return R(a.a[3][0] if is_agg(a, "arc") else a, st)
    v = I.read(st, a.a[0], a.a[1])
    if v.tag == "ref":
        # a pointer in a place
        w = I.read(st, v.a[0], v.a[1])
        if is_agg(w, "arc"):
            return R(mk("ref", v.a[0], v.a[1] + (("f", 0, "$arc"),)), st)
        return R(v, st)
    if is_agg(v, "arc"):
        return R(mk("ref", a.a[0], a.a[1] + (("f", 0, "$arc"),)), st)
    if opaque(v):
        if fn["name"] == "deref_mut" and fn.get("a") and DATA.match(call.tbody.ty(fn["a"][0])["s"]):
            # what is written through it changes the place
            return R(a, st)
        return R(v, st)
    return R(a, st)


@m("alloc::sync::Arc::new", "alloc::rc::Rc::new", "alloc::sync::Arc::pin")
def arc_new(I, call, st, fn, args):
    return R(mk("agg", "arc", 0, "", (args[0],)), st)


TABLE["alloc::rcs::arc::Arc::new"] = arc_new
TABLE["alloc::rcs::arc::Arc::pin"] = arc_new
TABLE["alloc::rcs::rc::Rc::new"] = arc_new


# A copy of one of these is another one: what is done to it does not happen to the first.
OWN_COPY = re.compile(r"&*(?:[a-z_]\w*::)*(?:DashMap|DashSet|RefCell|Cell|Mutex|RwLock)\b")


@m("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned", "alloc::rcs::arc::Arc::clone", "core::option::Option::clone")
def clone(I, call, st, fn, args):
    if fn.get("a") and OWN_COPY.match(call.tbody.ty(fn["a"][0])["s"]):
        return None
    return R(I.deref_all(st, args[0]), st)


@m("alloc::string::ToString::to_string", "alloc::str::to_owned", "alloc::string::String::from", "alloc::string::String::from_str", "core::str::to_string", "alloc::slice::to_vec", "alloc::string::String::into_boxed_str", "alloc::str::into_string", "alloc::string::String::into_bytes")
def to_string(I, call, st, fn, args):
    v = I.deref_all(st, args[0])
    at = call.tbody.ty(fn["a"][0])["s"] if fn.get("a") else "str"
    if v.tag == "str" or "str" in at.replace("&", "").replace("'static ", "").split() or "alloc::string::String" in at:
        return R(v, st)
    return R(I.pure(st, "to_string", (v,)), st)


@m("alloc::string::String::new", "alloc::string::String::with_capacity")
def string_new(I, call, st, fn, args):
    return R(mk("str", ""), st)


@m("core::mem::drop")
def mem_drop(I, call, st, fn, args):
    ti = fn["a"][0]
    return [Out("ret", UNIT, s) for s in I.drop_value(args[0], ti, call.tbody, st, call.c, call.fr, call.bb)]


@m("core::mem::forget")
def mem_forget(I, call, st, fn, args):
    return R(UNIT, st)


@m("core::mem::replace", "core::option::Option::replace")
def mem_replace(I, call, st, fn, args):
    a = place_of(I, st, args[0]) or args[0]
    v = I.deref_all(st, a)
    new = args[1]
    if fn["name"] == "replace" and "option" in fn["path"]:
        new = some(new)
    r, p = I.target(st, a)
    I.write(st, r, p, new)
    return R(v, st)


@m("core::mem::take")
def mem_take(I, call, st, fn, args):
    a = place_of(I, st, args[0]) or args[0]
    v = I.deref_all(st, a)
    r, p = I.target(st, a)
    ty = call.tbody.ty(fn["a"][0])
    if ty.get("d", "").startswith("core::option::Option"):
        I.write(st, r, p, NONE)
    else:
        I.write(st, r, p, mk("pure", "default " + ty["s"], ()))
    return R(v, st)


@m("core::mem::swap")
def mem_swap(I, call, st, fn, args):
    a = place_of(I, st, args[0]) or args[0]
    b = place_of(I, st, args[1]) or args[1]
    va, vb = I.deref_all(st, a), I.deref_all(st, b)
    I.write(st, *I.target(st, a), vb)
    I.write(st, *I.target(st, b), va)
    return R(UNIT, st)


@m("core::option::Option::take")
def opt_take(I, call, st, fn, args):
    a = place_of(I, st, args[0]) or args[0]
    v = I.deref_all(st, a)
    r, p = I.target(st, a)
    I.write(st, r, p, NONE)
    return R(v, st)


@m("core::option::Option::insert", "core::option::Option::get_or_insert")
def opt_insert(I, call, st, fn, args):
    a = place_of(I, st, args[0]) or args[0]
    r, p = I.target(st, a)
    I.write(st, r, p, some(args[1]))
    return R(mk("ref", r, p + (("v", 1, "Some"), ("f", 0, "0"))), st)


@m("core::option::Option::as_ref", "core::option::Option::as_mut", "core::option::Option::as_deref", "core::option::Option::as_deref_mut",
   "core::result::Result::as_ref", "core::result::Result::as_mut", "core::option::Option::as_pin_mut", "core::result::Result::as_deref")
def opt_as_ref(I, call, st, fn, args):
    a = place_of(I, st, args[0]) or args[0]
    v = I.deref_all(st, a)
    if v.tag == "agg" and v.a[3] and a.tag == "ref":
        x = v.a[3][0]
        if not x.tag == "ref":
            x = mk("ref", a.a[0], a.a[1] + (("v", v.a[1], v.a[2]), ("f", 0, "0")))
        return R(mk("agg", v.a[0], v.a[1], v.a[2], (x,)), st)
    return R(v, st)


# ----------------------------------------------------------------------------- comparisons


def cmp_args(I, st, args):
    a, b = I.resolve(st, args[0]), I.resolve(st, args[1])
    return I.known_int(st, a), I.known_int(st, b)


def equal(I, st, a, b):
    if a.tag == "agg" and b.tag == "agg":
        if a.a[0] == b.a[0] and a.a[1] != b.a[1]:
            return FALSE
        if a is b and not stale(a):
            return TRUE
        if a.a[0] == b.a[0] and a.a[2] == b.a[2] and len(a.a[3]) == len(b.a[3]):
            r = TRUE
            for x, y in zip(a.a[3], b.a[3]):
                r = I.binop0(st, "BitAnd", r, equal(I, st, x, y))
            return r
    for x, y in ((a, b), (b, a)):
        if y.tag == "agg" and not y.a[3] and y.a[0].startswith("adt:") and opaque(x):
            d = I.p.adt_by_path.get(y.a[0][4:])
            if d and d.get("v"):
                I.enums[x] = tuple(z["n"] for z in d["v"])
            return mk("isv", x, y.a[2])
    return I.binop0(st, "Eq", a, b)


@m("core::cmp::PartialEq::eq", "alloc::rcs::arc::Arc::ptr_eq", "core::ptr::eq")
def eq(I, call, st, fn, args):
    a, b = cmp_args(I, st, args)
    return R(equal(I, st, a, b), st)


@m("core::cmp::PartialEq::ne")
def ne(I, call, st, fn, args):
    a, b = cmp_args(I, st, args)
    return R(I.neg(equal(I, st, a, b)), st)


def _cmp(op):
    def f(I, call, st, fn, args):
        a, b = cmp_args(I, st, args)
        return R(I.binop0(st, op, a, b), st)

    return f


for _n, _o in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    TABLE["core::cmp::PartialOrd::" + _n] = _cmp(_o)


def _arith(op):
    def f(I, call, st, fn, args):
        a, b = cmp_args(I, st, args)
        s = call.tbody.ty(fn["a"][0])["s"] if fn.get("a") else ""
        if "String" in s:
            return R(I.pure(st, "concat", (a, b)), st)
        return R(I.binop0(st, op, a, b), st)

    return f


for _p, _o in (("add::Add::add", "Add"), ("sub::Sub::sub", "Sub")):
    TABLE["core::ops::arith::" + _p.split("::", 1)[1]] = _arith(_o)
for _o, _p in (("Add", "Add::add"), ("Sub", "Sub::sub"), ("Mul", "Mul::mul")):
    TABLE["core::ops::arith::" + _p] = _arith(_o)


def _num(op):
    def f(I, call, st, fn, args):
        a, b = cmp_args(I, st, args)
        return R(I.binop0(st, op, a, b), st)

    return f


for _n, _o in (("wrapping_add", "Add"), ("wrapping_sub", "Sub"), ("saturating_add", "Add")):
    TABLE["core::num::" + _n] = _num(_o)


@m("core::ops::bit::Not::not")
def not_(I, call, st, fn, args):
    return R(I.neg(I.resolve(st, args[0])), st)


@m("core::option::Option::is_some_and", "core::option::Option::is_none_or", "core::result::Result::is_ok_and", "core::result::Result::is_err_and")
def is_some_and(I, call, st, fn, args):
    ty = OPT if "option" in fn["path"] else RES
    res = []
    for v, p, s in I.cases(st, args[0], ty):
        hit = {"is_some_and": "Some", "is_ok_and": "Ok", "is_err_and": "Err", "is_none_or": "Some"}[fn["name"]]
        if v == hit:
            res += I.invoke(call, s, args[1], [p])
        else:
            res += R(TRUE if fn["name"] == "is_none_or" else FALSE, s)
    return res


def _isv(ty, vname, neg=False):
    other = [x for x in {OPT: ("None", "Some"), RES: ("Ok", "Err"), POLL: ("Ready", "Pending"), "core::ops::control_flow::ControlFlow": ("Continue", "Break")}[ty] if x != vname][0]

    def f(I, call, st, fn, args):
        v = I.deref_all(st, args[0])
        k = I.variant_of(st, v)
        if k is not None:
            return R(TRUE if k == vname else FALSE, st)
        if vname in ("Some", "Ok", "Ready", "Continue"):
            return R(mk("isv", v, vname), st)
        return R(I.neg(mk("isv", v, other)), st)

    return f


for _t, _vs in ((OPT, (("is_some", "Some"), ("is_none", "None"))), (RES, (("is_ok", "Ok"), ("is_err", "Err"))), (POLL, (("is_ready", "Ready"), ("is_pending", "Pending"))), ("core::ops::control_flow::ControlFlow", (("is_break", "Break"), ("is_continue", "Continue")))):
    for _n, _v in _vs:
        TABLE[_t + "::" + _n] = _isv(_t, _v)

# ----------------------------------------------------------------------------- `?`


def ty_arg(body, ti, i):
    t = body.ty(ti)
    a = t.get("a") or []
    return a[i] if i < len(a) else None


@m("core::ops::try_trait::Try::branch")
def branch(I, call, st, fn, args):
    body = call.tbody
    sty = body.ty(fn["a"][0])
    d = sty.get("d", "")
    if d.startswith(RES):
        return [Out("ret", adt(CF, "Continue", p) if v == "Ok" else adt(CF, "Break", err(p)), s) for v, p, s in I.cases(st, args[0], RES)]
    if d.startswith(OPT):
        return [Out("ret", adt(CF, "Continue", p) if v == "Some" else adt(CF, "Break", NONE), s) for v, p, s in I.cases(st, args[0], OPT)]
    if d.startswith(POLL):
        res = []
        inner = body.ty(sty["a"][0]).get("d", "")
        for v, p, s in I.cases(st, args[0], POLL):
            if v == "Pending":
                res += R(adt(CF, "Continue", PENDING), s)
            elif inner.startswith(RES):
                for v2, p2, s2 in I.cases(s, p, RES):
                    res += R(adt(CF, "Continue", ready(p2)) if v2 == "Ok" else adt(CF, "Break", err(p2)), s2)
            else:
                for v2, p2, s2 in I.cases(s, p, OPT):
                    if v2 == "None":
                        res += R(adt(CF, "Continue", ready(NONE)), s2)
                    else:
                        for v3, p3, s3 in I.cases(s2, p2, RES):
                            res += R(adt(CF, "Continue", ready(some(p3))) if v3 == "Ok" else adt(CF, "Break", err(p3)), s3)
        return res
    return None


@m("core::ops::try_trait::FromResidual::from_residual")
def from_residual(I, call, st, fn, args):
    body = call.tbody
    to = body.ty(fn["a"][0])
    v = I.deref_all(st, args[0])
    if v.tag == "agg" and v.a[2] == "None":
        return R(NONE, st)
    if v.tag == "agg" and v.a[2] == "Err":
        frm = body.ty(fn["a"][1])
        wrap = lambda x: err(x)  # noqa
        if to.get("d", "").startswith(POLL):
            to = body.ty(to["a"][0])
            wrap = lambda x: ready(err(x))  # noqa
            if to.get("d", "").startswith(OPT):
                to = body.ty(to["a"][0])
                wrap = lambda x: ready(some(err(x)))  # noqa
        if to.get("a") and frm.get("a"):
            return bind(convert(I, call, st, body, frm["a"][1] if len(frm["a"]) > 1 else frm["a"][0], to["a"][1], v.a[3][0]), lambda x, s: R(wrap(x), s))
    return None


def head(t):
    return t.get("id") if t["k"] == "adt" else t["k"] + ":" + t["s"]


def find_conv(I, body, trait, ti_from, ti_to):
    f, t = body.ty(ti_from), body.ty(ti_to)
    cands = I.p.trait_impls.get((trait, head(t)), ())
    name = {"core::convert::From": "from", "core::convert::TryFrom": "try_from"}[trait]
    for mm, i in cands:
        if name not in mm or not i.get("ta"):
            continue
        a = i["crate"].tys[i["ta"][0]]
        if a["s"] == f["s"] or (a["k"] == "adt" and f["k"] == "adt" and a["id"] == f["id"]):
            return I.p.bodies[mm[name]]
    # an impl for a type parameter's head, such as `Result<..>`
    return None


def convert(I, call, st, body, ti_from, ti_to, v):
    f, t = body.ty(ti_from), body.ty(ti_to)
    if f["s"] == t["s"]:
        return R(v, st)
    b = find_conv(I, body, "core::convert::From", ti_from, ti_to)
    if b is not None:
        return I.enter(call, st, b, [v])
    return R(conv_extern(I, st, f, t, v), st)


def conv_extern(I, st, f, t, v):
    fs = f["s"].replace("&", "").replace("'static ", "")
    if fs in ("str", "alloc::string::String") and t["s"].startswith(("alloc::string::String", "bytes::", "alloc::boxed::Box<str>")):
        return I.deref_all(st, v)
    if t["s"].startswith("alloc::boxed::Box<") or t["s"].startswith("core::pin::Pin<"):
        return v
    if t["s"].startswith("core::option::Option<") and not f["s"].startswith("core::option::Option<"):
        return some(v)
    if t["s"].startswith(("alloc::sync::Arc<", "alloc::rcs::arc::Arc<")):
        return mk("agg", "arc", 0, "", (v,))
    if t["k"] == "prim" and f["k"] == "prim":
        return v
    return I.pure(st, "From::from " + t["s"], (v,))


@m("core::convert::Into::into")
def into(I, call, st, fn, args):
    return convert(I, call, st, call.tbody, fn["a"][0], fn["a"][1], args[0]) if fn["a"][0] != fn["a"][1] else R(args[0], st)


@m("core::convert::From::from")
def from_(I, call, st, fn, args):
    t, f = fn["a"][0], fn["a"][1]
    return convert(I, call, st, call.tbody, f, t, args[0])


@m("core::convert::TryInto::try_into", "core::convert::TryFrom::try_from")
def try_into(I, call, st, fn, args):
    a = fn["a"]
    f, t = (a[0], a[1]) if fn["name"] == "try_into" else (a[1], a[0])
    b = find_conv(I, call.tbody, "core::convert::TryFrom", f, t)
    if b is not None:
        return I.enter(call, st, b, args)
    return None


@m("core::default::Default::default")
def default(I, call, st, fn, args):
    return default_of(I, call, st, call.tbody.ty(fn["a"][0]), call.tbody.crate)


def default_of(I, call, st, t, crate, extra=()):
    s = t["s"]
    if s.startswith(OPT):
        return R(NONE, st)
    if t["k"] == "prim":
        return R(FALSE, st)
    if t["k"] == "tuple" and not t["a"]:
        return R(UNIT, st)
    if "::Arc<" in s and s.startswith("alloc::"):
        return bind(default_of(I, call, st, crate.tys[t["a"][0]], crate, extra + ("arc",)), lambda v, s2: R(mk("agg", "arc", 0, "", (v,)), s2))
    if t["k"] == "adt":
        for mm, i in I.p.trait_impls.get(("core::default::Default", t["id"]), ()):
            if "default" in mm:
                return I.enter(call, st, I.p.bodies[mm["default"]], [])
    if s.startswith(("lapin::", "amq_protocol")) and "FieldTable" not in s:
        return R(mk("pure", "default " + strip_generics(s), ()), st)
    site = I.site(call.c, call.body, call.bb, extra + ("default", s))
    return R(I.ret(st, site, "default " + s, ()), st)


# ----------------------------------------------------------------------------- Option and Result


@m("core::option::Option::unwrap", "core::option::Option::expect", "core::result::Result::unwrap", "core::result::Result::expect",
   "core::result::Result::unwrap_err", "core::result::Result::expect_err", "core::option::Option::unwrap_unchecked", "core::result::Result::unwrap_unchecked")
def unwrap(I, call, st, fn, args):
    ty = OPT if "option" in fn["path"] else RES
    good = "Some" if ty == OPT else ("Err" if fn["name"].endswith("err") else "Ok")
    return [Out("ret", p, s) if v == good else Out("panic", UNIT, s) for v, p, s in I.cases(st, args[0], ty)]


@m("core::option::Option::unwrap_or", "core::result::Result::unwrap_or")
def unwrap_or(I, call, st, fn, args):
    ty = OPT if "option" in fn["path"] else RES
    return [Out("ret", p if v in ("Some", "Ok") else args[1], s) for v, p, s in I.cases(st, args[0], ty)]


@m("core::option::Option::unwrap_or_else", "core::result::Result::unwrap_or_else")
def unwrap_or_else(I, call, st, fn, args):
    ty = OPT if "option" in fn["path"] else RES
    res = []
    for v, p, s in I.cases(st, args[0], ty):
        if v in ("Some", "Ok"):
            res += R(p, s)
        else:
            res += I.invoke(call, s, args[1], [] if ty == OPT else [p])
    return res


@m("core::option::Option::unwrap_or_default", "core::result::Result::unwrap_or_default")
def unwrap_or_default(I, call, st, fn, args):
    ty = OPT if "option" in fn["path"] else RES
    res = []
    for v, p, s in I.cases(st, args[0], ty):
        if v in ("Some", "Ok"):
            res += R(p, s)
        else:
            res += default_of(I, call, s, call.tbody.ty(fn["a"][0]), call.tbody.crate)
    return res


def _map(ty, which, keep_wrap):
    """map / map_err / and_then / or_else: apply to the payload of variant `which`."""

    def f(I, call, st, fn, args):
        res = []
        for v, p, s in I.cases(st, args[0], ty):
            if v == which:
                a = [p] if p is not None else []
                if keep_wrap:
                    res += bind(I.invoke(call, s, args[1], a), lambda y, s2, v=v: R(adt(ty, v, y), s2))
                else:
                    res += I.invoke(call, s, args[1], a)
            else:
                res += R(adt(ty, v, p) if p is not None else adt(ty, v), s)
        return res

    return f


TABLE[OPT + "::map"] = _map(OPT, "Some", True)
TABLE[OPT + "::and_then"] = _map(OPT, "Some", False)
TABLE[OPT + "::or_else"] = _map(OPT, "None", False)
TABLE[RES + "::map"] = _map(RES, "Ok", True)
TABLE[RES + "::map_err"] = _map(RES, "Err", True)
TABLE[RES + "::and_then"] = _map(RES, "Ok", False)
TABLE[RES + "::or_else"] = _map(RES, "Err", False)
TABLE[POLL + "::map"] = _map(POLL, "Ready", True)


@m("core::option::Option::map_or", "core::result::Result::map_or", "core::option::Option::map_or_else", "core::result::Result::map_or_else")
def map_or(I, call, st, fn, args):
    ty = OPT if "option" in fn["path"] else RES
    res = []
    for v, p, s in I.cases(st, args[0], ty):
        if v in ("Some", "Ok"):
            res += I.invoke(call, s, args[2], [p])
        elif fn["name"] == "map_or":
            res += R(args[1], s)
        else:
            res += I.invoke(call, s, args[1], [] if ty == OPT else [p])
    return res


@m("core::option::Option::filter")
def opt_filter(I, call, st, fn, args):
    res = []
    for v, p, s in I.cases(st, args[0], OPT):
        if v == "None":
            res += R(NONE, s)
            continue
        root = ("T", call.fr, call.bb)
        s.mem[root] = p
        for o in I.invoke(call, s, args[1], [mk("ref", root, ())]):
            if o.kind != "ret":
                res.append(o)
                continue
            o.st.mem.pop(root, None)
            for val in (True, False):
                s2 = o.st.copy()
                if I.assume(s2, o.val, val):
                    res += R(some(p) if val else NONE, s2)
    return res


@m("core::option::Option::inspect", "core::result::Result::inspect", "core::result::Result::inspect_err")
def inspect(I, call, st, fn, args):
    ty = OPT if "option" in fn["path"] else RES
    hit = "Some" if ty == OPT else ("Err" if fn["name"] == "inspect_err" else "Ok")
    res = []
    for v, p, s in I.cases(st, args[0], ty):
        w = adt(ty, v, p) if p is not None else adt(ty, v)
        if v != hit:
            res += R(w, s)
            continue
        root = ("T", call.fr, call.bb)
        s.mem[root] = p
        res += bind(I.invoke(call, s, args[1], [mk("ref", root, ())]), lambda y, s2, w=w: R(w, s2))
    return res


@m("core::result::Result::ok")
def res_ok(I, call, st, fn, args):
    return [Out("ret", some(p) if v == "Ok" else NONE, s) for v, p, s in I.cases(st, args[0], RES)]


@m("core::result::Result::err")
def res_err(I, call, st, fn, args):
    return [Out("ret", some(p) if v == "Err" else NONE, s) for v, p, s in I.cases(st, args[0], RES)]


@m("core::option::Option::ok_or")
def ok_or(I, call, st, fn, args):
    return [Out("ret", ok(p) if v == "Some" else err(args[1]), s) for v, p, s in I.cases(st, args[0], OPT)]


@m("core::option::Option::ok_or_else")
def ok_or_else(I, call, st, fn, args):
    res = []
    for v, p, s in I.cases(st, args[0], OPT):
        if v == "Some":
            res += R(ok(p), s)
        else:
            res += bind(I.invoke(call, s, args[1], []), lambda y, s2: R(err(y), s2))
    return res


@m("core::option::Option::and", "core::result::Result::and")
def and_(I, call, st, fn, args):
    ty = OPT if "option" in fn["path"] else RES
    return [Out("ret", args[1] if v in ("Some", "Ok") else (adt(ty, v, p) if p is not None else NONE), s) for v, p, s in I.cases(st, args[0], ty)]


@m("core::option::Option::or", "core::result::Result::or")
def or_(I, call, st, fn, args):
    ty = OPT if "option" in fn["path"] else RES
    return [Out("ret", adt(ty, v, p) if v in ("Some", "Ok") else args[1], s) for v, p, s in I.cases(st, args[0], ty)]


@m("core::option::Option::transpose")
def opt_transpose(I, call, st, fn, args):
    res = []
    for v, p, s in I.cases(st, args[0], OPT):
        if v == "None":
            res += R(ok(NONE), s)
        else:
            res += [Out("ret", ok(some(p2)) if v2 == "Ok" else err(p2), s2) for v2, p2, s2 in I.cases(s, p, RES)]
    return res


@m("core::result::Result::transpose")
def res_transpose(I, call, st, fn, args):
    res = []
    for v, p, s in I.cases(st, args[0], RES):
        if v == "Err":
            res += R(some(err(p)), s)
        else:
            res += [Out("ret", some(ok(p2)) if v2 == "Some" else NONE, s2) for v2, p2, s2 in I.cases(s, p, OPT)]
    return res


@m("core::option::Option::flatten", "core::result::Result::flatten")
def flatten(I, call, st, fn, args):
    ty = OPT if "option" in fn["path"] else RES
    return [Out("ret", p if v in ("Some", "Ok") else adt(ty, v, *([p] if p is not None else [])), s) for v, p, s in I.cases(st, args[0], ty)]


@m("anyhow::Context::context", "anyhow::Context::with_context", "anyhow::context::context", "anyhow::context::with_context")
def context(I, call, st, fn, args):
    ty = call.tbody.ty(fn["a"][0]).get("d", "") if fn.get("a") else RES
    if ty.startswith(OPT):
        return [Out("ret", ok(p) if v == "Some" else err(mk("pure", "anyhow", ())), s) for v, p, s in I.cases(st, args[0], OPT)]
    return [Out("ret", ok(p) if v == "Ok" else err(mk("pure", "anyhow::context", (p,))), s) for v, p, s in I.cases(st, args[0], RES)]


@m("anyhow::__private::format_err", "anyhow::error::msg", "anyhow::kind::Adhoc::new", "anyhow::kind::Trait::new", "anyhow::kind::AdhocKind::anyhow_kind", "anyhow::kind::TraitKind::anyhow_kind", "alloc::fmt::format", "core::time::Duration::from_secs", "core::time::Duration::from_millis", "core::mem::size_of",
   "core::ops::range::RangeInclusive::new", "core::ops::range::RangeInclusive::start", "core::ops::range::RangeInclusive::end", "core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp", "core::cmp::Ord::max", "core::cmp::Ord::min", "core::any::type_name", "alloc::vec::Vec::new",
   "core::num::nonzero::NonZero::new", "core::num::nonzero::NonZero::new_unchecked")
def pure(I, call, st, fn, args):
    return R(I.pure(st, strip_generics(fn["path"]), args), st)


@m("core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::panic_display", "core::panicking::unreachable_display", "std::rt::panic_fmt", "core::panicking::panic_explicit", "core::option::expect_failed", "core::option::unwrap_failed", "std::process::abort", "core::panicking::assert_failed", "std::panic::resume_unwind", "core::result::unwrap_failed", "std::rt::begin_panic")
def panic(I, call, st, fn, args):
    return [Out("panic", UNIT, st)]


@m("std::panic::catch_unwind")
def catch_unwind(I, call, st, fn, args):
    res = []
    caught = mk("param", "$panic")
    for o in I.invoke(call, st.copy(), args[0], []):
        if o.kind == "ret":
            res += R(ok(o.val), o.st)
        elif o.kind == "panic":
            res += R(err(caught), o.st)
        else:
            res.append(o)
    s = st.copy()
    I.emit("unwind", "", (), caught, s, call.fr, call.body, call.bb)
    res += R(err(caught), s)
    return res


@m("core::bool::then", "core::bool::then_some")
def bool_then(I, call, st, fn, args):
    res = []
    for val in (True, False):
        s = st.copy()
        if I.assume(s, args[0], val):
            if not val:
                res += R(NONE, s)
            elif fn["name"] == "then_some":
                res += R(some(args[1]), s)
            else:
                res += bind(I.invoke(call, s, args[1], []), lambda y, s2: R(some(y), s2))
    return res


# ----------------------------------------------------------------------------- iterators

ITER = "core::iter::traits::iterator::Iterator::"
for _n in ("map", "enumerate", "filter", "filter_map", "inspect", "chain", "zip", "skip", "rev", "take_while", "skip_while", "map_while", "step_by"):
    TABLE[ITER + _n] = (lambda n: lambda I, call, st, fn, args: R(lazy("i_" + n, *args), st))(_n)


def upto(lo, hi):
    return mk("agg", "adt:core::ops::range::Range", 0, "Range", (lo, hi))


@m("core::iter::sources::repeat_n::repeat_n")
def repeat_n(I, call, st, fn, args):
    return R(lazy("i_as", upto(intn(0), args[1]), args[0]), st)


@m("core::iter::sources::repeat::repeat", "core::iter::sources::repeat_with::repeat_with")
def repeat(I, call, st, fn, args):
    return R(lazy("i_" + fn["name"], *args), st)


@m(ITER + "take")
def take(I, call, st, fn, args):
    """The first of what is repeated without end, or the first ones of any iterator."""
    v = args[0]
    if is_lazy(v) and v.a[0] == "lazy:i_repeat":
        return R(lazy("i_as", upto(intn(0), args[1]), fields(v)[0]), st)
    if is_lazy(v) and v.a[0] == "lazy:i_repeat_with":
        return R(lazy("i_with", upto(intn(0), args[1]), fields(v)[0]), st)
    return R(lazy("i_take", *args), st)


@m(ITER + "next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def iter_next_m(I, call, st, fn, args):
    v = I.deref_all(st, args[0])
    if v.tag in ("moved", "uninit", "bottom"):
        return []
    if is_lazy(v) and v.a[0].startswith("lazy:i_"):
        return iter_next(I, call, st, v)
    if back(fn) or args[0].tag != "ref":
        return None
    at = args[0]
    while I.read(st, at.a[0], at.a[1]).tag == "ref":
        at = I.read(st, at.a[0], at.a[1])
    return range_next(I, call, st, v, at.a)


@m("core::slice::len")
def slice_len(I, call, st, fn, args):
    """The length of a slice that does not change."""
    v = I.deref_all(st, args[0])
    if v.tag == "param" or v.tag == "pure" and not v.a[1]:
        return R(mk("pure", "len", (v,)), st)
    return I.opaque_call(call, st, fn["path"], args, fn)


RI = "core::ops::range::RangeInclusive::"


@m(ITER + "count", "core::iter::traits::exact_size::ExactSizeIterator::len")
def count_of(I, call, st, fn, args):
    """How many numbers there are in a range that is not empty."""
    v = I.deref_all(st, args[0])
    t = call.body.ty(call.t["at"][0])["s"] if call.t.get("at") else ""
    if v.tag == "agg" and v.a[0] == "adt:core::ops::range::Range":
        lo, hi = fields(v)
        return R(I.binop(st, "Sub", hi, lo), st)
    if v.tag == "pure" and v.a[0] == RI + "new":
        lo, hi = v.a[1]
    elif t.lstrip("&mut ").startswith("core::ops::range::RangeInclusive<") and opaque(v):
        lo, hi = (I.pure(st, RI + n, (v,)) for n in ("start", "end"))
    else:
        return I.opaque_call(call, st, fn["path"], args, fn)
    return R(I.binop(st, "Add", I.binop(st, "Sub", hi, lo), intn(1)), st)


def back(fn):
    return fn is None or "next_back" in fn["path"]


def range_next(I, call, st, v, at):
    """The next number of a range that is kept at `at`."""
    if v.tag == "agg" and v.a[0] == "adt:core::ops::range::Range":
        lo, hi = fields(v)
        more = I.binop(st, "Lt", lo, hi)
        rest = lambda x: mk("agg", v.a[0], v.a[1], v.a[2], (x, hi))  # noqa
    elif v.tag == "agg" and v.a[0] == "adt:core::ops::range::RangeFrom":
        (lo,) = fields(v)
        more = TRUE
        rest = lambda x: mk("agg", v.a[0], v.a[1], v.a[2], (x,))  # noqa
    elif v.tag == "pure" and v.a[0] == "core::ops::range::RangeInclusive::new":
        lo, hi = v.a[1]
        more = I.binop(st, "Le", lo, hi)
        rest = lambda x: mk("pure", v.a[0], (x, hi))  # noqa
    else:
        return None
    res = []
    s = st.copy()
    if I.assume(s, more, True):
        I.write(s, at[0], at[1], rest(I.binop(s, "Add", lo, intn(1))))
        if I.emit("call", "core::iter::range::next", (v,), some(lo), s, call.fr, call.body, call.bb, ((), None)):
            res += R(some(lo), s)
    s = st.copy()
    if I.assume(s, more, False):
        if I.emit("call", "core::iter::range::end", (v,), NONE, s, call.fr, call.body, call.bb, ((), None)):
            res += R(NONE, s)
    return res


def iter_next(I, call, st, v, extra=()):
    """The next item of an iterator: outcomes with an Option."""
    v = I.deref_all(st, v)
    if is_lazy(v):
        k = v.a[0][7:]
        a = fields(v)
        if k == "map":
            return bind(iter_next(I, call, st, a[0], extra), lambda o, s: opt_apply(I, call, s, o, lambda x, s2: bind(I.invoke(call, s2, a[1], [x]), lambda y, s3: R(some(y), s3))))
        if k == "repeat":
            return R(some(a[0]), st)
        if k == "repeat_with":
            return bind(I.invoke(call, st, a[0], []), lambda y, s: R(some(y), s))
        if k in ("as", "with"):
            return bind(iter_next(I, call, st, a[0], extra), lambda o, s: opt_apply(I, call, s, o, lambda x, s2: R(some(a[1]), s2) if k == "as" else bind(I.invoke(call, s2, a[1], []), lambda y, s3: R(some(y), s3))))
        if k == "enumerate":
            src = I.resolve(st, a[0])
            return bind(iter_next(I, call, st, a[0], extra), lambda o, s: opt_apply(I, call, s, o, lambda x, s2: R(some(mk("agg", "tuple", 0, "", (mk("pure", "index", (x,)), x))), s2)))
        if k == "rev":
            return iter_next(I, call, st, a[0], extra)
        nx = lambda s: iter_next(I, call, s, a[0], extra)  # noqa
        if k == "inspect":
            return bind(nx(st), lambda o, s: opt_apply(I, call, s, o, lambda x, s2: bind(I.invoke(call, s2, a[1], [tmp(call, s2, x)]), lambda y, s3: R(some(x), s3))))
        if k in ("filter", "filter_map"):
            return filtered(I, call, st, nx, a[1], k == "filter", sync=True)
        if k == "take":
            return R(NONE, st.copy()) + nx(st)
        if k in ("take_while", "map_while"):
            return bind(nx(st), lambda o, s: opt_apply(I, call, s, o, lambda x, s2: while_(I, call, s2, a[1], x, k == "take_while")))
        if k in ("skip", "skip_while", "step_by"):
            return nx(st.copy()) + bind(nx(st), lambda o, s: opt_apply(I, call, s, o, lambda x, s2: nx(s2)))
        if k == "chain":
            return iter_next(I, call, st.copy(), a[0], extra + (0,)) + iter_next(I, call, st.copy(), a[1], extra + (1,))
        if k == "zip":
            return bind(iter_next(I, call, st, a[0], extra + (0,)), lambda o, s: opt_apply(I, call, s, o, lambda x, s2: bind(iter_next(I, call, s2, a[1], extra + (1,)), lambda o2, s3: opt_apply(I, call, s3, o2, lambda y, s4: R(some(mk("agg", "tuple", 0, "", (x, y))), s4)))))
    site = I.site(call.c, call.body, call.bb, ("iter",) + extra)
    r = I.ret(st, site, ITER + "next", (I.resolve(st, v),))
    if not I.emit("call", ITER + "next", (I.resolve(st, v),), r, st, call.fr, call.body, call.bb, ((), None)):
        return []
    if v.tag == "agg" and v.a[0] == "adt:core::ops::range::RangeFrom":
        st = st.copy()
        if not I.assume_variant(st, r, "Some"):
            return []
    return R(r, st)


def tmp(call, st, x):
    """A reference to a temporary that holds `x`."""
    root = ("T", call.fr, call.bb)
    st.mem[root] = x
    return mk("ref", root, ())


def while_(I, call, st, f, x, boolean):
    res = []
    for o in I.invoke(call, st, f, [tmp(call, st, x) if boolean else x]):
        if o.kind != "ret" or not boolean:
            res.append(o)
            continue
        for val in (True, False):
            s = o.st.copy()
            if I.assume(s, o.val, val):
                res += R(some(x) if val else NONE, s)
    return res


def opt_apply(I, call, st, o, f):
    res = []
    for v, p, s in I.cases(st, o, OPT):
        if v == "None":
            res += R(NONE, s)
        else:
            res += f(p, s)
    return res


@m(ITER + "collect")
def collect(I, call, st, fn, args):
    v = I.deref_all(st, args[0])
    if not is_lazy(v):
        return None
    src = I.resolve(st, v)
    res = []
    for o in iter_next(I, call, st, v):
        if o.kind != "ret":
            res.append(o)
            continue
        for nm, p, s in I.cases(o.st, o.val, OPT):
            site = I.site(call.c, call.body, call.bb)
            if nm == "Some":
                res += R(I.ret(s, site, ITER + "collect", (src, I.resolve(s, p))), s)
            else:
                res += R(I.ret(s, site, ITER + "collect", (src,)), s)
    return res


@m(ITER + "for_each", ITER + "try_for_each")
def iter_for_each(I, call, st, fn, args):
    tr = fn["name"] == "try_for_each"

    def step(s):
        return iter_next(I, call, s, args[0])

    def body(x, s):
        return I.invoke(call, s, args[1], [x])

    return loop(I, call, st, step, body, tr)


def loop(I, call, st, step, body, is_try, tolist=None):
    """Run `body` for the items `step` yields, to a fixpoint."""
    done = []
    seen = set()
    work = [st]
    while work:
        s = work.pop()
        k = s.key()
        if k in seen:
            continue
        seen.add(k)
        for o in step(s.copy()):
            if o.kind != "ret":
                done.append(o)
                continue
            for v, p, s2 in I.cases(o.st, o.val, OPT):
                if v == "None":
                    done.append(Out("ret", ok(UNIT) if is_try else UNIT, s2))
                    continue
                for o2 in body(p, s2):
                    if o2.kind != "ret":
                        done.append(o2)
                        continue
                    if not is_try:
                        forget(I, call, o2.st)
                        work.append(o2.st)
                        continue
                    for v3, p3, s3 in I.cases(o2.st, o2.val, RES):
                        if v3 == "Err":
                            done.append(Out("ret", err(p3), s3))
                        else:
                            forget(I, call, s3)
                            work.append(s3)
    return done


def forget(I, call, st):
    """Between iterations: drop the facts about what nothing refers to any more."""
    from absint import deps_of

    deps = set()
    for k, v in st.mem.items():
        deps |= v.deps
    deps |= deps_of(st.mon)
    for n in [n for n in st.facts if not n.deps <= deps]:
        del st.facts[n]
    for k in [k for k in st.mem if k[0] in ("O", "O*") and not k[1].deps <= deps]:
        del st.mem[k]


# ----------------------------------------------------------------------------- map entries

ENTRIES = {"dashmap::mapref::entry::Entry": "dashmap::mapref::entry::", "std::collections::hash::map::Entry": "std::collections::hash::map::",
           "alloc::collections::btree::map::entry::Entry": "alloc::collections::btree::map::entry::"}


def entry_or(path, base):
    def f(I, call, st, fn, args):
        n = I.deref_all(st, args[0])
        res = []
        for v in ("Occupied", "Vacant"):
            s = st.copy()
            if not I.assume_variant(s, n, v):
                continue
            p = mk("vf", n, v, "0")
            if v == "Occupied":
                res += I.opaque_call(call, s, base + "OccupiedEntry::get", [p], fn)
                continue
            if fn["name"] == "or_insert":
                new = R(args[1], s)
            elif fn["name"] == "or_default":
                new = R(I.pure(s, "default", ()), s)
            else:
                new = I.invoke(call, s, args[1], [] if fn["name"] != "or_insert_with_key" else [p])
            tr = fn["name"] in ("or_try_insert_with",)

            def ins(y, s2):
                if not tr:
                    return bind(I.opaque_call(call, s2, base + "VacantEntry::insert", [p, y], fn), lambda r, s3: R(I.deref_all(s3, y), s3))
                out = []
                for vn, q, s3 in I.cases(s2, y, RES):
                    out += R(err(q), s3) if vn == "Err" else bind(I.opaque_call(call, s3, base + "VacantEntry::insert", [p, q], fn), lambda r, s4: R(ok(I.deref_all(s4, q)), s4))
                return out

            res += bind(new, ins)
        return res

    return f


for _p, _b in ENTRIES.items():
    for _n in ("or_insert", "or_insert_with", "or_default", "or_insert_with_key", "or_try_insert_with"):
        TABLE[_p + "::" + _n] = entry_or(_p, _b)


def entry_insert(path):
    """Inserting into a vacant entry gives a reference to what is inserted."""
    return lambda I, call, st, fn, args: bind(I.opaque_call(call, st, path, args, fn), lambda r, s: R(I.deref_all(s, args[1]), s))


for _b in ENTRIES.values():
    TABLE[_b + "VacantEntry::insert"] = entry_insert(_b + "VacantEntry::insert")

# ----------------------------------------------------------------------------- futures

FE = "futures_util::future::future::FutureExt::"
TFE = "futures_util::future::try_future::TryFutureExt::"
for _n in ("map", "then", "catch_unwind", "inspect"):
    TABLE[FE + _n] = (lambda n: lambda I, call, st, fn, args: R(lazy("f_" + n, *args), st))(_n)
for _n in ("map_ok", "map_err", "and_then", "or_else", "err_into", "inspect_err", "inspect_ok", "unwrap_or_else", "map_ok_or_else"):
    TABLE[TFE + _n] = (lambda n: lambda I, call, st, fn, args: R(lazy("tf_" + n, *args), st))(_n)
for _p in ("core::future::ready::ready", "futures_util::future::ready::ready"):
    TABLE[_p] = lambda I, call, st, fn, args: R(lazy("ready", args[0]), st)
TABLE["futures_util::future::ready::ok"] = lambda I, call, st, fn, args: R(lazy("ready", ok(args[0])), st)
TABLE["futures_util::future::ready::err"] = lambda I, call, st, fn, args: R(lazy("ready", err(args[0])), st)
for _p in ("futures_util::future::pending::pending", "core::future::pending::pending"):
    TABLE[_p] = lambda I, call, st, fn, args: R(lazy("pending"), st)
for _p in ("core::future::poll_fn::poll_fn", "futures_util::future::poll_fn::poll_fn"):
    TABLE[_p] = lambda I, call, st, fn, args: R(lazy("poll_fn", args[0]), st)
for _p in ("tokio::future::maybe_done::maybe_done", "futures_util::future::maybe_done::maybe_done"):
    TABLE[_p] = lambda I, call, st, fn, args: R(lazy("maybe_done", args[0]), st)
TABLE["tokio::time::timeout::timeout"] = lambda I, call, st, fn, args: R(lazy("timeout", args[1]), st)
for _n in ("join", "try_join"):
    for _p in ("futures_util::future::%s::%s" % (_n, _n),):
        TABLE[_p] = (lambda n: lambda I, call, st, fn, args: R(lazy("fn_" + n, *args), st))(_n)
TABLE["futures_util::future::select::select"] = lambda I, call, st, fn, args: R(lazy("fn_select", *args), st)
for _n in ("join_all", "try_join_all"):
    TABLE["futures_util::future::%s::%s" % (_n, _n)] = (lambda n: lambda I, call, st, fn, args: R(lazy("fn_" + n, *args), st))(_n)
TABLE["futures_util::future::future::FutureExt::join"] = None
del TABLE["futures_util::future::future::FutureExt::join"]

SE = "futures_util::stream::stream::StreamExt::"
TSE = "futures_util::stream::try_stream::TryStreamExt::"
for _n in ("map", "then", "filter", "filter_map", "enumerate", "inspect", "take", "skip", "chain", "take_while", "take_until"):
    TABLE[SE + _n] = (lambda n: lambda I, call, st, fn, args: R(lazy("s_" + n, *args), st))(_n)
for _n in ("buffered", "buffer_unordered"):
    TABLE[SE + _n] = (lambda n: lambda I, call, st, fn, args: R(lazy("s_buffered", args[0]), st))(_n)
for _n in ("map_ok", "map_err", "and_then", "or_else", "err_into", "try_filter_map"):
    TABLE[TSE + _n] = (lambda n: lambda I, call, st, fn, args: R(lazy("ts_" + n, *args), st))(_n)
TABLE["futures_util::stream::iter::iter"] = lambda I, call, st, fn, args: R(lazy("s_iter", args[0]), st)
TABLE["futures_util::stream::once::once"] = lambda I, call, st, fn, args: R(lazy("s_once", args[0]), st)
TABLE["futures_util::stream::select::select"] = lambda I, call, st, fn, args: R(lazy("s_select", args[0], args[1]), st)
TABLE["futures_util::stream::empty::empty"] = lambda I, call, st, fn, args: R(lazy("s_empty"), st)
TABLE["futures_util::stream::unfold::unfold"] = lambda I, call, st, fn, args: R(lazy("s_unfold", args[0], args[1]), st)
TABLE[SE + "next"] = lambda I, call, st, fn, args: R(lazy("next", args[0]), st)
TABLE[TSE + "try_next"] = lambda I, call, st, fn, args: R(lazy("try_next", args[0]), st)
for _n in ("for_each", "collect", "fold"):
    TABLE[SE + _n] = (lambda n: lambda I, call, st, fn, args: R(lazy("loop_" + n, *args), st))(_n)
TABLE[SE + "for_each_concurrent"] = lambda I, call, st, fn, args: R(lazy("loop_for_each", args[0], args[2]), st)
for _n in ("try_for_each", "try_collect", "try_fold"):
    TABLE[TSE + _n] = (lambda n: lambda I, call, st, fn, args: R(lazy("loop_" + n, *args), st))(_n)
TABLE[TSE + "try_for_each_concurrent"] = lambda I, call, st, fn, args: R(lazy("loop_try_for_each", args[0], args[2]), st)


@m("futures_util::stream::stream::StreamExt::poll_next_unpin")
def poll_next_unpin(I, call, st, fn, args):
    # as `Stream::poll_next`
    v = I.deref_all(st, args[0])
    if v.tag == "agg" and v.a[0].startswith("adt:"):
        b = I.p.impl_method("futures_core::stream::Stream", v.a[0][4:], "poll_next")
        if b is not None:
            return I.enter(call, st, b, args)
    if is_stream(v):
        return poll_lazy_stream(I, call, st, args[0])
    return I.opaque_call(call, st, "futures_core::stream::Stream::poll_next", args, fn)


@m("futures_core::stream::Stream::poll_next")
def stream_poll_next(I, call, st, fn, args):
    v = I.deref_all(st, args[0])
    return poll_lazy_stream(I, call, st, args[0]) if is_stream(v) else None


def is_stream(v):
    return is_lazy(v) and v.a[0][5:].startswith(("s_", "ts_"))


def poll_lazy_stream(I, call, st, src):
    """A stream made of combinators is polled: it has an item, or it is pending."""
    return R(PENDING, st.copy()) + bind(stream_next(I, call, st, src), lambda x, s: R(adt(POLL, "Ready", x), s))


def run_lazy(I, call, st, v):
    k = v.a[0][5:]
    a = fields(v)
    if k == "ready":
        return R(a[0], st)
    if k == "pending":
        I.pre = (None, None, None, None)
        I.emit("await", "futures_util::future::pending::pending", (), UNIT, st, call.fr, call.body, call.bb, None)
        return [Out("suspend", UNIT, st)] if I.cancel else []
    if k == "maybe_done":
        return I.run_future(call, st, a[0])
    if k == "poll_fn":
        return run_poll_fn(I, call, st, a[0])
    if k == "timeout":
        res = bind(I.run_future(call, st.copy(), a[0]), lambda x, s: R(ok(x), s))
        elapsed = mk("param", "$elapsed")
        for s in prefixes(I, call, st, a[0]):
            res += R(err(elapsed), s)
        return res
    if k.startswith("f_"):
        def f(x, s):
            if k == "f_map":
                return I.invoke(call, s, a[1], [x])
            if k == "f_then":
                return bind(I.invoke(call, s, a[1], [x]), lambda y, s2: I.run_future(call, s2, y))
            if k == "f_catch_unwind":
                return R(ok(x), s)
            return R(x, s)

        outs = I.run_future(call, st, a[0])
        if k == "f_catch_unwind":
            caught = mk("param", "$panic")
            outs = [Out("ret", err(caught), o.st) if o.kind == "panic" else Out(o.kind, ok(o.val) if o.kind == "ret" else o.val, o.st) for o in outs]
            return outs + R(err(caught), st.copy())
        return bind(outs, f)
    if k.startswith("tf_"):
        n = k[3:]

        def g(x, s):
            res = []
            for vn, p, s2 in I.cases(s, x, RES):
                if n == "map_ok" and vn == "Ok":
                    res += bind(I.invoke(call, s2, a[1], [p]), lambda y, s3: R(ok(y), s3))
                elif n == "map_err" and vn == "Err":
                    res += bind(I.invoke(call, s2, a[1], [p]), lambda y, s3: R(err(y), s3))
                elif n == "and_then" and vn == "Ok" or n == "or_else" and vn == "Err":
                    res += bind(I.invoke(call, s2, a[1], [p]), lambda y, s3: I.run_future(call, s3, y))
                elif n == "unwrap_or_else":
                    res += R(p, s2) if vn == "Ok" else I.invoke(call, s2, a[1], [p])
                else:
                    res += R(adt(RES, vn, p), s2)
            return res

        return bind(I.run_future(call, st, a[0]), g)
    if k == "fn_select":
        res = []
        for i in (0, 1):
            for z in prefixes(I, arm(I, call, 1 - i), st, a[1 - i]):
                res += bind(I.run_future(arm(I, call, i), z, a[i]), lambda x, s2, i=i: R(mk("agg", "adt:futures_util::future::either::Either", i, ("Left", "Right")[i], (mk("agg", "tuple", 0, "", (x, a[1 - i])),)), s2))
        return res
    if k in ("fn_join", "fn_try_join"):
        return run_joined(I, call, st, list(a), k == "fn_try_join")
    if k in ("fn_join_all", "fn_try_join_all"):
        tr = k == "fn_try_join_all"
        outs = loop(I, call, st, lambda s: iter_next(I, call, s, a[0]), lambda x, s: I.run_future(call, s, x), tr)
        site = I.site(call.c, call.body, call.bb, "join_all")

        def fin(x, s):
            if tr and x.a[2] == "Err":
                return R(x, s)
            r = I.ret(s, site, "join_all", (I.resolve(s, a[0]),))
            return R(ok(r) if tr else r, s)

        return bind(outs, fin)
    if k == "backoff":
        return run_backoff(I, call, st, a)
    if k == "next":
        return stream_next(I, call, st, a[0])
    if k == "watch_wait":
        rx = I.resolve(st, a[0])
        gone = err(mk("param", "$recv_error"))
        res = R(gone, st.copy())
        val = watch_value(I, call, st, rx)
        if I.emit("await", "tokio::sync::watch::Receiver::wait_for", (rx, val), val, st, call.fr, call.body, call.bb):
            for o in I.invoke(call, st, a[1], [tmp(call, st, val)]):
                if o.kind != "ret":
                    res.append(o)
                elif I.assume(o.st, o.val, True):
                    res += R(ok(val), o.st)
        return res
    if k == "try_next":
        def h(x, s):
            res = []
            for vn, p, s2 in I.cases(s, x, OPT):
                if vn == "None":
                    res += R(ok(NONE), s2)
                else:
                    for v2, p2, s3 in I.cases(s2, p, RES):
                        res += R(ok(some(p2)) if v2 == "Ok" else err(p2), s3)
            return res

        return bind(stream_next(I, call, st, a[0]), h)
    if k.startswith("loop_"):
        n = k[5:]
        site = I.site(call.c, call.body, call.bb, "loop")
        src = a[0]
        if n == "for_each":
            return loop(I, call, st, lambda s: stream_next(I, call, s, src), lambda x, s: bind(I.invoke(call, s, a[1], [x]), lambda y, s2: I.run_future(call, s2, y)), False)
        if n == "try_for_each":
            def body(x, s):
                res = []
                for vn, p, s2 in I.cases(s, x, RES):
                    if vn == "Err":
                        res += R(err(p), s2)
                    else:
                        res += bind(I.invoke(call, s2, a[1], [p]), lambda y, s3: I.run_future(call, s3, y))
                return res

            return loop(I, call, st, lambda s: stream_next(I, call, s, src), body, True)
        if n in ("collect", "try_collect", "fold", "try_fold"):
            tr = n.startswith("try")
            items = {}

            def body2(x, s):
                if tr:
                    res = []
                    for vn, p, s2 in I.cases(s, x, RES):
                        res += R(ok(UNIT) if vn == "Ok" else err(p), s2)
                    return res
                return R(UNIT, s)

            rsrc = I.resolve(st, src)
            outs = loop(I, call, st, lambda s: stream_next(I, call, s, src), body2, tr)

            def fin2(x, s):
                if tr and x.a[2] == "Err":
                    return R(x, s)
                r = I.ret(s, site, "stream::" + n, (rsrc,))
                return R(ok(r) if tr else r, s)

            return bind(outs, fin2)
    return None


def prefixes(I, call, st, fut):
    """The states in which a future may be dropped before it is done."""
    if not getattr(I.rule, "cancel", False):
        return [st.copy()]
    old, I.cancel = I.cancel, True
    try:
        outs = I.run_future(call, st.copy(), fut)
    finally:
        I.cancel = old
    res = [st.copy()]
    seen = {res[0].key()}
    for o in outs:
        if o.kind == "suspend":
            k = o.st.key()
            if k not in seen:
                seen.add(k)
                res.append(o.st)
    return res


@m("core::num::nonzero::NonZero::new")
def nonzero_new(I, call, st, fn, args):
    zero = I.binop(st, "Eq", args[0], FALSE)
    res = []
    for val in (True, False):
        s = st.copy()
        if I.assume(s, zero, val):
            res += R(NONE if val else some(args[0]), s)
    return res


BACKOFF = "backoff::future::retry"
TABLE[BACKOFF] = lambda I, call, st, fn, args: R(lazy("backoff", *args), st)
TABLE[BACKOFF + "_notify"] = lambda I, call, st, fn, args: R(lazy("backoff", *args), st)


BERR = "backoff::error::Error"


@m(BERR + "::transient", BERR + "::permanent", BERR + "::retry_after")
def backoff_error(I, call, st, fn, args):
    n = fn["path"].rsplit("::", 1)[1]
    if n == "permanent":
        return R(mk("agg", "adt:" + BERR, 0, "Permanent", (args[0],)), st)
    return R(mk("agg", "adt:" + BERR, 1, "Transient", (args[0], some(args[1]) if len(args) > 1 else NONE)), st)


def run_backoff(I, call, st, a):
    """`backoff::future::retry`: an attempt; after a transient failure another one, or the end.  The
    attempts after the second are like the second."""
    kind = BERR
    term = I.resolve(st, a[0])
    res = []
    if not I.emit("backoff", "start", (term,), term, st, call.fr, call.body, call.bb):
        return []

    def attempt(j, s):
        for o in bind(I.invoke(arm(I, call, 100 + j), s, a[1], []), lambda y, s2: I.run_future(arm(I, call, 100 + j), s2, y)):
            if o.kind != "ret":
                res.append(o)
                continue
            for vn, p, s2 in I.cases(o.st, o.val, RES):
                if vn == "Ok":
                    res.extend(R(ok(p), s2))
                elif p.tag == "agg" and p.a[0] == "adt:" + kind and p.a[2] == "Permanent":
                    res.extend(R(err(fields(p)[0]), s2))
                elif p.tag == "agg" and p.a[0] == "adt:" + kind:
                    if fields(p)[1] is not NONE and not I.emit("backoff", "after", (p,), p, s2, call.fr, call.body, call.bb):
                        continue
                    failed(j, fields(p)[0], s2)
                elif p.tag == "pure" and p.a[0].startswith("From::from backoff::"):
                    failed(j, p.a[1][0], s2)
                else:
                    failed(j, mk("pure", "cause", (p,)), s2)

    def failed(j, e, s):
        s1 = s.copy()
        if I.emit("backoff", "end", (e,), e, s1, call.fr, call.body, call.bb):
            res.extend(R(err(e), s1))
        if j == 0:
            s2 = s.copy()
            if not I.emit("backoff", "again", (e,), e, s2, call.fr, call.body, call.bb):
                return
            if len(a) < 3:
                return attempt(1, s2)
            for o in I.invoke(arm(I, call, 110), s2, a[2], [e, mk("param", "$delay")]):
                if o.kind != "ret":
                    res.append(o)
                else:
                    attempt(1, o.st)

    attempt(0, st)
    return res


def arm(I, call, j):
    """The context of one of the futures that run together."""
    r = copy.copy(call)
    r.c = I.ctx(call.c, call.body, call.bb, "arm%d" % j)
    return r


def run_joined(I, call, st, futs, is_try, slots=None):
    """`join!` / `try_join!`: the futures in any order of completion; when one fails, the
    others may have got anywhere."""
    import itertools

    res = []
    n = len(futs)
    orders = list(itertools.permutations(range(n))) if n <= 3 else [tuple(range(n)), tuple(reversed(range(n)))]
    seen = set()
    for order in orders:
        work = [(0, {}, st.copy())]
        while work:
            i, got, s = work.pop()
            if i == n:
                tup = mk("agg", "tuple", 0, "", tuple(got[j] for j in range(n)))
                v = ok(tup) if is_try else tup
                k = (v, s.key())
                if k not in seen:
                    seen.add(k)
                    res += R(v, s)
                continue
            j = order[i]
            for o in I.run_future(arm(I, call, j), s, futs[j]):
                if o.kind != "ret":
                    res.append(o)
                    continue
                if not is_try:
                    work.append((i + 1, dict(got, **{}) | {j: o.val}, o.st))
                    continue
                for vn, p, s2 in I.cases(o.st, o.val, RES):
                    if vn == "Ok":
                        work.append((i + 1, got | {j: p}, s2))
                        continue
                    rest = [order[x] for x in range(i + 1, n)]
                    sts = [s2]
                    for r in rest:
                        sts = [y for z in sts for y in prefixes(I, arm(I, call, r), z, futs[r])]
                    for z in sts:
                        k = (err(p), z.key())
                        if k not in seen:
                            seen.add(k)
                            res += R(err(p), z)
    return res


def run_poll_fn(I, call, st, clo):
    """The expansions of `select!` and `join!`, recognised by the macro the closure is from."""
    c = I.deref_all(st, clo)
    if not (c.tag == "agg" and c.a[0].startswith("closure:")):
        return None
    b = I.p.bodies[c.a[0].split(":", 1)[1]]
    macros = b.span(b.raw["span"])[2]
    ups = [I.deref_all(st, u) for u in fields(c)]
    if any("select::select" in x for x in macros):
        refs = [u for u, v in zip(fields(c), ups) if is_agg(v, "tuple")]
        if not refs:
            return None
        ref = refs[0]
        tup = I.deref_all(st, ref)
        pt = b.ty(b.locals[0][0])
        outty = b.ty(pt["a"][0])
        path = strip_generics(outty["d"])
        res = []
        n = len(fields(tup))
        for i in range(n):
            sts = [st.copy()]
            for j in range(n):
                if j != i:
                    sts = [y for z in sts for y in prefixes(I, arm(I, call, j), z, sub(ref, j))]
            for s in sts:
                res += bind(I.run_future(arm(I, call, i), s, sub(ref, i)), lambda x, s2, i=i: R(mk("agg", "adt:" + path, i, "_%d" % i, (x,)), s2))
        if I.cancel:
            sts = [st.copy()]
            for j in range(n):
                sts = [y for z in sts for y in prefixes(I, arm(I, call, j), z, sub(ref, j))]
            res += [Out("suspend", UNIT, s) for s in sts]
        return res
    tj = [x for x in macros if x.endswith(("try_join::try_join", "join::join", "try_join_internal", "join_internal"))]
    if tj:
        is_try = any("try_join" in x for x in tj)
        futs = []
        for u in fields(c):
            futs += find_futs(I, st, u)
        if futs:
            return run_joined(I, call, st, futs, is_try)
        return None
    # some other closure: until it is ready
    res = []
    for o in I.invoke(call, st, clo, [CTX]):
        if o.kind == "ret":
            for vn, p, s in I.cases(o.st, o.val, POLL):
                if vn == "Ready":
                    res += R(p, s)
        else:
            res.append(o)
    return res


def sub(ref, i):
    if ref.tag == "ref":
        return mk("ref", ref.a[0], ref.a[1] + (("f", i, None),))
    return fields(ref)[i]


def find_futs(I, st, u):
    """References to the `maybe_done` futures among a captured value."""
    v = u
    where = None
    while v.tag == "ref":
        where = v
        v = I.read(st, v.a[0], v.a[1])
    if v.tag == "agg" and v.a[0] == "lazy:maybe_done":
        return [where if where is not None else v]
    if v.tag == "agg" and v.a[0] == "tuple":
        res = []
        for i, x in enumerate(fields(v)):
            res += find_futs(I, st, mk("ref", where.a[0], where.a[1] + (("f", i, None),)) if where is not None else x)
        return res
    return []


# ----------------------------------------------------------------------------- streams


def ending(I, outs, then):
    """Outcomes with an Option, where `then` follows an end."""
    res = []
    for o in outs:
        if o.kind != "ret":
            res.append(o)
            continue
        for nm, p, s in I.cases(o.st, o.val, OPT):
            res += then(s) if nm == "None" else R(some(p), s)
    return res


def stream_next(I, call, st, src, extra=()):
    """The next item of a stream: outcomes with an Option."""
    v = I.deref_all(st, src)
    if v.tag in ("moved", "uninit", "bottom"):
        return []
    if is_lazy(v):
        k = v.a[0][5:]
        a = fields(v)
        nx = lambda s, x=None: stream_next(I, call, s, a[0], extra)  # noqa
        if k == "s_map":
            return bind(nx(st), lambda o, s: opt_apply(I, call, s, o, lambda x, s2: bind(I.invoke(call, s2, a[1], [x]), lambda y, s3: R(some(y), s3))))
        if k == "s_then":
            return bind(nx(st), lambda o, s: opt_apply(I, call, s, o, lambda x, s2: bind(I.invoke(call, s2, a[1], [x]), lambda y, s3: bind(I.run_future(call, s3, y), lambda z, s4: R(some(z), s4)))))
        if k == "s_buffered":
            return bind(nx(st), lambda o, s: opt_apply(I, call, s, o, lambda x, s2: bind(I.run_future(call, s2, x), lambda z, s3: R(some(z), s3))))
        if k in ("s_filter_map", "s_filter"):
            return filtered(I, call, st, nx, a[1], k == "s_filter")
        if k in ("ts_map_ok", "ts_map_err", "ts_and_then", "ts_or_else", "ts_err_into"):
            n = k[3:]

            def g(x, s):
                res = []
                for vn, p, s2 in I.cases(s, x, RES):
                    if n == "map_ok" and vn == "Ok":
                        res += bind(I.invoke(call, s2, a[1], [p]), lambda y, s3: R(some(ok(y)), s3))
                    elif n == "map_err" and vn == "Err":
                        res += bind(I.invoke(call, s2, a[1], [p]), lambda y, s3: R(some(err(y)), s3))
                    elif n == "and_then" and vn == "Ok" or n == "or_else" and vn == "Err":
                        res += bind(I.invoke(call, s2, a[1], [p]), lambda y, s3: bind(I.run_future(call, s3, y), lambda z, s4: R(some(z), s4)))
                    else:
                        res += R(some(adt(RES, vn, p)), s2)
                return res

            return bind(nx(st), lambda o, s: opt_apply(I, call, s, o, g))
        if k == "s_enumerate":
            return bind(nx(st), lambda o, s: opt_apply(I, call, s, o, lambda x, s2: R(some(mk("agg", "tuple", 0, "", (mk("pure", "index", (x,)), x))), s2)))
        if k == "s_inspect":
            return bind(nx(st), lambda o, s: opt_apply(I, call, s, o, lambda x, s2: bind(I.invoke(call, s2, a[1], [tmp(call, s2, x)]), lambda y, s3: R(some(x), s3))))
        if k in ("s_take", "s_take_while", "s_take_until"):
            return R(NONE, st.copy()) + nx(st)
        if k == "s_skip":
            return nx(st.copy()) + bind(nx(st), lambda o, s: opt_apply(I, call, s, o, lambda x, s2: nx(s2)))
        if k == "s_iter":
            return iter_next(I, call, st, a[0], extra)
        if k == "s_once":
            return R(NONE, st.copy()) + bind(I.run_future(call, st.copy(), a[0]), lambda x, s: R(some(x), s))
        if k in ("s_select", "s_chain"):
            # it ends when both have ended
            snd = lambda s: stream_next(I, call, s, a[1], extra + (1,))  # noqa
            res = ending(I, stream_next(I, call, st.copy(), a[0], extra + (0,)), snd)
            return res + (ending(I, snd(st.copy()), lambda s: []) if k == "s_select" else [])
        if k == "s_empty":
            return R(NONE, st)
    if v.tag == "agg" and v.a[0].startswith("adt:"):
        b = I.p.impl_method("futures_core::stream::Stream", v.a[0][4:], "poll_next")
        if b is not None and not (I.rule is not None and I.rule.is_opaque(b.spath, b.spath, {})):
            res = []
            for o in I.enter(call, st, b, [src if src.tag == "ref" else v, CTX]):
                if o.kind == "ret":
                    for vn, p, s in I.cases(o.st, o.val, POLL):
                        if vn == "Ready":
                            res += R(p, s)
                else:
                    res.append(o)
            return res
    site = I.site(call.c, call.body, call.bb, ("next",) + extra)
    rv = I.resolve(st, v)
    outs = []
    if I.cancel:
        outs.append(Out("suspend", UNIT, st.copy()))
    r = I.ret(st, site, SE + "next", (rv,))
    if I.emit("await", SE + "next", (rv,), r, st, call.fr, call.body, call.bb, r):
        outs += R(r, st)
    return outs


def filtered(I, call, st, nx, f, boolean, sync=False):
    done = []
    seen = set()
    work = [st]
    while work:
        s = work.pop()
        k = s.key()
        if k in seen:
            continue
        seen.add(k)
        for o in nx(s.copy()):
            if o.kind != "ret":
                done.append(o)
                continue
            for v, p, s2 in I.cases(o.st, o.val, OPT):
                if v == "None":
                    done += R(NONE, s2)
                    continue
                if boolean:
                    root = ("T", call.fr, call.bb)
                    s2.mem[root] = p
                    arg = mk("ref", root, ())
                else:
                    arg = p
                for o2 in bind(I.invoke(call, s2, f, [arg]), lambda y, s3: R(y, s3) if sync else I.run_future(call, s3, y)):
                    if o2.kind != "ret":
                        done.append(o2)
                        continue
                    if boolean:
                        for val in (True, False):
                            s4 = o2.st.copy()
                            if I.assume(s4, o2.val, val):
                                if val:
                                    done += R(some(p), s4)
                                else:
                                    forget(I, call, s4)
                                    work.append(s4)
                        continue
                    for v3, p3, s3 in I.cases(o2.st, o2.val, OPT):
                        if v3 == "Some":
                            done += R(some(p3), s3)
                        else:
                            forget(I, call, s3)
                            work.append(s3)
    return done


# ----------------------------------------------------------------------------- watch channels

WATCH = "tokio::sync::watch::Sender::"


def watch_set(I, call, st, tx, old, new, modified):
    """A write to a watch channel: an event (sender, old value, new value, whether receivers are told)."""
    return I.emit("watch", WATCH + "set", tuple(I.resolve(st, x) for x in (tx, old, new, modified)), UNIT, st, call.fr, call.body, call.bb)


def watch_value(I, call, st, tx):
    v = I.ret(st, I.site(call.c, call.body, call.bb, "watch"), "watch::value", (I.resolve(st, tx),))
    I.emit("watch", WATCH + "read", (I.resolve(st, tx),), v, st, call.fr, call.body, call.bb)
    return v


@m(WATCH + "send_if_modified", WATCH + "send_modify")
def watch_modify(I, call, st, fn, args):
    cond = strip_generics(fn["path"]).endswith("send_if_modified")
    old = watch_value(I, call, st, args[0])
    r = tmp(call, st, old)
    res = []
    for o in I.invoke(call, st, args[1], [r]):
        if o.kind != "ret":
            res.append(o)
            continue
        new = I.deref_all(o.st, r)
        for val in (True, False) if cond else (True,):
            s = o.st.copy()
            if (not cond or I.assume(s, o.val, val)) and watch_set(I, call, s, args[0], old, new, TRUE if val else FALSE):
                res += R((TRUE if val else FALSE) if cond else UNIT, s)
    return res


@m("tokio::sync::watch::Receiver::wait_for")
def watch_wait_for(I, call, st, fn, args):
    return R(lazy("watch_wait", args[0], args[1]), st)


@m(WATCH + "send", WATCH + "send_replace")
def watch_send(I, call, st, fn, args):
    old = watch_value(I, call, st, args[0])
    plain = strip_generics(fn["path"]).endswith("::send")
    res = []
    if plain:
        s = st.copy()
        res += R(err(mk("param", "$send_error")), s)
    if watch_set(I, call, st, args[0], old, args[1], TRUE):
        res += R(ok(UNIT) if plain else old, st)
    return res


# ----------------------------------------------------------------------------- tasks


SPAWNED = {"tokio::task::spawn::spawn": "f", "tokio::task::blocking::spawn_blocking": "c", "tokio::task::local::spawn_local": "f", "tokio::runtime::handle::Handle::spawn": "F", "tokio::runtime::handle::Handle::spawn_blocking": "C"}


def join_handle(I, call, st, v):
    """Awaiting the handle of a task that runs a known closure or future."""
    how = SPAWNED.get(v.a[2])
    a = v.a[3][1 if how.isupper() else 0]
    a = I.deref_all(st, a) if a.tag == "ref" else a
    if a.tag != "agg":
        return None
    lost = err(mk("param", "$join_error"))
    outs = I.invoke(call, st.copy(), a, []) if how in "cC" else I.run_future(call, st.copy(), a)
    res = []
    for o in outs:
        if o.kind == "ret":
            res += R(ok(o.val), o.st)
        elif o.kind == "panic":
            res += R(lost, o.st)
        else:
            res.append(o)
    s = st.copy()
    I.emit("lost", v.a[2], v.a[3], lost, s, call.fr, call.body, call.bb)
    return res + R(lost, s)
