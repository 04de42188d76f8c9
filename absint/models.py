"""Models of library functions that are not followed (allocation, intrinsics, formatting, time, roaring bitmaps, ...)
and fast equivalents of hot std functions.  Everything else in std is analysed through its own MIR."""
import math
from interp import *
import interp

REG = {}
PRE = []


def model(*names):
    def d(fn):
        for n in names:
            REG[n] = fn
        return fn
    return d


def prefix(p):
    def d(fn):
        PRE.append((p, fn))
        return fn
    return d


def register(it):
    it.models.update(REG)
    it.model_prefix += PRE


def ai(v, what="length"):
    return v if type(v) is int else concretize(v, 64, what)


# ---------------------------------------------------------------- panics
def _panic(it, f, args):
    nm = f["npath"].rsplit("::", 1)[-1]
    raise Panic(nm, where())


for n in (
    "core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::panic_nounwind", "core::panicking::assert_failed",
    "core::panicking::panic_nounwind_fmt", "core::panicking::panic_bounds_check", "core::panicking::panic_display",
    "core::panicking::panic_explicit", "core::panicking::unreachable_display", "core::panicking::panic_str_2015",
    "core::option::unwrap_failed", "core::option::expect_failed", "std::option::unwrap_failed", "std::option::expect_failed",
    "core::result::unwrap_failed", "std::result::unwrap_failed", "std::rt::begin_panic", "std::rt::panic_fmt",
    "core::panicking::assert_matches_failed", "core::panicking::panic_const::panic_const_add_overflow",
):
    REG[n] = _panic


@prefix("core::panicking::")
def m_panicking(it, f, args):
    if "unreachable_default_msg" in f["npath"]:
        return UNIT
    raise Panic(f["npath"].rsplit("::", 1)[-1], where())


@prefix("core::slice::index::slice_")
def m_slicefail(it, f, args):
    raise Panic("slice index out of range", where())


# ---------------------------------------------------------------- RawVec / allocation
@model("alloc::raw_vec::RawVec::new", "alloc::raw_vec::RawVec::with_capacity_in", "alloc::raw_vec::RawVec::new_in",
       "alloc::raw_vec::RawVec::with_capacity")
def m_rv_new(it, f, args):
    return RV([])


@model("alloc::raw_vec::RawVec::with_capacity_zeroed_in")
def m_rv_zero(it, f, args):
    n = ai(args[0])
    t = f["targs"][0]
    return RV([of_bits([0] * (8 * sizeof(t)), t) for _ in range(n)])


@model("alloc::raw_vec::RawVec::capacity")
def m_rv_cap(it, f, args):
    return 1 << 40


@model("alloc::raw_vec::RawVec::ptr", "alloc::raw_vec::RawVec::non_null")
def m_rv_ptr(it, f, args):
    return Ptr(rv(ld(args[0], 0)).a, 0)


def rv(x):
    if type(x) is RV:
        return x
    raise Undecided("raw vector %r" % (x,))


@model("alloc::raw_vec::RawVec::grow_one", "alloc::raw_vec::RawVec::reserve", "alloc::raw_vec::RawVec::shrink_to_fit",
       "alloc::raw_vec::RawVec::reserve_exact", "alloc::raw_vec::RawVec::try_reserve", "alloc::raw_vec::RawVec::try_reserve_exact")
def m_rv_nop(it, f, args):
    if "try_reserve" in f["npath"]:
        return Agg(0, [UNIT])
    return UNIT


@model("alloc::raw_vec::RawVec::allocator")
def m_rv_alloc(it, f, args):
    return Ptr([UNIT], 0)


@model("alloc::raw_vec::RawVec::from_raw_parts_in", "alloc::raw_vec::RawVec::from_nonnull_in")
def m_rv_from(it, f, args):
    p = args[0]
    if type(p) is not Ptr:
        return RV([])
    if p.i == 0 and p.s is None:
        return RV(p.c)
    return RV(p.c[p.i:])


@model("alloc::raw_vec::RawVec::into_box")
def m_rv_box(it, f, args):
    return Ptr(rv(args[0]).a, 0, ai(args[1]))


@model("std::boxed::Box::new", "std::boxed::Box::new_in", "std::boxed::box_new")
def m_box_new(it, f, args):
    return Ptr([args[0]], 0)


@model("std::boxed::Box::new_uninit", "std::boxed::Box::new_uninit_in")
def m_box_new_uninit(it, f, args):
    t = f["targs"][0]
    ty = it.prog.tys[canon(t)]
    if ty["k"] == "array":
        return Ptr([Arr([UNINIT] * ty["n"])], 0)
    return Ptr([UNINIT], 0)


@model("<std::alloc::Global as std::clone::Clone>::clone")
def m_unit(it, f, args):
    return UNIT


@model("std::boxed::box_assume_init_into_vec_unsafe")
def m_box_vec(it, f, args):
    p = args[0]
    a = p.c[p.i]
    return Agg(0, [RV(a.f), len(a.f)])


# ---------------------------------------------------------------- Vec (fast paths)
def vec(p):
    v = ld(p, 0)
    if type(v) is Agg and type(v.f[0]) is RV and type(v.f[1]) is int:
        return v
    raise Undecided("vector %r" % (v,))


@model("std::vec::Vec::push", "std::vec::Vec::push_mut")
def m_vec_push(it, f, args):
    v = vec(args[0])
    a = v.f[0].a
    n = v.f[1]
    if S.J is not None:
        raise NoMerge()
    if len(a) > n:
        a[n] = args[1]
    else:
        while len(a) < n:
            a.append(UNINIT)
        a.append(args[1])
    v.f[1] = n + 1
    if f["npath"].endswith("push_mut"):
        return Ptr(a, n)
    return UNIT


@model("std::vec::Vec::len")
def m_vec_len(it, f, args):
    return ld(args[0], 0).f[1]


@model("std::vec::Vec::is_empty")
def m_vec_empty(it, f, args):
    n = ld(args[0], 0).f[1]
    return 1 if n == 0 else 0


@model("std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice", "<std::vec::Vec<T, A> as std::ops::Deref>::deref",
       "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut", "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref",
       "<std::vec::Vec<T, A> as std::convert::AsMut<[T]>>::as_mut", "<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow")
def m_vec_slice(it, f, args):
    v = vec(args[0])
    return Ptr(v.f[0].a, 0, v.f[1])


@model("std::vec::Vec::as_ptr", "std::vec::Vec::as_mut_ptr", "std::vec::Vec::as_non_null")
def m_vec_ptr(it, f, args):
    v = vec(args[0])
    a = v.f[0].a
    if f["npath"].endswith("mut_ptr") and v.f[0].x and local_caller() and len(a) < v.f[0].x:
        if S.J is not None:
            raise NoMerge()
        a.extend([UNINIT] * (v.f[0].x - len(a)))  # the reserved room
    return Ptr(a, 0)


def local_caller():
    return len(S.stack) > 1 and S.stack[-2][0]["local"]


@model("std::vec::Vec::clear")
def m_vec_clear(it, f, args):
    st(vec(args[0]).f, 1, 0, 64)
    return UNIT


@model("std::vec::Vec::truncate")
def m_vec_trunc(it, f, args):
    v = vec(args[0])
    n = ai(args[1])
    if n < v.f[1]:
        st(v.f, 1, n, 64)
    return UNIT


@model("std::vec::Vec::reserve", "std::vec::Vec::reserve_exact")
def m_vec_reserve(it, f, args):
    v = vec(args[0])
    n = norm(args[1], 64)
    if type(n) is int and type(v.f[1]) is int and n < 1 << 16:
        v.f[0].x = max(v.f[0].x or 0, v.f[1] + n)
    return UNIT


@model("std::vec::Vec::shrink_to_fit", "std::vec::Vec::shrink_to")
def m_vec_nop(it, f, args):
    return UNIT


@model("std::vec::Vec::capacity")
def m_vec_cap(it, f, args):
    if len(S.stack) > 1 and S.stack[-2][0]["local"]:
        return term("in", "capacity", 40)
    return 1 << 40


@model("std::vec::Vec::with_capacity", "std::vec::Vec::new", "std::vec::Vec::with_capacity_in", "std::vec::Vec::new_in")
def m_vec_new(it, f, args):
    r = RV([])
    if args and "with_capacity" in f["npath"]:
        n = norm(args[0], 64)
        if type(n) is int and n < 1 << 16:
            r.x = n
    return Agg(0, [r, 0])


@model("std::vec::Vec::extend_from_slice")
def m_vec_efs(it, f, args):
    v = vec(args[0])
    s = args[1]
    if S.J is not None:
        raise NoMerge()
    t = f["targs"][0]
    n = ai(s.m)
    vals = slice_vals(s, t)
    vals = [it.clone_of(t, Ptr([x], 0)) if type(x) in (Agg, Arr) else x for x in vals]
    a = v.f[0].a
    del a[v.f[1]:]
    while len(a) < v.f[1]:
        a.append(UNINIT)
    a.extend(vals)
    v.f[1] += n
    return UNIT


def slice_vals(s, t):
    n = ai(s.m)
    if n == 0:
        return []
    if s.s is None:
        r = s.c[s.i: s.i + n]
        if len(r) != n:
            raise UB("slice of length %d outside its allocation" % n, where())
        return r
    return view_vals(s, n, t)


@model("std::vec::from_elem")
def m_from_elem(it, f, args):
    n = ai(args[1], "vector length")
    v = args[0]
    t = f["targs"][0]
    if n > 1 << 17:
        raise Undecided("vector of %d elements" % n)
    if type(v) in (Agg, Arr):
        if type(v) is Agg and it.prog.impls.get(t, {}).get("clone") is not None and n > 1:
            a = [it.clone_of(t, Ptr([v], 0)) for _ in range(n - 1)] + [v]
        else:
            a = [cp(v) for _ in range(n)]
    else:
        a = [v] * n
    return Agg(0, [RV(a), n])


@model("std::vec::Vec::resize")
def m_resize(it, f, args):
    v = vec(args[0])
    n = ai(args[1], "vector length")
    if n > 1 << 17:
        raise Undecided("vector of %d elements" % n)
    if S.J is not None:
        raise NoMerge()
    a = v.f[0].a
    del a[v.f[1]:]
    for _ in range(n - v.f[1]):
        a.append(cp(args[2]))
    v.f[1] = n
    return UNIT


@model("std::vec::Vec::set_len")
def m_set_len(it, f, args):
    v = vec(args[0])
    n = ai(args[1])
    if v.f[0].x is not None and n > max(v.f[0].x, v.f[1]) and local_caller() and S.stack[-2][0]["npath"].split("::")[0] != "alp_binding":
        raise UB("set_len(%d) of a vector with room for %d" % (n, max(v.f[0].x, v.f[1])), where())
    st(v.f, 1, n, 64)
    return UNIT


@model("std::vec::Vec::pop")
def m_pop(it, f, args):
    v = vec(args[0])
    if v.f[1] == 0:
        return Agg(0, [])
    st(v.f, 1, v.f[1] - 1, 64)
    return Agg(1, [v.f[0].a[v.f[1]]])


@model("<std::vec::Vec<T, A> as std::clone::Clone>::clone")
def m_vec_clone(it, f, args):
    v = vec(args[0])
    t = f["targs"][0]
    a = v.f[0].a
    n = v.f[1]
    return Agg(0, [RV([it.clone_of(t, Ptr(a, i)) if type(a[i]) in (Agg, Arr, Ptr, Nat) else a[i] for i in range(n)]), n])


@model("<std::boxed::Box<[T], A> as std::clone::Clone>::clone", "<std::boxed::Box<[T]> as std::clone::Clone>::clone")
def m_boxslice_clone(it, f, args):
    b = ld(args[0], 0)
    t = f["targs"][0]
    vals = slice_vals(b, t)
    return Ptr([cp(x) for x in vals], 0, b.m)


@model("<std::boxed::Box<T, A> as std::clone::Clone>::clone")
def m_box_clone(it, f, args):
    b = ld(args[0], 0)
    return Ptr([it.clone_of(f["targs"][0], b)], 0)


@model("std::slice::<impl [T]>::to_vec", "std::slice::<impl [T]>::to_vec_in", "alloc::slice::<impl [T]>::to_vec")
def m_to_vec(it, f, args):
    s = args[0]
    t = f["targs"][0]
    vals = slice_vals(s, t)
    return Agg(0, [RV([it.clone_of(t, Ptr([x], 0)) if type(x) in (Agg, Arr) else x for x in vals]), ai(s.m)])


@model("std::slice::<impl [T]>::into_vec", "alloc::slice::<impl [T]>::into_vec")
def m_into_vec(it, f, args):
    p = args[0]
    n = ai(p.m)
    a = p.c if p.i == 0 else p.c[p.i: p.i + n]
    return Agg(0, [RV(a), n])


@model("std::vec::Vec::into_boxed_slice")
def m_ibs(it, f, args):
    v = args[0]
    a = v.f[0].a
    del a[v.f[1]:]
    return Ptr(a, 0, v.f[1])


# ---------------------------------------------------------------- slices
@model("core::slice::<impl [T]>::len", "std::slice::<impl [T]>::len", "std::ptr::const_ptr::<impl *const [T]>::len",
       "core::str::<impl str>::len", "std::ptr::mut_ptr::<impl *mut [T]>::len")
def m_slice_len(it, f, args):
    p = args[0]
    if type(p) is not Ptr or p.m is None:
        raise Undecided("length of %r" % (p,))
    return p.m


@model("core::slice::<impl [T]>::is_empty")
def m_slice_empty(it, f, args):
    return 1 if ai(args[0].m) == 0 else 0


@model("core::slice::<impl [T]>::as_ptr", "core::slice::<impl [T]>::as_mut_ptr")
def m_slice_ptr(it, f, args):
    p = args[0]
    return Ptr(p.c, p.i, None, p.s, p.o)


@model("std::slice::from_raw_parts", "std::slice::from_raw_parts_mut", "std::ptr::slice_from_raw_parts", "std::ptr::slice_from_raw_parts_mut")
def m_frp(it, f, args):
    p = args[0]
    n = ai(args[1])
    if type(p) is int:
        if n:
            raise UB("slice of a dangling pointer", where())
        return Ptr([], 0, 0)
    t = f["targs"][0]
    if p.s is None and "from_raw_parts" in f["npath"] and not f["npath"].startswith("std::ptr"):
        if p.i + n > len(p.c) and sizeof(t):
            raise UB("slice of %d elements outside its allocation of %d" % (n, len(p.c) - p.i), where())
    elif p.s is not None and not f["npath"].startswith("std::ptr"):
        if p.i * sizeof(p.s) + p.o + n * sizeof(t) > len(p.c) * sizeof(p.s):
            raise UB("slice of %d bytes outside its allocation" % (n * sizeof(t)), where())
    return Ptr(p.c, p.i, n, p.s, p.o)


@model("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def m_cfs(it, f, args):
    d, s = args
    t = f["targs"][0]
    if ai(d.m) != ai(s.m):
        raise Panic("copy_from_slice: length mismatch", where())
    cno(s, d, d.m, t)
    return UNIT


@model("core::slice::<impl [T]>::fill")
def m_fill(it, f, args):
    d = args[0]
    t = f["targs"][0]
    n = ai(d.m)
    if d.s is None and S.J is None and type(args[1]) not in (Agg, Arr) and d.i + n <= len(d.c):
        d.c[d.i: d.i + n] = [args[1]] * n
        return UNIT
    for i in range(n):
        sto(el(d, i, t), cp(args[1]), t)
    return UNIT


@model("core::slice::<impl [T]>::get_unchecked", "core::slice::<impl [T]>::get_unchecked_mut")
def m_gu(it, f, args):
    p = args[0]
    ity = it.prog.tys[canon(f["targs"][1])]
    if ity["k"] == "uint":
        i = ai(args[1], "index")
        if i >= ai(p.m):
            raise UB("get_unchecked index %d of %d" % (i, p.m), where())
        return el(p, i, f["targs"][0])
    return it.body(f["id"])(args)


@model("core::slice::index::<impl std::ops::Index<I> for [T]>::index", "core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut")
def m_idx(it, f, args):
    return slice_index(it, f, args[0], args[1], f["targs"][1], f["targs"][0])


@model("<std::vec::Vec<T, A> as std::ops::Index<I>>::index", "<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut")
def m_vidx(it, f, args):
    v = vec(args[0])
    return slice_index(it, f, Ptr(v.f[0].a, 0, v.f[1]), args[1], f["targs"][1], f["targs"][0])


def slice_index(it, f, p, ix, ti, t):
    ty = it.prog.tys[canon(ti)]
    n = ai(p.m)
    if ty["k"] == "uint":
        i = ix
        if type(i) is not int:
            i = norm(i, 64)
            if type(i) is not int:
                # out of range?
                if not ucmp(i, n, 64, "Lt"):
                    raise Panic("index out of bounds", where())
                i = concretize(i, 64, "index")
        if i >= n:
            raise Panic("index %d out of bounds (length %d)" % (i, n), where())
        return el(p, i, t)
    pa = ty.get("path", "")
    if pa.endswith("Range") or pa.endswith("Range2"):
        a, b = ai(ix.f[0]), ai(ix.f[1])
    elif pa.endswith("RangeFrom"):
        a, b = ai(ix.f[0]), n
    elif pa.endswith("RangeTo"):
        a, b = 0, ai(ix.f[0])
    elif pa.endswith("RangeFull"):
        a, b = 0, n
    elif pa.endswith("RangeToInclusive"):
        a, b = 0, ai(ix.f[0]) + 1
    elif pa.endswith("RangeInclusive"):
        a, b = ai(ix.f[0]), ai(ix.f[1]) + 1
    else:
        raise Undecided("index by %s" % ty["name"])
    if a > b or b > n:
        raise Panic("slice range %d..%d out of bounds (length %d)" % (a, b, n), where())
    q = el(p, a, t)
    return Ptr(q.c, q.i, b - a, q.s, q.o)


@model("<std::slice::Iter<T> as std::iter::Iterator>::next", "<std::slice::IterMut<T> as std::iter::Iterator>::next")
def m_iter_next(it, f, args):
    v = ld(args[0], 0)
    t = f["targs"][0]
    p, e = v.f[0], v.f[1]
    if type(e) is int:  # zero-sized
        if e == 0:
            return Agg(0, [])
        st(v.f, 1, e - 1)
        return Agg(1, [p])
    if type(p) is not Ptr or type(e) is not Ptr:
        if p == e:
            return Agg(0, [])
        raise Undecided("slice iterator")
    if p.c is e.c and p.i == e.i and p.o == e.o:
        return Agg(0, [])
    st(v.f, 0, padd(p, 1, t))
    return Agg(1, [p])


@model("std::slice::Iter::new", "std::slice::IterMut::new")
def m_iter_new(it, f, args):
    s = args[0]
    t = f["targs"][0]
    p = Ptr(s.c, s.i, None, s.s, s.o)
    n = ai(s.m)
    if sizeof(t) == 0:
        return Agg(0, [p, n, UNIT])
    return Agg(0, [p, padd(p, n, t), UNIT])


# ---------------------------------------------------------------- ptr / mem
@model("std::ptr::read", "std::ptr::const_ptr::<impl *const T>::read", "std::ptr::mut_ptr::<impl *mut T>::read",
       "std::ptr::read_unaligned", "std::intrinsics::read_via_copy", "std::ptr::const_ptr::<impl *const T>::read_unaligned",
       "std::ptr::NonNull::read", "core::ptr::read_volatile")
def m_read(it, f, args):
    return cp(ld(args[0], f["targs"][0]))


@model("std::ptr::write", "std::ptr::mut_ptr::<impl *mut T>::write", "std::ptr::write_unaligned", "std::intrinsics::write_via_move",
       "std::ptr::mut_ptr::<impl *mut T>::write_unaligned", "std::ptr::NonNull::write")
def m_write(it, f, args):
    sto(args[0], args[1], f["targs"][0])
    return UNIT


@model("std::mem::replace")
def m_replace(it, f, args):
    t = f["targs"][0]
    o = ld(args[0], t)
    sto(args[0], args[1], t)
    return o


@model("std::mem::swap")
def m_swap(it, f, args):
    t = f["targs"][0]
    a, b = ld(args[0], t), ld(args[1], t)
    sto(args[0], b, t)
    sto(args[1], a, t)
    return UNIT


@model("std::mem::forget", "std::mem::drop", "std::mem::forget_unsized")
def m_forget(it, f, args):
    return UNIT


@model("std::ptr::drop_in_place", "std::ptr::drop_glue")
def m_dip(it, f, args):
    return UNIT


@model("std::ptr::const_ptr::<impl *const T>::add", "std::ptr::mut_ptr::<impl *mut T>::add", "std::ptr::NonNull::add",
       "std::ptr::const_ptr::<impl *const T>::wrapping_add", "std::ptr::mut_ptr::<impl *mut T>::wrapping_add")
def m_padd(it, f, args):
    return padd(args[0], args[1], f["targs"][0])


@model("std::ptr::const_ptr::<impl *const T>::sub", "std::ptr::mut_ptr::<impl *mut T>::sub", "std::ptr::NonNull::sub")
def m_psub(it, f, args):
    return padd(args[0], -ai(args[1]), f["targs"][0])


@model("std::ptr::const_ptr::<impl *const T>::offset", "std::ptr::mut_ptr::<impl *mut T>::offset", "std::intrinsics::arith_offset", "std::intrinsics::offset",
       "std::ptr::NonNull::offset")
def m_poff(it, f, args):
    return padds(args[0], args[1], f["targs"][0])


@model("std::intrinsics::ptr_offset_from_unsigned", "std::intrinsics::ptr_offset_from", "std::ptr::const_ptr::<impl *const T>::offset_from_unsigned",
       "std::ptr::mut_ptr::<impl *mut T>::offset_from_unsigned", "std::ptr::NonNull::offset_from_unsigned")
def m_pdiff(it, f, args):
    return pdiff(args[0], args[1], f["targs"][0]) & M64


@model("std::ptr::copy_nonoverlapping", "std::ptr::copy", "std::intrinsics::copy", "std::intrinsics::copy_nonoverlapping",
       "std::ptr::const_ptr::<impl *const T>::copy_to_nonoverlapping", "std::ptr::const_ptr::<impl *const T>::copy_to")
def m_cno(it, f, args):
    t = f["targs"][0]
    if not sizeof(t):
        return UNIT
    src, dst, n = args
    n = ai(n)
    if n and type(src) is Ptr and src.s is None and type(dst) is Ptr and dst.s is None and src.i + n > len(src.c):
        raise UB("copy of %d elements from an allocation with %d" % (n, len(src.c) - src.i), where())
    cno(src, dst, n, t)
    return UNIT


@model("std::ptr::mut_ptr::<impl *mut T>::copy_from_nonoverlapping", "std::ptr::mut_ptr::<impl *mut T>::copy_from")
def m_cfn(it, f, args):
    cno(args[1], args[0], args[2], f["targs"][0])
    return UNIT


@model("std::intrinsics::write_bytes", "std::ptr::write_bytes")
def m_wb(it, f, args):
    t = f["targs"][0]
    b = list(bits(args[1], 8)) * sizeof(t)
    for i in range(ai(args[2])):
        sto(padd(args[0], i, t), of_bits(b, t), t)
    return UNIT


@model("std::intrinsics::size_of_val", "std::mem::size_of_val")
def m_sov(it, f, args):
    t = f["targs"][0]
    ty = it.prog.tys[canon(t)]
    if ty["k"] == "slice":
        return ai(args[0].m) * sizeof(ty["elem"])
    if ty["k"] == "str":
        return args[0].m
    return sizeof(t)


@model("std::intrinsics::raw_eq", "std::intrinsics::compare_bytes", "std::intrinsics::bcmp")
def m_raweq(it, f, args):
    nm = f["npath"].rsplit("::", 1)[-1]
    if nm == "raw_eq":
        t = f["targs"][0]
        a, b = bits_of(ld(args[0], t), t), bits_of(ld(args[1], t), t)
        return eq_bits(a, b)
    n = ai(args[2])
    p, q = args[0], args[1]
    for i in range(n):
        u8 = it.prog.name_ty["u8"]
        x, y = ld(padd(p, i, u8), u8), ld(padd(q, i, u8), u8)
        if not eq_decide(x, y, 8):
            if ucmp(x, y, 8, "Lt"):
                return (1 << 32) - 1
            return 1
    return 0


def eq_bits(a, b):
    d = []
    for x, y in zip(a, b):
        if x is None or y is None:
            raise UB("comparison of uninitialised memory", where())
        if x != y:
            e = norm_bit(bxor(x, y))
            if e == 1:
                return 0
            if e:
                d.append(e)
    if not d:
        return 1
    ds = set(d)
    for z in S.nz:
        if z and set(y for y in map(norm_bit, z) if y != 0) <= ds:
            return 0
    r = choose(2, "bytes equal")
    if r:
        for e in d:
            assume_bit(e, 0)
    else:
        S.nz.append(d)
    return r


@model("std::intrinsics::assert_inhabited", "std::intrinsics::assert_zero_valid", "std::intrinsics::assert_mem_uninitialized_valid",
       "std::intrinsics::assume", "std::hint::assert_unchecked", "std::intrinsics::cold_path")
def m_nop(it, f, args):
    return UNIT


@model("core::ub_checks::check_language_ub", "core::ub_checks::check_library_ub")
def m_zero(it, f, args):
    return 0


@model("core::ub_checks::is_valid_allocation_size")
def m_true(it, f, args):
    return 1


@model("std::intrinsics::ctlz", "std::intrinsics::ctlz_nonzero")
def m_ctlz(it, f, args):
    w = TW[canon(f["targs"][0])]
    v = args[0]
    if type(v) is int:
        return w - v.bit_length()
    b = bits(v, w)
    for i in range(w - 1, -1, -1):
        if choose_bit(b[i], "leading bit %d" % i):
            return w - 1 - i
    consistent()
    return w


@model("std::intrinsics::cttz", "std::intrinsics::cttz_nonzero")
def m_cttz(it, f, args):
    w = TW[canon(f["targs"][0])]
    v = args[0]
    if type(v) is int:
        return w if v == 0 else (v & -v).bit_length() - 1
    b = bits(v, w)
    for i in range(w):
        if choose_bit(b[i], "trailing bit %d" % i):
            return i
    consistent()
    return w


@model("std::intrinsics::ctpop")
def m_ctpop(it, f, args):
    w = TW[canon(f["targs"][0])]
    v = args[0]
    if type(v) is int:
        return bin(v).count("1")
    b = [norm_bit(x) for x in bits(v, w)]
    one = sum(1 for x in b if x == 1)
    r = one
    for x in b:
        if x >= 2:
            r = o_add(r, mk((x,)), 32)
    return r


@model("std::intrinsics::bswap")
def m_bswap(it, f, args):
    w = TW[canon(f["targs"][0])]
    b = bits(args[0], w)
    r = ()
    for i in range(w // 8 - 1, -1, -1):
        r += b[8 * i: 8 * i + 8]
    return mk(r)


@model("std::intrinsics::bitreverse")
def m_brev(it, f, args):
    w = TW[canon(f["targs"][0])]
    return mk(tuple(reversed(bits(args[0], w))))


@model("std::intrinsics::rotate_left", "std::intrinsics::rotate_right")
def m_rot(it, f, args):
    w = TW[canon(f["targs"][0])]
    n = ai(args[1]) % w
    if f["npath"].endswith("right"):
        n = (w - n) % w
    b = bits(args[0], w)
    return mk(b[w - n:] + b[: w - n])


@model("std::intrinsics::saturating_sub")
def m_ssub(it, f, args):
    t = canon(f["targs"][0])
    w = TW[t]
    if it.prog.tys[t]["k"] == "int":
        if type(args[0]) is int and type(args[1]) is int:
            r = sx(args[0], w) - sx(args[1], w)
            return max(-(1 << (w - 1)), min((1 << (w - 1)) - 1, r)) & ((1 << w) - 1)
        return o_sub(args[0], args[1], w)
    if ucmp(args[0], args[1], w, "Lt"):
        return 0
    return o_sub(args[0], args[1], w)


@model("std::intrinsics::saturating_add")
def m_sadd(it, f, args):
    t = canon(f["targs"][0])
    w = TW[t]
    if type(args[0]) is int and type(args[1]) is int and it.prog.tys[t]["k"] == "uint":
        return min((1 << w) - 1, args[0] + args[1])
    return o_add(args[0], args[1], w)


def _arith(it, f, args):
    nm = f["npath"].rsplit("::", 1)[-1]
    t = canon(f["targs"][0])
    w = TW[t]
    sg = it.prog.tys[t]["k"] == "int"
    a, b = args
    if nm in ("wrapping_add", "unchecked_add"):
        return o_add(a, b, w)
    if nm in ("wrapping_sub", "unchecked_sub"):
        return o_sub(a, b, w)
    if nm in ("wrapping_mul", "unchecked_mul"):
        return o_mul(a, b, w)
    if nm in ("unchecked_div", "exact_div"):
        return o_div(a, b, w, sg)
    if nm == "unchecked_rem":
        return o_rem(a, b, w, sg)
    if nm == "unchecked_shl":
        return o_shl(a, shamt(b, 32) & (w - 1), w)
    if nm == "unchecked_shr":
        return o_shr(a, shamt(b, 32) & (w - 1), w, sg)
    op = {"add_with_overflow": "Add", "sub_with_overflow": "Sub", "mul_with_overflow": "Mul"}[nm]
    return chk_dec(op, a, b, w, sg)


def chk_dec(op, a, b, w, sg):
    """overflow decided (used by checked_*): an undecided unsigned subtraction is split"""
    if op == "Sub" and not sg and not (type(a) is int and type(b) is int):
        lt = ucmp(a, b, w, "Lt")
        return Agg(0, [o_sub(a, b, w), lt])
    return chk(op, a, b, w, sg)


for n in ("wrapping_add", "wrapping_sub", "wrapping_mul", "unchecked_add", "unchecked_sub", "unchecked_mul", "unchecked_div", "exact_div",
          "unchecked_rem", "unchecked_shl", "unchecked_shr", "add_with_overflow", "sub_with_overflow", "mul_with_overflow"):
    REG["std::intrinsics::" + n] = _arith


@model("std::intrinsics::transmute", "std::intrinsics::transmute_unchecked")
def m_transmute(it, f, args):
    return it.transmute(args[0], f["targs"][0], f["targs"][1])


@model("std::intrinsics::black_box", "std::hint::black_box")
def m_bb(it, f, args):
    return args[0]


@model("std::intrinsics::discriminant_value")
def m_dv(it, f, args):
    t = f["targs"][0]
    return it.disc(ld(args[0], t), t)


@model("std::intrinsics::three_way_compare")
def m_twc(it, f, args):
    t = canon(f["targs"][0])
    return cmp3(args[0], args[1], TW[t], it.prog.tys[t]["k"] == "int")


@model("std::intrinsics::likely", "std::intrinsics::unlikely", "std::hint::likely", "std::hint::unlikely")
def m_id(it, f, args):
    return args[0]


@model("std::intrinsics::select_unpredictable", "std::hint::select_unpredictable")
def m_sel(it, f, args):
    return args[1] if decide(args[0]) else args[2]


# ---------------------------------------------------------------- float functions
def _fun1(nm, w=64):
    def g(it, f, args):
        v = args[0]
        if type(v) is int:
            x = i2f(v) if w == 64 else i2f32(v)
            try:
                if nm == "floor":
                    r = float(math.floor(x)) if math.isfinite(x) else x
                    if r == 0:
                        r = math.copysign(0.0, x)
                elif nm == "ceil":
                    r = float(math.ceil(x)) if math.isfinite(x) else x
                    if r == 0:
                        r = math.copysign(0.0, x)
                elif nm == "trunc":
                    r = float(math.trunc(x)) if math.isfinite(x) else x
                    if r == 0:
                        r = math.copysign(0.0, x)
                elif nm == "round":
                    if not math.isfinite(x):
                        r = x
                    else:
                        fl = math.floor(abs(x))
                        r = fl + 1.0 if abs(x) - fl >= 0.5 else float(fl)
                        r = math.copysign(r, x)
                elif nm == "sqrt":
                    r = math.sqrt(x) if x >= 0 else math.nan
                elif nm == "log10":
                    r = math.log10(x) if x > 0 else (-math.inf if x == 0 else math.nan)
                elif nm == "log2":
                    r = math.log2(x) if x > 0 else (-math.inf if x == 0 else math.nan)
                elif nm == "ln":
                    r = math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)
                elif nm == "exp":
                    r = math.exp(x)
            except OverflowError:
                r = math.inf
            return f2i(r) if w == 64 else f2i32(r)
        return term("f" + nm, (vkey(norm(v, w)),), w)
    return g


for n, nm in (("floorf64", "floor"), ("ceilf64", "ceil"), ("truncf64", "trunc"), ("roundf64", "round"), ("sqrtf64", "sqrt"), ("log10f64", "log10"), ("log2f64", "log2"), ("logf64", "ln"), ("expf64", "exp")):
    REG["std::intrinsics::" + n] = _fun1(nm)
for n in ("floor", "ceil", "trunc", "round", "sqrt"):
    REG["core::num::imp::libm::" + n] = _fun1(n)
REG["core::num::imp::libm::likely_available::log10"] = _fun1("log10")
REG["core::num::imp::libm::likely_available::log2"] = _fun1("log2")
REG["core::num::imp::libm::likely_available::log10f"] = _fun1("log10", 32)
for n in ("floor", "ceil", "trunc", "round", "sqrt", "log10", "log2", "ln", "exp"):
    for p in ("std::f64::<impl f64>::", "core::f64::<impl f64>::", "std::num::f64::<impl f64>::"):
        REG[p + n] = _fun1(n)
for n in ("log10",):
    for p in ("std::f32::<impl f32>::",):
        REG[p + n] = _fun1(n, 32)


@model("core::f64::<impl f64>::abs", "std::intrinsics::fabsf64", "std::f64::<impl f64>::abs", "core::num::imp::libm::fabs")
def m_fabs(it, f, args):
    return o_and(args[0], (1 << 63) - 1, 64)


@model("std::intrinsics::fabs")
def m_fabs2(it, f, args):
    w = TW[canon(f["targs"][0])]
    return o_and(args[0], (1 << (w - 1)) - 1, w)


@model("core::f64::<impl f64>::is_nan")
def m_isnan(it, f, args):
    return isnan(args[0], 64)


@model("core::f64::<impl f64>::max", "core::f64::<impl f64>::min", "std::intrinsics::maxnumf64", "std::intrinsics::minnumf64",
       "std::intrinsics::maximum_number_nsz_f64", "std::intrinsics::minimum_number_nsz_f64")
def m_fmaxmin(it, f, args):
    mx = "max" in f["npath"].rsplit("::", 1)[-1]
    a, b = args
    if isnan(a):
        return b
    if isnan(b):
        return a
    lim = 0xFFF0000000000000 if mx else 0x7FF0000000000000
    if a == lim:
        return b
    if b == lim:
        return a
    if fcmp(a, b, 64, "Lt"):
        return b if mx else a
    return a if mx else b


@model("core::num::imp::libm::__powidf2", "std::intrinsics::powif64", "std::f64::<impl f64>::powi")
def m_powi(it, f, args):
    x, n = args
    if type(n) is not int:
        n = concretize(n, 32, "exponent")
    n = sx(n, 32)
    if type(x) is int:
        # compiler-rt's algorithm
        a = i2f(x)
        recip = n < 0
        b = abs(n)
        r = 1.0
        try:
            while True:
                if b & 1:
                    r *= a
                b >>= 1
                if b == 0:
                    break
                a *= a
        except OverflowError:
            r = math.inf
        if recip:
            r = 1.0 / r if r != 0 else math.inf
        return f2i(r)
    return term("fpowi", (vkey(x), n), 64)


# ---------------------------------------------------------------- formatting, printing, errors, time
@prefix("core::fmt::")
def m_fmt(it, f, args):
    return Nat("fmt")


@prefix("std::fmt::")
def m_fmt2(it, f, args):
    nm = f["npath"].rsplit("::", 1)[-1]
    if nm in ("write_str", "write_fmt", "finish", "debug_c_like_enum_write_str", "pad") or nm.endswith("_finish"):
        return Agg(0, [UNIT])
    return Nat("fmt")


@model("std::io::_print", "std::io::_eprint")
def m_print(it, f, args):
    return UNIT


@prefix("std::io::Error::")
def m_ioerr(it, f, args):
    nm = f["npath"].rsplit("::", 1)[-1]
    if nm == "is_interrupted":
        return 0
    if nm == "kind":
        e = args[0]
        v = ld(e, 0)
        if type(v) is Nat and v.d is not None:
            return Agg(v.d, [])
        raise Undecided("kind of an I/O error")
    if nm in ("new", "other"):
        k = args[0]
        return Nat("ioerr", k.v if type(k) is Agg and nm == "new" else None)
    return Nat("ioerr")


@model("<std::io::Error as std::convert::From<std::io::ErrorKind>>::from")
def m_ioerr_from(it, f, args):
    return Nat("ioerr", args[0].v)


@prefix("anyhow::")
def m_anyhow(it, f, args):
    return Nat("anyhow")


@model("std::time::Instant::now")
def m_now(it, f, args):
    return Nat("instant")


@model("std::time::Instant::elapsed")
def m_elapsed(it, f, args):
    return Nat("duration")


@prefix("std::time::Duration::")
def m_dur(it, f, args):
    nm = f["npath"].rsplit("::", 1)[-1]
    if nm == "as_nanos":
        return term("in", "nanos", 60)
    return Nat("duration")


@prefix("<std::time::Duration as")
def m_dur2(it, f, args):
    if f["npath"].endswith("add_assign"):
        return UNIT
    if f["npath"].endswith("::eq"):
        return choose(2, "duration eq")
    return Nat("duration")


@model("<std::string::String as std::ops::Deref>::deref")
def m_strderef(it, f, args):
    return Ptr([], 0, 0)


@prefix("std::string::")
def m_string(it, f, args):
    return Nat("string")


@prefix("alloc::string::")
def m_string2(it, f, args):
    return Nat("string")


@prefix("thiserror::")
def m_thiserror(it, f, args):
    return Nat("err")


@prefix("<std::string::String as")
def m_string3(it, f, args):
    return Nat("string")


@model("core::str::<impl str>::parse")
def m_parse(it, f, args):
    s = args[0]
    b = bytes(slice_vals(s, 0)).decode()
    try:
        return Agg(0, [int(b)])
    except ValueError:
        raise Undecided("parse")


# ---------------------------------------------------------------- roaring bitmaps: finite map index -> membership bit
class Bm:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b  # dict index -> bit (absent: 0)


def bm(x):
    if type(x) is Ptr:
        x = ld(x, 0)
    if type(x) is Nat and x.k == "bm":
        return x
    raise Undecided("bitmap %r" % (x,))


def mkbm(d):
    return Nat("bm", {k: v for k, v in d.items() if v != 0})


RB = "roaring::bitmap::inherent::<impl roaring::RoaringBitmap>::"


@model(RB + "new", "roaring::bitmap::inherent::<impl std::default::Default for roaring::RoaringBitmap>::default")
def m_bm_new(it, f, args):
    return mkbm({})


@model(RB + "insert", RB + "push", RB + "remove")
def m_bm_ins(it, f, args):
    p = args[0]
    o = bm(p)
    i = args[1]
    if type(i) is not int:
        i = concretize(i, 32, "bitmap index")
    old = o.d.get(i, 0)
    if f["npath"].endswith("push"):
        if any(k >= i and choose_bit(v, "bitmap member %d" % k) for k, v in sorted(o.d.items())):
            return 0
    d = dict(o.d)
    if f["npath"].endswith("remove"):
        d.pop(i, None)
    else:
        d[i] = 1
    sto(p, Nat("bm", d), 0)
    if f["npath"].endswith("remove"):
        return mk((old,))
    return mk((old ^ 1,)) if f["npath"].endswith("insert") else 1


def rbounds(it, t, r):
    """half-open bounds of a range value"""
    n = it.prog.tys[canon(t)]["path"].rsplit("::", 1)[-1]
    g = lambda i: ai(r.f[i])
    if n == "Range":
        return g(0), g(1)
    if n == "RangeInclusive":
        return g(0), g(1) + 1
    if n == "RangeFrom":
        return g(0), 1 << 32
    if n == "RangeTo":
        return 0, g(0)
    if n == "RangeToInclusive":
        return 0, g(0) + 1
    if n == "RangeFull":
        return 0, 1 << 32
    raise Undecided("range %s" % n)


@model(RB + "insert_range", RB + "remove_range")
def m_bm_insr(it, f, args):
    p = args[0]
    o = bm(p)
    a, b = rbounds(it, f["targs"][0], args[1])
    d = dict(o.d)
    if f["npath"].endswith("remove_range"):
        n = 0
        for i in list(d):
            if a <= i < b:
                n += choose_bit(d.pop(i), "bitmap member %d" % i)
        sto(p, Nat("bm", d), 0)
        return n
    if b - a > 100000:
        raise Undecided("insert_range of %d" % (b - a))
    n = max(0, b - a)
    for i in range(a, b):
        n -= choose_bit(d.get(i, 0), "bitmap member %d" % i)
        d[i] = 1
    sto(p, Nat("bm", d), 0)
    return n


@model(RB + "contains_range", RB + "range_cardinality")
def m_bm_conr(it, f, args):
    d = bm(args[0]).d
    a, b = rbounds(it, f["targs"][0], args[1])
    if f["npath"].endswith("contains_range"):
        if b - a > 100000:
            return 0
        for i in range(a, b):
            if not choose_bit(d.get(i, 0), "bitmap member %d" % i):
                return 0
        return 1
    return sum(choose_bit(v, "bitmap member %d" % i) for i, v in sorted(d.items()) if a <= i < b)


@model(RB + "min", RB + "max", RB + "select")
def m_bm_min(it, f, args):
    d = bm(args[0]).d
    nm = f["npath"].rsplit("::", 1)[-1]
    skip = ai(args[1]) if nm == "select" else 0
    for i in sorted(d, reverse=nm == "max"):
        if choose_bit(d[i], "bitmap member %d" % i):
            if skip == 0:
                return Agg(1, [i])
            skip -= 1
    return Agg(0, [])


@model(RB + "rank")
def m_bm_rank(it, f, args):
    d = bm(args[0]).d
    n = ai(args[1])
    return sum(choose_bit(v, "bitmap member %d" % i) for i, v in sorted(d.items()) if i <= n)


@model(RB + "remove_smallest", RB + "remove_biggest")
def m_bm_rems(it, f, args):
    p = args[0]
    d = dict(bm(p).d)
    n = ai(args[1])
    for i in sorted(d, reverse=f["npath"].endswith("biggest")):
        if n == 0:
            break
        if choose_bit(d.pop(i), "bitmap member %d" % i):
            n -= 1
    sto(p, Nat("bm", d), 0)
    return UNIT


@prefix("roaring::bitmap::cmp::")
def m_bm_cmp(it, f, args):
    nm = f["npath"].rsplit("::", 1)[-1]
    a, b = bm(args[0]).d, bm(args[1]).d
    if nm == "is_superset":
        a, b, nm = b, a, "is_subset"
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k, 0), b.get(k, 0)
        w = {"is_disjoint": lambda: band(x, y), "is_subset": lambda: band(x, y ^ 1)}.get(nm)
        if w is None:
            raise Undecided(f["npath"])
        if choose_bit(w(), "bitmap member %d" % k):
            return 0
    return 1


@model("<roaring::RoaringBitmap as std::cmp::PartialEq>::eq", "<roaring::RoaringBitmap as std::cmp::PartialEq>::ne")
def m_bm_eq(it, f, args):
    a, b = bm(args[0]).d, bm(args[1]).d
    r = 1
    for k in sorted(set(a) | set(b)):
        if choose_bit(bxor(a.get(k, 0), b.get(k, 0)), "bitmaps differ at %d" % k):
            r = 0
            break
    return r if f["npath"].endswith("eq") else r ^ 1


@model(RB + "contains")
def m_bm_contains(it, f, args):
    i = args[1]
    if type(i) is not int:
        i = concretize(i, 32, "bitmap index")
    return mk((norm_bit(bm(args[0]).d.get(i, 0)),))


@model(RB + "is_empty")
def m_bm_empty(it, f, args):
    d = bm(args[0]).d
    for v in d.values():
        if choose_bit(v, "bitmap member"):
            return 0
    return 1


@model(RB + "len")
def m_bm_len(it, f, args):
    d = bm(args[0]).d
    r = 0
    for v in d.values():
        r += choose_bit(v, "bitmap member")
    return r


@model(RB + "clear")
def m_bm_clear(it, f, args):
    sto(args[0], mkbm({}), 0)
    return UNIT


@model("roaring::bitmap::inherent::<impl std::clone::Clone for roaring::RoaringBitmap>::clone", "<roaring::RoaringBitmap as std::clone::Clone>::clone")
def m_bm_clone(it, f, args):
    return Nat("bm", dict(bm(args[0]).d))


@model(RB + "from_lsb0_bytes")
def m_bm_lsb0(it, f, args):
    off = ai(args[0])
    s = args[1]
    d = {}
    for k, v in enumerate(slice_vals(s, it.prog.name_ty["u8"])):
        for j, b in enumerate(bits(v, 8)):
            if b != 0:
                d[off + 8 * k + j] = b
    return Nat("bm", d)


def _bmop(op):
    def g(it, f, args):
        assign = f["npath"].endswith("_assign")
        a, b = bm(args[0]).d, bm(args[1]).d
        d = {}
        for k in set(a) | set(b):
            x, y = a.get(k, 0), b.get(k, 0)
            d[k] = {"and": band(x, y), "or": bor(x, y), "sub": band(x, y ^ 1), "xor": bxor(x, y)}[op]
        r = mkbm(d)
        if assign:
            sto(args[0], r, 0)
            return UNIT
        return r
    return g


@prefix("roaring::bitmap::ops::")
def m_bm_ops(it, f, args):
    nm = f["npath"].rsplit("::", 1)[-1]
    if nm.endswith("_len"):
        k = {"intersection_len": "and", "union_len": "or", "difference_len": "sub", "symmetric_difference_len": "xor"}[nm]
        return sum(choose_bit(v, "bitmap member") for v in _bmop(k)(it, {"npath": ""}, args).d.values())
    for k, o in (("bitand", "and"), ("bitor", "or"), ("bitxor", "xor"), ("sub", "sub")):
        if nm.startswith(k):
            return _bmop(o)(it, f, args)
    raise Undecided(f["npath"])


def drive(it, t, val, fn):
    """call next() of an iterator value of type t until None"""
    cell = [val]
    ip = Ptr(cell, 0)
    m = it.prog.impls.get(t, {}).get("next")
    if m is None:
        mi = it.prog.impls.get(t, {}).get("into_iter")
        if mi is None:
            raise Undecided("iterator of %s" % it.prog.tys[t]["name"])
        cell[0] = it.call(mi, [val])
        f2 = it.prog.fns[mi]
        rt = f2["locals"][0] if "locals" in f2 else None
        if rt is None:
            raise Undecided("iterator type")
        m = it.prog.impls.get(rt, {}).get("next")
        if m is None:
            raise Undecided("iterator of %s" % it.prog.tys[rt]["name"])
    while True:
        r = it.call(m, [ip])
        if r.v == 0:
            return
        fn(r.f[0])


@prefix("roaring::bitmap::iter::")
def m_bm_iter(it, f, args):
    nm = f["npath"].rsplit("::", 1)[-1]
    if nm in ("from_sorted_iter", "from_iter"):
        t = f["targs"][0]
        d = {}

        def add(v):
            d[v if type(v) is int else concretize(v, 32, "bitmap index")] = 1

        drive(it, t, args[0], add)
        r = Nat("bm", d)
        return Agg(0, [r]) if nm == "from_sorted_iter" else r
    if nm in ("iter", "into_iter"):
        d = bm(args[0]).d
        return Nat("bmiter", [sorted(d.items()), 0, len(d)])
    if nm in ("range", "into_range"):
        a, b = rbounds(it, f["targs"][0], args[1])
        x = sorted((k, v) for k, v in bm(args[0]).d.items() if a <= k < b)
        return Nat("bmiter", [x, 0, len(x)])
    if nm in ("extend", "append"):
        p = args[0]
        d = dict(bm(p).d)
        drive(it, f["targs"][0], args[1], lambda v: d.__setitem__(ai(v), 1))
        sto(p, Nat("bm", d), 0)
        return UNIT
    if nm in ("next", "next_back", "size_hint", "advance_to", "advance_back_to", "count", "nth"):
        return m_bm_next(it, f, args)
    raise Undecided(f["npath"])


@prefix("<roaring::bitmap::Iter")
@prefix("<roaring::bitmap::IntoIter")
@prefix("<roaring::bitmap::iter::")
@prefix("roaring::bitmap::Iter")
@prefix("roaring::bitmap::IntoIter")
def m_bm_next(it, f, args):
    nm = f["npath"].rsplit("::", 1)[-1]
    p = args[0]
    if nm == "into_iter":
        return p
    o = ld(p, 0) if type(p) is Ptr else p
    items, i, j = o.d
    if nm == "next":
        while i < j:
            k, b = items[i]
            i += 1
            if choose_bit(b, "bitmap member %d" % k):
                sto(p, Nat("bmiter", [items, i, j]), 0)
                return Agg(1, [k])
        sto(p, Nat("bmiter", [items, i, j]), 0)
        return Agg(0, [])
    if nm == "next_back":
        while i < j:
            j -= 1
            k, b = items[j]
            if choose_bit(b, "bitmap member %d" % k):
                sto(p, Nat("bmiter", [items, i, j]), 0)
                return Agg(1, [k])
        sto(p, Nat("bmiter", [items, i, j]), 0)
        return Agg(0, [])
    if nm in ("advance_to", "advance_back_to"):
        n = ai(args[1])
        while nm == "advance_to" and i < j and items[i][0] < n:
            i += 1
        while nm != "advance_to" and i < j and items[j - 1][0] > n:
            j -= 1
        sto(p, Nat("bmiter", [items, i, j]), 0)
        return UNIT
    if nm == "size_hint":
        return Agg(0, [0, Agg(0, [])])
    raise Undecided(f["npath"])


# ---------------------------------------------------------------- SIMD (byte lanes)
def _simd_list(v):
    """lanes of a SIMD value: Agg(0,[Arr])"""
    while type(v) is Agg and len(v.f) == 1:
        v = v.f[0]
    return v


@prefix("std::intrinsics::simd::")
def m_simd(it, f, args):
    nm = f["npath"].rsplit("::", 1)[-1]
    t = f["targs"][0]
    ty = it.prog.tys[canon(t)]
    if nm in ("simd_eq", "simd_gt", "simd_lt", "simd_ge", "simd_le", "simd_ne"):
        arr = it.prog.tys[canon(ty["variants"][0][2][0][1])]
        et = canon(arr["elem"])
        w = TW[et]
        sg = it.prog.tys[et]["k"] == "int"
        a, b = _simd_list(args[0]).f, _simd_list(args[1]).f
        out = []
        for x, y in zip(a, b):
            op = {"simd_eq": "Eq", "simd_gt": "Gt", "simd_lt": "Lt", "simd_ge": "Ge", "simd_le": "Le", "simd_ne": "Ne"}[nm]
            if op == "Eq":
                r = eqv(x, y, w)
            elif op == "Ne":
                r = nev(x, y, w)
            else:
                r = (scmp if sg else ucmp)(x, y, w, op)
            if type(r) is int:
                out.append(((1 << w) - 1) if r else 0)
            else:
                out.append(mk((bits(r, 1)[0],) * w))
        return Agg(0, [Arr(out)])
    if nm == "simd_bitmask":
        a = _simd_list(args[0]).f
        arr = it.prog.tys[canon(ty["variants"][0][2][0][1])]
        w = TW[canon(arr["elem"])]
        return mk(tuple(bits(x, w)[w - 1] for x in a))
    raise Undecided(f["npath"])


@model("core::core_arch::x86::avx::vlddqu")
def m_lddqu(it, f, args):
    p = args[0]
    u8 = it.prog.name_ty["i8"]
    vals = [ld(padd(p, i, u8), u8) for i in range(32)]
    return Agg(0, [Arr(vals)])


@model("core::core_arch::simd::Simd::splat")
def m_splat(it, f, args):
    n = f["cargs"][0] if f["cargs"] else 32
    return Agg(0, [Arr([args[0]] * n)])


@prefix("core::core_arch::x86::<impl core::core_arch::simd::Simd<")
def m_as(it, f, args):
    if not f["npath"].endswith(("as_m256i", "as_m128i")):
        raise Undecided(f["npath"])
    w = int(f["npath"].split("Simd<")[1][1:].split(",")[0])
    b = [x for v in _simd_list(args[0]).f for x in bits(v, w)]
    return Agg(0, [Arr([mk(tuple(b[i: i + 64])) for i in range(0, len(b), 64)])])


# drops are not followed; this guard's effect is applied as it goes
@model("std::vec::set_len_on_drop::SetLenOnDrop::increment_len")
def m_setlen(it, f, args):
    p = args[0]
    a = p.c[p.i]
    n = o_add(a.f[1], args[1], 64)
    a.f[1] = n
    q = a.f[0]
    q.c[q.i] = n
    return UNIT


@model("std::ops::FnMut::call_mut", "std::ops::Fn::call", "std::ops::FnOnce::call_once")
def m_callfn(it, f, args):
    nm = f["npath"].rsplit("::", 1)[-1]
    return it.call_fn_obj(f["targs"][0], args[0], args[1].f, nm != "call_once")


@model("std::sync::Arc::new", "std::rc::Rc::new")
def m_arc_new(it, f, args):
    return Ptr([args[0]], 0)


@model("<std::sync::Arc<T, A> as std::clone::Clone>::clone", "<std::sync::Arc<T, A> as std::ops::Deref>::deref",
       "<std::rc::Rc<T, A> as std::clone::Clone>::clone", "<std::rc::Rc<T, A> as std::ops::Deref>::deref")
def m_arc_same(it, f, args):
    return ld(args[0], None) if False else args[0].c[args[0].i]


# ---------------------------------------------------------------- external codecs: assumed lossless.  The compressed form is
# a frame [marker, length (4 bytes), the bytes]; what the crate does around the codec is analysed, the codec is not.
CODEC = {"zstd": 0x5A, "gzip": 0x47, "snap": 0x53, "alp": 0x41}


def u8ty():
    r = getattr(S.prog, "_u8", None)
    if r is None:
        r = S.prog._u8 = next(i for i, t in S.prog.tys.items() if t["k"] == "uint" and t["bits"] == 8)
    return r


def frame(k, bs):
    n = len(bs)
    return [CODEC[k], n & 255, n >> 8 & 255, n >> 16 & 255, n >> 24 & 255] + list(bs)


def unframe(k, bs):
    """list of bytes of the frames, or None if it is not one"""
    out = []
    while bs:
        h = bs[:5]
        if any(type(x) is not int for x in h):
            raise Undecided("compressed stream of unknown shape")
        if len(h) < 5 or h[0] != CODEC[k]:
            return None
        n = h[1] | h[2] << 8 | h[3] << 16 | h[4] << 24
        if len(bs) < 5 + n:
            return None
        out += bs[5: 5 + n]
        bs = bs[5 + n:]
    return out


def slice_of(p):
    """bytes of a &[u8] (possibly behind references)"""
    while type(p) is Ptr and p.m is None and p.s is None and type(p.c[p.i]) is Ptr:
        p = p.c[p.i]
    if type(p) is not Ptr or p.m is None:
        raise Undecided("codec input is not a byte slice")
    return list(slice_vals(p, u8ty()))


def nomerge():
    if S.J is not None:
        raise NoMerge()


def okr(v):
    return Agg(0, [v])


def errr(kind=38):
    return Agg(1, [Nat("ioerr", kind)])


def put(dst, vals):
    if vals:
        cno(Ptr(list(vals), 0, len(vals)), dst, len(vals), u8ty())


@model("zstd::encode_all", "zstd::stream::encode_all")
def m_zenc(it, f, args):
    nomerge()
    b = frame("zstd", slice_of(args[0]))
    return okr(Agg(0, [RV(b), len(b)]))


@model("zstd::decode_all", "zstd::stream::decode_all")
def m_zdec(it, f, args):
    nomerge()
    b = unframe("zstd", slice_of(args[0]))
    return errr() if b is None else okr(Agg(0, [RV(b), len(b)]))


@model("zstd::stream::copy_decode", "zstd::copy_decode")
def m_zcopy(it, f, args):
    nomerge()
    b = unframe("zstd", slice_of(args[0]))
    if b is None:
        return errr()
    d = args[1]
    if type(d) is not Ptr or d.m is None:
        raise Undecided("zstd output is not a byte slice")
    if len(b) > ai(d.m):
        put(d, b[: ai(d.m)])
        return errr(23)
    put(d, b)
    return okr(UNIT)


@model("flate2::GzBuilder::new")
def m_gzb(it, f, args):
    return Nat("gzb")


@model("flate2::Compression::new", "flate2::Compression::default", "flate2::Compression::fast", "flate2::Compression::best",
       "<flate2::Compression as std::default::Default>::default")
def m_gzl(it, f, args):
    return Nat("gzlevel")


@model("flate2::GzBuilder::write", "flate2::write::GzEncoder::new")
def m_gzw(it, f, args):
    w = args[1] if f["npath"].endswith("GzBuilder::write") else args[0]
    return Nat("gzenc", [w, []])


@model("<flate2::write::GzEncoder<W> as std::io::Write>::write")
def m_gzwr(it, f, args):
    nomerge()
    o = args[0].c[args[0].i]
    b = slice_of(args[1])
    o.d[1] += b
    return okr(len(b))


@model("<flate2::write::GzEncoder<W> as std::io::Write>::flush")
def m_gzfl(it, f, args):
    return okr(UNIT)


@model("flate2::write::GzEncoder::finish")
def m_gzfin(it, f, args):
    nomerge()
    w, b = args[0].d
    v = w
    if type(v) is Ptr and type(v.c[v.i]) is Agg and type(v.c[v.i].f[0]) is RV:
        v = v.c[v.i]
    if type(v) is not Agg or type(v.f[0]) is not RV:
        raise Undecided("gzip output is not a vector")
    a = v.f[0].a
    del a[v.f[1]:]
    b = frame("gzip", b)
    a.extend(b)
    v.f[1] += len(b)
    return okr(w)


@model("flate2::read::GzDecoder::new", "flate2::bufread::GzDecoder::new", "snap::read::FrameDecoder::new", "snap::read::FrameEncoder::new")
def m_dec(it, f, args):
    k = "gzip" if "Gz" in f["npath"] else "snap"
    return Nat("codec", [k, "Encoder" in f["npath"], slice_of(args[0]), None, 0])


@model("<flate2::read::GzDecoder<R> as std::io::Read>::read", "<flate2::bufread::GzDecoder<R> as std::io::Read>::read",
       "<snap::read::FrameDecoder<R> as std::io::Read>::read", "<snap::read::FrameEncoder<R> as std::io::Read>::read")
def m_decrd(it, f, args):
    nomerge()
    o = args[0].c[args[0].i].d
    if o[3] is None:
        o[3] = frame(o[0], o[2]) if o[1] else unframe(o[0], o[2])
        if o[3] is None:
            return errr()
    d = args[1]
    n = min(ai(d.m), len(o[3]) - o[4])
    put(Ptr(d.c, d.i, n, d.s, d.o), o[3][o[4]: o[4] + n])
    o[4] += n
    return okr(n)


# the foreign ALP functions
@model("alp_binding::AlpCompressorDouble::new", "alp_binding::AlpDecompressorDouble::new", "alp_binding::ffi::alp::AlpCompressorDouble::new", "alp_binding::ffi::alp::AlpDecompressorDouble::new")
def m_alpnew(it, f, args):
    return Agg(0, [Nat("alp", 0)])


def pinned(p):
    while type(p) is Agg:
        p = p.f[0]
    return p


@model("alp_binding::AlpCompressorDouble::compress")
def m_alpc(it, f, args):
    nomerge()
    o = pinned(args[0])
    o = o.c[o.i].f[0]
    n = ai(args[2])
    src = args[1]
    b = frame("alp", view_vals(Ptr(src.c, src.i, 8 * n, src.s if src.s is not None else f64ty(), src.o), 8 * n, u8ty())) if n else frame("alp", [])
    put_raw(args[3], b)
    o.d = len(b)
    return UNIT


def f64ty():
    r = getattr(S.prog, "_f64", None)
    if r is None:
        r = S.prog._f64 = next(i for i, t in S.prog.tys.items() if t["name"] == "f64")
    return r


def put_raw(p, vals):
    """write through a raw pointer into reserved capacity"""
    if type(p) is not Ptr or p.s is not None:
        raise Undecided("foreign write through an unusual pointer")
    while len(p.c) < p.i + len(vals):
        p.c.append(UNINIT)
    p.c[p.i: p.i + len(vals)] = vals


@model("alp_binding::AlpCompressorDouble::get_size")
def m_alps(it, f, args):
    o = pinned(args[0])
    return o.c[o.i].f[0].d


@model("alp_binding::AlpDecompressorDouble::decompress")
def m_alpd(it, f, args):
    nomerge()
    src, n, dst = args[1], ai(args[2]), args[3]
    if src.s is not None:
        raise Undecided("foreign read through an unusual pointer")
    b = src.c[src.i:]
    h = b[:5]
    if len(h) < 5 or any(type(x) is not int for x in h) or h[0] != CODEC["alp"]:
        raise UB("the ALP decoder is given data that is not its own", where())
    m = h[1] | h[2] << 8 | h[3] << 16 | h[4] << 24
    if m != 8 * n:
        raise UB("the ALP decoder is asked for %d values of %d" % (n, m // 8), where())
    vals = []
    for i in range(n):
        bb = ()
        for x in b[5 + 8 * i: 13 + 8 * i]:
            bb += tuple(bits(x, 8))
        vals.append(mk(bb))
    put_raw(dst, vals)
    return UNIT


@model("std::io::default_read_to_end", "alloc::io::read::default_read_to_end", "std::io::Read::default_read_to_end")
def m_drte(it, f, args):
    nomerge()
    o = args[0].c[args[0].i]
    if type(o) is not Nat or o.k != "codec":
        raise Undecided("read_to_end through the default implementation")
    v = args[1].c[args[1].i]
    a = v.f[0].a
    n = v.f[1]
    tmp = [0] * (len(o.d[2]) + 16)
    r = m_decrd(it, f, [args[0], Ptr(tmp, 0, len(tmp))])
    if r.v != 0:
        return r
    k = r.f[0]
    del a[n:]
    a.extend(tmp[:k])
    v.f[1] = n + k
    return okr(k)


@model("<std::io::ErrorKind as std::cmp::PartialEq>::eq", "<std::io::ErrorKind as std::cmp::PartialEq>::ne")
def m_ek_eq(it, f, args):
    a, b = (ld(x, 0) if type(x) is Ptr else x for x in args)
    if type(a) is not Agg or type(b) is not Agg:
        raise Undecided("error kind")
    r = 1 if a.v == b.v else 0
    return r if f["npath"].endswith("eq") else r ^ 1
