// ================================================================== property lemmas
// t was reached from s by adding bytes in front only
pub open spec fn appends(s: St, t: St) -> bool {
    s.used() <= t.used() && t.d.subrange(t.used() - s.used(), t.used()) == s.d
}
pub proof fn lemma_appends_prefix(s: St, t: St, x: Seq<u8>)
    requires t.d == x + s.d,
    ensures appends(s, t),
{ assert(t.d.subrange(t.used() - s.used(), t.used()) =~= s.d); }
pub proof fn lemma_appends_trans(s: St, t: St, u: St)
    requires appends(s, t), appends(t, u),
    ensures appends(s, u),
{
    assert(u.d.subrange(u.used() - s.used(), u.used()) =~= t.d.subrange(t.used() - s.used(), t.used()));
}
// R06: no operation changes a byte that was already written
pub proof fn prop_r06_align(s: St, len: int, a: int)
    requires align_ok(a), len >= 0,
    ensures appends(s, s.align(len, a)),
{ lemma_pad(s.used() + len, a); lemma_appends_prefix(s, s.align(len, a), zeros(pad(s.used() + len, a) as nat)); }
pub proof fn prop_r06_push<P: Push>(s: St, x: P)
    ensures appends(s, s.push(x)),
{
    P::lemma_push_layout();
    prop_r06_align(s, P::sz(), P::al());
    let t = s.align(P::sz(), P::al());
    lemma_appends_prefix(t, s.push(x), x.push_bytes(t.used()));
    lemma_appends_trans(s, t, s.push(x));
}
pub proof fn prop_r06_slot<P: Push>(s: St, id: u16, x: P)
    ensures appends(s, s.slot(id, x)),
{ prop_r06_push(s, x); }
pub proof fn prop_r06_push_from<T: Push>(s: St, items: Seq<T>, i: int)
    requires 0 <= i <= items.len(),
    ensures appends(s, s.push_from(items, i)),
    decreases items.len() - i,
{
    if i < items.len() {
        prop_r06_push_from(s, items, i + 1);
        prop_r06_push(s.push_from(items, i + 1), items[i]);
        lemma_appends_trans(s, s.push_from(items, i + 1), s.push_from(items, i));
    } else { lemma_appends_prefix(s, s, Seq::empty()); assert(s.d =~= Seq::<u8>::empty() + s.d); }
}
pub proof fn prop_r06_vector<T: Push>(s: St, items: Seq<T>)
    ensures appends(s, s.vector(items)), appends(s, s.vector_direct(items)),
{
    T::lemma_push_layout();
    lemma_vector_start::<T>(s, items.len() as int);
    let a = s.align(items.len() * T::sz(), imax(T::al(), 4));
    prop_r06_align(s, items.len() * T::sz(), imax(T::al(), 4));
    prop_r06_push_from(a, items, 0);
    let b = a.push_from(items, 0);
    prop_r06_push(b, items.len() as u32);
    lemma_appends_trans(s, a, b);
    lemma_appends_trans(s, b, s.vector(items));
    let c = a.prepend(flat(items, 0));
    lemma_appends_prefix(a, c, flat(items, 0));
    prop_r06_push(c, items.len() as u32);
    lemma_appends_trans(s, a, c);
    lemma_appends_trans(s, c, s.vector_direct(items));
}
pub proof fn prop_r06_byte_string(s: St, b: Seq<u8>)
    ensures appends(s, s.byte_string(b)),
{
    let a1 = s.align(b.len() as int + 1, 4); let a2 = a1.push(0u8); let a3 = a2.prepend(b);
    prop_r06_align(s, b.len() as int + 1, 4);
    prop_r06_push(a1, 0u8);
    lemma_appends_prefix(a2, a3, b);
    prop_r06_push(a3, b.len() as u32);
    lemma_appends_trans(s, a1, a2); lemma_appends_trans(s, a2, a3); lemma_appends_trans(s, a3, s.byte_string(b));
}
pub proof fn prop_r06_strings(s: St, xs: Seq<&str>, i: int)
    requires 0 <= i <= xs.len(),
    ensures appends(s, s.strings_from(xs, i)),
    decreases xs.len() - i,
{
    if i < xs.len() {
        prop_r06_strings(s, xs, i + 1);
        prop_r06_byte_string(s.strings_from(xs, i + 1), xs[i].spec_bytes());
        lemma_appends_trans(s, s.strings_from(xs, i + 1), s.strings_from(xs, i));
    } else { lemma_appends_prefix(s, s, Seq::empty()); assert(s.d =~= Seq::<u8>::empty() + s.d); }
}
pub proof fn prop_r06_end_table(s: St, tail: int)
    requires s.inv(), s.table_req(tail),
    ensures appends(s, s.end_table(tail)),
{
    lemma_end_table(s, tail); lemma_table_obj(s);
    let t = s.table_obj(); let v = s.table_vt(tail); let e = s.end_table(tail);
    let x = match s.dup(v) {
        Some(n) => enc32((n - t.used()) as i32 as u32) + t.d.subrange(4, t.used() - s.used()),
        None => v + enc32(v.len() as u32) + t.d.subrange(4, t.used() - s.used()),
    };
    assert(e.d =~= x + s.d);
    lemma_appends_prefix(s, e, x);
}
pub proof fn prop_r06_finish<T>(s: St, root: WIPOffset<T>, ident: Option<Seq<u8>>, sized: bool)
    requires s.inv(), ident is Some ==> ident->Some_0.len() == 4,
    ensures appends(s, s.finish(root, ident, sized)),
{
    lemma_finish_layout(s, root, ident, sized);
    let f = s.finish(root, ident, sized);
    let x = f.d.subrange(0, f.used() - s.used());
    assert(f.d =~= x + s.d);
    lemma_appends_prefix(s, f, x);
}

// R07: a value pushed at distance off from the end lies at a multiple of its alignment
// in the finished buffer, whatever is written in between
pub open spec fn amult(m: int, a: int) -> bool { align_ok(a) && (m == 1 || m == 2 || m == 4 || m == 8 || m == 16) && m >= a }
pub proof fn prop_r07_push<P: Push>(s: St, x: P)
    ensures s.push(x).used() % P::al() == 0, s.push(x).min_align >= P::al(), s.push(x).min_align >= s.min_align,
{
    P::lemma_push_layout();
    lemma_pad(s.used() + P::sz(), P::al());
    x.lemma_push_len(s.push_rest::<P>());
}
pub proof fn prop_r07_vector<T: Push>(s: St, items: Seq<T>)
    ensures
        s.vector(items).used() % 4 == 0,
        s.vector(items).min_align >= T::al(), s.vector(items).min_align >= 4, s.vector(items).min_align >= s.min_align,
        (s.vector(items).used() - 4) % T::al() == 0,
{
    T::lemma_push_layout();
    let n = items.len() as int;
    lemma_vector_start::<T>(s, n);
    lemma_vector_size(s, items);
    let s1 = s.align(n * T::sz(), imax(T::al(), 4));
    lemma_push_from_contig(s1, items, 0);
    lemma_min_align_from(s1, items, 0);
    prop_r07_push(s1.push_from(items, 0), items.len() as u32);
    lemma_mul_mod(s1.used(), n, T::sz(), T::al());
}
pub proof fn lemma_min_align_from<T: Push>(s: St, items: Seq<T>, i: int)
    requires 0 <= i <= items.len(),
    ensures s.push_from(items, i).min_align >= s.min_align,
    decreases items.len() - i,
{
    if i < items.len() { lemma_min_align_from(s, items, i + 1); prop_r07_push(s.push_from(items, i + 1), items[i]); }
}
pub proof fn prop_r07_byte_string(s: St, b: Seq<u8>)
    ensures s.byte_string(b).used() % 4 == 0, s.byte_string(b).min_align >= 4, s.byte_string(b).min_align >= s.min_align,
{
    prop_r07_push(s.align(b.len() as int + 1, 4).push(0u8).prepend(b), b.len() as u32);
}
pub proof fn prop_r07_end_table(s: St, tail: int)
    requires s.inv(), s.table_req(tail),
    ensures s.table_obj().used() % 4 == 0, s.end_table(tail).min_align >= 4, s.end_table(tail).min_align >= s.min_align,
{ lemma_table_obj(s); }
// the whole: position off from the end, written with alignment a, in the finished buffer
pub proof fn prop_r07_finished<T>(s: St, root: WIPOffset<T>, ident: Option<Seq<u8>>, sized: bool, off: int, a: int)
    requires s.inv(), ident is Some ==> ident->Some_0.len() == 4, align_ok(a), a <= s.min_align, 0 <= off <= s.used(), off % a == 0,
    ensures (s.finish(root, ident, sized).used() - off) % a == 0,
{
    lemma_finish_layout(s, root, ident, sized);
    let n = s.finish(root, ident, sized).used();
    lemma_mod_div(n, imax(s.min_align, 4), a);
    vstd::arithmetic::div_mod::lemma_sub_mod_noop(n, off, a);
    assert((0int - 0int) % a == 0) by { if a == 1 {} else if a == 2 {} else if a == 4 {} else if a == 8 {} else {} };
}

// ------------------------------------------------------------------ R08: table round trip
// in any buffer that ends with the data of s, the vtable stored at rev is at len - rev
pub proof fn lemma_vt_in(f: Seq<u8>, d: Seq<u8>, rev: int)
    requires vt_ok(d, rev), f.len() >= d.len(), f.subrange(f.len() - d.len(), f.len() as int) == d,
    ensures vt_ok(f, rev), vt_at(f, rev) == vt_at(d, rev),
{
    let x = f.subrange(0, f.len() - d.len());
    assert(f =~= x + d);
    lemma_vt_prepend(d, x, rev);
}
// where the vtable of a finished table is, counted from the end
pub open spec fn vt_rev(s: St, tail: int) -> int {
    match s.dup(s.table_vt(tail)) { Some(n) => n as int, None => s.table_obj().used() + vt_len(s.fl) }
}
pub proof fn lemma_r08_vt(s: St, tail: int)
    requires s.inv(), s.table_req(tail),
    ensures vt_ok(s.end_table(tail).d, vt_rev(s, tail)), vt_at(s.end_table(tail).d, vt_rev(s, tail)) == s.table_vt(tail),
        vt_rev(s, tail) <= 0x7fff_ffff,
{
    lemma_end_table(s, tail); lemma_table_obj(s);
    let t = s.table_obj(); let vt = s.table_vt(tail); let e = s.end_table(tail); let rev = vt_rev(s, tail);
    match s.dup(vt) {
        Some(n) => {
            let i = choose|i: int| 0 <= i < s.vts.len() && vt_at(s.d, #[trigger] s.vts[i] as int) == vt;
            assert(s.vts[i] == n);
            assert(vt_ok(e.d, e.vts[i] as int));
        }
        None => {
            let i = s.vts.len() as int;
            assert(e.vts[i] == rev as u32);
            assert(vt_ok(e.d, e.vts[i] as int));
            assert(e.d.subrange(0, 2) =~= vt.subrange(0, 2));
            assert(vt_at(e.d, rev) =~= vt);
        }
    }
}
pub proof fn lemma_r08_off(s: St, tail: int, f: Seq<u8>)
    requires s.inv(), s.table_req(tail), f.len() >= s.end_table(tail).used(), f.len() <= 0x8000_0020,
        f.subrange(f.len() - s.end_table(tail).used(), f.len() as int) == s.end_table(tail).d,
    ensures s.table_obj().used() <= f.len(), s.table_obj().used() >= 4,
        i32_at(f, f.len() - s.table_obj().used()) == vt_rev(s, tail) - s.table_obj().used(),
{
    lemma_end_table(s, tail); lemma_table_obj(s); lemma_r08_vt(s, tail);
    let t = s.table_obj(); let obj = t.used(); let vt = s.table_vt(tail); let e = s.end_table(tail); let rev = vt_rev(s, tail);
    let loc = f.len() - obj; let vl = vt_len(s.fl);
    let z = (rev - obj) as i32;
    let w = z as u32;
    lemma_dec_enc32(w);
    let l: int = match s.dup(vt) { Some(n) => 0, None => vl };
    assert(e.d.subrange(l, l + 4) =~= enc32(w));
    assert(f.subrange(loc, loc + 4) =~= e.d.subrange(l, l + 4));
    assert((z as u32) as i32 == z) by(bit_vector);
}
// what a reader sees at a finished table, in any buffer that ends with its data
pub proof fn prop_r08_table(s: St, tail: int, f: Seq<u8>)
    requires s.inv(), s.table_req(tail), s.table_legal(tail),
        f.len() >= s.end_table(tail).used(), f.len() <= 0x8000_0020,
        f.subrange(f.len() - s.end_table(tail).used(), f.len() as int) == s.end_table(tail).d,
    ensures ({
        let obj = s.table_obj().used();
        let loc = f.len() - obj;
        let v = tab_vtable_loc(f, loc);
        &&& tab_has_vtable(f, loc)
        &&& 0 <= v && v + vt_len(s.fl) <= f.len()
        &&& f.subrange(v, v + vt_len(s.fl)) == s.table_vt(tail)
        &&& u16_at(f, v) == vt_len(s.fl)
        &&& u16_at(f, v + 2) == obj - tail
        &&& forall|k: int| 0 <= k < s.fl.len() ==> tab_slot(f, loc, (#[trigger] s.fl[k]).id as int) == Ok::<int, Error>(obj - s.fl[k].off)
        &&& forall|id: int| #![trigger tab_slot(f, loc, id)] 4 <= id && id % 2 == 0 && (forall|k: int| 0 <= k < s.fl.len() ==> (#[trigger] s.fl[k]).id != id)
                ==> tab_slot(f, loc, id) == Ok::<int, Error>(0)
    }),
{
    hide(St::inv); hide(St::end_table); hide(St::dup); hide(vt_fill);
    lemma_end_table(s, tail); lemma_r08_vt(s, tail); lemma_r08_off(s, tail, f);
    let obj = s.table_obj().used(); let vt = s.table_vt(tail); let e = s.end_table(tail); let rev = vt_rev(s, tail);
    let loc = f.len() - obj; let vl = vt_len(s.fl);
    lemma_vt_in(f, e.d, rev);
    let v = f.len() - rev;
    assert(tab_vtable_loc(f, loc) == v);
    assert(f.subrange(v, v + vl) == vt);
    let fin = s.fl.len() as int;
    lemma_fill_len(s.fl, fin, obj, obj - tail);
    assert(u16_at(f, v + 2) == obj - tail) by { assert(f.subrange(v + 2, v + 4) =~= vt.subrange(2, 4)); }
    assert forall|k: int| 0 <= k < fin implies tab_slot(f, loc, (#[trigger] s.fl[k]).id as int) == Ok::<int, Error>(obj - s.fl[k].off) by {
        let id = s.fl[k].id as int;
        lemma_max_id(s.fl, fin);
        lemma_fill_get(s.fl, fin, obj, obj - tail, id);
        assert(f.subrange(v + id, v + id + 2) =~= vt.subrange(id, id + 2));
        assert(s.fl[k].off > tail);
    }
    assert forall|id: int| #![trigger tab_slot(f, loc, id)] 4 <= id && id % 2 == 0 && (forall|k: int| 0 <= k < fin ==> (#[trigger] s.fl[k]).id != id)
        implies tab_slot(f, loc, id) == Ok::<int, Error>(0) by {
        lemma_max_id(s.fl, fin);
        if id < vl {
            if fin > 0 {
                let kk = choose|kk: int| 0 <= kk < fin && (#[trigger] s.fl[kk]).id == max_id(s.fl, fin)->Some_0;
                assert(s.fl[kk].id % 2 == 0);
            }
            lemma_fill_get(s.fl, fin, obj, obj - tail, id);
            assert(f.subrange(v + id, v + id + 2) =~= vt.subrange(id, id + 2));
        }
    }
}
// the bytes of a slot's value, in any buffer that ends with the data of the slot's state
pub proof fn prop_r08_slot<P: Push>(s: St, id: u16, x: P, f: Seq<u8>)
    requires s.inv(), s.slot(id, x).fits(), f.len() >= s.slot(id, x).used(),
        f.subrange(f.len() - s.slot(id, x).used(), f.len() as int) == s.slot(id, x).d,
    ensures ({
        let t = s.slot(id, x);
        let p = f.len() - t.fl.last().off;
        &&& t.fl.len() == s.fl.len() + 1 && t.fl.last().id == id && t.fl.last().off == t.used()
        &&& f.subrange(p, p + P::sz()) == x.push_bytes(s.push_rest::<P>())
    }),
{
    let t = s.slot(id, x);
    x.lemma_push_len(s.push_rest::<P>());
    let p = f.len() - t.used();
    assert(f.subrange(p, p + P::sz()) =~= t.d.subrange(0, P::sz()));
    assert(t.d.subrange(0, P::sz()) =~= x.push_bytes(s.push_rest::<P>()));
}
// ... so a scalar reads back as the value written, and an offset leads to its object
//@ foreach T bool u8 i8 u16 i16 u32 i32 u64 i64 f32 f64
pub proof fn prop_r08_read_$T<'a>(f: Seq<u8>, p: int, x: $T, r: Result<$T, Error>)
    requires 0 <= p, p + <$T as Push>::sz() <= f.len(), f.subrange(p, p + <$T as Push>::sz()) == x.push_bytes(0), <$T as Follow<'a>>::follow_post(f, p, r),
    ensures r == Ok::<$T, Error>(x),
{ x.lemma_scalar(); }
//@ endforeach
pub proof fn prop_r08_read_offset<'a, T: Follow<'a>>(f: Seq<u8>, rest: int, x: WIPOffset<T>, r: Result<T::Inner, Error>)
    requires 0 <= x.0 <= rest, rest + 4 <= f.len() <= 0x8000_0020,
        f.subrange(f.len() - rest - 4, f.len() - rest) == x.push_bytes(rest),
        <ForwardsUOffset<T> as Follow<'a>>::follow_post(f, f.len() - rest - 4, r),
    ensures T::follow_post(f, f.len() - x.0, r),
{
    lemma_dec_enc32((4 + rest - x.0) as u32);
    let p = f.len() - rest - 4;
    assert(f.subrange(p, p + 4) == f.subrange(f.len() - rest - 4, f.len() - rest));
}
// a full table with two fields and a later value, read back from the finished buffer
pub proof fn prop_r08_example<'a>(s: St, a: u16, x: u64, b: u16, y: bool, z: u32, root: WIPOffset<u32>)
    requires s.inv(), s.fl.len() == 0, s.used() + 0x2_0000 <= 0x7fff_ffff, 4 <= a <= 0xfffc, 4 <= b <= 0xfffc, a % 2 == 0, b % 2 == 0, a != b,
{
    let s1 = s.slot(a, x); let s2 = s1.slot(b, y);
    lemma_push_grows(s, x); lemma_push_grows(s1, y); lemma_push_grows(s2, 0xF0F0_F0F0u32);
    P_two(s, s1, s2, a, b);
    let tail = s.used();
    assert(s2.fl[0] == (FieldLoc { off: s1.used() as u32, id: a }));
    assert(s2.fl[1] == (FieldLoc { off: s2.used() as u32, id: b }));
    prop_r06_slot(s, a, x); prop_r06_slot(s1, b, y);
    let inv2 = s2.inv();
    lemma_slot_inv(s, a, x); lemma_slot_inv(s1, b, y);
    lemma_max_id(s2.fl, 2);
    assert(s2.table_req(tail) && s2.table_legal(tail));
    let e = s2.end_table(tail);
    lemma_end_table(s2, tail);
    assert(e.used() + 200 <= 0x8000_0000);
    prop_r06_end_table(s2, tail);
    let g = e.push(z);
    prop_r06_push(e, z);
    lemma_push_grows(e, z);
    lemma_push_inv(e, z);
    let f = g.finish(root, None, false);
    prop_r06_finish(g, root, None, false);
    lemma_finish_grows(g, root, None, false);
    lemma_appends_trans(s2, e, g); lemma_appends_trans(s2, g, f); lemma_appends_trans(e, g, f); lemma_appends_trans(s1, s2, f);
    prop_r08_table(s2, tail, f.d);
    prop_r08_slot(s, a, x, f.d);
    prop_r08_slot(s1, b, y, f.d);
    let loc = f.used() - s2.table_obj().used();
    let o = s2.table_obj().used() - s1.used();
    assert(tab_slot(f.d, loc, a as int) == Ok::<int, Error>(o)) by { assert(s2.fl[0].id == a); }
    x.lemma_scalar();
    assert(u64::dec(f.d.subrange(loc + o, loc + o + 8)) == x);
}
pub proof fn P_two(s: St, s1: St, s2: St, a: u16, b: u16) requires s.fl.len() == 0, s1.fl == s.fl.push(FieldLoc { off: s1.used() as u32, id: a }), s2.fl == s1.fl.push(FieldLoc { off: s2.used() as u32, id: b }) ensures s2.fl.len() == 2 {}
pub proof fn lemma_push_inv<P: Push>(s: St, x: P)
    requires s.inv(), s.push(x).fits(),
    ensures s.push(x).inv(),
{
    P::lemma_push_layout(); lemma_push_grows(s, x);
    let z = zeros(pad(s.used() + P::sz(), P::al()) as nat);
    let y = x.push_bytes(s.push_rest::<P>()) + z;
    assert(s.push(x).d =~= y + s.d);
    lemma_prepend_inv(s, y);
    let t = s.prepend(y); let u = s.push(x);
    assert(t.d == u.d);
    assert forall|i: int| 0 <= i < u.vts.len() implies vt_ok(u.d, #[trigger] u.vts[i] as int) by { assert(vt_ok(t.d, t.vts[i] as int)); }
}
pub proof fn lemma_slot_inv<P: Push>(s: St, id: u16, x: P)
    requires s.inv(), s.push(x).fits(),
    ensures s.slot(id, x).inv(),
{
    lemma_push_inv(s, x);
    let t = s.push(x); let u = s.slot(id, x);
    assert forall|i: int| 0 <= i < u.vts.len() implies vt_ok(u.d, #[trigger] u.vts[i] as int) by { assert(vt_ok(t.d, t.vts[i] as int)); }
}

// ------------------------------------------------------------------ R09: vtable sharing
// two tables get the same vtable exactly when their vtables have the same bytes; a
// table whose vtable is already stored adds no vtable, any other adds exactly one
pub proof fn prop_r09_shared(s: St, tail: int)
    requires s.inv(), s.table_req(tail),
    ensures
        (exists|i: int| 0 <= i < s.vts.len() && vt_at(s.d, #[trigger] s.vts[i] as int) == s.table_vt(tail))
            ==> s.end_table(tail).vts == s.vts && s.end_table(tail).used() == s.table_obj().used(),
        !(exists|i: int| 0 <= i < s.vts.len() && vt_at(s.d, #[trigger] s.vts[i] as int) == s.table_vt(tail))
            ==> s.end_table(tail).vts.len() == s.vts.len() + 1
                && s.end_table(tail).used() == s.table_obj().used() + vt_len(s.fl),
        s.end_table(tail).vts_distinct(), s.end_table(tail).vts_ok(),
{ lemma_end_table(s, tail); lemma_table_obj(s); }
pub proof fn prop_r09_pointers(s: St, tail: int, f: Seq<u8>)
    requires s.inv(), s.table_req(tail), s.table_legal(tail), f.len() >= s.end_table(tail).used(), f.len() <= 0x8000_0020,
        f.subrange(f.len() - s.end_table(tail).used(), f.len() as int) == s.end_table(tail).d,
    ensures
        forall|i: int| 0 <= i < s.vts.len() && vt_at(s.d, #[trigger] s.vts[i] as int) == s.table_vt(tail)
            ==> tab_vtable_loc(f, f.len() - s.table_obj().used()) == f.len() - s.vts[i],
{
    lemma_r08_off(s, tail, f);
    assert forall|i: int| 0 <= i < s.vts.len() && vt_at(s.d, #[trigger] s.vts[i] as int) == s.table_vt(tail)
        implies vt_rev(s, tail) == s.vts[i] by {
        let j = choose|j: int| 0 <= j < s.vts.len() && vt_at(s.d, #[trigger] s.vts[j] as int) == s.table_vt(tail);
        if i < j { assert(vt_at(s.d, s.vts[i] as int) != vt_at(s.d, s.vts[j] as int)); }
        if j < i { assert(vt_at(s.d, s.vts[j] as int) != vt_at(s.d, s.vts[i] as int)); }
    }
}

// ------------------------------------------------------------------ R10: vectors and strings
pub proof fn prop_r10_vector<T: Push>(s: St, items: Seq<T>, f: Seq<u8>)
    requires s.inv(), s.vector(items).fits(), f.len() >= s.vector(items).used(),
        f.subrange(f.len() - s.vector(items).used(), f.len() as int) == s.vector(items).d,
    ensures ({
        let loc = f.len() - s.vector(items).used();
        let base = s.align(items.len() * T::sz(), imax(T::al(), 4)).used();
        let n = items.len() as int;
        &&& loc + 4 <= f.len()
        &&& u32_at(f, loc) == n
        &&& loc + 4 + n * T::sz() == f.len() - base
        &&& forall|k: int| 0 <= k < n ==> f.subrange(loc + 4 + k * T::sz(), loc + 4 + k * T::sz() + T::sz())
                == #[trigger] items[k].push_bytes(base + (n - 1 - k) * T::sz())
    }),
{
    T::lemma_push_layout();
    let n = items.len() as int; let z = T::sz();
    let v = s.vector(items);
    let loc = f.len() - v.used();
    lemma_vector_start::<T>(s, n); lemma_vector_size(s, items);
    let s1 = s.align(n * z, imax(T::al(), 4)); let base = s1.used();
    lemma_push_from_contig(s1, items, 0);
    let p = s1.push_from(items, 0);
    assert((n - 0) * z == n * z);
    lemma_push_aligned(p, items.len() as u32);
    assert(n <= 0x8000_0000) by { assert(n * z >= n) by(nonlinear_arith) requires n >= 0, z >= 1; }
    lemma_dec_enc32(n as u32);
    assert(v.d == enc32(n as u32) + p.d);
    assert(f.subrange(loc, loc + 4) =~= enc32(n as u32)) by { assert(f.subrange(loc, loc + 4) =~= v.d.subrange(0, 4)); }
    assert forall|k: int| 0 <= k < n implies f.subrange(loc + 4 + k * z, loc + 4 + k * z + z) == #[trigger] items[k].push_bytes(base + (n - 1 - k) * z) by {
        assert((k - 0) * z == k * z);
        assert(0 <= k * z && k * z + z <= n * z) by(nonlinear_arith) requires 0 <= k < n, z >= 1;
        assert(f.subrange(loc + 4 + k * z, loc + 4 + k * z + z) =~= v.d.subrange(4 + k * z, 4 + k * z + z));
        assert(v.d.subrange(4 + k * z, 4 + k * z + z) =~= p.d.subrange(k * z, k * z + z));
    }
}
// for plain scalars the direct form writes the same bytes
pub open spec fn position_free<T: Push>() -> bool { forall|x: T, a: int, b: int| #[trigger] x.push_bytes(a) == #[trigger] x.push_bytes(b) }
pub proof fn lemma_push_from_flat<T: Push>(s: St, items: Seq<T>, i: int)
    requires 0 <= i <= items.len(), s.used() % T::al() == 0, position_free::<T>(),
    ensures s.push_from(items, i).d == flat(items, i) + s.d, s.push_from(items, i).used() % T::al() == 0,
    decreases items.len() - i,
{
    if i < items.len() {
        lemma_push_from_flat(s, items, i + 1);
        let p = s.push_from(items, i + 1);
        lemma_push_aligned(p, items[i]);
        assert(items[i].push_bytes(p.used()) == items[i].push_bytes(0));
        assert(s.push_from(items, i).d =~= flat(items, i) + s.d);
    } else { assert(flat(items, i) + s.d =~= s.d); }
}
pub proof fn prop_r10_direct<T: Push>(s: St, items: Seq<T>)
    requires position_free::<T>(),
    ensures s.vector_direct(items).d == s.vector(items).d, s.vector_direct(items).min_align == s.vector(items).min_align,
{
    T::lemma_push_layout();
    let n = items.len() as int;
    lemma_vector_start::<T>(s, n);
    let a = s.align(n * T::sz(), imax(T::al(), 4));
    lemma_push_from_flat(a, items, 0);
    lemma_min_align_eq(a, items, 0);
}
pub proof fn lemma_min_align_eq<T: Push>(s: St, items: Seq<T>, i: int)
    requires 0 <= i <= items.len(), s.min_align >= T::al(),
    ensures s.push_from(items, i).min_align == s.min_align,
    decreases items.len() - i,
{
    if i < items.len() { lemma_min_align_eq(s, items, i + 1); }
}
//@ foreach T bool u8 i8 u16 i16 u32 i32 u64 i64 f32 f64
pub proof fn prop_r10_direct_$T(s: St, items: Seq<$T>)
    ensures s.vector_direct(items).d == s.vector(items).d,
{ prop_r10_direct(s, items); }
// element k of a scalar vector reads back as the value written
pub proof fn prop_r10_read_$T<'a>(s: St, items: Seq<$T>, f: Seq<u8>, k: int, r: Result<$T, Error>)
    requires s.inv(), s.vector(items).fits(), f.len() >= s.vector(items).used(), 0 <= k < items.len(),
        f.subrange(f.len() - s.vector(items).used(), f.len() as int) == s.vector(items).d,
        <$T as Follow<'a>>::follow_post(f, f.len() - s.vector(items).used() + 4 + size_of::<$T>() * k, r),
    ensures r == Ok::<$T, Error>(items[k]),
{
    prop_r10_vector(s, items, f);
    <$T as Push>::lemma_push_layout();
    let z = <$T as Push>::sz(); let n = items.len() as int;
    assert(size_of::<$T>() * k == k * z) by(nonlinear_arith) requires size_of::<$T>() == z;
    assert(0 <= k * z && k * z + z <= n * z) by(nonlinear_arith) requires 0 <= k < n, z >= 1;
    let b = items[k].push_bytes(s.align(n * z, imax(<$T as Push>::al(), 4)).used() + (n - 1 - k) * z);
    prop_r08_read_$T(f, f.len() - s.vector(items).used() + 4 + k * z, items[k], r);
}
//@ endforeach
// a created string reads back: length, bytes, terminator
pub proof fn prop_r10_string(s: St, b: Seq<u8>, f: Seq<u8>)
    requires s.inv(), s.byte_string(b).fits(), f.len() >= s.byte_string(b).used(),
        f.subrange(f.len() - s.byte_string(b).used(), f.len() as int) == s.byte_string(b).d,
    ensures ({
        let loc = f.len() - s.byte_string(b).used();
        let e = loc + 4 + b.len();
        &&& e < f.len()
        &&& u32_at(f, loc) == b.len()
        &&& f.subrange(loc + 4, e) == b
        &&& f[e] == 0
    }),
{
    let t = s.byte_string(b); let n = b.len() as int;
    let a1 = s.align(n + 1, 4); let a2 = a1.push(0u8); let a3 = a2.prepend(b);
    lemma_string_grows(s, b);
    lemma_pad(s.used() + n + 1, 4);
    lemma_push_aligned_u8(a1);
    assert(a3.used() == a1.used() + 1 + n);
    assert(a3.used() % 4 == 0);
    lemma_push_aligned(a3, b.len() as u32);
    lemma_dec_enc32(n as u32);
    assert(t.d =~= enc32(n as u32) + b + seq![0u8] + a1.d);
    let loc = f.len() - t.used();
    assert(f.subrange(loc, loc + 4) =~= t.d.subrange(0, 4));
    assert(t.d.subrange(0, 4) =~= enc32(n as u32));
    assert(f.subrange(loc + 4, loc + 4 + n) =~= t.d.subrange(4, 4 + n));
    assert(t.d.subrange(4, 4 + n) =~= b);
    assert(f[loc + 4 + n] == t.d[4 + n]) by { assert(f.subrange(loc, f.len() as int)[4 + n] == t.d[4 + n]); }
}
pub proof fn lemma_push_aligned_u8(s: St)
    ensures s.push(0u8).d == seq![0u8] + s.d, s.push(0u8).used() == s.used() + 1,
{ lemma_push_aligned(s, 0u8); }
pub proof fn prop_r10_read_str<'a>(s: St, x: &str, f: Seq<u8>, r: Result<&'a str, Error>)
    requires s.inv(), s.byte_string(x.spec_bytes()).fits(), f.len() >= s.byte_string(x.spec_bytes()).used(),
        f.subrange(f.len() - s.byte_string(x.spec_bytes()).used(), f.len() as int) == s.byte_string(x.spec_bytes()).d,
        <&'a str as Follow<'a>>::follow_post(f, f.len() - s.byte_string(x.spec_bytes()).used(), r),
    ensures r is Ok, r->Ok_0.spec_bytes() == x.spec_bytes(),
{
    axiom_str_utf8(x);
    prop_r10_string(s, x.spec_bytes(), f);
}
// std: a str is valid UTF-8
pub axiom fn axiom_str_utf8(s: &str) ensures vstd::utf8::valid_utf8(s.spec_bytes());
// a vector of strings: following element k leads to string k
pub proof fn prop_r10_strings<'a, 'x>(s: St, xs: Seq<&str>, offs: Seq<WIPOffset<&'x str>>, f: Seq<u8>, k: int, r: Result<&'a str, Error>)
    requires s.inv(), 0 <= k < xs.len(), s.str_offs(xs, offs), f.len() <= 0x8000_0020,
        s.strings_from(xs, 0).vector(offs).fits(),
        f.len() >= s.strings_from(xs, 0).vector(offs).used(),
        f.subrange(f.len() - s.strings_from(xs, 0).vector(offs).used(), f.len() as int) == s.strings_from(xs, 0).vector(offs).d,
        <ForwardsUOffset<&'a str> as Follow<'a>>::follow_post(f, f.len() - s.strings_from(xs, 0).vector(offs).used() + 4 + 4 * k, r),
    ensures r is Ok, r->Ok_0.spec_bytes() == xs[k].spec_bytes(),
{
    hide(St::inv); hide(St::byte_string); hide(St::vector);
    let s1 = s.strings_from(xs, 0); let v = s1.vector(offs); let n = xs.len() as int;
    lemma_strings_grow(s, xs, 0);
    prop_r06_vector(s1, offs);
    lemma_strings_inv(s, xs, 0);
    lemma_r10_elem(s1, offs, f, k);
    let base = s1.align(n * 4, 4).used();
    let rest = base + (n - 1 - k) * 4;
    let loc = f.len() - v.used();
    let t = s.strings_from(xs, k + 1);
    let u = s.strings_from(xs, k);
    assert(offs[k].0 == u.used());
    assert(s1.used() >= u.used());
    prop_r08_read_offset::<&'a str>(f, rest, WIPOffset(offs[k].0, PhantomData), r);
    lemma_strings_sub(s, xs, k, 0);
    lemma_appends_trans(u, s1, v);
    assert(f.subrange(f.len() - u.used(), f.len() as int) =~= v.d.subrange(v.used() - u.used(), v.used()));
    lemma_strings_inv(s, xs, k + 1);
    prop_r10_read_str(t, xs[k], f, r);
}
pub proof fn lemma_r10_elem<T>(s1: St, offs: Seq<WIPOffset<T>>, f: Seq<u8>, k: int)
    requires s1.inv(), 0 <= k < offs.len(), s1.vector(offs).fits(), f.len() >= s1.vector(offs).used(), f.len() <= 0x8000_0020,
        f.subrange(f.len() - s1.vector(offs).used(), f.len() as int) == s1.vector(offs).d,
    ensures ({
        let n = offs.len() as int;
        let rest = s1.align(n * 4, 4).used() + (n - 1 - k) * 4;
        &&& s1.align(n * 4, 4).used() >= s1.used()
        &&& f.len() - rest - 4 == f.len() - s1.vector(offs).used() + 4 + 4 * k
        &&& rest + 4 <= f.len()
        &&& f.subrange(f.len() - rest - 4, f.len() - rest) == enc32((4 + rest - offs[k].0) as u32)
    }),
{
    let n = offs.len() as int;
    prop_r10_vector(s1, offs, f);
    lemma_pad(s1.used() + n * 4, 4);
    lemma_vector_size(s1, offs);
    let rest = s1.align(n * 4, 4).used() + (n - 1 - k) * 4;
    let loc = f.len() - s1.vector(offs).used();
    assert(f.subrange(loc + 4 + k * 4, loc + 4 + k * 4 + 4) == offs[k].push_bytes(rest));
}
pub proof fn lemma_strings_sub(s: St, xs: Seq<&str>, k: int, i: int)
    requires 0 <= i <= k <= xs.len(),
    ensures appends(s.strings_from(xs, k), s.strings_from(xs, i)),
    decreases k - i,
{
    if i < k {
        lemma_strings_sub(s, xs, k, i + 1);
        prop_r06_byte_string(s.strings_from(xs, i + 1), xs[i].spec_bytes());
        lemma_appends_trans(s.strings_from(xs, k), s.strings_from(xs, i + 1), s.strings_from(xs, i));
    } else { let t = s.strings_from(xs, k); lemma_appends_prefix(t, t, Seq::empty()); assert(t.d =~= Seq::<u8>::empty() + t.d); }
}
pub proof fn lemma_appends_inv(s: St, t: St)
    requires s.inv(), appends(s, t), t.fits(), t.fl == s.fl, t.vts == s.vts, t.min_align == 0 || align_ok(t.min_align),
    ensures t.inv(),
{
    let x = t.d.subrange(0, t.used() - s.used());
    assert(t.d =~= x + s.d);
    lemma_prepend_inv(s, x);
    let u = s.prepend(x);
    assert forall|i: int| 0 <= i < t.vts.len() implies vt_ok(t.d, #[trigger] t.vts[i] as int) by { assert(vt_ok(u.d, u.vts[i] as int)); }
}
pub proof fn lemma_strings_inv(s: St, xs: Seq<&str>, i: int)
    requires s.inv(), 0 <= i <= xs.len(), s.strings_from(xs, i).fits(),
    ensures s.strings_from(xs, i).inv(),
    decreases xs.len() - i,
{
    if i < xs.len() {
        lemma_strings_grow(s, xs, i);
        lemma_strings_inv(s, xs, i + 1);
        let t = s.strings_from(xs, i + 1); let b = xs[i].spec_bytes();
        prop_r06_byte_string(t, b);
        lemma_string_grows(t, b);
        lemma_appends_inv(t, s.strings_from(xs, i));
    }
}

// ------------------------------------------------------------------ R11: finished buffers
pub proof fn prop_r11_finished<T>(s: St, root: WIPOffset<T>, ident: Option<Seq<u8>>, sized: bool)
    requires s.inv(), ident is Some ==> ident->Some_0.len() == 4, root.0 <= s.used(), s.used() + 28 <= 0x8000_0000,
    ensures ({
        let f = s.finish(root, ident, sized).d;
        let z: int = if sized { 4 } else { 0 };
        &&& f.len() >= z + 4 && f.len() <= s.used() + 28
        // the root offset leads to the root object, counted from the offset itself
        &&& z + u32_at(f, z) == f.len() - root.0
        // the size prefix counts everything after it
        &&& sized ==> u32_at(f, 0) == f.len() - 4
        // the identifier follows the root offset
        &&& ident is Some ==> f.subrange(z + 4, z + 8) == ident->Some_0
        // whatever was written with an alignment up to min_align is aligned from the start
        &&& f.len() as int % imax(s.min_align, 4) == 0
        &&& f.len() as int % 4 == 0
        &&& s.finish(root, ident, sized).finished && s.finish(root, ident, sized).vts.len() == 0
    }),
{
    hide(pad);
    lemma_finish_layout(s, root, ident, sized);
    let fs = s.finish(root, ident, sized);
    assert(fs.finished && fs.vts.len() == 0);
    let p = pad(s.used() + St::finish_lead(ident, sized), imax(s.min_align, 4));
    assert(align_ok(imax(s.min_align, 4)));
    lemma_fin_bytes(fs.d, s.d, p, imax(s.min_align, 4), ident, sized, root.0 as int);
}
pub proof fn lemma_fin_bytes(f: Seq<u8>, d: Seq<u8>, p: int, a: int, ident: Option<Seq<u8>>, sized: bool, root: int)
    requires ident is Some ==> ident->Some_0.len() == 4, 0 <= root <= d.len(), d.len() + 28 <= 0x8000_0000,
        0 <= p < 16, align_ok(a), a >= 4, f.len() == St::finish_lead(ident, sized) + p + d.len(), f.len() as int % a == 0,
        f == (if sized { enc32((f.len() - 4) as u32) } else { Seq::empty() })
                + enc32((f.len() - (if sized { 4int } else { 0 }) - root) as u32)
                + (match ident { Some(b) => b, None => Seq::<u8>::empty() }) + zeros(p as nat) + d,
    ensures ({
        let z: int = if sized { 4 } else { 0 };
        &&& f.len() >= z + 4 && f.len() <= d.len() + 28
        &&& z + u32_at(f, z) == f.len() - root
        &&& sized ==> u32_at(f, 0) == f.len() - 4
        &&& ident is Some ==> f.subrange(z + 4, z + 8) == ident->Some_0
        &&& f.len() as int % 4 == 0
    }),
{
    let z: int = if sized { 4 } else { 0 };
    let idn = match ident { Some(b) => b, None => Seq::<u8>::empty() };
    lemma_mod_div(f.len() as int, a, 4);
    assert((if sized { enc32((f.len() - 4) as u32) } else { Seq::empty() }) + enc32((f.len() - z - root) as u32) + idn + zeros(p as nat) + d
        =~= (if sized { enc32((f.len() - 4) as u32) } else { Seq::empty() }) + enc32((f.len() - z - root) as u32) + idn + (zeros(p as nat) + d));
    lemma_lead(f, sized, (f.len() - 4) as u32, (f.len() - z - root) as u32, idn, zeros(p as nat) + d);
}
pub proof fn lemma_lead(f: Seq<u8>, sized: bool, a: u32, b: u32, idn: Seq<u8>, rest: Seq<u8>)
    requires f =~= (if sized { enc32(a) } else { Seq::empty() }) + enc32(b) + idn + rest,
    ensures sized ==> u32_at(f, 0) == a, u32_at(f, if sized { 4 } else { 0 }) == b,
        idn.len() == 4 && !sized ==> f.subrange(4, 8) == idn, idn.len() == 4 && sized ==> f.subrange(8, 12) == idn,
{
    lemma_dec_enc32(a); lemma_dec_enc32(b);
    if sized {
        assert(f.subrange(0, 4) =~= enc32(a));
        assert(f.subrange(4, 8) =~= enc32(b));
        if idn.len() == 4 { assert(f.subrange(8, 12) =~= idn); }
    } else {
        assert(f.subrange(0, 4) =~= enc32(b));
        if idn.len() == 4 { assert(f.subrange(4, 8) =~= idn); }
    }
}
// get_root on the finished bytes lands on the root object
pub proof fn prop_r11_root<B>(s: St, root: WIPOffset<u8>, ident: Option<Seq<u8>>, t: Table<B>, buf: B) where B: std::convert::AsRef<[u8]>
    requires s.inv(), ident is Some ==> ident->Some_0.len() == 4, root.0 <= s.used(), s.used() + 28 <= 0x8000_0000,
        as_ref_spec(&buf) == s.finish(root, ident, false).d,
        t == (Table { buf, loc: u32_at(as_ref_spec(&buf), 0) as usize }),
    ensures t.loc == s.finish(root, ident, false).used() - root.0,
{ prop_r11_finished(s, root, ident, false); }

// ------------------------------------------------------------------ R12: determinism
// every builder operation is a function of the abstract state (the contracts), a new or
// reset builder has the initial state whatever its capacity, and the only choice in a
// contract (the offsets of a vector of strings) is unique
pub proof fn prop_r12_strings<'x>(s: St, xs: Seq<&str>, o1: Seq<WIPOffset<&'x str>>, o2: Seq<WIPOffset<&'x str>>)
    requires s.str_offs(xs, o1), s.str_offs(xs, o2),
    ensures s.strings_from(xs, 0).vector(o1) == s.strings_from(xs, 0).vector(o2),
{
    assert forall|i: int| 0 <= i < o1.len() implies o1[i] == o2[i] by { assert(o1[i].0 == o2[i].0); }
    assert(o1 =~= o2);
}
pub proof fn prop_r12_bytes<'a, 'b>(a: FlatBufferBuilder<'a>, b: FlatBufferBuilder<'b>)
    requires a.st() == b.st(),
    ensures a.owned_buf@.subrange(a.head as int, a.owned_buf@.len() as int) == b.owned_buf@.subrange(b.head as int, b.owned_buf@.len() as int),
{
    assert(a.st().d == b.st().d);
}

// ------------------------------------------------------------------ R13: size limit
pub proof fn prop_r13_limit<'a>(a: FlatBufferBuilder<'a>)
    requires a.wf(),
    ensures a.st().used() <= 0x8000_0000, forall|i: int| 0 <= i < a.st().vts.len() ==> (#[trigger] a.st().vts[i]) <= 0x8000_0000,
        forall|i: int| 0 <= i < a.st().fl.len() ==> (#[trigger] a.st().fl[i]).off <= 0x8000_0000,
{
    assert forall|i: int| 0 <= i < a.st().vts.len() implies (#[trigger] a.st().vts[i]) <= 0x8000_0000 by { assert(vt_ok(a.st().d, a.st().vts[i] as int)); }
}
// the offset written for an object is exact: it did not wrap
pub proof fn prop_r13_offset<T>(x: WIPOffset<T>, rest: int)
    requires x.push_req(rest), rest <= 0x8000_0000,
    ensures dec32(x.push_bytes(rest)) == 4 + rest - x.0,
{ lemma_dec_enc32((4 + rest - x.0) as u32); }

// ------------------------------------------------------------------ R02: reading is total
// following is defined for every buffer and every location up to m
pub open spec fn total<'a, T: Follow<'a>>(m: int) -> bool {
    forall|buf: Seq<u8>, loc: int| buf.len() <= BUFMAX() && 0 <= loc <= m ==> #[trigger] T::follow_req(buf, loc)
}
pub open spec fn RLOC() -> int { LOCMAX() + 0x10_0000_0000_0000 }
//@ foreach T bool u8 i8 u16 i16 u32 i32 u64 i64 f32 f64
pub proof fn prop_r02_$T<'a>() ensures total::<'a, $T>(0x7fff_ffff_ffff_ffff) {}
//@ endforeach
pub proof fn prop_r02_str<'a>() ensures total::<'a, &'a str>(0x7fff_ffff_ffff_ffff) {}
// a slice of plain scalars can be taken of any bytes (of bool it cannot: known finding)
//@ foreach T u8 i8 u16 i16 u32 i32 u64 i64 f32 f64
pub proof fn prop_r02_slice_$T<'a>() ensures total::<'a, &'a [$T]>(0x7fff_0000_0000_0000)
{ axiom_mem_scalar::<$T>(); axiom_float_layout(); }
// slice views and indexing agree: both decode the same bytes
pub proof fn prop_r05_slice_$T<'a>(v: Vector<'a, $T>, k: int, s: Result<&'a [$T], Error>, r: Result<$T, Error>)
    requires v.ok(), slice_post::<$T>(v.0@, v.1 as int, s), s is Ok, 0 <= k < v.count(), <$T as Follow<'a>>::follow_post(v.0@, v.elem(k), r),
    ensures s->Ok_0@.len() == v.count(), r is Ok, s->Ok_0@[k] == r->Ok_0,
{
    axiom_mem_scalar::<$T>(); axiom_float_layout(); <$T as EndianScalar>::lemma_size();
    lemma_elem_bound(size_of::<$T>() as int, k, v.count()); lemma_elem_bound(size_of::<$T>() as int, k + 1, v.count());
    let x = s->Ok_0@[k]; assert(x == mem_val::<$T>(vec_elem::<$T>(v.0@, v.1 as int, k)));
}
//@ endforeach
pub proof fn prop_r02_vector<'a, T: Follow<'a>>() ensures total::<'a, Vector<'a, T>>(0x7fff_ffff_ffff_ffff) {}
pub proof fn prop_r02_vtable<'a>() ensures total::<'a, VTable<'a>>(0x7fff_ffff_ffff_ffff) {}
pub proof fn prop_r02_uoffset<'a, T: Follow<'a>>(m: int)
    requires total::<'a, T>(m + 0xffff_ffff), 0 <= m <= 0x7fff_ffff_0000_0000,
    ensures total::<'a, ForwardsUOffset<T>>(m),
{}
pub proof fn prop_r02_voffset<'a, T: Follow<'a>>(m: int)
    requires total::<'a, T>(m + 0xffff), 0 <= m <= 0x7fff_ffff_0000_0000,
    ensures total::<'a, ForwardsVOffset<T>>(m),
{}
pub proof fn prop_r02_soffset<'a, T: Follow<'a>>(m: int)
    requires total::<'a, T>(m + 0x8000_0000), 0 <= m <= LOCMAX(),
    ensures total::<'a, BackwardsSOffset<T>>(m),
{}
pub proof fn prop_r02_skip<'a, T: Follow<'a>>(m: int)
    requires total::<'a, T>(m + 4), 0 <= m <= 0x7fff_ffff_0000_0000,
    ensures total::<'a, SkipSizePrefix<T>>(m), total::<'a, SkipRootOffset<T>>(m), total::<'a, SkipFileIdentifier<T>>(m),
        total::<'a, FileIdentifier>(m), total::<'a, FollowStart<T>>(m),
{}
// every element of every vector can be read or reported as out of bounds
pub proof fn prop_r02_elems<'a, T: Follow<'a>>(v: Vector<'a, T>)
    requires total::<'a, T>(RLOC()), v.ok(), elem_size_ok::<T>(),
    ensures v.elems_req(),
{
    if v.has_len() {
        assert forall|i: int| 0 <= i < v.count() implies T::follow_req(v.0@, #[trigger] v.elem(i)) by {
            lemma_elem_bound(size_of::<T>() as int, i, v.count());
        }
    }
}
// every slot of every table can be read or reported
pub proof fn prop_r02_table<'a, B, T: Follow<'a>>(t: Table<B>, s: int) where B: std::convert::AsRef<[u8]>
    requires total::<'a, T>(RLOC()), t.ok(), s >= 0,
    ensures match t.slot(s) { Ok(o) => T::follow_req(t.bytes(), t.loc + o), Err(_) => true },
{}
// the root of every buffer lies where a table may be read from
pub proof fn prop_r02_root<B>(buf: B, t: Table<B>) where B: std::convert::AsRef<[u8]>
    requires as_ref_spec(&buf).len() <= BUFMAX(), t.buf == buf, 0 <= t.loc <= 4 + 0xffff_ffff,
    ensures t.ok(),
{}
// following n offsets in a row from a location in the buffer stays in range: each step
// starts inside the buffer (a location outside it is reported, not followed)
pub proof fn prop_r02_chain<'a>()
    ensures total::<'a, ForwardsUOffset<ForwardsUOffset<&'a str>>>(LOCMAX()), total::<'a, ForwardsUOffset<Vector<'a, u8>>>(LOCMAX()),
{
    prop_r02_str(); prop_r02_uoffset::<&'a str>(LOCMAX() + 0xffff_ffff); prop_r02_uoffset::<ForwardsUOffset<&'a str>>(LOCMAX());
    prop_r02_vector::<u8>(); prop_r02_uoffset::<Vector<'a, u8>>(LOCMAX());
}
// ------------------------------------------------------------------ R01: scalar encoding
//@ foreach T bool u8 i8 u16 i16 u32 i32 u64 i64 f32 f64
pub proof fn prop_r01_$T(x: $T)
    ensures <$T as EndianScalar>::dec(x.enc()) == x, x.enc().len() == size_of::<$T>(), x.push_bytes(0) == x.enc(),
{ x.lemma_scalar(); <$T as EndianScalar>::lemma_size(); }
//@ endforeach
