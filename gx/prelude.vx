// Vocabulary for the contracts of emitted code, over the contracts of the runtime.
pub mod gpre {
use vstd::prelude::*;
use crate::*;

pub closed spec fn ends(f: Seq<u8>, d: Seq<u8>) -> bool { d.len() <= f.len() && f.subrange(f.len() - d.len(), f.len() as int) == d }
// the bytes of x, off bytes before the end of d
pub closed spec fn at<P: Push>(d: Seq<u8>, off: int, x: P) -> bool {
    P::sz() <= off <= d.len() && d.subrange(d.len() - off, d.len() - off + P::sz()) == x.push_bytes(off - P::sz())
}
// the table under construction has the field `id` with value x
pub closed spec fn has<P: Push>(s: St, id: int, x: P) -> bool {
    exists|k: int| 0 <= k < s.fl.len() && (#[trigger] s.fl[k]).id == id && at(s.d, s.fl[k].off as int, x)
}
pub closed spec fn lacks(s: St, id: int) -> bool { forall|k: int| 0 <= k < s.fl.len() ==> (#[trigger] s.fl[k]).id != id }
// a table under construction since `tail`
pub closed spec fn tab(s: St, tail: int) -> bool {
    &&& s.inv() && s.nested && fl_ok(s.fl) && fl_legal(s.fl) && 0 <= tail <= s.used()
    &&& forall|k: int| 0 <= k < s.fl.len() ==> (#[trigger] s.fl[k]).off > tail
}
// b is a with nothing changed and at most the field `id` entered
pub closed spec fn added(a: St, b: St, id: int) -> bool {
    &&& appends(a, b) && b.vts == a.vts && b.nested == a.nested && b.finished == a.finished
    &&& (b.fl == a.fl || (b.fl.len() == a.fl.len() + 1 && b.fl.last().id == id && a.used() < b.fl.last().off <= b.used() && b.fl.subrange(0, a.fl.len() as int) == a.fl))
}
// the field is entered with value x, or (only if `skip`) not entered
pub closed spec fn put<P: Push>(a: St, b: St, id: int, x: P, skip: bool) -> bool { (skip && b == a) || has(b, id, x) }
// left out exactly when it is the default (by value; by the type's own comparison)
pub closed spec fn putd<P: Push>(a: St, b: St, id: int, x: P, d: P) -> bool { put(a, b, id, x, x == d) }
pub closed spec fn putf<P: Push + PartialEq>(a: St, b: St, id: int, x: P, d: P) -> bool { put(a, b, id, x, same_value(x, d)) }
// the object, if there is one, is among the last n bytes
pub closed spec fn below<T>(o: Option<WIPOffset<T>>, n: int) -> bool { o is Some ==> o->Some_0.0 <= n }
pub broadcast proof fn lemma_below_def<T>(o: Option<WIPOffset<T>>, n: int)
    ensures #[trigger] below(o, n) == (o is Some ==> o->Some_0.0 <= n),
{}
pub proof fn lemma_below<T>(o: Option<WIPOffset<T>>, n: int, m: int)
    requires below(o, n), n <= m,
    ensures below(o, m),
{}
pub broadcast proof fn lemma_putd_def<P: Push>(a: St, b: St, id: int, x: P, d: P)
    ensures #[trigger] putd(a, b, id, x, d) == put(a, b, id, x, x == d),
{}
pub broadcast proof fn lemma_putf_def<P: Push + PartialEq>(a: St, b: St, id: int, x: P, d: P)
    ensures #[trigger] putf(a, b, id, x, d) == put(a, b, id, x, same_value(x, d)),
{}
// the field is entered exactly if there is a value, with that value
pub closed spec fn opt<P: Push>(a: St, b: St, id: int, o: Option<P>) -> bool { match o { Some(x) => has(b, id, x), None => b == a } }
// b is a with fields of ids entered, each at most once
pub closed spec fn chain(a: St, b: St, ids: ISet<int>) -> bool {
    &&& appends(a, b) && b.vts == a.vts && b.nested == a.nested && b.finished == a.finished
    &&& a.fl.len() <= b.fl.len() && b.fl.subrange(0, a.fl.len() as int) == a.fl
    &&& forall|k: int| a.fl.len() <= k < b.fl.len() ==> ids.contains((#[trigger] b.fl[k]).id as int) && 4 <= b.fl[k].id <= 0xfffc && b.fl[k].id % 2 == 0 && a.used() < b.fl[k].off <= b.used()
    &&& forall|j: int, k: int| a.fl.len() <= j < k < b.fl.len() ==> (#[trigger] b.fl[j]).id != (#[trigger] b.fl[k]).id
}
// in every buffer that ends with these bytes the table `obj` bytes before the end
// has x in the slot `id`, or nothing
pub closed spec fn stored<P: Push>(f: Seq<u8>, loc: int, id: int, x: P) -> bool {
    exists|o: int| 0 < o && #[trigger] tab_slot(f, loc, id) == Ok::<int, Error>(o) && at(f, f.len() - loc - o, x)
}
pub closed spec fn reads<P: Push>(d: Seq<u8>, obj: int, id: int, x: P) -> bool {
    forall|f: Seq<u8>| #[trigger] ends(f, d) && f.len() <= 0x8000_0020 ==> stored(f, f.len() - obj, id, x)
}
pub closed spec fn absent(d: Seq<u8>, obj: int, id: int) -> bool {
    forall|f: Seq<u8>| #[trigger] ends(f, d) && f.len() <= 0x8000_0020 ==> tab_slot(f, f.len() - obj, id) == Ok::<int, Error>(0)
}
pub proof fn lemma_ends_sub(f: Seq<u8>, d: Seq<u8>, a: int, b: int)
    requires ends(f, d), 0 <= a <= b <= d.len(),
    ensures f.subrange(f.len() - d.len() + a, f.len() - d.len() + b) == d.subrange(a, b),
{ assert(f.subrange(f.len() - d.len() + a, f.len() - d.len() + b) =~= f.subrange(f.len() - d.len(), f.len() as int).subrange(a, b)); }
pub proof fn lemma_at_mono<P: Push>(d: Seq<u8>, f: Seq<u8>, off: int, x: P)
    requires at(d, off, x), ends(f, d), P::sz() >= 0,
    ensures at(f, off, x),
{ lemma_ends_sub(f, d, d.len() - off, d.len() - off + P::sz()); }
pub proof fn lemma_chain_none(a: St)
    ensures chain(a, a, ISet::empty()),
{ assert(a.d.subrange(0, a.d.len() as int) =~= a.d); assert(a.fl.subrange(0, a.fl.len() as int) =~= a.fl); }
proof fn lemma_chain_trans(a: St, b: St, c: St, s: ISet<int>, t: ISet<int>)
    requires chain(a, b, s), chain(b, c, t), s.disjoint(t),
    ensures chain(a, c, s.union(t)),
{
    lemma_appends_trans(a, b, c);
    assert(c.fl.subrange(0, a.fl.len() as int) =~= a.fl) by {
        assert forall|k: int| 0 <= k < a.fl.len() implies c.fl[k] == a.fl[k] by { assert(c.fl.subrange(0, b.fl.len() as int)[k] == b.fl[k]); assert(b.fl.subrange(0, a.fl.len() as int)[k] == a.fl[k]); }
    }
    assert forall|k: int| a.fl.len() <= k < b.fl.len() implies c.fl[k] == b.fl[k] by { assert(c.fl.subrange(0, b.fl.len() as int)[k] == b.fl[k]); }
    assert forall|k: int| a.fl.len() <= k < c.fl.len() implies s.union(t).contains((#[trigger] c.fl[k]).id as int) && 4 <= c.fl[k].id <= 0xfffc && c.fl[k].id % 2 == 0 && a.used() < c.fl[k].off <= c.used() by {
        if k < b.fl.len() { assert(c.fl[k] == b.fl[k]); }
    }
    assert forall|j: int, k: int| a.fl.len() <= j < k < c.fl.len() implies (#[trigger] c.fl[j]).id != (#[trigger] c.fl[k]).id by {
        if j < b.fl.len() { assert(c.fl[j] == b.fl[j]); assert(s.contains(c.fl[j].id as int)); }
        if k < b.fl.len() { assert(c.fl[k] == b.fl[k]); } else { assert(t.contains(c.fl[k].id as int)); }
    }
}
proof fn lemma_chain_one(a: St, b: St, id: int)
    requires added(a, b, id), 4 <= id <= 0xfffc, id % 2 == 0,
    ensures chain(a, b, ISet::empty().insert(id)),
{ assert(a.fl.subrange(0, a.fl.len() as int) =~= a.fl); }
pub proof fn lemma_chain_fwd(a: St, b: St, c: St, s: ISet<int>, id: int)
    requires chain(a, b, s), added(b, c, id), !s.contains(id), 4 <= id <= 0xfffc, id % 2 == 0,
    ensures chain(a, c, s.insert(id)),
{ lemma_chain_one(b, c, id); let t = ISet::<int>::empty().insert(id); lemma_chain_trans(a, b, c, s, t); assert(s.union(t) =~= s.insert(id)); }
pub proof fn lemma_chain_back(a: St, b: St, c: St, s: ISet<int>, id: int)
    requires added(a, b, id), chain(b, c, s), !s.contains(id), 4 <= id <= 0xfffc, id % 2 == 0,
    ensures chain(a, c, s.insert(id)),
{ lemma_chain_one(a, b, id); let t = ISet::<int>::empty().insert(id); lemma_chain_trans(a, b, c, t, s); assert(t.union(s) =~= s.insert(id)); }
// the same, with the fields entered in increasing order
pub open spec fn upto(n: int) -> ISet<int> { ISet::new(|x: int| x < n) }
pub open spec fn from(n: int) -> ISet<int> { ISet::new(|x: int| x >= n) }
proof fn lemma_chain_sub(a: St, b: St, s: ISet<int>, t: ISet<int>)
    requires chain(a, b, s), s.subset_of(t),
    ensures chain(a, b, t),
{}
pub proof fn lemma_chain_weak(a: St, b: St, t: ISet<int>)
    requires chain(a, b, ISet::empty()),
    ensures chain(a, b, t),
{ lemma_chain_sub(a, b, ISet::empty(), t); }
pub proof fn lemma_chain_up(a: St, b: St, c: St, n: int, id: int)
    requires chain(a, b, upto(n)), added(b, c, id), n <= id, 4 <= id <= 0xfffc, id % 2 == 0,
    ensures chain(a, c, upto(id + 1)),
{ lemma_chain_fwd(a, b, c, upto(n), id); lemma_chain_sub(a, c, upto(n).insert(id), upto(id + 1)); }
pub proof fn lemma_chain_down(a: St, b: St, c: St, n: int, id: int)
    requires added(a, b, id), chain(b, c, from(n)), id < n, 4 <= id <= 0xfffc, id % 2 == 0,
    ensures chain(a, c, from(id)),
{ lemma_chain_back(a, b, c, from(n), id); lemma_chain_sub(a, c, from(n).insert(id), from(id)); }
proof fn lemma_keep_has<P: Push>(a: St, b: St, s: ISet<int>, j: int, x: P)
    requires chain(a, b, s), has(a, j, x),
    ensures has(b, j, x),
{
    let k = choose|k: int| 0 <= k < a.fl.len() && (#[trigger] a.fl[k]).id == j && at(a.d, a.fl[k].off as int, x);
    P::lemma_push_layout();
    lemma_at_mono(a.d, b.d, a.fl[k].off as int, x);
    assert(b.fl.subrange(0, a.fl.len() as int)[k] == b.fl[k]);
}
proof fn lemma_chain_lacks(a: St, b: St, s: ISet<int>, id: int)
    requires chain(a, b, s), lacks(a, id), !s.contains(id),
    ensures lacks(b, id),
{
    assert forall|k: int| 0 <= k < b.fl.len() implies (#[trigger] b.fl[k]).id != id by {
        if k < a.fl.len() { assert(b.fl.subrange(0, a.fl.len() as int)[k] == b.fl[k]); }
    }
}
// the whole history of a table: o at its start, a and b around the field, c at its end
pub proof fn lemma_final_put<P: Push>(o: St, a: St, b: St, c: St, s: ISet<int>, t: ISet<int>, tail: int, id: int, x: P, skip: bool)
    requires o.fl.len() == 0, chain(o, a, s), put(a, b, id, x, skip), chain(b, c, t), !s.contains(id), !t.contains(id), endable(c, tail), 4 <= id, id % 2 == 0,
    ensures got(c.end_table(tail).d, c.table_obj().used(), id, x, skip), !skip ==> reads(c.end_table(tail).d, c.table_obj().used(), id, x) && !lacks(c, id),
{
    if has(b, id, x) { lemma_keep_has(b, c, t, id, x); lemma_reads(c, tail, id, x); }
    else { lemma_chain_lacks(o, a, s, id); lemma_chain_lacks(b, c, t, id); lemma_absent(c, tail, id); }
}
pub proof fn lemma_final_opt<P: Push>(o: St, a: St, b: St, c: St, s: ISet<int>, t: ISet<int>, tail: int, id: int, x: Option<P>)
    requires o.fl.len() == 0, chain(o, a, s), opt(a, b, id, x), chain(b, c, t), !s.contains(id), !t.contains(id), endable(c, tail), 4 <= id, id % 2 == 0,
    ensures gopt(c.end_table(tail).d, c.table_obj().used(), id, x),
{
    match x {
        Some(y) => { lemma_keep_has(b, c, t, id, y); lemma_reads(c, tail, id, y); }
        None => { lemma_chain_lacks(o, a, s, id); lemma_chain_lacks(b, c, t, id); lemma_absent(c, tail, id); }
    }
}
// the field `id` was entered between a and b and at no other time between o and c
pub closed spec fn frame(o: St, a: St, b: St, c: St, tail: int, id: int) -> bool {
    o.fl.len() == 0 && endable(c, tail) && 4 <= id && id % 2 == 0
    && exists|s: ISet<int>, t: ISet<int>| #[trigger] chain(o, a, s) && #[trigger] chain(b, c, t) && !s.contains(id) && !t.contains(id)
}
pub proof fn lemma_frame(o: St, a: St, b: St, c: St, s: ISet<int>, t: ISet<int>, tail: int, id: int)
    requires o.fl.len() == 0, chain(o, a, s), chain(b, c, t), !s.contains(id), !t.contains(id), endable(c, tail), 4 <= id, id % 2 == 0,
    ensures frame(o, a, b, c, tail, id),
{}
pub proof fn lemma_frame_put<P: Push>(o: St, a: St, b: St, c: St, tail: int, id: int, x: P, skip: bool)
    requires frame(o, a, b, c, tail, id), put(a, b, id, x, skip),
    ensures got(c.end_table(tail).d, c.table_obj().used(), id, x, skip), !skip ==> !lacks(c, id),
{
    let (s, t) = choose|s: ISet<int>, t: ISet<int>| #[trigger] chain(o, a, s) && #[trigger] chain(b, c, t) && !s.contains(id) && !t.contains(id);
    lemma_final_put(o, a, b, c, s, t, tail, id, x, skip);
}
pub proof fn lemma_frame_putd<P: Push>(o: St, a: St, b: St, c: St, tail: int, id: int, x: P, d: P)
    requires frame(o, a, b, c, tail, id), putd(a, b, id, x, d),
    ensures gotd(c.end_table(tail).d, c.table_obj().used(), id, x, d),
{ lemma_frame_put(o, a, b, c, tail, id, x, x == d); }
pub proof fn lemma_frame_putd_req<P: Push>(o: St, a: St, b: St, c: St, tail: int, id: int, x: P, d: P)
    requires frame(o, a, b, c, tail, id), putd(a, b, id, x, d), x != d,
    ensures gotd(c.end_table(tail).d, c.table_obj().used(), id, x, d), !lacks(c, id),
{ lemma_frame_put(o, a, b, c, tail, id, x, x == d); }
pub proof fn lemma_frame_putf<P: Push + PartialEq>(o: St, a: St, b: St, c: St, tail: int, id: int, x: P, d: P)
    requires frame(o, a, b, c, tail, id), putf(a, b, id, x, d),
    ensures gotf(c.end_table(tail).d, c.table_obj().used(), id, x, d),
{ lemma_frame_put(o, a, b, c, tail, id, x, same_value(x, d)); }
pub proof fn lemma_frame_opt<P: Push>(o: St, a: St, b: St, c: St, tail: int, id: int, x: Option<P>)
    requires frame(o, a, b, c, tail, id), opt(a, b, id, x),
    ensures gopt(c.end_table(tail).d, c.table_obj().used(), id, x),
{
    let (s, t) = choose|s: ISet<int>, t: ISet<int>| #[trigger] chain(o, a, s) && #[trigger] chain(b, c, t) && !s.contains(id) && !t.contains(id);
    lemma_final_opt(o, a, b, c, s, t, tail, id, x);
}
pub proof fn lemma_final_none(o: St, c: St, s: ISet<int>, tail: int, id: int)
    requires o.fl.len() == 0, chain(o, c, s), !s.contains(id), endable(c, tail), 4 <= id, id % 2 == 0,
    ensures absent(c.end_table(tail).d, c.table_obj().used(), id), lacks(c, id),
{ lemma_chain_lacks(o, c, s, id); lemma_absent(c, tail, id); }
pub proof fn lemma_final(o: St, c: St, s: ISet<int>, tail: int)
    requires o.inv(), o.nested, o.fl.len() == 0, tail == o.used(), chain(o, c, s), c.inv(),
    ensures tab(c, tail), ends(c.d, o.d),
{}
pub closed spec fn got<P: Push>(d: Seq<u8>, obj: int, id: int, x: P, skip: bool) -> bool { (skip && absent(d, obj, id)) || reads(d, obj, id, x) }
pub closed spec fn gotd<P: Push>(d: Seq<u8>, obj: int, id: int, x: P, v: P) -> bool { got(d, obj, id, x, x == v) }
pub closed spec fn gotf<P: Push + PartialEq>(d: Seq<u8>, obj: int, id: int, x: P, v: P) -> bool { got(d, obj, id, x, same_value(x, v)) }
pub closed spec fn gopt<P: Push>(d: Seq<u8>, obj: int, id: int, o: Option<P>) -> bool { match o { Some(x) => reads(d, obj, id, x), None => absent(d, obj, id) } }
pub proof fn lemma_end_ends(s: St, tail: int, d: Seq<u8>)
    requires endable(s, tail), ends(s.d, d),
    ensures ends(s.end_table(tail).d, d),
{ lemma_end_shape(s, tail); lemma_ends_trans(d, s.d, s.end_table(tail).d); }
pub proof fn lemma_ends_self(d: Seq<u8>)
    ensures ends(d, d),
{ assert(d.subrange(0, d.len() as int) =~= d); }
pub closed spec fn gst(b: FlatBufferBuilder) -> St { b.st() }
pub closed spec fn gwf(b: FlatBufferBuilder) -> bool { b.wf() }
pub broadcast proof fn lemma_gst(b: FlatBufferBuilder)
    ensures #[trigger] gst(b) == b.st(),
{}
pub broadcast proof fn lemma_gwf(b: FlatBufferBuilder)
    ensures #[trigger] gwf(b) == b.wf(),
{}
pub proof fn lemma_wf(b: FlatBufferBuilder)
    requires gwf(b),
    ensures gst(b).inv(),
{}
// entering one field
pub broadcast proof fn lemma_slot_added<P: Push>(s: St, id: u16, x: P)
    requires s.inv(), s.push(x).fits(),
    ensures added(s, #[trigger] s.slot(id, x), id as int), has(s.slot(id, x), id as int, x),
        s.used() <= s.slot(id, x).used() <= s.used() + P::sz() + P::al() - 1,
{
    let t = s.slot(id, x);
    lemma_push_grows(s, x); lemma_slot_inv(s, id, x); prop_r06_slot(s, id, x);
    P::lemma_push_layout(); x.lemma_push_len(s.push_rest::<P>());
    lemma_pad(s.used() + P::sz(), P::al());
    assert(t.fl.subrange(0, s.fl.len() as int) =~= s.fl);
    assert(t.d.subrange(0, P::sz()) =~= x.push_bytes(s.push_rest::<P>()));
    assert(t.fl[s.fl.len() as int].id == id);
}
pub broadcast proof fn lemma_none_added(s: St, id: int)
    ensures #[trigger] added(s, s, id),
{ assert(s.d.subrange(0, s.d.len() as int) =~= s.d); }
pub broadcast proof fn lemma_put_def<P: Push>(a: St, b: St, id: int, x: P, skip: bool)
    ensures #[trigger] put(a, b, id, x, skip) == ((skip && b == a) || has(b, id, x)),
{}
pub broadcast proof fn lemma_opt_def<P: Push>(a: St, b: St, id: int, o: Option<P>)
    ensures #[trigger] opt(a, b, id, o) == match o { Some(x) => has(b, id, x), None => b == a },
{}
// the end of the table
pub open spec fn endable(s: St, tail: int) -> bool { tab(s, tail) && s.used() + 0x1_0020 <= 0x7fff_ffff && s.used() + 8 - tail < 0x1_0000 }
pub broadcast proof fn lemma_endable(s: St, tail: int)
    requires #[trigger] endable(s, tail),
    ensures s.table_req(tail), s.table_legal(tail), s.nested, s.table_obj().used() <= s.used() + 7,
{
    lemma_table_obj(s);
    lemma_max_id(s.fl, s.fl.len() as int);
    if s.fl.len() > 0 {
        let k = choose|k: int| 0 <= k < s.fl.len() && (#[trigger] s.fl[k]).id == max_id(s.fl, s.fl.len() as int)->Some_0;
        assert(s.fl[k].id <= 0xfffd);
    }
}
proof fn lemma_ended(s: St, tail: int, f: Seq<u8>)
    requires endable(s, tail), ends(f, s.end_table(tail).d), f.len() <= 0x8000_0020,
    ensures s.table_req(tail), s.table_legal(tail), f.len() >= s.end_table(tail).used(),
        f.subrange(f.len() - s.end_table(tail).used(), f.len() as int) == s.end_table(tail).d, ends(f, s.d),
{
    lemma_endable(s, tail);
    lemma_end_table(s, tail);
    prop_r06_end_table(s, tail);
    let e = s.end_table(tail).d;
    lemma_ends_sub(f, e, e.len() - s.d.len(), e.len() as int);
}
pub proof fn lemma_reads<P: Push>(s: St, tail: int, id: int, x: P)
    requires endable(s, tail), has(s, id, x),
    ensures reads(s.end_table(tail).d, s.table_obj().used(), id, x),
{
    let e = s.end_table(tail).d; let obj = s.table_obj().used();
    assert forall|f: Seq<u8>| #[trigger] ends(f, e) && f.len() <= 0x8000_0020 implies stored(f, f.len() - obj, id, x) by {
        lemma_ended(s, tail, f);
        prop_r08_table(s, tail, f);
        let k = choose|k: int| 0 <= k < s.fl.len() && (#[trigger] s.fl[k]).id == id && at(s.d, s.fl[k].off as int, x);
        let loc = f.len() - obj; let o = obj - s.fl[k].off;
        assert(tab_slot(f, loc, s.fl[k].id as int) == Ok::<int, Error>(o));
        lemma_table_obj(s);
        P::lemma_push_layout();
        lemma_at_mono(s.d, f, s.fl[k].off as int, x);
    }
}
pub proof fn lemma_absent(s: St, tail: int, id: int)
    requires endable(s, tail), lacks(s, id), 4 <= id, id % 2 == 0,
    ensures absent(s.end_table(tail).d, s.table_obj().used(), id),
{
    let e = s.end_table(tail).d; let obj = s.table_obj().used();
    assert forall|f: Seq<u8>| #[trigger] ends(f, e) && f.len() <= 0x8000_0020 implies tab_slot(f, f.len() - obj, id) == Ok::<int, Error>(0) by {
        lemma_ended(s, tail, f);
        prop_r08_table(s, tail, f);
    }
}
pub broadcast proof fn lemma_required(s: St, tail: int, id: int)
    requires endable(s, tail), !lacks(s, id),
    ensures #![trigger s.end_table(tail), lacks(s, id)] required_ok(tab_slot(s.end_table(tail).d, s.end_table(tail).used() - s.table_obj().used(), id)),
{
    let f = s.end_table(tail).d;
    assert(f.subrange(0, f.len() as int) =~= f);
    lemma_endable(s, tail); lemma_end_table(s, tail);
    lemma_ended(s, tail, f);
    prop_r08_table(s, tail, f);
    let k = choose|k: int| 0 <= k < s.fl.len() && (#[trigger] s.fl[k]).id == id;
    assert(tab_slot(f, f.len() - s.table_obj().used(), s.fl[k].id as int) == Ok::<int, Error>(s.table_obj().used() - s.fl[k].off));
    lemma_table_obj(s);
}
pub proof fn lemma_end_shape(s: St, tail: int)
    requires endable(s, tail),
    ensures s.end_table(tail).fl.len() == 0, !s.end_table(tail).nested, s.end_table(tail).finished == s.finished,
        s.end_table(tail).inv(), ends(s.end_table(tail).d, s.d), s.end_table(tail).used() <= s.used() + 7 + 0x1_0000,
        s.table_obj().used() <= s.end_table(tail).used(), s.used() + 4 <= s.table_obj().used(),
{
    lemma_endable(s, tail); lemma_end_table(s, tail); prop_r06_end_table(s, tail); lemma_table_obj(s);
}
pub proof fn lemma_ends_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires ends(b, a), ends(c, b),
    ensures ends(c, a),
{
    lemma_ends_sub(c, b, b.len() - a.len(), b.len() as int);
}
pub broadcast group gadd { lemma_gst, lemma_gwf, lemma_put_def, lemma_putd_def, lemma_putf_def, lemma_below_def, lemma_opt_def, lemma_slot_added, lemma_none_added }
pub broadcast group gnew { lemma_gst, lemma_gwf }
pub broadcast group gfinish { lemma_gst, lemma_gwf, lemma_endable, lemma_required, lemma_not_required }
pub broadcast proof fn lemma_not_required(s: St, tail: int, id: int)
    requires endable(s, tail), lacks(s, id), 4 <= id, id % 2 == 0,
    ensures #![trigger s.end_table(tail), lacks(s, id)] !required_ok(tab_slot(s.end_table(tail).d, s.end_table(tail).used() - s.table_obj().used(), id)),
{
    let f = s.end_table(tail).d;
    assert(f.subrange(0, f.len() as int) =~= f);
    lemma_endable(s, tail); lemma_end_table(s, tail);
    lemma_absent(s, tail, id);
    assert(ends(f, f));
}
// floating point constants, by their bits
pub uninterp spec fn f32_of(b: u32) -> f32;
pub uninterp spec fn f64_of(b: u64) -> f64;
#[verifier::external_body]
pub fn vx_f32(b: u32) -> (r: f32) ensures r == f32_of(b) { f32::from_bits(b) }
#[verifier::external_body]
pub fn vx_f64(b: u64) -> (r: f64) ensures r == f64_of(b) { f64::from_bits(b) }
// ---- reading
impl<B> Table<B> where B: std::convert::AsRef<[u8]> {
    // a required field
    pub open spec fn req_post<'a, T: Follow<'a>>(&self, s: int, r: Result<T::Inner, Error>) -> bool {
        match self.slot(s) {
            Err(e) => r == Err::<T::Inner, Error>(e),
            Ok(o) => if o == 0 { r is Err && r->Err_0 is RequiredFieldMissing } else { T::follow_post(self.bytes(), self.loc + o, r) },
        }
    }
}
}
