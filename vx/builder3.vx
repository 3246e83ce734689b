// ------------------------------------------------------------------ tables, finishing
// the largest of the ids fl[0..n], or None
pub open spec fn max_id(fl: Seq<FieldLoc>, n: int) -> Option<u16>
    decreases n,
{
    if n <= 0 { None } else { match max_id(fl, n - 1) {
        None => Some(fl[n - 1].id),
        Some(m) => Some(if fl[n - 1].id > m { fl[n - 1].id } else { m }),
    } }
}
// std: the maximum of a mapped slice iterator
#[verifier::external_body]
pub fn vx_max_id(fl: &[FieldLoc]) -> (r: Option<u16>)
    ensures r == max_id(fl@, fl@.len() as int),
{ unimplemented!() }
pub proof fn lemma_max_id(fl: Seq<FieldLoc>, n: int)
    requires 0 <= n <= fl.len(),
    ensures n == 0 <==> max_id(fl, n) is None,
        n > 0 ==> (forall|k: int| 0 <= k < n ==> (#[trigger] fl[k]).id <= max_id(fl, n)->Some_0)
            && (exists|k: int| 0 <= k < n && (#[trigger] fl[k]).id == max_id(fl, n)->Some_0),
    decreases n,
{
    if n > 0 {
        lemma_max_id(fl, n - 1);
        if n > 1 {
            let k = choose|k: int| 0 <= k < n - 1 && (#[trigger] fl[k]).id == max_id(fl, n - 1)->Some_0;
            if max_id(fl, n) == max_id(fl, n - 1) { assert(fl[k].id == max_id(fl, n)->Some_0); }
            else { assert(fl[n - 1].id == max_id(fl, n)->Some_0); }
        } else { assert(fl[0].id == max_id(fl, n)->Some_0); }
    }
}
pub open spec fn vt_len(fl: Seq<FieldLoc>) -> int {
    match max_id(fl, fl.len() as int) { None => 4, Some(m) => m + 2 }
}
// the vtable after the first n fields have been entered, for an object at obj
pub open spec fn vt_fill(fl: Seq<FieldLoc>, n: int, obj: int, size: int) -> Seq<u8>
    decreases n,
{
    if n <= 0 { put(put(zeros(vt_len(fl) as nat), 0, enc16(vt_len(fl) as u16)), 2, enc16(size as u16)) }
    else { put(vt_fill(fl, n - 1, obj, size), fl[n - 1].id as int, enc16((obj - fl[n - 1].off) as u16)) }
}
pub open spec fn fl_ok(fl: Seq<FieldLoc>) -> bool {
    forall|k: int| 0 <= k < fl.len() ==> 4 <= (#[trigger] fl[k]).id <= 0xfffd
}
pub open spec fn fl_legal(fl: Seq<FieldLoc>) -> bool {
    &&& forall|k: int| 0 <= k < fl.len() ==> (#[trigger] fl[k]).id % 2 == 0
    &&& forall|j: int, k: int| 0 <= j < k < fl.len() ==> (#[trigger] fl[j]).id != (#[trigger] fl[k]).id
}
pub proof fn lemma_fill_len(fl: Seq<FieldLoc>, n: int, obj: int, size: int)
    requires 0 <= n <= fl.len(), fl_ok(fl),
    ensures vt_fill(fl, n, obj, size).len() == vt_len(fl), 4 <= vt_len(fl) <= 0xffff,
        u16_at(vt_fill(fl, n, obj, size), 0) == vt_len(fl), u16_at(vt_fill(fl, n, obj, size), 2) == size as u16,
    decreases n,
{
    lemma_max_id(fl, fl.len() as int);
    if n > 0 {
        lemma_fill_len(fl, n - 1, obj, size);
        let v = vt_fill(fl, n - 1, obj, size);
        let w = vt_fill(fl, n, obj, size);
        assert(w.subrange(0, 2) =~= v.subrange(0, 2));
        assert(w.subrange(2, 4) =~= v.subrange(2, 4));
    } else {
        let w = vt_fill(fl, n, obj, size);
        lemma_dec_enc16(vt_len(fl) as u16);
        lemma_dec_enc16(size as u16);
        assert(w.subrange(0, 2) =~= enc16(vt_len(fl) as u16));
        assert(w.subrange(2, 4) =~= enc16(size as u16));
    }
}
// the entry of a slot is 0 until its field has been entered, and then the field's distance
pub proof fn lemma_fill_get(fl: Seq<FieldLoc>, n: int, obj: int, size: int, id: int)
    requires 0 <= n <= fl.len(), fl_ok(fl), fl_legal(fl), 4 <= id, id + 2 <= vt_len(fl), id % 2 == 0,
    ensures
        (forall|k: int| 0 <= k < n ==> (#[trigger] fl[k]).id != id) ==> u16_at(vt_fill(fl, n, obj, size), id) == 0,
        forall|k: int| 0 <= k < n && (#[trigger] fl[k]).id == id ==> u16_at(vt_fill(fl, n, obj, size), id) == (obj - fl[k].off) as u16,
    decreases n,
{
    lemma_fill_len(fl, n, obj, size);
    let w = vt_fill(fl, n, obj, size);
    lemma_max_id(fl, fl.len() as int);
    if n > 0 {
        lemma_fill_get(fl, n - 1, obj, size, id);
        lemma_fill_len(fl, n - 1, obj, size);
        let v = vt_fill(fl, n - 1, obj, size);
        let e = enc16((obj - fl[n - 1].off) as u16);
        lemma_dec_enc16((obj - fl[n - 1].off) as u16);
        if fl[n - 1].id == id {
            assert(w.subrange(id, id + 2) =~= e);
        } else {
            assert(w.subrange(id, id + 2) =~= v.subrange(id, id + 2)) by {
                let f = fl[n - 1].id as int;
                assert(f % 2 == 0);
            }
        }
    } else {
        assert(w.subrange(id, id + 2) =~= seq![0u8, 0u8]);
    }
}
impl St {
    pub open spec fn table_obj(self) -> St { self.push(0xF0F0_F0F0u32) }
    pub open spec fn table_vt(self, tail: int) -> Seq<u8> {
        vt_fill(self.fl, self.fl.len() as int, self.table_obj().used(), self.table_obj().used() - tail)
    }
    // the position, counted from the end, of a stored vtable with these bytes
    pub open spec fn dup(self, v: Seq<u8>) -> Option<u32> {
        if exists|i: int| 0 <= i < self.vts.len() && vt_at(self.d, #[trigger] self.vts[i] as int) == v {
            let i = choose|i: int| 0 <= i < self.vts.len() && vt_at(self.d, #[trigger] self.vts[i] as int) == v;
            Some(self.vts[i])
        } else { None }
    }
    pub open spec fn end_table(self, tail: int) -> St {
        let s = self.table_obj();
        let v = self.table_vt(tail);
        match self.dup(v) {
            Some(n) => St { d: put(s.d, 0, enc32((n - s.used()) as i32 as u32)), fl: Seq::empty(), nested: false, ..s },
            None => St {
                d: v + put(s.d, 0, enc32(v.len() as u32)), fl: Seq::empty(), nested: false,
                vts: s.vts.push((s.used() + v.len()) as u32), ..s },
        }
    }
    pub open spec fn table_req(self, tail: int) -> bool {
        &&& 0 <= tail <= self.used()
        &&& fl_ok(self.fl)
        &&& self.table_obj().used() + vt_len(self.fl) <= 0x7fff_ffff
    }
    pub open spec fn table_legal(self, tail: int) -> bool {
        &&& fl_legal(self.fl)
        &&& self.table_obj().used() - tail < 0x1_0000
        &&& forall|k: int| 0 <= k < self.fl.len() ==> (#[trigger] self.fl[k]).off > tail
        &&& self.table_obj().used() + vt_len(self.fl) <= 0x7fff_ffff
    }
}
// s.table_obj() is s with padding and four bytes in front
pub proof fn lemma_table_obj(s: St)
    requires s.inv(), s.used() + 8 <= 0x8000_0000,
    ensures s.table_obj().inv(), s.used() + 4 <= s.table_obj().used() <= s.used() + 7, s.table_obj().used() % 4 == 0,
        s.table_obj().d.subrange(s.table_obj().used() - s.used(), s.table_obj().used()) == s.d,
        s.table_obj().d.subrange(0, 4) == enc32(0xF0F0_F0F0u32),
        s.table_obj().fl == s.fl, s.table_obj().vts == s.vts, s.table_obj().nested == s.nested,
        s.table_obj().min_align == imax(s.min_align, 4), s.table_obj().finished == s.finished,
        forall|i: int| 0 <= i < s.vts.len() ==> vt_at(s.table_obj().d, #[trigger] s.vts[i] as int) == vt_at(s.d, s.vts[i] as int),
{
    lemma_push_grows(s, 0xF0F0_F0F0u32);
    lemma_pad(s.used() + 4, 4);
    let t = s.table_obj();
    let z = zeros(pad(s.used() + 4, 4) as nat);
    let x = enc32(0xF0F0_F0F0u32) + z;
    assert(t.d =~= x + s.d);
    assert(t.d.subrange(t.used() - s.used(), t.used()) =~= s.d);
    assert(t.d.subrange(0, 4) =~= enc32(0xF0F0_F0F0u32));
    lemma_prepend_inv(s, x);
    assert forall|i: int| 0 <= i < t.vts.len() implies vt_ok(t.d, #[trigger] t.vts[i] as int) by { lemma_vt_prepend(s.d, x, s.vts[i] as int); }
    assert forall|i: int| 0 <= i < s.vts.len() implies vt_at(t.d, #[trigger] s.vts[i] as int) == vt_at(s.d, s.vts[i] as int) by {
        lemma_vt_prepend(s.d, x, s.vts[i] as int);
    }
}
// after the object's offset slot has been filled in, everything else is as it was
pub proof fn lemma_end_table(s: St, tail: int)
    requires s.inv(), s.table_req(tail),
    ensures s.end_table(tail).inv(), s.end_table(tail).used() <= 0x7fff_ffff,
        forall|k: int| 0 <= k < s.fl.len() ==> (#[trigger] s.fl[k]).off <= s.used(), s.used() <= s.table_obj().used(),
        4 <= vt_len(s.fl) <= 0xffff,
        s.table_vt(tail).len() == vt_len(s.fl), u16_at(s.table_vt(tail), 0) == vt_len(s.fl),
        vt_at(s.table_vt(tail) + s.table_obj().d, s.table_obj().used() + vt_len(s.fl)) == s.table_vt(tail),
        forall|i: int| 0 <= i < s.vts.len() ==> vt_at(s.table_obj().d, #[trigger] s.vts[i] as int) == vt_at(s.d, s.vts[i] as int),
        forall|i: int| 0 <= i < s.vts.len() ==> vt_at(s.end_table(tail).d, #[trigger] s.vts[i] as int) == vt_at(s.d, s.vts[i] as int),
{
    lemma_fill_len(s.fl, s.fl.len() as int, s.table_obj().used(), s.table_obj().used() - tail);
    lemma_push_grows(s, 0xF0F0_F0F0u32);
    lemma_table_obj(s);
    let t = s.table_obj();
    let v = s.table_vt(tail);
    let e = s.end_table(tail);
    let w = v + t.d;
    assert(w.subrange(0, 2) =~= v.subrange(0, 2));
    assert(w.subrange(0, v.len() as int) =~= v);
    let x = match s.dup(v) {
        Some(n) => enc32((n - t.used()) as i32 as u32) + t.d.subrange(4, t.used() - s.used()),
        None => v + enc32(v.len() as u32) + t.d.subrange(4, t.used() - s.used()),
    };
    assert(e.d =~= x + s.d);
    assert forall|i: int| 0 <= i < s.vts.len() implies vt_ok(e.d, #[trigger] s.vts[i] as int) && vt_at(e.d, s.vts[i] as int) == vt_at(s.d, s.vts[i] as int) by {
        lemma_vt_prepend(s.d, x, s.vts[i] as int);
    }
    if s.dup(v) is None {
        let rev = t.used() + v.len();
        assert(e.d.subrange(0, 2) =~= v.subrange(0, 2));
        assert(e.d.subrange(0, v.len() as int) =~= v);
        assert(vt_ok(e.d, rev) && vt_at(e.d, rev) == v);
        assert forall|i: int| 0 <= i < s.vts.len() implies vt_at(e.d, #[trigger] s.vts[i] as int) != v by {
            assert(vt_at(s.d, s.vts[i] as int) != v);
        }
        assert(e.vts.len() == s.vts.len() + 1);
        assert forall|i: int| 0 <= i < e.vts.len() implies vt_ok(e.d, #[trigger] e.vts[i] as int) by {
            if i < s.vts.len() { assert(e.vts[i] == s.vts[i]); }
        }
        assert forall|i: int, j: int| 0 <= i < j < e.vts.len() implies vt_at(e.d, #[trigger] e.vts[i] as int) != vt_at(e.d, #[trigger] e.vts[j] as int) by {
            assert(e.vts[i] == s.vts[i]);
            if j < s.vts.len() { assert(e.vts[j] == s.vts[j]); }
        }
    } else {
        assert forall|i: int| 0 <= i < e.vts.len() implies vt_ok(e.d, #[trigger] e.vts[i] as int) by { assert(e.vts[i] == s.vts[i]); }
    }
}
pub open spec fn dup_found(d: Seq<u8>, vts: Seq<u32>, v: Seq<u8>, r: Option<u32>) -> bool {
    &&& r is Some ==> exists|i: int| 0 <= i < vts.len() && #[trigger] vts[i] == r->Some_0 && vt_at(d, r->Some_0 as int) == v
    &&& r is None ==> forall|i: int| 0 <= i < vts.len() ==> vt_at(d, #[trigger] vts[i] as int) != v
}
pub proof fn lemma_dup(s: St, x: Seq<u8>, v: Seq<u8>, r: Option<u32>)
    requires s.inv(), dup_found(x + s.d, s.vts, v, r),
    ensures r == s.dup(v),
{
    assert forall|i: int| 0 <= i < s.vts.len() implies vt_at(x + s.d, #[trigger] s.vts[i] as int) == vt_at(s.d, s.vts[i] as int) by {
        lemma_vt_prepend(s.d, x, s.vts[i] as int);
    }
    if r is Some {
        let i = choose|i: int| 0 <= i < s.vts.len() && #[trigger] s.vts[i] == r->Some_0 && vt_at(x + s.d, r->Some_0 as int) == v;
        assert(vt_at(s.d, s.vts[i] as int) == v);
        let j = choose|j: int| 0 <= j < s.vts.len() && vt_at(s.d, #[trigger] s.vts[j] as int) == v;
        if i < j { assert(vt_at(s.d, s.vts[i] as int) != vt_at(s.d, s.vts[j] as int)); }
        if j < i { assert(vt_at(s.d, s.vts[j] as int) != vt_at(s.d, s.vts[i] as int)); }
    }
}
//@ fn builder.rs - get_vtable_byte_len
    requires fl_ok(field_locs@),
    ensures r == vt_len(field_locs@), 4 <= r <= 0xffff,
//@ hint start
    proof { lemma_max_id(field_locs@, field_locs@.len() as int); }
//@ endfn
pub proof fn lemma_vt_buf(buf: Seq<u8>, head: int, rev: int)
    requires 0 <= head <= buf.len(), vt_ok(buf.subrange(head, buf.len() as int), rev),
    ensures ({
        let d = buf.subrange(head, buf.len() as int);
        let l = buf.len() - rev;
        &&& u16_at(buf, l) == u16_at(d, d.len() - rev)
        &&& buf.subrange(l, l + u16_at(buf, l)) == vt_at(d, rev)
    }),
{
    let d = buf.subrange(head, buf.len() as int);
    let l = buf.len() - rev;
    assert(buf.subrange(l, l + 2) =~= d.subrange(d.len() - rev, d.len() - rev + 2));
    assert(buf.subrange(l, l + u16_at(buf, l)) =~= vt_at(d, rev));
}
// write_vtable, step by step, on the whole buffer b with the data starting at h
pub proof fn lemma_wv_split(b: Seq<u8>, h: int, vl: int, d: Seq<u8>)
    requires 0 <= h <= b.len(), 0 <= vl, b.subrange(h, b.len() as int) == zeros(vl as nat) + d,
    ensures h + vl + d.len() == b.len(), b.subrange(h, h + vl) == zeros(vl as nat), b.subrange(h + vl, b.len() as int) == d,
{
    let e = b.subrange(h, b.len() as int);
    assert(b.subrange(h, h + vl) =~= e.subrange(0, vl));
    assert(b.subrange(h, h + vl) =~= zeros(vl as nat));
    assert(b.subrange(h + vl, b.len() as int) =~= e.subrange(vl, e.len() as int));
    assert(b.subrange(h + vl, b.len() as int) =~= d);
}
pub proof fn lemma_wv_filled(b0: Seq<u8>, b1: Seq<u8>, h: int, v: Seq<u8>, s: St, tail: int)
    requires s.inv(), s.table_req(tail), v == s.table_vt(tail),
        0 <= h, h + v.len() + s.table_obj().d.len() == b0.len(), b0.subrange(h + v.len(), b0.len() as int) == s.table_obj().d,
        b1 == b0.subrange(0, h) + v + b0.subrange(h + v.len(), b0.len() as int),
    ensures b1.len() == b0.len(), b1.subrange(h, b1.len() as int) == v + s.table_obj().d,
        b1.subrange(0, b1.len() as int) == b1,
        b1.subrange(0, h) == b0.subrange(0, h), zero_before(b0, h) ==> zero_before(b1, h),
        u16_at(b1, h) == v.len(), b1.subrange(h, h + v.len()) == v,
        (St { d: v + s.table_obj().d, ..s.table_obj() }).vts_ok(),
{
    reveal(zero_before);
    lemma_end_table(s, tail);
    lemma_table_obj(s);
    let t = s.table_obj();
    assert(b1.subrange(h, b1.len() as int) =~= v + t.d);
    assert(b1.subrange(0, b1.len() as int) =~= b1);
    assert(b1.subrange(h, h + 2) =~= v.subrange(0, 2));
    assert(b1.subrange(h, h + v.len()) =~= v);
    assert(b1.subrange(0, h) =~= b0.subrange(0, h));
    if zero_before(b0, h) {
        assert forall|i: int| 0 <= i < h implies b1[i] == 0 by { assert(b1[i] == b0.subrange(0, h)[i]); }
    }
    assert forall|i: int| 0 <= i < s.vts.len() implies vt_ok(v + t.d, #[trigger] s.vts[i] as int) by {
        assert(vt_ok(t.d, t.vts[i] as int));
        lemma_vt_prepend(t.d, v, s.vts[i] as int);
    }
}
pub proof fn lemma_wv_dup(s: St, v: Seq<u8>, r: Option<u32>)
    requires s.inv(), s.used() + 8 <= 0x8000_0000, dup_found(v + s.table_obj().d, s.vts, v, r),
    ensures r == s.dup(v), r is Some ==> r->Some_0 <= s.used(),
{
    lemma_table_obj(s);
    let t = s.table_obj();
    let x = v + t.d.subrange(0, t.used() - s.used());
    assert(x + s.d =~= v + t.d);
    lemma_dup(s, x, v, r);
    if r is Some {
        let i = choose|i: int| 0 <= i < s.vts.len() && #[trigger] s.vts[i] == r->Some_0;
        assert(vt_ok(s.d, s.vts[i] as int));
    }
}
pub proof fn lemma_wv_cleared(b1: Seq<u8>, b2: Seq<u8>, h: int, v: Seq<u8>, d: Seq<u8>)
    requires 0 <= h, h + v.len() + d.len() == b1.len(), b1.subrange(h + v.len(), b1.len() as int) == d, zero_before(b1, h),
        b2 == b1.subrange(0, h) + zeros(v.len()) + b1.subrange(h + v.len(), b1.len() as int),
    ensures b2.len() == b1.len(), b2.subrange(h + v.len(), b2.len() as int) == d, zero_before(b2, h + v.len()),
{
    reveal(zero_before);
    assert(b2.subrange(h + v.len(), b2.len() as int) =~= d);
    assert forall|i: int| 0 <= i < h + v.len() implies b2[i] == 0 by { if i < h { assert(b2[i] == b1[i]); } }
}
pub proof fn lemma_wv_obj(b: Seq<u8>, h: int, d: Seq<u8>, s: St)
    requires 0 <= h <= b.len(), s.inv(), s.used() + 8 <= 0x8000_0000, d == s.table_obj().d,
        d.len() <= b.len() - h, b.subrange(b.len() - d.len(), b.len() as int) == d,
    ensures b.subrange(b.len() - d.len(), b.len() - d.len() + 4) == enc32(0xF0F0_F0F0u32), dec32(enc32(0xF0F0_F0F0u32)) == 0xF0F0_F0F0u32,
        d.len() >= 4,
{
    lemma_table_obj(s); lemma_dec_enc32(0xF0F0_F0F0u32);
    assert(b.subrange(b.len() - d.len(), b.len() - d.len() + 4) =~= d.subrange(0, 4));
}
pub proof fn lemma_wv_patch(b2: Seq<u8>, b3: Seq<u8>, h: int, s: St, tail: int, vt_use: int)
    requires 0 <= h <= b2.len(), s.inv(), s.table_req(tail), zero_before(b2, h),
        match s.dup(s.table_vt(tail)) {
            Some(n) => vt_use == n && b2.subrange(h, b2.len() as int) == s.table_obj().d,
            None => vt_use == s.table_obj().used() + vt_len(s.fl) && b2.subrange(h, b2.len() as int) == s.table_vt(tail) + s.table_obj().d,
        },
        s.table_obj().used() <= b2.len(),
        b3 =~= b2.subrange(0, b2.len() - s.table_obj().used()) + enc32((vt_use - s.table_obj().used()) as i32 as u32)
            + b2.subrange(b2.len() - s.table_obj().used() + 4, b2.len() as int),
    ensures b3.len() == b2.len(), b3.subrange(h, b3.len() as int) == s.end_table(tail).d, zero_before(b3, h),
{
    reveal(zero_before);
    lemma_end_table(s, tail);
    lemma_table_obj(s);
    let t = s.table_obj(); let v = s.table_vt(tail);
    let p = b2.len() - t.used();
    let d2 = b2.subrange(h, b2.len() as int);
    assert forall|i: int| 0 <= i < h implies b3[i] == 0 by { assert(b3[i] == b2[i]); }
    let l: int = match s.dup(v) { Some(n) => 0, None => v.len() as int };
    assert(d2.len() == l + t.d.len());
    assert(p == h + l);
    let e = enc32((vt_use - t.used()) as i32 as u32);
    assert(b3.subrange(h, b3.len() as int) =~= d2.subrange(0, l) + e + d2.subrange(l + 4, d2.len() as int));
    assert(d2.subrange(l + 4, d2.len() as int) =~= t.d.subrange(4, t.d.len() as int));
    if s.dup(v) is None {
        assert(d2.subrange(0, l) =~= v);
        assert((vt_use - t.used()) as i32 as u32 == v.len() as u32);
    }
    assert(b3.subrange(h, b3.len() as int) =~= s.end_table(tail).d);
}
impl<'fbb> FlatBufferBuilder<'fbb> {
//@ fn builder.rs FlatBufferBuilder find_duplicate_stored_vtable_revloc eqcall
    requires self.rep(), self.st().vts_ok(), needle.ok(), needle.bytes_spec() is Some,
    ensures
        dup_found(self.st().d, self.st().vts, needle.bytes_spec()->Some_0, r),
//@ loop 1
    invariant self.rep(), self.st().vts_ok(), needle.ok(), needle.bytes_spec() is Some, vx_k1 <= self.written_vtable_revpos@.len(),
        forall|i: int| vx_k1 <= i < self.st().vts.len() ==>
            vt_at(self.st().d, #[trigger] self.st().vts[i] as int) != needle.bytes_spec()->Some_0,
    decreases vx_k1,
//@ loopstart 1
    proof {
        assert(self.owned_buf@.subrange(0, self.owned_buf@.len() as int) =~= self.owned_buf@);
        let ri = self.st().vts[vx_k1 - 1];
        assert(vt_ok(self.st().d, ri as int));
        lemma_vt_buf(self.owned_buf@, self.head as int, ri as int);
    }
//@ endfn
//@ fn builder.rs FlatBufferBuilder write_vtable noiso rlimit:60
    requires old(self).wf(), old(self).st().table_req(table_tail_revloc.0 as int),
        strict() ==> old(self).nested && old(self).st().table_legal(table_tail_revloc.0 as int),
    ensures final(self).wf(), old(self).nested,
        final(self).st() == (St { nested: true, ..old(self).st().end_table(table_tail_revloc.0 as int) }),
        r.0 == old(self).st().table_obj().used(),
        r.0 - table_tail_revloc.0 < 0x1_0000,
//@ hint start
    hide(St::vts_distinct); hide(St::dup); hide(St::vts_ok); hide(vt_at); hide(St::inv);
    let ghost s0 = old(self).st(); let ghost tail = table_tail_revloc.0 as int;
    let ghost t = s0.table_obj(); let ghost v = s0.table_vt(tail);
    proof { lemma_end_table(s0, tail); lemma_table_obj(s0); }
//@ hint after vtfw\.write_object_inline_size
    let ghost gh = final(vtfw.buf)@;
//@ loop 1
    invariant vx_k1 <= s0.fl.len(), final(vtfw.buf)@ == gh,
        vtfw.buf@ == vt_fill(s0.fl, vx_k1 as int, s0.table_obj().used(), s0.table_obj().used() - tail),
    decreases s0.fl.len() - vx_k1,
//@ loopstart 1
    proof {
        let f = s0.fl[vx_k1 as int];
        lemma_max_id(s0.fl, s0.fl.len() as int);
        lemma_fill_len(s0.fl, vx_k1 as int, t.used(), t.used() - tail);
        if strict() {
            lemma_fill_get(s0.fl, vx_k1 as int, t.used(), t.used() - tail, f.id as int);
            assert(forall|k: int| 0 <= k < vx_k1 ==> (#[trigger] s0.fl[k]).id != f.id);
        }
    }
//@ hint after let vt_end_pos
    let ghost b0 = self.owned_buf@; let ghost h0 = self.head as int; let ghost vl = vtable_byte_len as int;
    proof { lemma_wv_split(b0, h0, vl, t.d); }
//@ loopafter 1
    proof { assert(vtfw.buf@ == v); }
//@ hint before let dup_vt_use
    let ghost b1 = self.owned_buf@;
    proof { lemma_wv_filled(b0, b1, h0, v, s0, tail); }
//@ hint before let vt_use
    proof {
        lemma_wv_dup(s0, v, dup_vt_use);
    }
//@ hint after let vt_use
    let ghost b2 = self.owned_buf@;
    proof {
        match dup_vt_use {
            Some(n) => { lemma_wv_cleared(b0, b2, h0, v, t.d); }
            None => { }
        }
        lemma_wv_obj(b2, self.head as int, t.d, s0);
        assert(self.head <= b2.len());
        assert(b2.len() <= 0x1_0000_0000);
        assert(object_revloc_to_vtable.0 == t.used());
        assert(t.used() <= b2.len());
        assert(self.st().used() == b2.len() - self.head);
    }
//@ hint before self.field_locs.clear
    proof {
        let p = b2.len() - t.used();
        assert(self.owned_buf@ =~= b2.subrange(0, p) + enc32((vt_use - t.used()) as i32 as u32) + b2.subrange(p + 4, b2.len() as int));
        lemma_wv_patch(b2, self.owned_buf@, self.head as int, s0, tail, vt_use as int);
    }
//@ hint after self.field_locs.clear
    proof {
        lemma_inv_same(s0.end_table(tail), St { nested: true, ..s0.end_table(tail) });
        assert(self.field_locs@ =~= Seq::<FieldLoc>::empty());
        let z = s0.end_table(tail);
        assert(self.st().d == z.d);
        assert(self.st().vts == z.vts);
        assert(self.st().fl == z.fl);
        assert(self.st().min_align == z.min_align);
        assert(self.st().finished == z.finished);
        assert(self.st().nested);
        assert(self.st() == (St { nested: true, ..s0.end_table(tail) }));
        assert(self.rep());
        assert(self.st().inv());
    }
//@ endfn
//@ fn builder.rs FlatBufferBuilder end_table
    requires old(self).wf(), old(self).st().table_req(off.0 as int),
        strict() ==> old(self).nested && old(self).st().table_legal(off.0 as int),
    ensures final(self).wf(), old(self).nested, final(self).st() == old(self).st().end_table(off.0 as int),
        r.0 == old(self).st().table_obj().used(),
        r.0 - off.0 < 0x1_0000,
//@ hint start
    hide(St::inv); hide(St::end_table);
    let ghost s0 = old(self).st(); let ghost tail = off.0 as int;
    proof {
        lemma_end_table(s0, tail);
        let z = s0.end_table(tail);
        assert(z == St { fl: Seq::empty(), nested: false, ..z }) by { reveal(St::end_table); }
    }
//@ hint after self.field_locs.clear
    proof {
        assert(self.field_locs@ =~= Seq::<FieldLoc>::empty());
        assert(self.st() == s0.end_table(tail));
    }
//@ endfn
}

// ------------------------------------------------------------------ finishing
impl St {
    pub open spec fn finish_lead(ident: Option<Seq<u8>>, sized: bool) -> int {
        4 + (if sized { 4int } else { 0 }) + (if ident is Some { 4int } else { 0 })
    }
    pub open spec fn finish_ident(self, ident: Option<Seq<u8>>, sized: bool) -> St {
        let a = St { vts: Seq::empty(), ..self }.align(St::finish_lead(ident, sized), imax(self.min_align, 4));
        match ident { Some(b) => a.prepend(b), None => a }
    }
    pub open spec fn finish_root<T>(self, root: WIPOffset<T>, ident: Option<Seq<u8>>, sized: bool) -> St {
        self.finish_ident(ident, sized).push(root)
    }
    pub open spec fn finish<T>(self, root: WIPOffset<T>, ident: Option<Seq<u8>>, sized: bool) -> St {
        let r = self.finish_root(root, ident, sized);
        St { finished: true, ..if sized { r.push(r.used() as u32) } else { r } }
    }
}
pub open spec fn opt_bytes(o: Option<&str>) -> Option<Seq<u8>> {
    match o { Some(s) => Some(s.spec_bytes()), None => None }
}
pub proof fn lemma_clear_vts(s: St)
    requires s.inv(),
    ensures (St { vts: Seq::empty(), ..s }).inv(),
{}
// finishing adds between 4 and 27 bytes in front
pub proof fn lemma_finish_grows<T>(s: St, root: WIPOffset<T>, ident: Option<Seq<u8>>, sized: bool)
    requires s.inv(), ident is Some ==> ident->Some_0.len() == 4,
    ensures
        s.finish(root, ident, sized).used() >= s.finish_root(root, ident, sized).used()
            >= s.finish_ident(ident, sized).used() >= s.used(),
        s.finish_ident(ident, sized).used() >= (St { vts: Seq::empty(), ..s }).align(St::finish_lead(ident, sized), imax(s.min_align, 4)).used(),
        s.finish(root, ident, sized).used() <= s.used() + 28,
        s.finish_ident(ident, sized).push_rest::<WIPOffset<T>>() >= s.used(),
{
    lemma_pad(s.used() + St::finish_lead(ident, sized), imax(s.min_align, 4));
    lemma_push_grows(s.finish_ident(ident, sized), root);
    let r = s.finish_root(root, ident, sized);
    lemma_push_grows(r, r.used() as u32);
    lemma_finish_layout(s, root, ident, sized);
}
// the layout of the finished buffer: [size] root [identifier] padding data
pub proof fn lemma_finish_layout<T>(s: St, root: WIPOffset<T>, ident: Option<Seq<u8>>, sized: bool)
    requires s.inv(), ident is Some ==> ident->Some_0.len() == 4,
    ensures ({
        let f = s.finish(root, ident, sized);
        let z: int = if sized { 4 } else { 0 };
        let idn = match ident { Some(b) => b, None => Seq::<u8>::empty() };
        let lead = St::finish_lead(ident, sized);
        let p = pad(s.used() + lead, imax(s.min_align, 4));
        &&& f.used() == lead + p + s.used()
        &&& f.used() % imax(s.min_align, 4) == 0
        &&& 0 <= p < 16
        &&& f.d == (if sized { enc32((f.used() - 4) as u32) } else { Seq::empty() })
                + enc32((f.used() - z - root.0) as u32) + idn + zeros(p as nat) + s.d
    }),
{
    let z: int = if sized { 4 } else { 0 };
    let idn = match ident { Some(b) => b, None => Seq::<u8>::empty() };
    let lead = St::finish_lead(ident, sized);
    let a = imax(s.min_align, 4);
    let p = pad(s.used() + lead, a);
    lemma_pad(s.used() + lead, a);
    let i = s.finish_ident(ident, sized);
    let r = s.finish_root(root, ident, sized);
    let f = s.finish(root, ident, sized);
    assert(i.d =~= idn + zeros(p as nat) + s.d);
    let n = i.used() + 4 + z;
    assert(n == s.used() + lead + p);
    assert(n % a == 0);
    assert(align_ok(a));
    lemma_mod_div(n, a, 4);
    assert(i.used() % 4 == 0) by { lemma_sub4(i.used(), sized, n); }
    lemma_push_aligned(i, root);
    assert(r.used() == i.used() + 4);
    assert(r.d == enc32((4 + i.used() - root.0) as u32) + i.d);
    if sized {
        lemma_push_aligned(r, r.used() as u32);
        assert(f.d =~= enc32((f.used() - 4) as u32) + enc32((f.used() - z - root.0) as u32) + idn + zeros(p as nat) + s.d);
    } else {
        assert(f.d =~= Seq::<u8>::empty() + enc32((f.used() - z - root.0) as u32) + idn + zeros(p as nat) + s.d);
    }
}
pub proof fn lemma_sub4(u: int, sized: bool, n: int)
    requires n % 4 == 0, n == u + 4 + (if sized { 4int } else { 0 }),
    ensures u % 4 == 0,
{}
impl<'fbb> FlatBufferBuilder<'fbb> {
//@ fn builder.rs FlatBufferBuilder finish_with_opts
    requires old(self).wf(), root.0 <= old(self).st().used(), file_identifier is Some ==> file_identifier->Some_0.spec_bytes().len() <= 0x8000_0000,
        strict() ==> !old(self).nested && !old(self).finished && old(self).st().used() + 28 <= 0x8000_0000
            && (file_identifier is Some ==> file_identifier->Some_0.spec_bytes().len() == 4),
    ensures !old(self).nested, !old(self).finished,
        file_identifier is Some ==> file_identifier->Some_0.spec_bytes().len() == 4,
        final(self).wf(), final(self).st() == old(self).st().finish(root, opt_bytes(file_identifier), size_prefixed),
//@ hint start
    proof {
        let s = old(self).st();
        lemma_clear_vts(s);
        if file_identifier is Some { axiom_str_len(file_identifier->Some_0); }
        if (file_identifier is Some ==> file_identifier->Some_0.spec_bytes().len() == 4) {
            lemma_finish_grows(s, root, opt_bytes(file_identifier), size_prefixed);
        }
    }
//@ hint after self.written_vtable_revpos.clear
    proof { assert(self.written_vtable_revpos@ =~= Seq::<u32>::empty()); }
//@ endfn
//@ foreach F finish_size_prefixed finish
//@ fn builder.rs FlatBufferBuilder $F
    requires old(self).wf(), root.0 <= old(self).st().used(), file_identifier is Some ==> file_identifier->Some_0.spec_bytes().len() <= 0x8000_0000,
        strict() ==> !old(self).nested && !old(self).finished && old(self).st().used() + 28 <= 0x8000_0000
            && (file_identifier is Some ==> file_identifier->Some_0.spec_bytes().len() == 4),
    ensures !old(self).nested, !old(self).finished,
        file_identifier is Some ==> file_identifier->Some_0.spec_bytes().len() == 4,
        final(self).wf(), final(self).st() == old(self).st().finish(root, opt_bytes(file_identifier), stringify_is_sized_$F()),
//@ endfn
//@ endforeach
//@ fn builder.rs FlatBufferBuilder finish_minimal
    requires old(self).wf(), root.0 <= old(self).st().used(),
        strict() ==> !old(self).nested && !old(self).finished && old(self).st().used() + 28 <= 0x8000_0000,
    ensures !old(self).nested, !old(self).finished,
        final(self).wf(), final(self).st() == old(self).st().finish(root, None, false),
//@ endfn
//@ fn builder.rs FlatBufferBuilder required
    requires self.wf(), tab_revloc.0 <= self.st().used(),
        strict() ==> required_ok(tab_slot(self.st().d, self.st().used() - tab_revloc.0, slot_byte_loc as int)),
    ensures required_ok(tab_slot(self.st().d, self.st().used() - tab_revloc.0, slot_byte_loc as int)),
//@ hint start
    broadcast use axiom_as_ref_slice;
    proof { }
//@ endfn
}
pub open spec fn stringify_is_sized_finish_size_prefixed() -> bool { true }
pub open spec fn stringify_is_sized_finish() -> bool { false }
pub open spec fn required_ok(r: Result<int, Error>) -> bool { r is Ok && r->Ok_0 != 0 }
