// The meaning of nom's primitive parsers and of the combinators that repeat, and the std conversions the
// parser calls.  A parser takes a text and gives Ok((what is left, value)) or Err(()): nom's errors differ only in the message.
#![allow(unused)]
use vstd::prelude::*;
verus! {
pub type Tx = Seq<char>;
pub type Rs<T> = Result<(Tx, T), ()>;
pub open spec fn sk(i: Tx, n: int) -> Tx { i.subrange(n, i.len() as int) }
pub open spec fn tk(i: Tx, n: int) -> Tx { i.subrange(0, n) }
pub open spec fn run(p: spec_fn(char) -> bool, i: Tx) -> int decreases i.len() {
    if i.len() > 0 && p(i[0]) { 1 + run(p, sk(i, 1)) } else { 0 }
}
pub open spec fn take_while(p: spec_fn(char) -> bool, i: Tx) -> Rs<Tx> { Ok((sk(i, run(p, i)), tk(i, run(p, i)))) }
pub open spec fn take_while1(p: spec_fn(char) -> bool, i: Tx) -> Rs<Tx> {
    if run(p, i) > 0 { Ok((sk(i, run(p, i)), tk(i, run(p, i)))) } else { Err(()) }
}
pub open spec fn many0<T>(p: spec_fn(Tx) -> Rs<T>, i: Tx) -> Rs<Seq<T>> decreases i.len() {
    match p(i) {
        Err(_) => Ok((i, Seq::empty())),
        Ok((r, v)) => if r.len() >= i.len() { Err(()) } else { match many0(p, r) { Ok((s, w)) => Ok((s, seq![v] + w)), Err(_) => Err(()) } },
    }
}
pub open spec fn many1<T>(p: spec_fn(Tx) -> Rs<T>, i: Tx) -> Rs<Seq<T>> {
    match p(i) { Err(_) => Err(()), Ok((r, v)) => match many0(p, r) { Ok((s, w)) => Ok((s, seq![v] + w)), Err(_) => Err(()) } }
}
pub open spec fn sep_tail<T, U>(s: spec_fn(Tx) -> Rs<U>, p: spec_fn(Tx) -> Rs<T>, i: Tx) -> Rs<Seq<T>> decreases i.len() {
    match s(i) {
        Err(_) => Ok((i, Seq::empty())),
        Ok((j, _)) => if j.len() >= i.len() { Err(()) } else { match p(j) {
            Err(_) => Ok((i, Seq::empty())),
            Ok((r, v)) => if r.len() >= i.len() { Err(()) } else { match sep_tail(s, p, r) { Ok((q, w)) => Ok((q, seq![v] + w)), Err(_) => Err(()) } },
        } },
    }
}
pub open spec fn sep1<T, U>(s: spec_fn(Tx) -> Rs<U>, p: spec_fn(Tx) -> Rs<T>, i: Tx) -> Rs<Seq<T>> {
    match p(i) {
        Err(_) => Err(()),
        Ok((r, v)) => if r.len() >= i.len() { Err(()) } else { match sep_tail(s, p, r) { Ok((q, w)) => Ok((q, seq![v] + w)), Err(_) => Err(()) } },
    }
}
pub open spec fn sep0<T, U>(s: spec_fn(Tx) -> Rs<U>, p: spec_fn(Tx) -> Rs<T>, i: Tx) -> Rs<Seq<T>> {
    match p(i) {
        Err(_) => Ok((i, Seq::empty())),
        Ok((r, v)) => if r.len() >= i.len() { Err(()) } else { match sep_tail(s, p, r) { Ok((q, w)) => Ok((q, seq![v] + w)), Err(_) => Err(()) } },
    }
}
// not_line_ending: up to the end of the line; a \r that is not followed by \n is an error
pub open spec fn line(i: Tx) -> Rs<Tx> {
    let n = run(|c: char| !(c == '\r' || c == '\n'), i);
    if n < i.len() && i[n] == '\r' && !(n + 1 < i.len() && i[n + 1] == '\n') { Err(()) } else { Ok((sk(i, n), tk(i, n))) }
}
pub open spec fn line_ending(i: Tx) -> Rs<Tx> {
    if i.len() >= 1 && i[0] == '\n' { Ok((sk(i, 1), tk(i, 1))) }
    else if i.len() >= 2 && i[0] == '\r' && i[1] == '\n' { Ok((sk(i, 2), tk(i, 2))) }
    else { Err(()) }
}
// escaped: what it takes of a text whose plain characters are p and whose escapes are q after the control character
pub open spec fn escaped_len<T, U>(p: spec_fn(Tx) -> Rs<T>, c: char, q: spec_fn(Tx) -> Rs<U>, i: Tx) -> Option<int> decreases i.len() {
    if i.len() == 0 { Some(0) } else { match p(i) {
        Ok((r, _)) => if r.len() >= i.len() { None } else { match escaped_len(p, c, q, r) { Some(n) => Some(n + (i.len() - r.len())), None => None } },
        Err(_) => if i[0] == c {
            if i.len() == 1 { None } else { match q(sk(i, 1)) {
                Ok((r, _)) => if r.len() >= i.len() { None } else { match escaped_len(p, c, q, r) { Some(n) => Some(n + (i.len() - r.len())), None => None } },
                Err(_) => None,
            } }
        } else { Some(0) },
    } }
}
pub open spec fn escaped<T, U>(p: spec_fn(Tx) -> Rs<T>, c: char, q: spec_fn(Tx) -> Rs<U>, i: Tx) -> Rs<Tx> {
    match escaped_len(p, c, q, i) {
        None => Err(()),
        Some(n) => if n == 0 && i.len() > 0 { Err(()) } else { Ok((sk(i, n), tk(i, n))) },
    }
}
// characters
pub uninterp spec fn c_alphabetic(c: char) -> bool;
pub uninterp spec fn c_alphanumeric(c: char) -> bool;
pub uninterp spec fn c_whitespace(c: char) -> bool;
pub uninterp spec fn c_numeric(c: char) -> bool;
// \w of the regex crate
pub uninterp spec fn c_word(c: char) -> bool;
pub open spec fn c_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn c_hex(c: char) -> bool { '0' <= c && c <= '9' || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F' }
pub open spec fn c_letter(c: char) -> bool { 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' }
pub open spec fn c_ms(c: char) -> bool { c == ' ' || c == '\t' || c == '\r' || c == '\n' }
pub broadcast axiom fn ax_alphabetic(c: char) ensures #![trigger c_alphabetic(c)]
    c_letter(c) ==> c_alphabetic(c), c_digit(c) || c_ms(c) ==> !c_alphabetic(c), c_alphabetic(c) ==> c_alphanumeric(c);
pub broadcast axiom fn ax_alphanumeric(c: char) ensures #![trigger c_alphanumeric(c)]
    c_letter(c) || c_digit(c) ==> c_alphanumeric(c),
    (c as u32) < 128 && !(c_letter(c) || c_digit(c)) ==> !c_alphanumeric(c);
pub broadcast axiom fn ax_word(c: char) ensures #![trigger c_word(c)]
    c_letter(c) || c_digit(c) || c == '_' ==> c_word(c),
    (c as u32) < 128 && !(c_letter(c) || c_digit(c) || c == '_') ==> !c_word(c);
// regular expressions ^w\b where w ends in a word character
pub open spec fn boundary(i: Tx, n: int) -> bool { !(n < i.len() && c_word(i[n])) }
// numbers
#[verifier::external_body] pub struct Fl { v: u64 }
pub uninterp spec fn fl_of_text(t: Tx) -> Result<Fl, ()>;
pub uninterp spec fn fl_of_hex(t: Tx) -> Result<Fl, ()>;
pub uninterp spec fn fl_neg(f: Fl) -> Fl;
pub uninterp spec fn fl_nan() -> Fl;
pub uninterp spec fn fl_inf() -> Fl;
pub uninterp spec fn fl_neg_inf() -> Fl;
pub open spec fn digit(c: char) -> int {
    if '0' <= c && c <= '9' { c as u32 - '0' as u32 } else if 'a' <= c && c <= 'z' { c as u32 - 'a' as u32 + 10 } else if 'A' <= c && c <= 'Z' { c as u32 - 'A' as u32 + 10 } else { 99 }
}
pub open spec fn magnitude(t: Tx, radix: int) -> int decreases t.len() {
    if t.len() == 0 { 0 } else { magnitude(t.drop_last(), radix) * radix + digit(t.last()) }
}
pub open spec fn in_range(v: int) -> bool { -0x8000_0000_0000_0000_0000_0000_0000_0000 <= v && v < 0x8000_0000_0000_0000_0000_0000_0000_0000 }
pub open spec fn all_digits(t: Tx, radix: int) -> bool { t.len() > 0 && forall|k: int| 0 <= k < t.len() ==> digit(#[trigger] t[k]) < radix }
// i128::from_str_radix
pub open spec fn int_radix(t: Tx, radix: int) -> Result<int, ()> {
    let neg = t.len() > 0 && t[0] == '-';
    let d = if t.len() > 0 && (t[0] == '-' || t[0] == '+') { sk(t, 1) } else { t };
    let v = if neg { -magnitude(d, radix) } else { magnitude(d, radix) };
    if all_digits(d, radix) && in_range(v) { Ok(v) } else { Err(()) }
}
pub open spec fn int_checked_neg(v: int) -> Option<int> { if in_range(-v) { Some(-v) } else { None } }
pub open spec fn opt_res<T>(o: Option<T>) -> Result<T, ()> { match o { Some(v) => Ok(v), None => Err(()) } }
pub open spec fn opt_or<T>(o: Option<T>, d: T) -> T { match o { Some(v) => v, None => d } }
#[verifier::external_body] pub struct PathT { v: u64 }
pub uninterp spec fn path_of(t: Tx) -> PathT;
pub open spec fn map_of<K, V>(s: Seq<(K, V)>) -> Map<K, V> decreases s.len() {
    if s.len() == 0 { Map::empty() } else { map_of(s.drop_last()).insert(s.last().0, s.last().1) }
}
pub trait VFrom<A>: Sized { spec fn vfrom(a: A) -> Self; }

// ---- what the proofs use
pub open spec fn same<T>(a: Rs<T>, b: Rs<T>) -> bool { match (a, b) { (Ok(x), Ok(y)) => x.0 == y.0 && x.1 == y.1, (Err(_), Err(_)) => true, _ => false } }
pub broadcast proof fn sk_sk(i: Tx, a: int, b: int) requires 0 <= a, 0 <= b, a + b <= i.len()
    ensures #[trigger] sk(sk(i, a), b) == sk(i, a + b) { assert(sk(sk(i, a), b) =~= sk(i, a + b)); }
pub broadcast proof fn run_bound(p: spec_fn(char) -> bool, i: Tx) ensures 0 <= #[trigger] run(p, i) <= i.len(),
    run(p, i) < i.len() ==> !p(i[run(p, i)])
    decreases i.len() { if i.len() > 0 && p(i[0]) { run_bound(p, sk(i, 1)); } }
pub broadcast proof fn run_all(p: spec_fn(char) -> bool, i: Tx, k: int) requires 0 <= k < run(p, i) ensures #![trigger run(p, i), i[k]] p(i[k])
    decreases i.len() { run_bound(p, i); if k > 0 { assert(i[k] == sk(i, 1)[k - 1]); run_all(p, sk(i, 1), k - 1); } }
pub broadcast proof fn run_ext(p: spec_fn(char) -> bool, q: spec_fn(char) -> bool, i: Tx) requires forall|c: char| #[trigger] p(c) == q(c)
    ensures #[trigger] run(p, i) == #[trigger] run(q, i) decreases i.len() { if i.len() > 0 { run_ext(p, q, sk(i, 1)); } }
pub broadcast proof fn many0_ext<T>(p: spec_fn(Tx) -> Rs<T>, q: spec_fn(Tx) -> Rs<T>, i: Tx) requires forall|j: Tx| #[trigger] same(p(j), q(j))
    ensures #[trigger] many0(p, i) == #[trigger] many0(q, i) decreases i.len()
{ assert(same(p(i), q(i))); match p(i) { Ok((r, v)) => { if r.len() < i.len() { many0_ext(p, q, r); } }, Err(_) => {} } }
pub broadcast proof fn sep_ext<T, U, W>(s: spec_fn(Tx) -> Rs<U>, t: spec_fn(Tx) -> Rs<W>, p: spec_fn(Tx) -> Rs<T>, q: spec_fn(Tx) -> Rs<T>, i: Tx)
    requires forall|j: Tx| #[trigger] same(p(j), q(j)), forall|j: Tx| #[trigger] same_rest(s(j), t(j))
    ensures #[trigger] sep_tail(s, p, i) == #[trigger] sep_tail(t, q, i) decreases i.len()
{
    assert(same_rest(s(i), t(i)));
    match s(i) { Ok((j, _)) => { if j.len() < i.len() { assert(same(p(j), q(j))); match p(j) { Ok((r, v)) => { if r.len() < i.len() { sep_ext(s, t, p, q, r); } }, Err(_) => {} } } }, Err(_) => {} }
}
pub open spec fn same_rest<U, W>(a: Rs<U>, b: Rs<W>) -> bool { match (a, b) { (Ok(x), Ok(y)) => x.0 == y.0, (Err(_), Err(_)) => true, _ => false } }
pub broadcast proof fn many0_skip_ext<T, U>(p: spec_fn(Tx) -> Rs<T>, q: spec_fn(Tx) -> Rs<U>, i: Tx) requires forall|j: Tx| #[trigger] same_rest(p(j), q(j))
    ensures #![trigger many0(p, i), many0(q, i)] same_rest(many0(p, i), many0(q, i)) decreases i.len()
{ assert(same_rest(p(i), q(i))); match p(i) { Ok((r, v)) => { if r.len() < i.len() { many0_skip_ext(p, q, r); } }, Err(_) => {} } }
pub broadcast proof fn escaped_ext<T, U, V, W>(p: spec_fn(Tx) -> Rs<T>, q: spec_fn(Tx) -> Rs<U>, c: char, p2: spec_fn(Tx) -> Rs<V>, q2: spec_fn(Tx) -> Rs<W>, i: Tx)
    requires forall|j: Tx| #[trigger] same_rest(p(j), p2(j)), forall|j: Tx| #[trigger] same_rest(q(j), q2(j))
    ensures #[trigger] escaped_len(p, c, q, i) == #[trigger] escaped_len(p2, c, q2, i) decreases i.len()
{
    if i.len() > 0 {
        assert(same_rest(p(i), p2(i))); assert(same_rest(q(sk(i, 1)), q2(sk(i, 1))));
        match p(i) {
            Ok((r, _)) => { if r.len() < i.len() { escaped_ext(p, q, c, p2, q2, r); } },
            Err(_) => { match q(sk(i, 1)) { Ok((r, _)) => { if r.len() < i.len() { escaped_ext(p, q, c, p2, q2, r); } }, Err(_) => {} } },
        }
    }
}
pub broadcast group px_base { ax_alphabetic, ax_alphanumeric, ax_word, sk_sk, run_bound, run_ext, many0_ext, sep_ext, many0_skip_ext, escaped_ext }
