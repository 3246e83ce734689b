//! Histories of builder calls, run on the real builder and on the reference encoder.
use crate::{model::*, rng::Rng};
use butte::*;

#[derive(Clone, Debug, PartialEq)]
pub enum FV { Sc(Sc), Off(usize) }
#[derive(Clone, Debug)]
pub struct Field { pub slot: u16, pub v: FV, pub def: Option<FV> }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode { Create, Direct, Manual }
#[derive(Clone, Debug)]
pub enum Op {
    Push(Sc),
    Str(String),
    Bytes(Vec<u8>),
    Vec(Ty, Vec<Sc>, Mode),
    VecOff(Vec<usize>, Mode),
    VecStr(Vec<String>),
    Table(Vec<Field>),
}
#[derive(Clone, Debug)]
pub struct Fin { pub root: usize, pub ident: Option<String>, pub sized: bool, pub minimal: bool }
#[derive(Clone, Debug)]
pub struct Hist { pub cap: usize, pub ops: Vec<Op>, pub fin: Option<Fin> }

pub fn gen_string(r: &mut Rng) -> String {
    let n = match r.below(20) { 0..=3 => 0, 4..=12 => r.below(9), 13..=17 => r.below(40), 18 => r.below(300), _ => r.below(3000) };
    let mut s = String::new();
    for _ in 0..n {
        s.push(match r.below(12) { 0 => '\0', 1 => 'é', 2 => '漢', 3 => '😀', _ => (b'a' + r.below(26) as u8) as char });
    }
    s
}
pub fn gen_len(r: &mut Rng) -> usize {
    match r.below(16) { 0..=2 => 0, 3..=10 => 1 + r.below(6), 11..=14 => r.below(30), _ => r.below(400) }
}
pub fn gen_sc(r: &mut Rng) -> Sc { let t = *r.pick(&TYS); Sc::new(t, r.bits()) }
fn gen_slots(r: &mut Rng) -> Vec<u16> {
    let n = match r.below(10) { 0 => 0, 1..=6 => 1 + r.below(4), _ => r.below(12) };
    let mut v: Vec<u16> = vec![];
    let wide = r.chance(1, 40);
    for _ in 0..n {
        let i = if wide { r.below(32765) } else if r.chance(1, 8) { r.below(120) } else { r.below(8) };
        let s = 4 + 2 * i as u16;
        if !v.contains(&s) { v.push(s) }
    }
    if r.chance(1, 400) && !v.contains(&65532) { v.push(65532) }
    v
}
pub fn gen_ident(r: &mut Rng) -> String {
    match r.below(4) {
        0 => r.pick(&["ABCD", "fbs1", "\0\0\0\0", "é\u{1}z", "zzz~", "A\0\0\0", "\u{10ffff}", "    ", "ab  "]).to_string(),
        1 => (0..4).map(|_| (r.below(26) as u8 + if r.chance(1, 2) { 65 } else { 97 }) as char).collect(),
        _ => (0..4).map(|_| r.below(128) as u8 as char).collect(),
    }
}
/// identifiers close to the four bytes: one bit, one byte, order, padding
pub fn near_idents(h: &[u8]) -> Vec<String> {
    let mut v: Vec<Vec<u8>> = vec![h.to_vec()];
    for i in 0..4 {
        for b in 0..8 { let mut x = h.to_vec(); x[i] ^= 1 << b; v.push(x) }
        for c in [0u8, b' ', b'~'] { let mut x = h.to_vec(); x[i] = c; v.push(x) }
        let mut x = h.to_vec(); x.rotate_left(i); v.push(x.clone());
        x.reverse(); v.push(x);
        let mut x = h.to_vec(); x.swap(i, (i + 1) % 4); v.push(x);
    }
    v.into_iter().filter_map(|x| String::from_utf8(x).ok()).collect()
}
pub fn gen(r: &mut Rng, max_ops: usize) -> Hist {
    let cap = match r.below(6) { 0 | 1 => 0, 2 => r.below(9), 3 => 1 << r.below(8), 4 => r.below(300), _ => 4096 };
    let n = 1 + r.below(max_ops);
    let mut ops = vec![];
    let mut objs: Vec<usize> = vec![]; // ops that are objects
    let mut tabs: Vec<Vec<Field>> = vec![];
    for i in 0..n {
        let op = match r.below(20) {
            0..=2 => Op::Push(gen_sc(r)),
            3 | 4 => Op::Str(gen_string(r)),
            5 => { let n = gen_len(r); Op::Bytes((0..n).map(|_| r.u64() as u8).collect()) }
            6..=8 => {
                let t = *r.pick(&TYS);
                let n = gen_len(r);
                let mut m = *r.pick(&[Mode::Create, Mode::Direct, Mode::Manual]);
                if t == Ty::Bool && m == Mode::Direct { m = Mode::Create }
                Op::Vec(t, (0..n).map(|_| Sc::new(t, r.bits())).collect(), m)
            }
            9 => { let n = r.below(6); let n = if r.chance(1, 6) { n + 15 } else { n }; Op::VecStr((0..n).map(|_| gen_string(r)).collect()) }
            10 if !objs.is_empty() => {
                let n = gen_len(r).min(40);
                Op::VecOff((0..n).map(|_| *r.pick(&objs)).collect(), if r.chance(1, 2) { Mode::Create } else { Mode::Manual })
            }
            11 | 12 if !tabs.is_empty() => {
                // a table with an earlier one's slots and types, sometimes one thing changed
                let mut f = r.pick(&tabs).clone();
                for x in f.iter_mut() {
                    if let FV::Sc(s) = x.v { x.v = FV::Sc(Sc::new(s.ty, r.bits())) }
                }
                if r.chance(1, 3) && !f.is_empty() {
                    let k = r.below(f.len());
                    match r.below(4) {
                        0 => { f.remove(k); }
                        1 => { let s = f[k].slot + 2; if s <= 65532 && !f.iter().any(|x| x.slot == s) { f[k].slot = s } }
                        2 => { let j = r.below(f.len()); f.swap(k, j) }
                        _ => { let sl = f.iter().map(|x| x.slot).max().unwrap() + 2; if sl <= 65532 { f.push(Field { slot: sl, v: FV::Sc(gen_sc(r)), def: None }) } }
                    }
                }
                tabs.push(f.clone());
                Op::Table(f)
            }
            _ => {
                let mut f = vec![];
                for slot in gen_slots(r) {
                    let v = if !objs.is_empty() && r.chance(1, 3) { FV::Off(*r.pick(&objs)) } else { FV::Sc(gen_sc(r)) };
                    let def = match (&v, r.below(3)) {
                        (_, 0) => None,
                        (FV::Sc(s), 1) => Some(FV::Sc(*s)),
                        (FV::Sc(s), _) => Some(FV::Sc(Sc::new(s.ty, r.bits()))),
                        (FV::Off(_), _) => None,
                    };
                    f.push(Field { slot, v, def });
                }
                tabs.push(f.clone());
                Op::Table(f)
            }
        };
        if !matches!(op, Op::Push(_)) { objs.push(i) }
        ops.push(op);
    }
    let fin = if objs.is_empty() { None } else {
        let root = if r.chance(1, 2) { *objs.last().unwrap() } else { *r.pick(&objs) };
        let ident = if r.chance(1, 2) { Some(gen_ident(r)) } else { None };
        let sized = r.chance(1, 3);
        let minimal = ident.is_none() && !sized && r.chance(1, 2);
        Some(Fin { root, ident, sized, minimal })
    };
    Hist { cap, ops, fin }
}

macro_rules! with_ty {
    ($ty:expr, $T:ident, $body:expr) => {
        match $ty {
            Ty::Bool => { type $T = bool; $body }
            Ty::U8 => { type $T = u8; $body }
            Ty::I8 => { type $T = i8; $body }
            Ty::U16 => { type $T = u16; $body }
            Ty::I16 => { type $T = i16; $body }
            Ty::U32 => { type $T = u32; $body }
            Ty::I32 => { type $T = i32; $body }
            Ty::U64 => { type $T = u64; $body }
            Ty::I64 => { type $T = i64; $body }
            Ty::F32 => { type $T = f32; $body }
            Ty::F64 => { type $T = f64; $body }
        }
    };
}
macro_rules! with_num_ty {
    ($ty:expr, $T:ident, $body:expr) => {
        match $ty {
            Ty::Bool | Ty::U8 => { type $T = u8; $body }
            Ty::I8 => { type $T = i8; $body }
            Ty::U16 => { type $T = u16; $body }
            Ty::I16 => { type $T = i16; $body }
            Ty::U32 => { type $T = u32; $body }
            Ty::I32 => { type $T = i32; $body }
            Ty::U64 => { type $T = u64; $body }
            Ty::I64 => { type $T = i64; $body }
            Ty::F32 => { type $T = f32; $body }
            Ty::F64 => { type $T = f64; $body }
        }
    };
}
pub(crate) use {with_num_ty, with_ty};

pub trait Bits: Copy { fn of(b: u64) -> Self; fn to(self) -> u64; }
macro_rules! bits { ($($t:ty: $u:ty),*) => { $(impl Bits for $t { fn of(b: u64) -> $t { b as $u as $t } fn to(self) -> u64 { self as $u as u64 } })* } }
bits!(u8: u8, i8: u8, u16: u16, i16: u16, u32: u32, i32: u32, u64: u64, i64: u64);
impl Bits for bool { fn of(b: u64) -> bool { b & 1 == 1 } fn to(self) -> u64 { self as u64 } }
impl Bits for f32 { fn of(b: u64) -> f32 { f32::from_bits(b as u32) } fn to(self) -> u64 { self.to_bits() as u64 } }
impl Bits for f64 { fn of(b: u64) -> f64 { f64::from_bits(b) } fn to(self) -> u64 { self.to_bits() } }

/// one call boundary, as the caller sees it
pub struct Step { pub what: &'static str, pub data: Vec<u8>, pub ret: Option<(usize, usize)> }

pub struct Run<'f> {
    pub b: FlatBufferBuilder<'f>,
    pub rev: Vec<usize>,
    /// per table: pushed fields (slot, value) that were not elided, and their rev position is unknown here
    pub steps: Vec<Step>,
    pub keep: bool,
}
impl<'f> Run<'f> {
    pub fn new(b: FlatBufferBuilder<'f>, keep: bool) -> Self { Run { b, rev: vec![], steps: vec![], keep } }
    fn step(&mut self, what: &'static str, ret: Option<(usize, usize)>) {
        if self.keep {
            let s = Step { what, data: self.b.unfinished_data().to_vec(), ret };
            self.steps.push(s);
        }
    }
    /// ret is (offset returned, alignment its position must have)
    pub fn op(&mut self, op: &Op) {
        let o: usize = match op {
            Op::Push(s) => {
                let o = with_ty!(s.ty, T, self.b.push(<T as Bits>::of(s.bits)).value()) as usize;
                self.step("push", Some((o, s.ty.size())));
                o
            }
            Op::Str(s) => { let o = self.b.create_string(s).value() as usize; self.step("create_string", Some((o, 4))); o }
            Op::Bytes(s) => { let o = self.b.create_byte_string(s).value() as usize; self.step("create_byte_string", Some((o, 4))); o }
            Op::Vec(ty, xs, m) => {
                let o = match m {
                    Mode::Create => with_ty!(*ty, T, { let v: Vec<T> = xs.iter().map(|x| <T as Bits>::of(x.bits)).collect(); self.b.create_vector(&v).value() as usize }),
                    Mode::Direct => with_num_ty!(*ty, T, { let v: Vec<T> = xs.iter().map(|x| <T as Bits>::of(x.bits)).collect(); self.b.create_vector_direct(&v).value() as usize }),
                    Mode::Manual => with_ty!(*ty, T, {
                        self.b.start_vector::<T>(xs.len());
                        self.step("start_vector", None);
                        for x in xs.iter().rev() {
                            let o = self.b.push(<T as Bits>::of(x.bits)).value() as usize;
                            self.step("push", Some((o, x.ty.size())));
                        }
                        self.b.end_vector::<T>(xs.len()).value() as usize
                    }),
                };
                self.step(match m { Mode::Create => "create_vector", Mode::Direct => "create_vector_direct", _ => "end_vector" }, Some((o, 4)));
                o
            }
            Op::VecOff(xs, m) => {
                let v: Vec<WIPOffset<&str>> = xs.iter().map(|i| WIPOffset::new(self.rev[*i] as u32)).collect();
                let o = if *m == Mode::Create { self.b.create_vector(&v).value() as usize } else {
                    self.b.start_vector::<ForwardsUOffset<&str>>(v.len());
                    self.step("start_vector", None);
                    for x in v.iter().rev() {
                        let o = self.b.push(*x).value() as usize;
                        self.step("push", Some((o, 4)));
                    }
                    self.b.end_vector::<ForwardsUOffset<&str>>(v.len()).value() as usize
                };
                self.step(if *m == Mode::Create { "create_vector" } else { "end_vector" }, Some((o, 4)));
                o
            }
            Op::VecStr(xs) => {
                let v: Vec<&str> = xs.iter().map(|s| s.as_str()).collect();
                let o = self.b.create_vector_of_strings(&v).value() as usize;
                self.step("create_vector_of_strings", Some((o, 4)));
                o
            }
            Op::Table(fs) => {
                let t = self.b.start_table();
                self.step("start_table", None);
                for f in fs {
                    match (&f.v, &f.def) {
                        (FV::Sc(s), None) => with_ty!(s.ty, T, self.b.push_slot_always(f.slot, <T as Bits>::of(s.bits))),
                        (FV::Sc(s), Some(FV::Sc(d))) => with_ty!(s.ty, T, self.b.push_slot(f.slot, <T as Bits>::of(s.bits), <T as Bits>::of(d.bits))),
                        (FV::Off(i), _) => self.b.push_slot_always(f.slot, WIPOffset::<&str>::new(self.rev[*i] as u32)),
                        _ => unreachable!(),
                    }
                    self.step("push_slot", None);
                }
                let o = self.b.end_table(t).value() as usize;
                self.step("end_table", Some((o, 4)));
                o
            }
        };
        self.rev.push(o);
    }
    pub fn finish(&mut self, f: &Fin) {
        let root = WIPOffset::<u8>::new(self.rev[f.root] as u32);
        let id = f.ident.as_deref();
        if f.minimal { self.b.finish_minimal(root) } else if f.sized { self.b.finish_size_prefixed(root, id) } else { self.b.finish(root, id) }
        self.step("finish", None);
    }
}
pub fn elided(f: &Field) -> bool {
    match (&f.v, &f.def) { (FV::Sc(a), Some(FV::Sc(b))) => a.val_eq(*b), _ => false }
}
/// the reference encoder on the same op; returns the object's distance from the end
pub fn ref_op(e: &mut Enc, rev: &mut Vec<usize>, op: &Op) {
    let o = match op {
        Op::Push(s) => e.scalar(*s),
        Op::Str(s) => e.string(s.as_bytes()),
        Op::Bytes(s) => e.string(s),
        Op::Vec(t, xs, _) => e.vec(*t, xs),
        Op::VecOff(xs, _) => { let v: Vec<usize> = xs.iter().map(|i| rev[*i]).collect(); e.vec_off(&v) }
        Op::VecStr(xs) => {
            let mut v = vec![0; xs.len()];
            for i in (0..xs.len()).rev() { v[i] = e.string(xs[i].as_bytes()) }
            e.vec_off(&v)
        }
        Op::Table(fs) => {
            let tail = e.used();
            let mut locs = vec![];
            for f in fs {
                if elided(f) { continue }
                let p = match &f.v { FV::Sc(s) => e.scalar(*s), FV::Off(i) => e.off(rev[*i]) };
                locs.push((f.slot, p));
            }
            e.end_table(tail, &locs)
        }
    };
    rev.push(o);
}
pub fn ref_run(h: &Hist) -> (Enc, Vec<usize>) {
    let mut e = Enc::default();
    let mut rev = vec![];
    for o in &h.ops { ref_op(&mut e, &mut rev, o) }
    (e, rev)
}
