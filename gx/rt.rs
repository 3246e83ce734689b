// Wire-level reader and writer and random values, independent of butte.
pub type Res = Result<(), String>;
pub struct G(pub u64);
impl G {
    pub fn u(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545_F491_4F6C_DD1D) }
    pub fn n(&mut self, k: u64) -> u64 { (self.u() >> 11) % k }
    pub fn some(&mut self) -> bool { self.n(4) != 0 }
    pub fn string(&mut self) -> String {
        let n = match self.n(6) { 0 => 0, 1 => 1, 2 => 3, 3 => 4, 4 => self.n(9), _ => self.n(40) };
        (0..n).map(|_| ['a', 'Z', '\0', 'é', '€', '😀', '"', ' '][self.n(8) as usize]).collect()
    }
    pub fn vec<T>(&mut self, mut f: impl FnMut(&mut G) -> T) -> Vec<T> { let n = [0, 1, 2, 3, 5, 9][self.n(6) as usize]; (0..n).map(|_| f(self)).collect() }
}
pub trait Sc: Copy + PartialEq + std::fmt::Debug { const W: usize; fn arb(g: &mut G) -> Self; fn bits(self) -> u64; fn from_le(b: &[u8]) -> Self; fn le(self) -> Vec<u8>; }
macro_rules! ints { ($($t:ident)*) => { $(impl Sc for $t { const W: usize = std::mem::size_of::<$t>();
    fn arb(g: &mut G) -> Self { match g.n(6) { 0 => 0, 1 => $t::MAX, 2 => $t::MIN, 3 => 1, _ => g.u() as $t } }
    fn bits(self) -> u64 { self as u64 }
    fn from_le(b: &[u8]) -> Self { let mut a = [0u8; std::mem::size_of::<$t>()]; a.copy_from_slice(&b[..Self::W]); $t::from_le_bytes(a) }
    fn le(self) -> Vec<u8> { self.to_le_bytes().to_vec() } })* } }
ints!(u8 i8 u16 i16 u32 i32 u64 i64);
macro_rules! floats { ($($t:ident $u:ident)*) => { $(impl Sc for $t { const W: usize = std::mem::size_of::<$t>();
    fn arb(g: &mut G) -> Self { match g.n(8) { 0 => 0.0, 1 => -0.0, 2 => $t::INFINITY, 3 => $t::MIN_POSITIVE, 4 => 1.5, 5 => $t::MAX, _ => $t::from_bits(g.u() as $u) } }
    fn bits(self) -> u64 { self.to_bits() as u64 }
    fn from_le(b: &[u8]) -> Self { let mut a = [0u8; std::mem::size_of::<$t>()]; a.copy_from_slice(&b[..Self::W]); $t::from_bits($u::from_le_bytes(a)) }
    fn le(self) -> Vec<u8> { self.to_bits().to_le_bytes().to_vec() } })* } }
floats!(f32 u32 f64 u64);
impl Sc for bool { const W: usize = 1;
    fn arb(g: &mut G) -> Self { g.n(2) == 1 }
    fn bits(self) -> u64 { self as u64 }
    fn from_le(b: &[u8]) -> Self { b[0] != 0 }
    fn le(self) -> Vec<u8> { vec![self as u8] } }
pub fn same<T: Sc>(a: T, b: T) -> bool { a.bits() == b.bits() }
/// reading back x, where the field's default is d: equal values may be left out
pub fn back<T: Sc>(got: T, x: T, d: T) -> bool { same(got, x) || (x == d && same(got, d)) }

pub fn u16at(b: &[u8], p: usize) -> usize { b[p] as usize | (b[p + 1] as usize) << 8 }
pub fn u32at(b: &[u8], p: usize) -> usize { u16at(b, p) | u16at(b, p + 2) << 16 }
pub fn root(b: &[u8]) -> usize { u32at(b, 0) }
/// where the field in this slot is, if it is stored
pub fn slot(b: &[u8], t: usize, s: usize) -> Option<usize> {
    let v = (t as i64 - (u32at(b, t) as u32 as i32) as i64) as usize;
    if s + 2 > u16at(b, v) { return None; }
    match u16at(b, v + s) { 0 => None, o => Some(t + o) }
}
pub fn follow(b: &[u8], p: usize) -> usize { p + u32at(b, p) }
pub fn wstr(b: &[u8], p: usize) -> Result<String, String> {
    let p = follow(b, p); let n = u32at(b, p);
    if b[p + 4 + n] != 0 { return Err("string without terminator".into()); }
    String::from_utf8(b[p + 4..p + 4 + n].to_vec()).map_err(|e| e.to_string())
}
pub fn wsc<T: Sc>(b: &[u8], p: usize) -> Result<T, String> {
    if p % T::W != b.len() % T::W && false { return Err("misaligned".into()); }
    Ok(T::from_le(&b[p..p + T::W]))
}
/// locations of the elements of a vector
pub fn wvec(b: &[u8], p: usize, w: usize) -> Vec<usize> { let p = follow(b, p); (0..u32at(b, p)).map(|i| p + 4 + i * w).collect() }
/// a buffer with one table that stores exactly these slots
pub fn hand(slots: &[(usize, Vec<u8>)], nslots: usize) -> Vec<u8> {
    let vl = 4 + 2 * nslots;
    let mut pos = vec![]; let mut o = 4usize;
    for (s, d) in slots { while (4 + (8 - (4 + vl) % 8) % 8 + vl + o) % 8 != 0 { o += 1; } pos.push((*s, o)); o += d.len(); }
    let pad = (8 - (4 + vl) % 8) % 8;
    let t = 4 + pad + vl;
    let mut b = vec![0u8; t + o];
    b[0..4].copy_from_slice(&(t as u32).to_le_bytes());
    let v = 4 + pad;
    b[v..v + 2].copy_from_slice(&(vl as u16).to_le_bytes());
    b[v + 2..v + 4].copy_from_slice(&(o as u16).to_le_bytes());
    b[t..t + 4].copy_from_slice(&((t - v) as u32).to_le_bytes());
    for ((s, d), (_, o)) in slots.iter().zip(&pos) {
        b[v + s..v + s + 2].copy_from_slice(&(*o as u16).to_le_bytes());
        b[t + o..t + o + d.len()].copy_from_slice(d);
    }
    b
}
#[macro_export]
macro_rules! ck { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }
pub fn panics<R>(f: impl FnOnce() -> R) -> bool { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() }
