//! Independent reference: scalars, an encoder that only knows the FlatBuffers layout rules,
//! and a decoder over plain bytes.  Nothing here calls butte.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ty { Bool, U8, I8, U16, I16, U32, I32, U64, I64, F32, F64 }
pub const TYS: [Ty; 11] = [Ty::Bool, Ty::U8, Ty::I8, Ty::U16, Ty::I16, Ty::U32, Ty::I32, Ty::U64, Ty::I64, Ty::F32, Ty::F64];
impl Ty {
    pub fn size(self) -> usize {
        match self { Ty::Bool | Ty::U8 | Ty::I8 => 1, Ty::U16 | Ty::I16 => 2, Ty::U32 | Ty::I32 | Ty::F32 => 4, _ => 8 }
    }
    pub fn mask(self, b: u64) -> u64 {
        match self { Ty::Bool => b & 1, t if t.size() == 8 => b, t => b & ((1u64 << (8 * t.size())) - 1) }
    }
}
/// a scalar as its type and bits
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Sc { pub ty: Ty, pub bits: u64 }
impl Sc {
    pub fn new(ty: Ty, bits: u64) -> Sc { Sc { ty, bits: ty.mask(bits) } }
    pub fn le(self) -> Vec<u8> { (0..self.ty.size()).map(|i| (self.bits >> (8 * i)) as u8).collect() }
    /// PartialEq of the Rust value (floats: NaN != NaN, 0.0 == -0.0)
    pub fn val_eq(self, o: Sc) -> bool {
        match self.ty {
            Ty::F32 => f32::from_bits(self.bits as u32) == f32::from_bits(o.bits as u32),
            Ty::F64 => f64::from_bits(self.bits) == f64::from_bits(o.bits),
            _ => self.bits == o.bits,
        }
    }
}
pub fn rd(b: &[u8], at: usize, n: usize) -> Option<u64> {
    let e = at.checked_add(n)?;
    if e > b.len() { return None }
    let mut v = 0u64;
    for i in 0..n { v |= (b[at + i] as u64) << (8 * i) }
    Some(v)
}

/// data is kept back to front: rev[k] is the byte at distance k+1 from the end
#[derive(Clone, Default)]
pub struct Enc { pub rev: Vec<u8>, pub pad: Vec<bool>, pub vts: Vec<usize>, pub min_align: usize }
impl Enc {
    pub fn used(&self) -> usize { self.rev.len() }
    pub fn bytes(&self) -> Vec<u8> { self.rev.iter().rev().cloned().collect() }
    pub fn pad_mask(&self) -> Vec<bool> { self.pad.iter().rev().cloned().collect() }
    pub fn prepend(&mut self, x: &[u8]) {
        for b in x.iter().rev() { self.rev.push(*b); self.pad.push(false) }
    }
    pub fn align(&mut self, len: usize, a: usize) {
        if a > self.min_align { self.min_align = a }
        while (self.used() + len) % a != 0 { self.rev.push(0); self.pad.push(true) }
    }
    pub fn scalar(&mut self, s: Sc) -> usize {
        self.align(s.ty.size(), s.ty.size());
        self.prepend(&s.le());
        self.used()
    }
    pub fn u32(&mut self, v: u32) -> usize { self.scalar(Sc::new(Ty::U32, v as u64)) }
    pub fn off(&mut self, target: usize) -> usize {
        self.align(4, 4);
        let v = (self.used() + 4 - target) as u32;
        self.prepend(&v.to_le_bytes());
        self.used()
    }
    pub fn string(&mut self, s: &[u8]) -> usize {
        self.align(s.len() + 1, 4);
        self.prepend(&[0]);
        self.prepend(s);
        self.u32(s.len() as u32)
    }
    pub fn vec(&mut self, ty: Ty, xs: &[Sc]) -> usize {
        self.align(xs.len() * ty.size(), ty.size().max(4));
        for x in xs.iter().rev() { self.scalar(*x); }
        self.u32(xs.len() as u32)
    }
    pub fn vec_off(&mut self, xs: &[usize]) -> usize {
        self.align(xs.len() * 4, 4);
        for x in xs.iter().rev() { self.off(*x); }
        self.u32(xs.len() as u32)
    }
    /// fields: (slot byte offset, rev position of the value)
    pub fn end_table(&mut self, tail: usize, fields: &[(u16, usize)]) -> usize {
        let obj = self.u32(0xF0F0F0F0);
        let n = fields.iter().map(|f| f.0 as usize + 2).max().unwrap_or(4).max(4);
        let mut vt = vec![0u8; n];
        vt[0..2].copy_from_slice(&(n as u16).to_le_bytes());
        vt[2..4].copy_from_slice(&((obj - tail) as u16).to_le_bytes());
        for (s, r) in fields {
            let s = *s as usize;
            vt[s..s + 2].copy_from_slice(&((obj - r) as u16).to_le_bytes());
        }
        let mut found = None;
        for v in &self.vts {
            let cand: Vec<u8> = (0..n).filter_map(|i| if i < *v { Some(self.rev[v - 1 - i]) } else { None }).collect();
            if cand == vt { found = Some(*v) }
        }
        let at = match found {
            Some(v) => v,
            None => { self.prepend(&vt); let u = self.used(); self.vts.push(u); u }
        };
        let so = (at as i64 - obj as i64) as i32;
        for (i, b) in so.to_le_bytes().iter().enumerate() { self.rev[obj - 1 - i] = *b }
        obj
    }
    pub fn finish(&mut self, root: usize, ident: Option<&[u8]>, sized: bool) {
        let lead = 4 + if sized { 4 } else { 0 } + if ident.is_some() { 4 } else { 0 };
        let a = self.min_align.max(4);
        self.vts.clear();
        self.align(lead, a);
        if let Some(i) = ident { self.prepend(i) }
        self.off(root);
        if sized { let n = self.used() as u32; self.u32(n); }
    }
}

/// what a table read must give, independent of butte
#[derive(Clone, Debug, PartialEq)]
pub enum Slot { Oob, Absent, At(usize) }
pub fn vtable_loc(b: &[u8], loc: usize) -> Option<usize> {
    let so = rd(b, loc, 4)? as u32 as i32;
    let v = loc as i64 - so as i64;
    if v < 0 { None } else { Some(v as usize) }
}
pub fn slot(b: &[u8], loc: usize, s: u16) -> Slot {
    let v = match vtable_loc(b, loc) { None => return Slot::Oob, Some(v) => v };
    let n = match rd(b, v, 2) { None => return Slot::Oob, Some(n) => n };
    if s as u64 >= n { return Slot::Absent }
    match rd(b, v + s as usize, 2) { None => Slot::Oob, Some(0) => Slot::Absent, Some(o) => Slot::At(loc + o as usize) }
}
#[derive(Clone, Debug, PartialEq)]
pub enum SErr { Oob, NoNul, NoUtf8 }
pub fn string(b: &[u8], loc: usize) -> Result<&[u8], SErr> {
    let n = rd(b, loc, 4).ok_or(SErr::Oob)? as usize;
    let e = loc + 4 + n;
    if e >= b.len() { return Err(SErr::Oob) }
    if b[e] != 0 { return Err(SErr::NoNul) }
    if !utf8(&b[loc + 4..e]) { return Err(SErr::NoUtf8) }
    Ok(&b[loc + 4..e])
}
/// RFC 3629, written out
pub fn utf8(s: &[u8]) -> bool {
    let mut i = 0;
    let c = |k: usize, lo: u8, hi: u8| k < s.len() && s[k] >= lo && s[k] <= hi;
    while i < s.len() {
        let b = s[i];
        i += match b {
            0..=0x7f => 1,
            0xc2..=0xdf if c(i + 1, 0x80, 0xbf) => 2,
            0xe0 if c(i + 1, 0xa0, 0xbf) && c(i + 2, 0x80, 0xbf) => 3,
            0xe1..=0xec | 0xee | 0xef if c(i + 1, 0x80, 0xbf) && c(i + 2, 0x80, 0xbf) => 3,
            0xed if c(i + 1, 0x80, 0x9f) && c(i + 2, 0x80, 0xbf) => 3,
            0xf0 if c(i + 1, 0x90, 0xbf) && c(i + 2, 0x80, 0xbf) && c(i + 3, 0x80, 0xbf) => 4,
            0xf1..=0xf3 if c(i + 1, 0x80, 0xbf) && c(i + 2, 0x80, 0xbf) && c(i + 3, 0x80, 0xbf) => 4,
            0xf4 if c(i + 1, 0x80, 0x8f) && c(i + 2, 0x80, 0xbf) && c(i + 3, 0x80, 0xbf) => 4,
            _ => return false,
        };
    }
    true
}
