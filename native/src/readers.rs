use crate::{builders::{ensure, hex}, hist::*, model::*, rng::Rng, Case};
use butte::*;
use std::collections::VecDeque;

/// bytes at a chosen address modulo 8
pub struct At { v: Vec<u64>, off: usize, n: usize }
impl At {
    pub fn new(b: &[u8], off: usize) -> At {
        let mut v = vec![0xEEEE_EEEE_EEEE_EEEEu64; b.len() / 8 + 3];
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), (v.as_mut_ptr() as *mut u8).add(off), b.len()) };
        At { v, off, n: b.len() }
    }
    pub fn get(&self) -> &[u8] { unsafe { std::slice::from_raw_parts((self.v.as_ptr() as *const u8).add(self.off), self.n) } }
    pub fn get_mut(&mut self) -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut((self.v.as_mut_ptr() as *mut u8).add(self.off), self.n) } }
}
fn oob<T>(x: Result<T, Error>) -> Result<Option<T>, String> {
    match x { Ok(v) => Ok(Some(v)), Err(Error::OutOfBounds) => Ok(None), Err(e) => Err(format!("error {:?}", e)) }
}
fn sc_at(b: &[u8], loc: usize, t: Ty) -> Option<u64> { rd(b, loc, t.size()) }

// ---------------------------------------------------------------- R01
pub fn r01(r: &mut Rng, n: u64) -> Case {
    let ty = TYS[(n % 11) as usize];
    let x = Sc::new(ty, if n / 11 < 256 && ty.size() == 1 { n / 11 } else { r.bits() });
    let len = ty.size() + r.below(9);
    let off = r.below(8);
    let seed = r.u64();
    let short = r.below(ty.size() + 1);
    let loc = r.below(20);
    let mut c = Case::new(format!("{:?} len={} addr%8={} loc={} short={}", x, len, off, loc, short), true);
    c.run(|| {
        let mut g = Rng::new(seed, 1);
        let init: Vec<u8> = (0..len).map(|_| g.u64() as u8).collect();
        let mut m = At::new(&init, off);
        with_ty!(ty, T, {
            emplace_scalar::<T>(m.get_mut(), <T as Bits>::of(x.bits));
            let want = x.le();
            ensure!(m.get()[..ty.size()] == want[..], "emplace_scalar wrote {}, little-endian is {}", hex(&m.get()[..ty.size()]), hex(&want));
            ensure!(m.get()[ty.size()..] == init[ty.size()..], "emplace_scalar changed bytes behind the value");
            let v = read_scalar::<T>(m.get()).map_err(|e| format!("{:?}", e))?.to();
            ensure!(v == x.bits, "read_scalar gives {:x}, wrote {:x}", v, x.bits);
            ensure!(oob(read_scalar::<T>(&m.get()[..short.min(ty.size())]))?.is_none() == (short < ty.size()), "read_scalar of {} bytes", short);
            // at a location, with bytes around it
            let buf: Vec<u8> = (0..24).map(|_| if ty == Ty::Bool { g.u64() as u8 & 1 } else { g.u64() as u8 }).collect();
            let b = At::new(&buf, off);
            for l in [loc, 24 - ty.size(), 24 - ty.size() + 1, 24, 25, 1 << 33] {
                let got = oob(read_scalar_at::<T>(b.get(), l))?.map(|v| v.to());
                ensure!(got == sc_at(&buf, l, ty), "read_scalar_at({}) gives {:x?}, expected {:x?}", l, got, sc_at(&buf, l, ty));
                let got = oob(<T>::follow(b.get(), l))?.map(|v| v.to());
                ensure!(got == sc_at(&buf, l, ty), "follow({}) gives {:x?}, expected {:x?}", l, got, sc_at(&buf, l, ty));
            }
            // through the builder
            let mut f = FlatBufferBuilder::new();
            f.push(<T as Bits>::of(x.bits));
            ensure!(f.unfinished_data() == &want[..], "push wrote {}", hex(f.unfinished_data()));
        });
        if ty == Ty::F32 { let v = f32::from_bits(x.bits as u32); ensure!(byte_swap_f32(v).to_bits() == v.to_bits().swap_bytes(), "byte_swap_f32") }
        if ty == Ty::F64 { let v = f64::from_bits(x.bits); ensure!(byte_swap_f64(v).to_bits() == v.to_bits().swap_bytes(), "byte_swap_f64") }
        Ok(())
    });
    c
}

// ---------------------------------------------------------------- hostile buffers
fn word(r: &mut Rng, n: usize) -> u32 {
    match r.below(14) {
        0 => 0, 1 => u32::MAX, 2 => i32::MIN as u32, 3 => i32::MAX as u32, 4 => (n as u32).wrapping_sub(r.below(8) as u32), 5 => r.u64() as u32,
        6 => (-(r.below(n + 8) as i32)) as u32, 7 => 0x10000 - r.below(4) as u32, 8 => 0x0004_0004, 9 => 4 + 2 * r.below(6) as u32, 10 => (8 + 2 * r.below(4) as u32) | (r.below(12) as u32) << 16,
        _ => r.below(n + 4) as u32,
    }
}
pub fn hostile(r: &mut Rng) -> Vec<u8> {
    match r.below(4) {
        0 => { let n = r.below(40); (0..n).map(|_| if r.chance(1, 2) { r.below(16) as u8 } else { r.u64() as u8 }).collect() }
        1 => {
            let n = r.below(18);
            let mut v = vec![];
            for _ in 0..n { v.extend_from_slice(&word(r, 4 * n).to_le_bytes()) }
            let k = r.below(4); v.truncate(v.len().saturating_sub(k));
            v
        }
        _ => {
            let mut h = gen(r, 6);
            for o in h.ops.iter_mut() { if let Op::Table(fs) = o { fs.retain(|f| f.slot < 100) } }
            let (mut e, rev) = ref_run(&h);
            if let Some(f) = &h.fin { e.finish(rev[f.root], f.ident.as_ref().map(|x| x.as_bytes()), f.sized) }
            let mut v = e.bytes();
            if v.len() > 600 { v.truncate(600) }
            if !v.is_empty() {
                for _ in 0..r.below(4) {
                    let n = v.len();
                    match r.below(5) {
                        0 => { let k = r.below(n); v[k] = r.u64() as u8 }
                        1 | 2 => { let k = r.below(n) / 4 * 4; let w = word(r, n).to_le_bytes(); for i in 0..4 { if k + i < n { v[k + i] = w[i] } } }
                        3 => { let k = r.below(n) / 2 * 2; let w = (word(r, n) as u16).to_le_bytes(); for i in 0..2 { if k + i < n { v[k + i] = w[i] } } }
                        _ => { v.truncate(n - r.below(n.min(9))); if v.is_empty() { break } }
                    }
                }
            }
            v
        }
    }
}
fn inside(outer: &[u8], p: *const u8, n: usize) -> bool {
    let a = outer.as_ptr() as usize;
    let q = p as usize;
    q >= a && q + n <= a + outer.len()
}
fn locs(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v = vec![0, n, n + 1, n.saturating_sub(1), n.saturating_sub(4), n.saturating_sub(5), 1 << 32, (1 << 33) + 7];
    for _ in 0..6 { v.push(r.below(n + 3)) }
    for _ in 0..3 { v.push(r.below(n + 3) / 4 * 4) }
    v
}
const SLOTS: [u16; 14] = [0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 20, 255, 256, 65535];

// ---------------------------------------------------------------- R02: no panic, everything inside
fn poke<'a, T: Follow<'a> + 'a>(d: &'a [u8], loc: usize, at: &mut dyn FnMut(T::Inner) -> bool, r: &mut Rng) -> Result<(), String> {
    let v = match <Vector<T>>::follow(d, loc) { Ok(v) => v, Err(_) => return Ok(()) };
    let len = v.len();
    let _ = v.is_empty();
    if let Ok(n) = len {
        for i in [0, 1, n / 2, n.wrapping_sub(1)] { if i < n { if let Ok(x) = v.get(i) { ensure!(at(x), "element {} at {} lies outside the buffer", i, loc) } } }
    }
    let mut it = v.iter();
    for _ in 0..12 {
        let x = match r.below(7) { 0 | 1 => it.next(), 2 => it.next_back(), 3 => it.nth(r.below(4)), 4 => it.nth_back(r.below(4)), 5 => if r.chance(1, 4) { it.nth(usize::MAX - r.below(3)) } else { let mut c = it.clone(); c.next() }, _ => if r.chance(1, 4) { it.nth_back(usize::MAX - r.below(3)) } else { let (a, b) = it.size_hint(); ensure!(b == Some(a) && a == it.len(), "size_hint"); None } };
        if let Some(Ok(x)) = x { ensure!(at(x), "element of the vector at {} lies outside the buffer", loc) }
    }
    Ok(())
}
pub fn r02(r: &mut Rng, _n: u64) -> Case {
    let b = hostile(r);
    let off = r.below(8);
    let seed = r.u64();
    let mut c = Case::new(format!("addr%8={} bytes={}", off, b.iter().map(|x| format!("{:02x}", x)).collect::<String>()), b.len() >= 8);
    c.run(|| {
        let mut r = Rng::new(seed, 2);
        let m = At::new(&b, off);
        let d = m.get();
        for sized in [false, true] {
            let _ = buffer_has_identifier(d, "ABCD", sized);
            let t = if sized { Table::get_size_prefixed_root(d) } else { Table::get_root(d) };
            let _ = if sized { get_size_prefixed_root::<Table<&[u8]>, _>(d) } else { get_root::<Table<&[u8]>, _>(d) };
            if let Ok(t) = t { table(d, &t, &mut r, 2)? }
        }
        for l in locs(&mut r, d.len()) {
            table(d, &Table::new(d, l), &mut r, 0)?;
            leaf(d, l, &mut r)?;
        }
        Ok(())
    });
    return c;
    fn leaf(d: &[u8], l: usize, r: &mut Rng) -> Result<(), String> {
        if let Ok(s) = <&str>::follow(d, l) { ensure!(inside(d, s.as_ptr(), s.len()) && std::str::from_utf8(s.as_bytes()).is_ok(), "string at {} lies outside the buffer or is not UTF-8", l) }
        if let Ok(s) = <ForwardsUOffset<&str>>::follow(d, l) { ensure!(inside(d, s.as_ptr(), s.len()), "string at {} lies outside the buffer", l) }
        if let Ok(s) = <FileIdentifier>::follow(d, l) { ensure!(s.len() == 4 && inside(d, s.as_ptr(), 4), "identifier at {} lies outside", l) }
        let _ = <SkipSizePrefix<ForwardsUOffset<u32>>>::follow(d, l);
        let _ = <SkipRootOffset<u32>>::follow(d, l);
        let _ = <SkipFileIdentifier<u32>>::follow(d, l);
        let _ = <ForwardsVOffset<u32>>::follow(d, l);
        let _ = <BackwardsSOffset<u32>>::follow(d, l);
        let _ = <ForwardsUOffset<ForwardsUOffset<u64>>>::follow(d, l);
        for ty in TYS {
            with_num_ty!(ty, T, {
                let _ = <T>::follow(d, l);
                if let Ok(s) = <&[T]>::follow(d, l) {
                    ensure!(inside(d, s.as_ptr() as *const u8, std::mem::size_of_val(s)), "slice at {} lies outside the buffer", l);
                    ensure!(s.as_ptr() as usize % std::mem::align_of::<T>() == 0, "slice at {} is misaligned", l);
                }
                if let Ok(v) = <Vector<T>>::follow(d, l) { if let Ok(s) = v.safe_slice() {
                    ensure!(inside(d, s.as_ptr() as *const u8, std::mem::size_of_val(s)), "slice at {} lies outside the buffer", l);
                    ensure!(s.as_ptr() as usize % std::mem::align_of::<T>() == 0, "slice at {} is misaligned", l);
                } }
                poke::<T>(d, l, &mut |_| true, r)?;
            });
        }
        let _ = <bool>::follow(d, l);
        poke::<bool>(d, l, &mut |_| true, r)?;
        poke::<ForwardsUOffset<&str>>(d, l, &mut |s: &str| inside(d, s.as_ptr(), s.len()), r)?;
        if let Ok(x) = unsafe { follow_cast_ref::<[u8; 5]>(d, l) } { ensure!(inside(d, x.as_ptr(), 5), "follow_cast_ref at {} lies outside", l) }
        Ok(())
    }
    fn table(d: &[u8], t: &Table<&[u8]>, r: &mut Rng, depth: usize) -> Result<(), String> {
        if let Ok(v) = t.vtable() {
            let _ = (v.num_fields(), v.num_bytes(), v.object_inline_num_bytes());
            if let Ok(s) = v.as_bytes() { ensure!(inside(d, s.as_ptr(), s.len()), "vtable bytes lie outside the buffer") }
            for i in [0, 1, 2, 5, 32767, 1 << 40] { let _ = v.get_field(i); }
            for s in SLOTS { let _ = v.get(s); }
            if let Ok(w) = t.vtable() { ensure!(v == w, "a vtable is not equal to itself") }
        }
        for s in SLOTS {
            let _ = t.get::<u8>(s, None);
            let _ = t.get::<u16>(s, Some(3));
            let _ = t.get::<i32>(s, Some(3));
            let _ = t.get::<f64>(s, None);
            let _ = t.get::<bool>(s, Some(true));
            if let Ok(Some(x)) = t.get::<ForwardsUOffset<&str>>(s, None) { ensure!(inside(d, x.as_ptr(), x.len()), "string of slot {} lies outside the buffer", s) }
            if let Ok(Some(x)) = t.get::<ForwardsUOffset<&[u16]>>(s, None) { ensure!(inside(d, x.as_ptr() as *const u8, 2 * x.len()), "slice of slot {} lies outside the buffer", s) }
            if let Ok(Some(v)) = t.get::<ForwardsUOffset<Vector<ForwardsUOffset<&str>>>>(s, None) {
                for x in v.iter().take(5) { if let Ok(x) = x { ensure!(inside(d, x.as_ptr(), x.len()), "string in slot {} lies outside", s) } }
            }
            if depth > 0 { if let Ok(Some(o)) = t.get::<u32>(s, None) {
                if let Slot::At(p) = slot(d, t.loc, s) { let l = p + o as usize; leaf(d, l, r)?; table(d, &Table::new(d, l), r, depth - 1)? }
            } }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- R03
pub fn r03(r: &mut Rng, _n: u64) -> Case {
    let b = hostile(r);
    let off = r.below(8);
    let seed = r.u64();
    let mut c = Case::new(format!("bytes={}", b.iter().map(|x| format!("{:02x}", x)).collect::<String>()), b.len() >= 8);
    c.run(|| {
        let mut r = Rng::new(seed, 3);
        let m = At::new(&b, off);
        let d = m.get();
        // roots and identifiers
        for sized in [false, true] {
            let z = if sized { 4 } else { 0 };
            let want = rd(d, z, 4).map(|o| z + o as usize);
            let g = oob(if sized { Table::get_size_prefixed_root(d) } else { Table::get_root(d) })?.map(|t| t.loc);
            ensure!(g == want, "root (sized {}) at {:?}, expected {:?}", sized, g, want);
            let g = oob(if sized { get_size_prefixed_root::<Table<Vec<u8>>, _>(d.to_vec()) } else { get_root::<Table<Vec<u8>>, _>(d.to_vec()) })?.map(|t| t.loc);
            ensure!(g == want, "root (sized {}) at {:?}, expected {:?}", sized, g, want);
            let have = if z + 8 <= d.len() { Some(&d[z + 4..z + 8]) } else { None };
            let mut ids: Vec<String> = vec!["ABCD".into(), "fbs1".into(), "\0\0\0\0".into()];
            if let Some(h) = have { ids.extend(near_idents(h)) }
            for w in [0, 4, 8, 12] { if w + 4 <= d.len() { if let Ok(s) = std::str::from_utf8(&d[w..w + 4]) { ids.push(s.to_string()) } } }
            for id in ids {
                let g = oob(buffer_has_identifier(d, &id, sized))?;
                ensure!(g == have.map(|h| h == id.as_bytes()), "buffer_has_identifier({:?}, {}) is {:?}, bytes there are {:?}", id, sized, g, have);
            }
        }
        for l in locs(&mut r, d.len()) {
            // offsets
            let f = rd(d, l, 4).map(|o| l + o as usize);
            let want = f.and_then(|p| rd(d, p, 2));
            ensure!(oob(<ForwardsUOffset<u16>>::follow(d, l))?.map(|x| x as u64) == want, "ForwardsUOffset at {}", l);
            let want = rd(d, l, 2).and_then(|o| rd(d, l + o as usize, 4));
            ensure!(oob(<ForwardsVOffset<u32>>::follow(d, l))?.map(|x| x as u64) == want, "ForwardsVOffset at {}", l);
            let want = vtable_loc(d, l).and_then(|v| rd(d, v, 1));
            ensure!(oob(<BackwardsSOffset<u8>>::follow(d, l))?.map(|x| x as u64) == want, "BackwardsSOffset at {}", l);
            ensure!(oob(<SkipSizePrefix<u32>>::follow(d, l))?.map(|x| x as u64) == rd(d, l + 4, 4), "SkipSizePrefix at {}", l);
            ensure!(oob(<SkipRootOffset<u32>>::follow(d, l))?.map(|x| x as u64) == rd(d, l + 4, 4), "SkipRootOffset at {}", l);
            ensure!(oob(<SkipFileIdentifier<u32>>::follow(d, l))?.map(|x| x as u64) == rd(d, l + 4, 4), "SkipFileIdentifier at {}", l);
            let want = if l + 4 <= d.len() { Some(&d[l..l + 4]) } else { None };
            ensure!(oob(<FileIdentifier>::follow(d, l))? == want, "FileIdentifier at {}", l);
            // tables
            let t = Table::new(d, l);
            let mut slots: Vec<u16> = SLOTS.to_vec();
            if let Some(n) = vtable_loc(d, l).and_then(|v| rd(d, v, 2)) { for k in -3i64..3 { let s = n as i64 + k; if s >= 0 && s < 65536 { slots.push(s as u16) } } }
            for s in slots {
                for ty in [Ty::U8, Ty::U16, Ty::I32, Ty::U64, Ty::F32, Ty::Bool] {
                    with_ty!(ty, T, for def in [None, Some(<T as Bits>::of(r.u64()))] {
                        let g = oob(t.get::<T>(s, def))?.map(|x| x.map(|y| y.to()));
                        let want = match slot(d, l, s) {
                            Slot::Oob => None,
                            Slot::Absent => Some(def.map(|x| x.to())),
                            Slot::At(p) => sc_at(d, p, ty).map(|x| Some(if ty == Ty::Bool { (x != 0) as u64 } else { x })),
                        };
                        ensure!(g == want, "table at {}, slot {}, {:?}: reads {:x?}, expected {:x?}", l, s, ty, g, want);
                    });
                }
                let g = t.get::<ForwardsUOffset<&str>>(s, Some("dflt"));
                let want = match slot(d, l, s) {
                    Slot::Oob => Err(Error::OutOfBounds),
                    Slot::Absent => Ok("dflt".as_bytes()),
                    Slot::At(p) => match rd(d, p, 4) { None => Err(Error::OutOfBounds), Some(o) => string(d, p + o as usize).map_err(serr) },
                };
                ensure!(g.as_ref().map(|x| x.map(|y| y.as_bytes())) == want.as_ref().map(|x| Some(*x)), "table at {}, slot {}, string: reads {:?}, expected {:?}", l, s, g, want);
            }
            // vtable queries
            match (vtable_loc(d, l), oob(t.vtable())?) {
                (None, None) => {}
                (Some(v), Some(vt)) => {
                    let n = rd(d, v, 2);
                    ensure!(oob(vt.num_bytes())?.map(|x| x as u64) == n, "num_bytes");
                    ensure!(oob(vt.object_inline_num_bytes())?.map(|x| x as u64) == rd(d, v + 2, 2), "object_inline_num_bytes");
                    let nf = n.map(|n| (n / 2).saturating_sub(2));
                    ensure!(oob(vt.num_fields())?.map(|x| x as u64) == nf, "num_fields {:?}, expected {:?}", vt.num_fields(), nf);
                    for i in [0usize, 1, 2, 3, 7, nf.unwrap_or(0) as usize, (nf.unwrap_or(0) as usize).wrapping_sub(1), 40000] {
                        let want = nf.and_then(|nf| if i as u64 >= nf { Some(None) } else { rd(d, v + 4 + 2 * i, 2).map(Some) });
                        ensure!(oob(vt.get_field(i))?.map(|x| x.map(|y| y as u64)) == want, "get_field({}) is {:?}, expected {:?}", i, vt.get_field(i), want);
                    }
                    for s in SLOTS {
                        let want = n.and_then(|n| if s as u64 >= n { Some(None) } else { rd(d, v + s as usize, 2).map(Some) });
                        ensure!(oob(vt.get(s))?.map(|x| x.map(|y| y as u64)) == want, "vtable get({}) is {:?}, expected {:?}", s, vt.get(s), want);
                    }
                    let want = n.and_then(|n| d.get(v..v + n as usize));
                    ensure!(oob(vt.as_bytes())? == want, "vtable bytes");
                }
                (a, b) => ensure!(false, "vtable of the table at {}: {:?}, expected at {:?}", l, b.is_some(), a),
            }
        }
        Ok(())
    });
    c
}
fn serr(e: SErr) -> Error { match e { SErr::Oob => Error::OutOfBounds, SErr::NoNul => Error::NonNullTerminatedString, SErr::NoUtf8 => Error::NonUtf8String } }

// ---------------------------------------------------------------- R04
pub fn r04(r: &mut Rng, n: u64) -> Case {
    let bits: [&[u8]; 16] = [b"a", b"\0", b"\x7f", b"\x80", b"\xc0\x80", b"\xc2\x80", b"\xe0\x80\x80", b"\xe0\xa0\x80", b"\xed\xa0\x80", b"\xef\xbf\xbf", b"\xf0\x80\x80\x80", b"\xf0\x9f\x98\x80", b"\xf4\x90\x80\x80", b"\xff", b"\xe6\xbc", b"xyz"];
    let mut body = vec![];
    for _ in 0..r.below(5) { let k = if r.chance(1, 2) { 3 } else { 16 }; body.extend_from_slice(bits[r.below(k)]) }
    let pre = r.below(6);
    let mut b: Vec<u8> = (0..pre).map(|_| r.u64() as u8).collect();
    let len = match r.below(6) { 0 => word(r, 16), 1 => (body.len() as u32).wrapping_add(r.below(3) as u32).wrapping_sub(1), _ => body.len() as u32 };
    b.extend_from_slice(&len.to_le_bytes());
    b.extend_from_slice(&body);
    match r.below(4) { 0 => {} 1 => b.push(r.u64() as u8), _ => { b.push(0); for _ in 0..r.below(4) { b.push(r.u64() as u8) } } }
    if n % 7 == 0 { let k = b.len() - r.below(b.len()); b.truncate(k) }
    let off = r.below(8);
    let mut c = Case::new(format!("loc={} bytes={}", pre, b.iter().map(|x| format!("{:02x}", x)).collect::<String>()), true);
    c.run(|| {
        let m = At::new(&b, off);
        let d = m.get();
        for l in [pre, 0, pre + 1, d.len(), d.len() + 1, d.len().saturating_sub(4), d.len().saturating_sub(5), 1 << 34] {
            let g = <&str>::follow(d, l);
            let want = string(d, l).map_err(serr);
            ensure!(g.as_ref().map(|s| s.as_bytes()) == want.as_ref().map(|s| *s), "string at {}: {:?}, expected {:?}", l, g, want);
            if let (Ok(g), Ok(w)) = (&g, &want) { ensure!(g.len() == 0 || g.as_ptr() == w.as_ptr(), "string at {} is not a view of the buffer", l) }
        }
        Ok(())
    });
    c
}

// ---------------------------------------------------------------- R05
fn model<'a, T: Follow<'a> + 'a>(d: &'a [u8], loc: usize, elem: &dyn Fn(usize) -> Result<Vec<u8>, Error>, enc: &dyn Fn(T::Inner) -> Vec<u8>, sz: usize, r: &mut Rng) -> Result<(), String> {
    let v = <Vector<T>>::follow(d, loc).map_err(|e| format!("{:?}", e))?;
    let n = rd(d, loc, 4).map(|x| x as usize);
    let g = v.len();
    ensure!(g == n.ok_or(Error::OutOfBounds), "len() is {:?}, expected {:?}", g, n);
    ensure!(v.is_empty() == n.map(|x| x == 0).ok_or(Error::OutOfBounds), "is_empty() is {:?}", v.is_empty());
    let n = n.unwrap_or(0);
    let e = |i: usize| elem(loc + 4 + i * sz);
    let show = |x: Result<T::Inner, Error>| x.map(|y| enc(y));
    for i in [0, 1, 2, n / 2, n.wrapping_sub(2), n.wrapping_sub(1)] {
        if i < n { let g = show(v.get(i)); ensure!(g == e(i), "get({}) is {:?}, expected {:?}", i, g, e(i)) }
    }
    // iterator against a range of indices
    let (mut a, mut z) = (0usize, n);
    let mut it = match r.below(3) { 0 => v.iter(), 1 => v.into_iter(), _ => (&v).into_iter() };
    let mut log = vec![];
    for _ in 0..r.below(14) {
        let arg = match r.below(8) { 0 => usize::MAX, 1 => z - a, 2 => (z - a).wrapping_sub(1), 3 => (usize::MAX / sz).wrapping_add(r.below(3)), 4 => 1usize << (64 - r.below(4) - 1), _ => r.below(4) };
        let op = r.below(7);
        let (g, want) = match op {
            0 => { log.push(format!("next")); (it.next(), if a < z { a += 1; Some(a - 1) } else { None }) }
            1 => { log.push(format!("next_back")); (it.next_back(), if a < z { z -= 1; Some(z) } else { None }) }
            2 => { log.push(format!("nth({})", arg)); let w = if arg < z - a { a += arg + 1; Some(a - 1) } else { a = z; None }; (it.nth(arg), w) }
            3 => { log.push(format!("nth_back({})", arg)); let w = if arg < z - a { z -= arg + 1; Some(z) } else { z = a; None }; (it.nth_back(arg), w) }
            4 => { log.push(format!("clone")); let old = it.clone(); if r.chance(1, 2) { it = old.clone() }; let mut o = old; (o.next(), if a < z { Some(a) } else { None }) }
            _ => { ensure!(it.size_hint() == (z - a, Some(z - a)) && it.len() == z - a, "after {:?}: size_hint {:?}, len {}, {} remain", log, it.size_hint(), it.len(), z - a); continue }
        };
        match (g, want) {
            (None, None) => {}
            (Some(x), Some(i)) => { let x = show(x); ensure!(x == e(i), "after {:?}: {:?}, expected element {} = {:?}", log, x, i, e(i)) }
            (g, w) => ensure!(false, "after {:?}: {}, expected element {:?} of {}", log, if g.is_some() { "an element" } else { "None" }, w, n),
        }
    }
    ensure!(it.size_hint() == (z - a, Some(z - a)) && it.len() == z - a, "after {:?}: size_hint {:?}, len {}, {} remain", log, it.size_hint(), it.len(), z - a);
    if z - a < 300 {
        let rest: Vec<usize> = (a..z).collect();
        ensure!(it.clone().count() == rest.len(), "after {:?}: count", log);
        let mut got: VecDeque<Result<Vec<u8>, Error>> = VecDeque::new();
        match r.below(4) {
            0 => for x in it { got.push_back(show(x)) },
            1 => for x in it.rev() { got.push_front(show(x)) },
            2 => { it.for_each(|x| got.push_back(show(x))) }
            _ => { let mut k = 0; loop { k += 1; let x = if k % 2 == 0 { it.next() } else { it.next() }; match x { Some(x) => got.push_back(show(x)), None => break } if k > 400 { return Err("iteration does not end".into()) } } for _ in 0..3 { ensure!(it.next().is_none() && it.next_back().is_none(), "element after the end") } }
        }
        let want: Vec<Result<Vec<u8>, Error>> = rest.iter().map(|i| e(*i)).collect();
        ensure!(got == want, "after {:?}: the rest is {:?}, expected {:?}", log, got, want);
    }
    Ok(())
}
pub fn r05(r: &mut Rng, _n: u64) -> Case {
    let (b, loc) = if r.chance(1, 4) { let b = hostile(r); let l = r.below(b.len() + 1); (b, l) } else {
        let pre = r.below(9);
        let mut b: Vec<u8> = (0..pre).map(|_| r.u64() as u8).collect();
        let n = r.below(9);
        let len = if r.chance(1, 8) { word(r, 40) } else { n as u32 };
        b.extend_from_slice(&len.to_le_bytes());
        let kind = r.below(3);
        let body = if kind == 2 { r.below(60) } else { n * *r.pick(&[1usize, 2, 4, 8]) };
        for k in 0..body { b.push(if kind == 0 { k as u8 + 1 } else { r.u64() as u8 }) }
        (b, pre)
    };
    let off = r.below(8);
    let seed = r.u64();
    let ty = *r.pick(&TYS);
    let mut c = Case::new(format!("{:?} loc={} addr%8={} iter-seed={} bytes={}", ty, loc, off, seed, b.iter().map(|x| format!("{:02x}", x)).collect::<String>()), b.len() > 4);
    c.run(|| {
        let mut r = Rng::new(seed, 5);
        let m = At::new(&b, off);
        let d = m.get();
        let sz = ty.size();
        with_ty!(ty, T, {
            let el = |p: usize| sc_at(d, p, ty).map(|x| if ty == Ty::Bool { vec![(x != 0) as u8] } else { Sc { ty, bits: x }.le() }).ok_or(Error::OutOfBounds);
            model::<T>(d, loc, &el, &|x: T| Sc { ty, bits: x.to() }.le(), sz, &mut r)?;
        });
        if ty == Ty::U32 {
            let el = |p: usize| match rd(d, p, 4) { None => Err(Error::OutOfBounds), Some(o) => string(d, p + o as usize).map(|s| s.to_vec()).map_err(serr) };
            model::<ForwardsUOffset<&str>>(d, loc, &el, &|x: &str| x.as_bytes().to_vec(), 4, &mut r)?;
        }
        if ty != Ty::Bool {
            with_num_ty!(ty, T, {
                let n = rd(d, loc, 4).map(|x| x as usize);
                let fits = n.and_then(|n| d.get(loc + 4..loc + 4 + n * sz));
                let aligned = fits.map_or(false, |f| f.as_ptr() as usize % sz == 0);
                for which in 0..2 {
                    let g = if which == 0 { <&[T]>::follow(d, loc) } else { <Vector<T>>::follow(d, loc).and_then(|v| v.safe_slice()) };
                    match (g, fits) {
                        (Err(Error::OutOfBounds), None) => {}
                        (Err(_), Some(_)) if !aligned => {}
                        (Ok(s), Some(f)) if aligned => {
                            ensure!(s.len() == n.unwrap(), "slice has {} elements, expected {:?}", s.len(), n);
                            let bytes: Vec<u8> = s.iter().flat_map(|x| Sc { ty, bits: x.to() }.le()).collect();
                            ensure!(bytes == f, "slice elements {:?}, bytes are {:?}", bytes, f);
                        }
                        (g, f) => ensure!(false, "slice view: {:?}, fits {}, aligned {}", g.map(|s| s.len()), f.is_some(), aligned),
                    }
                }
            });
        }
        Ok(())
    });
    c
}
