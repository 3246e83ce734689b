use crate::{hist::*, model::*, rng::Rng, Case};
use butte::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn builder<'a>(h: &Hist) -> FlatBufferBuilder<'a> { if h.cap == 0 { FlatBufferBuilder::new() } else { FlatBufferBuilder::new_with_capacity(h.cap) } }
fn key(h: &Hist) -> String { format!("{:?}", h) }
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)) } } }
pub(crate) use ensure;

fn own_size(op: &Op, what: &str) -> Option<(usize, usize)> {
    // (bytes of the encoding, alignment) of calls that write one object
    Some(match op {
        Op::Push(s) => (s.ty.size(), s.ty.size()),
        Op::Str(s) => (s.len() + 5, 4),
        Op::Bytes(s) => (s.len() + 5, 4),
        Op::Vec(t, xs, m) if *m != Mode::Manual => (4 + xs.len() * t.size(), t.size().max(4)),
        Op::VecOff(xs, Mode::Create) => (4 + 4 * xs.len(), 4),
        Op::Vec(t, _, _) => match what { "push" => (t.size(), t.size()), "end_vector" => (4, 4), _ => return None },
        Op::VecOff(..) => match what { "push" | "end_vector" => (4, 4), _ => return None },
        _ => return None,
    })
}

// ---------------------------------------------------------------- R06
pub fn r06(r: &mut Rng, _n: u64) -> Case {
    let h = gen(r, 14);
    let mut c = Case::new(key(&h), h.ops.len() > 1);
    c.run(|| {
        let mut run = Run::new(builder(&h), true);
        let mut prev: Vec<u8> = vec![];
        for (k, op) in h.ops.iter().enumerate() {
            run.steps.clear();
            run.op(op);
            for s in &run.steps {
                ensure!(s.data.ends_with(&prev), "op {} ({}): data written before is not a suffix of the data afterwards", k, s.what);
                let grew = s.data.len() - prev.len();
                if let Some((sz, a)) = own_size(op, s.what) {
                    ensure!(grew >= sz && grew < sz + a, "op {} ({}): added {} bytes, encoding is {} with alignment {}", k, s.what, grew, sz, a);
                }
                if s.what == "start_table" { ensure!(grew == 0, "start_table wrote {} bytes", grew) }
                if let (Some((o, _)), true) = (s.ret, s.what != "end_table") {
                    ensure!(o == s.data.len(), "op {} ({}): offset {} but the object starts {} from the end", k, s.what, o, s.data.len());
                }
                if s.what == "end_table" {
                    let o = s.ret.unwrap().0;
                    ensure!(o >= prev.len() + 4 && o < prev.len() + 8 && o <= s.data.len(), "end_table: offset {} with {} bytes before and {} after", o, prev.len(), s.data.len());
                }
                prev = s.data.clone();
            }
            if let Op::VecStr(xs) = op {
                let n: usize = xs.iter().map(|x| x.len() + 5).sum::<usize>() + 4 + 4 * xs.len();
                let before = prev.len();
                ensure!(before >= n, "create_vector_of_strings wrote too little");
            }
        }
        let (e, rev) = ref_run(&h);
        ensure!(run.rev == rev, "offsets returned {:?}, expected {:?}", run.rev, rev);
        ensure!(e.bytes() == prev, "bytes {} differ from the encoding {}", hex(&prev), hex(&e.bytes()));
        if let Some(f) = &h.fin {
            run.steps.clear();
            run.finish(f);
            let s = &run.steps[0];
            ensure!(s.data.ends_with(&prev), "finish changed data already written");
            ensure!(s.data == run.b.finished_data(), "finished_data differs from unfinished_data");
            let lead = 4 + if f.sized { 4 } else { 0 } + if f.ident.is_some() { 4 } else { 0 };
            let a = e.min_align.max(4);
            let grew = s.data.len() - prev.len();
            ensure!(grew >= lead && grew < lead + a, "finish added {} bytes", grew);
            let (v, head) = { let b = run.b.clone(); b.collapse() };
            ensure!(v[head..] == s.data[..], "collapse returns other data");
        }
        Ok(())
    });
    c
}
pub fn hex(b: &[u8]) -> String { b.iter().take(200).map(|x| format!("{:02x}", x)).collect() }

// ---------------------------------------------------------------- R07
pub fn r07(r: &mut Rng, _n: u64) -> Case {
    let h = gen(r, 14);
    let mut c = Case::new(key(&h), h.ops.len() > 1);
    c.run(|| {
        let mut run = Run::new(builder(&h), true);
        let mut maxa = 4;
        for (k, op) in h.ops.iter().enumerate() {
            run.steps.clear();
            run.op(op);
            for s in &run.steps {
                if let Some((o, a)) = s.ret { ensure!(o % a == 0, "op {} ({}): at {} from the end, alignment {}", k, s.what, o, a) }
            }
            let o = run.rev[k];
            match op {
                Op::Vec(t, xs, _) => {
                    if !xs.is_empty() { maxa = maxa.max(t.size()) }
                    ensure!((o - 4) % t.size() == 0, "op {}: elements of {:?} start {} from the end", k, t, o - 4);
                }
                Op::Push(s) => maxa = maxa.max(s.ty.size()),
                Op::Table(fs) => {
                    let d = run.b.unfinished_data();
                    for f in fs.iter().filter(|f| !elided(f)) {
                        let a = match f.v { FV::Sc(s) => s.ty.size(), _ => 4 };
                        maxa = maxa.max(a);
                        match slot(d, d.len() - o, f.slot) {
                            Slot::At(p) => ensure!((d.len() - p) % a == 0, "op {}: slot {} lies {} from the end, alignment {}", k, f.slot, d.len() - p, a),
                            x => ensure!(false, "op {}: slot {} reads {:?}", k, f.slot, x),
                        }
                    }
                    let v = vtable_loc(d, d.len() - o);
                    ensure!(v.map_or(false, |v| v < d.len() && (d.len() - v) % 2 == 0), "op {}: vtable at {:?}", k, v);
                }
                _ => {}
            }
        }
        if let Some(f) = &h.fin {
            run.finish(f);
            let n = run.b.finished_data().len();
            ensure!(n % maxa == 0, "finished length {} is not a multiple of {}", n, maxa);
        }
        Ok(())
    });
    c
}

// ---------------------------------------------------------------- R08
pub fn follow_check(buf: &[u8], run_rev: &[usize], ops: &[Op], i: usize) -> Result<(), String> {
    // object i, wherever it is, reads back as what was written
    let loc = buf.len() - run_rev[i];
    match &ops[i] {
        Op::Str(s) => {
            let g = <&str>::follow(buf, loc).map_err(|e| format!("string {}: {:?}", i, e))?;
            ensure!(g == s, "object {}: string reads {:?}, wrote {:?}", i, g, s);
        }
        Op::Bytes(s) => {
            let g = <&[u8]>::follow(buf, loc).map_err(|e| format!("bytes {}: {:?}", i, e))?;
            ensure!(g == &s[..], "object {}: bytes read {:?}, wrote {:?}", i, g, s);
            ensure!(rd(buf, loc + 4 + s.len(), 1) == Some(0), "object {}: no terminator", i);
        }
        _ => {}
    }
    Ok(())
}
pub fn r08(r: &mut Rng, _n: u64) -> Case {
    let h = gen(r, 12);
    let nt = h.ops.iter().filter(|o| matches!(o, Op::Table(f) if !f.is_empty())).count();
    let probe = r.u64();
    let mut c = Case::new(key(&h), nt > 0);
    if h.fin.is_none() { return c }
    c.run(|| {
        let mut run = Run::new(builder(&h), true);
        let mut grew: Vec<Vec<usize>> = vec![];
        for op in &h.ops {
            run.steps.clear();
            run.op(op);
            grew.push(run.steps.iter().map(|s| s.data.len()).collect());
        }
        run.finish(h.fin.as_ref().unwrap());
        let d = run.b.finished_data();
        for (k, op) in h.ops.iter().enumerate() {
            let fs = match op { Op::Table(fs) => fs, _ => continue };
            // elision: a push_slot call adds data exactly when the value differs from its default
            for (i, f) in fs.iter().enumerate() {
                let wrote = grew[k][i + 1] > grew[k][i];
                ensure!(wrote != elided(f), "table {}: slot {} {:?}: value written: {}", k, f.slot, f, wrote);
            }
            let t = Table::new(d, d.len() - run.rev[k]);
            for f in fs {
                match &f.v {
                    FV::Sc(s) => with_ty!(s.ty, T, {
                        for def in [None, Some(<T as Bits>::of(!s.bits)), Some(<T as Bits>::of(s.bits ^ probe))] {
                            let g = t.get::<T>(f.slot, def).map_err(|e| format!("table {} slot {}: {:?}", k, f.slot, e))?;
                            let want = if elided(f) { def.map(|x| x.to()) } else { Some(<T as Bits>::of(s.bits).to()) };
                            ensure!(g.map(|x| x.to()) == want, "table {} slot {}: reads {:?}, wrote {:?} (default {:?})", k, f.slot, g.map(|x| x.to()), s, def);
                        }
                    }),
                    FV::Off(i) => {
                        let g = t.get::<u32>(f.slot, None).map_err(|e| format!("table {} slot {}: {:?}", k, f.slot, e))?;
                        let p = match slot(d, d.len() - run.rev[k], f.slot) { Slot::At(p) => p, x => return Err(format!("table {} slot {}: {:?}", k, f.slot, x)) };
                        ensure!(g.map(|x| p + x as usize) == Some(d.len() - run.rev[*i]), "table {} slot {}: offset leads to {:?}, object {} is at {}", k, f.slot, g.map(|x| p + x as usize), i, d.len() - run.rev[*i]);
                        if let Op::Str(s) = &h.ops[*i] {
                            let g = t.get::<ForwardsUOffset<&str>>(f.slot, None).map_err(|e| format!("table {} slot {}: {:?}", k, f.slot, e))?;
                            ensure!(g == Some(s.as_str()), "table {} slot {}: string reads {:?}, wrote {:?}", k, f.slot, g, s);
                        }
                        follow_check(d, &run.rev, &h.ops, *i)?;
                    }
                }
            }
            for i in 0..14u16 {
                let s = 4 + 2 * i;
                if fs.iter().any(|f| f.slot == s) { continue }
                let g = t.get::<u64>(s, Some(probe)).map_err(|e| format!("table {} slot {}: {:?}", k, s, e))?;
                ensure!(g == Some(probe), "table {}: slot {} was not written but reads {:?}", k, s, g);
                let g = t.get::<u8>(s, None).map_err(|e| format!("table {} slot {}: {:?}", k, s, e))?;
                ensure!(g.is_none(), "table {}: slot {} was not written but reads {:?}", k, s, g);
            }
        }
        Ok(())
    });
    c
}

// ---------------------------------------------------------------- R09
pub fn r09(r: &mut Rng, n: u64) -> Case {
    // many small tables over few layouts
    let mut ops = vec![];
    let nt = 2 + r.below(if n % 10 == 0 { 30 } else { 8 });
    let mut pool: Vec<Vec<Field>> = vec![];
    for _ in 0..nt {
        if r.chance(1, 5) { ops.push(if r.chance(1, 2) { Op::Str(gen_string(r)) } else { Op::Push(gen_sc(r)) }) }
        let f = if !pool.is_empty() && r.chance(2, 3) {
            let mut f = r.pick(&pool).clone();
            if r.chance(1, 2) && !f.is_empty() {
                let k = r.below(f.len());
                match r.below(5) {
                    0 => { f.remove(k); }
                    1 => f[k].slot = 4 + 2 * (20 + r.below(4) as u16),
                    2 => { let j = r.below(f.len()); f.swap(k, j) }
                    3 => f[k].v = FV::Sc(gen_sc(r)),
                    _ => { let s = f.iter().map(|x| x.slot).max().unwrap() + 2; f.push(Field { slot: s, v: FV::Sc(gen_sc(r)), def: None }) }
                }
            }
            let mut seen = vec![];
            f.retain(|x| if seen.contains(&x.slot) { false } else { seen.push(x.slot); true });
            f
        } else {
            let m = r.below(4);
            let mut v: Vec<Field> = vec![];
            for _ in 0..m {
                let s = 4 + 2 * r.below(5) as u16;
                if !v.iter().any(|f| f.slot == s) { v.push(Field { slot: s, v: FV::Sc(gen_sc(r)), def: None }) }
            }
            v
        };
        pool.push(f.clone());
        ops.push(Op::Table(f));
    }
    // possibly a second buffer in the same builder
    let again = r.below(3);
    let h = Hist { cap: *r.pick(&[0, 1, 16, 1000]), ops, fin: None };
    let mut c = Case::new(format!("{:?} again={}", h, again), true);
    c.run(|| {
        let mut run = Run::new(builder(&h), true);
        for round in 0..=again.min(1) {
            if round == 1 {
                if again == 1 { run.b.finish_minimal(WIPOffset::<u8>::new(run.b.unfinished_data().len() as u32)); ensure!(run.b.num_written_vtables() == 0, "vtables remembered after finish") }
                run.b.reset();
                run.rev.clear();
            }
            ensure!(run.b.num_written_vtables() == 0, "vtables remembered in a new buffer");
            let mut known: Vec<(Vec<u8>, usize)> = vec![];
            let mut nvt = 0;
            for (k, op) in h.ops.iter().enumerate() {
                run.steps.clear();
                run.op(op);
                let fs = match op { Op::Table(fs) => fs, _ => { ensure!(run.b.num_written_vtables() == nvt, "op {}: vtable count changed", k); continue } };
                let obj = run.rev[k];
                let tail = run.steps[0].data.len();
                let n = fs.iter().map(|f| f.slot as usize + 2).max().unwrap_or(4);
                let mut vt = vec![0u8; n];
                vt[0..2].copy_from_slice(&(n as u16).to_le_bytes());
                vt[2..4].copy_from_slice(&((obj - tail) as u16).to_le_bytes());
                for (i, f) in fs.iter().enumerate() {
                    let p = run.steps[i + 1].data.len();
                    vt[f.slot as usize..f.slot as usize + 2].copy_from_slice(&((obj - p) as u16).to_le_bytes());
                }
                let d = run.b.unfinished_data();
                let at = vtable_loc(d, d.len() - obj).ok_or("vtable offset leads outside")?;
                ensure!(at + n <= d.len() && d[at..at + n] == vt[..], "table {}: vtable at {} is {}, expected {}", k, at, hex(&d[at.min(d.len())..(at + n).min(d.len())]), hex(&vt));
                match known.iter().find(|(v, _)| *v == vt) {
                    Some((_, p)) => {
                        ensure!(d.len() - at == *p, "table {}: an equal vtable exists at {} from the end, but {} is used", k, p, d.len() - at);
                        ensure!(d.len() == obj, "table {}: {} bytes remain in front of a table that shares its vtable", k, d.len() - obj);
                        ensure!(run.b.num_written_vtables() == nvt, "table {}: vtable count changed on re-use", k);
                    }
                    None => {
                        ensure!(d.len() == obj + n && at == 0, "table {}: new vtable at {} and {} bytes in front of the table", k, at, d.len() - obj);
                        nvt += 1;
                        ensure!(run.b.num_written_vtables() == nvt, "table {}: vtable count {}, expected {}", k, run.b.num_written_vtables(), nvt);
                        known.push((vt, d.len()));
                    }
                }
            }
        }
        Ok(())
    });
    c
}

// ---------------------------------------------------------------- R10
pub fn r10(r: &mut Rng, _n: u64) -> Case {
    let h = gen(r, 10);
    let mut c = Case::new(key(&h), h.ops.iter().any(|o| matches!(o, Op::Vec(_, v, _) if v.len() > 1) || matches!(o, Op::VecOff(..) | Op::VecStr(_) | Op::Str(_))));
    if h.fin.is_none() { return c }
    c.run(|| {
        let mut run = Run::new(builder(&h), false);
        for op in &h.ops { run.op(op) }
        run.finish(h.fin.as_ref().unwrap());
        // an address aligned for everything
        let src = run.b.finished_data();
        let mut al = vec![0u64; src.len() / 8 + 1];
        let al8 = unsafe { std::slice::from_raw_parts_mut(al.as_mut_ptr() as *mut u8, src.len()) };
        al8.copy_from_slice(src);
        let d: &[u8] = al8;
        for (k, op) in h.ops.iter().enumerate() {
            let loc = d.len() - run.rev[k];
            let er = |e: Error| format!("object {}: {:?}", k, e);
            follow_check(d, &run.rev, &h.ops, k)?;
            match op {
                Op::Vec(t, xs, m) => with_ty!(*t, T, {
                    let v = <Vector<T>>::follow(d, loc).map_err(er)?;
                    ensure!(v.len().map_err(er)? == xs.len(), "vector {}: length {:?}, wrote {}", k, v.len(), xs.len());
                    ensure!(v.is_empty().map_err(er)? == xs.is_empty(), "vector {}: is_empty", k);
                    for (i, x) in xs.iter().enumerate() {
                        let g = v.get(i).map_err(er)?.to();
                        ensure!(g == x.bits, "vector {} ({:?}) element {}: reads {:x}, wrote {:x}", k, m, i, g, x.bits);
                    }
                    let all: Result<Vec<u64>, Error> = v.iter().map(|x| x.map(|y| y.to())).collect();
                    ensure!(all.map_err(er)? == xs.iter().map(|x| x.bits).collect::<Vec<_>>(), "vector {}: iteration differs", k);
                    if *t != Ty::Bool {
                        let s = <&[T]>::follow(d, loc).map_err(er)?;
                        ensure!(s.iter().map(|x| x.to()).collect::<Vec<_>>() == xs.iter().map(|x| x.bits).collect::<Vec<_>>(), "vector {}: slice view differs", k);
                    }
                }),
                Op::VecOff(xs, _) => {
                    let v = <Vector<u32>>::follow(d, loc).map_err(er)?;
                    ensure!(v.len().map_err(er)? == xs.len(), "vector {}: length", k);
                    for (i, x) in xs.iter().enumerate() {
                        let g = loc + 4 + 4 * i + v.get(i).map_err(er)? as usize;
                        ensure!(g == d.len() - run.rev[*x], "vector {} element {}: leads to {}, object is at {}", k, i, g, d.len() - run.rev[*x]);
                        follow_check(d, &run.rev, &h.ops, *x)?;
                    }
                }
                Op::VecStr(xs) => {
                    let v = <Vector<ForwardsUOffset<&str>>>::follow(d, loc).map_err(er)?;
                    let all: Result<Vec<&str>, Error> = v.iter().collect();
                    ensure!(all.as_ref().map_err(|e| er(e.clone()))? == xs, "strings {}: read {:?}, wrote {:?}", k, all, xs);
                }
                _ => {}
            }
        }
        Ok(())
    });
    c
}

// ---------------------------------------------------------------- R11
pub fn r11(r: &mut Rng, _n: u64) -> Case {
    let h = gen(r, 8);
    let mut c = Case::new(key(&h), h.ops.len() > 1);
    let f = match &h.fin { Some(f) => f.clone(), None => return c };
    c.run(|| {
        let mut run = Run::new(builder(&h), false);
        for op in &h.ops { run.op(op) }
        let before = run.b.unfinished_data().to_vec();
        run.finish(&f);
        let d = run.b.finished_data();
        let z = if f.sized { 4 } else { 0 };
        let idl = if f.ident.is_some() { 4 } else { 0 };
        ensure!(d.len() >= before.len() + z + 4 + idl && d.ends_with(&before), "data is not the suffix of the finished buffer");
        let root = d.len() - run.rev[f.root];
        ensure!(rd(d, z, 4).map(|o| z + o as usize) == Some(root), "root offset leads to {:?}, root is at {}", rd(d, z, 4).map(|o| z + o as usize), root);
        if f.sized { ensure!(rd(d, 0, 4) == Some(d.len() as u64 - 4), "size prefix {:?}, {} bytes follow", rd(d, 0, 4), d.len() - 4) }
        if let Some(id) = &f.ident {
            ensure!(&d[z + 4..z + 8] == id.as_bytes(), "identifier bytes {:?}", &d[z + 4..z + 8]);
            ensure!(buffer_has_identifier(d, id, f.sized) == Ok(true), "buffer_has_identifier({:?}) is {:?}", id, buffer_has_identifier(d, id, f.sized));
            for other in ["ABCD", "ABCE", "zBCD", "fbs1", "fbs2", "\0\0\0\0", "zzz~", "zzzz"].iter().map(|s| s.to_string()).chain(near_idents(id.as_bytes())) {
                let other = &other[..];
                ensure!(buffer_has_identifier(d, other, f.sized) == Ok(other == id), "buffer_has_identifier({:?}) is {:?}", other, buffer_has_identifier(d, other, f.sized));
            }
        }
        let padding = &d[z + 4 + idl..d.len() - before.len()];
        ensure!(padding.iter().all(|b| *b == 0), "padding is {:?}", padding);
        ensure!(padding.len() < 8, "{} bytes of padding", padding.len());
        ensure!(run.b.unfinished_data() == d, "unfinished_data differs after finish");
        let t = if f.sized { Table::get_size_prefixed_root(d) } else { Table::get_root(d) };
        ensure!(t.as_ref().map(|t| t.loc) == Ok(root), "get_root gives {:?}, root is at {}", t.map(|t| t.loc), root);
        let t = if f.sized { get_size_prefixed_root::<Table<&[u8]>, _>(d) } else { get_root::<Table<&[u8]>, _>(d) };
        ensure!(t.as_ref().map(|t| t.loc) == Ok(root), "get_root gives {:?}, root is at {}", t.map(|t| t.loc), root);
        Ok(())
    });
    c
}

// ---------------------------------------------------------------- R12
fn dirty(b: &mut FlatBufferBuilder, r: &mut Rng) {
    let h = gen(r, 8);
    let mut run = Run::new(std::mem::take(b), false);
    for op in &h.ops { run.op(op) }
    match r.below(5) {
        0 => if let Some(f) = &h.fin { run.finish(f) },
        1 => { run.b.start_table(); run.b.push_slot_always(4, 0xAAu8); run.b.push_slot_always(6, u64::MAX); }
        2 => { run.b.start_vector::<u64>(3); run.b.push(u64::MAX); }
        3 => { run.b.start_table(); run.b.push_slot_always(4 + 2 * r.below(8) as u16, u64::MAX); }
        _ => {}
    }
    *b = run.b;
    b.reset();
}
pub fn r12(r: &mut Rng, _n: u64) -> Case {
    let h = gen(r, 12);
    let mut c = Case::new(key(&h), h.ops.len() > 1);
    let s = r.u64();
    c.run(|| {
        let mut r = Rng::new(s, 0);
        let (mut e, rev) = ref_run(&h);
        if let Some(f) = &h.fin { e.finish(rev[f.root], f.ident.as_ref().map(|x| x.as_bytes()), f.sized) }
        let mut first: Option<(Vec<u8>, Vec<usize>)> = None;
        for variant in 0..5 {
            let mut b = match variant { 0 => FlatBufferBuilder::new(), 1 => builder(&h), 2 => FlatBufferBuilder::new_with_capacity(1 + r.below(5000)), 3 => FlatBufferBuilder::default(), _ => FlatBufferBuilder::new_with_capacity(r.below(300)) };
            if variant >= 3 { for _ in 0..1 + r.below(2) { dirty(&mut b, &mut r) } }
            let mut run = Run::new(b, false);
            for op in &h.ops { run.op(op) }
            if let Some(f) = &h.fin { run.finish(f) }
            let d = run.b.unfinished_data().to_vec();
            if e.used() == d.len() {
                for (i, p) in e.pad_mask().iter().enumerate() { ensure!(!p || d[i] == 0, "variant {}: padding byte {} is {}", variant, i, d[i]) }
            }
            match &first {
                None => first = Some((d, run.rev)),
                Some((d0, r0)) => {
                    ensure!(*r0 == run.rev, "variant {} returns other offsets: {:?} and {:?}", variant, r0, run.rev);
                    ensure!(*d0 == d, "variant {} gives other bytes: {} and {}", variant, hex(d0), hex(&d));
                }
            }
        }
        Ok(())
    });
    c
}

// ---------------------------------------------------------------- R14
#[derive(Clone, Copy, Debug, PartialEq)]
enum P { StartT, EndT, Slot, SlotAlways, SlotDef, StartV, PushV, EndV, Str, ByteStr, VecDirect, VecStrs, CreateVec, Finish, FinishMin, FinishSized, Finished, Reset, Push, Req(bool) }
const PS: [P; 21] = [P::StartT, P::EndT, P::Slot, P::SlotAlways, P::SlotDef, P::StartV, P::PushV, P::EndV, P::Str, P::ByteStr, P::VecDirect, P::VecStrs, P::CreateVec, P::Finish, P::FinishMin, P::FinishSized, P::Finished, P::Reset, P::Push, P::Req(true), P::Req(false)];
/// builder state as the protocol sees it
struct S<'a> { b: FlatBufferBuilder<'a>, open: u8, fin: bool, tab: Option<(WIPOffset<TableUnfinishedWIPOffset>, Vec<u16>)>, last: Option<(WIPOffset<TableFinishedWIPOffset>, Vec<u16>)>, pushed: usize, any: bool }
impl<'a> S<'a> {
    /// None: not applicable here (would be outside what the property speaks about)
    fn legal(&self, p: P) -> Option<bool> {
        Some(match p {
            P::StartT | P::StartV | P::Str | P::ByteStr | P::VecDirect | P::VecStrs => self.open == 0,
            P::EndT => match self.open { 1 => true, 0 => false, _ => return None },
            P::EndV => match self.open { 2 => true, 0 => false, _ => return None },
            P::Slot | P::SlotAlways | P::SlotDef => match self.open { 1 => self.tab.as_ref().unwrap().1.len() < 6, 0 => false, _ => return None },
            P::Finish | P::FinishMin | P::FinishSized => if !self.any { return None } else { self.open == 0 && !self.fin },
            P::Finished => self.fin,
            P::PushV => if self.open == 2 && self.pushed < 3 { true } else { return None },
            P::CreateVec | P::Push => if self.open == 0 { true } else { return None },
            P::Reset => true,
            P::Req(want) => match (&self.last, self.open) { (Some((_, s)), 0) => if !want || !s.is_empty() { want } else { return None }, _ => return None },
        })
    }
    fn apply(&mut self, p: P, k: usize, v: u64) {
        let text = ["ab\0c", "", "x", "longer than one word of text", "\u{e9}\0"][(v % 5) as usize];
        let nv = [0usize, 1, 2, 3, 5, 8, 40][(v / 5 % 7) as usize];
        match p {
            P::StartT => { let t = self.b.start_table(); self.tab = Some((t, vec![])); self.open = 1 }
            P::EndT => {
                let t = self.tab.take().map(|x| x);
                let (o, s) = match t { Some((o, s)) => (o, s), None => (WIPOffset::new(self.b.unfinished_data().len() as u32), vec![]) };
                let f = self.b.end_table(o);
                self.last = Some((f, s)); self.open = 0; self.any = true
            }
            P::Slot | P::SlotAlways | P::SlotDef => {
                let n = self.tab.as_ref().map_or(0, |t| t.1.len());
                let slot = 4 + 4 * n as u16;
                match p { P::Slot => if v % 2 == 0 { self.b.push_slot(slot, 7u32 + k as u32, 0) } else { self.b.push_slot(slot, 0u8, 1) }, P::SlotDef => if v % 2 == 0 { self.b.push_slot(slot, 5u16, 5) } else { self.b.push_slot(slot, false, false) }, _ => self.b.push_slot_always(slot, k as u64) }
                if p != P::SlotDef { if let Some(t) = self.tab.as_mut() { t.1.push(slot) } }
            }
            P::StartV => { self.b.start_vector::<u16>(if v % 3 == 0 { nv } else { 3 }); self.open = 2; self.pushed = 0 }
            P::PushV => { self.b.push(k as u16); self.pushed += 1 }
            P::EndV => { self.b.end_vector::<u16>(self.pushed); self.open = 0; self.any = true; self.last = None }
            P::Str => { self.b.create_string(text); self.any = true; self.last = None }
            P::ByteStr => { self.b.create_byte_string(&vec![v as u8; nv]); self.any = true; self.last = None }
            P::VecDirect => { match v / 35 % 4 { 0 => { self.b.create_vector_direct(&vec![1u32; nv]); } 1 => { self.b.create_vector_direct(&vec![1u8; nv]); } 2 => { self.b.create_vector_direct(&vec![1f64; nv]); } _ => { self.b.create_vector_direct(&vec![-1i16; nv]); } } self.any = true; self.last = None }
            P::VecStrs => { self.b.create_vector_of_strings(&vec![text; nv]); self.any = true; self.last = None }
            P::CreateVec => { if v % 2 == 0 { self.b.create_vector(&vec![1u64; nv]); } else { self.b.create_vector(&vec![true; nv]); } self.any = true; self.last = None }
            P::Push => { match v % 3 { 0 => { self.b.push(1u8); } 1 => { self.b.push(1u64); } _ => { self.b.push(1u16); } } self.last = None }
            P::Finish | P::FinishMin | P::FinishSized => {
                let root = WIPOffset::<u8>::new(self.b.unfinished_data().len() as u32);
                match p { P::Finish => self.b.finish(root, Some("abcd")), P::FinishMin => self.b.finish_minimal(root), _ => self.b.finish_size_prefixed(root, None) }
                self.fin = true; self.last = None
            }
            P::Finished => { self.b.finished_data(); }
            P::Reset => { self.b.reset(); self.open = 0; self.fin = false; self.any = false; self.last = None; self.tab = None }
            P::Req(want) => {
                let (o, s) = self.last.clone().unwrap();
                if want { for x in s { self.b.required(o, x, "f") } } else {
                    // an absent slot: between the present ones, or past the end
                    let gap = 6 + 4 * (k % 3) as u16;
                    self.b.required(o, if k % 2 == 0 { gap } else { 60 }, "f")
                }
            }
        }
    }
}
fn protocol(seq: &[P], seed: u64) -> Result<(), String> {
    let mut g = Rng::new(seed, 14);
    let mut s = S { b: FlatBufferBuilder::new(), open: 0, fin: false, tab: None, last: None, pushed: 0, any: false };
    for (k, p) in seq.iter().enumerate() {
        let v = g.u64() >> 8;
        match s.legal(*p) {
            None => continue,
            Some(true) => match catch_unwind(AssertUnwindSafe(|| s.apply(*p, k, v))) { Ok(()) => {}, Err(e) => return Err(format!("legal call {} ({:?}) of {:?} panicked: {}", k, p, seq, crate::msg(&e))) },
            Some(false) => {
                let debug_only = !matches!(p, P::Req(_));
                if debug_only && !cfg!(debug_assertions) { continue }
                if matches!(p, P::Slot | P::SlotAlways | P::SlotDef) && s.open == 1 { continue }
                let mut t = S { b: s.b.clone(), open: s.open, fin: s.fin, tab: s.tab.clone(), last: s.last.clone(), pushed: s.pushed, any: s.any };
                if catch_unwind(AssertUnwindSafe(|| t.apply(*p, k, v))).is_ok() { return Err(format!("illegal call {} ({:?}) of {:?} returned normally", k, p, seq)) }
            }
        }
    }
    Ok(())
}
pub fn r14(r: &mut Rng, n: u64) -> Case {
    // every state reached by up to 3 calls, then every call; then random longer sequences
    let k = PS.len() as u64;
    let m = n % (2 * k * k * k);
    let seq: Vec<P> = if m < k * k * k { vec![PS[(m / k / k % k) as usize], PS[(m / k % k) as usize], PS[(m % k) as usize]] }
        else { let len = 4 + r.below(14); (0..len).map(|_| if r.chance(1, 3) { *r.pick(&[P::StartT, P::SlotAlways, P::EndT, P::Req(true), P::Req(false)]) } else { *r.pick(&PS) }).collect() };
    let seed = r.u64();
    let mut c = Case::new(format!("{:?} arguments {:x}", seq, seed), true);
    c.run(|| protocol(&seq, seed));
    c
}

// ---------------------------------------------------------------- R13 (deterministic, large)
const LIM: usize = 1 << 31;
pub const R13_CASES: u64 = 8;
fn grows(b: &mut FlatBufferBuilder, f: impl FnOnce(&mut FlatBufferBuilder)) -> bool {
    catch_unwind(AssertUnwindSafe(|| f(b))).is_ok()
}
pub fn r13(_r: &mut Rng, n: u64) -> Case {
    let names = ["capacity above the limit", "fill to the limit, then push", "two halves and a bit, small capacity", "offsets across almost 2 GiB", "shared vtable across almost 2 GiB", "one write above the limit", "vector_direct above the limit", "finish at the limit"];
    let mut c = Case::new(names[n as usize].to_string(), true);
    c.run(|| match n {
        0 => {
            ensure!(catch_unwind(|| { FlatBufferBuilder::new_with_capacity(LIM + 1); }).is_err(), "capacity 2^31 + 1 accepted");
            ensure!(catch_unwind(|| { FlatBufferBuilder::new_with_capacity(usize::MAX / 2); }).is_err(), "capacity usize::MAX / 2 accepted");
            ensure!(catch_unwind(|| { FlatBufferBuilder::new_with_capacity(LIM); }).is_ok(), "capacity 2^31 refused");
            Ok(())
        }
        1 => {
            let big = vec![0u8; LIM - 64];
            let mut b = FlatBufferBuilder::new_with_capacity(LIM);
            ensure!(grows(&mut b, |b| { b.create_byte_string(&big); }), "a string of 2^31 - 64 bytes refused");
            let mut k = 0;
            loop {
                let before = b.unfinished_data().len();
                let ok = grows(&mut b, |b| { b.push(k as u64); });
                let after = b.unfinished_data().len();
                ensure!(after <= LIM, "{} bytes written", after);
                if !ok { ensure!(before + 16 > LIM, "refused with {} bytes", before); break }
                ensure!(after > before, "push wrote nothing");
                k += 1;
                ensure!(k < 100, "no limit reached");
            }
            for _ in 0..20 { grows(&mut b, |b| { b.push(1u8); }); ensure!(b.unfinished_data().len() <= LIM, "{} bytes written", b.unfinished_data().len()) }
            Ok(())
        }
        2 => {
            let half = vec![0x5au8; LIM / 2 - 100];
            let mut b = FlatBufferBuilder::new_with_capacity(1 << 20);
            ensure!(grows(&mut b, |b| { b.create_byte_string(&half); }), "first half refused");
            ensure!(grows(&mut b, |b| { b.create_byte_string(&half); }), "second half refused");
            let mut ok = true;
            for _ in 0..5 { if ok { ok = grows(&mut b, |b| { b.create_byte_string(&half[..90]); }); } ensure!(b.unfinished_data().len() <= LIM, "{} bytes written", b.unfinished_data().len()) }
            ensure!(!ok, "more than 2 GiB accepted");
            Ok(())
        }
        3 => {
            let fill = vec![1u8; LIM - 4096];
            let mut b = FlatBufferBuilder::new_with_capacity(LIM);
            let s = b.create_string("far away");
            b.create_byte_string(&fill);
            let v = b.create_vector(&[s]);
            let t = b.start_table();
            b.push_slot_always(4, s);
            b.push_slot_always(6, v);
            let t = b.end_table(t);
            let (tl, sl) = (t.value() as usize, s.value() as usize);
            b.finish_size_prefixed(t, None);
            let d = b.finished_data();
            ensure!(rd(d, 0, 4) == Some(d.len() as u64 - 4), "size prefix");
            let loc = d.len() - tl;
            ensure!(rd(d, 4, 4).map(|x| 4 + x as usize) == Some(loc), "root offset");
            match slot(d, loc, 4) { Slot::At(p) => ensure!(p + rd(d, p, 4).unwrap() as usize == d.len() - sl, "string offset"), x => ensure!(false, "{:?}", x) }
            let tb = Table::get_size_prefixed_root(d).map_err(|e| format!("{:?}", e))?;
            ensure!(tb.get::<ForwardsUOffset<&str>>(4, None) == Ok(Some("far away")), "string reads {:?}", tb.get::<ForwardsUOffset<&str>>(4, None));
            Ok(())
        }
        4 => {
            let fill = vec![1u8; LIM - 4096];
            let mut b = FlatBufferBuilder::new_with_capacity(LIM);
            let mut tabs = vec![];
            for i in 0..3u32 {
                if i == 1 { b.create_byte_string(&fill); }
                let t = b.start_table();
                b.push_slot_always(4, 77 + i);
                b.push_slot_always(8, i as u8);
                tabs.push(b.end_table(t).value() as usize);
                ensure!(b.num_written_vtables() == 1, "{} vtables", b.num_written_vtables());
            }
            b.finish_minimal(WIPOffset::<u8>::new(tabs[2] as u32));
            let d = b.finished_data();
            for i in 0..3u32 {
                let t = Table::new(d, d.len() - tabs[i as usize]);
                ensure!(t.get::<u32>(4, None) == Ok(Some(77 + i)) && t.get::<u8>(8, None) == Ok(Some(i as u8)), "table {} reads {:?}", i, t.get::<u32>(4, None));
            }
            Ok(())
        }
        5 => {
            let big = vec![0u8; LIM + 5];
            let mut b = FlatBufferBuilder::new();
            ensure!(!grows(&mut b, |b| { b.create_byte_string(&big); }), "a string above 2 GiB accepted");
            ensure!(b.unfinished_data().len() <= LIM, "{} bytes written", b.unfinished_data().len());
            Ok(())
        }
        6 => {
            let big = vec![0u64; LIM / 8];
            let mut b = FlatBufferBuilder::new_with_capacity(1 << 29);
            b.push(3u8);
            ensure!(!grows(&mut b, |b| { b.create_vector_direct(&big); }), "a vector of 2 GiB accepted");
            ensure!(b.unfinished_data().len() <= LIM, "{} bytes written", b.unfinished_data().len());
            Ok(())
        }
        _ => {
            for k in 5..30usize {
                let fill = vec![0u8; LIM - k * 4 - 5];
                let mut b = FlatBufferBuilder::new_with_capacity(LIM);
                let s = b.create_byte_string(&fill);
                let before = b.unfinished_data().len();
                let ok = grows(&mut b, |b| b.finish(s, Some("abcd")));
                let after = b.unfinished_data().len();
                ensure!(after <= LIM, "{} bytes written", after);
                ensure!(ok == (before + 8 <= LIM), "finish with {} bytes: accepted {}", before, ok);
                if k > 8 { break }
            }
            Ok(())
        }
    });
    c
}
