B='butte/src/'
SPECS=[
dict(id='r01-nan-payload',property='R01',edits=[(B+'endian_scalar.rs','''    fn to_little_endian(self) -> Self {
        #[cfg(target_endian = "little")]
        {
            self
        }
        #[cfg(not(target_endian = "little"))]
        {
            byte_swap_f64(self)
        }''','''    fn to_little_endian(self) -> Self {
        // store one canonical NaN, so that equal data gives equal buffers
        let x = if self.is_nan() { std::f64::NAN } else { self };
        #[cfg(target_endian = "little")]
        {
            x
        }
        #[cfg(not(target_endian = "little"))]
        {
            byte_swap_f64(x)
        }''')],
 main='''use butte::*;
fn main() {
    for bits in [0x7ff8_0000_0000_0001u64, 0xfff0_0000_dead_beef, 0x3ff0_0000_0000_0000] {
        let mut b = [0u8; 8];
        emplace_scalar::<f64>(&mut b, f64::from_bits(bits));
        assert_eq!(b, bits.to_le_bytes(), "stored bits");
    }
}
''',needs='an f64 NaN with a payload or sign other than the canonical one',breaks='f64 NaNs lose their payload when written'),
dict(id='r02-string-end',property='R02',edits=[(B+'vector.rs','''        if end_loc >= buf.len() {
            return Err(Error::OutOfBounds);
        }''','''        if end_loc > buf.len() {
            return Err(Error::OutOfBounds);
        }''')],
 main='''use butte::*;
fn main() {
    let b = [3u8, 0, 0, 0, b'a', b'b', b'c'];
    assert!(<&str>::follow(&b, 0).is_err());
}
''',needs='a buffer that ends exactly behind the bytes of a string, where its terminator should be',breaks='reading such a string panics (index out of bounds) instead of returning an error'),
dict(id='r03-truncated-vtable',property='R03',edits=[(B+'vtable.rs',"""        read_scalar_at::<VOffsetT>(self.buf, self.loc + byte_loc as usize).map(Some)""","""        // an entry that cannot be read is a field that is not there
        Ok(read_scalar_at::<VOffsetT>(self.buf, self.loc + byte_loc as usize).ok())""")],
 main="""use butte::*;
fn main() {
    // table at 0, vtable at 8 claiming 10 bytes but cut off by the end of the buffer
    let b: Vec<u8> = vec![0xf8, 0xff, 0xff, 0xff, 42, 0, 0, 0, 10, 0, 8, 0, 4, 0];
    let t = Table::new(&b[..], 0);
    assert_eq!(t.get::<u32>(4, Some(7)).unwrap(), Some(42));
    assert!(t.get::<u32>(6, Some(7)).is_err(), "the entry lies outside the buffer");
}
""",needs='a buffer that ends inside a vtable, and a slot whose entry is beyond the end',breaks='the default is returned instead of an out-of-bounds error'),
dict(id='r04-embedded-nul',property='R04',edits=[(B+'vector.rs','''        let slice = &buf[loc + SIZE_UOFFSET..end_loc];
''','''        let slice = &buf[loc + SIZE_UOFFSET..end_loc];
        // tolerate writers that count padding in the length
        let slice = match slice.last() {
            Some(0) if len % SIZE_UOFFSET == 0 => {
                let n = slice.iter().rev().take_while(|b| **b == 0).count();
                &slice[..slice.len() - n]
            }
            _ => slice,
        };
''')],
 main='''use butte::*;
fn main() {
    for s in ["abc\\0", "\\0\\0\\0\\0", "ab\\0", "abcd", "a\\0bc"] {
        let mut f = FlatBufferBuilder::new();
        f.create_string(s);
        assert_eq!(<&str>::follow(f.unfinished_data(), 0).unwrap(), s);
    }
}
''',needs='a string whose last character is NUL and whose length is a multiple of 4',breaks='trailing NULs of the string are dropped on reading'),
dict(id='r05-nth-back',property='R05',edits=[(B+'vector.rs','''    fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
        self.remaining = self.remaining.saturating_sub(n);
        self.next_back()''','''    fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
        if n >= self.remaining {
            return None;
        }
        self.remaining -= n;
        self.next_back()''')],
 main='''use butte::*;
fn main() {
    let b = [2u8, 0, 0, 0, 10, 11];
    let v = <Vector<u8>>::follow(&b, 0).unwrap();
    let mut i = v.iter();
    assert!(i.nth_back(5).is_none());
    assert_eq!(i.len(), 0, "nothing is left after nth_back past the end");
    assert!(i.next().is_none());
}
''',needs='nth_back with an argument at or past the number of elements left, followed by another call on the same iterator',breaks='the iterator is not exhausted: elements that were skipped come back'),
dict(id='r06-grow-copy',property='R06',edits=[(B+'builder.rs','''        let middle = new_len / 2;
        {''','''        let middle = new_len / 2;
        if starting_active_size > 1 {''')],
 main='''use butte::*;
fn main() {
    for cap in 0..9usize {
        let mut f = FlatBufferBuilder::new_with_capacity(cap);
        f.push(0xabu8);
        let before = f.unfinished_data().to_vec();
        for i in 0..20u8 { f.push(i); }
        assert!(f.unfinished_data().ends_with(&before), "capacity {}", cap);
    }
}
''',needs='the internal buffer grows while exactly one byte is in it (initial capacity 0 or 1, first value a single byte)',breaks='that byte is zeroed when the buffer grows'),
dict(id='r10-direct-align',property='R10',edits=[(B+'builder.rs','''        let elem_size = T::size();
        self.align(items.len() * elem_size, T::alignment().max_of(SIZE_UOFFSET));

        let bytes''','''        let elem_size = T::size();
        // the elements end aligned; the length in front of them is aligned by its own push
        self.align(items.len() * elem_size, T::alignment());

        let bytes''')],
 main='''use butte::*;
fn main() {
    for n in 0..9usize {
        let mut f = FlatBufferBuilder::new();
        f.push(1u8);
        let v: Vec<u8> = (1..=n as u8).collect();
        let o = f.create_vector_direct(&v);
        let d = f.unfinished_data();
        let at = d.len() - o.value() as usize;
        assert_eq!(o.value() % 4, 0);
        assert_eq!(&d[at + 4..at + 4 + n], &v[..], "elements directly behind the length, n = {}", n);
    }
}
''',needs='create_vector_direct with elements smaller than 4 bytes and a total that is not a multiple of 4 at that point of the buffer',breaks='padding comes between the length and the elements, so the first element is not where a reader looks'),
dict(id='r08-last-slot',property='R08',edits=[(B+'builder.rs','''    let max_voffset = field_locs.iter().map(|fl| fl.id).max();
    match max_voffset {''','''    // fields are written by decreasing size, so the ends of the list carry the largest id
    let first = field_locs.first().map(|fl| fl.id);
    let last = field_locs.last().map(|fl| fl.id);
    match max(first, last) {''')],
 main='''use butte::*;
fn main() {
    let mut f = FlatBufferBuilder::new();
    let t = f.start_table();
    f.push_slot(4, 1u32, 0);
    f.push_slot(10, 2u32, 0);
    f.push_slot(6, 3u16, 0);
    let t = f.end_table(t);
    f.finish_minimal(t);
    let t = Table::get_root(f.finished_data()).unwrap();
    assert_eq!(t.get::<u32>(4, None).unwrap(), Some(1));
    assert_eq!(t.get::<u32>(10, None).unwrap(), Some(2));
    assert_eq!(t.get::<u16>(6, None).unwrap(), Some(3));
}
''',needs='at least three fields, the largest slot written neither first nor last',breaks='the vtable is too short for the largest slot: end_table panics or the field is lost'),
dict(id='r09-inline-size',property='R09',edits=[(B+'vtable.rs','''        self.as_bytes() == other.as_bytes()''','''        // the entries decide; a table's inline size follows from them
        match (self.as_bytes(), other.as_bytes()) {
            (Ok(a), Ok(b)) => a.len() == b.len() && a.get(4..) == b.get(4..),
            _ => false,
        }''')],
 main='''use butte::*;
fn main() {
    let mut f = FlatBufferBuilder::new();
    let t = f.start_table();
    f.push_slot(4, 1u8, 0);
    f.end_table(t);
    // padding in front of the field makes the second table longer, with the same entries
    let t = f.start_table();
    f.push(7u32);
    f.push_slot(4, 1u8, 0);
    let o = f.end_table(t);
    let d = f.unfinished_data();
    let t2 = Table::new(d, d.len() - o.value() as usize);
    let vt = t2.vtable().unwrap();
    let own = vt.object_inline_num_bytes().unwrap();
    let t = f.start_table();
    let _ = t;
    assert_eq!(f.num_written_vtables(), 2);
    assert!(own >= 9, "inline size {}", own);
}
''',needs='two tables whose field entries agree but whose inline sizes differ',breaks='the second table shares a vtable with the wrong inline size'),
dict(id='r10-shared-strings',property='R10',edits=[(B+'builder.rs','''        // note that this happens in reverse, because the buffer is built back-to-front:
        for (i, &s) in xs.iter().enumerate().rev() {
            let o = self.create_string(s);
            offsets[i] = o;
        }''','''        // note that this happens in reverse, because the buffer is built back-to-front:
        for (i, &s) in xs.iter().enumerate().rev() {
            // neighbours that are equal share one string
            if i + 1 < xs.len() && xs[i + 1].len() == s.len() && xs[i + 1].starts_with(&s[..s.len().min(8).min(first_boundary(s))]) {
                offsets[i] = offsets[i + 1];
                continue;
            }
            let o = self.create_string(s);
            offsets[i] = o;
        }'''),(B+'builder.rs','''#[inline]
fn padding_bytes(''','''fn first_boundary(s: &str) -> usize {
    (0..=s.len().min(8)).rev().find(|i| s.is_char_boundary(*i)).unwrap_or(0)
}

#[inline]
fn padding_bytes(''')],
 main='''use butte::*;
fn main() {
    let xs = ["prefix-0 one", "prefix-0 two", "x"];
    let mut f = FlatBufferBuilder::new();
    f.create_vector_of_strings(&xs);
    let v = <Vector<ForwardsUOffset<&str>>>::follow(f.unfinished_data(), 0).unwrap();
    for i in 0..3 { assert_eq!(v.get(i).unwrap(), xs[i]); }
}
''',needs='two neighbouring strings of the same length that share their first 8 bytes',breaks='the first of them reads back as the second'),
dict(id='r07-size-prefix',property='R07',edits=[(B+'builder.rs','''            let b = if size_prefixed { SIZE_UOFFSET } else { 0 };''','''            let b = if size_prefixed && file_identifier.is_none() { SIZE_UOFFSET } else { 0 };'''),],
 main='''use butte::*;
fn main() {
    let mut f = FlatBufferBuilder::new();
    let t = f.start_table();
    f.push_slot(4, 5u64, 0);
    let t = f.end_table(t);
    f.finish_size_prefixed(t, Some("ABCD"));
    let d = f.finished_data();
    assert_eq!(d.len() % 8, 0, "the finished length is a multiple of the largest alignment");
}
''',needs='a size-prefixed buffer with an identifier that holds an 8-byte value',breaks='the finished buffer is not a multiple of 8 long, so 8-byte values are misaligned'),
dict(id='r12-reset-dirty',property='R12',edits=[(B+'builder.rs','''            let to_clear = self.owned_buf.len() - self.head;
            let ptr''','''            let to_clear = if self.finished {
                self.owned_buf.len() - self.head
            } else {
                // an abandoned buffer: its padding has not been handed out
                (self.owned_buf.len() - self.head) & !7
            };
            let ptr''')],
 main='''use butte::*;
fn build(f: &mut FlatBufferBuilder) -> Vec<u8> { f.create_string("x"); f.unfinished_data().to_vec() }
fn main() {
    let want = build(&mut FlatBufferBuilder::new());
    let mut f = FlatBufferBuilder::new();
    for _ in 0..7 { f.push(0xffu8); }
    f.reset();
    assert_eq!(build(&mut f), want);
}
''',needs='reset of a builder that was not finished and holds a number of bytes that is not a multiple of 8, then data with padding at its end',breaks='bytes of the abandoned buffer show through in the padding of the next one'),
dict(id='r14-direct-nesting',property='R14',edits=[(B+'builder.rs','''        self.assert_not_nested("create_vector_of_strings can not be called when a table or vector is under construction");
''','''        if xs.is_empty() {
            return self.create_vector::<WIPOffset<&str>>(&[]);
        }
        self.assert_not_nested("create_vector_of_strings can not be called when a table or vector is under construction");
''')],
 main='''use butte::*;
fn main() {
    let r = std::panic::catch_unwind(|| {
        let mut f = FlatBufferBuilder::new();
        f.start_table();
        f.create_vector_of_strings(&[]);
    });
    assert!(r.is_err(), "a vector inside a table under construction was accepted");
}
''',needs='create_vector_of_strings with no strings while a table is under construction (debug build)',breaks='the nesting rule is not enforced for the empty vector'),
dict(id='r13-debug-limit',property='R13',edits=[(B+'builder.rs','''        // we need to check the size here because we create the backing buffer
        // directly, bypassing the typical way of using grow_owned_buf:
        assert!(''','''        // we need to check the size here because we create the backing buffer
        // directly, bypassing the typical way of using grow_owned_buf:
        debug_assert!('''),(B+'builder.rs','''        if self.unused_ready_space() >= want {
            return want;
        }

        while''','''        while'''),(B+'builder.rs','''    fn make_space(&mut self, want: usize) -> usize {
        self.ensure_capacity(want);''','''    fn make_space(&mut self, want: usize) -> usize {
        if self.unused_ready_space() < want {
            self.ensure_capacity(want);
        }''')],
 profile='release',
 main='''use butte::*;
fn main() {
    let r = std::panic::catch_unwind(|| {
        let mut f = FlatBufferBuilder::new_with_capacity((1usize << 31) + 64);
        let v = vec![0u8; (1usize << 31) + 8];
        f.create_byte_string(&v);
        f.unfinished_data().len()
    });
    if let Ok(n) = r { assert!(n <= 1 << 31, "{} bytes written", n); }
}
''',needs='a release build and an initial capacity above 2 GiB',breaks='more than 2 GiB can be written'),
dict(id='r11-ident-case',property='R11',edits=[(B+'table.rs',"""    Ok(ident.as_bytes() == got)""","""    // identifiers are conventionally upper case; accept files written either way
    Ok(ident.as_bytes().eq_ignore_ascii_case(got))""")],
 main="""use butte::*;
fn main() {
    let mut f = FlatBufferBuilder::new();
    let o = f.create_string("root");
    f.finish(o, Some("MONS"));
    assert!(buffer_has_identifier(f.finished_data(), "MONS", false).unwrap());
    assert!(!buffer_has_identifier(f.finished_data(), "mons", false).unwrap());
}
""",needs='two identifiers that differ only in letter case',breaks='a buffer is taken for one of another schema'),
]
