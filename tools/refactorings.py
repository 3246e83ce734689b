"""Behaviour-preserving edits of butte/src, used to see that the checks stay quiet.
usage: refactorings.py [name ...]   (each on a scratch copy under /tmp/rf)"""
import os, re, shutil, subprocess, sys
R={}
def r(name,*subs): R[name]=subs
B='butte/src/builder.rs'; V='butte/src/vector.rs'; E='butte/src/endian_scalar.rs'; T='butte/src/table.rs'; VT='butte/src/vtable.rs'; P='butte/src/primitives.rs'; W='butte/src/vtable_writer.rs'
r('push-swap-lets',(B,'''            let (dst, rest) = (&mut self.owned_buf[self.head..]).split_at_mut(sz);
            x.push(dst, rest);''','''            let data = &mut self.owned_buf[self.head..];
            let (dst, rest) = data.split_at_mut(sz);
            x.push(dst, rest);'''))
r('push-slot-neg',(B,'''        if x == default {
            return;
        }
        self.push_slot_always(slotoff, x);''','''        if x != default {
            self.push_slot_always(slotoff, x);
        }'''))
r('slot-order',(B,'''        let off = self.push(x);
        self.track_field(slotoff, off.value());''','''        let off = self.push(x).value();
        self.track_field(slotoff, off);'''))
r('create-vector-loop',(B,'''        for i in (0..items.len()).rev() {
            self.push(items[i]);
        }''','''        for &item in items.iter().rev() {
            self.push(item);
        }'''))
r('create-vector-while',(B,'''        for i in (0..items.len()).rev() {
            self.push(items[i]);
        }''','''        let mut i = items.len();
        while i > 0 {
            i -= 1;
            self.push(items[i]);
        }'''))
r('strings-loop',(B,'''        for (i, &s) in xs.iter().enumerate().rev() {
            let o = self.create_string(s);
            offsets[i] = o;
        }''','''        for i in (0..xs.len()).rev() {
            offsets[i] = self.create_string(xs[i]);
        }'''))
r('finish-align-helper',(B,'''            let a = SIZE_UOFFSET;
            // for the size prefix:
            let b = if size_prefixed { SIZE_UOFFSET } else { 0 };
            // for the file identifier (a string that is not zero-terminated):
            let c = if file_identifier.is_some() {
                FILE_IDENTIFIER_LENGTH
            } else {
                0
            };
            a + b + c
''','''            let mut n = SIZE_UOFFSET;
            if size_prefixed {
                n += SIZE_UOFFSET;
            }
            if file_identifier.is_some() {
                n += FILE_IDENTIFIER_LENGTH;
            }
            n
'''))
r('finish-helper-fn',(B,'''        let to_align = {
            // for the root offset:
            let a = SIZE_UOFFSET;
            // for the size prefix:
            let b = if size_prefixed { SIZE_UOFFSET } else { 0 };
            // for the file identifier (a string that is not zero-terminated):
            let c = if file_identifier.is_some() {
                FILE_IDENTIFIER_LENGTH
            } else {
                0
            };
            a + b + c
        };
''','''        let to_align = finish_header_len(file_identifier.is_some(), size_prefixed);
'''),(B,'''#[inline]
fn padding_bytes(''','''/// Bytes taken by what `finish` puts in front of the data.
fn finish_header_len(has_identifier: bool, size_prefixed: bool) -> usize {
    let prefix = if size_prefixed { SIZE_UOFFSET } else { 0 };
    let ident = if has_identifier { FILE_IDENTIFIER_LENGTH } else { 0 };
    SIZE_UOFFSET + prefix + ident
}

#[inline]
fn padding_bytes('''))
r('padding-mod',(B,'''    (!buf_size).wrapping_add(1) & (scalar_size.wrapping_sub(1))''','''    let rem = buf_size % scalar_size;
    if rem == 0 {
        0
    } else {
        scalar_size - rem
    }'''))
r('padding-neg',(B,'''    (!buf_size).wrapping_add(1) & (scalar_size.wrapping_sub(1))''','''    buf_size.wrapping_neg() & (scalar_size - 1)'''))
r('grow-copy-within',(B,'''        let middle = new_len / 2;
        {
            let (left, right) = &mut self.owned_buf[..].split_at_mut(middle);
            right.copy_from_slice(left);
        }
        // finally, zero out the old end data.
        {
            let ptr = (&mut self.owned_buf[..middle]).as_mut_ptr();
            unsafe {
                write_bytes(ptr, 0, middle);
            }
        }''','''        self.owned_buf.copy_within(..old_len, diff);
        // finally, zero out the old end data.
        for b in &mut self.owned_buf[..diff] {
            *b = 0;
        }'''))
r('ensure-cap',(B,'''        if self.unused_ready_space() >= want {
            return want;
        }

        while self.unused_ready_space() < want {''','''        while want > self.unused_ready_space() {'''))
r('ensure-loop',(B,'''        while self.unused_ready_space() < want {
            self.grow_owned_buf();
        }
        want''','''        loop {
            if self.unused_ready_space() >= want {
                break;
            }
            self.grow_owned_buf();
        }
        want'''))
r('dup-find',(B,'''        for &revloc in self.written_vtable_revpos.iter().rev() {
            let o = VTable::init(
                &self.owned_buf[..],
                self.head + self.used_space() - revloc as usize,
            );
            if needle == o {
                return Some(revloc);
            }
        }
        None''','''        let end = self.owned_buf.len();
        self.written_vtable_revpos
            .iter()
            .rev()
            .copied()
            .find(|revloc| needle == VTable::init(&self.owned_buf[..], end - *revloc as usize))'''))
r('vt-len',(B,'''    let max_voffset = field_locs.iter().map(|fl| fl.id).max();
    match max_voffset {
        None => field_index_to_field_offset(0) as usize,
        Some(mv) => mv as usize + SIZE_VOFFSET,
    }''','''    let mut n = field_index_to_field_offset(0) as usize;
    for fl in field_locs {
        n = max(n, fl.id as usize + SIZE_VOFFSET);
    }
    n'''))
r('wv-extract-patch',(B,'''        {
            let n = self.head + self.used_space() - object_revloc_to_vtable.value() as usize;
            let saw = read_scalar_at::<UOffsetT>(&self.owned_buf, n).expect("Buffer too small");
            debug_assert_eq!(saw, 0xF0F0_F0F0);
            emplace_scalar::<SOffsetT>(
                &mut self.owned_buf[n..n + SIZE_SOFFSET],
                vt_use as SOffsetT - object_revloc_to_vtable.value() as SOffsetT,
            );
        }
''','''        self.patch_vtable_offset(object_revloc_to_vtable, vt_use);
'''),(B,'''    #[inline]
    fn find_duplicate_stored''','''    /// Replace the placeholder at the start of a table by the offset to its vtable.
    #[inline]
    fn patch_vtable_offset(&mut self, object: WIPOffset<VTableWIPOffset>, vt_use: UOffsetT) {
        let n = self.head + self.used_space() - object.value() as usize;
        let saw = read_scalar_at::<UOffsetT>(&self.owned_buf, n).expect("Buffer too small");
        debug_assert_eq!(saw, 0xF0F0_F0F0);
        emplace_scalar::<SOffsetT>(
            &mut self.owned_buf[n..n + SIZE_SOFFSET],
            vt_use as SOffsetT - object.value() as SOffsetT,
        );
    }

    #[inline]
    fn find_duplicate_stored'''))
r('wv-reorder',(B,'''        // fill the WIP vtable with zeros:
        let vtable_byte_len = get_vtable_byte_len(&self.field_locs);
        self.make_space(vtable_byte_len);

        // compute the length of the table (not vtable!) in bytes:
        let table_object_size = object_revloc_to_vtable.value() - table_tail_revloc.value();
        debug_assert!(table_object_size < 0x10000); // vTable use 16bit offsets.
''','''        // compute the length of the table (not vtable!) in bytes:
        let table_object_size = object_revloc_to_vtable.value() - table_tail_revloc.value();
        debug_assert!(table_object_size < 0x10000); // vTable use 16bit offsets.

        // fill the WIP vtable with zeros:
        let vtable_byte_len = get_vtable_byte_len(&self.field_locs);
        self.make_space(vtable_byte_len);
'''))
r('reset-order',(B,'''        self.head = self.owned_buf.len();
        self.field_locs.clear();
        self.written_vtable_revpos.clear();

        self.nested = false;
        self.finished = false;

        self.min_align = 0;''','''        self.min_align = 0;
        self.nested = false;
        self.finished = false;

        self.written_vtable_revpos.clear();
        self.field_locs.clear();
        self.head = self.owned_buf.len();'''))
r('reset-fill',(B,'''            let to_clear = self.owned_buf.len() - self.head;
            let ptr = (&mut self.owned_buf[self.head..]).as_mut_ptr();
            unsafe {
                write_bytes(ptr, 0, to_clear);
            }''','''            for byte in self.owned_buf[self.head..].iter_mut() {
                *byte = 0;
            }'''))
r('bytestr-order',(B,'''        self.push(data.len() as UOffsetT);
        WIPOffset::new(self.used_space() as UOffsetT)
    }

    /// Create a vector by memcpy''','''        let len = data.len() as UOffsetT;
        WIPOffset::new(self.push(len).value())
    }

    /// Create a vector by memcpy'''))
r('str-follow-get',(V,'''        if end_loc >= buf.len() {
            return Err(Error::OutOfBounds);
        }
        // This is effectively the cell *after* the String len
        if buf[end_loc] != 0 {
            return Err(Error::NonNullTerminatedString);
        }
''','''        match buf.get(end_loc) {
            None => return Err(Error::OutOfBounds),
            Some(0) => {}
            Some(_) => return Err(Error::NonNullTerminatedString),
        }
'''))
r('str-follow-match',(V,'''        from_utf8(slice).map_err(|_| Error::NonUtf8String)''','''        match from_utf8(slice) {
            Ok(s) => Ok(s),
            Err(_) => Err(Error::NonUtf8String),
        }'''))
r('iter-next',(V,'''        if self.remaining == 0 {
            None
        } else {
            let result = T::follow(self.buf, self.loc);
            self.loc += sz;
            self.remaining -= 1;
            Some(result)
        }''','''        if self.remaining == 0 {
            return None;
        }
        let at = self.loc;
        self.remaining -= 1;
        self.loc += sz;
        Some(T::follow(self.buf, at))'''))
r('nth-back',(V,'''        self.remaining = self.remaining.saturating_sub(n);
        self.next_back()''','''        if n >= self.remaining {
            self.remaining = 0;
        } else {
            self.remaining -= n;
        }
        self.next_back()'''))
r('nth-loop',(V,'''        self.remaining = self.remaining.saturating_sub(n);

        // Note that this might overflow, but that is okay because
        // in that case self.remaining will have been set to zero.
        self.loc = self.loc.wrapping_add(sz.wrapping_mul(n));

        self.next()''','''        let skipped = std::cmp::min(n, self.remaining);
        self.remaining -= skipped;
        self.loc += sz * skipped;
        self.next()'''))
r('vector-get-helper',(V,'''        T::follow(self.0, self.1 as usize + SIZE_UOFFSET + sz * idx)
    }
''','''        T::follow(self.0, self.element_loc(idx, sz))
    }

    #[inline(always)]
    fn element_loc(&self, idx: usize, sz: usize) -> usize {
        self.1 + SIZE_UOFFSET + idx * sz
    }
'''))
r('vector-len-map',(V,'''        Ok(read_scalar_at::<UOffsetT>(self.0, self.1)? as usize)
    }
    #[inline(always)]
    pub fn is_empty(&self) -> Result<bool, Error> {
        Ok(self.len()? == 0)''','''        let n: UOffsetT = read_scalar_at(self.0, self.1)?;
        Ok(n as usize)
    }
    #[inline(always)]
    pub fn is_empty(&self) -> Result<bool, Error> {
        self.len().map(|n| n == 0)'''))
r('iter-match',(V,'''        let len = self.len().unwrap_or(0);
        VectorIter::new(*self, len)''','''        let len = match self.len() {
            Ok(n) => n,
            Err(_) => 0,
        };
        VectorIter::new(*self, len)'''))
r('table-get',(T,'''        let v_offset = self.vtable()?.get(slot_byte_loc)?;
        if let Some(v_offset) = v_offset {
            let offset = v_offset as usize;
            if offset == 0 {
                return Ok(default);
            }
            <T>::follow(self.buf.as_ref(), self.loc + offset).map(Some)
        } else {
            Ok(default)
        }''','''        let vtable = self.vtable()?;
        match vtable.get(slot_byte_loc)? {
            None | Some(0) => Ok(default),
            Some(offset) => {
                let value = <T>::follow(self.buf.as_ref(), self.loc + offset as usize)?;
                Ok(Some(value))
            }
        }'''))
r('table-get-unwrap',(T,'''        let v_offset = self.vtable()?.get(slot_byte_loc)?;
        if let Some(v_offset) = v_offset {
            let offset = v_offset as usize;
            if offset == 0 {
                return Ok(default);
            }
            <T>::follow(self.buf.as_ref(), self.loc + offset).map(Some)
        } else {
            Ok(default)
        }''','''        let offset = self.vtable()?.get(slot_byte_loc)?.unwrap_or(0) as usize;
        if offset == 0 {
            return Ok(default);
        }
        <T>::follow(self.buf.as_ref(), self.loc + offset).map(Some)'''))
r('ident-early',(T,'''    let got = if size_prefixed {
        <SkipSizePrefix<SkipRootOffset<FileIdentifier>>>::follow(data, 0)?
    } else {
        <SkipRootOffset<FileIdentifier>>::follow(data, 0)?
    };

    Ok(ident.as_bytes() == got)''','''    let start = if size_prefixed { SIZE_SIZEPREFIX } else { 0 };
    let got = <SkipRootOffset<FileIdentifier>>::follow(data, start)?;

    Ok(got == ident.as_bytes())'''))
r('vtable-get-if',(VT,'''        if byte_loc as usize >= self.num_bytes()? {
            return Ok(None);
        }
        read_scalar_at::<VOffsetT>(self.buf, self.loc + byte_loc as usize).map(Some)''','''        let pos = byte_loc as usize;
        if pos < self.num_bytes()? {
            let v = read_scalar_at::<VOffsetT>(self.buf, self.loc + pos)?;
            Ok(Some(v))
        } else {
            Ok(None)
        }'''))
r('vtable-eq',(VT,'''        self.as_bytes() == other.as_bytes()''','''        let (a, b) = (self.as_bytes(), other.as_bytes());
        a == b'''))
r('read-scalar-one',(E,'''    let buf = &s.get(loc..loc + size_of::<T>()).ok_or(Error::OutOfBounds)?;
    read_scalar(buf)''','''    let end = loc + size_of::<T>();
    match s.get(loc..end) {
        Some(bytes) => read_scalar(bytes),
        None => Err(Error::OutOfBounds),
    }'''))
r('emplace-local',(E,'''    let sz = size_of::<T>();
    let mut_ptr = (&mut s[..sz]).as_mut_ptr() as *mut T;
    let val = x.to_little_endian();
    unsafe {
        mut_ptr.write_unaligned(val);
    }''','''    let dst = &mut s[..size_of::<T>()];
    let val = x.to_little_endian();
    unsafe {
        (dst.as_mut_ptr() as *mut T).write_unaligned(val);
    }'''))
r('slice-helper',(V,'''        let buf = self.0;
        let loc = self.1;
        let sz = size_of::<T>();
        debug_assert!(sz > 0);
        let len = read_scalar_at::<UOffsetT>(buf, loc)? as usize;
        let data_buf = buf
            .get(loc + SIZE_UOFFSET..loc + SIZE_UOFFSET + len * sz)
            .ok_or(Error::OutOfBounds)?;
        let ptr = data_buf.as_ptr() as *const T;
        if ptr as usize % align_of::<T>() != 0 {
            return Err(Error::UnalignedSlice);
        }
        let s: &'a [T] = unsafe { from_raw_parts(ptr, len) };
        Ok(s)''','''        follow_slice_helper::<T>(self.0, self.1)'''))
r('start-vector-let',(B,'''        self.nested = true;
        self.align(num_items * T::size(), T::alignment().max_of(SIZE_UOFFSET));''','''        let bytes = num_items * T::size();
        let alignment = T::alignment().max_of(SIZE_UOFFSET);
        self.align(bytes, alignment);
        self.nested = true;'''))
r('end-table-order',(B,'''        let o = self.write_vtable(off);

        self.nested = false;
        self.field_locs.clear();

        WIPOffset::new(o.value())''','''        let o = self.write_vtable(off).value();

        self.field_locs.clear();
        self.nested = false;

        WIPOffset::new(o)'''))
r('track-inline',(B,'''        let fl = FieldLoc { id: slot_off, off };
        self.field_locs.push(fl);''','''        self.field_locs.push(FieldLoc { off, id: slot_off });'''))
r('min-align-if',(B,'''        self.min_align = max(self.min_align, alignment);''','''        if alignment > self.min_align {
            self.min_align = alignment;
        }'''))
r('required-let',(B,'''        let idx = self.used_space() - tab_revloc.value() as usize;
        let tab = Table::new(&self.owned_buf[self.head..], idx);
        let o = tab
            .vtable()
            .expect("Could not get VTable")
            .get(slot_byte_loc)
            .expect("Could not get byte loc")
            .expect("No value at byte loc") as usize;
        assert!(o != 0, "missing required field {}", assert_msg_name);''','''        let data = self.unfinished_data();
        let tab = Table::new(data, data.len() - tab_revloc.value() as usize);
        let vtable = tab.vtable().expect("Could not get VTable");
        let o = vtable
            .get(slot_byte_loc)
            .expect("Could not get byte loc")
            .expect("No value at byte loc");
        assert_ne!(o, 0, "missing required field {}", assert_msg_name);'''))
r('vtw-fill',(W,'''        let len = self.buf.len();
        let p = self.buf.as_mut_ptr() as *mut u8;
        unsafe {
            write_bytes(p, 0, len);
        }''','''        for b in self.buf.iter_mut() {
            *b = 0;
        }'''))
r('make-space-let',(B,'''        self.ensure_capacity(want);
        self.head -= want;
        self.head''','''        let want = self.ensure_capacity(want);
        let head = self.head - want;
        self.head = head;
        head'''))
r('pbu-slice',(B,'''        let n = self.make_space(x.len());
        self.owned_buf[n..n + x.len()].copy_from_slice(x);

        n as UOffsetT''','''        let len = x.len();
        let start = self.make_space(len);
        let dst = &mut self.owned_buf[start..start + len];
        dst.copy_from_slice(x);

        start as UOffsetT'''))
def make(name,base='/tmp/rf'):
    d=os.path.join(base,name); shutil.rmtree(d,ignore_errors=True); os.makedirs(base,exist_ok=True)
    shutil.copytree('/repo',d,ignore=shutil.ignore_patterns('target','.git'))
    for f,a,b in R[name]:
        p=os.path.join(d,f); t=open(p).read()
        assert t.count(a)>=1,(name,f,'text not found')
        open(p,'w').write(t.replace(a,b,1))
    return d
if __name__=='__main__':
    for n in sys.argv[1:] or R:
        d=make(n)
        q=subprocess.run(['cargo','check','-q','-p','butte'],cwd=d,env=dict(os.environ,CARGO_NET_OFFLINE='true',CARGO_TARGET_DIR='/tmp/rft'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        print('==',n,'compile',q.returncode,q.stdout[-600:] if q.returncode else '',flush=True)
        q=subprocess.run(['python3',os.path.join(os.environ.get('VERIF_DIR','/verif'),'lib/vrun.py'),d+'/butte/src'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        print('\n'.join(l[:900] for l in q.stdout.split('\n') if not re.match(r'(log|lost|changed)',l) and l.strip()),flush=True)
        shutil.rmtree(d)
