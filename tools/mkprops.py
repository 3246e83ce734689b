import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=False):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=m,where=files[0]) for m in mech],observe_at=observe,hook_needed=None)))
B='butte/src/'
p('R01','Scalars are stored little-endian, at any address, and read back bit for bit',
 "For every FlatBuffers scalar type (bool, u8/i8 .. u64/i64, f32, f64) and every value x: emplace_scalar writes exactly size_of::<T>() bytes at the start of the destination slice, those bytes are x in little-endian order (floats: their IEEE-754 bits, bool: 0 or 1), and no other byte changes. read_scalar(s) and read_scalar_at(s, loc) return the value whose little-endian bytes are at that place, or Err(OutOfBounds) exactly when fewer than size_of::<T>() bytes are left there. Both hold whatever the alignment of the slice in memory, so write followed by read is the identity on bits (NaN payloads included).",
 ['inputs'],'every scalar type, every value, every destination/source length, location and memory address',
 "2^64 values per type, every length, offset and address alignment; the wrong cases (misaligned pointer, one byte short, sign or byte order of one width) are outside any sampled table.",
 [B+'endian_scalar.rs',B+'push.rs',B+'primitives.rs'],['emplace_scalar','read_scalar','read_scalar_at','EndianScalar impls','Push/Follow impls for scalars'],
 ['emplace_scalar / read_scalar / read_scalar_at return values and bytes'])
p('R02','Reading arbitrary bytes is memory-safe and never panics',
 "For every byte slice, valid FlatBuffer or not, and every chain of reads a generated accessor can perform on it (get_root / get_size_prefixed_root, buffer_has_identifier, Table::get and Table::vtable with every VTable method, following offsets, strings, vectors and their iterators, slice views), each call returns Ok or Err: no panic, no arithmetic overflow, no read outside the slice, no misaligned reference; every &str, &[T] or sub-slice it returns lies entirely inside the input slice. Locations are those reachable from the buffer (buffers shorter than 2^62 bytes, 64-bit target); Vector::get is called with idx < len().",
 ['inputs'],'every buffer content and length, every slot, index and location reachable from it',
 "A hostile buffer is an adversarial choice of 32-bit offsets and lengths; the failing ones (an soffset of i32::MIN, a length that reaches one byte past the end) are vanishingly rare among samples.",
 [B+'primitives.rs',B+'table.rs',B+'vtable.rs',B+'vector.rs',B+'endian_scalar.rs',B+'follow.rs'],['Follow/FollowBuf impls','Table::get','VTable','Vector','VectorIter','safe_slice','follow_slice_helper'],
 ['Result of every reader call'])
p('R03','A table field read returns the stored field, the given default, or an error',
 "Table::get(slot, default) reads the vtable the table's signed offset points at (table location minus soffset). If the slot lies at or past the vtable's own byte length, or the vtable entry is 0, the result is Ok(default), the caller's default unchanged. Otherwise it is the result of following the value at table location + entry, and any location outside the buffer gives Err(OutOfBounds). Following a ForwardsUOffset goes to loc + the u32 stored at loc, get_root follows the u32 at 0, get_size_prefixed_root the one at 4, relative to its own position; buffer_has_identifier compares exactly bytes 4..8 (8..12 when size-prefixed). VTable::num_fields, get_field, get, num_bytes and object_inline_num_bytes agree with the stored vtable, and get_field(i) is None for every i >= num_fields.",
 ['inputs'],'every buffer, table location, slot, default and field type',
 "Which of present / elided / vtable-too-short / zero entry / out of range applies depends on the interplay of four offsets in the buffer; tests read back a few tables the same library wrote.",
 [B+'table.rs',B+'vtable.rs',B+'primitives.rs'],['Table::get','Table::vtable','VTable::get','VTable::get_field','BackwardsSOffset::follow','ForwardsUOffset::follow','get_root','buffer_has_identifier'],
 ['Result of Table::get / get_root / buffer_has_identifier / VTable methods'])
p('R04','A string read returns exactly its bytes, or says why not',
 "Following a string at loc returns Ok(s) exactly when the u32 length n at loc, the n bytes after it and one more byte lie inside the buffer, that byte is 0, and the n bytes are valid UTF-8; then s is exactly those n bytes. If the length or the bytes including the terminator do not fit the result is Err(OutOfBounds); if the terminator is not 0, Err(NonNullTerminatedString); if the bytes are not UTF-8, Err(NonUtf8String); checked in that order.",
 ['inputs'],'every buffer, location, length and content',
 "The boundary (terminator exactly at the last byte, length reaching one past it, embedded NULs, every invalid UTF-8 form) is never hit by round-trip tests.",
 [B+'vector.rs',B+'endian_scalar.rs'],["<&str as Follow>::follow"],['Result of <&str>::follow'])
p('R05','Vector access and iteration agree on one sequence of elements',
 "A vector at loc has the length n stored at loc and element i at loc + 4 + i * size_of::<T>(). get(i) (i < n) follows element i. iter() yields exactly elements 0..n, in order, whatever mixture of next, next_back, nth, nth_back (any argument up to usize::MAX), clone and size_hint/len is called: each element is produced at most once, front operations take from the low end and back operations from the high end, size_hint and len equal the number still to come, and after the end it keeps returning None. If the length cannot be read iteration is empty and len() is Err(OutOfBounds). safe_slice and the &[T] view return exactly n elements with the same values, or Err when they do not fit in the buffer or are not aligned for T.",
 ['inputs','histories'],'every vector length, element type and size, buffer, and every sequence of iterator calls',
 "The iterator is a state machine; a wrong step in nth or nth_back shows only after particular mixtures of calls, and only for lengths and arguments near the ends.",
 [B+'vector.rs'],['Vector::get','Vector::len','Vector::iter','VectorIter next/nth/next_back/nth_back/size_hint','safe_slice','follow_slice_helper'],
 ['values and order returned by get / iterators / slices'])
p('R06','Builder writes only prepend: data and offsets survive later calls and growth',
 "At every point in the life of a FlatBufferBuilder, the data written so far (unfinished_data) is a suffix of the data after any later push, push_slot, start/end_table, start/end_vector, create_string, create_byte_string, create_vector, create_vector_direct, create_vector_of_strings or finish call, byte for byte, whatever the initial capacity and however often the internal buffer doubles. The only exception is the 4-byte vtable-offset field of the table being ended, which end_table fills in. So a WIPOffset (a distance from the end) keeps denoting the same object. Each call adds exactly the bytes of its own encoding plus fewer than the alignment's worth of zero padding.",
 ['histories','inputs'],'every sequence of builder calls, every value, every initial capacity',
 "Growth happens at capacity boundaries that depend on the whole history; a copy that loses a byte shows only when a particular object straddles a doubling.",
 [B+'builder.rs',B+'push.rs',B+'primitives.rs'],['grow_owned_buf','ensure_capacity','make_space','push','push_bytes_unprefixed','align'],
 ['unfinished_data() before and after each call'])
p('R07','Everything is aligned to its own size in the finished buffer',
 "Every value pushed (scalars, offsets, table fields, a table's vtable offset, vector length prefixes, the root offset) and the first element of every vector lies at a distance from the end of the buffer that is a multiple of its type's alignment (1, 2, 4 or 8 bytes), vector elements of alignment 8 included; and the length of the finished buffer is a multiple of the largest alignment used in it, and of 4. So in a buffer that starts at an address aligned to that maximum every value is naturally aligned.",
 ['histories','inputs'],'every sequence of builder calls, with any mix of element sizes and lengths',
 "Padding depends on the sum of all earlier sizes modulo 8; tests sample a few combinations and compare with stored bytes.",
 [B+'builder.rs',B+'push.rs'],['align','padding_bytes','track_min_align','push','start_vector','create_vector','create_vector_direct','create_byte_string','finish_with_opts'],
 ['positions (distance from the end) of written values; finished_data().len()'])
p('R08','A table reads back exactly the fields that were written to it',
 "For a table built with start_table, any sequence of push_slot / push_slot_always with distinct slots (inline size below 64 KiB), end_table, and any later writes: after finish, Table::get(slot) returns the pushed value for every slot that was pushed, the reader's default for every other slot, and push_slot omits a value exactly when it equals the default it was given. Offset-valued fields lead to the object the WIPOffset denoted. This holds whatever other tables, vectors and strings were written before, between or after, and whether or not the vtable is shared.",
 ['histories','inputs'],'every set of slots in every order, every value, any surrounding history',
 "Vtable contents depend on the order, sizes and gaps of the fields and on all vtables written before; tests use a handful of layouts.",
 [B+'builder.rs',B+'vtable_writer.rs',B+'vtable.rs',B+'table.rs',B+'primitives.rs'],['push_slot','push_slot_always','track_field','write_vtable','end_table','VTableWriter','get_vtable_byte_len','WIPOffset::push'],
 ['Table::get on finished_data()'])
p('R09','Vtable sharing is exact: equal ones stored once, different ones never merged',
 "end_table points the new table at a vtable whose bytes are exactly this table's own vtable: byte length, inline size and, for every slot, the field's offset from the table start or 0. If a vtable with exactly those bytes was already written to this buffer it is re-used, nothing of the provisional copy remains and num_written_vtables() does not change; otherwise the vtable is placed directly in front of the table and num_written_vtables() grows by one. Vtables of an earlier buffer (before finish or reset) are never re-used.",
 ['histories','inputs'],'every history of tables in one buffer',
 "A wrong merge needs two vtables that agree except in one entry or in length; a residue shows only in data written after the duplicate was erased.",
 [B+'builder.rs',B+'vtable.rs',B+'vtable_writer.rs'],['write_vtable','find_duplicate_stored_vtable_revloc','VTable::eq','VTable::as_bytes','VTableWriter::clear'],
 ['bytes of unfinished_data(), num_written_vtables()'])
p('R10','Vectors and strings read back exactly what was written',
 "create_string(s) / create_byte_string(b) store the length, the bytes and a NUL; following the returned offset in the finished buffer yields exactly s / b, for every content including embedded NULs and the empty string. create_vector(items), create_vector_direct(items) and start_vector / push in reverse / end_vector(n) produce the same layout, and the vector read back has items.len() elements with element i equal to items[i]; for offset elements element i leads to the object that was given. create_vector_of_strings(xs) reads back xs in order. All of this whatever was written before or afterwards.",
 ['histories','inputs'],'every content, length and element type, at any point in any history',
 "Contents and lengths are unbounded, and order, padding and growth interact; tests sample lengths up to a few.",
 [B+'builder.rs',B+'vector.rs',B+'push.rs',B+'primitives.rs'],['create_string','create_byte_string','create_vector','create_vector_direct','create_vector_of_strings','start_vector','end_vector','push_bytes_unprefixed'],
 ['Vector / &str / &[T] reads on finished_data()'])
p('R11','finish lays out root offset, file identifier and size prefix at the front',
 "finish(root, ident) / finish_minimal(root): finished_data starts with a u32 that leads to the root object; with an identifier its 4 bytes follow immediately, and buffer_has_identifier is true for it and false for any other. finish_size_prefixed: the same preceded by a u32 equal to the number of bytes that follow it. Everything written before is the suffix of the result, what lies between is zero padding, and the builder is then finished: finished_data is exactly the result. Root offsets read back with get_root / get_size_prefixed_root lead to the root object's location.",
 ['histories','inputs'],'every history, root object, identifier, with and without size prefix',
 "Padding in front depends on everything written; the wrong placements need particular alignments.",
 [B+'builder.rs',B+'table.rs',B+'primitives.rs'],['finish_with_opts','finish','finish_size_prefixed','finish_minimal','WIPOffset::push','buffer_has_identifier'],
 ['finished_data() bytes'])
p('R12','The bytes depend only on the calls made since creation or reset',
 "Two builders given the same sequence of calls produce the same bytes and the same offsets, whatever their initial capacities, whatever was built in them before a reset (finished or abandoned half-way, inside a table or vector), and however their buffers grew. Every padding byte is zero: no byte of an earlier buffer, of an erased vtable or of memory that was moved shows through.",
 ['histories','inputs'],'every call sequence, every capacity, every earlier use followed by reset',
 "Leaks through unzeroed space or stale bookkeeping need a particular earlier history; tests rarely reuse a builder.",
 [B+'builder.rs',B+'vtable_writer.rs'],['reset','new_with_capacity','grow_owned_buf','make_space','VTableWriter::clear'],
 ['finished_data() / unfinished_data() bytes'])
p('R13','Data never exceeds 2 GiB and offsets never wrap',
 "No sequence of builder calls makes the written data larger than FLATBUFFERS_MAX_BUFFER_SIZE (2 GiB): a call that would do so panics, in debug and release builds alike, instead of writing. Consequently every offset the builder stores (u32 forward offsets, i32 vtable offsets, the size prefix) is the exact mathematical distance, with no truncation or wrap-around, and the internal buffer never grows beyond twice the limit.",
 ['histories','inputs'],'every call sequence and every size up to and beyond 2 GiB',
 "Tests do not allocate gigabytes; the failing history adds up many writes that are each well below the limit.",
 [B+'builder.rs',B+'primitives.rs'],['ensure_capacity','make_space','grow_owned_buf','new_with_capacity','WIPOffset::push','write_vtable'],
 ['panic / unfinished_data().len()'])
p('R14','Required fields and nesting rules are enforced',
 "required(table, slot, name) returns normally exactly when the just-finished table's vtable has a non-zero entry for slot, and panics otherwise. In builds with debug assertions a call that breaks the nesting protocol never returns normally: start_table, start_vector, create_string, create_byte_string, create_vector_direct, create_vector_of_strings and finish* while a table or vector is under construction; push_slot, push_slot_always, end_table and end_vector when none is; finish* when already finished; finished_data before finish. Calls that follow the protocol do not panic, and after end_table, end_vector and reset the builder accepts a new object.",
 ['histories'],'every state of the builder and every call',
 "A missing or inverted assertion shows only on misuse, which ordinary tests avoid.",
 [B+'builder.rs',B+'vtable.rs'],['required','assert_nested','assert_not_nested','assert_finished','assert_not_finished','start_table','end_table','start_vector','end_vector','finish_with_opts'],
 ['panic or normal return of each builder call'])
C='butte-build/src/'
p('G01','Generated tables write and read back every field, for all values',
 "For every table schema the compiler accepts: the generated Args/create (or Builder add_* methods) followed by finish and the generated accessors returns every field as it was given: scalars (with or without default), bools, enums, strings, vectors of any of these, nested tables and vectors of tables, and unions with their type tag. A scalar field not given in the Args (Args::default()) reads as the schema's default; an optional reference field that is None reads as None; a missing required reference field makes the accessor return Err(RequiredFieldMissing) and the builder panic. Slot i of a table is at vtable offset 4 + 2 * i, fields in declaration order, a union field taking two slots (type tag first), so buffers are compatible with other FlatBuffers implementations.",
 ['inputs','programs'],'every schema, every field value',
 "The generator's tests compare a few token streams; whether the emitted code is right for all values, and for each kind of field, is not checked.",
 [C+'codegen.rs',C+'ir/transform.rs',C+'ir/types.rs',B+'vtable.rs'],['impl ToTokens for ir::Table','to_type_token','to_default_value','new_table','field_index_to_field_offset'],
 ['generated accessors on buffers made by generated builders; VT_ constants'])
p('G02','Generated enums map names to schema values, both ways, and reject unknown values',
 "For every enum schema: a variant with an explicit value has that value, one without has the previous variant's value plus one (0 for the first); the generated enum is stored as a scalar of the declared base type with that value; TryFrom<base> and From<enum> are inverse on declared values and TryFrom gives Err(UnknownEnumVariant) on every other value of the base type, as does reading a field holding one. The type tag of a union is a ubyte: None is 0 and the variants are 1, 2, 3, ... in declaration order.",
 ['inputs','programs'],'every enum and union schema, every value of the base type',
 "Value assignment depends on the mixture of explicit and implicit values; tests use dense enums from zero.",
 [C+'codegen.rs',C+'ir/transform.rs',C+'ir/types.rs'],['impl ToTokens for ir::Enum','generate_enum_for_union','EnumBaseType::try_from','fmt_lit'],
 ['generated TryFrom / From / Follow / Push impls'])
p('G03','Schema types map to the FlatBuffers wire types',
 "Every schema scalar type name (bool, byte, ubyte, short, ushort, int, uint, long, ulong, float, double, int8 ... uint64, float32, float64) becomes the Rust scalar of the same width, signedness and kind, both as a field type and (integers only) as an enum base type; strings, vectors and tables are stored as u32 offsets, structs and enums inline; a type is treated as scalar exactly when it is a scalar, an enum or a struct, as union or enum exactly when it is one; non-integer enum base types are rejected.",
 ['inputs'],'every type expression',
 "A single swapped width or sign still round-trips with the library's own reader; only the wire format is wrong.",
 [C+'ir/types.rs',C+'ir/transform.rs',C+'codegen.rs',C+'ast/types.rs'],['Type::is_scalar','Type::is_union','Type::is_enum','EnumBaseType::try_from','Builder::try_type','to_type_token','impl ToTokens for EnumBaseType'],
 ['IR types and emitted type tokens'])
p('G04','Names resolve to the same item wherever and in whatever order items are declared',
 "A type name in a schema denotes the item of that name in the namespace of the declaration it occurs in (or the item with that full path, when qualified), independent of the order of declarations and of which namespaces follow; the item is emitted in the module of its own namespace, and the path emitted for a reference from module N to item I leads, by super/child steps from N, to I. A name that denotes nothing, or a duplicate definition, is an error.",
 ['inputs'],'every schema, every permutation of its declarations, every pair of namespaces',
 "Resolution loops over deferred declarations; wrong bindings need a particular order of namespaces and forward references.",
 [C+'ir/transform.rs',C+'ir/types.rs',C+'codegen.rs'],['Builder::build','try_type','find_custom_type','make_fully_qualified_ident','QualifiedIdent::relative','QualifiedIdent::namespace'],
 ['IR root, emitted paths'])
p('G05','Literals keep their value from schema text to generated code',
 "An integer (decimal or 0x hex, optionally signed), floating or boolean literal used as a field default or enum value, and a string literal, denotes the same value in the generated code as in the schema text, over the full range of its type; text that is not a literal is not accepted as one.",
 ['inputs'],'every literal text',
 "The failing literals are at the extremes or of unusual form (leading zeros, hex digits, exponents).",
 [C+'ast/parser.rs',C+'codegen.rs'],['integer_constant','floating_constant','fmt_lit','to_default_value'],
 ['AST constants and emitted literals'])
p('G06','Every schema identifier becomes a usable Rust identifier',
 "Every identifier that is a strict or reserved Rust 2018 keyword is replaced by a fixed identifier that is not a keyword; every other identifier is kept unchanged; and two different keywords never get the same replacement.",
 ['inputs'],'every identifier string',
 "The set of all strings is unbounded and the keyword list long; tests try one or two.",
 [C+'ir/keywords.rs',C+'ir/types.rs'],['substitute_keyword','Ident::fix_identifier'],['ir::Ident contents'])
p('G07','The compiler never panics: any text gives code or an error',
 "For every input text, compiling it returns Ok with generated code or an Err; it does not panic, loop for ever or overflow the stack.",
 ['inputs'],'every input text',
 "Tests feed well-formed schemas.",
 [C+'compile.rs',C+'ast/parser.rs',C+'ir/transform.rs',C+'codegen.rs'],['compile_fbs_generic','schema_decl','Builder::build','CodeGenerator'],['Result of compile_fbs_generic'])
p('G08','Services reach the service generator exactly as the schema declares them',
 "",['inputs'],'every schema with services, every order and namespace',
 "Services are deferred, retried, regrouped by namespace and handed to a user-supplied generator; tests look at one or two services without namespaces or forward references.",
 [C+'ir/transform.rs',C+'codegen.rs',C+'ast/parser.rs',C+'compile.rs'],['new_rpc','new_root_ident','make_fully_qualified_from_ast_qualified_ident','CodeGenerator::node_to_tokens','rpc_decl','rpc_method'],
 ['calls of RpcGenerator::generate: ir::Rpc, position in the emitted code'])
S={
 "R01": "Writing a FlatBuffers scalar (bool, 8- to 64-bit integers, f32, f64) into a byte slice stores exactly its little-endian bytes (floats: their IEEE-754 bits, NaN payloads included; bool: 0 or 1) at the start of the slice and changes no other byte, and reading a scalar at a location returns the value whose little-endian bytes are there, or an out-of-bounds error exactly when fewer bytes than its size are left (a stored bool byte is read as true when it is not 0). This holds for every value, slice length, location and memory alignment, so write followed by read is the identity on bits.",
 "R02": "For every byte slice, valid FlatBuffer or not, every read a generated accessor can perform (root, size-prefixed root, file identifier, vtable queries, table fields, offsets, strings, vectors and their iterators, slice views) returns Ok or Err: no panic, no arithmetic overflow, no read outside the slice, no misaligned reference. Every string, slice or sub-slice returned lies entirely inside the input. (Locations are those reachable from the buffer, and a vector element is asked for only below the vector's length.)",
 "R03": "Reading a table field looks up the slot in the vtable that the table's signed offset points at (table location minus offset): if the slot lies at or past the vtable's stored byte length, or its entry is 0, the result is the caller's default unchanged, and otherwise it is the value found at table location + entry, any location outside the buffer being an out-of-bounds error. A forward offset at a location leads to that location plus the u32 stored there, the root is the offset at byte 0 (at byte 4, counted from there, when size-prefixed), and the identifier test compares exactly bytes 4..8 (8..12 when size-prefixed). A vtable reports the stored byte length, inline size, number of fields and field entries, and no field for an index at or past the number of fields.",
 "R04": "Reading a string at a location succeeds exactly when the u32 length n there, the n bytes after it and one more byte lie inside the buffer, that last byte is 0, and the n bytes are valid UTF-8; the result is then exactly those n bytes. If the length or the bytes with their terminator do not fit the error is out-of-bounds, else if the terminator is not 0 non-null-terminated, else if the bytes are not UTF-8 non-UTF-8.",
 "R05": "A vector at a location has the length n stored there and its element i directly behind the length at i times the element size, and indexing, iteration and slice views agree on that one sequence. Iteration yields exactly elements 0..n in order whatever mixture of next, next_back, nth, nth_back (any argument up to usize::MAX), clone, len and size_hint is called: front operations consume from the low end and back operations from the high end, each element appears at most once, len and size_hint equal the number still to come, and after the end it stays at the end; if the length cannot be read, iteration is empty and the length is an out-of-bounds error. A slice view returns exactly the n elements, or an error when they do not fit in the buffer or are not aligned for their type.",
 "R06": "At every point in the life of a builder, the data written so far is, byte for byte, a suffix of the data after any later push, table, vector, string or finish call, whatever the initial capacity and however often the internal buffer grows. So the offset a call returned keeps denoting the same object, and each call adds exactly the bytes of its own encoding plus less than one alignment unit of zero padding per object it writes.",
 "R07": "Every value pushed (scalars, offsets, table fields, a table's vtable offset, vector lengths, the root offset) and the first element of every vector lies at a distance from the end of the buffer that is a multiple of its type's alignment (1, 2, 4 or 8 bytes). The length of the finished buffer is a multiple of the largest alignment used in it and of 4, so in a buffer that starts at an address so aligned every value is naturally aligned.",
 "R08": "For a table built with any sequence of field writes to distinct slots (inline size below 64 KiB), reading a slot of the finished buffer returns the value written for every slot that was written and the reader's default for every other slot, and a field write with a default is omitted exactly when the value equals that default. Offset-valued fields lead to the object their offset denoted. This holds whatever other tables, vectors and strings were written before or after, and whether or not the vtable is shared with other tables.",
 "R09": "Ending a table makes it point at a vtable whose bytes are exactly this table's own: byte length, inline size and, for every slot, the field's distance from the table start or 0. If a vtable with exactly those bytes was already written to this buffer it is re-used, nothing of a provisional copy remains and the reported number of written vtables does not change; otherwise the vtable is placed directly in front of the table and that number grows by one. Vtables of an earlier buffer (before finish or reset) are never re-used.",
 "R10": "A string or byte string stored by a builder reads back as exactly the given bytes, for every content including embedded NULs and the empty string, followed by one NUL byte. A vector created from items (element by element, by memory copy, or by start / push in reverse / end, which all give the same layout) reads back with the same number of elements, element i equal to item i, an offset element leading to the object that was given; a vector of strings reads back the same strings in order. All of this holds whatever was written before or afterwards.",
 "R11": "Finishing a buffer puts at its front a u32 root offset that leads to the root object, directly followed, when an identifier was given, by its 4 bytes, and, for the size-prefixed form, preceded by a u32 equal to the number of bytes that follow it. Everything written before is the suffix of the result and only zero padding lies between. The finished data is exactly that, the root accessors lead to the root object, and the identifier test is true for the given identifier and false for any other.",
 "R12": "Two builders given the same sequence of calls produce the same bytes and the same offsets, whatever their initial capacities, however their internal buffers grew, and whatever was built in them before a reset (finished or abandoned half-way, inside a table or vector). Every padding byte is zero: no byte of an earlier buffer, of an erased vtable or of memory that was moved shows through.",
 "R13": "No sequence of builder calls makes the written data larger than the FlatBuffers limit of 2 GiB: a call that would do so panics, in debug and release builds alike, instead of writing. Consequently every offset the builder stores (u32 forward offsets, i32 vtable offsets, the size prefix) is the exact mathematical distance, with no truncation or wrap-around.",
 "R14": "The required-field check returns normally exactly when the just-finished table has a non-zero vtable entry for the slot, and panics otherwise. In builds with debug assertions a call that breaks the nesting protocol never returns normally: starting a table or vector, creating a string, byte string, memory-copied vector or vector of strings, or finishing, while a table or vector is under construction; writing a field or ending a table or vector when none is; finishing twice; and asking for finished data before finishing. Calls that follow the protocol do not panic, and after a table or vector is ended, or the builder is reset, a new object can be started."
}
S.update({
 "G01": "For every table schema the compiler accepts, a table written with the generated Args and create (or the generated Builder's add_ methods), finished and read with the generated accessors, gives back every field as it was given: scalars, bools, enums, strings, vectors of any of these, tables, vectors of tables, and unions with their type tag. A scalar field that was not given reads as the schema's default (0 or false if it has none; an enum field without a default reads as None), an absent optional reference field reads as None, and an absent required reference field makes the accessor return the required-field error and the builder panic. Slot i is at vtable offset 4 + 2 * i, fields in declaration order, a union field taking two slots (type tag first).",
 "G02": "In generated code an enum variant with an explicit value has that value and one without has the previous variant's value plus one (0 for the first); it is stored as a scalar of the declared base type with that value, little-endian. Converting from the base type gives the variant with that value and an unknown-variant error for every other value of the base type, reading such a field likewise, and converting back is the inverse; the generated name function gives the variant's name (as it stands in the generated code). The type tag of a union is a ubyte enum of the same kind: None is 0 and the variants are 1, 2, 3, ... in declaration order, or as their explicit values say.",
 "G03": "Every schema scalar type name (bool, byte, ubyte, short, ushort, int, uint, long, ulong, float, double, int8 ... uint64, float32, float64) becomes the Rust scalar of the same width, signedness and kind, as a field type, as a vector element type and, integers only, as an enum base type; any other enum base type is rejected. Strings, vectors, tables and union values are stored as u32 offsets and enums inline as their base type, and a name that merely begins with a builtin type's name is an ordinary type name.",
 "G04": "A type name in a schema denotes the item of that name in the namespace of the declaration it occurs in (or the item with that full path, when qualified), whatever the order of declarations and whatever namespaces follow. Each item is emitted in the module of its own namespace, and the path emitted for a reference leads from the module it stands in to that item. A name that denotes nothing is an error.",
 "G05": "An integer (decimal or 0x hexadecimal, optionally signed), floating (decimal, hexadecimal, nan or infinite) or boolean literal used as a field default or enum value has in the generated code exactly the value it has in the schema, over the full range of its type. Text that is not such a literal is rejected as a default.",
 "G06": "A schema identifier that is, or whose snake case form where one is used is, a strict or reserved Rust 2018 keyword is replaced by a fixed identifier that is not a keyword (type by ty, every other one by itself followed by an underscore), and every other identifier keeps its name (in snake case for fields, modules and methods). So different keywords never get the same replacement, and the generated code compiles for every schema whose names stay distinct and are not names the generated code itself relies on (such as B, Result, Option or Default).",
  "G08": "Each rpc_service of a schema is handed to the service generator exactly once, wherever it stands relative to the tables it uses, and what the generator writes lands in the module of the service's namespace. The service carries its full name and its documentation, and its methods in declaration order, each with its name, its snake case name, its documentation, the full path of its request and response tables (a bare name denoting the table of that name in the service's namespace) and its streaming mode: none, client, server or bidi, as the streaming attribute says. Keywords in names are replaced as everywhere else. A request or response type that is not a table of the schema, or any other value of the streaming attribute, is an error.",
 "G07": "For every input text, compiling it returns Ok with generated code or an Err; it does not panic, loop for ever or overflow the stack.",
})
for x in P: x['statement']=S.get(x['id'],x['statement'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
