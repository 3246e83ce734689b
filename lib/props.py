"""Which functions carry which property: the roots of the property's obligations.
A property is proved by the lemmas prop_rNN_* over the contracts, the contracts of the
root functions, and everything those reach (see vrun.closure)."""
import re
SC='(bool|u8|u16|u32|u64|i8|i16|i32|i64|f32|f64)'
B='builder::FlatBufferBuilder::'
ROOTS={
 'R01':[r'endian_scalar::.*',r'primitives::Follow for '+SC+'::follow',r'push::Push for .*'],
 'R02':[r'endian_scalar::read.*',r'follow::.*',r'primitives::Follow.*',r'primitives::(ForwardsUOffset|ForwardsVOffset)::value',r'primitives::Clone for ForwardsUOffset::.*',r'vtable::(VTable|PartialEq|Follow).*',r'table::.*',r'vector::.*'],
 'R03':[r'endian_scalar::read_scalar_at',r'follow::.*',r'primitives::Follow(Buf)? for (ForwardsUOffset|ForwardsVOffset|BackwardsSOffset|Skip.*|FileIdentifier)::.*',r'vtable::.*',r'table::.*'],
 'R04':[r'vector::Follow for & str::follow',r'endian_scalar::read_scalar_at'],
 'R05':[r'vector::(?!Follow for & str).*',r'endian_scalar::read_scalar_at'],
 'R06':[B+r'(new|new_with_capacity|unfinished_data|used_space|unused_ready_space|track_field|grow_owned_buf|ensure_capacity|make_space|align|push|push_bytes_unprefixed|push_slot.*|start_.*|end_.*|create_.*|write_vtable|finish.*)',r'push::Push for .*',r'primitives::Push for .*',r'vtable_writer::.*'],
 'R07':[B+r'(track_min_align|align|push|start_vector|create_.*|end_table|write_vtable|finish.*|make_space)',r'builder::padding_bytes',r'push::Push(Alignment)?::.*',r'push::Push for .*',r'primitives::Push for .*'],
 'R08':[r'primitives::(PartialEq|Clone|Deref) for WIPOffset::.*',B+r'(push|push_slot.*|track_field|start_table|end_table|write_vtable|find_dup.*|make_space|grow_owned_buf)',r'builder::get_vtable_byte_len',r'vtable_writer::.*',r'vtable::(VTable::(init|num_bytes|get|as_bytes)|PartialEq.*|Follow.*|field_.*)',r'table::Table::(vtable|get|new)',r'primitives::(Push for|Follow for) .*'],
 'R09':[B+r'(end_table|write_vtable|find_dup.*|num_written_vtables|reset|finish_with_opts|track_field|make_space)',r'builder::get_vtable_byte_len',r'vtable_writer::.*',r'vtable::(VTable::(init|num_bytes|as_bytes)|PartialEq.*)',r'primitives::BackwardsSOffset::.*'],
 'R10':[B+r'(create_.*|start_vector|end_vector|push_bytes_unprefixed|push|align|make_space|grow_owned_buf)',r'push::Push for .*',r'primitives::Push for .*',r'vector::(Vector|Follow for).*',r'vector::.*VectorIter.*'],
 'R11':[B+r'(finish.*|push|push_bytes_unprefixed|align|make_space)',r'primitives::(WIPOffset|ForwardsUOffset)::.*',r'primitives::Push for .*',r'table::(get_root|get_size_prefixed_root|buffer_has_identifier|Table::get_root|Table::get_size_prefixed_root)',r'primitives::Follow(Buf)? for (Skip.*|FileIdentifier|ForwardsUOffset)::.*'],
 'R12':[B+r'(?!required|assert_).*',r'builder::Default.*',r'vtable_writer::.*'],
 'R13':[B+r'(new|new_with_capacity|grow_owned_buf|ensure_capacity|make_space|align|push|push_bytes_unprefixed|write_vtable|collapse)',r'primitives::FLATBUFFERS_MAX_BUFFER_SIZE',r'primitives::Push for .*',r'primitives::BackwardsSOffset::.*'],
 'R14':[B+r'(required|assert_.*|start_.*|end_.*|push_slot.*|create_.*|finish.*|reset)'],
}
# R14 is only about when a call is accepted: of the functions that do other work as well,
# only the clauses about nesting and the checks themselves count
CLAUSE={'R14':(re.compile(r'\bnested\b|\bfinished\b|required|vx_rt_assert|vx_dbg_assert|assert_(not_)?(nested|finished)|vx_expect'),re.compile(B+r'(required|assert_.*)'))}
LEMMA={p:'prop_'+p.lower()+'_' for p in ROOTS}

def roots(prop,us):
    rx=[re.compile(x+'$') for x in ROOTS[prop]]
    return [u for u in us if (u.fkey and any(x.match(u.fkey) for x in rx)) or (not u.fkey and u.name.startswith(LEMMA[prop]))]
def counts(prop,unit,items):
    """the failed obligations of `unit` that are about this property"""
    c=CLAUSE.get(prop)
    if not c or c[1].match(unit) or unit.startswith('prop_'): return items
    return [x for x in items if c[0].search(x['clause'])]
