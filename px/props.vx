proof fn digits_run(p: spec_fn(char) -> bool, i: Tx, radix: int)
    requires forall|c: char| #[trigger] p(c) ==> digit(c) < radix
    ensures run(p, i) > 0 ==> all_digits(tk(i, run(p, i)), radix)
{
    run_bound(p, i);
    if run(p, i) > 0 {
        let t = tk(i, run(p, i));
        assert forall|k: int| 0 <= k < t.len() implies digit(#[trigger] t[k]) < radix by { run_all(p, i, k); assert(t[k] == i[k]); }
    }
}
proof fn magnitude_pos(t: Tx, radix: int) requires radix > 0 ensures magnitude(t, radix) >= 0 decreases t.len()
{
    if t.len() > 0 { magnitude_pos(t.drop_last(), radix); assert(digit(t.last()) >= 0); assert(magnitude(t.drop_last(), radix) * radix >= 0) by (nonlinear_arith) requires magnitude(t.drop_last(), radix) >= 0, radix > 0; }
}
// ---- what the grammar says, as a user would put it
// a run of n characters of a class that ends there is taken whole
proof fn run_exact(p: spec_fn(char) -> bool, d: Tx, rest: Tx)
    requires forall|k: int| 0 <= k < d.len() ==> p(#[trigger] d[k]), rest.len() == 0 || !p(rest[0])
    ensures run(p, d + rest) == d.len()
    decreases d.len()
{
    let i = d + rest;
    if d.len() == 0 { assert(i =~= rest); } else {
        assert(i[0] == d[0]); assert(sk(i, 1) =~= sk(d, 1) + rest);
        assert forall|k: int| 0 <= k < sk(d, 1).len() implies p(#[trigger] sk(d, 1)[k]) by { assert(sk(d, 1)[k] == d[k + 1]); }
        run_exact(p, sk(d, 1), rest);
    }
}
// G05: decimal digits mean their value, whatever follows that is no digit (and does not make it hexadecimal)
#[verifier::spinoff_prover] proof fn prop_g05_decimal(d: Tx, rest: Tx)
    requires d.len() > 0, forall|k: int| 0 <= k < d.len() ==> c_digit(#[trigger] d[k]), in_range(magnitude(d, 10)),
        rest.len() == 0 || !c_digit(rest[0]) && rest[0] != 'x' && rest[0] != 'X',
    ensures g_integer_constant(d + rest) == Ok::<(Tx, int), ()>((rest, magnitude(d, 10))),
        g_integer_constant(seq!['-'] + d + rest) == Ok::<(Tx, int), ()>((rest, -magnitude(d, 10))),
{
    broadcast use px_base;
    reveal(g_integer_constant); reveal(g_dec_integer_constant); reveal(g_hex_integer_constant);
    magnitude_pos(d, 10);
    let p = |c: char| cls_digit(c);
    let i = d + rest; let m = seq!['-'] + d + rest;
    run_exact(p, d, rest);
    assert(sk(m, 1) =~= i); assert(m[0] == '-');
    assert(i[0] == d[0]);
    assert(tk(i, d.len() as int) =~= d); assert(sk(i, d.len() as int) =~= rest);
    if i.len() > 1 { assert(i[1] == if d.len() > 1 { d[1] } else { rest[0] }); }
    assert(g_hex_integer_constant(i) is Err);
    assert(g_hex_integer_constant(m) is Err);
}
// G05: so do hexadecimal ones
#[verifier::spinoff_prover] proof fn prop_g05_hexadecimal(d: Tx, rest: Tx)
    requires d.len() > 0, forall|k: int| 0 <= k < d.len() ==> c_hex(#[trigger] d[k]), in_range(magnitude(d, 16)), rest.len() == 0 || !c_hex(rest[0]),
    ensures g_integer_constant(seq!['0', 'x'] + d + rest) == Ok::<(Tx, int), ()>((rest, magnitude(d, 16))),
{
    broadcast use px_base;
    reveal(g_integer_constant); reveal(g_hex_integer_constant);
    magnitude_pos(d, 16);
    let p = |c: char| cls_hex(c);
    let i = seq!['0', 'x'] + d + rest; let j = d + rest;
    run_exact(p, d, rest);
    assert(sk(i, 2) =~= j); assert(sk(sk(i, 1), 1) =~= j); assert(i[0] == '0' && i[1] == 'x' && sk(i, 1)[0] == 'x');
    assert(tk(j, d.len() as int) =~= d); assert(sk(j, d.len() as int) =~= rest);
}
// G03: a name that goes on after a builtin type's name is an ordinary name
#[verifier::spinoff_prover] proof fn prop_g03_longer_name(i: Tx)
    requires i.len() >= 4, i[0] == 'i', i[1] == 'n', i[2] == 't', cls_more(i[3]), !c_digit(i[3])
    ensures match g_type_(i) { Ok((_, Type::Ident(_))) => true, Err(_) => true, _ => false }
{ broadcast use px_base; reveal(g_type_); }
// G04: an identifier is as long as it can be, and what it names is exactly that text
#[verifier::spinoff_prover] proof fn prop_g04_ident(d: Tx, rest: Tx)
    requires d.len() > 0, cls_initial(d[0]), forall|k: int| 0 <= k < d.len() ==> cls_name(#[trigger] d[k]), rest.len() == 0 || !cls_name(rest[0]),
    ensures g_ident(d + rest) == Ok::<(Tx, Ident), ()>((rest, Ident { raw: d })),
{
    broadcast use px_base; reveal(g_ident);
    let p = |c: char| cls_name(c); let i = d + rest;
    assert(i[0] == d[0]);
    run_exact(p, sk(d, 1), rest);
    assert(sk(i, 1) =~= sk(d, 1) + rest);
    assert(sk(sk(i, 1), d.len() - 1) =~= rest);
    assert(tk(i, i.len() - rest.len()) =~= d);
}
// the declarations start with different keywords: at most one of them parses at a place, in whatever order they are tried
pub open spec fn starts(i: Tx, a: char, b: char) -> bool {
    match g_doc_comment(i) { Ok((r, _)) => r.len() >= 2 && r[0] == a && r[1] == b, Err(_) => false }
}
proof fn starts_namespace_decl(i: Tx) ensures g_namespace_decl(i) is Ok ==> starts(i, 'n', 'a') { reveal(g_namespace_decl); }
proof fn starts_table_decl(i: Tx) ensures g_table_decl(i) is Ok ==> starts(i, 't', 'a') { reveal(g_table_decl); }
proof fn starts_struct_decl(i: Tx) ensures g_struct_decl(i) is Ok ==> starts(i, 's', 't') { reveal(g_struct_decl); }
proof fn starts_enum_decl(i: Tx) ensures g_enum_decl(i) is Ok ==> starts(i, 'e', 'n') { reveal(g_enum_decl); }
proof fn starts_union_decl(i: Tx) ensures g_union_decl(i) is Ok ==> starts(i, 'u', 'n') { reveal(g_union_decl); }
proof fn starts_root_decl(i: Tx) ensures g_root_decl(i) is Ok ==> starts(i, 'r', 'o') { reveal(g_root_decl); }
proof fn starts_file_extension_decl(i: Tx) ensures g_file_extension_decl(i) is Ok ==> starts(i, 'f', 'i') { reveal(g_file_extension_decl); }
proof fn starts_attribute_decl(i: Tx) ensures g_attribute_decl(i) is Ok ==> starts(i, 'a', 't') { reveal(g_attribute_decl); }
proof fn starts_rpc_decl(i: Tx) ensures g_rpc_decl(i) is Ok ==> starts(i, 'r', 'p') { reveal(g_rpc_decl); }
