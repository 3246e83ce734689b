== dec_integer_constant
    let j = if i.len() > 0 && cls_sign(i[0]) { sk(i, 1) } else { i };
    let p = |c: char| cls_digit(c);
    let n = run(p, j);
    digits_run(p, j, 10);
    if i.len() > 0 && cls_sign(i[0]) { assert(sk(tk(i, n + 1), 1) =~= tk(j, n)); assert(tk(i, n + 1)[0] == i[0]); }
    if n > 0 { assert(tk(j, n)[0] == j[0]); assert(c_digit(j[0])); }
== hex_integer_constant
    let j = if i.len() > 0 && cls_sign(i[0]) { sk(i, 1) } else { i };
    if j.len() >= 2 {
        let k = sk(j, 2);
        let p = |c: char| cls_hex(c);
        let n = run(p, k);
        digits_run(p, k, 16);
        magnitude_pos(tk(k, n), 16);
        if n > 0 { assert(tk(k, n)[0] == k[0]); assert(c_hex(k[0])); }
    }
== element
    starts_namespace_decl(i); starts_table_decl(i); starts_struct_decl(i); starts_enum_decl(i); starts_union_decl(i); starts_root_decl(i); starts_file_extension_decl(i); starts_attribute_decl(i); starts_rpc_decl(i);
