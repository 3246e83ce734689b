pub open spec fn kw_of(s: Seq<char>) -> Option<Seq<char>> {
    if s == "as"@ { Some("as_"@) } else
    if s == "async"@ { Some("async_"@) } else
    if s == "await"@ { Some("await_"@) } else
    if s == "break"@ { Some("break_"@) } else
    if s == "const"@ { Some("const_"@) } else
    if s == "continue"@ { Some("continue_"@) } else
    if s == "crate"@ { Some("crate_"@) } else
    if s == "dyn"@ { Some("dyn_"@) } else
    if s == "else"@ { Some("else_"@) } else
    if s == "enum"@ { Some("enum_"@) } else
    if s == "extern"@ { Some("extern_"@) } else
    if s == "false"@ { Some("false_"@) } else
    if s == "fn"@ { Some("fn_"@) } else
    if s == "for"@ { Some("for_"@) } else
    if s == "if"@ { Some("if_"@) } else
    if s == "impl"@ { Some("impl_"@) } else
    if s == "in"@ { Some("in_"@) } else
    if s == "let"@ { Some("let_"@) } else
    if s == "loop"@ { Some("loop_"@) } else
    if s == "match"@ { Some("match_"@) } else
    if s == "mod"@ { Some("mod_"@) } else
    if s == "move"@ { Some("move_"@) } else
    if s == "mut"@ { Some("mut_"@) } else
    if s == "pub"@ { Some("pub_"@) } else
    if s == "ref"@ { Some("ref_"@) } else
    if s == "return"@ { Some("return_"@) } else
    if s == "self"@ { Some("self_"@) } else
    if s == "Self"@ { Some("Self_"@) } else
    if s == "static"@ { Some("static_"@) } else
    if s == "struct"@ { Some("struct_"@) } else
    if s == "super"@ { Some("super_"@) } else
    if s == "trait"@ { Some("trait_"@) } else
    if s == "true"@ { Some("true_"@) } else
    if s == "type"@ { Some("ty"@) } else
    if s == "unsafe"@ { Some("unsafe_"@) } else
    if s == "use"@ { Some("use_"@) } else
    if s == "where"@ { Some("where_"@) } else
    if s == "while"@ { Some("while_"@) } else
    if s == "abstract"@ { Some("abstract_"@) } else
    if s == "become"@ { Some("become_"@) } else
    if s == "box"@ { Some("box_"@) } else
    if s == "do"@ { Some("do_"@) } else
    if s == "final"@ { Some("final_"@) } else
    if s == "macro"@ { Some("macro_"@) } else
    if s == "override"@ { Some("override_"@) } else
    if s == "priv"@ { Some("priv_"@) } else
    if s == "try"@ { Some("try_"@) } else
    if s == "typeof"@ { Some("typeof_"@) } else
    if s == "unsized"@ { Some("unsized_"@) } else
    if s == "virtual"@ { Some("virtual_"@) } else
    if s == "yield"@ { Some("yield_"@) } else
    { None }
}
pub axiom fn str_ext(a: &str, b: &str) ensures a@ == b@ ==> a == b;
pub proof fn kw_literals(s: &str)
    ensures
        (s == "as") == (s@ == "as"@) && (s == "async") == (s@ == "async"@) && (s == "await") == (s@ == "await"@) && (s == "break") == (s@ == "break"@),
        (s == "const") == (s@ == "const"@) && (s == "continue") == (s@ == "continue"@) && (s == "crate") == (s@ == "crate"@) && (s == "dyn") == (s@ == "dyn"@),
        (s == "else") == (s@ == "else"@) && (s == "enum") == (s@ == "enum"@) && (s == "extern") == (s@ == "extern"@) && (s == "false") == (s@ == "false"@),
        (s == "fn") == (s@ == "fn"@) && (s == "for") == (s@ == "for"@) && (s == "if") == (s@ == "if"@) && (s == "impl") == (s@ == "impl"@),
        (s == "in") == (s@ == "in"@) && (s == "let") == (s@ == "let"@) && (s == "loop") == (s@ == "loop"@) && (s == "match") == (s@ == "match"@),
        (s == "mod") == (s@ == "mod"@) && (s == "move") == (s@ == "move"@) && (s == "mut") == (s@ == "mut"@) && (s == "pub") == (s@ == "pub"@),
        (s == "ref") == (s@ == "ref"@) && (s == "return") == (s@ == "return"@) && (s == "self") == (s@ == "self"@) && (s == "Self") == (s@ == "Self"@),
        (s == "static") == (s@ == "static"@) && (s == "struct") == (s@ == "struct"@) && (s == "super") == (s@ == "super"@) && (s == "trait") == (s@ == "trait"@),
        (s == "true") == (s@ == "true"@) && (s == "type") == (s@ == "type"@) && (s == "unsafe") == (s@ == "unsafe"@) && (s == "use") == (s@ == "use"@),
        (s == "where") == (s@ == "where"@) && (s == "while") == (s@ == "while"@) && (s == "abstract") == (s@ == "abstract"@) && (s == "become") == (s@ == "become"@),
        (s == "box") == (s@ == "box"@) && (s == "do") == (s@ == "do"@) && (s == "final") == (s@ == "final"@) && (s == "macro") == (s@ == "macro"@),
        (s == "override") == (s@ == "override"@) && (s == "priv") == (s@ == "priv"@) && (s == "try") == (s@ == "try"@) && (s == "typeof") == (s@ == "typeof"@),
        (s == "unsized") == (s@ == "unsized"@) && (s == "virtual") == (s@ == "virtual"@) && (s == "yield") == (s@ == "yield"@),
{
    str_ext(s, "as");
    str_ext(s, "async");
    str_ext(s, "await");
    str_ext(s, "break");
    str_ext(s, "const");
    str_ext(s, "continue");
    str_ext(s, "crate");
    str_ext(s, "dyn");
    str_ext(s, "else");
    str_ext(s, "enum");
    str_ext(s, "extern");
    str_ext(s, "false");
    str_ext(s, "fn");
    str_ext(s, "for");
    str_ext(s, "if");
    str_ext(s, "impl");
    str_ext(s, "in");
    str_ext(s, "let");
    str_ext(s, "loop");
    str_ext(s, "match");
    str_ext(s, "mod");
    str_ext(s, "move");
    str_ext(s, "mut");
    str_ext(s, "pub");
    str_ext(s, "ref");
    str_ext(s, "return");
    str_ext(s, "self");
    str_ext(s, "Self");
    str_ext(s, "static");
    str_ext(s, "struct");
    str_ext(s, "super");
    str_ext(s, "trait");
    str_ext(s, "true");
    str_ext(s, "type");
    str_ext(s, "unsafe");
    str_ext(s, "use");
    str_ext(s, "where");
    str_ext(s, "while");
    str_ext(s, "abstract");
    str_ext(s, "become");
    str_ext(s, "box");
    str_ext(s, "do");
    str_ext(s, "final");
    str_ext(s, "macro");
    str_ext(s, "override");
    str_ext(s, "priv");
    str_ext(s, "try");
    str_ext(s, "typeof");
    str_ext(s, "unsized");
    str_ext(s, "virtual");
    str_ext(s, "yield");
}
pub open spec fn lits() -> bool {
    &&& "Self"@.len() == 4 && "Self"@[0] == 'S' && "Self"@[1] == 'e' && "Self"@[2] == 'l' && "Self"@[3] == 'f'
    &&& "Self_"@.len() == 5 && "Self_"@[0] == 'S' && "Self_"@[1] == 'e' && "Self_"@[2] == 'l' && "Self_"@[3] == 'f' && "Self_"@[4] == '_'
    &&& "abstract"@.len() == 8 && "abstract"@[0] == 'a' && "abstract"@[1] == 'b' && "abstract"@[2] == 's' && "abstract"@[3] == 't' && "abstract"@[4] == 'r' && "abstract"@[5] == 'a' && "abstract"@[6] == 'c' && "abstract"@[7] == 't'
    &&& "abstract_"@.len() == 9 && "abstract_"@[0] == 'a' && "abstract_"@[1] == 'b' && "abstract_"@[2] == 's' && "abstract_"@[3] == 't' && "abstract_"@[4] == 'r' && "abstract_"@[5] == 'a' && "abstract_"@[6] == 'c' && "abstract_"@[7] == 't' && "abstract_"@[8] == '_'
    &&& "as"@.len() == 2 && "as"@[0] == 'a' && "as"@[1] == 's'
    &&& "as_"@.len() == 3 && "as_"@[0] == 'a' && "as_"@[1] == 's' && "as_"@[2] == '_'
    &&& "async"@.len() == 5 && "async"@[0] == 'a' && "async"@[1] == 's' && "async"@[2] == 'y' && "async"@[3] == 'n' && "async"@[4] == 'c'
    &&& "async_"@.len() == 6 && "async_"@[0] == 'a' && "async_"@[1] == 's' && "async_"@[2] == 'y' && "async_"@[3] == 'n' && "async_"@[4] == 'c' && "async_"@[5] == '_'
    &&& "await"@.len() == 5 && "await"@[0] == 'a' && "await"@[1] == 'w' && "await"@[2] == 'a' && "await"@[3] == 'i' && "await"@[4] == 't'
    &&& "await_"@.len() == 6 && "await_"@[0] == 'a' && "await_"@[1] == 'w' && "await_"@[2] == 'a' && "await_"@[3] == 'i' && "await_"@[4] == 't' && "await_"@[5] == '_'
    &&& "become"@.len() == 6 && "become"@[0] == 'b' && "become"@[1] == 'e' && "become"@[2] == 'c' && "become"@[3] == 'o' && "become"@[4] == 'm' && "become"@[5] == 'e'
    &&& "become_"@.len() == 7 && "become_"@[0] == 'b' && "become_"@[1] == 'e' && "become_"@[2] == 'c' && "become_"@[3] == 'o' && "become_"@[4] == 'm' && "become_"@[5] == 'e' && "become_"@[6] == '_'
    &&& "box"@.len() == 3 && "box"@[0] == 'b' && "box"@[1] == 'o' && "box"@[2] == 'x'
    &&& "box_"@.len() == 4 && "box_"@[0] == 'b' && "box_"@[1] == 'o' && "box_"@[2] == 'x' && "box_"@[3] == '_'
    &&& "break"@.len() == 5 && "break"@[0] == 'b' && "break"@[1] == 'r' && "break"@[2] == 'e' && "break"@[3] == 'a' && "break"@[4] == 'k'
    &&& "break_"@.len() == 6 && "break_"@[0] == 'b' && "break_"@[1] == 'r' && "break_"@[2] == 'e' && "break_"@[3] == 'a' && "break_"@[4] == 'k' && "break_"@[5] == '_'
    &&& "const"@.len() == 5 && "const"@[0] == 'c' && "const"@[1] == 'o' && "const"@[2] == 'n' && "const"@[3] == 's' && "const"@[4] == 't'
    &&& "const_"@.len() == 6 && "const_"@[0] == 'c' && "const_"@[1] == 'o' && "const_"@[2] == 'n' && "const_"@[3] == 's' && "const_"@[4] == 't' && "const_"@[5] == '_'
    &&& "continue"@.len() == 8 && "continue"@[0] == 'c' && "continue"@[1] == 'o' && "continue"@[2] == 'n' && "continue"@[3] == 't' && "continue"@[4] == 'i' && "continue"@[5] == 'n' && "continue"@[6] == 'u' && "continue"@[7] == 'e'
    &&& "continue_"@.len() == 9 && "continue_"@[0] == 'c' && "continue_"@[1] == 'o' && "continue_"@[2] == 'n' && "continue_"@[3] == 't' && "continue_"@[4] == 'i' && "continue_"@[5] == 'n' && "continue_"@[6] == 'u' && "continue_"@[7] == 'e' && "continue_"@[8] == '_'
    &&& "crate"@.len() == 5 && "crate"@[0] == 'c' && "crate"@[1] == 'r' && "crate"@[2] == 'a' && "crate"@[3] == 't' && "crate"@[4] == 'e'
    &&& "crate_"@.len() == 6 && "crate_"@[0] == 'c' && "crate_"@[1] == 'r' && "crate_"@[2] == 'a' && "crate_"@[3] == 't' && "crate_"@[4] == 'e' && "crate_"@[5] == '_'
    &&& "do"@.len() == 2 && "do"@[0] == 'd' && "do"@[1] == 'o'
    &&& "do_"@.len() == 3 && "do_"@[0] == 'd' && "do_"@[1] == 'o' && "do_"@[2] == '_'
    &&& "dyn"@.len() == 3 && "dyn"@[0] == 'd' && "dyn"@[1] == 'y' && "dyn"@[2] == 'n'
    &&& "dyn_"@.len() == 4 && "dyn_"@[0] == 'd' && "dyn_"@[1] == 'y' && "dyn_"@[2] == 'n' && "dyn_"@[3] == '_'
    &&& "else"@.len() == 4 && "else"@[0] == 'e' && "else"@[1] == 'l' && "else"@[2] == 's' && "else"@[3] == 'e'
    &&& "else_"@.len() == 5 && "else_"@[0] == 'e' && "else_"@[1] == 'l' && "else_"@[2] == 's' && "else_"@[3] == 'e' && "else_"@[4] == '_'
    &&& "enum"@.len() == 4 && "enum"@[0] == 'e' && "enum"@[1] == 'n' && "enum"@[2] == 'u' && "enum"@[3] == 'm'
    &&& "enum_"@.len() == 5 && "enum_"@[0] == 'e' && "enum_"@[1] == 'n' && "enum_"@[2] == 'u' && "enum_"@[3] == 'm' && "enum_"@[4] == '_'
    &&& "extern"@.len() == 6 && "extern"@[0] == 'e' && "extern"@[1] == 'x' && "extern"@[2] == 't' && "extern"@[3] == 'e' && "extern"@[4] == 'r' && "extern"@[5] == 'n'
    &&& "extern_"@.len() == 7 && "extern_"@[0] == 'e' && "extern_"@[1] == 'x' && "extern_"@[2] == 't' && "extern_"@[3] == 'e' && "extern_"@[4] == 'r' && "extern_"@[5] == 'n' && "extern_"@[6] == '_'
    &&& "false"@.len() == 5 && "false"@[0] == 'f' && "false"@[1] == 'a' && "false"@[2] == 'l' && "false"@[3] == 's' && "false"@[4] == 'e'
    &&& "false_"@.len() == 6 && "false_"@[0] == 'f' && "false_"@[1] == 'a' && "false_"@[2] == 'l' && "false_"@[3] == 's' && "false_"@[4] == 'e' && "false_"@[5] == '_'
    &&& "final"@.len() == 5 && "final"@[0] == 'f' && "final"@[1] == 'i' && "final"@[2] == 'n' && "final"@[3] == 'a' && "final"@[4] == 'l'
    &&& "final_"@.len() == 6 && "final_"@[0] == 'f' && "final_"@[1] == 'i' && "final_"@[2] == 'n' && "final_"@[3] == 'a' && "final_"@[4] == 'l' && "final_"@[5] == '_'
    &&& "fn"@.len() == 2 && "fn"@[0] == 'f' && "fn"@[1] == 'n'
    &&& "fn_"@.len() == 3 && "fn_"@[0] == 'f' && "fn_"@[1] == 'n' && "fn_"@[2] == '_'
    &&& "for"@.len() == 3 && "for"@[0] == 'f' && "for"@[1] == 'o' && "for"@[2] == 'r'
    &&& "for_"@.len() == 4 && "for_"@[0] == 'f' && "for_"@[1] == 'o' && "for_"@[2] == 'r' && "for_"@[3] == '_'
    &&& "if"@.len() == 2 && "if"@[0] == 'i' && "if"@[1] == 'f'
    &&& "if_"@.len() == 3 && "if_"@[0] == 'i' && "if_"@[1] == 'f' && "if_"@[2] == '_'
    &&& "impl"@.len() == 4 && "impl"@[0] == 'i' && "impl"@[1] == 'm' && "impl"@[2] == 'p' && "impl"@[3] == 'l'
    &&& "impl_"@.len() == 5 && "impl_"@[0] == 'i' && "impl_"@[1] == 'm' && "impl_"@[2] == 'p' && "impl_"@[3] == 'l' && "impl_"@[4] == '_'
    &&& "in"@.len() == 2 && "in"@[0] == 'i' && "in"@[1] == 'n'
    &&& "in_"@.len() == 3 && "in_"@[0] == 'i' && "in_"@[1] == 'n' && "in_"@[2] == '_'
    &&& "let"@.len() == 3 && "let"@[0] == 'l' && "let"@[1] == 'e' && "let"@[2] == 't'
    &&& "let_"@.len() == 4 && "let_"@[0] == 'l' && "let_"@[1] == 'e' && "let_"@[2] == 't' && "let_"@[3] == '_'
    &&& "loop"@.len() == 4 && "loop"@[0] == 'l' && "loop"@[1] == 'o' && "loop"@[2] == 'o' && "loop"@[3] == 'p'
    &&& "loop_"@.len() == 5 && "loop_"@[0] == 'l' && "loop_"@[1] == 'o' && "loop_"@[2] == 'o' && "loop_"@[3] == 'p' && "loop_"@[4] == '_'
    &&& "macro"@.len() == 5 && "macro"@[0] == 'm' && "macro"@[1] == 'a' && "macro"@[2] == 'c' && "macro"@[3] == 'r' && "macro"@[4] == 'o'
    &&& "macro_"@.len() == 6 && "macro_"@[0] == 'm' && "macro_"@[1] == 'a' && "macro_"@[2] == 'c' && "macro_"@[3] == 'r' && "macro_"@[4] == 'o' && "macro_"@[5] == '_'
    &&& "match"@.len() == 5 && "match"@[0] == 'm' && "match"@[1] == 'a' && "match"@[2] == 't' && "match"@[3] == 'c' && "match"@[4] == 'h'
    &&& "match_"@.len() == 6 && "match_"@[0] == 'm' && "match_"@[1] == 'a' && "match_"@[2] == 't' && "match_"@[3] == 'c' && "match_"@[4] == 'h' && "match_"@[5] == '_'
    &&& "mod"@.len() == 3 && "mod"@[0] == 'm' && "mod"@[1] == 'o' && "mod"@[2] == 'd'
    &&& "mod_"@.len() == 4 && "mod_"@[0] == 'm' && "mod_"@[1] == 'o' && "mod_"@[2] == 'd' && "mod_"@[3] == '_'
    &&& "move"@.len() == 4 && "move"@[0] == 'm' && "move"@[1] == 'o' && "move"@[2] == 'v' && "move"@[3] == 'e'
    &&& "move_"@.len() == 5 && "move_"@[0] == 'm' && "move_"@[1] == 'o' && "move_"@[2] == 'v' && "move_"@[3] == 'e' && "move_"@[4] == '_'
    &&& "mut"@.len() == 3 && "mut"@[0] == 'm' && "mut"@[1] == 'u' && "mut"@[2] == 't'
    &&& "mut_"@.len() == 4 && "mut_"@[0] == 'm' && "mut_"@[1] == 'u' && "mut_"@[2] == 't' && "mut_"@[3] == '_'
    &&& "override"@.len() == 8 && "override"@[0] == 'o' && "override"@[1] == 'v' && "override"@[2] == 'e' && "override"@[3] == 'r' && "override"@[4] == 'r' && "override"@[5] == 'i' && "override"@[6] == 'd' && "override"@[7] == 'e'
    &&& "override_"@.len() == 9 && "override_"@[0] == 'o' && "override_"@[1] == 'v' && "override_"@[2] == 'e' && "override_"@[3] == 'r' && "override_"@[4] == 'r' && "override_"@[5] == 'i' && "override_"@[6] == 'd' && "override_"@[7] == 'e' && "override_"@[8] == '_'
    &&& "priv"@.len() == 4 && "priv"@[0] == 'p' && "priv"@[1] == 'r' && "priv"@[2] == 'i' && "priv"@[3] == 'v'
    &&& "priv_"@.len() == 5 && "priv_"@[0] == 'p' && "priv_"@[1] == 'r' && "priv_"@[2] == 'i' && "priv_"@[3] == 'v' && "priv_"@[4] == '_'
    &&& "pub"@.len() == 3 && "pub"@[0] == 'p' && "pub"@[1] == 'u' && "pub"@[2] == 'b'
    &&& "pub_"@.len() == 4 && "pub_"@[0] == 'p' && "pub_"@[1] == 'u' && "pub_"@[2] == 'b' && "pub_"@[3] == '_'
    &&& "ref"@.len() == 3 && "ref"@[0] == 'r' && "ref"@[1] == 'e' && "ref"@[2] == 'f'
    &&& "ref_"@.len() == 4 && "ref_"@[0] == 'r' && "ref_"@[1] == 'e' && "ref_"@[2] == 'f' && "ref_"@[3] == '_'
    &&& "return"@.len() == 6 && "return"@[0] == 'r' && "return"@[1] == 'e' && "return"@[2] == 't' && "return"@[3] == 'u' && "return"@[4] == 'r' && "return"@[5] == 'n'
    &&& "return_"@.len() == 7 && "return_"@[0] == 'r' && "return_"@[1] == 'e' && "return_"@[2] == 't' && "return_"@[3] == 'u' && "return_"@[4] == 'r' && "return_"@[5] == 'n' && "return_"@[6] == '_'
    &&& "self"@.len() == 4 && "self"@[0] == 's' && "self"@[1] == 'e' && "self"@[2] == 'l' && "self"@[3] == 'f'
    &&& "self_"@.len() == 5 && "self_"@[0] == 's' && "self_"@[1] == 'e' && "self_"@[2] == 'l' && "self_"@[3] == 'f' && "self_"@[4] == '_'
    &&& "static"@.len() == 6 && "static"@[0] == 's' && "static"@[1] == 't' && "static"@[2] == 'a' && "static"@[3] == 't' && "static"@[4] == 'i' && "static"@[5] == 'c'
    &&& "static_"@.len() == 7 && "static_"@[0] == 's' && "static_"@[1] == 't' && "static_"@[2] == 'a' && "static_"@[3] == 't' && "static_"@[4] == 'i' && "static_"@[5] == 'c' && "static_"@[6] == '_'
    &&& "struct"@.len() == 6 && "struct"@[0] == 's' && "struct"@[1] == 't' && "struct"@[2] == 'r' && "struct"@[3] == 'u' && "struct"@[4] == 'c' && "struct"@[5] == 't'
    &&& "struct_"@.len() == 7 && "struct_"@[0] == 's' && "struct_"@[1] == 't' && "struct_"@[2] == 'r' && "struct_"@[3] == 'u' && "struct_"@[4] == 'c' && "struct_"@[5] == 't' && "struct_"@[6] == '_'
    &&& "super"@.len() == 5 && "super"@[0] == 's' && "super"@[1] == 'u' && "super"@[2] == 'p' && "super"@[3] == 'e' && "super"@[4] == 'r'
    &&& "super_"@.len() == 6 && "super_"@[0] == 's' && "super_"@[1] == 'u' && "super_"@[2] == 'p' && "super_"@[3] == 'e' && "super_"@[4] == 'r' && "super_"@[5] == '_'
    &&& "trait"@.len() == 5 && "trait"@[0] == 't' && "trait"@[1] == 'r' && "trait"@[2] == 'a' && "trait"@[3] == 'i' && "trait"@[4] == 't'
    &&& "trait_"@.len() == 6 && "trait_"@[0] == 't' && "trait_"@[1] == 'r' && "trait_"@[2] == 'a' && "trait_"@[3] == 'i' && "trait_"@[4] == 't' && "trait_"@[5] == '_'
    &&& "true"@.len() == 4 && "true"@[0] == 't' && "true"@[1] == 'r' && "true"@[2] == 'u' && "true"@[3] == 'e'
    &&& "true_"@.len() == 5 && "true_"@[0] == 't' && "true_"@[1] == 'r' && "true_"@[2] == 'u' && "true_"@[3] == 'e' && "true_"@[4] == '_'
    &&& "try"@.len() == 3 && "try"@[0] == 't' && "try"@[1] == 'r' && "try"@[2] == 'y'
    &&& "try_"@.len() == 4 && "try_"@[0] == 't' && "try_"@[1] == 'r' && "try_"@[2] == 'y' && "try_"@[3] == '_'
    &&& "ty"@.len() == 2 && "ty"@[0] == 't' && "ty"@[1] == 'y'
    &&& "type"@.len() == 4 && "type"@[0] == 't' && "type"@[1] == 'y' && "type"@[2] == 'p' && "type"@[3] == 'e'
    &&& "typeof"@.len() == 6 && "typeof"@[0] == 't' && "typeof"@[1] == 'y' && "typeof"@[2] == 'p' && "typeof"@[3] == 'e' && "typeof"@[4] == 'o' && "typeof"@[5] == 'f'
    &&& "typeof_"@.len() == 7 && "typeof_"@[0] == 't' && "typeof_"@[1] == 'y' && "typeof_"@[2] == 'p' && "typeof_"@[3] == 'e' && "typeof_"@[4] == 'o' && "typeof_"@[5] == 'f' && "typeof_"@[6] == '_'
    &&& "unsafe"@.len() == 6 && "unsafe"@[0] == 'u' && "unsafe"@[1] == 'n' && "unsafe"@[2] == 's' && "unsafe"@[3] == 'a' && "unsafe"@[4] == 'f' && "unsafe"@[5] == 'e'
    &&& "unsafe_"@.len() == 7 && "unsafe_"@[0] == 'u' && "unsafe_"@[1] == 'n' && "unsafe_"@[2] == 's' && "unsafe_"@[3] == 'a' && "unsafe_"@[4] == 'f' && "unsafe_"@[5] == 'e' && "unsafe_"@[6] == '_'
    &&& "unsized"@.len() == 7 && "unsized"@[0] == 'u' && "unsized"@[1] == 'n' && "unsized"@[2] == 's' && "unsized"@[3] == 'i' && "unsized"@[4] == 'z' && "unsized"@[5] == 'e' && "unsized"@[6] == 'd'
    &&& "unsized_"@.len() == 8 && "unsized_"@[0] == 'u' && "unsized_"@[1] == 'n' && "unsized_"@[2] == 's' && "unsized_"@[3] == 'i' && "unsized_"@[4] == 'z' && "unsized_"@[5] == 'e' && "unsized_"@[6] == 'd' && "unsized_"@[7] == '_'
    &&& "use"@.len() == 3 && "use"@[0] == 'u' && "use"@[1] == 's' && "use"@[2] == 'e'
    &&& "use_"@.len() == 4 && "use_"@[0] == 'u' && "use_"@[1] == 's' && "use_"@[2] == 'e' && "use_"@[3] == '_'
    &&& "virtual"@.len() == 7 && "virtual"@[0] == 'v' && "virtual"@[1] == 'i' && "virtual"@[2] == 'r' && "virtual"@[3] == 't' && "virtual"@[4] == 'u' && "virtual"@[5] == 'a' && "virtual"@[6] == 'l'
    &&& "virtual_"@.len() == 8 && "virtual_"@[0] == 'v' && "virtual_"@[1] == 'i' && "virtual_"@[2] == 'r' && "virtual_"@[3] == 't' && "virtual_"@[4] == 'u' && "virtual_"@[5] == 'a' && "virtual_"@[6] == 'l' && "virtual_"@[7] == '_'
    &&& "where"@.len() == 5 && "where"@[0] == 'w' && "where"@[1] == 'h' && "where"@[2] == 'e' && "where"@[3] == 'r' && "where"@[4] == 'e'
    &&& "where_"@.len() == 6 && "where_"@[0] == 'w' && "where_"@[1] == 'h' && "where_"@[2] == 'e' && "where_"@[3] == 'r' && "where_"@[4] == 'e' && "where_"@[5] == '_'
    &&& "while"@.len() == 5 && "while"@[0] == 'w' && "while"@[1] == 'h' && "while"@[2] == 'i' && "while"@[3] == 'l' && "while"@[4] == 'e'
    &&& "while_"@.len() == 6 && "while_"@[0] == 'w' && "while_"@[1] == 'h' && "while_"@[2] == 'i' && "while_"@[3] == 'l' && "while_"@[4] == 'e' && "while_"@[5] == '_'
    &&& "yield"@.len() == 5 && "yield"@[0] == 'y' && "yield"@[1] == 'i' && "yield"@[2] == 'e' && "yield"@[3] == 'l' && "yield"@[4] == 'd'
    &&& "yield_"@.len() == 6 && "yield_"@[0] == 'y' && "yield_"@[1] == 'i' && "yield_"@[2] == 'e' && "yield_"@[3] == 'l' && "yield_"@[4] == 'd' && "yield_"@[5] == '_'
}
pub proof fn kw_lits() ensures lits() {
    reveal_strlit("Self"); assert("Self"@.len() == 4 && "Self"@[0] == 'S' && "Self"@[1] == 'e' && "Self"@[2] == 'l' && "Self"@[3] == 'f');
    reveal_strlit("Self_"); assert("Self_"@.len() == 5 && "Self_"@[0] == 'S' && "Self_"@[1] == 'e' && "Self_"@[2] == 'l' && "Self_"@[3] == 'f' && "Self_"@[4] == '_');
    reveal_strlit("abstract"); assert("abstract"@.len() == 8 && "abstract"@[0] == 'a' && "abstract"@[1] == 'b' && "abstract"@[2] == 's' && "abstract"@[3] == 't' && "abstract"@[4] == 'r' && "abstract"@[5] == 'a' && "abstract"@[6] == 'c' && "abstract"@[7] == 't');
    reveal_strlit("abstract_"); assert("abstract_"@.len() == 9 && "abstract_"@[0] == 'a' && "abstract_"@[1] == 'b' && "abstract_"@[2] == 's' && "abstract_"@[3] == 't' && "abstract_"@[4] == 'r' && "abstract_"@[5] == 'a' && "abstract_"@[6] == 'c' && "abstract_"@[7] == 't' && "abstract_"@[8] == '_');
    reveal_strlit("as"); assert("as"@.len() == 2 && "as"@[0] == 'a' && "as"@[1] == 's');
    reveal_strlit("as_"); assert("as_"@.len() == 3 && "as_"@[0] == 'a' && "as_"@[1] == 's' && "as_"@[2] == '_');
    reveal_strlit("async"); assert("async"@.len() == 5 && "async"@[0] == 'a' && "async"@[1] == 's' && "async"@[2] == 'y' && "async"@[3] == 'n' && "async"@[4] == 'c');
    reveal_strlit("async_"); assert("async_"@.len() == 6 && "async_"@[0] == 'a' && "async_"@[1] == 's' && "async_"@[2] == 'y' && "async_"@[3] == 'n' && "async_"@[4] == 'c' && "async_"@[5] == '_');
    reveal_strlit("await"); assert("await"@.len() == 5 && "await"@[0] == 'a' && "await"@[1] == 'w' && "await"@[2] == 'a' && "await"@[3] == 'i' && "await"@[4] == 't');
    reveal_strlit("await_"); assert("await_"@.len() == 6 && "await_"@[0] == 'a' && "await_"@[1] == 'w' && "await_"@[2] == 'a' && "await_"@[3] == 'i' && "await_"@[4] == 't' && "await_"@[5] == '_');
    reveal_strlit("become"); assert("become"@.len() == 6 && "become"@[0] == 'b' && "become"@[1] == 'e' && "become"@[2] == 'c' && "become"@[3] == 'o' && "become"@[4] == 'm' && "become"@[5] == 'e');
    reveal_strlit("become_"); assert("become_"@.len() == 7 && "become_"@[0] == 'b' && "become_"@[1] == 'e' && "become_"@[2] == 'c' && "become_"@[3] == 'o' && "become_"@[4] == 'm' && "become_"@[5] == 'e' && "become_"@[6] == '_');
    reveal_strlit("box"); assert("box"@.len() == 3 && "box"@[0] == 'b' && "box"@[1] == 'o' && "box"@[2] == 'x');
    reveal_strlit("box_"); assert("box_"@.len() == 4 && "box_"@[0] == 'b' && "box_"@[1] == 'o' && "box_"@[2] == 'x' && "box_"@[3] == '_');
    reveal_strlit("break"); assert("break"@.len() == 5 && "break"@[0] == 'b' && "break"@[1] == 'r' && "break"@[2] == 'e' && "break"@[3] == 'a' && "break"@[4] == 'k');
    reveal_strlit("break_"); assert("break_"@.len() == 6 && "break_"@[0] == 'b' && "break_"@[1] == 'r' && "break_"@[2] == 'e' && "break_"@[3] == 'a' && "break_"@[4] == 'k' && "break_"@[5] == '_');
    reveal_strlit("const"); assert("const"@.len() == 5 && "const"@[0] == 'c' && "const"@[1] == 'o' && "const"@[2] == 'n' && "const"@[3] == 's' && "const"@[4] == 't');
    reveal_strlit("const_"); assert("const_"@.len() == 6 && "const_"@[0] == 'c' && "const_"@[1] == 'o' && "const_"@[2] == 'n' && "const_"@[3] == 's' && "const_"@[4] == 't' && "const_"@[5] == '_');
    reveal_strlit("continue"); assert("continue"@.len() == 8 && "continue"@[0] == 'c' && "continue"@[1] == 'o' && "continue"@[2] == 'n' && "continue"@[3] == 't' && "continue"@[4] == 'i' && "continue"@[5] == 'n' && "continue"@[6] == 'u' && "continue"@[7] == 'e');
    reveal_strlit("continue_"); assert("continue_"@.len() == 9 && "continue_"@[0] == 'c' && "continue_"@[1] == 'o' && "continue_"@[2] == 'n' && "continue_"@[3] == 't' && "continue_"@[4] == 'i' && "continue_"@[5] == 'n' && "continue_"@[6] == 'u' && "continue_"@[7] == 'e' && "continue_"@[8] == '_');
    reveal_strlit("crate"); assert("crate"@.len() == 5 && "crate"@[0] == 'c' && "crate"@[1] == 'r' && "crate"@[2] == 'a' && "crate"@[3] == 't' && "crate"@[4] == 'e');
    reveal_strlit("crate_"); assert("crate_"@.len() == 6 && "crate_"@[0] == 'c' && "crate_"@[1] == 'r' && "crate_"@[2] == 'a' && "crate_"@[3] == 't' && "crate_"@[4] == 'e' && "crate_"@[5] == '_');
    reveal_strlit("do"); assert("do"@.len() == 2 && "do"@[0] == 'd' && "do"@[1] == 'o');
    reveal_strlit("do_"); assert("do_"@.len() == 3 && "do_"@[0] == 'd' && "do_"@[1] == 'o' && "do_"@[2] == '_');
    reveal_strlit("dyn"); assert("dyn"@.len() == 3 && "dyn"@[0] == 'd' && "dyn"@[1] == 'y' && "dyn"@[2] == 'n');
    reveal_strlit("dyn_"); assert("dyn_"@.len() == 4 && "dyn_"@[0] == 'd' && "dyn_"@[1] == 'y' && "dyn_"@[2] == 'n' && "dyn_"@[3] == '_');
    reveal_strlit("else"); assert("else"@.len() == 4 && "else"@[0] == 'e' && "else"@[1] == 'l' && "else"@[2] == 's' && "else"@[3] == 'e');
    reveal_strlit("else_"); assert("else_"@.len() == 5 && "else_"@[0] == 'e' && "else_"@[1] == 'l' && "else_"@[2] == 's' && "else_"@[3] == 'e' && "else_"@[4] == '_');
    reveal_strlit("enum"); assert("enum"@.len() == 4 && "enum"@[0] == 'e' && "enum"@[1] == 'n' && "enum"@[2] == 'u' && "enum"@[3] == 'm');
    reveal_strlit("enum_"); assert("enum_"@.len() == 5 && "enum_"@[0] == 'e' && "enum_"@[1] == 'n' && "enum_"@[2] == 'u' && "enum_"@[3] == 'm' && "enum_"@[4] == '_');
    reveal_strlit("extern"); assert("extern"@.len() == 6 && "extern"@[0] == 'e' && "extern"@[1] == 'x' && "extern"@[2] == 't' && "extern"@[3] == 'e' && "extern"@[4] == 'r' && "extern"@[5] == 'n');
    reveal_strlit("extern_"); assert("extern_"@.len() == 7 && "extern_"@[0] == 'e' && "extern_"@[1] == 'x' && "extern_"@[2] == 't' && "extern_"@[3] == 'e' && "extern_"@[4] == 'r' && "extern_"@[5] == 'n' && "extern_"@[6] == '_');
    reveal_strlit("false"); assert("false"@.len() == 5 && "false"@[0] == 'f' && "false"@[1] == 'a' && "false"@[2] == 'l' && "false"@[3] == 's' && "false"@[4] == 'e');
    reveal_strlit("false_"); assert("false_"@.len() == 6 && "false_"@[0] == 'f' && "false_"@[1] == 'a' && "false_"@[2] == 'l' && "false_"@[3] == 's' && "false_"@[4] == 'e' && "false_"@[5] == '_');
    reveal_strlit("final"); assert("final"@.len() == 5 && "final"@[0] == 'f' && "final"@[1] == 'i' && "final"@[2] == 'n' && "final"@[3] == 'a' && "final"@[4] == 'l');
    reveal_strlit("final_"); assert("final_"@.len() == 6 && "final_"@[0] == 'f' && "final_"@[1] == 'i' && "final_"@[2] == 'n' && "final_"@[3] == 'a' && "final_"@[4] == 'l' && "final_"@[5] == '_');
    reveal_strlit("fn"); assert("fn"@.len() == 2 && "fn"@[0] == 'f' && "fn"@[1] == 'n');
    reveal_strlit("fn_"); assert("fn_"@.len() == 3 && "fn_"@[0] == 'f' && "fn_"@[1] == 'n' && "fn_"@[2] == '_');
    reveal_strlit("for"); assert("for"@.len() == 3 && "for"@[0] == 'f' && "for"@[1] == 'o' && "for"@[2] == 'r');
    reveal_strlit("for_"); assert("for_"@.len() == 4 && "for_"@[0] == 'f' && "for_"@[1] == 'o' && "for_"@[2] == 'r' && "for_"@[3] == '_');
    reveal_strlit("if"); assert("if"@.len() == 2 && "if"@[0] == 'i' && "if"@[1] == 'f');
    reveal_strlit("if_"); assert("if_"@.len() == 3 && "if_"@[0] == 'i' && "if_"@[1] == 'f' && "if_"@[2] == '_');
    reveal_strlit("impl"); assert("impl"@.len() == 4 && "impl"@[0] == 'i' && "impl"@[1] == 'm' && "impl"@[2] == 'p' && "impl"@[3] == 'l');
    reveal_strlit("impl_"); assert("impl_"@.len() == 5 && "impl_"@[0] == 'i' && "impl_"@[1] == 'm' && "impl_"@[2] == 'p' && "impl_"@[3] == 'l' && "impl_"@[4] == '_');
    reveal_strlit("in"); assert("in"@.len() == 2 && "in"@[0] == 'i' && "in"@[1] == 'n');
    reveal_strlit("in_"); assert("in_"@.len() == 3 && "in_"@[0] == 'i' && "in_"@[1] == 'n' && "in_"@[2] == '_');
    reveal_strlit("let"); assert("let"@.len() == 3 && "let"@[0] == 'l' && "let"@[1] == 'e' && "let"@[2] == 't');
    reveal_strlit("let_"); assert("let_"@.len() == 4 && "let_"@[0] == 'l' && "let_"@[1] == 'e' && "let_"@[2] == 't' && "let_"@[3] == '_');
    reveal_strlit("loop"); assert("loop"@.len() == 4 && "loop"@[0] == 'l' && "loop"@[1] == 'o' && "loop"@[2] == 'o' && "loop"@[3] == 'p');
    reveal_strlit("loop_"); assert("loop_"@.len() == 5 && "loop_"@[0] == 'l' && "loop_"@[1] == 'o' && "loop_"@[2] == 'o' && "loop_"@[3] == 'p' && "loop_"@[4] == '_');
    reveal_strlit("macro"); assert("macro"@.len() == 5 && "macro"@[0] == 'm' && "macro"@[1] == 'a' && "macro"@[2] == 'c' && "macro"@[3] == 'r' && "macro"@[4] == 'o');
    reveal_strlit("macro_"); assert("macro_"@.len() == 6 && "macro_"@[0] == 'm' && "macro_"@[1] == 'a' && "macro_"@[2] == 'c' && "macro_"@[3] == 'r' && "macro_"@[4] == 'o' && "macro_"@[5] == '_');
    reveal_strlit("match"); assert("match"@.len() == 5 && "match"@[0] == 'm' && "match"@[1] == 'a' && "match"@[2] == 't' && "match"@[3] == 'c' && "match"@[4] == 'h');
    reveal_strlit("match_"); assert("match_"@.len() == 6 && "match_"@[0] == 'm' && "match_"@[1] == 'a' && "match_"@[2] == 't' && "match_"@[3] == 'c' && "match_"@[4] == 'h' && "match_"@[5] == '_');
    reveal_strlit("mod"); assert("mod"@.len() == 3 && "mod"@[0] == 'm' && "mod"@[1] == 'o' && "mod"@[2] == 'd');
    reveal_strlit("mod_"); assert("mod_"@.len() == 4 && "mod_"@[0] == 'm' && "mod_"@[1] == 'o' && "mod_"@[2] == 'd' && "mod_"@[3] == '_');
    reveal_strlit("move"); assert("move"@.len() == 4 && "move"@[0] == 'm' && "move"@[1] == 'o' && "move"@[2] == 'v' && "move"@[3] == 'e');
    reveal_strlit("move_"); assert("move_"@.len() == 5 && "move_"@[0] == 'm' && "move_"@[1] == 'o' && "move_"@[2] == 'v' && "move_"@[3] == 'e' && "move_"@[4] == '_');
    reveal_strlit("mut"); assert("mut"@.len() == 3 && "mut"@[0] == 'm' && "mut"@[1] == 'u' && "mut"@[2] == 't');
    reveal_strlit("mut_"); assert("mut_"@.len() == 4 && "mut_"@[0] == 'm' && "mut_"@[1] == 'u' && "mut_"@[2] == 't' && "mut_"@[3] == '_');
    reveal_strlit("override"); assert("override"@.len() == 8 && "override"@[0] == 'o' && "override"@[1] == 'v' && "override"@[2] == 'e' && "override"@[3] == 'r' && "override"@[4] == 'r' && "override"@[5] == 'i' && "override"@[6] == 'd' && "override"@[7] == 'e');
    reveal_strlit("override_"); assert("override_"@.len() == 9 && "override_"@[0] == 'o' && "override_"@[1] == 'v' && "override_"@[2] == 'e' && "override_"@[3] == 'r' && "override_"@[4] == 'r' && "override_"@[5] == 'i' && "override_"@[6] == 'd' && "override_"@[7] == 'e' && "override_"@[8] == '_');
    reveal_strlit("priv"); assert("priv"@.len() == 4 && "priv"@[0] == 'p' && "priv"@[1] == 'r' && "priv"@[2] == 'i' && "priv"@[3] == 'v');
    reveal_strlit("priv_"); assert("priv_"@.len() == 5 && "priv_"@[0] == 'p' && "priv_"@[1] == 'r' && "priv_"@[2] == 'i' && "priv_"@[3] == 'v' && "priv_"@[4] == '_');
    reveal_strlit("pub"); assert("pub"@.len() == 3 && "pub"@[0] == 'p' && "pub"@[1] == 'u' && "pub"@[2] == 'b');
    reveal_strlit("pub_"); assert("pub_"@.len() == 4 && "pub_"@[0] == 'p' && "pub_"@[1] == 'u' && "pub_"@[2] == 'b' && "pub_"@[3] == '_');
    reveal_strlit("ref"); assert("ref"@.len() == 3 && "ref"@[0] == 'r' && "ref"@[1] == 'e' && "ref"@[2] == 'f');
    reveal_strlit("ref_"); assert("ref_"@.len() == 4 && "ref_"@[0] == 'r' && "ref_"@[1] == 'e' && "ref_"@[2] == 'f' && "ref_"@[3] == '_');
    reveal_strlit("return"); assert("return"@.len() == 6 && "return"@[0] == 'r' && "return"@[1] == 'e' && "return"@[2] == 't' && "return"@[3] == 'u' && "return"@[4] == 'r' && "return"@[5] == 'n');
    reveal_strlit("return_"); assert("return_"@.len() == 7 && "return_"@[0] == 'r' && "return_"@[1] == 'e' && "return_"@[2] == 't' && "return_"@[3] == 'u' && "return_"@[4] == 'r' && "return_"@[5] == 'n' && "return_"@[6] == '_');
    reveal_strlit("self"); assert("self"@.len() == 4 && "self"@[0] == 's' && "self"@[1] == 'e' && "self"@[2] == 'l' && "self"@[3] == 'f');
    reveal_strlit("self_"); assert("self_"@.len() == 5 && "self_"@[0] == 's' && "self_"@[1] == 'e' && "self_"@[2] == 'l' && "self_"@[3] == 'f' && "self_"@[4] == '_');
    reveal_strlit("static"); assert("static"@.len() == 6 && "static"@[0] == 's' && "static"@[1] == 't' && "static"@[2] == 'a' && "static"@[3] == 't' && "static"@[4] == 'i' && "static"@[5] == 'c');
    reveal_strlit("static_"); assert("static_"@.len() == 7 && "static_"@[0] == 's' && "static_"@[1] == 't' && "static_"@[2] == 'a' && "static_"@[3] == 't' && "static_"@[4] == 'i' && "static_"@[5] == 'c' && "static_"@[6] == '_');
    reveal_strlit("struct"); assert("struct"@.len() == 6 && "struct"@[0] == 's' && "struct"@[1] == 't' && "struct"@[2] == 'r' && "struct"@[3] == 'u' && "struct"@[4] == 'c' && "struct"@[5] == 't');
    reveal_strlit("struct_"); assert("struct_"@.len() == 7 && "struct_"@[0] == 's' && "struct_"@[1] == 't' && "struct_"@[2] == 'r' && "struct_"@[3] == 'u' && "struct_"@[4] == 'c' && "struct_"@[5] == 't' && "struct_"@[6] == '_');
    reveal_strlit("super"); assert("super"@.len() == 5 && "super"@[0] == 's' && "super"@[1] == 'u' && "super"@[2] == 'p' && "super"@[3] == 'e' && "super"@[4] == 'r');
    reveal_strlit("super_"); assert("super_"@.len() == 6 && "super_"@[0] == 's' && "super_"@[1] == 'u' && "super_"@[2] == 'p' && "super_"@[3] == 'e' && "super_"@[4] == 'r' && "super_"@[5] == '_');
    reveal_strlit("trait"); assert("trait"@.len() == 5 && "trait"@[0] == 't' && "trait"@[1] == 'r' && "trait"@[2] == 'a' && "trait"@[3] == 'i' && "trait"@[4] == 't');
    reveal_strlit("trait_"); assert("trait_"@.len() == 6 && "trait_"@[0] == 't' && "trait_"@[1] == 'r' && "trait_"@[2] == 'a' && "trait_"@[3] == 'i' && "trait_"@[4] == 't' && "trait_"@[5] == '_');
    reveal_strlit("true"); assert("true"@.len() == 4 && "true"@[0] == 't' && "true"@[1] == 'r' && "true"@[2] == 'u' && "true"@[3] == 'e');
    reveal_strlit("true_"); assert("true_"@.len() == 5 && "true_"@[0] == 't' && "true_"@[1] == 'r' && "true_"@[2] == 'u' && "true_"@[3] == 'e' && "true_"@[4] == '_');
    reveal_strlit("try"); assert("try"@.len() == 3 && "try"@[0] == 't' && "try"@[1] == 'r' && "try"@[2] == 'y');
    reveal_strlit("try_"); assert("try_"@.len() == 4 && "try_"@[0] == 't' && "try_"@[1] == 'r' && "try_"@[2] == 'y' && "try_"@[3] == '_');
    reveal_strlit("ty"); assert("ty"@.len() == 2 && "ty"@[0] == 't' && "ty"@[1] == 'y');
    reveal_strlit("type"); assert("type"@.len() == 4 && "type"@[0] == 't' && "type"@[1] == 'y' && "type"@[2] == 'p' && "type"@[3] == 'e');
    reveal_strlit("typeof"); assert("typeof"@.len() == 6 && "typeof"@[0] == 't' && "typeof"@[1] == 'y' && "typeof"@[2] == 'p' && "typeof"@[3] == 'e' && "typeof"@[4] == 'o' && "typeof"@[5] == 'f');
    reveal_strlit("typeof_"); assert("typeof_"@.len() == 7 && "typeof_"@[0] == 't' && "typeof_"@[1] == 'y' && "typeof_"@[2] == 'p' && "typeof_"@[3] == 'e' && "typeof_"@[4] == 'o' && "typeof_"@[5] == 'f' && "typeof_"@[6] == '_');
    reveal_strlit("unsafe"); assert("unsafe"@.len() == 6 && "unsafe"@[0] == 'u' && "unsafe"@[1] == 'n' && "unsafe"@[2] == 's' && "unsafe"@[3] == 'a' && "unsafe"@[4] == 'f' && "unsafe"@[5] == 'e');
    reveal_strlit("unsafe_"); assert("unsafe_"@.len() == 7 && "unsafe_"@[0] == 'u' && "unsafe_"@[1] == 'n' && "unsafe_"@[2] == 's' && "unsafe_"@[3] == 'a' && "unsafe_"@[4] == 'f' && "unsafe_"@[5] == 'e' && "unsafe_"@[6] == '_');
    reveal_strlit("unsized"); assert("unsized"@.len() == 7 && "unsized"@[0] == 'u' && "unsized"@[1] == 'n' && "unsized"@[2] == 's' && "unsized"@[3] == 'i' && "unsized"@[4] == 'z' && "unsized"@[5] == 'e' && "unsized"@[6] == 'd');
    reveal_strlit("unsized_"); assert("unsized_"@.len() == 8 && "unsized_"@[0] == 'u' && "unsized_"@[1] == 'n' && "unsized_"@[2] == 's' && "unsized_"@[3] == 'i' && "unsized_"@[4] == 'z' && "unsized_"@[5] == 'e' && "unsized_"@[6] == 'd' && "unsized_"@[7] == '_');
    reveal_strlit("use"); assert("use"@.len() == 3 && "use"@[0] == 'u' && "use"@[1] == 's' && "use"@[2] == 'e');
    reveal_strlit("use_"); assert("use_"@.len() == 4 && "use_"@[0] == 'u' && "use_"@[1] == 's' && "use_"@[2] == 'e' && "use_"@[3] == '_');
    reveal_strlit("virtual"); assert("virtual"@.len() == 7 && "virtual"@[0] == 'v' && "virtual"@[1] == 'i' && "virtual"@[2] == 'r' && "virtual"@[3] == 't' && "virtual"@[4] == 'u' && "virtual"@[5] == 'a' && "virtual"@[6] == 'l');
    reveal_strlit("virtual_"); assert("virtual_"@.len() == 8 && "virtual_"@[0] == 'v' && "virtual_"@[1] == 'i' && "virtual_"@[2] == 'r' && "virtual_"@[3] == 't' && "virtual_"@[4] == 'u' && "virtual_"@[5] == 'a' && "virtual_"@[6] == 'l' && "virtual_"@[7] == '_');
    reveal_strlit("where"); assert("where"@.len() == 5 && "where"@[0] == 'w' && "where"@[1] == 'h' && "where"@[2] == 'e' && "where"@[3] == 'r' && "where"@[4] == 'e');
    reveal_strlit("where_"); assert("where_"@.len() == 6 && "where_"@[0] == 'w' && "where_"@[1] == 'h' && "where_"@[2] == 'e' && "where_"@[3] == 'r' && "where_"@[4] == 'e' && "where_"@[5] == '_');
    reveal_strlit("while"); assert("while"@.len() == 5 && "while"@[0] == 'w' && "while"@[1] == 'h' && "while"@[2] == 'i' && "while"@[3] == 'l' && "while"@[4] == 'e');
    reveal_strlit("while_"); assert("while_"@.len() == 6 && "while_"@[0] == 'w' && "while_"@[1] == 'h' && "while_"@[2] == 'i' && "while_"@[3] == 'l' && "while_"@[4] == 'e' && "while_"@[5] == '_');
    reveal_strlit("yield"); assert("yield"@.len() == 5 && "yield"@[0] == 'y' && "yield"@[1] == 'i' && "yield"@[2] == 'e' && "yield"@[3] == 'l' && "yield"@[4] == 'd');
    reveal_strlit("yield_"); assert("yield_"@.len() == 6 && "yield_"@[0] == 'y' && "yield_"@[1] == 'i' && "yield_"@[2] == 'e' && "yield_"@[3] == 'l' && "yield_"@[4] == 'd' && "yield_"@[5] == '_');
}
// a replacement is never a keyword, and different keywords have different replacements
#[verifier::rlimit(60)]
pub proof fn prop_g06_replacements(a: Seq<char>, b: Seq<char>)
    requires kw_of(a) is Some,
    ensures kw_of(kw_of(a)->0) is None, kw_of(b) is Some && a != b ==> kw_of(a)->0 != kw_of(b)->0, fix(a) == kw_of(a)->0,
{
    kw_lits();
    assert("as_"@ =~= "as"@.push('_'));
    assert("async_"@ =~= "async"@.push('_'));
    assert("await_"@ =~= "await"@.push('_'));
    assert("break_"@ =~= "break"@.push('_'));
    assert("const_"@ =~= "const"@.push('_'));
    assert("continue_"@ =~= "continue"@.push('_'));
    assert("crate_"@ =~= "crate"@.push('_'));
    assert("dyn_"@ =~= "dyn"@.push('_'));
    assert("else_"@ =~= "else"@.push('_'));
    assert("enum_"@ =~= "enum"@.push('_'));
    assert("extern_"@ =~= "extern"@.push('_'));
    assert("false_"@ =~= "false"@.push('_'));
    assert("fn_"@ =~= "fn"@.push('_'));
    assert("for_"@ =~= "for"@.push('_'));
    assert("if_"@ =~= "if"@.push('_'));
    assert("impl_"@ =~= "impl"@.push('_'));
    assert("in_"@ =~= "in"@.push('_'));
    assert("let_"@ =~= "let"@.push('_'));
    assert("loop_"@ =~= "loop"@.push('_'));
    assert("match_"@ =~= "match"@.push('_'));
    assert("mod_"@ =~= "mod"@.push('_'));
    assert("move_"@ =~= "move"@.push('_'));
    assert("mut_"@ =~= "mut"@.push('_'));
    assert("pub_"@ =~= "pub"@.push('_'));
    assert("ref_"@ =~= "ref"@.push('_'));
    assert("return_"@ =~= "return"@.push('_'));
    assert("self_"@ =~= "self"@.push('_'));
    assert("Self_"@ =~= "Self"@.push('_'));
    assert("static_"@ =~= "static"@.push('_'));
    assert("struct_"@ =~= "struct"@.push('_'));
    assert("super_"@ =~= "super"@.push('_'));
    assert("trait_"@ =~= "trait"@.push('_'));
    assert("true_"@ =~= "true"@.push('_'));
    assert("unsafe_"@ =~= "unsafe"@.push('_'));
    assert("use_"@ =~= "use"@.push('_'));
    assert("where_"@ =~= "where"@.push('_'));
    assert("while_"@ =~= "while"@.push('_'));
    assert("abstract_"@ =~= "abstract"@.push('_'));
    assert("become_"@ =~= "become"@.push('_'));
    assert("box_"@ =~= "box"@.push('_'));
    assert("do_"@ =~= "do"@.push('_'));
    assert("final_"@ =~= "final"@.push('_'));
    assert("macro_"@ =~= "macro"@.push('_'));
    assert("override_"@ =~= "override"@.push('_'));
    assert("priv_"@ =~= "priv"@.push('_'));
    assert("try_"@ =~= "try"@.push('_'));
    assert("typeof_"@ =~= "typeof"@.push('_'));
    assert("unsized_"@ =~= "unsized"@.push('_'));
    assert("virtual_"@ =~= "virtual"@.push('_'));
    assert("yield_"@ =~= "yield"@.push('_'));
    assert(kw_of(a)->0 == a.push('_') || a == "type"@);
    assert(kw_of(b) is Some ==> kw_of(b)->0 == b.push('_') || b == "type"@);
    if kw_of(b) is Some && a != b && a != "type"@ && b != "type"@ { assert(a.push('_').drop_last() =~= a); assert(b.push('_').drop_last() =~= b); }
}
