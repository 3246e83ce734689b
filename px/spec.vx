// helpers of the grammar
pub open spec fn cls_sign(c: char) -> bool { c == '+' || c == '-' }
pub open spec fn cls_initial(c: char) -> bool { c_alphabetic(c) || c == '_' }
pub open spec fn cls_name(c: char) -> bool { c_alphanumeric(c) || c == '_' }
pub open spec fn cls_more(c: char) -> bool { c_alphanumeric(c) || c == '_' || c == '.' }
pub open spec fn cls_ms(c: char) -> bool { c_ms(c) }
pub open spec fn cls_digit(c: char) -> bool { c_digit(c) }
pub open spec fn cls_hex(c: char) -> bool { c_hex(c) }
pub open spec fn cls_xX(c: char) -> bool { c == 'x' || c == 'X' }
pub open spec fn cls_eE(c: char) -> bool { c == 'e' || c == 'E' }
pub open spec fn cls_pP(c: char) -> bool { c == 'p' || c == 'P' }
pub open spec fn g_more(i: Tx) -> Rs<()> { if i.len() > 0 && cls_more(i[0]) { Ok((sk(i, 1), ())) } else { Err(()) } }
pub open spec fn g_wordc(i: Tx) -> Rs<()> { if i.len() > 0 && c_word(i[0]) { Ok((sk(i, 1), ())) } else { Err(()) } }
pub open spec fn g_line(i: Tx) -> Rs<Tx> { line(i) }
pub open spec fn g_line_ending(i: Tx) -> Rs<Tx> { line_ending(i) }
// an optional sign: is it a minus?
pub open spec fn g_sign(i: Tx) -> Rs<bool> { if i.len() > 0 && cls_sign(i[0]) { Ok((sk(i, 1), i[0] == '-')) } else { Ok((i, false)) } }
pub open spec fn signed(minus: bool, v: int) -> Result<int, ()> { let w = if minus { -v } else { v }; if in_range(w) { Ok(w) } else { Err(()) } }
// the text of a string literal: no bare quote; a backslash only before a quote or a backslash; not empty
pub open spec fn g_string_text(i: Tx) -> Rs<Tx> {
    escaped(|j: Tx| if j.len() > 0 && j[0] != '\\' && j[0] != '"' { Ok((sk(j, 1), j[0])) } else { Err(()) }, '\\',
            |j: Tx| if j.len() > 0 && (j[0] == '\\' || j[0] == '"') { Ok((sk(j, 1), j[0])) } else { Err(()) }, i)
}
pub open spec fn no_doc() -> Comment { Comment { lines: Seq::empty() } }
pub uninterp spec fn g_include_decl(i: Tx) -> Rs<Include>;
pub uninterp spec fn g_file_identifier_decl(i: Tx) -> Rs<FileIdentifier>;
pub uninterp spec fn g_object(i: Tx) -> Rs<Object>;
