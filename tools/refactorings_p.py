"""Edits of butte-build/src/ast/parser.rs against the parser's contracts: M break the behaviour (an obligation must fail),
K keep it (proved or undecided, never failed).  tools/refactorings_p.py [name ...]"""
import os,sys,shutil,tempfile
sys.path.insert(0,'/verif/px'); import pxrun
T=[]
def m(n,a,b): T.append(('M',n,a,b))
def k(n,a,b): T.append(('K',n,a,b))
m('hex-lower',"preceded(zero, preceded(one_of(\"xX\"), hex_digit1)),","preceded(zero, preceded(one_of(\"x\"), hex_digit1)),")
m('neg-hex',"if let Some('-') = sign {\n                int_const","if let Some('+') = sign {\n                int_const")
m('radix',"from_str_radix(value, 16)","from_str_radix(value, 32)")
m('alnum',"take_while(|c: char| c.is_alphanumeric() || c == '_'),","take_while(|c: char| c.is_ascii_alphanumeric() || c == '_'),")
m('type-swap','value(Type::Int16, type_name("int16"))','value(Type::UInt16, type_name("int16"))')
m('type-missing','            value(Type::UInt8, type_name("uint8")),\n','')
m('exp-sign','recognize(tuple((one_of("eE"), opt(plus_or_minus), digit1)))(input)','recognize(tuple((one_of("eE"), opt(char(\'-\')), digit1)))(input)')
m('rpc-swap','.request_type(request_type)\n                .response_type(response_type)','.request_type(response_type)\n                .response_type(request_type)')
m('sep-comma-opt','opt(tuple((comment_or_space0, comma, comment_or_space0))),','opt(tuple((comment_or_space0, semicolon, comment_or_space0))),')
m('meta-drop','.metadata(metadata)\n                .doc(comment)','.metadata(None)\n                .doc(comment)')
m('doc-drop','Rpc::builder()\n                .doc(comment)','Rpc::builder()')
m('comment-slash','tuple((tag("//"), not(tag("/")), not_line_ending))','tuple((tag("//"), not_line_ending))')
m('fields-many1','many0(delimited(comment_or_space0, field_decl, comment_or_space0)),\n            terminated','many1(delimited(comment_or_space0, field_decl, comment_or_space0)),\n            terminated')
m('scalar-order','map(float_constant, Scalar::from),\n        map(integer_constant, Scalar::from),','map(integer_constant, Scalar::from),\n        map(float_constant, Scalar::from),')
m('neg-inf','std::f64::NEG_INFINITY\n','std::f64::INFINITY\n')
m('int-order','alt((hex_integer_constant, dec_integer_constant))','alt((dec_integer_constant, hex_integer_constant))')
m('word-true','nom::re_match!(input, r"^true\\b")?;','nom::re_match!(input, r"^tru\\b")?;')
m('qual-space','delimited(comment_or_space0, tag("."), comment_or_space0),\n            ident','tag("."),\n            ident')
m('more-dot',"c.is_alphanumeric() || c == '_' || c == '.'","c.is_alphanumeric() || c == '_'")
m('float-digits','terminated(digit1, terminated(period, digit0)),','terminated(digit1, terminated(period, digit1)),')
k('noop','    alt((hex_integer_constant, dec_integer_constant))(input)','    let _ = ();\n    alt((hex_integer_constant, dec_integer_constant))(input)')
k('direct','    alt((true_, false_))(input)','    match true_(input) {\n        Ok(found) => Ok(found),\n        Err(_) => false_(input),\n    }')
k('direct2','    alt((true_, false_))(input)','    let i = true_(input);\n    match i {\n        Ok((rest, flag)) => Ok((rest, flag)),\n        Err(_) => false_(input),\n    }')
k('early','    alt((true_, false_))(input)','    if let Ok(found) = true_(input) {\n        return Ok(found);\n    }\n    false_(input)')
k('question','    map(doc_comment_lines, Comment::from)(input)','    let (rest, lines) = doc_comment_lines(input)?;\n    Ok((rest, Comment::from(lines)))')
k('inline-colon','delimited(comment_or_space0, colon, comment_or_space0),\n                terminated(','delimited(comment_or_space0, char(\':\'), comment_or_space0),\n                terminated(')
k('helper','    value((), many0(comment_or_space))(input)','    skip_all(input)')
T[-1]=T[-1][:2]+(T[-1][2],T[-1][3]+'\n}\n\nfn skip_all(input: &str) -> IResult<&str, ()> {\n    map(many0(comment_or_space), |_| ())(input)')
k('nest','terminated(ident, tuple((comment_or_space0, colon, comment_or_space0))),','terminated(ident, delimited(comment_or_space0, colon, comment_or_space0)),')
k('type-order','            value(Type::Int, type_name("int")),\n            value(Type::UInt, type_name("uint")),\n            value(Type::Float, type_name("float")),','            value(Type::Float, type_name("float")),\n            value(Type::UInt, type_name("uint")),\n            value(Type::Int, type_name("int")),')
k('type-order2','            value(Type::Bool, type_name("bool")),\n            value(Type::Byte, type_name("byte")),','            value(Type::Int, type_name("int")),\n            value(Type::Byte, type_name("byte")),\n            value(Type::Bool, type_name("bool")),')
T[-1]=T[-1][:2]+(T[-1][2],T[-1][3])
k('one-of-order','one_of("-+")(input)','one_of("+-")(input)')
k('ident-pred','take_while(|c: char| c.is_alphanumeric() || c == \'_\'),','take_while(|c: char| c == \'_\' || c.is_alphanumeric()),')
k('ident-fn','take_while(|c: char| c.is_alphanumeric() || c == \'_\'),','take_while(is_name_char),')
T[-1]=('K2',)+T[-1][1:]
k('let-parser','    recognize(tuple((one_of("eE"), opt(plus_or_minus), digit1)))(input)','    let sign = opt(plus_or_minus);\n    let parser = tuple((one_of("eE"), sign, digit1));\n    recognize(parser)(input)')
k('match-sign',"            if let Some('-') = sign {\n                -value\n            } else {\n                value\n            }","            match sign {\n                Some('-') => -value,\n                _ => value,\n            }")
k('pair','tuple((\n                    ident,\n                    opt(preceded(','pair(\n                    ident,\n                    opt(preceded(')
T[-1]=('K3',)+T[-1][1:]
k('alt-split','        map(scalar, DefaultValue::from),\n        map(ident, DefaultValue::from),','        map(scalar, DefaultValue::Scalar),\n        map(ident, |id| DefaultValue::Ident(id)),')
k('bool-map','alt((\n        map(float_constant, Scalar::from),','alt((\n        map(float_constant, Scalar::Float),')
k('preceded-flat','preceded(colon, preceded(comment_or_space0, single)),','preceded(tuple((colon, comment_or_space0)), single),')
k('ws-inline','preceded(comment_or_space0, right_brace),\n    )(input)','preceded(many0(comment_or_space), right_brace),\n    )(input)')
k('namespace-struct','|(comment, path)| Namespace::from((path, comment)),','|(doc, ident)| Namespace { ident, doc },')
k('element-order','        map(table_decl, Element::from),\n        map(struct_decl, Element::from),','        map(struct_decl, Element::from),\n        map(table_decl, Element::from),')
k('swap-space','    alt((complete(comment), value((), complete(multispace1))))(input)','    alt((value((), multispace1), comment))(input)')
k('swap-attr','alt((ident, map(string_constant, Ident::from))),','alt((map(string_constant, Ident::from), ident)),')
k('swap-single','        map(scalar, Single::from),\n        map(string_constant, Single::from),','        map(string_constant, Single::from),\n        map(scalar, Single::from),')
k('swap-bool','    alt((true_, false_))(input)','    alt((false_, true_))(input)')
k('swap-float','        special_float_constant,\n        hex_float_constant,\n        dec_float_constant,','        hex_float_constant,\n        dec_float_constant,\n        special_float_constant,')
k('swap-special','    alt((nan, inf_or_infinity))(input)','    alt((inf_or_infinity, nan))(input)')
k('swap-scalar','        map(float_constant, Scalar::from),\n        map(integer_constant, Scalar::from),\n        map(boolean_constant, Scalar::from),','        map(boolean_constant, Scalar::from),\n        map(float_constant, Scalar::from),\n        map(integer_constant, Scalar::from),')
k('swap-elements','        map(namespace_decl, Element::from),\n        map(table_decl, Element::from),\n        map(struct_decl, Element::from),\n        map(enum_decl, Element::from),','        map(enum_decl, Element::from),\n        map(struct_decl, Element::from),\n        map(table_decl, Element::from),\n        map(namespace_decl, Element::from),')
if __name__=='__main__':
    s0=open('/repo/butte-build/src/ast/parser.rs').read()
    for kind,n,a,b in T:
        if sys.argv[1:] and n not in sys.argv[1:]: continue
        s=s0
        assert a in s,(n,a)
        s=s.replace(a,b,1)
        if kind=='K2': s+='\nfn is_name_char(c: char) -> bool {\n    c.is_alphanumeric() || c == \'_\'\n}\n'
        if n=='type-order2': s=s.replace('            value(Type::UInt, type_name("uint")),\n            value(Type::Float','            value(Type::UInt, type_name("uint")),\n            value(Type::Float',1).replace('            value(Type::Int, type_name("int")),\n            value(Type::UInt,','            value(Type::UInt,',1)
        if kind=='K3': s=s.replace('preceded(colon, preceded(comment_or_space0, single)),\n                    )),\n                )),','preceded(colon, preceded(comment_or_space0, single)),\n                    )),\n                ),',1)
        with tempfile.TemporaryDirectory() as t:
            d=t+'/butte-build/src/ast'; os.makedirs(d); shutil.copy('/repo/butte-build/src/ast/types.rs',d); open(d+'/parser.rs','w').write(s)
            r=pxrun.run(t,t,4)
            good=bool(r.failed) if kind=='M' else not r.failed
            print('ok ' if good else 'BAD',kind,n,'failed',sorted(r.failed),'undecided',r.undecided,'%.0fs'%r.wall,flush=True)
