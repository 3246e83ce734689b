C='butte-build/src/'
SPECS=[
dict(id='g01-wide-table',property='G01',kind='G',edits=[(C+'codegen.rs','''let offset_value = butte::field_index_to_field_offset(index as VOffsetT);''',
'''let offset_value = butte::field_index_to_field_offset((index as u8) as VOffsetT);''')],
 schema='table Wide {\n'+''.join('  f%d: ubyte;\n'%i for i in range(260))+'}\n',
 main='''#![allow(warnings)]
mod g { include!("gen.rs"); }
fn main() {
    let mut b = butte::FlatBufferBuilder::new();
    let mut a = g::WideArgs::default();
    a.f2 = 7; a.f3 = 11; a.f258 = 33; a.f259 = 44;
    let o = g::Wide::create(&mut b, &a);
    b.finish_minimal(o);
    let t = g::Wide::get_root(b.finished_data()).unwrap();
    assert_eq!((t.f2().unwrap(), t.f3().unwrap(), t.f258().unwrap(), t.f259().unwrap()), (Some(7), Some(11), Some(33), Some(44)));
}
''',needs='a table with more than 256 fields',breaks='slots wrap around after 256 fields, so later fields overwrite the first ones'),
dict(id='g01-enum-default-elided',property='G01',kind='G',edits=[(C+'codegen.rs','''                if let Some(default_value) = default_value {
                    let default_value = to_default_value(&arg_ty, default_value);
                    quote!(self.fbb.push_slot''','''                if let Some(default_value) = default_value {
                    let default_value = if ty.is_enum() {
                        quote!(<#arg_ty>::default())
                    } else {
                        to_default_value(&arg_ty, default_value).to_token_stream()
                    };
                    quote!(self.fbb.push_slot''')],
 schema='enum Color : byte { Red, Green, Blue }\ntable T { c: Color = Green; }\n',
 main='''#![allow(warnings)]
mod g { include!("gen.rs"); }
fn main() {
    for c in [g::Color::Red, g::Color::Green, g::Color::Blue] {
        let mut b = butte::FlatBufferBuilder::new();
        let o = g::T::create(&mut b, &g::TArgs { c });
        b.finish_minimal(o);
        assert_eq!(g::T::get_root(b.finished_data()).unwrap().c().unwrap(), Some(c));
    }
}
''',needs='an enum field whose schema default is not the first variant, written with the first variant',breaks='the value is elided when it equals the enum\'s first variant instead of the schema default, and then reads as the default'),
dict(id='g02-follow-unsigned',property='G03',kind='G',edits=[(C+'codegen.rs','''            ir::EnumBaseType::UInt16 => quote!(u16),''','''            ir::EnumBaseType::UInt16 => quote!(u32),''')],
 schema='enum E : uint16 { A, B = 300 }\ntable T { e: E = B; v: [E]; }\n',
 main='''#![allow(warnings)]
mod g { include!("gen.rs"); }
fn main() {
    let mut b = butte::FlatBufferBuilder::new();
    let v = b.create_vector(&[g::E::A, g::E::B, g::E::A]);
    let o = g::T::create(&mut b, &g::TArgs { e: g::E::A, v: Some(v) });
    b.finish_minimal(o);
    assert_eq!(std::mem::size_of::<g::E>(), 2);
    assert_eq!(<g::E as butte::Push>::size(), 2);
}
''',needs='an enum declared over uint16 (not ushort)',breaks='an enum over uint16 is stored in four bytes; it round-trips within the library but is not the declared wire type'),
dict(id='g04-relative-first',property='G04',kind='G',edits=[(C+'ir/transform.rs','''            ir::QualifiedIdent::from(qualified_ident.clone())
        }''','''            // look below the current namespace first
            let ident = ir::QualifiedIdent::from(qualified_ident.clone());
            let nested = self.make_fully_qualified_ident_relative(ident.clone());
            if self.types.contains_key(&nested) {
                nested
            } else {
                ident
            }
        }''')],
 schema='namespace a; table X { one: int; }\nnamespace b.a; table X { two: int; }\nnamespace b; table T { x: a.X; }\n',
 main='''#![allow(warnings)]
mod g { include!("gen.rs"); }
fn main() {
    let mut b = butte::FlatBufferBuilder::new();
    let x = g::a::X::create(&mut b, &g::a::XArgs { one: 5 });
    let o = g::b::T::create(&mut b, &g::b::TArgs { x: Some(x) });
    b.finish_minimal(o);
    assert_eq!(g::b::T::get_root(b.finished_data()).unwrap().x().unwrap().unwrap().one().unwrap(), Some(5));
}
''',needs='a qualified name that is both a full path and, prefixed with the current namespace, another item declared earlier',breaks='a qualified name denotes the item below the current namespace instead of the one with that full path'),
dict(id='g04-relative-tail',property='G04',kind='G',edits=[(C+'ir/types.rs','''                .zip(ns.parts.iter())
                .take_while(|(a, b)| a == b)
                .count();''','''                .zip(ns.parts.iter())
                .filter(|(a, b)| a == b)
                .count();''')],
 schema='namespace p.x; table A { v: int; }\nnamespace q.x; table Bb { a: p.x.A; }\n',
 main='''#![allow(warnings)]
mod g { include!("gen.rs"); }
fn main() {
    let mut b = butte::FlatBufferBuilder::new();
    let x = g::p::x::A::create(&mut b, &g::p::x::AArgs { v: 5 });
    let o = g::q::x::Bb::create(&mut b, &g::q::x::BbArgs { a: Some(x) });
    b.finish_minimal(o);
    assert_eq!(g::q::x::Bb::get_root(b.finished_data()).unwrap().a().unwrap().unwrap().v().unwrap(), Some(5));
}
''',needs='two namespaces that differ in an outer part and agree in an inner one',breaks='the emitted path takes too few super steps and leads nowhere'),
dict(id='g05-float-exponent',property='G05',kind='G',edits=[(C+'ast/parser.rs','''    ));
    map_res(parser, FloatingConstant::from_str)(input)''','''    ));
    map_res(parser, |text: &str| match text.find(|c| c == 'e' || c == 'E') {
        // scale the mantissa by the exponent
        Some(pos) => FloatingConstant::from_str(&text[..pos]).map(|mantissa| {
            mantissa * (10 as FloatingConstant).powi(text[pos + 1..].parse().unwrap_or(i32::max_value()))
        }),
        None => FloatingConstant::from_str(text),
    })(input)''')],
 schema='table T { a: double = 1e23; b: double = 5e-324; c: double = 2.2250738585072014e-308; d: double = 1.5e3; }\n',
 main='''#![allow(warnings)]
mod g { include!("gen.rs"); }
fn main() {
    let a = g::TArgs::default();
    assert_eq!((a.a, a.b, a.c, a.d), (1e23, 5e-324, 2.2250738585072014e-308, 1500.0));
}
''',needs='a floating default with an exponent large enough that scaling the mantissa rounds',breaks='such defaults are off by one unit in the last place, and tiny ones become zero'),
dict(id='g05-hex-wide',property='G05',kind='G',edits=[(C+'ast/parser.rs',"""            let int_const = IntegerConstant::from_str_radix(value, 16)?;
            if let""","""            let int_const = IntegerConstant::from(i64::from_str_radix(value, 16)?);
            if let""")],
 schema='enum E : ulong { A = 0x8000000000000000, B }\ntable T { a: ulong = 0xFFFFFFFFFFFFFFFF; }\n',
 main="""#![allow(warnings)]
mod g { include!("gen.rs"); }
fn main() {
    assert_eq!(g::TArgs::default().a, u64::MAX);
    let a: u64 = g::E::A.into();
    assert_eq!(a, 1 << 63);
}
""",needs='a hexadecimal ulong literal of 2^63 or more',breaks='hexadecimal literals above i64::MAX are rejected'),
dict(id='g06-snake-keyword',property='G06',kind='G',edits=[(C+'ir/keywords.rs','''        "final" => "final_",''','''        "final" => "finally",''')],
 schema='table T { final: int; finally: short; }\n',
 main='''#![allow(warnings)]
mod g { include!("gen.rs"); }
fn main() {
    let mut b = butte::FlatBufferBuilder::new();
    let o = g::T::create(&mut b, &g::TArgs { final_: 3, finally: 4 });
    b.finish_minimal(o);
    assert_eq!(g::T::get_root(b.finished_data()).unwrap().final_().unwrap(), Some(3));
}
''',needs='the reserved word final as an identifier',breaks='the replacement for final is an ordinary identifier a schema may use itself'),
]
REC='''#![allow(warnings)]
use std::sync::{Arc, Mutex};
struct Rec(Arc<Mutex<Vec<String>>>);
impl butte_build::codegen::RpcGenerator for Rec {
    fn generate<'a>(&mut self, rpc: &butte_build::ir::types::Rpc<'a>, _: &mut proc_macro2::TokenStream) {
        let p = |q: &butte_build::ir::types::QualifiedIdent| q.parts.iter().map(|x| x.as_ref().to_string()).collect::<Vec<_>>().join(".");
        for m in &rpc.methods {
            self.0.lock().unwrap().push(format!("{} {} {} {} {:?}", p(&rpc.ident), m.ident.as_ref(), p(&m.request_type), p(&m.response_type), m.metadata.streaming));
        }
    }
}
struct Out;
impl std::io::Write for Out {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn services(fbs: &str) -> Result<Vec<String>, String> {
    let r = Arc::new(Mutex::new(Vec::new()));
    let s = fbs.to_string().into_bytes();
    butte_build::compile_fbs_generic(true, Some(Box::new(Rec(r.clone()))), Box::new(std::io::Cursor::new(s)), Box::new(Out)).map_err(|e| e.to_string())?;
    let v = r.lock().unwrap().clone();
    Ok(v)
}
'''
SPECS+=[
dict(id='g08-response-unchecked',property='G08',kind='B',edits=[(C+'ir/transform.rs','''            if !self.new_root_ident(&request_type)? || !self.new_root_ident(&response_type)? {''','''            if !self.new_root_ident(&request_type)? || !self.new_root_ident(&response_type).unwrap_or(true) {''')],
 main=REC+'''
fn main() {
    assert_eq!(services("table A { x: int; } table B1 { x: int; } rpc_service S { Do(A):B1; }").unwrap(), ["S Do A B1 None"]);
    assert!(services("table A { x: int; } enum E : byte { V } rpc_service S { Do(A):E; }").is_err());
}
''',needs='a method whose response type is an enum or union',breaks='a response type that is not a table is accepted'),
dict(id='g08-mode-of-first',property='G08',kind='B',edits=[(C+'ir/transform.rs','''        let mut methods = Vec::new();

        for m in &rpc.methods {''','''        let mut methods: Vec<ir::RpcMethod<'a>> = Vec::new();

        for m in &rpc.methods {'''),(C+'ir/transform.rs','''                None => ir::RpcStreaming::None,
            };
            let metadata = ir::RpcMethodMetadata { streaming };''','''                // overloads of a method share its mode
                None => methods
                    .iter()
                    .find(|other| other.snake_ident == snake_ident)
                    .map_or(ir::RpcStreaming::None, |other| other.metadata.streaming),
            };
            let metadata = ir::RpcMethodMetadata { streaming };''')],
 main=REC+'''
fn main() {
    let v = services(r#"table A { x: int; } rpc_service S { GetAll(A):A(streaming:"server"); Get_All(A):A; other(A):A; }"#).unwrap();
    assert_eq!(v, ["S GetAll A A Server", "S Get_All A A None", "S other A A None"]);
}
''',needs='two methods whose names agree in snake case, the first of them streaming and the second not',breaks='the second method takes over the streaming mode of the first'),
dict(id='g08-nested-services',property='G08',kind='B',edits=[(C+'codegen.rs','''                    self.node_to_tokens(node, rpc_gen, &mut nodes_ts);''','''                    // the generator stays with the module at hand
                    let mut rpc_gen = if node.is_namespace() { None } else { rpc_gen.take() };
                    self.node_to_tokens(node, &mut rpc_gen, &mut nodes_ts);''')],
 main=REC+'''
fn main() {
    let v = services("namespace a; table A { x: int; } rpc_service S { Do(A):A; } namespace a.b; table B1 { y: int; } rpc_service T { Do(B1):B1; }").unwrap();
    assert_eq!(v.len(), 2, "{:?}", v);
}
''',needs='services in a namespace nested in another, or after another item in their namespace',breaks='such services never reach the generator'),
dict(id='g05-hex-exponent-plus',property='G05',kind='G',edits=[(C+'ast/parser.rs',"""        one_of("pP"),
        terminated(opt(plus_or_minus), digit1),""","""        one_of("pP"),
        terminated(opt(char('-')), digit1),""")],
 schema='table T { a: double = 0x1.8p3; b: double = 0x1.8p-3; c: double = 0x1.8p+3; d: double = -0X.8P+10; }\n',
 main="""#![allow(warnings)]
mod g { include!("gen.rs"); }
fn main() {
    let a = g::TArgs::default();
    assert_eq!((a.a, a.b, a.c, a.d), (12.0, 0.1875, 12.0, -512.0));
}
""",needs='a hexadecimal floating default whose exponent has an explicit plus sign',breaks='such literals are rejected'),
dict(id='g04-dot-comment',property='G04',kind='G',edits=[(C+'ast/parser.rs',"""            delimited(comment_or_space0, tag("."), comment_or_space0),
            ident,""","""            delimited(comment_or_space0, tag("."), opt(multispace1)),
            ident,""")],
 schema='namespace a.b;\ntable X { x: int; }\nnamespace c;\ntable T { p: a.b.X; q: a . b // the module\n . X; r: a. // outer\n b.X; }\n',
 main="""#![allow(warnings)]
mod g { include!("gen.rs"); }
fn main() {
    let mut b = butte::FlatBufferBuilder::new();
    let x = g::a::b::X::create(&mut b, &g::a::b::XArgs { x: 7 });
    let o = g::c::T::create(&mut b, &g::c::TArgs { p: Some(x), q: Some(x), r: Some(x) });
    b.finish_minimal(o);
    let t = g::c::T::get_root(b.finished_data()).unwrap();
    assert_eq!(t.r().unwrap().unwrap().x().unwrap(), Some(7));
}
""",needs='a comment behind a dot of a qualified name',breaks='such a name does not parse'),
]
