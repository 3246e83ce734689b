//! compile every DIR/*.fbs to DIR/*.rs; a failure leaves DIR/*.err
use std::io::Read;
struct Sink(std::sync::Arc<std::sync::Mutex<Vec<u8>>>);
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.lock().unwrap().extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
#[cfg(feature = "rpc")]
mod rec {
/// records the services it is given, and leaves a mark in the code where it was called
pub struct Recorder(pub std::sync::Arc<std::sync::Mutex<(usize, String)>>);
fn path(q: &butte_build::ir::types::QualifiedIdent) -> String {
    q.parts.iter().map(|x| x.as_ref().to_string()).collect::<Vec<_>>().join(".")
}
impl butte_build::codegen::RpcGenerator for Recorder {
    fn generate<'a>(&mut self, rpc: &butte_build::ir::types::Rpc<'a>, ts: &mut proc_macro2::TokenStream) {
        let mut g = self.0.lock().unwrap();
        let k = g.0;
        g.0 += 1;
        let doc = |c: &butte_build::ast::types::Comment| c.lines.iter().map(|l| l.trim().to_string()).collect::<Vec<_>>().join("\u{1f}");
        g.1 += &format!("S\t{}\t{}\n", path(&rpc.ident), doc(&rpc.doc));
        for m in &rpc.methods {
            g.1 += &format!("M\t{}\t{}\t{}\t{}\t{:?}\t{}\n", m.ident.as_ref(), m.snake_ident.as_ref(), path(&m.request_type), path(&m.response_type), m.metadata.streaming, doc(&m.doc));
        }
        ts.extend(format!("pub const BUTTE_MARK_{}: () = ();", k).parse::<proc_macro2::TokenStream>().unwrap());
    }
}
    pub fn new(r: std::sync::Arc<std::sync::Mutex<(usize, String)>>) -> Option<Box<dyn butte_build::codegen::RpcGenerator>> { Some(Box::new(Recorder(r))) }
}
#[cfg(not(feature = "rpc"))]
mod rec {
    pub fn new(_: std::sync::Arc<std::sync::Mutex<(usize, String)>>) -> Option<Box<dyn butte_build::codegen::RpcGenerator>> { None }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for dir in std::env::args().skip(1) {
        for e in std::fs::read_dir(&dir).unwrap() {
            let p = e.unwrap().path();
            if p.extension().map_or(true, |x| x != "fbs") { continue; }
            let mut s = String::new();
            std::fs::File::open(&p).unwrap().read_to_string(&mut s).unwrap();
            let out = std::sync::Arc::new(std::sync::Mutex::new(Vec::new()));
            let o2 = out.clone();
            let rec = std::sync::Arc::new(std::sync::Mutex::new((0usize, String::new())));
            let r2 = rec.clone();
            let r = std::panic::catch_unwind(move || butte_build::compile_fbs_generic(true, rec::new(r2), Box::new(std::io::Cursor::new(s.into_bytes())), Box::new(Sink(o2))));
            let (ext, txt) = match r {
                Ok(Ok(())) => ("rs", out.lock().unwrap().clone()),
                Ok(Err(e)) => ("err", format!("error: {}", e).into_bytes()),
                Err(e) => ("err", format!("panic: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default()).into_bytes()),
            };
            std::fs::write(p.with_extension(ext), txt).unwrap();
            if cfg!(feature = "rpc") { std::fs::write(p.with_extension("rpc"), &rec.lock().unwrap_or_else(|e| e.into_inner()).1).unwrap(); }
        }
    }
}
