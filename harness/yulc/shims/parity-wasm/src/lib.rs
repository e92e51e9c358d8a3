//! Reads a wasm module into sections and lets the caller replace the initial value of globals,
//! which is the only edit the compiler makes. Every other byte is written back as it was read.
pub mod elements {
    #[derive(Clone, Debug, PartialEq)]
    pub enum Instruction { I32Const(i32), I64Const(i64), End, Raw(Vec<u8>) }
    #[derive(Clone, Debug, PartialEq)]
    pub struct InitExpr(pub Vec<Instruction>);
    impl InitExpr {
        pub fn new(v: Vec<Instruction>) -> Self { InitExpr(v) }
        pub fn code(&self) -> &[Instruction] { &self.0 }
    }
    #[derive(Clone, Debug)]
    pub struct GlobalEntry { pub(crate) ty: [u8; 2], pub(crate) init: InitExpr }
    impl GlobalEntry { pub fn init_expr_mut(&mut self) -> &mut InitExpr { &mut self.init } pub fn init_expr(&self) -> &InitExpr { &self.init } }
    #[derive(Clone, Debug, Default)]
    pub struct GlobalSection { pub(crate) entries: Vec<GlobalEntry> }
    impl GlobalSection { pub fn entries_mut(&mut self) -> &mut Vec<GlobalEntry> { &mut self.entries } pub fn entries(&self) -> &[GlobalEntry] { &self.entries } }
    #[derive(Clone, Debug)]
    pub(crate) enum Section { Raw(u8, Vec<u8>), Global(GlobalSection) }
    #[derive(Clone, Debug)]
    pub struct Module { pub(crate) sections: Vec<Section> }
    #[derive(Debug, Clone)]
    pub struct Error(pub String);
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
    impl Module {
        pub fn global_section_mut(&mut self) -> Option<&mut GlobalSection> { self.sections.iter_mut().find_map(|s| if let Section::Global(g) = s { Some(g) } else { None }) }
        pub fn global_section(&self) -> Option<&GlobalSection> { self.sections.iter().find_map(|s| if let Section::Global(g) = s { Some(g) } else { None }) }
    }
    pub(crate) fn uleb(b: &[u8], p: &mut usize) -> Result<u64, Error> {
        let (mut r, mut s) = (0u64, 0);
        loop { let x = *b.get(*p).ok_or(Error("unexpected end".into()))?; *p += 1; r |= ((x & 127) as u64) << s; s += 7; if x & 128 == 0 { return Ok(r) } }
    }
    pub(crate) fn put_uleb(o: &mut Vec<u8>, mut v: u64) { loop { let x = (v & 127) as u8; v >>= 7; if v == 0 { o.push(x); return } o.push(x | 128) } }
    pub(crate) fn put_sleb(o: &mut Vec<u8>, mut v: i64) { loop { let x = (v & 127) as u8; v >>= 7; if (v == 0 && x & 64 == 0) || (v == -1 && x & 64 != 0) { o.push(x); return } o.push(x | 128) } }
    pub(crate) fn globals(b: &[u8]) -> Result<GlobalSection, Error> {
        let mut p = 0;
        let n = uleb(b, &mut p)?;
        let mut g = GlobalSection::default();
        for _ in 0..n {
            let ty = [b[p], b[p + 1]];
            p += 2;
            let st = p;
            let init = match b[p] {
                0x41 => { p += 1; let (mut r, mut s) = (0i64, 0); loop { let x = b[p]; p += 1; r |= ((x & 127) as i64) << s; s += 7; if x & 128 == 0 { if s < 64 && x & 64 != 0 { r |= -1i64 << s } break } } Instruction::I32Const(r as i32) }
                0x42 | 0x23 => { p += 1; while b[p] & 128 != 0 { p += 1 } p += 1; Instruction::Raw(b[st..p].to_vec()) }
                x => return Err(Error(format!("global initialiser {:#x}", x))),
            };
            if b[p] != 0x0b { return Err(Error("long global initialiser".into())) }
            p += 1;
            g.entries.push(GlobalEntry { ty, init: InitExpr(vec![init, Instruction::End]) });
        }
        Ok(g)
    }
}
use elements::*;
pub mod builder {
    use super::elements::Module;
    pub struct ModuleBuilder(Option<Module>);
    pub fn module() -> ModuleBuilder { ModuleBuilder(None) }
    impl ModuleBuilder {
        pub fn with_module(self, m: Module) -> Self { ModuleBuilder(Some(m)) }
        pub fn build(self) -> Module { self.0.unwrap_or(Module { sections: vec![] }) }
    }
}
pub trait Deserialize: Sized { fn from_bytes(b: &[u8]) -> Result<Self, Error>; }
impl Deserialize for Module {
    fn from_bytes(b: &[u8]) -> Result<Self, Error> {
        if b.len() < 8 || &b[..8] != b"\0asm\x01\0\0\0" { return Err(Error("not a wasm module".into())) }
        let mut p = 8;
        let mut sections = vec![];
        while p < b.len() {
            let id = b[p];
            p += 1;
            let n = uleb(b, &mut p)? as usize;
            let body = b.get(p..p + n).ok_or(Error("short section".into()))?;
            p += n;
            sections.push(if id == 6 { Section::Global(globals(body)?) } else { Section::Raw(id, body.to_vec()) });
        }
        Ok(Module { sections })
    }
}
pub fn deserialize_buffer<T: Deserialize>(b: &[u8]) -> Result<T, Error> { T::from_bytes(b) }
pub fn serialize(m: Module) -> Result<Vec<u8>, Error> {
    let mut o = b"\0asm\x01\0\0\0".to_vec();
    for s in &m.sections {
        let (id, body) = match s {
            Section::Raw(id, b) => (*id, b.clone()),
            Section::Global(g) => {
                let mut b = vec![];
                put_uleb(&mut b, g.entries.len() as u64);
                for e in &g.entries {
                    b.extend(e.ty);
                    for i in &e.init.0 {
                        match i {
                            Instruction::I32Const(v) => { b.push(0x41); put_sleb(&mut b, *v as i64) }
                            Instruction::I64Const(v) => { b.push(0x42); put_sleb(&mut b, *v) }
                            Instruction::End => b.push(0x0b),
                            Instruction::Raw(r) => b.extend(r),
                        }
                    }
                }
                (6, b)
            }
        };
        o.push(id);
        put_uleb(&mut o, body.len() as u64);
        o.extend(body);
    }
    Ok(o)
}
