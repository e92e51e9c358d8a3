//! Wizer runs `_start` at compile time and snapshots the memory. The compiler treats a wizer error as
//! "keep the module as linked"; this stand-in always takes that path, and the host runs `_start` itself.
#[derive(Default)]
pub struct Wizer;
impl Wizer {
    pub fn new() -> Self { Wizer }
    pub fn init_func(&mut self, _name: &str) -> &mut Self { self }
    pub fn run(&self, _wasm: &[u8]) -> Result<Vec<u8>, String> { Err("not available offline".into()) }
}
