// Mirrors /repo/src/yul2ir/mod.rs without the modules that need inkwell.
use lalrpop_util::lalrpop_mod;
lalrpop_mod!(pub yul);

#[path = "../../repo/src/yul2ir/ast.rs"]
pub mod ast;
#[path = "../../repo/src/yul2ir/utils.rs"]
pub mod utils;
