pub mod accept;
pub mod cli;
pub mod driver;
pub mod gener;
pub mod lex;
pub mod own;
pub mod reuse;
pub mod toks;

use crate::ctx::Ctx;
use crate::rt::ModFn;

/// Monitors that run inside the compiled executables.
pub fn run_compiled(ctx: &mut Ctx, mods: &[(u64, u32, ModFn)]) {
    match ctx.o.prop.as_str() {
        "C10" | "C11" | "C12" | "C13" | "C16" | "C17" | "C23" | "C25" => gener::run(ctx, mods),
        "C15" => toks::run(ctx, mods),
        "C26" => reuse::run(ctx, mods),
        "C20" => accept::c20_light(ctx),
        p => panic!("no compiled monitors for {p}"),
    }
}
