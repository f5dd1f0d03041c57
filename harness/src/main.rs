use vh::ctx::{Ctx, Opts, install_panic_hook};
use vh::props::*;

fn main() {
    install_panic_hook();
    if accept::oneshot() || own::serve() {
        return;
    }
    let mut ctx = Ctx::new(Opts::parse());
    match ctx.o.prop.as_str() {
        "C01" => lex::c01(&mut ctx),
        "C02" => lex::c02(&mut ctx),
        "C03" => lex::c03(&mut ctx),
        "C04" => lex::c04(&mut ctx),
        "C05" => lex::c05(&mut ctx),
        "C06" => driver::c06(&mut ctx),
        "C07" => driver::c07(&mut ctx),
        "C08" => driver::c08(&mut ctx),
        "C09" => driver::c09(&mut ctx),
        "C10" | "C11" | "C12" | "C13" | "C16" | "C17" | "C23" | "C25" => gener::generate_phase(&mut ctx),
        "C15" => toks::generate_phase(&mut ctx),
        "C26" => reuse::generate_phase(&mut ctx),
        "C14" => accept::c14(&mut ctx),
        "C18" => accept::c18(&mut ctx),
        "C19" => accept::c19(&mut ctx),
        "C20" => accept::c20(&mut ctx),
        "C21" => accept::c21(&mut ctx),
        "C22" => cli::c22(&mut ctx),
        "C24" => own::c24(&mut ctx),
        p => panic!("no such property {p}"),
    }
    ctx.finish();
}
