//! Compiling generated parsers and running monitors over them in a separate executable.
use crate::ctx::{Ctx, Opts, install_panic_hook};
use crate::gram::Gram;
use crate::rt::ModFn;
use std::path::PathBuf;

pub struct Unit {
    pub case: u64,
    pub variant: u32,
    pub aug: bool,
    file: String,
}

pub struct Batch {
    dir: PathBuf,
    pub units: Vec<Unit>,
    next: usize,
}

impl Batch {
    pub fn new(ctx: &Ctx) -> Batch {
        let dir = ctx.o.out.join(format!("mods.{}", ctx.o.shard));
        std::fs::create_dir_all(&dir).expect("module directory");
        Batch { dir, units: vec![], next: 0 }
    }
    pub fn len(&self) -> usize {
        self.units.len()
    }
    pub fn is_empty(&self) -> bool {
        self.units.is_empty()
    }
    /// Add the code generated for `g`.
    pub fn add(&mut self, case: u64, variant: u32, aug: bool, g: &Gram, code: &str) {
        let file = format!("m{}.rs", self.next);
        self.next += 1;
        let mut terms: Vec<String> = vec!["AAEnd".into()];
        terms.extend(g.terms.iter().skip(1).map(|t| t.name.clone()));
        let mut nts: Vec<String> = vec!["AAStart".into()];
        if g.uses_error() {
            nts.push("AAError".into());
        }
        nts.extend(g.nts.iter().cloned());
        let f = |e: &str, v: &[String]| v.iter().map(|x| format!("{e}::{x}")).collect::<Vec<_>>().join(", ");
        let src = format!(
            "{code}\n\n// ---- added by the harness\npub fn vh_module() -> ::vh::rt::Module {{\n    ::vh::rt::{}::<::vh::rt::P, AATerminal, AANonTerminal>(vec![{}], vec![{}])\n}}\n",
            if aug { "aug" } else { "plain" },
            f("AATerminal", &terms),
            f("AANonTerminal", &nts)
        );
        std::fs::write(self.dir.join(&file), src).expect("module file");
        self.units.push(Unit { case, variant, aug, file });
    }
    fn write_main(&self) {
        let mut s = String::from("#![allow(warnings)]\n");
        for (i, u) in self.units.iter().enumerate() {
            s.push_str(&format!("#[path = \"{}\"] mod u{i};\n", u.file));
        }
        s.push_str("fn main() {\n    vh::compiled::main(&[\n");
        for (i, u) in self.units.iter().enumerate() {
            s.push_str(&format!("        ({}, {}, u{i}::vh_module as vh::rt::ModFn),\n", u.case, u.variant));
        }
        s.push_str("    ]);\n}\n");
        std::fs::write(self.dir.join("main.rs"), s).expect("main file");
    }
    /// Compile; units whose code does not compile are removed and returned with the compiler's complaint.
    pub fn compile(&mut self, ctx: &mut Ctx) -> Vec<(Unit, String)> {
        let mut bad = vec![];
        if std::env::var("VH_NOCOMPILE").is_ok() {
            self.write_main();
            return bad;
        }
        let rustc = std::env::var("VH_RUSTC").unwrap_or("rustc".into());
        for _ in 0..4 {
            if self.units.is_empty() {
                break;
            }
            self.write_main();
            let mut c = std::process::Command::new(&rustc);
            c.current_dir(&self.dir).args(["--edition", "2021", "--crate-name", "exe", "--crate-type", "bin", "-Cdebuginfo=0", "-Copt-level=0", "-Coverflow-checks=on", "--error-format=short", "-o", "exe", "main.rs"]);
            if let Ok(f) = std::env::var("VH_RUSTC_FLAGS") {
                c.args(f.split_whitespace());
            }
            c.arg("-L").arg(format!("dependency={}", std::env::var("VH_DEPS").unwrap_or_default()));
            for x in std::env::var("VH_EXTERNS").unwrap_or_default().split(';') {
                if ["lexan=", "lalr1=", "alalr1=", "lazy_static=", "vh="].iter().any(|p| x.starts_with(p)) {
                    c.arg("--extern").arg(x);
                }
            }
            let t0 = std::time::Instant::now();
            let o = c.output().expect("rustc");
            ctx.max("rustc_seconds", t0.elapsed().as_secs());
            if o.status.success() {
                ctx.count("compiled_parsers", self.units.len() as u64);
                return bad;
            }
            let err = String::from_utf8_lossy(&o.stderr).into_owned();
            let mut keep = vec![];
            let mut any = false;
            for u in self.units.drain(..) {
                let lines: Vec<&str> = err.lines().filter(|l| l.starts_with(&format!("{}:", u.file)) && l.contains("error")).collect();
                if lines.is_empty() {
                    keep.push(u);
                } else {
                    any = true;
                    let mut m = lines.join("\n");
                    m.truncate(crate::ctx::floor_boundary(&m, 1500));
                    bad.push((u, m));
                }
            }
            self.units = keep;
            if !any {
                let n = crate::ctx::floor_boundary(&err, 2000);
                ctx.notes.push(format!("HARNESS the batch does not compile: {}", &err[..n]));
                let _ = std::fs::remove_file(self.dir.join("exe"));
                return bad;
            }
        }
        bad
    }
}

/// Entry point of the compiled executables.
pub fn main(mods: &[(u64, u32, ModFn)]) {
    install_panic_hook();
    let mut ctx = Ctx::new(Opts::parse());
    crate::props::run_compiled(&mut ctx, mods);
    ctx.finish();
}

/// The modules of one case, by variant.
pub fn by_case(ctx: &Ctx, mods: &[(u64, u32, ModFn)]) -> Vec<(u64, Vec<(u32, ModFn)>)> {
    let mut v: Vec<(u64, Vec<(u32, ModFn)>)> = vec![];
    for (c, k, f) in mods {
        if ctx.o.only_case.is_some_and(|x| x != *c) {
            continue;
        }
        match v.iter_mut().find(|x| x.0 == *c) {
            Some(x) => x.1.push((*k, *f)),
            None => v.push((*c, vec![(*k, *f)])),
        }
    }
    v
}
