//! The generators called in process.
use crate::ctx::guard;
use std::path::Path;

#[derive(Clone, Debug)]
pub struct Made {
    pub code: String,
    pub report: String,
}

#[derive(Clone, Debug)]
pub enum Outcome {
    Ok(Made),
    /// the specification did not parse
    Spec(String),
    TooMany(u32),
    Undefined(u32),
    Sr(u32, u32, String),
    Rr(u32, u32, String),
    Io(String),
    Panic(String, String),
}

impl Outcome {
    pub fn brief(&self) -> String {
        match self {
            Outcome::Ok(_) => "accepted".into(),
            Outcome::Spec(s) => format!("refused: {s}"),
            Outcome::TooMany(n) => format!("refused: {n} errors"),
            Outcome::Undefined(n) => format!("refused: {n} undefined symbols"),
            Outcome::Sr(f, e, _) => format!("refused: {f} shift/reduce conflicts, {e} expected"),
            Outcome::Rr(f, e, _) => format!("refused: {f} reduce/reduce conflicts, {e} expected"),
            Outcome::Io(e) => format!("i/o error {e}"),
            Outcome::Panic(l, m) => format!("panicked at {l}: {m}"),
        }
    }
    pub fn ok(self) -> Option<Made> {
        if let Outcome::Ok(m) = self { Some(m) } else { None }
    }
}

macro_rules! engine {
    ($lib:ident, $text:expr, $label:expr, $sr:expr, $rr:expr, $dir:expr) => {{
        let r = guard(|| {
            let spec = match $lib::grammar::Specification::new($text, $label) {
                Ok(s) => s,
                Err(e) => return Outcome::Spec(e.to_string()),
            };
            match $lib::grammar::Grammar::try_from((spec, $sr, $rr)) {
                Err($lib::grammar::Error::TooManyErrors(n)) => Outcome::TooMany(n),
                Err($lib::grammar::Error::UndefinedSymbols(n)) => Outcome::Undefined(n),
                Err($lib::grammar::Error::UnexpectedSRConflicts(a, b, s)) => Outcome::Sr(a, b, s),
                Err($lib::grammar::Error::UnexpectedRRConflicts(a, b, s)) => Outcome::Rr(a, b, s),
                Ok(g) => {
                    let (c, d) = ($dir.join("gen.rs"), $dir.join("gen.states"));
                    if let Err(e) = g.write_parser_code_to_file(&c) {
                        return Outcome::Io(e.to_string());
                    }
                    if let Err(e) = g.write_description(&d) {
                        return Outcome::Io(e.to_string());
                    }
                    match (std::fs::read_to_string(&c), std::fs::read_to_string(&d)) {
                        (Ok(code), Ok(report)) => Outcome::Ok(Made { code, report }),
                        (a, b) => Outcome::Io(format!("{:?} {:?}", a.err(), b.err())),
                    }
                }
            }
        });
        match r {
            Ok(o) => o,
            Err((l, m)) => Outcome::Panic(l, m),
        }
    }};
}

/// Generate a parser. `dir` must be private to the calling thread.
pub fn generate(aug: bool, text: &str, label: &str, ignore_sr: bool, ignore_rr: bool, dir: &Path) -> Outcome {
    if aug { engine!(alalr1_lib, text, label, ignore_sr, ignore_rr, dir) } else { engine!(lalr1_lib, text, label, ignore_sr, ignore_rr, dir) }
}

/// A scratch directory for this worker.
pub fn scratch(ctx: &crate::ctx::Ctx) -> std::path::PathBuf {
    let d = ctx.o.out.join(format!("scratch.{}.{}", ctx.o.phase, ctx.o.shard));
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}
