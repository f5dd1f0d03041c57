//! C24: the generators with the front ends they generate for themselves.
use super::accept::{self, Rich};
use crate::ctx::{Ctx, Opts};
use crate::genr::{Outcome, generate, scratch};
use crate::gram::{self, SpecStyle};
use crate::specref::SpecLang;
use std::io::{BufRead, BufReader, Read, Write};
use std::path::Path;

/// Everything observable about one generation.
fn observe(ctx: &mut Ctx, aug: bool, isr: bool, irr: bool, label: &str, text: &str, dir: &Path) -> String {
    ctx.stderr_since();
    let o = generate(aug, text, label, isr, irr, dir);
    let o = match o {
        // line numbers of generated sources may differ
        Outcome::Panic(_, m) => format!("panicked: {m}"),
        o => accept::outcome_text(&o),
    };
    format!("{o}\n#### standard error\n{}", ctx.stderr_since())
}

/// The other side: answers requests on standard input. Runs in an executable built with the regenerated front ends.
pub fn serve() -> bool {
    if std::env::var("VH_SERVE").is_err() {
        return false;
    }
    let mut ctx = Ctx::new(Opts::parse());
    let dir = scratch(&ctx);
    let mut i = BufReader::new(std::io::stdin());
    let mut o = std::io::stdout();
    loop {
        let mut head = String::new();
        if i.read_line(&mut head).unwrap_or(0) == 0 {
            return true;
        }
        let v: Vec<&str> = head.trim_end_matches('\n').splitn(5, '|').collect();
        let mut text = vec![0; v[3].parse().expect("length")];
        i.read_exact(&mut text).expect("request");
        let text = String::from_utf8(text).expect("text");
        let a = observe(&mut ctx, v[0] == "1", v[1] == "1", v[2] == "1", v[4], &text, &dir);
        o.write_all(format!("{}\n{a}", a.len()).as_bytes()).expect("answer");
        o.flush().expect("answer");
    }
}

struct Twin {
    p: std::process::Child,
    from: BufReader<std::process::ChildStdout>,
}
impl Twin {
    fn start(ctx: &Ctx) -> Twin {
        let exe = std::env::var("VH_TWIN").expect("VH_TWIN");
        let out = ctx.o.out.join(format!("twin.{}", ctx.o.shard));
        std::fs::create_dir_all(&out).expect("scratch");
        let err = out.join("stderr");
        let f = std::fs::OpenOptions::new().create(true).append(true).open(&err).expect("scratch");
        let mut p = std::process::Command::new(exe)
            .args(["--prop", "C24", "--out"])
            .arg(&out)
            .env("VH_SERVE", "1")
            .env("VH_STDERR", &err)
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .stderr(f)
            .spawn()
            .expect("twin");
        let from = BufReader::new(p.stdout.take().unwrap());
        Twin { p, from }
    }
    fn ask(&mut self, aug: bool, isr: bool, irr: bool, label: &str, text: &str) -> std::io::Result<String> {
        let i = self.p.stdin.as_mut().unwrap();
        i.write_all(format!("{}|{}|{}|{}|{label}\n{text}", aug as u8, isr as u8, irr as u8, text.len()).as_bytes())?;
        i.flush()?;
        let mut n = String::new();
        self.from.read_line(&mut n)?;
        let n: usize = n.trim().parse().map_err(|_| std::io::Error::other("the other process is gone"))?;
        let mut b = vec![0; n];
        self.from.read_exact(&mut b)?;
        Ok(String::from_utf8_lossy(&b).into_owned())
    }
}
impl Drop for Twin {
    fn drop(&mut self) {
        let _ = self.p.kill();
        let _ = self.p.wait();
    }
}

fn pieces(t: &str) -> Vec<String> {
    // words, single characters and white space of a text
    let mut v: Vec<String> = vec![];
    let class = |c: char| if c.is_alphanumeric() || c == '_' { 1 } else if c.is_whitespace() { 2 } else { 3 };
    for c in t.chars() {
        match v.last_mut() {
            Some(w) if class(c) < 3 && w.chars().last().is_some_and(|d| class(d) == class(c)) => w.push(c),
            _ => v.push(c.to_string()),
        }
    }
    v
}

pub fn c24(ctx: &mut Ctx) {
    ctx.rule = "specifications (valid, in all layouts, with conflicts, damaged, cut into injected files, the tools' own and the examples', whole and damaged) given to the generators with the front ends in the repository and to the same generators built with the front ends they generate from their own specifications: outcome, parser, report and messages must be the same byte by byte; non-trivial: a text of 10+ tokens".into();
    let dir = scratch(ctx);
    let langs = [SpecLang::new(false), SpecLang::new(true)];
    let own: Vec<(bool, String)> = std::env::var("VH_OWN").expect("VH_OWN").split(';').map(|p| (p.ends_with(".alaps"), std::fs::read_to_string(p).expect("specification"))).collect();
    let cut: Vec<(bool, Vec<String>)> = own.iter().map(|(a, t)| (*a, pieces(t))).collect();
    let mut twin = Twin::start(ctx);
    let max = if ctx.o.thorough() { 5_000_000 } else { 30_000 };
    for k in ctx.cases(max) {
        ctx.begin(k);
        let mut r = ctx.rng(k);
        let (mut aug, mut isr, mut irr) = (k / 8 % 2 == 1, r.chance(1, 4), r.chance(1, 4));
        let files = dir.join("files");
        let mut what = "written".to_string();
        let text = match k / 16 {
            0 => {
                // as they are
                let i = (k % 16) as usize;
                if i >= own.len() {
                    continue;
                }
                (isr, irr, aug) = (true, true, own[i].0);
                what = "one of the repository's own".into();
                own[i].1.clone()
            }
            n if n % 12 == 1 => {
                let (a, v) = r.pick(&cut);
                aug = *a;
                let mut v = v.clone();
                what = "one of the repository's own, damaged".into();
                for _ in 0..r.range(1, 2) {
                    let (i, j) = (r.below(v.len()), r.below(v.len()));
                    match r.below(4) {
                        0 => {
                            v.remove(i);
                        }
                        1 => v[i] = v[j].clone(),
                        2 => v.insert(i, v[j].clone()),
                        _ => v.truncate(i + 1),
                    }
                }
                v.concat()
            }
            _ => {
                let o = Rich { twice: r.chance(1, 2), odd: r.chance(1, 2), unreachable: true };
                let Some((mut g, _)) = accept::rich(&mut r, aug, o, 120) else { continue };
                match r.below(8) {
                    0..=3 => accept::spec_text(&mut r, &g, false),
                    4 => {
                        (g.sr, g.rr) = (None, None);
                        what = "written, with conflicts not declared".into();
                        accept::spec_text(&mut r, &g, false)
                    }
                    5 => {
                        std::fs::create_dir_all(&files).expect("scratch");
                        what = "cut into files".into();
                        let v = g.spec_tokens(&mut r, &SpecStyle { swap: true, split: true, names: 2 });
                        let (i, j) = (r.below(v.len()), r.below(v.len()));
                        let (i, j) = (i.min(j), i.max(j));
                        // mostly where injections are allowed
                        let decl = |x: &String| ["%token", "%skip", "%left", "%right", "%nonassoc", "%%"].contains(&x.as_str());
                        let i = v[i..].iter().position(decl).map_or(i, |n| i + n);
                        let j = v[j..].iter().position(decl).map_or(v.len(), |n| j + n).max(i);
                        let p = files.join("part.inc");
                        std::fs::write(&p, gram::layout(&mut r, &v[i..j])).expect("scratch");
                        let mut w = v[..i].to_vec();
                        w.extend(["%inject".to_string(), format!("\"{}\"", p.display()), ".".to_string()]);
                        w.extend_from_slice(&v[j..]);
                        gram::layout(&mut r, &w)
                    }
                    _ => {
                        let (t, w) = accept::damaged(&mut r, &langs[aug as usize], &g);
                        what = w;
                        t
                    }
                }
            }
        };
        let label = *r.pick(&["spec", "a/b.laps", "x y"]);
        ctx.desc(format!("{} generator, {what}, called {label:?}:\n{text}", accept::tool(aug)));
        ctx.eval();
        let here = observe(ctx, aug, isr, irr, label, &text, &dir);
        let there = match twin.ask(aug, isr, irr, label, &text) {
            Ok(t) => t,
            Err(e) => {
                ctx.violation("crash", format!("the generator with the regenerated front end died ({e}); the other: {}", &here[..crate::ctx::floor_boundary(&here, 300)]));
                twin = Twin::start(ctx);
                continue;
            }
        };
        let kind = here.split(|c: char| c == '\n' || c == ':').next().unwrap_or("").split(|c: char| c.is_ascii_digit()).next().unwrap_or("").trim().to_string();
        ctx.count(&format!("outcome {kind}"), 1);
        if text.len() > 40 {
            ctx.nontrivial(&format!("{aug} {text}"));
        }
        ctx.sample(|| format!("{what}\n{text}\n-> {kind}"));
        if here != there {
            ctx.violation("differs", format!("with the front end in the repository against the regenerated one, {}", accept::first_difference(&here, &there)));
        }
        if what == "cut into files" {
            std::fs::remove_dir_all(&files).ok();
        }
    }
}
