//! C22: the command line tools and the files around them.
use super::accept::{self, Rich};
use crate::ctx::Ctx;
use crate::genr::{Outcome, generate, scratch};
use crate::gram;
use crate::rng::Rng;
use crate::specref::SpecLang;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{MetadataExt, PermissionsExt, chown, symlink};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};

const NOBODY: u32 = 65534;

#[derive(Clone, PartialEq, Eq, Debug)]
enum Entry {
    Dir(u32),
    Link(PathBuf),
    File { text: Vec<u8>, mode: u32, mtime: (i64, i64) },
}

fn snapshot(dir: &Path) -> BTreeMap<PathBuf, Entry> {
    let mut out = BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).expect("scratch").flatten() {
            let p = e.path();
            let m = std::fs::symlink_metadata(&p).expect("scratch");
            let x = if m.is_symlink() {
                Entry::Link(std::fs::read_link(&p).expect("link"))
            } else if m.is_dir() {
                todo.push(p.clone());
                Entry::Dir(m.mode())
            } else {
                Entry::File { text: std::fs::read(&p).expect("scratch"), mode: m.mode(), mtime: (m.mtime(), m.mtime_nsec()) }
            };
            out.insert(p, x);
        }
    }
    out
}

/// Where a path leads, whether or not it exists.
fn resolve(p: &Path) -> PathBuf {
    let mut p = p.to_path_buf();
    for _ in 0..8 {
        if let Ok(c) = std::fs::canonicalize(&p) {
            return c;
        }
        let (Some(d), Some(f)) = (p.parent(), p.file_name()) else { return p };
        let q = std::fs::canonicalize(d).unwrap_or(d.to_path_buf()).join(f);
        match std::fs::read_link(&q) {
            Ok(t) => p = q.parent().unwrap().join(t),
            Err(_) => return q,
        }
    }
    p
}

fn text_of(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

struct Tool {
    exe: PathBuf,
    so: PathBuf,
    nobody: bool,
}

struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    err: String,
    hang: bool,
    injected: Vec<String>,
    /// what it opened for writing, made, renamed or removed
    touched: Vec<PathBuf>,
}

fn run(t: &Tool, dir: &Path, args: &[OsString], fault: &Option<String>, fsize: Option<u64>) -> Ran {
    let beside = dir.parent().unwrap();
    let log = beside.join("log");
    let _ = std::fs::remove_file(&log);
    std::fs::write(&log, "").expect("scratch");
    std::fs::set_permissions(&log, std::fs::Permissions::from_mode(0o666)).expect("scratch");
    let mut c = std::process::Command::new(&t.exe);
    c.args(args).current_dir(dir).stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::piped()).env_remove("VH_STDERR").env_remove("RUST_BACKTRACE");
    if t.nobody {
        c.uid(NOBODY).gid(NOBODY);
    }
    c.env("LD_PRELOAD", &t.so).env("VH_FAULT_DIR", dir).env("VH_FAULT_LOG", &log);
    if let Some(f) = fault {
        c.env("VH_FAULT", f);
    }
    if let Some(n) = fsize {
        unsafe {
            c.pre_exec(move || {
                unsafe extern "C" {
                    fn setrlimit(what: i32, l: *const [u64; 2]) -> i32;
                    fn signal(n: i32, h: usize) -> usize;
                }
                // RLIMIT_FSIZE, SIGXFSZ, SIG_IGN
                setrlimit(1, &[n, n]);
                signal(25, 1);
                Ok(())
            });
        }
    }
    let mut p = c.spawn().expect("the tool starts");
    let mut pipe = p.stderr.take().unwrap();
    let err = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = std::io::Read::read_to_end(&mut pipe, &mut b);
        b
    });
    let t0 = std::time::Instant::now();
    let mut hang = false;
    let st = loop {
        if let Some(s) = p.try_wait().expect("wait") {
            break s;
        }
        if t0.elapsed().as_secs() > 100 {
            hang = true;
            let _ = p.kill();
        }
        std::thread::sleep(std::time::Duration::from_micros(300));
    };
    use std::os::unix::process::ExitStatusExt;
    let lines: Vec<String> = text_of(&std::fs::read(&log).unwrap_or_default()).lines().map(|x| x.to_string()).collect();
    Ran {
        code: st.code(),
        signal: st.signal(),
        err: text_of(&err.join().unwrap_or_default()),
        hang,
        injected: lines.iter().filter(|x| !x.starts_with("touch ")).cloned().collect(),
        touched: lines.iter().filter_map(|x| Some(dir.join(x.strip_prefix("touch ")?))).collect(),
    }
}

fn junk(r: &mut Rng, what: &str) -> Vec<u8> {
    // short, empty, or longer than any parser written here
    let n = *r.pick(&[0, 1, 40, 400_000]);
    format!("// {what} that was here before {}\n", r.next()).repeat(n / 40 + (n > 0) as usize).into_bytes()
}

pub fn c22(ctx: &mut Ctx) {
    ctx.rule = "runs of both binaries in scratch directories as an unprivileged user: option spellings, default and given outputs, existing, read-only, linked and aliased files, missing and unwritable directories, defective and unreadable specifications, file size limits and injected read, open and write failures, short and interrupted calls; judged by snapshots before and after, the exit status and the library's own output; non-trivial: the files involved could have been damaged (an output or description existed, or a fault struck)".into();
    let top = scratch(ctx);
    let langs = [SpecLang::new(false), SpecLang::new(true)];
    let cli = PathBuf::from(std::env::var("VH_CLI").expect("VH_CLI"));
    let so = PathBuf::from(std::env::var("VH_FAULT_SO").expect("VH_FAULT_SO"));
    let mut tools: Vec<Tool> = ["lalr1_gen", "alalr1_gen"].iter().map(|n| Tool { exe: cli.join(n), so: so.clone(), nobody: true }).collect();
    let probe = top.join("probe");
    std::fs::create_dir_all(&probe).expect("scratch");
    for t in tools.iter_mut() {
        let ok = std::process::Command::new(&t.exe).arg("--version").uid(NOBODY).gid(NOBODY).current_dir(&probe).output();
        if !ok.is_ok_and(|o| o.status.success()) {
            t.nobody = false;
            ctx.notes.push("the tools cannot be run as nobody here: no permission faults".into());
        }
    }
    let max = if ctx.o.thorough() { 2_000_000 } else { 16_000 };
    let mut again = 0;
    for k in ctx.cases(max) {
        ctx.begin(k);
        let mut r = ctx.rng(k);
        let mut touched = vec![];
        one(ctx, &mut r, k, &top, &tools, &langs, &[], &mut touched);
        // once more, with files of somebody else's where the tool left its traces
        if !touched.is_empty() && again < 400 {
            again += 1;
            ctx.count("runs_with_files_at_other_touched_paths", 1);
            let mut r = ctx.rng(k);
            one(ctx, &mut r, k, &top, &tools, &langs, &touched, &mut vec![]);
        }
    }
}

fn one(ctx: &mut Ctx, r: &mut Rng, k: u64, top: &Path, tools: &[Tool], langs: &[SpecLang; 2], extra: &[PathBuf], touched: &mut Vec<PathBuf>) {
    let aug = k / 8 % 2 == 1;
    let t = &tools[aug as usize];
    let lib = top.join("lib");
    let dir = top.join("run").join("cwd");
    let _ = std::fs::remove_dir_all(top.join("run"));
    for d in [&lib, &dir, &dir.join("sub"), &dir.join("a b"), &dir.join("full"), &dir.join("ro")] {
        std::fs::create_dir_all(d).expect("scratch");
    }
    // the specification
    let o = Rich { twice: true, odd: r.chance(1, 3), unreachable: true };
    let Some((mut g, auto)) = accept::rich(r, aug, o, 80) else { return };
    let mut isr = r.chance(1, 5);
    let mut irr = r.chance(1, 5);
    let mut what = "fine";
    if r.chance(1, 6) {
        (g.sr, g.rr) = (None, None);
        if auto.sr_count() + auto.rr_count() > 0 {
            what = "undeclared conflicts";
            if r.chance(1, 2) {
                (isr, irr) = (r.chance(2, 3), r.chance(2, 3));
            }
        }
    }
    let mut bytes = if r.chance(1, 7) {
        what = "damaged";
        accept::damaged(r, &langs[aug as usize], &g).0.into_bytes()
    } else if r.chance(1, 6) {
        let st = gram::SpecStyle { swap: true, split: true, names: 2 };
        let v = g.spec_tokens(r, &st);
        let (w, made) = accept::cut_up(r, &v, &dir.join("sub"), 2, false);
        if !made.is_empty() {
            what = "injects files";
            if r.chance(1, 5) {
                what = "injects a missing file";
                std::fs::remove_file(r.pick(&made)).expect("scratch");
            }
        }
        gram::layout(r, &w).into_bytes()
    } else {
        g.spec().into_bytes()
    };
    if r.chance(1, 40) {
        what = "not UTF-8";
        let at = r.below(bytes.len() + 1);
        bytes.splice(at..at, [0xffu8, 0xc3]);
    }
    if r.chance(1, 60) {
        what = "empty";
        bytes.clear();
    }
    let name = PathBuf::from(if r.chance(1, 8) { *r.pick(&["g.rs", "g.states", "out.rs", "out.x", "out.states"]) } else { *r.pick(&["g.laps", "g.laps", "g.alaps", "g", "sub/g.laps", "a b/ü ö.laps", "g.x.laps", ".laps", "sub/../g.laps"]) });
    let spec_at = dir.join(&name);
    let mut spec_arg = match r.below(5) {
        0 => spec_at.clone(),
        1 => PathBuf::from(".").join(&name),
        _ => name.clone(),
    };
    let mut unreadable = false;
    let write_spec = |p: &Path, b: &[u8]| std::fs::write(p, b).expect("scratch");
    match r.below(40) {
        0 => {
            what = "missing specification";
            unreadable = true;
        }
        1 => {
            what = "specification is a directory";
            std::fs::create_dir_all(&spec_at).expect("scratch");
            unreadable = true;
        }
        2 => {
            write_spec(&spec_at, &bytes);
            std::fs::set_permissions(&spec_at, std::fs::Permissions::from_mode(0)).expect("scratch");
            what = "specification may not be read";
            unreadable = t.nobody;
        }
        3 => {
            let real = dir.join("sub").join("real.txt");
            write_spec(&real, &bytes);
            symlink(&real, &spec_at).expect("scratch");
            what = "specification is a link";
        }
        4 if name.as_os_str() == "g.laps" => {
            // a name that is no text
            let odd = PathBuf::from(OsString::from_vec(b"g\xff.laps".to_vec()));
            write_spec(&dir.join(&odd), &bytes);
            spec_arg = odd;
            what = "specification's name is not UTF-8";
        }
        _ => write_spec(&spec_at, &bytes),
    }
    let spec_at = dir.join(&spec_arg);
    // options
    let force = r.chance(1, 2);
    let out_arg: Option<PathBuf> = match r.below(30) {
        24..=29 | 0..=8 => None,
        9..=13 => Some("out.rs".into()),
        14 => Some("out.x".into()),
        15 => Some("sub/parser".into()),
        16 => Some(dir.join("sub/out.rs")),
        17 => Some("missing/out.rs".into()),
        18 => Some("ro/out.rs".into()),
        19 => Some("out.states".into()),
        20 => Some(PathBuf::from(".").join(&name)),
        21 => Some(name.clone()),
        22 => Some("sub/../out.rs".into()),
        _ => Some("full".into()),
    };
    let out_path = dir.join(out_arg.clone().unwrap_or_else(|| spec_arg.with_extension("rs")));
    let desc_path = out_path.with_extension("states");
    // what is there already
    let mut dangling = false;
    for (p, what) in [(&out_path, "a parser"), (&desc_path, "a report")] {
        let free = !p.parent().unwrap().ends_with("missing") && std::fs::symlink_metadata(p).is_err() && resolve(p) != resolve(&spec_at);
        if !free || !r.chance(1, 3) {
            continue;
        }
        match r.below(12) {
            0 => std::fs::create_dir(p).expect("scratch"),
            1 => {
                std::fs::write(p, junk(r, what)).expect("scratch");
                std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o444)).expect("scratch");
            }
            2 => {
                let real = dir.join("sub").join(format!("real{}", r.below(2)));
                std::fs::write(&real, junk(r, what)).expect("scratch");
                symlink(&real, p).expect("scratch");
            }
            3 => {
                dangling = true;
                symlink(dir.join("sub").join(format!("no such {}", &what[2..])), p).expect("scratch");
            }
            4 => symlink(&spec_at, p).expect("scratch"),
            _ => std::fs::write(p, junk(r, what)).expect("scratch"),
        }
    }
    // bystanders
    for n in ["g.rs.bak", "out", "out.rs~", "g.tmp", "sub/parser.rs", "parser.rs", "parser.states", "sub/g.rs", "g.laps.rs"] {
        let p = dir.join(n);
        if r.chance(1, 3) && std::fs::symlink_metadata(&p).is_err() && ![&out_path, &desc_path, &spec_at].iter().any(|q| resolve(q) == resolve(&p)) {
            std::fs::write(&p, junk(r, "something else")).expect("scratch");
        }
    }
    for p in extra {
        if std::fs::symlink_metadata(p).is_err() && p.parent().is_some_and(|d| d.is_dir()) && p.file_name().is_some() {
            let _ = std::fs::write(p, "something else\n");
        }
    }
    // arguments, in any order and spelling
    let mut args: Vec<Vec<OsString>> = vec![];
    let s = |x: &str| OsString::from(x);
    let mut f = force;
    if let Some(o) = &out_arg {
        let o = o.as_os_str().to_os_string();
        let mut glued = |p: &str| {
            let mut x = s(p);
            x.push(&o);
            vec![x]
        };
        args.push(match r.below(6) {
            0 => glued("--output="),
            1 => glued("-o"),
            2 if force => {
                f = false;
                vec![s("-fo"), o]
            }
            3 => vec![s("--output"), o],
            _ => vec![s("-o"), o],
        });
    }
    if f {
        args.push(vec![s(*r.pick(&["-f", "--force"]))]);
    }
    if isr {
        args.push(vec![s("--ignore-sr-conflicts")]);
    }
    if irr {
        args.push(vec![s("--ignore-rr-conflicts")]);
    }
    args.push(vec![spec_arg.clone().into_os_string()]);
    r.shuffle(&mut args);
    let mut usage = false;
    match r.below(60) {
        0 => {
            usage = true;
            args.insert(r.below(args.len() + 1), vec![s("--bogus")]);
        }
        1 => {
            usage = true;
            args.push(vec![s("another.laps")]);
        }
        2 => {
            usage = true;
            args.retain(|x| x[0].as_bytes() != spec_arg.as_os_str().as_bytes());
        }
        _ => {}
    }
    let args: Vec<OsString> = args.into_iter().flatten().collect();
    // what the library makes of it
    let label = spec_arg.to_string_lossy().into_owned();
    let made = match std::str::from_utf8(&bytes) {
        Err(_) => None,
        Ok(text) => {
            ctx.desc(format!("{} in process\n{text}", if aug { "alalr1_gen" } else { "lalr1_gen" }));
            let x = generate(aug, text, &label, isr, irr, &lib);
            ctx.stderr_since();
            match x {
                Outcome::Ok(m) => Some(m),
                Outcome::Panic(..) => return, // C19
                _ => None,
            }
        }
    };
    // faults
    let (mut fault, mut fsize) = (None, None);
    match r.below(10) {
        0 => {
            let total = made.as_ref().map_or(1000, |m| m.code.len());
            let d = made.as_ref().map_or(1000, |m| m.report.len());
            fsize = Some(match r.below(6) {
                0 => 0,
                1 => total as u64 - 1,
                2 => (d as u64).saturating_sub(1),
                3 => total.max(d) as u64,
                _ => r.below(total.max(d) + 10) as u64,
            });
        }
        1..=3 => {
            let op = *r.pick(&["open", "read", "write", "write", "write"]);
            let nth = match (op, r.below(4)) {
                ("open", _) => 1 + r.below(4),
                ("read", _) => 1 + r.below(3),
                (_, 0) => 1 + r.below(3),
                (_, 1) => 1 + r.below(40),
                (_, 2) => 1 + r.below(400),
                _ => 1 + r.below(4000),
            };
            let kind = match op {
                "open" => *r.pick(&["13", "24", "2", "28", "4", "30", "5"]), // EACCES EMFILE ENOENT ENOSPC EINTR EROFS EIO
                "read" => *r.pick(&["5", "4", "short", "21", "12"]),
                _ => *r.pick(&["28", "5", "4", "short", "short", "zero", "27", "122", "32"]), // ENOSPC EIO EINTR EFBIG EDQUOT EPIPE
            };
            let sticky = kind != "4" && r.chance(1, 2);
            fault = Some(format!("{op} {nth} {kind} {}", sticky as u8));
        }
        _ => {}
    }
    // hand everything to the user who runs the tool
    if t.nobody {
        for p in snapshot(&dir).keys().chain([&dir]) {
            if !p.ends_with("ro") {
                std::os::unix::fs::lchown(p, Some(NOBODY), Some(NOBODY)).expect("chown");
            }
        }
        chown(dir.join("ro"), Some(0), Some(0)).expect("chown");
    }
    std::fs::set_permissions(dir.join("ro"), std::fs::Permissions::from_mode(0o555)).expect("scratch");
    let before = snapshot(&dir);
    // what has to happen
    let (out_to, desc_to, spec_to) = (resolve(&out_path), resolve(&desc_path), resolve(&spec_at));
    let alias = out_to == desc_to || out_to == spec_to || desc_to == spec_to;
    let there = |p: &Path| p.exists();
    let existing = there(&out_path) || there(&desc_path);
    let refuse = usage || alias || !force && existing || unreadable || made.is_none();
    let blocked = |p: &Path, to: &Path| {
        to.is_dir()
            || !to.parent().is_some_and(|d| d.is_dir())
            || t.nobody && (to.parent().is_some_and(|d| d.ends_with("ro")) || to.metadata().is_ok_and(|m| m.mode() & 0o200 == 0))
            || p.file_name().is_none()
    };
    let unwritable = blocked(&out_path, &out_to) || blocked(&desc_path, &desc_to);
    let too_long = made.as_ref().is_some_and(|m| fsize.is_some_and(|n| (m.code.len().max(m.report.len()) as u64) > n));
    let listing: String = before.iter().map(|(p, e)| format!("  {} {}\n", p.strip_prefix(&dir).unwrap().display(), match e {
        Entry::Dir(m) => format!("directory {:o}", m & 0o777),
        Entry::Link(t) => format!("-> {}", t.display()),
        Entry::File { text, mode, .. } => format!("{} bytes {:o}", text.len(), mode & 0o777),
    })).collect();
    ctx.desc(format!(
        "in {}:\n{listing}{} {}\nspecification ({what}): {}\nfault {fault:?} file size limit {fsize:?}",
        dir.display(),
        t.exe.display(),
        args.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join(" "),
        text_of(&bytes)
    ));
    let ran = run(t, &dir, &args, &fault, fsize);
    let after = snapshot(&dir);
    ctx.eval();
    touched.extend(ran.touched.iter().filter(|p| resolve(p) != out_to && resolve(p) != desc_to && !before.contains_key(*p)).cloned());
    ctx.count("paths_written", ran.touched.len() as u64);
    let ok = ran.code == Some(0);
    let changed: Vec<&PathBuf> = before.keys().chain(after.keys().filter(|p| !before.contains_key(*p))).filter(|p| before.get(*p) != after.get(*p)).collect();
    let told = |p: &Path| resolve(p) == out_to || resolve(p) == desc_to;
    let status = format!("exit {:?} signal {:?}, standard error {:.600}; faults that struck: {:?}; changed: {changed:?}", ran.code, ran.signal, ran.err, ran.injected);
    ctx.count(if ok { "succeeded" } else { "failed" }, 1);
    if existing || !ran.injected.is_empty() || too_long {
        ctx.nontrivial(&format!("{what} {args:?} {listing} {fault:?} {fsize:?}"));
    }
    if existing && !refuse {
        ctx.count("told_to_overwrite", 1);
    }
    if existing && !force {
        ctx.count("refused_to_overwrite", 1);
    }
    if alias {
        ctx.count("aliased", 1);
    }
    let mut bad = |ctx: &mut Ctx, key: &str, what: &str| ctx.violation(key, format!("{what}: {status}"));
    if ran.hang {
        return bad(ctx, "hang", "still running after 100 s");
    }
    if ran.err.contains("panicked at") {
        return bad(ctx, "panic", "panicked");
    }
    if let Some(p) = changed.iter().find(|p| !told(p)) {
        let p = p.display().to_string();
        return bad(ctx, "bystander", &format!("{p} is neither the parser nor its report and changed"));
    }
    let complete = |m: &crate::genr::Made| {
        let f = |p: &Path, want: &str| matches!(after.get(&resolve(p)), Some(Entry::File { text, .. }) if text == want.as_bytes());
        f(&out_path, &m.code) && f(&desc_path, &m.report)
    };
    if !force && before.iter().any(|(p, e)| matches!(e, Entry::File { .. }) && after.get(p) != Some(e)) {
        return bad(ctx, "overwritten", "not told to overwrite, but an existing file changed");
    }
    if refuse {
        if ok {
            return bad(ctx, "success", "the run cannot succeed, but reports success");
        }
        if !changed.is_empty() {
            return bad(ctx, "failed-but-wrote", "refused before writing, but files changed");
        }
    }
    let reads: Vec<&String> = ran.injected.iter().filter(|x| *x == "open-read" || *x == "read").collect();
    if fault.as_ref().is_some_and(|f| !f.ends_with(" 4 0")) && !reads.is_empty() {
        ctx.count("read_faults", 1);
        if ok {
            return bad(ctx, "read-failure", "a file could not be read, but the run reports success");
        }
        if !changed.is_empty() {
            return bad(ctx, "failed-but-wrote", "a file could not be read, but files changed");
        }
        return;
    }
    let writes = ran.injected.iter().any(|x| x == "write" || x == "zero-write" || x == "open-write" && !fault.as_ref().unwrap().ends_with(" 4 0"));
    if ran.injected.iter().any(|x| x.starts_with("short") || x.starts_with("interrupted")) {
        ctx.count("short_or_interrupted_calls", 1);
    }
    if writes {
        ctx.count("write_faults", 1);
    }
    if too_long && !refuse {
        ctx.count("size_limits_hit", 1);
    }
    if unwritable && !refuse {
        ctx.count("unwritable", 1);
    }
    if ok {
        let Some(m) = &made else { return bad(ctx, "success", "the library refuses this specification, but the run reports success") };
        if !complete(m) {
            return bad(ctx, "incomplete", "success reported, but the files at the requested place are not the parser and its report");
        }
        // written completely in spite of everything; then the rest of what was expected does not matter
        return;
    }
    if ran.err.trim().is_empty() && ran.signal.is_none() {
        return bad(ctx, "silent", "failed without saying why");
    }
    if refuse || writes || too_long || unwritable || dangling {
        return;
    }
    bad(ctx, "failure", "nothing is wrong, but the run failed")
}
