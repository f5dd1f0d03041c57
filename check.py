#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--case N] [--only-build]

Builds the harness from /repo's working tree, runs the property's monitors in sharded worker processes,
merges their verdicts, rewrites evidence/<property>.json.
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; anything else: no verdict."""
import argparse, json, os, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VH_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
HARNESS = os.path.join(VERIF, "harness")
NPROC = min(8, os.cpu_count() or 8)

# property -> plan. kind "plain": one worker phase. kind "compiled": phase gen writes and compiles modules, phase run executes them.
PLANS = {
    "C01": dict(budget=(20, 600)), "C02": dict(budget=(20, 600)), "C03": dict(budget=(20, 600)),
    "C04": dict(budget=(20, 600)), "C05": dict(budget=(20, 600)),
    "C06": dict(budget=(25, 600)), "C07": dict(budget=(25, 600)), "C08": dict(budget=(25, 600)), "C09": dict(budget=(25, 600)),
    **{c: dict(budget=(40, 780)) for c in ("C14", "C18", "C19", "C21")}, "C20": dict(budget=(35, 780), pre="odd", post="tsan"), "C22": dict(budget=(20, 780), pre="cli"), "C24": dict(budget=(25, 780), pre="own"),
    **{c: dict(kind="compiled", budget=(60, 780)) for c in ("C10", "C11", "C12", "C13", "C15", "C16", "C17", "C23", "C25")},
    "C26": dict(kind="compiled", budget=(60, 780), post="tsan"),
}
# property -> (technique, level note)
_EXEC = "Holds on the executions observed (see the evidence file for their number and kind); trusts the reference model in /verif/harness; says nothing about inputs that were not run."
TECHNIQUE = {
    "C01": ("runtime monitor: recorded token streams judged by a reference lexer", _EXEC),
    "C02": ("runtime monitor: conservation and progress checked online over token streams, panic and hang detection", _EXEC),
    "C03": ("runtime monitor: recorded locations judged by a reference line/offset model", _EXEC),
    "C04": ("runtime monitor: history checker over recorded inject/front/advance sequences", _EXEC),
    "C05": ("runtime monitor: acceptance and completeness of lexicons judged by a reference model", _EXEC),
    "C06": ("runtime monitor: complete driver event logs judged by a reference shift/reduce machine", _EXEC),
    "C07": ("runtime monitor: error reports (content, moment, number) judged by a reference machine; standard error read back", _EXEC),
    "C08": ("runtime monitor: recoveries in driver event logs judged by a reference machine; step bound for termination", _EXEC),
    "C09": ("runtime monitor: driver event logs under injected texts judged by a reference machine", _EXEC),
    "C10": ("runtime monitor: compiled generated parsers executed on enumerated, derived and damaged texts, verdicts and reported tokens judged by an Earley recogniser", _EXEC),
    "C11": ("runtime monitor: action and value log of compiled generated parsers judged against the derivation tree", _EXEC),
    "C12": ("runtime monitor: table functions of compiled generated parsers executed on all states and tokens and walked in step with a reference LALR(1) automaton", _EXEC),
    "C13": ("runtime monitor: table functions and action logs of compiled generated parsers judged by a reference resolution and an operator precedence parser", _EXEC),
    "C14": ("runtime monitor: outcomes, conflict counts and listed states of both generators judged by a reference LALR(1) automaton", _EXEC),
    "C15": ("runtime monitor: lexical analysers of compiled generated parsers judged by a reference lexer of the declared tokens; the compiler judges the source", _EXEC),
    "C18": ("runtime monitor: outputs for many layouts of one specification compared byte by byte, reports walked in step with a reference automaton", _EXEC),
    "C19": ("runtime monitor: outcomes and standard error for damaged specifications judged by a reference front end; panic, crash and hang detection", _EXEC),
    "C20": ("runtime monitor: paired executions (fresh process, long process history, concurrent threads) compared byte by byte", _EXEC),
    "C21": ("runtime monitor: outputs with and without injected files compared byte by byte, errors judged by a reference front end with injection", _EXEC),
    "C22": ("runtime monitor: snapshots of the files around runs of the command line tools, with faults injected into their system calls, judged with the exit status", _EXEC),
    "C24": ("runtime monitor: paired executions of the generators with the front ends in the repository and with regenerated ones, compared byte by byte; regeneration to a fixpoint", _EXEC),
    "C26": ("runtime monitor: event logs of repeated, nested and concurrent parses compared with the same parse alone; ThreadSanitizer over the concurrent ones", _EXEC),
    "C16": ("runtime monitor: predicate, action and error log of compiled augmented parsers under steered predicates judged by a reference machine", _EXEC),
    "C17": ("runtime monitor: recovery functions of compiled generated parsers judged against their own tables; paired executions with and without error rules", _EXEC),
    "C23": ("runtime monitor: report parsed back and compared entry by entry with the executed table functions of the compiled parser", _EXEC),
    "C25": ("runtime monitor: paired execution of both generators and both compiled parsers, outcomes, tables and logs compared", _EXEC),
}

def die(msg):
    print("HARNESS-ERROR: " + msg, flush=True)
    sys.exit(2)

def env_for_build():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=TARGET,
             CARGO_PROFILE_DEV_DEBUG="line-tables-only", LANG="C.UTF-8")
    e["PATH"] = "/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUST_BACKTRACE"):
        e.pop(k, None)
    return e

def no_selfbuild():
    # lalr1_lib/build.rs and alalr1_lib/build.rs rewrite tracked files when these exist
    for b in ("lalr1_gen", "alalr1_gen"):
        try:
            os.remove(os.path.join(REPO, "target", "debug", b))
        except OSError:
            pass

def cargo_build(env):
    no_selfbuild()
    p = subprocess.run(["cargo", "build", "--offline", "--message-format=json", "-q"], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        sys.stdout.write(p.stdout[-3000:] + p.stderr[-6000:])
        die("the harness does not build against this tree")
    rlibs, exe = {}, None
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            t = m["target"]
            for f in m["filenames"]:
                if f.endswith(".rlib"):
                    rlibs[t["name"].replace("-", "_")] = f
            if m.get("executable") and t["name"] == "vh":
                exe = m["executable"]
    if not exe:
        die("no harness executable")
    return exe, rlibs

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setsid()

class Worker:
    def __init__(self, cmd, env, out, phase, shard, cpu=None):
        self.cmd, self.env, self.out, self.phase, self.shard = cmd, env, out, phase, shard
        self.errfile = os.path.join(out, f"stderr.{phase}.{shard}")
        open(self.errfile, "w").close()
        e = dict(env, VH_STDERR=self.errfile)
        fd = os.open(self.errfile, os.O_WRONLY | os.O_APPEND)
        def pre():
            limits()
            if cpu:
                resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu))
        self.p = subprocess.Popen(cmd, env=e, stdout=fd, stderr=fd, stdin=subprocess.DEVNULL, preexec_fn=pre, cwd=out)
        os.close(fd)
        self.progress = os.path.join(out, f"progress.{phase}.{shard}")
        self.last = time.time()
        self.seen = None
        self.stalled = False
    def poll(self):
        r = self.p.poll()
        if r is None:
            try:
                st = os.stat(self.progress)
                k = (st.st_mtime_ns, st.st_size)
            except OSError:
                k = None
            if k != self.seen:
                self.seen, self.last = k, time.time()
        return r
    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
    def result(self):
        f = os.path.join(self.out, f"result.{self.phase}.{self.shard}")
        try:
            return json.load(open(f))
        except (OSError, ValueError):
            return None
    def case(self):
        try:
            t = open(self.progress, errors="replace").read()
            return int(t.split("\n", 1)[0]), t.split("\n", 1)[-1]
        except (OSError, ValueError):
            return None, ""

class Rerun:
    """A case run alone, twice when it does not end well: with 60 s of CPU, so that a busy machine is no hang."""
    def __init__(self, w, ended, case, desc, base_args, env, out, phase):
        self.w, self.ended, self.case, self.desc, self.how, self.attempt = w, ended, case, desc, "", 0
        self.dir = os.path.join(out, f"rerun.{phase}.{w.shard}")
        os.makedirs(self.dir, exist_ok=True)
        self.cmd = [w.cmd[0]] + base_args + ["--phase", phase, "--shard", str(w.shard), "--out", self.dir, "--case", str(case)]
        self.env, self.phase = dict(env, VH_WORK=out), phase
    def start(self):
        self.worker = Worker(self.cmd, self.env, self.dir, self.phase, self.w.shard, cpu=60)
        self.began = time.time()
    def step(self):
        w = self.worker
        if w.poll() is None:
            if time.time() - self.began < 200:
                return None
            w.kill()
            return "note", f"case {self.case}: isolated rerun got no CPU; no verdict"
        rc = w.p.returncode
        if rc == 0 and w.result() is not None:
            return "result", w.result()
        c, d = w.case()
        err = open(w.errfile, errors="replace").read()
        if c != self.case or rc >= 0:
            return "note", f"case {self.case}: isolated rerun ended with {rc}; {err[-800:]}"
        if rc == -signal.SIGKILL:
            self.how = "was killed (hang or memory)"
        else:
            self.how = ("exhausted 60 s of CPU (hang)" if rc == -signal.SIGXCPU else f"died of signal {-rc}") + ": " + err[-600:]
        self.desc = d or self.desc
        self.attempt += 1
        if self.attempt < 2:
            self.start()
            return None
        return "violation", dict(case=self.case, key="hang" if "hang" in self.how else "crash", detail=f"{self.desc}\nthe code under test {self.how}")

def run_phase(prop, phase, exes, base_args, env, out, stall, budget):
    """exes: list of (shard, executable). Returns (results, extra violations, notes)."""
    ws = [Worker([exe] + base_args + ["--phase", phase, "--shard", str(s), "--out", out], env, out, phase, s) for s, exe in exes]
    dead, results, viol, notes = [], [], [], []
    live = list(ws)
    began = time.time()
    while live:
        time.sleep(0.05)
        for w in list(live):
            r = w.poll()
            # a worker that goes on long after its budget is stuck in a case, even if it makes steps
            if r is None and (time.time() - w.last > stall or time.time() - began > budget + 400):
                w.stalled = True
                w.kill()
                r = -9
            if r is not None:
                live.remove(w)
                res = w.result()
                if res is None or r != 0:
                    dead.append((w, r))
                else:
                    results.append(res)
    # every case a worker died in is run again alone, at most four at a time; one confirmed hang or crash is enough
    todo, going = [], []
    for w, r in dead:
        case, desc = w.case()
        if case is None:
            tail = open(w.errfile, errors="replace").read()[-2000:]
            notes.append(f"worker {phase}.{w.shard} ended with {r} before its first case: {tail}")
        else:
            todo.append(Rerun(w, r, case, desc, base_args, env, out, phase))
    while todo or going:
        if viol:
            for x in going:
                x.worker.kill()
            break
        while todo and len(going) < 4:
            going.append(todo.pop(0))
            going[-1].start()
        time.sleep(0.05)
        for x in list(going):
            v = x.step()
            if v is None:
                continue
            going.remove(x)
            kind, what = v
            if kind == "violation":
                viol.append(what)
            elif kind == "note":
                notes.append(what)
            else:
                results.append(what)
                notes.append(f"case {x.case}: worker ended with {x.ended} but the isolated rerun passes; " + open(x.w.errfile, errors="replace").read()[-300:])
    return results, viol, notes

def known():
    fixed, findings = [], []
    try:
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS")):
            line = line.strip()
            if line.startswith("finding: "):
                d = dict(x.split("=", 1) for x in line[len("finding: "):].split(" ", 2)[:2])
                findings.append((d["property"], d["key"], line))
    except OSError:
        pass
    return findings

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--case", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, "thorough" if a.tier == "thorough" else "quick"
    if prop == "build":
        cargo_build(env_for_build())
        return
    plan = PLANS[prop]
    t0 = time.time()
    env = env_for_build()
    out = os.path.join(VERIF, "work", f"{prop}.{os.getpid()}")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    evidence = os.path.join(VERIF, "evidence", f"{prop}.json")
    try:
        os.remove(evidence)
    except OSError:
        pass
    try:
        sys.exit(run(a, prop, tier, plan, t0, env, out, evidence))
    finally:
        if not a.keep:
            for d in (out, os.path.join(VERIF, "work", "regen"), os.path.join(VERIF, "work", "tsan." + prop)):
                shutil.rmtree(d, ignore_errors=True)

def merge(acc, results):
    for r in results:
        acc["evaluations"] += r["evaluations"]
        acc["distinct"].update(r["distinct"])
        acc["samples"] += [x for x in r["samples"] if x not in acc["samples"]]
        for k, v in r["counters"].items():
            acc["counters"][k] = max(acc["counters"].get(k, 0), v) if k.startswith("max:") else acc["counters"].get(k, 0) + v
        acc["violations"] += r["violations"]
        acc["notes"] += r["notes"]
        acc["rule"] = acc["rule"] or r["rule"]

def run(a, prop, tier, plan, t0, env, out, evidence):
    exe, rlibs = cargo_build(env)
    build_s = time.time() - t0
    env["VH_REPO"] = REPO
    env["VH_VERIF"] = VERIF
    env["VH_DEPS"] = os.path.join(TARGET, "debug", "deps")
    env["VH_EXTERNS"] = ";".join(f"{k}={v}" for k, v in rlibs.items())
    env["VH_WORK"] = out
    budget = a.budget or plan["budget"][0 if tier == "quick" else 1]
    acc = dict(evaluations=0, distinct=set(), samples=[], counters={}, violations=[], notes=[], rule="")
    base = ["--prop", prop, "--tier", tier, "--seed", str(a.seed), "--shards", str(NPROC)]
    shards = [a.case % NPROC] if a.case is not None else list(range(NPROC))
    stall = 120
    pre = plan.get("pre")
    if pre:
        r = PRE[pre](env, out, tier)
        if r:
            acc["violations"] += r
            acc["evaluations"] += 1
            acc["rule"] = "the generators on their own specifications"
    if acc["violations"]:
        pass
    elif plan.get("kind") == "compiled":
        rounds = 1
        start = time.time()
        k = 0
        while True:
            b = base + ["--budget", str(budget), "--round", str(k)]
            if a.case is not None:
                b += ["--case", str(a.case)]
            res, viol, notes = run_phase(prop, "gen", [(s, exe) for s in shards], b, env, out, 300, budget)
            merge(acc, res)
            acc["violations"] += viol
            acc["notes"] += notes
            exes = [(s, os.path.join(out, f"mods.{s}", "exe")) for s in shards if os.path.exists(os.path.join(out, f"mods.{s}", "exe"))]
            if exes:
                res, viol, notes = run_phase(prop, "run", [(s, e) for s, e in exes], b, env, out, stall, budget)
                merge(acc, res)
                acc["violations"] += viol
                acc["notes"] += notes
            for s in shards:
                shutil.rmtree(os.path.join(out, f"mods.{s}"), ignore_errors=True)
            k += 1
            if a.case is not None or tier == "quick" and k >= plan.get("rounds", 1) or time.time() - start > budget or acc["violations"]:
                break
    else:
        b = base + ["--budget", str(budget)]
        if a.case is not None:
            b += ["--case", str(a.case)]
        res, viol, notes = run_phase(prop, "main", [(s, exe) for s in shards], b, env, out, stall, budget)
        merge(acc, res)
        acc["violations"] += viol
        acc["notes"] += notes
    post = plan.get("post")
    if post:
        res = [] if a.case is not None or acc["violations"] else POST[post](env, out, tier, a.seed, prop)
        merge(acc, res)

    # verdict
    findings = [f for f in known() if f[0] == prop]
    fresh, listed, seen = [], [], set()
    for v in acc["violations"]:
        k = v["key"]
        if k in seen:
            continue
        seen.add(k)
        hit = [f for f in findings if f[1] == k]
        if hit:
            listed.append(hit[0])
        else:
            fresh.append(v)
    for f in listed:
        print(f"KNOWN-FINDING: property={prop} {f[2]}")
    for v in fresh[:5]:
        rp = os.path.join(VERIF, "replays", f"{prop}-{a.seed}-{v['case']}-{v['key']}.txt".replace("/", "_"))
        with open(rp, "w") as f:
            f.write(f"property {prop}\nreplay: cd /verif && VERIF_SEED={a.seed} VERIF_TIER={tier} python3 check.py {prop} --case {v['case']}\nkey {v['key']}\n\n{v['detail']}\n")
        print(v["detail"][:1500])
        print(f"VIOLATION property={prop} replay={rp}", flush=True)
    for n in acc["notes"][:10]:
        print("NOTE: " + n[:1500])
    cov = dict(evaluations=acc["evaluations"], distinct_nontrivial=len(acc["distinct"]), rule=acc["rule"], samples=acc["samples"][:5],
               observed=acc["counters"], notes=acc["notes"][:10], build_s=round(build_s, 1))
    ev = dict(property=prop, tier=tier, seed=a.seed, level="exploration", coverage=cov,
              assumptions=plan.get("assumptions", ["the reference models in /verif/harness are right", "nothing is claimed about inputs that were not executed"]),
              wall_s=round(time.time() - t0, 1), violations=len(fresh))
    json.dump(ev, open(evidence, "w"), indent=1)
    print(f"{prop} {tier} seed={a.seed}: {acc['evaluations']} evaluations, {len(acc['distinct'])} distinct non-trivial, "
          f"{len(fresh)} violations, build {build_s:.1f}s, total {time.time()-t0:.1f}s; " + ", ".join(f"{k}={v}" for k, v in sorted(acc["counters"].items())))
    if fresh:
        return 1
    if any("HARNESS" in n or "before its first case" in n for n in acc["notes"]):
        return 2
    if acc["evaluations"] == 0 or len(acc["distinct"]) < plan.get("min_distinct", 2):
        if a.case is None:
            print("HARNESS-ERROR: the monitors observed nothing")
            return 2
    return 0

def san_env(env, san):
    e = dict(env)
    e.update(RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS=f"-Zsanitizer={san}", CARGO_TARGET_DIR=os.path.join(TARGET, san))
    return e

def tsan(env, out, tier, seed, prop):
    """The concurrent part of a compiled property once more, in an executable instrumented by ThreadSanitizer (std included).
    A report is a violation; that the sanitizer cannot be built or run here is a note."""
    t0 = time.time()
    empty = dict(evaluations=0, distinct=[], samples=[], counters={}, violations=[], notes=[], rule="")
    vh = os.path.join(TARGET, "debug", "vh")
    work = os.path.join(VERIF, "work", "tsan." + prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(os.path.join(work, "src"))
    base = ["--prop", prop, "--tier", tier, "--seed", str(seed), "--shards", "1", "--shard", "0", "--round", "900", "--budget", "60"]
    want = "10" if tier == "quick" else "40"
    e = dict(env, VH_NOCOMPILE="1", VH_WANT=want, VH_STDERR=os.path.join(work, "err"))
    mods = os.path.join(work, "mods.0")
    if PLANS[prop].get("kind") == "compiled":
        with open(e["VH_STDERR"], "a") as f:
            p = subprocess.run([vh] + base + ["--phase", "gen", "--out", work], env=e, cwd=work, stdout=f, stderr=f, timeout=300)
    else:
        os.makedirs(mods)
        with open(os.path.join(mods, "main.rs"), "w") as f:
            f.write("fn main() {\n    vh::compiled::main(&[]);\n}\n")
        p = subprocess.CompletedProcess([], 0)
    if p.returncode != 0 or not os.path.exists(os.path.join(mods, "main.rs")):
        return [dict(empty, notes=[f"tsan: no modules ({p.returncode}): " + open(e["VH_STDERR"], errors="replace").read()[-500:]])]
    for f in os.listdir(mods):
        os.rename(os.path.join(mods, f), os.path.join(work, "src", f))
    deps = "".join(f'{n} = {{ path = "{os.path.join(REPO, n)}" }}\n' for n in ("lexan", "lalr1", "alalr1"))
    with open(os.path.join(work, "Cargo.toml"), "w") as f:
        f.write(f'[package]\nname = "exe_{prop}"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\nvh = {{ path = "{HARNESS}" }}\n{deps}lazy_static = "1.5.0"\n\n'
                '[profile.dev]\nopt-level = 1\ndebug = "line-tables-only"\nincremental = false\n')
    if os.path.exists(os.path.join(HARNESS, "Cargo.lock")):
        shutil.copy(os.path.join(HARNESS, "Cargo.lock"), work)
    se = san_env(env, "thread")
    target = "x86_64-unknown-linux-gnu"
    try:
        b = subprocess.run(["cargo", "build", "--offline", "-q", "-Zbuild-std", "--target", target], cwd=work, env=se, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        return [dict(empty, notes=["tsan: the build took over 600 s; no verdict from ThreadSanitizer"])]
    exe = os.path.join(se["CARGO_TARGET_DIR"], target, "debug", "exe_" + prop)
    if b.returncode != 0:
        return [dict(empty, notes=["tsan: does not build: " + b.stdout[-1500:]])]
    built = time.time() - t0
    res = []
    log = os.path.join(work, "report")
    for k in range(2 if tier == "quick" else 12):
        err = os.path.join(work, f"stderr.{k}")
        re = dict(env, VH_STDERR=err, VH_LIGHT="1", TSAN_OPTIONS=f"halt_on_error=0 exitcode=66 history_size=4 log_path={log}.{k}")
        with open(err, "a") as f:
            p = subprocess.Popen([exe] + base + ["--round", str(900 + k)] + ["--phase", f"tsan{k}", "--out", work], env=re, cwd=work, stdout=f, stderr=f, preexec_fn=os.setsid)
            try:
                p.wait(timeout=240)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                res.append(dict(empty, notes=[f"tsan: run {k} took over 240 s; no verdict"]))
                continue
        reports = ""
        for f in sorted(os.listdir(work)):
            if f.startswith(f"report.{k}."):
                reports += open(os.path.join(work, f), errors="replace").read()
        n = reports.count("WARNING: ThreadSanitizer")
        try:
            r = json.load(open(os.path.join(work, f"result.tsan{k}.0")))
        except (OSError, ValueError):
            r = None
        if n:
            i = reports.index("WARNING: ThreadSanitizer")
            kind = reports[i:].split("\n", 1)[0].split("ThreadSanitizer: ", 1)[-1].split(" (", 1)[0].replace(" ", "-")
            res.append(dict(empty, violations=[dict(case=0, key=f"tsan-{kind}", detail=f"{n} reports by ThreadSanitizer\n" + reports[i:i + 3000])]))
        if r is None:
            tail = open(err, errors="replace").read()[-800:]
            if not n:
                res.append(dict(empty, notes=[f"tsan: run {k} ended with {p.returncode}: {tail}"]))
        else:
            c = {"tsan_" + x.replace("max:", ""): y for x, y in r["counters"].items()}
            c["tsan_runs"] = 1
            c["tsan_evaluations"] = r["evaluations"]
            c["tsan_reports"] = n
            res.append(dict(empty, evaluations=r["evaluations"], counters=c, violations=r["violations"], notes=r["notes"]))
    res.append(dict(empty, counters={"max:tsan_build_seconds": int(built)}))
    return res

def cli(env, out, tier):
    """The command line tools from /repo's working tree and the fault injector."""
    no_selfbuild()
    p = subprocess.run(["cargo", "build", "--offline", "-q", "--locked", "-p", "lalr1_gen", "-p", "alalr1_gen"], cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-4000:])
        die("the command line tools do not build")
    env["VH_CLI"] = os.path.join(TARGET, "debug")
    env["VH_FAULT_SO"] = shim(out, "fault")

def shim(out, name):
    """A library for LD_PRELOAD."""
    so = os.path.join(out, name + ".so")
    p = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so, os.path.join(HARNESS, "c", name + ".c"), "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die(f"{name}.c does not build: " + p.stdout[-2000:])
    return so

def odd(env, out, tier):
    env["VH_ODD_SO"] = shim(out, "odd")

OWN = (("lalr1_gen", "lalr1_lib", "parser.laps"), ("alalr1_gen", "alalr1_lib", "parser.alaps"))

def own(env, out, tier):
    """Regenerate both front ends, build everything with them, regenerate again; returns violations."""
    cli(env, out, tier)
    top = os.path.join(VERIF, "work", "regen")   # always the same place, so that cargo's leavings do not pile up
    shutil.rmtree(top, ignore_errors=True)
    def copy(n):
        d = os.path.join(top, n)
        for c in ("lexan", "lalr1", "alalr1", "lalr1_lib", "alalr1_lib", "lalr1_gen", "alalr1_gen"):
            shutil.copytree(os.path.join(REPO, c), os.path.join(d, c), ignore=shutil.ignore_patterns("target"), copy_function=shutil.copy)
        for f in ("Cargo.toml", "Cargo.lock"):
            shutil.copy(os.path.join(REPO, f), d)
        return d
    def generate(bindir, src, dst):
        """Both tools on their own specifications in src, results into dst; or what went wrong."""
        made = {}
        for tool, lib, spec in OWN:
            p = subprocess.run([os.path.join(bindir, tool), "-f", "-o", "parser.rs", spec], cwd=os.path.join(src, lib, "src"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
            if p.returncode != 0:
                return dict(case=0, key="own-refused", detail=f"{tool} does not accept its own specification: exit {p.returncode}\n{p.stdout[-3000:]}")
            for f in ("parser.rs", "parser.states"):
                made[lib, f] = open(os.path.join(src, lib, "src", f), "rb").read()
        dst.update(made)
        return None
    one, two = {}, {}
    d = copy("one")
    bad = generate(env["VH_CLI"], d, one)
    if bad:
        return [bad]
    target = os.path.join(TARGET, "regen")
    e2 = dict(env, CARGO_TARGET_DIR=target)
    p = subprocess.run(["cargo", "build", "--offline", "-q", "--locked", "-p", "lalr1_gen", "-p", "alalr1_gen"], cwd=d, env=e2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return [dict(case=0, key="own-does-not-compile", detail="the regenerated front ends do not compile\n" + p.stdout[-4000:])]
    d2 = copy("two")
    bad = generate(os.path.join(target, "debug"), d2, two)
    if bad:
        bad["key"] = "regenerated-" + bad["key"]
        bad["detail"] = "built with its regenerated front end, " + bad["detail"]
        return [bad]
    for k in one:
        if one[k] != two[k]:
            a, b = one[k].split(b"\n"), two[k].split(b"\n")
            n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            return [dict(case=0, key="no-fixpoint", detail=f"{'/'.join(k)} generated with the front end in the repository and with the regenerated one differ in line {n + 1}:\n{a[n:n+1]}\n{b[n:n+1]}")]
    # the harness once more, around the regenerated front ends
    h = os.path.join(top, "harness")
    shutil.copytree(HARNESS, h, ignore=shutil.ignore_patterns("target"), copy_function=shutil.copy)
    t = open(os.path.join(h, "Cargo.toml")).read().replace('path = "/repo/', f'path = "{d}/')
    open(os.path.join(h, "Cargo.toml"), "w").write(t)
    p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=h, env=e2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-4000:])
        die("the harness does not build with the regenerated front ends")
    env["VH_TWIN"] = os.path.join(target, "debug", "vh")
    specs = [os.path.join(REPO, lib, "src", s) for _, lib, s in OWN]
    for top_, _, fs in os.walk(os.path.join(REPO, "examples")):
        specs += [os.path.join(top_, f) for f in sorted(fs) if f.endswith((".laps", ".alaps"))]
    env["VH_OWN"] = ";".join(specs)
    return []

PRE, POST = {"cli": cli, "own": own, "odd": odd}, {"tsan": tsan}

if __name__ == "__main__":
    main()
