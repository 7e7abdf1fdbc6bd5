#!/usr/bin/env python3
"""check.py <property> <quick|thorough>

Decides one property of /repo:
 1. extract: the functions of /repo/src are extracted mechanically and combined with their contracts
 2. verus:   every obligation is discharged (or not) by the verifier
 3. probe:   the same text with `assert(false)` at the end of every function and loop must fail everywhere,
             so that no contract is vacuous
 4. harness: scenarios search for a concrete failing input in the real code; they decide alone what the
             verifier cannot (functions whose anchors were lost), and give inputs for failed obligations
Exit 0: holds. Exit 1: a VIOLATION line was printed. Exit 2: no answer (neither step can be executed).
"""
import concurrent.futures as cf
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
T0 = time.time()
EVID = os.path.join(VERIF, "evidence")
THOROUGH = TIER == "thorough"
KNOWN = {"C13": ["K1"], "C14": ["K1", "K2"]}
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTFLAGS="-Awarnings")
ENV.pop("MIRIFLAGS", None)
DEADLINE = T0 + (3000 if THOROUGH else 780)


def say(*a):
    print(*a, flush=True)


def left():
    return DEADLINE - time.time()


def sh(cmd, timeout, cwd=VERIF, env=None):
    """returns (rc, stdout, stderr); rc None on timeout"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, text=True, errors="replace")
    try:
        o, e = p.communicate(timeout=max(1, timeout))
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o, e


# ------------------------------------------------------------------------------- proof side
class Proof:
    """the outcome of extraction and verification"""

    def __init__(self):
        self.ok = False          # the verifier gave an answer
        self.why = ""            # why not
        self.fns = {}            # key -> record of the map
        self.failed = []         # {key, msg, clause, props, text, file, line, rendered}
        self.undecided = []      # resource limits
        self.forced = set()      # functions given up because of front-end errors
        self.script = {}         # key -> number of the proof script used (0: the first)
        self.times = {}
        self.results = {}
        self.vacuous = None
        self.map = {}
        self.probes = 0

EXTRACT = os.path.join(VERIF, "extract/target/debug/extract")


def dep_dir(name="orx-pinned-concurrent-col"):
    """sources of the version of a dependency that /repo is built with"""
    try:
        lock = open(REPO + "/Cargo.lock").read()
    except OSError:
        lock = open(VERIF + "/harness/Cargo.lock").read()
    m = re.search(r'name = "' + name + r'"\nversion = "([^"]+)"', lock)
    home = os.environ.get("CARGO_HOME") or os.path.expanduser("~/.cargo")
    for d in sorted(glob.glob(f"{home}/registry/src/*/{name}-{m.group(1)}/src")):
        return d
    raise SystemExit(f"sources of {name} {m.group(1)} not found")


def extract(work, forced, name, extra=(), script=None):
    gen, mp = os.path.join(work, name + ".rs"), os.path.join(work, name + ".json")
    cmd = [EXTRACT, "--repo", REPO + "/src", "--contracts", VERIF + "/contracts", "--prelude", VERIF + "/prelude", "--dep", dep_dir(), "--opt", dep_dir("orx-concurrent-option"), "--pvec", dep_dir("orx-pinned-vec"), "--out", gen, "--map", mp]
    if forced:
        cmd += ["--bounded", "|".join(sorted(forced))]
    if script:
        cmd += ["--script", "|".join(f"{k}={n}" for k, n in sorted(script.items()))]
    rc, o, e = sh(cmd + list(extra), 120)
    if rc != 0 or not os.path.exists(mp):
        return None, None, (o + e)[-2000:]
    return gen, json.load(open(mp)), ""


def verus(work, gen, extra=()):
    cmd = ["verus", os.path.basename(gen), "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", "6"] + list(extra)
    rc, o, e = sh(cmd, min(400, max(60, left())), cwd=work)
    diags = []
    for l in e.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" and d.get("spans"):
                diags.append(d)
    try:
        out = json.loads(o)
    except ValueError:
        out = {}
    return rc, out, diags, e


def owner(fns, line):
    best = None
    for f in fns:
        if f.get("start") and f["start"] <= line <= f["end"] and f["key"] != "@canaries":
            if best is None or f["start"] >= best["start"]:
                best = f
    return best


def lines_of(d):
    ls = []
    for s in d.get("spans", []):
        ls.append((s.get("is_primary"), s["line_start"], s.get("label") or ""))
    for c in d.get("children", []):
        for s in c.get("spans", []):
            ls.append((False, s["line_start"], s.get("label") or c.get("message", "")))
    return sorted(ls, key=lambda x: not x[0])


def failures(mp, diags):
    fns, out, und = mp["functions"], [], []
    for d in diags:
        ls = lines_of(d)
        f = None
        msg = d["message"]
        # the failing function: for a failed precondition the primary span may be in the callee's contract
        cand = [owner(fns, l) for _, l, _ in ls]
        cand = [c for c in cand if c]
        if not cand:
            out.append({"key": "@prelude", "msg": msg, "clause": "", "props": [], "file": "", "line": 0, "rendered": d.get("rendered", "")})
            continue
        bodies = [owner(fns, l) for _, l, lab in ls if "precondition" not in lab]
        bodies = [b for b in bodies if b]
        f = (bodies or cand)[0]
        clause, props = "", list(f["props"])
        if "postcondition" in msg:
            for c in mp["clauses"]:
                if c["key"] == f["key"] and c["kind"] == "ensures" and any(c["start"] <= l <= c["end"] for _, l, _ in ls):
                    clause, props = c["text"], c["props"] or props
                    break
        elif "precondition" in msg:
            for c in mp["clauses"]:
                if c["kind"] == "requires" and any(c["start"] <= l <= c["end"] for _, l, _ in ls):
                    clause = c["key"] + " requires " + c["text"]
                    break
        rec = {"key": f["key"], "msg": msg, "clause": clause, "props": props, "file": f["file"], "line": f["line"], "rendered": d.get("rendered", "")}
        if "rlimit" in msg or "resource limit" in msg.lower():
            und.append(rec)
        else:
            out.append(rec)
    return out, und


def frontend(diags, out):
    """errors before verification: rustc errors, or errors of verus' own front end"""
    r = out.get("verification-results", {})
    return bool(diags) and (not r or r.get("encountered-vir-error") or (r.get("verified", 0) == 0 and r.get("errors", 0) == 0))


def prove(work):
    p = Proof()
    p = attempt(work, p)
    if not p.ok:
        return p
    # functions that fail are tried with the further proof scripts for other shapes of the same function
    for _ in range(3):
        bad = {x["key"] for x in p.failed + p.undecided}
        more = {k: p.fns[k]["script"] + 1 for k in bad if k in p.fns and p.fns[k].get("scripts", 0) > p.fns[k].get("script", 0) + 1}
        if not more or left() < 200:
            break
        q = Proof()
        q.script, q.forced = {**p.script, **more}, set(p.forced)
        q = attempt(work, q)
        if not q.ok:
            break
        good = {k for k in more if q.fns[k]["status"] == "verified" and k not in q.forced and k not in {x["key"] for x in q.failed + q.undecided}}
        if not good:
            break
        q = Proof()
        q.script, q.forced = {**p.script, **{k: more[k] for k in good}}, set(p.forced)
        q = attempt(work, q)
        if not q.ok:
            break
        p = q
    return p


def attempt(work, p):
    for it in range(12):
        gen, mp, err = extract(work, p.forced, f"gen{it}", (), p.script)
        if gen is None:
            p.why = "extraction failed: " + err
            return p
        p.map = mp
        p.fns = {f["key"]: f for f in mp["functions"]}
        rc, out, diags, raw = verus(work, gen, ["--rlimit", "30"])
        if rc is None:
            p.why = "the verifier did not finish in time"
            return p
        if frontend(diags, out):
            new = set()
            for d in diags:
                for _, l, _ in lines_of(d):
                    f = owner(mp["functions"], l)
                    if f and f["key"] not in p.forced:
                        new.add(f["key"])
                        break
            if not new:
                p.why = "the verifier's front end rejects the extracted text: " + (diags[0].get("rendered") or "")[:1500]
                return p
            for k in new:
                f = p.fns[k]
                if f.get("scripts", 0) > f.get("script", 0) + 1:
                    p.script[k] = f["script"] + 1
                else:
                    p.forced.add(k)
            continue
        if "verification-results" not in out:
            p.why = "the verifier gave no result: " + raw[-1500:]
            return p
        break
    else:
        p.why = "the verifier's front end rejects the extracted text repeatedly"
        return p
    p.ok = True
    p.gen = gen
    p.results = out["verification-results"]
    p.times = out.get("times-ms", {})
    fl, und = failures(mp, diags)
    if fl or und:
        # only what also fails with other solver settings and more resources counts
        rc, out2, diags2, _ = verus(work, gen, ["--rlimit", "120", "--smt-option", "smt.random_seed=7"])
        if rc is not None and "verification-results" in out2:
            fl2, und2 = failures(mp, diags2)
            k2 = {(x["key"]) for x in fl2}
            u2 = {(x["key"]) for x in und2}
            und = [x for x in und + fl if x["key"] in u2 and x["key"] not in k2]
            fl = fl2 if len(fl2) <= len(fl) else [x for x in fl if x["key"] in k2]
    # only a step of the proof script fails, no contract, precondition or invariant: the script does not fit this text
    # (and a script for another shape of the function only ever confirms)
    hard = {x["key"] for x in fl if x["msg"] != "assertion failed" and not p.fns.get(x["key"], {}).get("script")}
    soft = [x for x in fl if x["key"] not in hard and x["key"] != "@prelude"]
    p.failed, p.undecided = [x for x in fl if x not in soft], und + soft
    for x in p.undecided:
        f = p.fns.get(x["key"])
        if f and not f.get("reason"):
            f["reason"] = "the proof script does not fit this text" if x in soft else "resource limit"
    return p


def probe(work, p):
    """assert(false) at every function and loop end must fail: no contract or invariant is contradictory"""
    gen, mp, err = extract(work, p.forced, "probe", ["--vacuity", "1"], p.script)
    if gen is None:
        return None, 0, "extraction failed"
    rc, out, diags, raw = verus(work, gen, ["--rlimit", "30"])
    if rc is None or frontend(diags, out) or "verification-results" not in out:
        return None, 0, "no result: " + ((diags[0].get("rendered") if diags else raw) or "")[:600]
    hit = set()
    bad = set()
    for d in diags:
        for _, l, _ in lines_of(d):
            hit.add(l)
        # a function in which something else failed or timed out is not vacuous either
        f = owner(mp["functions"], lines_of(d)[0][1])
        if f:
            bad.add(f["key"])
    text = open(gen).read().split("\n")
    loops, ends = [], []
    n = 0
    for i, t in enumerate(text, 1):
        if "/*VAC" in t:
            n += 1
            f = owner(mp["functions"], i)
            key = f["key"] if f else "?"
            if "loop" in t:
                if i not in hit and key in p.fns and not any(x["key"] == key for x in p.failed):
                    loops.append(f"{key}: {t.strip()[-13:-2]}")
            elif key not in bad:
                ends.append(key)
    return sorted(set(loops) | set(ends)), n, ""


# ------------------------------------------------------------------------------- search side
VH = os.path.join(VERIF, "harness/target/debug/vh")


def build_harness():
    rc, o, e = sh(["cargo", "build", "--offline", "-q"], 500, cwd=VERIF + "/harness")
    return rc == 0, e[-3000:]


def build_extract():
    rc, o, e = sh(["cargo", "build", "--offline", "-q"], 300, cwd=VERIF + "/extract")
    return rc == 0, e[-3000:]


def scenario(prop, name, seed, scale, limit=75):
    cmd = [VH, "run", prop, name, str(seed), str(scale), str(limit)]
    rc, o, e = sh(cmd, min(max(30, left()), 120 + 20 * scale))
    n = 0
    m = re.search(r"^OK (\d+) cases", o, re.M)
    if m:
        n = int(m.group(1))
    if rc == 0:
        return None, n
    line = next((l for l in o.splitlines() if l.startswith(("FAIL", "HANG"))), None)
    if line is None:
        if rc is None:
            line = "HANG the scenario did not finish"
        elif rc < 0:
            line = f"FAIL the process was ended by signal {-rc}"
        else:
            line = f"FAIL the process ended with status {rc}: {(o + e)[-400:]}".replace("\n", " ")
        if rc is None and left() < 40:
            return None, n  # out of time: no conclusion
        if rc == -9:
            return None, n  # killed from outside (memory): no conclusion
    return {"what": line, "cmd": "cd /verif/harness && cargo build --offline && ./target/debug/vh run " + " ".join(cmd[2:5] + cmd[5:6])}, n


def search(jobs, workers):
    """runs scenarios until one fails; returns (violation, cases, runs)"""
    cases = runs = 0
    found = None
    with cf.ThreadPoolExecutor(workers) as ex:
        fs = {}
        it = iter(jobs)
        def more():
            for j in it:
                fs[ex.submit(scenario, *j)] = j
                return
        for _ in range(workers):
            more()
        while fs:
            done, _ = cf.wait(fs, return_when=cf.FIRST_COMPLETED)
            for f in done:
                fs.pop(f)
                v, n = f.result()
                cases += n
                runs += 1
                if v and not found:
                    found = v
                if not found and left() > 60:
                    more()
    return found, cases, runs


def miri(prop, names, seeds, budget):
    """weak-memory interleavings and undefined behaviour under the interpreter"""
    tdir = os.path.join(VERIF, "harness/target/miri-run")
    flags = f"-Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks -Zmiri-disable-isolation -Zmiri-many-seeds={seeds}"
    env = dict(ENV, MIRIFLAGS="-Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks -Zmiri-disable-isolation")
    end = time.time() + budget
    rc, o, e = sh(["cargo", "+nightly", "miri", "run", "-q", "--offline", "--target-dir", tdir, "--", "list"], 180, cwd=VERIF + "/harness", env=env)
    if rc != 0:
        return None, 0
    runs = 0
    for n in names:
        if time.time() > end or left() < 90:
            break
        env["MIRIFLAGS"] = flags
        cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--target-dir", tdir, "--", "run", prop, n, str(SEED), "1"]
        rc, o, e = sh(cmd, min(end - time.time() + 60, left() - 30), cwd=VERIF + "/harness", env=env)
        runs += 1
        if rc not in (0, None):
            line = next((l for l in o.splitlines() if l.startswith("FAIL")), None)
            err = next((l for l in e.splitlines() if l.startswith("error") and "Undefined Behavior" in l), None)
            dead = next((l for l in e.splitlines() if "deadlock" in l and l.startswith("error")), None)
            if line or err or dead:
                return {"what": (line or err or dead) + f" (scenario {prop}/{n} under Miri)", "cmd": f'cd /verif/harness && MIRIFLAGS="{flags}" ' + " ".join(cmd), "output": e[-6000:]}, runs
    return None, runs


# ------------------------------------------------------------------------------- the check
def closure(fns, prop):
    """functions under contract on which the property depends: those tagged with it and all they call"""
    todo = [k for k, f in fns.items() if prop in f["props"]]
    seen = set()
    while todo:
        k = todo.pop()
        if k in seen or k not in fns:
            continue
        seen.add(k)
        for c in list(fns[k].get("calls", [])) + list(fns[k].get("inlined", [])):
            if c in fns:
                todo.append(c)
    return seen


def known_entries():
    r = {}
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) (\S+) (.*)", l)
            if m:
                r[(m.group(1), m.group(2))] = m.group(3).strip()
    except OSError:
        pass
    return r


def scan_trusted():
    out = []
    for f in ("stub.rs", "glue.rs", "consistent.rs", "protocol.rs"):
        t = open(os.path.join(VERIF, "prelude", f)).read()
        code = "\n".join(l.split("//")[0] for l in t.splitlines())
        out.append(f"prelude/{f}: {len(re.findall(r'external_body', code))} external_body items (assumed contracts of std and orx-* dependencies), "
                   f"{len(re.findall(r'axiom fn', code))} axioms, {len(re.findall(r'uninterp spec fn', code))} uninterpreted spec functions, "
                   f"{len(re.findall(r'assume_specification', code))} assumed specifications, {len(re.findall(r'[^_]assume[(]', code))} assumes, {len(re.findall(r'admit[(]', code))} admits")
    return out


ASSUMPTIONS = [
    "contracts of std and of the parts of the dependencies that are not extracted (concurrent pinned vecs; of PinnedConcurrentCol and ConcurrentOption see DESIGN.md) are assumed as written in prelude/stub.rs; that those on the shared state do not contradict each other is proved (prelude/consistent.rs: each is satisfiable in every world), and those on shared vecs are derived, for every interleaving and every value that may be read, from a view-based model of the counters, the element states and the element locks (prelude/protocol.rs)",
    "user callbacks and trait implementations (Clone, PartialEq, Debug, closures, iterators) do not call back into the same element while it is locked; PartialEq and Debug are arbitrary otherwise",
    "ExactSizeIterator::len is exact for the iterators given to extend and extend_for_idx",
    "memory ordering is covered by the ghost knowledge of the dependency contracts (which effects an atomic operation with a given Ordering makes visible); prelude/protocol.rs derives it from release/acquire messages of the counter of written positions; that compilers and hardware implement release/acquire, is assumed",
    "vecs under exclusive access (&mut, owned, not yet shared) are treated sequentially: Rust's borrow rules are assumed to give exclusivity; the reservation counter never reaches usize::MAX",
    "termination of spin waits in the dependencies (another thread's growth or access finishes) is assumed",
    "extraction drops attributes, doc comments, use items, visibility and lifetimes elision; it renames methods to w_<name> and threads the ghost world through calls",
]


def main():
    os.makedirs(EVID, exist_ok=True)
    for f in os.listdir(EVID):
        if f.startswith(f"replay_{PROP}_") or f == PROP + ".json":
            os.remove(os.path.join(EVID, f))
    work = tempfile.mkdtemp(prefix=f"vf_{PROP}_")
    try:
        return check(work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(work):
    ex = cf.ThreadPoolExecutor(4)
    fh = ex.submit(build_harness)
    okx, errx = build_extract()
    if not okx:
        p = Proof()
        p.why = "the extractor does not build: " + errx
        vac, nprobe, whyv = None, 0, p.why
    else:
        fp = ex.submit(prove, work)
        p = fp.result()
        if p.ok:
            vac, nprobe, whyv = probe(work, p)
        else:
            vac, nprobe, whyv = None, 0, "not executed"
    okh, errh = fh.result()
    if not okh:
        say("note: the harness does not build against this tree:", errh[-800:])
    if not p.ok:
        say("note: no proof attempt for this tree:", p.why[:800])

    need = closure(p.fns, PROP)
    mine = [x for x in p.failed if PROP in x["props"]]
    dep = [x for x in p.failed if PROP not in x["props"] and x["key"] in need]
    lost = sorted(k for k in need if p.fns[k]["status"] == "lost" or k in p.forced or any(u["key"] == k for u in p.undecided))
    bounded = sorted(k for k in need if p.fns[k]["status"] == "bounded" and k not in p.forced)
    trusted = sorted(k for k in need if p.fns[k]["status"] == "trusted")
    missing = p.map.get("missing", [])
    if any(x["key"] == "@prelude" for x in p.failed):
        say("note: a lemma of the prelude is not discharged")

    # ---- search for a concrete input
    names, mnames = [], []
    found, cases, runs, mruns = None, 0, 0, 0
    suspicious = bool(mine or dep or lost or not p.ok)
    if okh:
        rc, o, e = sh([VH, "list"], 30)
        for l in o.splitlines():
            a = l.split()
            if a[0] == PROP:
                names.append(a[1])
                if a[2] == "true":
                    mnames.append(a[1])
        scale = 30 if THOROUGH else 5
        seeds = [SEED * 1000 + i for i in range(4 if THOROUGH else 2)]
        found, cases, runs = search([(PROP, n, s, scale) for s in seeds for n in names], 4)
        if not found and suspicious:
            say("note: obligations open:", ", ".join(sorted({x["key"] for x in mine + dep} | set(lost)))[:600] or p.why[:200], "- searching longer")
            js = [(PROP, n, SEED * 1000 + 100 + i, 25) for i in range(3 if mine else 1) for n in names]
            f2, c2, r2 = search(js, 4)
            found, cases, runs = f2, cases + c2, runs + r2
        mylost = any(PROP in p.fns[k]["props"] for k in lost)
        if not found and (mine or mylost or THOROUGH):
            found, mruns = miri(PROP, mnames, "0..24" if mine else "0..16" if THOROUGH else "0..6", 1200 if THOROUGH else 240 if mine else 120)

    # ---- known findings
    listed = known_entries()
    kviol = None
    if okh:
        for k in KNOWN.get(PROP, []):
            v, _ = scenario(k, "known", SEED, 1)
            if v:
                if (PROP, k) in listed:
                    say(f"KNOWN-FINDING: property={PROP} {k} {listed[(PROP, k)]}")
                elif not found:
                    found = kviol = v

    # ---- verdict
    nviol, rep = 0, None
    if found or mine:
        nviol = 1
        rep = os.path.join(EVID, f"replay_{PROP}_0.txt")
        with open(rep, "w") as f:
            f.write(f"property {PROP} is violated by the code in {REPO}\n\n")
            if found:
                f.write(f"failing input: {found['what']}\nreplay: {found['cmd']}\n{found.get('output', '')}\n\n")
            for x in mine + dep:
                f.write(f"failed obligation in {x['key']} ({x['file']}:{x['line']}): {x['msg']}\n  clause: {x['clause']}\n{x['rendered']}\n")
            for k in lost:
                f.write(f"no proof for {k}: {p.fns[k]['reason']}\n")
        for x in (mine + dep)[:8]:
            say(f"obligation failed: {x['key']} ({x['file']}:{x['line']}): {x['msg']} {x['clause'][:160]}")
        if found:
            say("input:", found["what"][:700])
            say(f"VIOLATION property={PROP} replay={rep}")
        else:
            say(f"VIOLATION property={PROP} replay={rep} no-failing-input-found")

    # ---- evidence
    verified = sorted(k for k in need if p.ok and p.fns[k]["status"] == "verified" and k not in lost)
    failing = {x["key"] for x in p.failed}
    ens = [c for c in p.map.get("clauses", []) if c["key"] in need and c["kind"] == "ensures" and p.fns[c["key"]]["status"] == "verified"]
    badc = {(x["key"], x["clause"]) for x in p.failed if x["clause"]}
    obligations = len(ens) + len(verified) + len(lost)
    discharged = sum(1 for c in ens if (c["key"], c["text"]) not in badc and c["key"] not in lost) + sum(1 for k in verified if k not in failing and not any(x.startswith(k) for x in vac or []))
    perfn = {}
    for m in p.times.get("smt", {}).get("smt-run-module-times", []) or []:
        for f in m.get("function-breakdown", []):
            perfn[f["function"]] = f["time-micros"] / 1000.0
    trusted_base = scan_trusted() + [f"trusted function (no obligation): {k}: {p.fns[k]['reason']}" for k in trusted] + \
        [f"bounded, not proved: {k}: {p.fns[k]['reason']}" for k in bounded] + [f"not proved on this tree: {k}: {p.fns[k]['reason']}" for k in lost] + \
        ["Verus 0.2026.09.13 with Z3, rustc", "the extractor /verif/extract (syn based; its edits are listed in DESIGN.md)"]
    ev = {
        "property": PROP, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "proof",
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": "verus gen.rs --multiple-errors 6 --rlimit 30 (gen.rs = extract --repo /repo/src --contracts /verif/contracts --prelude /verif/prelude)",
            "trusted_base": trusted_base,
            "back_end": "Verus / Z3",
            "functions_under_contract": verified,
            "functions_trusted": trusted, "functions_bounded": bounded, "functions_without_proof_on_this_tree": lost,
            "postconditions": [c["key"] + ": " + c["text"] for c in ens if PROP in c["props"]],
            "whole_crate_verus_units": {k: p.results.get(k) for k in ("verified", "errors")},
            "solver_ms_total": round(sum(perfn.values()), 1), "verus_ms_total": p.times.get("total"),
            "slowest_ms": dict(sorted(perfn.items(), key=lambda x: -x[1])[:5]),
            "failed_obligations": [f"{x['key']}: {x['msg']}: {x['clause']}" for x in p.failed],
            "contracts_without_function": missing,
            "vacuity_probes": nprobe, "vacuous": vac if vac is not None else whyv,
            "search_scenarios": names, "search_runs": runs, "search_cases": cases, "miri_runs": mruns,
            "proof_available": p.ok, "proof_unavailable_reason": p.why,
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - T0, 1), "violations": nviol,
    }
    json.dump(ev, open(os.path.join(EVID, PROP + ".json"), "w"), indent=1)
    say(f"{PROP}: {discharged}/{obligations} obligations discharged over {len(verified)} functions, {runs} searches with {cases} cases, {mruns} under Miri, {ev['wall_s']} s")
    if nviol:
        return 1
    if not okh and not p.ok:
        say("no answer: neither the verifier nor the harness could be executed")
        return 2
    if p.ok and vac:
        # a contract that proves anything is no proof: on such a tree only the search counts
        say("note: vacuous contracts:", ", ".join(vac)[:500])
    if p.ok and not verified:
        say("note: no function of this property is under contract on this tree")
    return 0


sys.exit(main())
