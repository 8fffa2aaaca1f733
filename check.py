#!/usr/bin/env python3
"""Builds the harness for one property from /repo's working tree, runs it, and
writes evidence/<id>.json.

  check.py C04                     tier and seed from VERIF_TIER / VERIF_SEED
  check.py C04 --replay FILE       re-run one saved failing case

Exit 0: held. Exit 1 and a VIOLATION line: broken. Exit 2: no answer (build or
machine trouble), never used for a property verdict.
"""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from plan import PLAN, ASSUME  # noqa: E402

REPO = os.environ.get("VH_REPO", "/repo")
MODULE = "github.com/sencha-dev/powkit"
ZZ = "internal/zzverif"
DEADLINE = 840.0
T0 = time.time()


def die(msg, code=2):
    print("check: " + msg, file=sys.stderr)
    sys.exit(code)


def goenv():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off", GOWORK="off")
    return e


def prepare(scratch):
    """Overlay and module file that add the harness to the repository's module."""
    rep = {}
    h = os.path.join(VERIF, "harness")
    for area in sorted(os.listdir(h)):
        d = os.path.join(h, area)
        if area == "inpkg" or not os.path.isdir(d):
            continue
        for f in sorted(glob.glob(d + "/*.go")):
            rep[f"{REPO}/{ZZ}/{area}/{os.path.basename(f)}"] = f
    # in-package parts: harness/inpkg/<pkg with __ for />/x_test.go
    for f in sorted(glob.glob(h + "/inpkg/*/*.go")):
        pkg = os.path.basename(os.path.dirname(f)).replace("__", "/")
        rep[f"{REPO}/{pkg}/{os.path.basename(f)}"] = f
    # the repository's own tests are not wanted in these binaries
    for f in glob.glob(REPO + "/**/*_test.go", recursive=True):
        rep.setdefault(f, "")
    ov = os.path.join(scratch, "overlay.json")
    json.dump({"Replace": rep}, open(ov, "w"))
    mod = os.path.join(scratch, "verif.mod")
    src = open(os.path.join(REPO, "go.mod")).read()
    src += f"\nrequire pgregory.net/rapid v1.3.0\n\nreplace pgregory.net/rapid => {VERIF}/third_party/rapid\n"
    open(mod, "w").write(src)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(scratch, "verif.sum"))
    return ov, mod


def build(unit, scratch, ov, mod):
    out = os.path.join(scratch, unit["name"] + ".bin")
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", ov, "-modfile", mod, "-o", out]
    if unit.get("race"):
        cmd.append("-race")
    cmd.append("./" + unit["pkg"])
    p = subprocess.run(cmd, cwd=REPO, env=dict(goenv(), **unit.get("goenv", {})), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        return None, p.stdout
    return out, p.stdout


def build_tools(scratch, ov, mod, tools):
    """Plain commands of the repository that a check drives (name -> package)."""
    env = {}
    for name, pkg in tools.items():
        pkg, target = pkg if isinstance(pkg, tuple) else (pkg, {})
        out = os.path.join(scratch, "tool-" + name)
        p = subprocess.run(["go", "build", "-overlay", ov, "-modfile", mod, "-o", out, "./" + pkg], cwd=REPO, env=dict(goenv(), **target),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            die(f"building {pkg} failed:\n{p.stdout}")
        env["VH_TOOL_" + name.upper().replace("-", "_")] = out
    return env


def run_shard(unit, binary, shard, shards, scratch, pid, tier, seed, extra):
    d = os.path.join(scratch, f"{unit['name']}-{shard}")
    os.makedirs(d + "/out", exist_ok=True)
    os.makedirs(d + "/tmp", exist_ok=True)
    env = goenv()
    env.update(VH_PROPERTY=pid, VH_OUT=d + "/out", VH_SEED=str(seed), VH_SHARD=str(shard), VH_SHARDS=str(shards),
               VH_TIER=tier, TMPDIR=d + "/tmp", VH_DATA=os.path.join(VERIF, "data"), VH_REPO=REPO,
               VH_REGRESS=os.path.join(VERIF, "regress", pid), VH_BIN=binary,
               VH_BUDGET=str(420 if tier == "quick" else 660),
               GOMAXPROCS=str(unit.get("procs", 2)), GOTRACEBACK="all",
               GORACE=f"halt_on_error=1 exitcode=66 history_size=3")
    env.update(unit.get("env", {}))
    env.update(extra)
    args = [binary, "-test.run", unit["run"], "-test.timeout", "0", "-test.count", "1"]
    log = open(d + "/log", "wb")
    left = max(5.0, DEADLINE - (time.time() - T0))
    p = subprocess.Popen(args, cwd=d, env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
    timed_out = False
    try:
        rc = p.wait(timeout=left)
    except subprocess.TimeoutExpired:
        timed_out = True
        rc = None
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    log.close()
    text = open(d + "/log", "rb").read().decode("utf-8", "replace")
    return dict(dir=d, rc=rc, timeout=timed_out, log=text, unit=unit, shard=shard)


def repo_frames(text):
    """Stack lines in the code under test, harness frames left out."""
    return [l.strip() for l in text.splitlines()
            if MODULE in l and "/zzverif/" not in l and "(" in l][:12]


def crash_report(sh):
    """A process that died inside a case: (error text, infra?)"""
    rc, text = sh["rc"], sh["log"]
    if "WARNING: DATA RACE" in text:
        part = text[text.index("WARNING: DATA RACE"):]
        part = part[:part.find("==================") if "==================" in part else 4000]
        # both accesses have to be in code reached from powkit
        halves = re.split(r"Previous (?:read|write)|Previous atomic", part, maxsplit=1)
        tops = []
        for h in halves[:2]:
            fr = [l.strip() for l in h.splitlines() if re.match(r"\s+[\w./\-]+.*\(\)$", l)]
            tops.append(fr)
        if repo_frames(part) and all(any(MODULE in f and "/zzverif/" not in f for f in t) for t in tops if t):
            return "data race\n" + part[:3000], False
        return "data race outside the code under test\n" + part[:3000], True
    if rc is not None and rc < 0 and -rc == signal.SIGKILL:
        return "killed (out of memory?)", True
    m = re.search(r"^(fatal error: .*|panic: .*|unexpected fault address.*|SIGBUS.*|SIGSEGV.*)$", text, re.M)
    if m and ("out of memory" in text or "cannot allocate memory" in text):
        return m.group(1), True
    if m and repo_frames(text):
        return m.group(1) + "\n" + "\n".join(repo_frames(text)), False
    return (m.group(1) if m else f"exit status {rc}") + "\n" + text[-2000:], True


def keep_log(pid, sh):
    """The log of a process that gave no answer, for whoever looks into it."""
    rd = os.path.join(VERIF, "replays")
    os.makedirs(rd, exist_ok=True)
    with open(os.path.join(rd, f"noanswer-{pid}-{sh['unit']['name']}-{sh['shard']}.log"), "w") as f:
        f.write(f"rc {sh['rc']}\n" + sh["log"][:100000] + "\n...\n" + sh["log"][-100000:])


def short(s, n=600):
    return s if len(s) <= n else s[:n] + "..."


def main():
    if sys.argv[1:] == ["--setup"]:
        # nothing is kept from setup: this only shows early that all parts build
        scratch = tempfile.mkdtemp(prefix="vh-setup-")
        try:
            ov, mod = prepare(scratch)
            units = {x["name"] + x["pkg"]: x for p in PLAN.values() for x in p["units"]}
            for x in units.values():
                b, out = build(x, scratch, ov, mod)
                if not b and not x.get("optional"):
                    die(f"building {x['pkg']} failed:\n{out}")
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        print("setup: all parts build")
        return 0
    if len(sys.argv) < 2 or sys.argv[1] not in PLAN:
        die("usage: check.py ID [--replay FILE]; ids: " + " ".join(PLAN))
    pid = sys.argv[1]
    replay = None
    if "--replay" in sys.argv:
        replay = os.path.abspath(sys.argv[sys.argv.index("--replay") + 1])
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    plan = PLAN[pid]
    scratch = tempfile.mkdtemp(prefix=f"vh-{pid}-", dir=os.environ.get("VH_SCRATCH") or None)
    try:
        return run(pid, plan, tier, seed, replay, scratch)
    finally:
        if not os.environ.get("VH_KEEP"):
            shutil.rmtree(scratch, ignore_errors=True)


def run(pid, plan, tier, seed, replay, scratch):
    ov, mod = prepare(scratch)
    units = plan["units"]
    notes = []
    with ThreadPoolExecutor(len(units)) as ex:
        built = list(ex.map(lambda u: build(u, scratch, ov, mod), units))
    live = []
    for u, (b, out) in zip(units, built):
        if b:
            live.append((u, b))
        elif u.get("optional"):
            notes.append(f"in-package part {u['name']} does not compile against this tree and was skipped")
            print("note: " + notes[-1])
        else:
            die(f"building {u['pkg']} failed:\n{out}")
    extra = build_tools(scratch, ov, mod, plan.get("tools", {}))
    t_build = time.time() - T0

    if replay:
        bad = 0
        ran = 0
        for u, b in live:
            sh = run_shard(u, b, 0, 1, scratch, pid, tier, seed, dict(extra, VH_REPLAY=replay))
            for f in glob.glob(sh["dir"] + "/out/*.result"):
                r = json.load(open(f))
                ran += 1
                if r.get("harness_error"):
                    die(r["harness_error"])
                if r.get("failure"):
                    bad += 1
                    print(r["failure"]["error"])
            if glob.glob(sh["dir"] + "/out/*.current"):
                ran += 1
                err, infra = crash_report(sh)
                print(err)
                if infra:
                    die("the replay did not finish")
                bad += 1
        if not ran:
            die("no property of this check matches the replay file")
        if bad:
            print(f"VIOLATION property={pid} replay={replay}")
            return 1
        print("replay: the case passes")
        return 0

    jobs = []
    with ThreadPoolExecutor(16) as ex:
        for u, b in live:
            n = u.get("shards", 8)
            for i in range(n):
                jobs.append(ex.submit(run_shard, u, b, i, n, scratch, pid, tier, seed, extra))
        shards = [j.result() for j in jobs]
    for i, sh in enumerate(shards):
        # a process that died with nothing of powkit on its stacks gets a second
        # go: the machine may have been short of something
        if sh["rc"] in (0, 1, 3) or sh["timeout"] or not crash_report(sh)[1]:
            continue
        keep_log(pid, sh)
        shutil.rmtree(sh["dir"], ignore_errors=True)
        notes.append(f"{sh['unit']['name']} shard {sh['shard']} died outside powkit and was run again")
        b = next(b for u, b in live if u is sh["unit"])
        shards[i] = run_shard(sh["unit"], b, sh["shard"], sh["unit"].get("shards", 8), scratch, pid, tier, seed, extra)

    ev, samples, labels, rules, hashes = 0, [], {}, {}, set()
    perprop, skipped, fails, infra = {}, 0, [], []
    for sh in shards:
        for f in sorted(glob.glob(sh["dir"] + "/out/*.result")):
            r = json.load(open(f))
            ev += r["evaluations"]
            skipped += r["skipped_budget"]
            pp = perprop.setdefault(r["prop"], dict(evaluations=0, nontrivial=0, classes={}, cpu_s=0))
            pp["evaluations"] += r["evaluations"]
            pp["cpu_s"] = round(pp["cpu_s"] + r["wall_s"], 2)
            for k, v in r["labels"].items():
                pp["classes"][k] = pp["classes"].get(k, 0) + v
            rules[r["prop"]] = r["rule"]
            if sum(1 for s in samples if s["prop"] == r["prop"]) < 3:
                samples += (r["samples"] or [])[:2]
            hb = open(f[:-len(".result")] + ".hashes", "rb").read()
            hs = {hb[i:i + 8] for i in range(0, len(hb), 8)}
            pp.setdefault("_h", set()).update(hs)
            if r.get("harness_error"):
                infra.append(f"{r['prop']}: {r['harness_error']}")
            elif r.get("failure"):
                fails.append(r["failure"])
        for f in sorted(glob.glob(sh["dir"] + "/out/*.current")):
            err, isinfra = crash_report(sh)
            if sh["timeout"]:
                infra.append(f"{sh['unit']['name']} shard {sh['shard']} ran out of time")
                continue
            try:
                cur = json.loads(open(f).read() or "{}")
            except ValueError:
                cur = {}
            if isinfra:
                infra.append(err)
                keep_log(pid, sh)
            else:
                fails.append(dict(property=pid, prop=cur.get("prop", "?"), error=err, case=cur.get("case")))
        if sh["rc"] not in (0, 1, 3) and not glob.glob(sh["dir"] + "/out/*.current"):
            # died between properties: a background goroutine of an earlier case
            err, isinfra = crash_report(sh)
            if sh["timeout"] or isinfra:
                infra.append("timeout" if sh["timeout"] else err)
                keep_log(pid, sh)
            else:
                fails.append(dict(property=pid, prop="?", error=err, case=None))
        if not glob.glob(sh["dir"] + "/out/*.result") and not fails and not infra:
            infra.append(f"{sh['unit']['name']} shard {sh['shard']} produced nothing:\n{sh['log'][-2000:]}")
    for name, pp in perprop.items():
        pp["nontrivial"] = len(pp.pop("_h", set()))
        hashes_n = pp["nontrivial"]
        if pp["evaluations"] == 0 and not fails:
            infra.append(f"{name}: no case was evaluated")
    distinct = sum(p["nontrivial"] for p in perprop.values())

    seen, uniq = set(), []
    for f in fails:
        k = (f["prop"], f["error"].splitlines()[0][:60])
        if f["prop"] not in seen:
            seen.add(f["prop"])
            uniq.append(f)
    known, fresh = [], []
    for f in uniq:
        k = match_known(pid, f)
        (known if k else fresh).append((f, k))

    evid = dict(property=pid, tier=tier, seed=seed, level=plan.get("level", "exploration"),
                coverage=dict(evaluations=ev, distinct_nontrivial=distinct,
                              rule=" | ".join(f"{k}: {v}" for k, v in rules.items()) or "no case ran",
                              samples=[dict(prop=s["prop"], labels=s["labels"], case=s["case"]) for s in samples][:24],
                              per_prop=perprop, skipped_for_time=skipped, build_s=round(t_build, 1), notes=notes),
                assumptions=ASSUME.get("*", []) + ASSUME.get(pid, []),
                wall_s=round(time.time() - T0, 2), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{pid}.tmp")
    json.dump(evid, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))

    for f, k in known:
        print(f"KNOWN-FINDING: property={pid} {k}")
    if fresh:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        for f, _ in fresh:
            name = f"{pid}-{hashlib.sha256(json.dumps(f, sort_keys=True).encode()).hexdigest()[:12]}.json"
            path = os.path.join(rd, name)
            json.dump(f, open(path, "w"), indent=1)
            print(f"{f['prop']}: {short(f['error'])}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if infra:
        for i in infra[:5]:
            print("check: " + i, file=sys.stderr)
        return 2
    print(f"{pid}: held on {ev} cases ({distinct} distinct non-trivial), {evid['wall_s']} s, seed {seed}, {tier}")
    return 0


def match_known(pid, f):
    """Lines 'finding: property=C00 prop=<name> match=<text in the case> :: what fails'."""
    path = os.path.join(VERIF, "known_findings.txt")
    for line in open(path):
        m = re.match(r"finding: property=(\S+) prop=(\S+) match=(.*?) :: (.*)$", line.strip())
        if m and m.group(1) == pid and m.group(2) == f["prop"] and m.group(3) in json.dumps(f.get("case")):
            return m.group(4)
    return None


if __name__ == "__main__":
    sys.exit(main())
