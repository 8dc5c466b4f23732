#!/usr/bin/env python3
"""Decides one property: check.py <ID> [quick|thorough].

Builds the harness against /repo's current working tree twice (optimised with and without debug
assertions), runs the property's generated-input suites with both, writes evidence/<ID>.json and
replay files. Exit 0: held on everything explored; 1: VIOLATION; anything else: no answer.
"""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
FINDINGS = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
REPLAYS = os.path.join(VERIF, "evidence", "replays")
PROFILES = ["release", "checked"]
GIB = 1 << 30
# seconds: no case starts after `deadline`, the process ends itself at `limit`, a case that runs for `stall` hangs;
# a heavy suite starts no case after `each`, is ended after `most`, and all of them together get `heavy`
TIMES = {"quick": dict(deadline=190, limit=250, stall=100, each=40, most=100, heavy=200),
         "thorough": dict(deadline=2400, limit=3000, stall=100, each=300, most=600, heavy=3600)}


def cargo_env():
    env = dict(os.environ)
    for v in ["CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"]:
        env.pop(v, None)
    env.setdefault("HOME", "/root")
    env.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    return env


def build(profiles=PROFILES):
    """Always recompiles baa and the harness: file times are not trusted."""
    procs = []
    for p in profiles:
        fp = os.path.join(HARNESS, "target", p, ".fingerprint")
        for d in os.listdir(fp) if os.path.isdir(fp) else []:
            if d.startswith("baa-"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        procs.append((p, subprocess.Popen(["cargo", "build", "--offline", "--locked", "--profile", p], cwd=HARNESS,
                                          env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    ok = True
    for p, pr in procs:
        out, _ = pr.communicate()
        if pr.returncode != 0:
            print(f"ERROR: building the harness ({p}) failed:\n{out[-6000:]}", file=sys.stderr)
            ok = False
    return ok


def binary(profile):
    return os.path.join(HARNESS, "target", profile, "baa-pbt")


def limits(gib=20):
    # runaway allocations of the code under test abort this process instead of the sandbox
    resource.setrlimit(resource.RLIMIT_AS, (gib * GIB, gib * GIB))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run(cmd, timeout):
    """-> exit code (negative: signal), None on timeout"""
    try:
        return subprocess.run(cmd, preexec_fn=limits, timeout=timeout, cwd=VERIF).returncode
    except subprocess.TimeoutExpired:
        return None


def open_findings():
    out = {}
    for line in open(FINDINGS):
        if line.startswith("open: property="):
            prop, sig, text = line[len("open: property="):].rstrip("\n").split(" ", 2)
            out[(prop, sig[len("sig="):])] = text
    return out


def locate_crash(prop, profile, seed, trace, tmp):
    """The process crashed or hung: finds the responsible case among those that were running."""
    found = []
    try:
        records = open(trace).read().splitlines()
    except OSError:
        records = []
    for i, rec in enumerate(records):
        f = rec.replace("\0", "").split()
        if len(f) != 3:
            continue
        path = os.path.join(REPLAYS, f"{prop}-{f[0]}-{profile}-seed{seed}-crash{i}.json")
        if run([binary(profile), "regen", *f, "--seed", str(seed), "--out", path], 300) != 0:
            continue
        rc = run([binary(profile), "replay", path, "--findings", FINDINGS], 60)
        if rc == 0 or rc == 2:
            os.remove(path)
            continue
        how = "does not end" if rc is None else "violates the property" if rc == 1 else f"ends the process (exit {rc})"
        found.append({"suite": f[0], "profile": profile, "replay": path, "message": how,
                      "case": json.load(open(path))["case_text"]})
        break
    return found


def heavy_suites(prop):
    out = subprocess.run([binary("release"), "list"], stdout=subprocess.PIPE, text=True, check=True).stdout
    rows = [line.split() for line in out.splitlines()]
    return [r[1] for r in rows if r[0] == prop and r[2] == "heavy"]


def ran_out_of_memory(rc, stderr):
    """Killed, or an allocation failed which is of a size that a correct way of doing it may need."""
    if rc == -9:
        return True
    sizes = [int(n) for n in re.findall(r"memory allocation of (\d+) bytes failed", stderr)]
    return bool(sizes) and max(sizes) < 64 * GIB


def run_heavy(prop, seed, tier, tmp, times):
    """The suites whose cases are large, each in a process of its own. Being slow or in need of memory breaks no
    property: such a suite ends without an answer, which the evidence names."""
    suites, violations, errors, undecided = [], [], [], []
    end = time.time() + times["heavy"]
    for name in heavy_suites(prop):
        left = end - time.time()
        if left < 10:
            undecided.append({"suite": name, "why": "no time left"})
            continue
        procs = []
        for profile in PROFILES:
            base = os.path.join(tmp, f"{profile}-{name}")
            cmd = [binary(profile), "check", prop, "--seed", str(seed), "--tier", tier, "--out", base + ".json",
                   "--replay-dir", REPLAYS, "--findings", FINDINGS, "--trace", base + ".trace", "--hash-dir", tmp,
                   "--suite", name, "--stall", "100000", "--limit", "100000", "--deadline", str(times["each"])]
            procs.append((profile, base, subprocess.Popen(cmd, preexec_fn=lambda: limits(14), cwd=VERIF,
                                                          stderr=open(base + ".stderr", "w"))))
        stop = time.time() + min(times["most"], left)
        for profile, base, p in procs:
            try:
                rc = p.wait(max(0.1, stop - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                undecided.append({"suite": name, "profile": profile, "why": "took too long"})
                continue
            stderr = open(base + ".stderr", errors="replace").read()
            if rc in (0, 1, 3) and os.path.exists(base + ".json"):
                r = json.load(open(base + ".json"))
                suites += r["suites"]
                violations += r["violations"]
                errors += r["errors"]
            elif ran_out_of_memory(rc, stderr):
                undecided.append({"suite": name, "profile": profile, "why": "needs too much memory"})
            else:
                found = locate_crash(prop, profile, seed, base + ".trace", tmp)
                violations += found
                if not found:
                    undecided.append({"suite": name, "profile": profile, "why": f"ended with {rc}: {stderr[-300:]}"})
    return suites, violations, errors, undecided


def main():
    prop = sys.argv[1]
    if prop == "--build":
        return 0 if build() else 2
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    started = time.time()
    if not build():
        return 2
    built = time.time() - started
    os.makedirs(REPLAYS, exist_ok=True)
    for f in os.listdir(REPLAYS):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(REPLAYS, f))
    tmp = tempfile.mkdtemp(prefix="baa-pbt-")
    suites, violations, errors, known = [], [], [], {}
    undecided = []
    times = TIMES["thorough" if tier == "thorough" else "quick"]
    try:
        for profile in PROFILES:
            out, trace = os.path.join(tmp, profile + ".json"), os.path.join(tmp, profile + ".trace")
            rc = run([binary(profile), "check", prop, "--seed", str(seed), "--tier", tier, "--out", out,
                      "--replay-dir", REPLAYS, "--findings", FINDINGS, "--trace", trace, "--hash-dir", tmp,
                      "--light", "--stall", str(times["stall"]), "--limit", str(times["limit"]),
                      "--deadline", str(times["deadline"])], times["limit"] + 20)
            if rc in (0, 1, 3) and os.path.exists(out):
                r = json.load(open(out))
                suites += r["suites"]
                violations += r["violations"]
                errors += r["errors"]
            elif rc == 2:
                errors.append(f"{profile}: the harness refused its arguments")
            else:
                found = locate_crash(prop, profile, seed, trace, tmp)
                violations += found
                if not found:
                    errors.append(f"{profile}: no answer (exit {rc}) and no case that repeats it")
        s, v, e, undecided = run_heavy(prop, seed, tier, tmp, times)
        suites, violations, errors = suites + s, violations + v, errors + e
        if tier == "thorough" and not violations and os.path.exists(os.path.join(VERIF, "fuzz.py")):
            import fuzz
            fr = fuzz.campaign(prop, seed, tmp)
            suites += fr["suites"]
            violations += fr["violations"]
            errors += fr["errors"]
        # distinct cases over all runs of a suite
        distinct = {}
        for name in sorted({s["suite"] for s in suites}):
            files = [os.path.join(tmp, f) for f in sorted(os.listdir(tmp)) if f.startswith(name + ".") and f.endswith(".hashes")]
            if files:
                distinct[name] = int(subprocess.run([binary("release"), "distinct", *files], stdout=subprocess.PIPE, text=True,
                                                    check=True).stdout)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for s in suites:
        for sig, n in s["known"].items():
            known[sig] = known.get(sig, 0) + n
    rules = {}
    for s in suites:
        rules.setdefault(s["suite"], s["rule"])
    samples = []
    for s in suites:
        samples += [{"suite": s["suite"], "profile": s["profile"], "case": c} for c in s["samples"][:2]]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in suites),
            "distinct_nontrivial": sum(distinct.values()),
            "rule": " | ".join(f"{n}: {r}" for n, r in rules.items()) + " | every suite runs in a build with and one without debug "
                    "assertions, on different cases; distinct: by a 64-bit hash of the whole case",
            "samples": samples,
            "suites": [{k: s[k] for k in ("suite", "profile", "evaluations", "nontrivial", "classes")} for s in suites],
            "distinct_nontrivial_by_suite": distinct,
            "known_findings_hit": known,
            "suites_without_answer": undecided,
        },
        "wall_s": round(time.time() - started, 2),
        "build_s": round(built, 2),
        "violations": len(violations),
        "violation_details": violations,
        "errors": errors,
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
    listed = open_findings()
    for (p, sig), text in sorted(listed.items()):
        if p == prop and sig in known:
            print(f"KNOWN-FINDING: property={p} sig={sig} ({known[sig]} cases) {text}")
    print(f"{prop} {tier}: {evidence['coverage']['evaluations']} cases, {evidence['coverage']['distinct_nontrivial']} distinct non-trivial, "
          f"{evidence['wall_s']} s")
    for u in undecided:
        print(f"  no answer: {u}")
    for v in violations:
        print(f"  {v['suite']} [{v['profile']}]: {v['message'][:600]}\n    case: {v['case'][:600]}")
        print(f"VIOLATION property={prop} replay={v['replay']}")
    if violations:
        return 1
    if errors:
        print("ERROR: " + "; ".join(errors), file=sys.stderr)
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
