"""Coverage-guided part of the thorough tier: libFuzzer drives the same suites as check.py."""
import glob, json, os, resource, shutil, subprocess, time

import check

FUZZ = os.path.join(check.VERIF, "fuzz")
BINARY = os.path.join(FUZZ, "target", "release", "suite")
PROCESSES = 8
SECONDS = int(os.environ.get("BAA_FUZZ_SECONDS", "300"))
# suites with fewer quick cases than this have cases which are too large for a fuzzer
MIN_CASES = 100_000


def build():
    env = check.cargo_env()
    env["RUSTUP_TOOLCHAIN"] = "nightly-x86_64-unknown-linux-gnu"
    for d in glob.glob(os.path.join(FUZZ, "target", "release", ".fingerprint", "baa-*")):
        shutil.rmtree(d, ignore_errors=True)
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--release"], cwd=FUZZ, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return None if p.returncode == 0 else p.stdout[-4000:]


def suites_of(prop):
    out = subprocess.run([check.binary("release"), "list"], stdout=subprocess.PIPE, text=True, check=True).stdout
    found = []
    for line in out.splitlines():
        p, name, kind, quick, _ = line.split()
        if p == prop and kind == "light" and int(quick.split("=")[1]) >= MIN_CASES and not name.split("_", 1)[1].startswith(("wide", "large")) \
                and "_wide" not in name and "_large" not in name:
            found.append(name)
    return found


def campaign(prop, seed, tmp):
    result = {"suites": [], "violations": [], "errors": []}
    names = suites_of(prop)
    if not names:
        return result
    err = build()
    if err:
        result["errors"].append("building the fuzz target failed: " + err)
        return result
    procs = []
    for k in range(max(PROCESSES, len(names))):
        name = names[k % len(names)]
        corpus, work = os.path.join(tmp, "corpus-" + name), os.path.join(tmp, f"fuzz-{k}")
        os.makedirs(corpus, exist_ok=True)
        os.makedirs(work)
        replay = os.path.join(check.REPLAYS, f"{prop}-{name}-libfuzzer{k}-seed{seed}.json")
        env = dict(os.environ, BAA_SUITE=name, BAA_FINDINGS=check.FINDINGS, BAA_OUT=os.path.join(tmp, f"{name}.fuzz{k}"),
                   BAA_REPLAY=replay)
        p = subprocess.Popen([BINARY, corpus, f"-seed={(seed * 1000 + k) % 2**31 + 1}", "-max_len=2048", f"-max_total_time={SECONDS}",
                              "-timeout=100", "-rss_limit_mb=3500", "-reload=5", "-verbosity=0", "-artifact_prefix=" + work + "/"],
                             cwd=work, env=env, preexec_fn=check.limits, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        procs.append((p, k, name, work, env, replay))
    end = time.time() + SECONDS + 150
    for p, k, name, work, env, replay in procs:
        try:
            rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            rc = p.wait()
        stats = env["BAA_OUT"] + ".json"
        if os.path.exists(stats):
            result["suites"].append(json.load(open(stats)))
        if rc == 99:
            r = json.load(open(replay))
            result["violations"].append({"suite": name, "profile": "checked", "replay": replay, "message": r["message"],
                                         "case": r["case_text"]})
        elif rc != 0:
            found = False
            for artifact in sorted(glob.glob(os.path.join(work, "*-*"))):
                subprocess.run([BINARY, artifact], env=dict(env, BAA_DUMP=replay), cwd=work, stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL)
                rc2 = check.run([check.binary("checked"), "replay", replay, "--findings", check.FINDINGS], 100) if os.path.exists(replay) else 2
                if rc2 not in (0, 2):
                    found = True
                    result["violations"].append({"suite": name, "profile": "checked", "replay": replay,
                                                 "message": f"ends the process or does not end (exit {rc2})",
                                                 "case": json.load(open(replay))["case_text"]})
            if not found:
                result["errors"].append(f"libfuzzer process {k} ({name}) ended with {rc} and no input that repeats it")
    return result
