#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property on /repo's current working tree.

Exit 0: it held on everything explored. Exit 1 and a VIOLATION line: it is broken. Exit 2: no
answer (the checker could not be built or did not finish, for reasons not traced to the property).
check.py --replay FILE: run the failing work item of a violation again.
"""
import fcntl, glob, json, os, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
T0 = time.time()
BOTH = ["checked", "release"]
CHECKS = {f"C{n:02}": dict(crate="mc", bin=f"c{n:02}", profiles=BOTH) for n in range(1, 19)}
CHECKS["C15"] = dict(crate="mcs", bin="c15", profiles=["checked"])
CHECKS["C16"] = dict(crate="mc16", bin="c16", profiles=["dev"])
CHECKS["C18"] = dict(crate="mc", bin="c18", profiles=["dev", "release"])
MEMORY = 12 << 30
DEADLINE = {"quick": 820, "thorough": 6 * 3600}


def say(*a):
    print(*a, flush=True)


def no_answer(why):
    say(f"no answer: {why}")
    sys.exit(2)


def left(tier):
    return max(5, DEADLINE[tier] - (time.time() - T0))


def cargo(crate, args, tier):
    d = os.path.join(HERE, crate)
    with open(os.path.join(HERE, f".lock.{crate}"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        # Never trust timestamps: the library is compiled again from /repo as it is now.
        for g in (".fingerprint/rangetools-*", "build/rangetools", "build/rangetools-*"):
            for f in glob.glob(os.path.join(d, "target", "*", g)):
                shutil.rmtree(f, ignore_errors=True)
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
        for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_BUILD_TARGET"):
            env.pop(k, None)
        try:
            p = subprocess.run(["cargo", "build", "--offline", "--locked", *args], cwd=d, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=left(tier))
        except subprocess.TimeoutExpired:
            no_answer("the build did not finish")
        return p.returncode, p.stdout


def exe(crate, profile, b):
    return os.path.join(HERE, crate, "target", "debug" if profile == "dev" else profile, b)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run(cmd, tier, timeout=None):
    """Return code of the checker (negative: killed by a signal), None if it ran out of time."""
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", preexec_fn=limits, timeout=timeout or left(tier))
    except subprocess.TimeoutExpired:
        return None, ""
    return p.returncode, p.stdout[-4000:]


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return {}


def violation(pid, tier, v, cov, wall):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", f"{pid}.json")
    with open(path, "w") as f:
        json.dump(dict(property=pid, tier=tier, **v), f, indent=1)
    say(f"{pid}: {v.get('case', '')}: {v.get('detail', '')}"[:3000])
    evidence(pid, tier, cov, 1)
    say(f"VIOLATION property={pid} replay={path}")
    sys.exit(1)


def evidence(pid, tier, cov, violations):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    e = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
             assumptions=["the exploration is deterministic and takes no random choices",
                          "64-bit target (thorough: also a 32-bit one); rustc and std are trusted",
                          "bounds and small-scope arguments as stated in DESIGN.md"],
             wall_s=round(time.time() - T0, 2), violations=violations)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(e, f, indent=1)


def known(pid):
    """Open findings: lines `finding: property=<id> family=<family> case=<case>`."""
    out = []
    try:
        for line in open(os.path.join(HERE, "KNOWN_FINDINGS.md")):
            if line.startswith(f"finding: property={pid} "):
                out.append(line.strip())
    except OSError:
        pass
    return out


def reproduce(pid, tier, profile, spec, items, what, tmp, cov, hang):
    """A crash or hang: run each suspected item alone, logging each step before it is taken."""
    binary = exe(spec["crate"], profile, spec["bin"])
    for fam, item in items:
        out, cases = os.path.join(tmp, "again.json"), os.path.join(tmp, "cases")
        for p in (out, cases):
            if os.path.exists(p):
                os.unlink(p)
        cmd = [binary, "--out", out, "--item", fam, str(item), "--cases", cases, "--hang", str(hang)]
        if tier == "thorough":
            cmd.append("--thorough")
        rc, text = run(cmd, tier, timeout=min(left(tier), hang * 3))
        if rc == 0 or rc == 4:
            continue
        j = load(out)
        base = dict(profile=profile, family=fam, item=item)
        if rc == 1 and j.get("violation"):
            violation(pid, tier, dict(base, **j["violation"]), cov, 0)
        how = "does not return" if rc in (3, None) else f"ends the process (status {rc})"
        try:
            step = open(cases, errors="replace").read()
        except OSError:
            step = ""
        if step.startswith("B\t"):
            violation(pid, tier, dict(base, case=step[2:], detail=f"{how} {text.strip()[-300:]}"), cov, 0)
        say(f"{fam} item {item} {how} outside what {pid} states: {step[:500]}")
    no_answer(f"{pid} ({profile}): {what}, not traced to the property")


def check(pid, tier):
    spec = CHECKS[pid]
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], exhaustive=True, profiles={})
    if pid == "C16":
        return check16(pid, tier, spec, cov)
    hang = 100 if tier == "quick" else 600
    with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
        for profile in spec["profiles"]:
            rc, log = cargo(spec["crate"], ["--profile", profile, "--bin", spec["bin"]], tier)
            if rc != 0:
                if pid == "C15" and "error" in log:
                    # Does it compile when serde is off? Then serialisation is what does not.
                    rc2, _ = cargo("mc", ["--profile", profile, "--lib"], tier)
                    rustc = any(l.startswith("error[E") or l.startswith("error: cannot find") for l in log.splitlines())
                    if rc2 == 0 and rustc:
                        violation(pid, tier, dict(profile=profile, case="compiling serialisation of every bound, range and set type",
                                                  detail="does not compile with the serde feature although the library does without", log=log[-6000:]), cov, 0)
                say(log[-4000:])
                no_answer(f"{pid}: the checker does not build")
            out, journal = os.path.join(tmp, "out.json"), os.path.join(tmp, "journal")
            cmd = [exe(spec["crate"], profile, spec["bin"]), "--out", out, "--journal", journal, "--hang", str(hang)]
            if tier == "thorough":
                cmd.append("--thorough")
            rc, text = run(cmd, tier)
            j = load(out)
            if rc == 1 and j.get("violation"):
                merge(cov, profile, j)
                v = dict(profile=profile, **j["violation"])
                violation(pid, tier, v, cov, 0)
            elif rc == 3 and j.get("hang"):
                h = j["hang"]
                reproduce(pid, tier, profile, spec, [(h["family"], h["item"])], "a work item did not finish", tmp, cov, 60 if tier == "quick" else 600)
            elif rc is None:
                no_answer(f"{pid}: out of time")
            elif rc != 0 or "states" not in j:
                items = []
                try:
                    raw = open(journal, "rb").read()
                    for k in range(0, len(raw), 128):
                        line = raw[k:k + 128].decode(errors="replace").strip()
                        if "\t" in line:
                            fam, item = line.split("\t")
                            items.append((fam, int(item)))
                except OSError:
                    pass
                say(text[-1500:])
                reproduce(pid, tier, profile, spec, items, f"the checker ended with status {rc}", tmp, cov, 60 if tier == "quick" else 600)
            else:
                merge(cov, profile, j)
        if tier == "thorough" and pid not in ("C15", "C18"):
            wasm(pid, tier, spec, cov, tmp)
    for k in known(pid):
        say(f"KNOWN-FINDING: {k[len('finding: '):]}")
    evidence(pid, tier, cov, 0)
    say(f"{pid} held: {cov['states']} states, {cov['transitions']} transitions, {cov['traces_validated_against_impl']} executions of the real code compared, {time.time() - T0:.0f} s")


def wasm_build(spec, tier):
    """The checker for a 32-bit usize, as WebAssembly. None (and why) where the toolchain cannot."""
    try:
        root = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True).stdout.strip()
        vendor = os.path.join(root, "lib/rustlib/src/rust/library/vendor")
        if not os.path.isdir(vendor) or not shutil.which("node"):
            return None, "no nightly std source or no node"
    except OSError as e:
        return None, str(e)
    d = os.path.join(HERE, spec["crate"])
    for g in (".fingerprint/rangetools-*", "build/rangetools", "build/rangetools-*"):
        for f in glob.glob(os.path.join(d, "target/wasm32-unknown-unknown/*", g)):
            shutil.rmtree(f, ignore_errors=True)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Cpanic=unwind -Clink-arg=-zstack-size=16777216")
    try:
        p = subprocess.run(["cargo", "+nightly", "build", "--offline", "--locked", "-Zbuild-std=std,panic_unwind",
                            "--target", "wasm32-unknown-unknown", "--profile", "checked", "--bin", spec["bin"],
                            "--config", 'source.crates-io.replace-with="vendored"',
                            "--config", f'source.vendored.directory="{vendor}"'],
                           cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=left(tier))
    except (OSError, subprocess.TimeoutExpired) as e:
        return None, str(e)
    b = os.path.join(d, "target/wasm32-unknown-unknown/checked", spec["bin"] + ".wasm")
    return (b, "") if p.returncode == 0 and os.path.exists(b) else (None, p.stdout[-1500:])


def wasm(pid, tier, spec, cov, tmp):
    """The quick bounds once more where usize has 32 bits (overflow checks on), in one process per core."""
    b, why = wasm_build(spec, tier)
    if not b:
        say(f"{pid}: 32-bit run left out: {why}")
        cov["profiles"]["wasm32"] = "not run: " + why[-300:]
        return
    n = min(os.cpu_count() or 8, 16)
    js = os.path.join(HERE, "tools", "wasm.js")
    procs = []
    for k in range(n):
        out = os.path.join(tmp, f"wasm{k}.json")
        procs.append((k, out, subprocess.Popen(["node", "--stack-size=3900", js, b, "--out", out, "--shard", str(k), str(n)],
                                               stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"))))
    try:
        for k, out, p in procs:
            try:
                rc = p.wait(timeout=left(tier))
            except subprocess.TimeoutExpired:
                no_answer(f"{pid}: out of time (32-bit)")
            j = load(out)
            if rc == 1 and j.get("violation"):
                violation(pid, tier, dict(j["violation"], profile="wasm32"), cov, 0)
            if rc != 0 or "states" not in j:
                say(open(out + ".err", errors="replace").read()[-1500:])
                no_answer(f"{pid}: the 32-bit checker ended with status {rc}, not traced to the property")
            merge(cov, f"wasm32 shard {k}", j)
    finally:
        for _, _, p in procs:
            p.kill()


def merge(cov, profile, j):
    for a, b in (("states", "states"), ("transitions", "transitions"), ("traces_validated_against_impl", "traces")):
        cov[a] += j.get(b, 0)
    cov["samples"] += [f"({profile}) {s}"[:600] for s in j.get("samples", [])][:40]
    cov["profiles"][profile] = dict(families=j.get("families", []), seconds=j.get("seconds"), capped=j.get("capped", []))
    if j.get("capped"):
        cov["exhaustive"] = False


def check16(pid, tier, spec, cov):
    rc, log = cargo("mc16", ["--bin", "control"], tier)
    if rc != 0:
        say(log[-3000:])
        no_answer("the library does not compile")
    rc, log = cargo("mc16", ["--bin", "c16"], tier)
    if rc != 0:
        if any(l.startswith("error[E") for l in log.splitlines()):
            err = log[log.index("error[E"):]
            violation(pid, tier, dict(profile="dev", case="compiling every operation on every combination of operand types", detail=err[:1500], log=log[-20000:]), cov, 0)
        say(log[-3000:])
        no_answer("the checker does not build")
    rc, text = run([exe("mc16", "dev", "c16")], tier)
    lines = text.splitlines()
    bad = [l[4:] for l in lines if l.startswith("BAD ")]
    count = {l.split()[0]: int(l.split()[1]) for l in lines if l.startswith(("CHECKED", "RESULT_TYPES", "GENERIC"))}
    cov["states"] = count.get("RESULT_TYPES", 0) + 30
    cov["transitions"] = count.get("CHECKED", 0) + count.get("GENERIC", 0)
    cov["traces_validated_against_impl"] = count.get("CHECKED", 0)
    cov["samples"] = [l[7:] for l in lines if l.startswith("SAMPLE")]
    if bad:
        violation(pid, tier, dict(profile="dev", case=bad[0], detail=f"{len(bad)} combinations fail", all=bad), cov, 0)
    if rc != 0:
        say(text)
        no_answer(f"the checker ended with status {rc}")
    evidence(pid, tier, cov, 0)
    say(f"{pid} held: {count}")


def replay(path):
    v = load(path)
    spec = CHECKS[v["property"]]
    if "item" not in v:
        return check(v["property"], "quick")
    if v["profile"] == "wasm32":
        b, why = wasm_build(spec, "thorough")
        if not b:
            no_answer(why)
        out = os.path.join(HERE, "replays", "out.json")
        p = subprocess.run(["node", os.path.join(HERE, "tools", "wasm.js"), b, "--out", out, "--item", v["family"], str(v["item"])])
        say(json.dumps(load(out).get("violation"), indent=1))
        sys.exit(1 if p.returncode else 0)
    rc, log = cargo(spec["crate"], ["--profile", v["profile"], "--bin", spec["bin"]], "thorough")
    if rc:
        say(log)
        sys.exit(2)
    out = os.path.join(HERE, "replays", "out.json")
    cmd = [exe(spec["crate"], v["profile"], spec["bin"]), "--out", out, "--item", v["family"], str(v["item"])]
    if v.get("tier") == "thorough":
        cmd.append("--thorough")
    rc, text = run(cmd, "thorough")
    say(text, rc, json.dumps(load(out).get("violation"), indent=1))
    sys.exit(1 if rc else 0)


def main():
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    check(pid, tier)


main()
