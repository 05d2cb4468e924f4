#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property of /repo's working tree by symbolic execution.

Builds the symbolic executor (engine/) and the harnesses (harness/) against /repo's sources, compiled to wasm32 as
they are, and lets wsym + Z3 decide every assertion over all values within the harness's bounds. A counterexample is
replayed against the real code: the same module under V8 (node), and a native build with the real SHA-256.
Exit 0: held on everything explored. Exit 1: VIOLATION (reproduced). Exit 2: the check itself failed."""
import json, os, re, subprocess, sys, time, shutil, hashlib

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
from specs import SPECS, TRUSTED  # noqa: E402

REPO = "/repo"
BUILD = os.path.join(V, ".build")
TOOLCHAIN = "1.78.0"
T0 = time.time()


def note(*a):
    print(*a, file=sys.stderr, flush=True)


def env(**k):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.update(RUST_BACKTRACE="0", CARGO_NET_OFFLINE="true", **k)
    return e


def run(cmd, cwd, e, timeout=880):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


class Broken(Exception):
    pass


def lockfile(crate):
    """every build starts from the committed lock file, and never changes it"""
    src = os.path.join(V, "harness", crate, "Cargo.lock")
    return src


def build_engine():
    rc, out = run(["cargo", "build", "--release", "--offline", "--locked"], os.path.join(V, "engine"),
                  env(CARGO_TARGET_DIR=os.path.join(BUILD, "engine")))
    if rc:
        raise Broken("engine does not build:\n" + out[-3000:])
    return os.path.join(BUILD, "engine/release/wsym")


def build_wasm(features):
    rc, out = run(["cargo", "build", "--release", "--offline", "--locked", "--target", "wasm32-unknown-unknown", "--features", features],
                  os.path.join(V, "harness/wasm"),
                  env(RUSTUP_TOOLCHAIN=TOOLCHAIN, RUSTC_WRAPPER=os.path.join(V, "tools/rustc-wrap"),
                      CARGO_TARGET_DIR=os.path.join(BUILD, "wasm-" + features)))
    if rc:
        raise Broken("harness does not build against /repo:\n" + out[-6000:])
    return os.path.join(BUILD, "wasm-" + features, "wasm32-unknown-unknown/release/harness.wasm")


def build_native(features, profile):
    cmd = ["cargo", "build", "--offline", "--locked", "--features", features] + (["--release"] if profile == "release" else [])
    rc, out = run(cmd, os.path.join(V, "harness/native"),
                  env(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_TARGET_DIR=os.path.join(BUILD, "native-" + features)))
    if rc:
        note("native replay does not build:\n" + out[-3000:])
        return None
    return os.path.join(BUILD, "native-" + features, "release" if profile == "release" else "debug", "replay")


def replay_once(cmd):
    """runs a replay under a memory and time limit; returns (reproduced, text)"""
    native = cmd[0] != "node"
    limit = "ulimit -v 8000000; " if native else ""
    try:
        p = subprocess.run(["bash", "-c", limit + 'exec "$@"', "x"] + cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, env=env())
    except subprocess.TimeoutExpired:
        return True, "no end within 120 s"
    out = p.stdout.decode("utf8", "replace")
    if p.returncode == 0:
        return False, "held"
    bad = p.returncode == 3 or (native and (p.returncode == 101 or p.returncode < 0 or p.returncode >= 128))
    return bad, "exit %s: %s" % (p.returncode, out[-600:])


def replay(spec, wasm, harness, vec_path, only_node=False):
    res = {}
    res["wasm under V8"] = replay_once(["node", "--stack-size=8000", os.path.join(V, "tools/replay.js"), wasm, harness, vec_path])
    if only_node or not spec.get("native", True):
        return res
    for prof in ("dev", "release"):
        b = build_native(spec["features"], prof)
        if b is None:
            continue
        res["native " + prof] = replay_once([b, harness, vec_path])
    return res


def cross_check(wasm, harness, samples):
    """returns (number of sampled paths that ran alike under V8, the first that did not)

    A path that depends on a digest of unknown bytes may go another way with the real SHA-256 (say, where single bytes
    of the digest are compared), without anything being wrong; that is only a problem when it is the rule."""
    if not samples:
        return 0, None
    f = os.path.join(BUILD, harness + ".samples")
    open(f, "w").write("\n".join(x if "|" in x else x + "|" for x in samples) + "\n")
    try:
        p = subprocess.run(["node", "--stack-size=8000", os.path.join(V, "tools/replay.js"), wasm, harness, f], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=60, env=env())
        r = json.loads(p.stdout)
    except (subprocess.TimeoutExpired, json.JSONDecodeError):
        return 0, None
    bad = [x for x in r if x["code"] not in (0, 5) or (x["code"] == 0 and not x["same"])]
    other = [x for x in bad if x["code"] == 0 and x["opaque"]]
    if 2 * len(other) <= len(r):
        bad = [x for x in bad if x not in other]
    bad.sort(key=lambda x: x["code"] != 3)
    return sum(x["code"] == 0 and x["same"] for x in r), bad[0] if bad else None


def known_findings():
    d = {}
    for line in open(os.path.join(V, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line)
        if m:
            d[(m.group(1), m.group(2))] = m.group(3).strip()
    return d


def demangle(names):
    out = set()
    for n in names:
        m = re.match(r"_ZN(.*)17h[0-9a-f]{16}E", n)
        if not m:
            out.add(n)
            continue
        s, parts = m.group(1), []
        while s:
            k = re.match(r"(\d+)", s)
            if not k:
                break
            ln = int(k.group(1))
            s = s[len(k.group(1)):]
            parts.append(s[:ln])
            s = s[ln:]
        t = "::".join(parts)
        for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("..", "::"), ("$RF$", "&"), ("$C$", ","), ("$LP$", "("), ("$RP$", ")"), ("$u7b$", "{"), ("$u7d$", "}"), ("$u5b$", "["), ("$u5d$", "]")):
            t = t.replace(a, b)
        out.add(t.lstrip("_"))
    return sorted(out)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--replay" in sys.argv:  # check.py PROPERTY --replay FILE
        return replay_file(prop, sys.argv[sys.argv.index("--replay") + 1])
    spec = SPECS[prop]
    if spec["features"] == "typescript":
        return main_ts(prop, spec, tier, seed)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev_path = os.path.join(V, "evidence", prop + ".json")
    if os.path.exists(ev_path):
        os.remove(ev_path)
    note(f"[{prop}] building")
    eng = build_engine()
    t1 = time.time()
    wasm = build_wasm(spec["features"])
    t2 = time.time()
    note(f"[{prop}] engine {t1 - T0:.1f} s, harness {t2 - t1:.1f} s")
    total = 720 if tier == "quick" else 100000
    hs = [h for h in spec["harnesses"] if tier in h.get("tiers", ("quick", "thorough"))]
    reports, violations, unconfirmed, findings, problems = [], [], [], {}, []
    known = known_findings()
    for h in hs:
        left = max(20, total - (time.time() - t2))
        lim = min(left, h.get("time", 150) if tier == "quick" else h.get("time_thorough", 3000))
        outf = os.path.join(BUILD, f"{prop}-{h['name']}.json")
        cmd = [eng, wasm, "--harness", h["name"], "--threads", "8", "--time", str(int(lim)), "--out", outf] + h.get("args", [])
        if os.path.exists(outf):
            os.remove(outf)
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=lim + 120, env=env())
            d = json.load(open(outf))
            if b"panicked" in p.stderr:
                d["stderr"] = p.stderr.decode("utf8", "replace")[-1500:]
        except (subprocess.TimeoutExpired, FileNotFoundError, json.JSONDecodeError) as e:
            problems.append(f"{h['name']}: engine failed: {e}")
            continue
        d["bounds"] = h["bounds"]
        reports.append(d)
        note(f"[{prop}] {h['name']}: {d['status']} {d['wall_s']:.1f} s, {d['paths']} paths, {d['solver']['queries']} queries")
        for c, n in d["covers"].items():
            if c.startswith("FINDING "):
                findings[c[8:]] = findings.get(c[8:], 0) + n
        for v in d["violations"]:
            vec = os.path.join(V, "evidence", f"{prop}-{h['name']}-{len(violations) + len(unconfirmed)}.vec")
            with open(vec, "w") as f:
                f.write(" ".join(str(x) for x in v["vector"]) + "\n")
            if len(violations) >= 3:
                continue
            r = replay(spec, wasm, h["name"], vec, only_node=len(violations) > 0)
            rec = dict(harness=h["name"], kind=v["kind"], msg=v["msg"], vector=v["vector"], stack=demangle(v["stack"][:8]),
                       replays={k: dict(reproduced=a, output=b) for k, (a, b) in r.items()},
                       replay_cmd=f"python3 check.py {prop} --replay <this file>")
            f = vec[:-4] + ".replay.json"
            json.dump(rec, open(f, "w"), indent=1)
            if any(a for a, _ in r.values()):
                violations.append((f, rec))
            else:
                unconfirmed.append((f, rec))
        # sampled paths, run again on the real code with the real SHA-256: they have to end as the executor said
        done, bad = cross_check(wasm, h["name"], d["samples"])
        d["cross_checked"] = done
        if bad and not violations:
            vec = os.path.join(V, "evidence", f"{prop}-{h['name']}-sample.replay.json")
            json.dump(dict(harness=h["name"], kind="sample", msg=bad["text"], vector=[int(x) for x in bad["vector"].split()], got=bad), open(vec, "w"), indent=1)
            if bad["code"] == 3:
                violations.append((vec, dict(harness=h["name"], msg="a sampled path fails on the real code: " + bad["text"])))
            else:
                problems.append(f"{h['name']}: a sampled path goes another way on the real code: {bad}")
        if d["status"] == "holds":
            for c in h.get("covers", []):
                if not d["covers"].get(c):
                    problems.append(f"{h['name']}: vacuous: '{c}' was never reached")
        if d["status"] == "incomplete":
            note(f"[{prop}] {h['name']}: INCOMPLETE {d['reasons']} {d.get('stderr', '')}")
    # known findings
    for (p, fid), what in known.items():
        if p == prop and fid in findings:
            print(f"KNOWN-FINDING: property={prop} {fid}: {what}")
    for fid, n in findings.items():
        if (prop, fid) not in known:
            f = os.path.join(V, "evidence", f"{prop}-{fid}.replay.json")
            json.dump(dict(finding=fid, paths=n), open(f, "w"))
            violations.append((f, dict(msg=f"finding {fid} is not listed in known_findings.txt")))
    wall = time.time() - T0
    fn = set()
    for d in reports:
        fn.update(d.get("functions", []))
    names = demangle(fn)
    code = [n for n in names if re.search(r"\bic_[a-z_]+::|<ic_|leb128", n)]
    complete = all(d["status"] == "holds" for d in reports) and not problems
    cov = dict(
        states=sum(d["paths"] for d in reports),
        transitions=sum(d["branches"] + d["forks"] for d in reports),
        traces_validated_against_impl=sum(d.get("cross_checked", 0) for d in reports),
        samples=[dict(harness=d["harness"], vectors=d["samples"][:3]) for d in reports],
        exhaustive=complete,
        explanation="states: feasible execution paths explored to their end, each standing for every input that follows it; "
        "transitions: decisions on symbolic values (branches decided, and forks taken)",
        functions_encoded=code,
        functions_encoded_total=len(names),
        outside=spec["outside"],
        queries_discharged=sum(d["solver"]["queries"] for d in reports),
        solver_time_s=round(sum(d["solver"]["time_s"] for d in reports), 3),
        assertions_decided=sum(d["checks"] for d in reports),
        harnesses=[dict(name=d["harness"], bounds=d["bounds"], status=d["status"], paths=d["paths"], infeasible_or_excluded=d["killed"],
                        incomplete_paths=d["incomplete"], reasons=d["reasons"], assertions=d["checks"],
                        assertions_by_solver=d["checks_by_solver"], instructions=d["instructions"],
                        branches=d["branches"], forks=d["forks"], byte_domain_decisions=d["byte_domain_decisions"],
                        max_symbolic_bytes=d["max_symbolic_bytes"], max_path_instructions=d["max_path_instructions"],
                        hash_applications=d["hash_applications"], solver=d["solver"], covers=d["covers"], wall_s=d["wall_s"])
                   for d in reports],
        build_s=round(t2 - T0, 1),
    )
    json.dump(dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=TRUSTED + spec.get("assumptions", []),
                   wall_s=round(wall, 2), violations=len(violations)), open(ev_path, "w"), indent=1)
    for f, rec in unconfirmed:
        note(f"[{prop}] unconfirmed counterexample (does not reproduce on the real code): {rec['msg']} {f}")
    for p in problems:
        note(f"[{prop}] PROBLEM {p}")
    if violations:
        for f, rec in violations:
            note(f"[{prop}] {rec.get('harness', '')}: {rec['msg']}")
        print(f"VIOLATION property={prop} replay={violations[0][0]}")
        return 1
    if problems or unconfirmed:
        return 2
    print(f"{prop}: {'held within the bounds' if complete else 'held on everything explored (not complete)'}: "
          f"{cov['states']} paths, {cov['assertions_decided']} assertions, {cov['queries_discharged']} queries, {wall:.0f} s")
    return 0


def main_ts(prop, spec, tier, seed):
    """the TypeScript package: ts/check.js runs its source with symbolic values"""
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev_path = os.path.join(V, "evidence", prop + ".json")
    outf = os.path.join(BUILD, prop + ".json")
    for f in (ev_path, outf):
        if os.path.exists(f):
            os.remove(f)
    rc, text = run(["node", os.path.join(V, "ts/check.js"), outf, tier], V, env(), 800 if tier == "quick" else 20000)
    if rc or not os.path.exists(outf):
        raise Broken("the TypeScript package cannot be run:\n" + text[-3000:])
    res = json.load(open(outf))
    reports, violations, problems = res["reports"], [], []
    for d in reports:
        note(f"[{prop}] {d['harness']}: {d['status']} {d['wall_s']:.1f} s, {d['paths']} paths, {d['solver']['queries']} queries {d['reasons'] or ''}")
        for k, v in enumerate(d["violations"]):
            f = os.path.join(V, "evidence", f"{prop}-{d['harness']}-{k}.replay.json")
            json.dump(dict(harness=d["harness"], **v, replay_cmd=f"python3 check.py {prop} --replay <this file>"), open(f, "w"), indent=1)
            if v["reproduced"]:
                violations.append((f, d["harness"] + ": " + v["msg"]))
            else:
                problems.append(f"unconfirmed counterexample (does not reproduce on the real code): {v['msg']} {f}")
        if d["diverged"]:
            problems.append(f"{d['harness']}: a path goes another way on the real code: {d['diverged'][0]}")
        if any("time" != r for r in d["reasons"]):
            problems.append(f"{d['harness']}: not decided: {d['reasons']}")
        if d["status"] == "holds":
            problems += [f"{d['harness']}: vacuous: '{c}' was never reached" for c in d["covers_wanted"] if not d["covers"].get(c)]
    wall = time.time() - T0
    complete = all(d["status"] == "holds" for d in reports) and not problems
    cov = dict(
        states=sum(d["paths"] for d in reports), transitions=sum(d["branches"] for d in reports),
        traces_validated_against_impl=sum(d["cross_checked"] for d in reports),
        samples=[dict(harness=d["harness"], vectors=d["samples"]) for d in reports], exhaustive=complete,
        explanation="states: feasible execution paths explored to their end, each standing for every input that follows it; transitions: branches decided on symbolic values",
        functions_encoded=res["functions"], functions_encoded_total=len(res["functions"]), outside=spec["outside"],
        queries_discharged=sum(d["solver"]["queries"] for d in reports), solver_time_s=round(sum(d["solver"]["time_s"] for d in reports), 3),
        assertions_decided=sum(d["checks"] for d in reports),
        harnesses=[dict(name=d["harness"], bounds=d["bounds"], status=d["status"], paths=d["paths"], assertions=d["checks"], branches=d["branches"],
                        reasons=d["reasons"], solver=d["solver"], covers=d["covers"], wall_s=d["wall_s"]) for d in reports])
    json.dump(dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov, assumptions=spec["assumptions"],
                   wall_s=round(wall, 2), violations=len(violations)), open(ev_path, "w"), indent=1)
    for p in problems:
        note(f"[{prop}] PROBLEM {p}")
    if violations:
        for f, m in violations:
            note(f"[{prop}] {m}")
        print(f"VIOLATION property={prop} replay={violations[0][0]}")
        return 1
    if problems:
        return 2
    print(f"{prop}: {'held within the bounds' if complete else 'held on everything explored (not complete)'}: "
          f"{cov['states']} paths, {cov['assertions_decided']} assertions, {cov['queries_discharged']} queries, {wall:.0f} s")
    return 0


def replay_file(prop, f):
    rec = json.load(open(f))
    spec = SPECS[prop]
    if spec["features"] == "typescript":
        rc, text = run(["node", os.path.join(V, "ts/check.js"), "-", "replay", os.path.abspath(f)], V, env())
        print("the code as it is", "REPRODUCED" if rc == 1 else "not reproduced", text[-2000:])
        return rc
    vec = os.path.join(BUILD, "replay.vec")
    os.makedirs(BUILD, exist_ok=True)
    open(vec, "w").write(" ".join(str(x) for x in rec["vector"]) + "\n")
    wasm = build_wasm(spec["features"])
    r = replay(spec, wasm, rec["harness"], vec)
    for k, (a, b) in r.items():
        print(k, "REPRODUCED" if a else "not reproduced", b)
    return 1 if any(a for a, _ in r.values()) else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        note(str(e))
        sys.exit(2)
