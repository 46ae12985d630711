#!/usr/bin/env python3
"""check.py <ID> [quick|thorough]

Builds the check of one property from /repo's working tree, in every build
profile the property needs, searches, and writes evidence/<ID>.json.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Other: error.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPLAYS = os.path.join(VERIF, "replays")
TRIPLE = "x86_64-unknown-linux-gnu"
JOBS = 8

# scale of the case counts built into each binary, per build profile
PLAN = {
    "C01": {"release": 2, "checked": 1.5},
    "C02": {"release": 6, "checked": 4},
    "C03": {"release": 7, "checked": 4},
    "C04": {"release": 6, "checked": 4},
    "C05": {"release": 1.5, "checked": 1},
    "C06": {"release": 2, "checked": 1},
    "C07": {"release": 2.5, "checked": 2},
    "C08": {"release": 0.6, "checked": 0.3},
    "C09": {"release": 1, "checked": 0.8},
    "C10": {"release": 3, "checked": 2, "asan": 0.4},
    "C11": {"release": 15, "checked": 10, "asan": 4, "miri": 0.75},
    "C12": {"release": 3, "checked": 2, "asan": 0.03, "miri": 1},
    "C13": {"release": 4, "checked": 3},
    "C14": {"release": 2.5, "checked": 2},
    "C15": {"release": 7, "checked": 5},
    "C16": {"release": 3, "checked": 2, "tsan": 1, "miri": 1},
    "C17": {"release": 4, "checked": 2},
    "C18": {"release": 4, "checked": 3},
    "C19": {"release": 1, "checked": 0.5},
    "C20": {"release": 1, "checked": 0.4},
    "C21": {"release": 1.5, "checked": 1},
    # the compiler does the work, the build of the harness does not matter
    "C22": {"release": 1},
    "C23": {"release": 15, "checked": 5},
    "C24": {"release": 4, "checked": 1},
    "C25": {"release": 3, "checked": 1},
    "C26": {"release": 2, "checked": 1},
    "C27": {"release": 2, "checked": 1},
    "C28": {"release": 2, "checked": 1},
    "C29": {"release": 5, "checked": 2},
    "C30": {"release": 15, "checked": 5},
}
# seconds after which workers of a very slow machine stop taking new cases
BUDGET = {"quick": {"release": 200, "checked": 160, "asan": 140, "tsan": 140, "miri": 210},
          "thorough": {k: 7200 for k in ("release", "checked", "asan", "tsan", "miri")}}


def env_for(profile):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("CARGO_ENCODED_RUSTFLAGS", None)
    e["RUSTFLAGS"] = {
        "asan": "-Awarnings -Zsanitizer=address",
        "tsan": "-Awarnings -Zsanitizer=thread",
    }.get(profile, "-Awarnings")
    e["CARGO_TARGET_DIR"] = os.path.join(HARNESS, "target" if profile in ("release", "checked") else "target-" + profile)
    e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks"
    return e


def binary(profile, b):
    t = env_for(profile)["CARGO_TARGET_DIR"]
    if profile in ("asan", "tsan"):
        return os.path.join(t, TRIPLE, "release", b)
    return os.path.join(t, profile, b)


# extra features of a check; dropped where the library no longer takes them
FEATURES = {"c17": ["--features", "store"], "c21": ["--features", "store"], "c28": ["--features", "store"],
            "c22": ["--no-default-features"]}


def build_cmd(profile, b, extra):
    if profile in ("release", "checked"):
        return ["cargo", "build", "--profile", profile, "--bin", b] + extra
    if profile == "asan":
        return ["cargo", "+nightly", "build", "--release", "--target", TRIPLE, "--bin", b]
    if profile == "tsan":
        return ["cargo", "+nightly", "build", "-Zbuild-std", "--release", "--target", TRIPLE, "--bin", b]
    # builds, and shows that the binary starts
    return ["cargo", "+nightly", "miri", "run", "-q", "--bin", b, "--", "nothing"]


def build(profile, b):
    for extra in ([FEATURES[b]] if b in FEATURES else []) + [[]]:
        p = subprocess.run(build_cmd(profile, b, extra), cwd=HARNESS, env=env_for(profile), stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ok = p.returncode == 0 or (profile == "miri" and "usage: run|worker" in p.stdout)
        if ok:
            break
    return ok, p.stdout, " ".join(extra)


def json_part(path):
    try:
        with open(path) as f:
            return json.load(f)
    except Exception:
        return None


def hashes(path):
    try:
        data = open(path, "rb").read()
    except OSError:
        return set()
    return set(struct.unpack("<%dQ" % (len(data) // 8), data))


# ---------------------------------------------------------------- native

def run_native(pid, b, profile, tier, seed, scale, tmp):
    part = os.path.join(tmp, profile + ".json")
    cmd = [binary(profile, b), "run", "--tier", tier, "--seed", str(seed), "--profile", profile,
           "--part", part, "--replays", REPLAYS, "--corpus", os.path.join(VERIF, "corpus", pid),
           "--jobs", str(JOBS), "--scale", str(scale), "--budget", str(BUDGET[tier][profile])]
    if tier == "thorough":
        cmd += ["--shrink", "240", "--stall", "400"]
    p = subprocess.run(cmd, cwd=VERIF, env=env_for(profile), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True)
    d = json_part(part) or {}
    d["hashes"] = hashes(part + ".hash")
    return p.returncode, p.stdout, p.stderr, d


# ------------------------------------------------------------------ Miri

MIRI_BAD = re.compile(r"error: (Undefined Behavior|abnormal termination|deadlock|memory leaked)[^\n]*", re.I)


def miri(b, args, extra, limit):
    e = env_for("miri")
    e["MIRIFLAGS"] += " " + extra
    p = subprocess.Popen(["cargo", "+nightly", "miri", "run", "-q", "--bin", b, "--"] + args, cwd=HARNESS, env=e,
                         stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         start_new_session=True)
    try:
        out, err = p.communicate(timeout=limit)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)  # the group this check started
        except OSError:
            pass
        p.communicate()
        return None, "", ""


def miri_fail(rc, out, err):
    """message if the run showed a failure, '' if clean, None if it says nothing"""
    if rc is None:
        return None
    if rc == 0:
        return ""
    m = MIRI_BAD.search(err)
    if m:
        at = re.search(r"-->\s*(\S*repo/src/\S+|\S+)", err)
        return m.group(0) + (" at " + at.group(1) if at else "")
    for line in out.splitlines():
        if line.startswith(("WORKER-FAIL ", "FAIL ")):
            return line.split(" ", 1)[1]
    return None


def parse_case(text):
    head, ops = [], []
    for l in text.splitlines():
        if l.startswith("op "):
            ops.append(l)
        elif l.strip() and not l.startswith("#"):
            head.append(l)
    return head, ops


def shrink_miri(b, text, flag, deadline, tmp):
    head, ops = parse_case(text)
    msg = None

    def bad(o, i):
        f = os.path.join(tmp, "miri-try-%d" % i)
        with open(f, "w") as h:
            h.write("\n".join(head + o) + "\n")
        return miri_fail(*miri(b, ["replay", f, "--profile", "miri"], flag, 60))

    first = bad(ops, 0)
    if not first:
        return text, None
    msg = first
    k = max(1, (len(ops) + 1) // 2)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        while time.time() < deadline and ops:
            cands = [ops[:i] + ops[i + k:] for i in range(0, len(ops), k)]
            hit = None
            for at in range(0, len(cands), JOBS):
                if time.time() > deadline:
                    break
                rs = list(ex.map(lambda x: bad(x[1], x[0]), enumerate(cands[at:at + JOBS])))
                for c, r in zip(cands[at:at + JOBS], rs):
                    if r:
                        hit, msg = c, r
                        break
                if hit is not None:
                    break
            if hit is not None:
                ops = hit
                k = max(1, min(k, len(ops)))
            elif k > 1:
                k = (k + 1) // 2
            else:
                break
    return "\n".join(head + ops) + "\n", msg


def run_miri(pid, b, tier, seed, scale, tmp):
    d = {"profile": "miri", "stages": {}, "labels": {}, "samples": [], "evaluations": 0, "steps": 0, "hashes": set(),
         "errors": [], "rule": "", "saved_cases": 0, "workers_cut_short": 0}
    t0 = time.time()
    dirs = []
    limit = BUDGET[tier]["miri"]

    def flag(s):
        return "-Zmiri-seed=%d" % (seed * 1000 + s)

    def one(s):
        w = os.path.join(tmp, "miri.%d" % s)
        os.makedirs(w)
        dirs.append(w)
        return s, w, miri(b, ["worker", "--tier", tier, "--seed", str(seed), "--profile", "miri", "--stripe", str(s),
                              "--of", str(JOBS), "--scale", str(scale), "--dir", w,
                              "--budget", str(limit - 60)], flag(s), limit)

    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, range(JOBS)))
    failing = None
    for s, w, (rc, out, err) in res:
        try:
            for line in open(os.path.join(w, "out.%d" % s)):
                f = line.rstrip("\n").split("\t")
                if f[0] == "steps":
                    d["steps"] += int(f[1])
                elif f[0] == "cut":
                    d["workers_cut_short"] += int(f[1])
                elif f[0] == "eval":
                    d["stages"][f[1]] = d["stages"].get(f[1], 0) + int(f[2])
                    d["evaluations"] += int(f[2])
                elif f[0] == "label":
                    d["labels"][f[1]] = d["labels"].get(f[1], 0) + int(f[2])
                elif f[0] == "sample":
                    d["samples"].append(f[1])
        except OSError:
            pass
        d["hashes"] |= hashes(os.path.join(w, "hash.%d" % s))
        m = miri_fail(rc, out, err)
        if rc is None:
            d["workers_cut_short"] += 1
        elif m is None:
            d["errors"].append("miri worker %d: exit %s: %s" % (s, rc, err[-600:]))
        elif m and failing is None:
            failing = (s, w, m, out)
    code, text = 0, ""
    if failing:
        s, w, m, _ = failing
        case = None
        try:
            case = open(os.path.join(w, "fail.%d" % s)).read()
        except OSError:
            rec = open(os.path.join(w, "state.%d" % s), "rb").read()
            si, idx = struct.unpack("<QQ", rec[:16])
            names = subprocess.run([binary("release", b), "stages", "--tier", tier, "--profile", "miri"],
                                   stdout=subprocess.PIPE, text=True).stdout.split()
            if 0 < si <= len(names):
                case = subprocess.run([binary("release", b), "gen", names[si - 1], str(idx), "--seed", str(seed),
                                       "--profile", "miri"], stdout=subprocess.PIPE, text=True).stdout
        case = case or "property %s\n" % pid
        small, m2 = shrink_miri(b, case, flag(s), time.time() + (90 if tier == "quick" else 600), tmp)
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-miri-%d-%d.case" % (pid, seed, s))
        with open(path, "w") as f:
            f.write("# %s\n# found with seed %d under Miri (%s)\n%s" % (m2 or m, seed, flag(s), small))
        text = "failure: %s\nVIOLATION property=%s replay=%s\n" % (m2 or m, pid, path)
        d["violation"] = {"replay": path, "message": m2 or m}
        code = 1
    elif d["errors"]:
        code = 2
    d["wall_s"] = round(time.time() - t0, 2)
    return code, text, "\n".join(d["errors"]), d


# ------------------------------------------------------------------- main

def findings(pid):
    """known findings (not repaired) of this property"""
    out = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"KNOWN-FINDING: property=(\S+) ", l)
            if m and m.group(1) == pid:
                out.append(l.strip())
    except OSError:
        pass
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    seed = abs(seed) % (1 << 40)
    b = pid.lower()
    t0 = time.time()
    plan = PLAN[pid]
    tmp = tempfile.mkdtemp(prefix="check-%s-" % pid)
    os.environ["TMPDIR"] = tmp
    code = 0
    parts = []
    notes = []
    try:
        with cf.ThreadPoolExecutor(4) as ex:
            built = dict(zip(plan, ex.map(lambda p: build(p, b), plan)))
        t_build = time.time() - t0
        for p, (ok, out, _) in built.items():
            if not ok:
                print("error: build (%s) failed:\n%s" % (p, out[-3000:]))
                code = 2
        if code == 0:
            for p, scale in plan.items():
                if p == "miri":
                    rc, out, err, d = run_miri(pid, b, tier, seed, scale, tmp)
                else:
                    rc, out, err, d = run_native(pid, b, p, tier, seed, scale, tmp)
                parts.append(d)
                sys.stdout.write(out)
                if err:
                    sys.stderr.write(err + "\n")
                print("%s %s: %s cases in %.1f s, exit %s" % (pid, p, d.get("evaluations"), d.get("wall_s", 0), rc))
                sys.stdout.flush()
                if rc == 1:
                    code = 1
                    break
                if rc != 0:
                    code = 2
        for f in findings(pid):
            print(f)
        hs = set()
        for d in parts:
            hs |= d.get("hashes", set())
        ev = {
            "property": pid,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": sum(d.get("evaluations", 0) for d in parts),
                "distinct_nontrivial": len(hs),
                "rule": next((d["rule"] for d in parts if d.get("rule")), ""),
                "samples": [s for d in parts for s in d.get("samples", [])[:3]][:8],
                "elementary_steps": sum(d.get("steps", 0) for d in parts),
                "saved_cases_replayed": sum(d.get("saved_cases", 0) for d in parts),
                "profiles": [
                    {k: d.get(k) for k in ("profile", "evaluations", "steps", "stages", "labels", "workers_cut_short",
                                           "wall_s")}
                    for d in parts
                ],
                "build_options": {p: built[p][2] for p in built if built[p][2]},
                "build_s": round(t_build, 1),
            },
            "assumptions": [
                "the reference model (harness/src/model.rs) and the generators are right",
                "rustc, the standard library and, where used, the sanitizers and Miri are right",
            ],
            "wall_s": round(time.time() - t0, 2),
            "violations": 1 if code == 1 else 0,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print("%s %s: %s in %.0f s" % (pid, tier, {0: "held", 1: "violated"}.get(code, "error"), time.time() - t0))
    sys.exit(code)


main()
