"""Runs Kani (CBMC) on the harnesses of ../kani and replays its counterexamples.

A harness NAME::ok makes calls with the right sizes, NAME::bad with anything
else; see kani/src/body.rs.  What a failing check means:
  safety  (memory, undefined behaviour, index arithmetic)    C16
  panic in an ok harness, accepted wrong sizes               C08, C14
  any other panic in a bad harness                           the expected rejection
"""
import json
import os
import re
import resource
import signal
import subprocess
import time

# sizes of the quick tier; the thorough tier takes every harness in the table
QUICK = {
    "bfly": [2, 3, 4, 8, 16], "split": [4, 8, 16], "fft23": [1, 3], "fft4": [1, 3], "even4": [2, 4],
    "fft1c": [2, 3], "fft1s": [1, 2], "fft67": [1, 2], "mdct_naive": [2], "mdct_via": [2],
    "naive1c": [3], "naive1s": [2], "naive23": [2], "naive4": [2], "naive5c": [3], "naive5s": [2],
    "naive67c": [3], "naive67s": [2], "naive8c": [3], "naive8s": [2],
}
CTORS = ["ctor1c", "ctor1s", "ctor4", "ctor67", "ctor23", "ctor_split", "ctor_mdct"]
OURS = "DCT: "
# what CBMC reports for a panic; everything else that fails is a safety check
PANIC = ("assertion",)


def table(here):
    """(name, function, size) of every harness in the table"""
    src = open(os.path.join(here, "kani", "src", "body.rs")).read()
    return [(m.group(1), m.group(2), int(m.group(3)))
            for m in re.finditer(r"^    (\w+) (\w+) (\d+) \d+ \d+;", src[src.index("table! {"):], re.M)]


def select(here, pid, tier):
    out = []
    for name, f, n in table(here):
        if f in CTORS:
            if pid == "C14":
                out += [name + "::ok", name + "::bad"]
            continue
        if pid == "C14":
            continue
        if tier == "quick" and n not in QUICK[f]:
            continue
        if pid == "C08":
            if tier == "quick" and n != QUICK[f][len(QUICK[f]) // 2]:
                continue
            # engine 1 makes the calls with right sizes; a few with symbolic scratch here
            out.append(name + "::bad")
            if tier != "quick":
                out.append(name + "::ok")
        else:
            out += [name + "::ok", name + "::bad"]
    return ["body::proofs::" + x for x in out]


def cenv(here, target=None):
    e = dict(os.environ)
    for k in ["RUSTFLAGS", "RUSTDOCFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR"]:
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    if target:
        e["CARGO_TARGET_DIR"] = os.path.join(here, "build", target)
    return e


def call(cmd, here, env, timeout):
    """(exit status or None on timeout, output)"""
    p = subprocess.Popen(cmd, cwd=os.path.join(here, "kani"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True,
                         preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
    try:
        out, _ = p.communicate(timeout=max(5, timeout))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out


def kani(here, harnesses, extra, jobs, per, timeout, tag):
    path = os.path.join(here, "build", "kani.%s.%d.json" % (tag, os.getpid()))
    if os.path.exists(path):
        os.unlink(path)
    cmd = ["cargo", "kani", "--target-dir", os.path.join(here, "build", "kani"), "-Z", "unstable-options",
           "--output-format", "terse", "-j", str(jobs), "--harness-timeout", "%ds" % per,
           "--no-assertion-reach-checks", "--export-json", path, "--exact"] + extra
    for h in harnesses:
        cmd += ["--harness", h]
    rc, out = call(cmd, here, cenv(here), timeout)
    try:
        d = json.load(open(path))
    except (OSError, ValueError):
        return None, out
    finally:
        if os.path.exists(path):
            os.unlink(path)
    stats = {x["harness_id"]: x.get("cbmc_stats") or {} for x in d.get("cbmc", [])}
    res = {}
    for x in d["verification_results"]["results"]:
        res[x["harness_id"]] = {"checks": x["checks"], "ms": x["duration_ms"], "stats": stats.get(x["harness_id"], {})}
    return res, out


def judge(h, r):
    """('safety' | 'call' | 'held' | 'undecided', reason)"""
    ok = h.endswith("::ok")
    if not r or not r["checks"]:
        return "undecided", "no result within the time limit"
    fails = [c for c in r["checks"] if c["status"] == "Failure" and c["category"] != "unwind"]
    for c in fails:
        if c["category"] not in PANIC and c["category"] != "unsupported_construct":
            return "safety", "%s: %s at %s:%s" % (c["category"], c["description"], c["location"].get("file"), c["location"].get("line"))
        if OURS + "wrote before" in c["description"]:
            return "safety", c["description"]
    for c in fails:
        if c["category"] in PANIC and (ok or OURS in c["description"]):
            return "call", "%s at %s:%s" % (c["description"], c["location"].get("file"), c["location"].get("line"))
    if any(c["status"] == "Failure" and c["category"] == "unwind" for c in r["checks"]):
        return "undecided", "a loop runs longer than the unwinding bound"
    if any(c["status"] in ("Undetermined", "Failure") and c["category"] not in PANIC for c in r["checks"]):
        return "undecided", "undetermined checks"
    want = OURS + ("completed" if ok else "reached")
    if not any(c["category"] == "cover" and want in c["description"] and c["status"] == "Satisfied" for c in r["checks"]):
        # a transform that needs no scratch and takes any buffer has no bad call; none does
        return "undecided", "no call was reached"
    return "held", ""


def playback(here, h, timeout):
    cmd = ["cargo", "kani", "--target-dir", os.path.join(here, "build", "kani"), "-Z", "unstable-options", "-Z", "concrete-playback",
           "--concrete-playback=print", "--output-format", "regular", "--harness-timeout", "300s", "--no-assertion-reach-checks",
           "--exact", "--harness", h]
    _, out = call(cmd, here, cenv(here), timeout)
    tests = []
    for m in re.finditer(r"/// Check for `([^`]*)`: \"(.*?)\"\n.*?vec!\[(.*?)\n    \];", out, re.S):
        vals = [int.from_bytes(bytes(int(b) for b in v.split(",") if b.strip()), "little")
                for v in re.findall(r"vec!\[([\d, ]*)\]", m.group(3))]
        tests.append((m.group(1), m.group(2), vals))
    # the checks that matter first, the expected rejections last
    tests.sort(key=lambda t: (t[0] == "cover", t[0] in PANIC and OURS not in t[1]))
    return tests


def replay(here, h, vals, deadline):
    """how the real code misbehaves, or None"""
    name = h.split("::")[-2] + "_" + h.split("::")[-1]
    args = [name] + [str(v) for v in vals]
    steps = [("dev", ["cargo", "run", "--offline", "-q", "--"], "knative", None),
             ("release", ["cargo", "run", "--offline", "-q", "--release", "--"], "knative", None),
             ("miri", ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--"], "kmiri", "-Zmiri-disable-isolation")]
    for how, cmd, target, flags in steps:
        e = cenv(here, target)
        if flags:
            e["MIRIFLAGS"] = flags
        rc, out = call(cmd + args, here, e, min(240, deadline - time.time()))
        shell = "CARGO_TARGET_DIR=%s/build/%s %s %s" % (here, target, " ".join(cmd), " ".join(args))
        if rc == 3:
            return how, shell, out.strip()
        if rc is not None and (rc < 0 or "signal: " in out):
            return how, shell, "the process is killed: " + out.strip()[-600:]
        if how == "miri" and "Undefined Behavior" in out:
            i = out.index("Undefined Behavior")
            return how, shell, "miri: " + out[max(0, i - 10):i + 700]
    return None


def run(pid, tier, here, t0):
    quick = tier == "quick"
    hs = select(here, pid, tier)
    deadline = t0 + (840 if quick else 8 * 3600)
    jobs = min(8, os.cpu_count() or 8)
    budget = t0 + (560 if quick else 6 * 3600) - time.time()
    per = 240 if quick else 3600
    start = time.time()
    res, out = kani(here, hs, [], jobs, per, budget, pid)
    kv = {"violations": [], "errors": []}
    if res is None:
        kv["errors"].append({"case": "kani", "what": "no result: " + out[-600:]})
        return {"harnesses": len(hs), "decided": 0}, kv
    verdict = {h: judge(h, res.get(h)) for h in hs}
    # loops that changed: once more with a larger bound
    again = [h for h in hs if verdict[h] == ("undecided", "a loop runs longer than the unwinding bound")]
    if again and time.time() < t0 + (500 if quick else 6 * 3600):
        more, _ = kani(here, again[:24], ["--unwind", "40"], jobs, per, t0 + (700 if quick else 7 * 3600) - time.time(), pid + "u")
        for h in again:
            if more and h in more:
                res[h] = more[h]
                verdict[h] = judge(h, more[h])
    mine = "safety" if pid == "C16" else "call"
    hits = [h for h in hs if verdict[h][0] == mine]
    hits.sort(key=lambda h: res[h]["ms"])
    if hits:
        print("kani: %d harnesses fail" % len(hits))
    n = 0
    for h in hits[:4]:
        if time.time() > deadline - 60 or n >= 2:
            break
        done = False
        for cat, desc, vals in playback(here, h, deadline - time.time() - 60)[:8]:
            rep = replay(here, h, vals, deadline)
            if rep is None:
                continue
            n += 1
            done = True
            how, shell, text = rep
            d = os.path.join(here, "build", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-kani-%d.json" % (pid, n))
            with open(path, "w") as f:
                json.dump({"property": pid, "harness": h, "solver_says": verdict[h][1], "values": vals, "run": how,
                           "observed": text.split("\n"), "how_to_replay": "cd %s/kani && %s" % (here, shell)}, f, indent=1)
            print("harness: %s" % h)
            print("solver's counterexample: %s, with %s" % (verdict[h][1], vals))
            print("on the real code (%s): %s" % (how, text[:1500]))
            kv["violations"].append("VIOLATION property=%s replay=%s" % (pid, path))
            break
        if not done:
            kv["errors"].append({"case": h, "what": "not reproduced on the real code: " + verdict[h][1]})
    und = [h for h in hs if verdict[h][0] == "undecided"]
    for h in und[:6]:
        print("kani: undecided: %s: %s" % (h, verdict[h][1]))
    if len(und) * 2 > len(hs):
        kv["errors"].append({"case": "kani", "what": "%d of %d harnesses undecided" % (len(und), len(hs))})
    dec = [h for h in hs if h in res and verdict[h][0] != "undecided"]
    cat = {}
    for h in dec:
        for c in res[h]["checks"]:
            if c["status"] in ("Success", "Failure"):
                cat[c["category"]] = cat.get(c["category"], 0) + 1

    def tot(k):
        return round(sum((res[h]["stats"].get(k) or 0) for h in dec), 1)
    extra = {
        "engine": "Kani 0.68 over the crate's MIR, CBMC with CaDiCaL",
        "harnesses": len(hs), "decided": len(dec), "undecided": und,
        "checks_decided_by_category": cat,
        "verification_conditions_after_simplification": int(tot("vccs_remaining")),
        "symex_s": tot("runtime_symex_s"), "solver_s": tot("runtime_solver_s"), "wall_s": round(time.time() - start, 1),
        "harness_list": [h.replace("body::proofs::", "") for h in hs],
        "bounds": "sizes as in the harness names; buffer lengths 0 to n+3 (n-1 to n+2 each for the three MDCT buffers), scratch "
                  "lengths 0 to the requirement + 3, scratch requirements of the inner transforms 0 to 3 len + 2, all symbolic; "
                  "constructors: inner lengths and scratch requirements symbolic up to 2^40 where no table depends on them",
    }
    return extra, kv
