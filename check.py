#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current working tree.

exit 0  held on everything explored
exit 1  violated, with a line VIOLATION property=<id> replay=<path>
exit 2  no answer (build failure, solver gave up, counterexample that does not
        reproduce against the real code)
"""
import json
import os
import queue
import re
import resource
import signal
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import cases as casegen  # noqa: E402
import facts  # noqa: E402

T0 = time.time()
TARGET = os.path.join(HERE, "build", "sym")
BIN = os.path.join(TARGET, "debug", "symdct")
REL = os.path.join(TARGET, "release", "symdct")
JOBS = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 8))))


def env():
    e = dict(os.environ)
    for k in ["RUSTFLAGS", "RUSTDOCFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"]:
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_TERM_COLOR"] = "never"
    return e


def die(msg):
    print("NO ANSWER: " + msg)
    sys.exit(2)


def build(release=False):
    cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(HERE, "sym", "Cargo.toml")]
    if release:
        cmd.append("--release")
    r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-4000:])
        die("the engine does not build against /repo")


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


class Worker:
    def __init__(self, i, seed, solver_ms):
        self.i, self.seed, self.solver_ms = i, seed, solver_ms
        self.trace = os.path.join(HERE, "build", "trace.%d.%d" % (os.getpid(), i))
        self.p = None

    def start(self):
        e = env()
        e["SYMDCT_TRACE"] = self.trace
        self.p = subprocess.Popen([BIN, "worker", str(self.seed), str(self.solver_ms)], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e,
                                  preexec_fn=limits, start_new_session=True)
        self.err = []

        def drain(p, err):
            for line in p.stderr:
                err.append(line)
                del err[:-20]
        threading.Thread(target=drain, args=(self.p, self.err), daemon=True).start()

    def stop(self):
        if self.p:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            self.p = None
        try:
            os.unlink(self.trace)
        except OSError:
            pass

    def run(self, case, timeout):
        if self.p is None:
            self.start()
        box = []

        def reader():
            try:
                self.p.stdin.write(case + "\n")
                self.p.stdin.flush()
                box.append(self.p.stdout.readline())
            except OSError:
                box.append("")
        t = threading.Thread(target=reader, daemon=True)
        t.start()
        t.join(timeout)
        if t.is_alive() or not box[0]:
            how = "did not finish within %d s" % timeout if t.is_alive() else "the process ended"
            if not t.is_alive():
                self.p.wait()
                how = "the process ended with status %s: %s" % (self.p.returncode, "".join(self.err)[-300:].strip())
            choices = []
            try:
                ls = open(self.trace).read().split("\n")
                if ls[0] == case:
                    choices = [int(x) for x in ls[1].split()]
            except (OSError, IndexError, ValueError):
                pass
            self.stop()
            return {"case": case, "status": "died", "what": how, "choices": choices, "values": []}
        return json.loads(box[0])


def replay(case, choices, values, release_too=True):
    """runs the counterexample on the real code; returns (how, text) or None"""
    single = "prec=f32r" in case
    inp = "%s\n%s\n%s\n" % (case, " ".join(map(str, choices)), " ".join(values))
    for rel in [False, True]:
        if rel and not release_too:
            break
        if rel:
            build(True)
        for ty in (["f32"] if single else ["f64", "W64", "f32"]):
            for gm in "012":
                cmd = [REL if rel else BIN, "replay", ty, gm]
                try:
                    r = subprocess.run(cmd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                       timeout=120, env=env(), preexec_fn=limits)
                except subprocess.TimeoutExpired:
                    return (ty, gm, rel, "REPRODUCED the call does not return within 120 s")
                if r.returncode == 3:
                    return (ty, gm, rel, r.stdout.strip())
                if r.returncode < 0:
                    return (ty, gm, rel, "REPRODUCED the process is killed by signal %d: %s"
                            % (-r.returncode, r.stderr.strip()[-300:]))
    return None


def known(pid):
    out = []
    try:
        for line in open(os.path.join(HERE, "KNOWN_FINDINGS")):
            m = re.match(r"known: property=(\S+) case=\[([^\]]*)\] (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    except OSError:
        pass
    return out


def violation(pid, case, res, rep, n):
    d = os.path.join(HERE, "build", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (pid, n))
    ty, gm, rel, text = rep
    with open(path, "w") as f:
        json.dump({"property": pid, "case": case, "solver_says": res.get("what", ""), "choices": res.get("choices", []),
                   "input_f64_bits": res.get("values", []), "scalar": ty, "garbage_mode": gm,
                   "profile": "release" if rel else "dev", "observed": text.split("\n"),
                   "how_to_replay": "printf '%%s\\n%%s\\n%%s\\n' CASE 'CHOICES' 'INPUT BITS' | %s replay %s %s" % (
                       REL if rel else BIN, ty, gm)}, f, indent=1)
    print("case: %s" % case)
    print("solver's counterexample: %s" % res.get("what", ""))
    print("on the real code (%s, %s): %s" % (ty, "release" if rel else "dev", text[:1500]))
    print("VIOLATION property=%s replay=%s" % (pid, path))


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    quick = tier == "quick"
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    build()
    r = subprocess.run([BIN, "selftest"], stdout=subprocess.PIPE, text=True, env=env())
    if r.returncode != 0:
        die("oracle self-test: " + r.stdout)
    build_s = time.time() - T0

    todo = casegen.cases(pid, tier, seed)
    listed = known(pid)

    def cost(c):
        n = max([int(x) for x in re.findall(r"(?:n|inner|len)=(\d+)", c)] + [1])
        return n ** 3 / 64 if "m=sub" not in c else n ** 2 / 16
    todo.sort(key=cost, reverse=True)
    q = queue.SimpleQueue()
    for c in todo:
        q.put(c)
    solver_ms = 120000 if quick else 600000
    per_case = 300 if quick else 3600
    # stop handing out cases in time to give an answer within the quick limit
    hard_stop = T0 + (780 if quick else 10 * 3600)
    results, lock = [], threading.Lock()
    stop = threading.Event()
    bad = []

    def loop(i):
        w = Worker(i, seed, solver_ms)
        try:
            while not stop.is_set():
                try:
                    c = q.get_nowait()
                except queue.Empty:
                    break
                left = hard_stop - time.time()
                if left < 5:
                    break
                res = w.run(c, min(per_case, left))
                with lock:
                    results.append(res)
                    if res["status"] != "holds":
                        bad.append(res)
                        # enough to report; leave time for the replay
                        if len([b for b in bad if b["status"] in ("cex", "died")]) >= 6 or len(bad) >= 40:
                            stop.set()
        finally:
            w.stop()
    ths = [threading.Thread(target=loop, args=(i,)) for i in range(JOBS)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()

    extra = None
    code = 0
    n_viol = 0
    unreproduced = []
    order = sorted([b for b in bad if b["status"] in ("cex", "died")], key=lambda b: cost(b["case"]))
    for rel in ([False, True] if order else []):
        if n_viol:
            break
        if rel and time.time() > T0 + 600 and quick:
            break
        for b in order:
            hit = [k for k in listed if k[0] == b["case"]]
            if hit:
                if not rel:
                    print("KNOWN-FINDING: property=%s %s" % (pid, hit[0][1]))
                continue
            if n_viol >= 3:
                break
            rep = replay(b["case"], b.get("choices", []), b.get("values", []), rel)
            if rep:
                n_viol += 1
                violation(pid, b["case"], b, rep, n_viol)
            elif not rel:
                unreproduced.append(b)
    errors = [b for b in bad if b["status"] == "error"]
    if pid in facts.KANI and n_viol == 0:
        import kanirun
        extra, kv = kanirun.run(pid, tier, HERE, T0)
        for line in kv["violations"]:
            n_viol += 1
            print(line)
        errors += kv["errors"]
    done = [x for x in results if x["status"] == "holds"]
    evidence(pid, tier, seed, todo, results, done, build_s, n_viol, extra)
    missing = len(todo) - len(results)
    if n_viol:
        code = 1
    elif errors or [u for u in unreproduced] or missing:
        for b in errors[:5]:
            print("error: %s: %s" % (b["case"], b["what"]))
        for b in unreproduced[:5]:
            print("not reproduced on the real code: %s: %s" % (b["case"], b["what"]))
        print("NO ANSWER: %d errors, %d unreproduced, %d of %d cases not reached" % (
            len(errors), len(unreproduced), missing, len(todo)))
        code = 2
    else:
        print("property %s held: %d cases, %d paths, %d solver queries, %d outputs decided, %.0f s (build %.0f s)" % (
            pid, len(done), sum(x["paths"] for x in done), sum(x["queries"] for x in done),
            sum(x["outputs"] for x in done), time.time() - T0, build_s))
    sys.exit(code)


def evidence(pid, tier, seed, todo, results, done, build_s, n_viol, extra):
    full = [x for x in done if "m=sub" not in x["case"]]
    sub = [x for x in done if "m=sub" in x["case"]]

    def n_of(c):
        return max([int(v) for v in re.findall(r"(?:\bn|inner|len)=(\d+)", c)] + [int(v) for v in re.findall(r"[a-z0-9]+\.(\d+)", c)] + [0])
    cov = {
        "states": sum(x["nodes"] for x in done),
        "transitions": sum(x["ops"] for x in done),
        "traces_validated_against_impl": sum(x["validated"] for x in done),
        "samples": [{k: x[k] for k in ("case", "paths", "nodes", "queries", "outputs", "coords", "solver_ms")}
                    for x in sorted(done, key=lambda x: -x["solver_ms"])[:4] + done[-2:]],
        "meaning": "states: nodes of the symbolic expression DAGs built by running the real code; transitions: "
                   "symbolic arithmetic operations evaluated for the queries; traces_validated_against_impl: paths whose "
                   "encoding was compared with f64 and f32 runs of the real code at a concrete point",
        "cases": len(done),
        "cases_planned": len(todo),
        "symbolic_paths": sum(x["paths"] for x in done),
        "queries_discharged": sum(x["queries"] for x in done),
        "queries_answered_by_an_identical_earlier_one": sum(x["shared"] for x in done),
        "reachability_witnesses": sum(x["wit"] for x in done),
        "raw_dag_queries": sum(x["dag"] for x in done),
        "queries_cross_checked_by_cvc5": sum(x["cross"] for x in done),
        "outputs_decided": sum(x["outputs"] for x in done),
        "solver_time_s": round(sum(x["solver_ms"] for x in done) / 1000, 1),
        "symbolic_execution_time_s": round(sum(x["sym_ms"] for x in done) / 1000, 1),
        "largest_deviation_over_tolerance": max([x["dev"] for x in done] + [0]),
        "full_input_space": {"cases": len(full), "largest_size": max([n_of(x["case"]) for x in full] + [0])},
        "dense_subspace": {"cases": len(sub), "largest_size": max([n_of(x["case"]) for x in sub] + [0])},
        "functions_encoded": facts.ENCODED.get(pid, []),
        "bounds": facts.BOUNDS.get(pid, ""),
        "outside": facts.OUTSIDE.get(pid, ""),
    }
    if extra:
        cov["kani"] = extra
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": facts.ASSUMPTIONS, "wall_s": round(time.time() - T0, 2), "violations": n_viol}
    p = os.path.join(HERE, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


if __name__ == "__main__":
    main()
