#!/usr/bin/env python3
"""Runs the simulation of one property against /repo's working tree.

usage: check.py PROPERTY [--tier quick|thorough] [--seed N] [--jobs N]
       check.py --build            (setup: builds every variant once)
       check.py --replay FILE      (replays a replay file in a fresh process)

Exit 0: no violation. Exit 1: 'VIOLATION property=<id> replay=<path>'. Exit 2: the check itself failed.
"""
import array, json, os, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor, FIRST_COMPLETED, wait

ROOT = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(ROOT, "sim")
TARGET = os.path.join(ROOT, "target")
KNOWN = os.path.join(ROOT, "known_findings.json")

# Simulated runs per check: (quick, thorough), and the variants they are spread over.
# dev: debug assertions and overflow checks; rel: neither; *-strict: the crate's `strict` feature.
W = ["dev", "dev", "dev", "rel"]
PLAN = {
    "C01": (200_000, 6_000_000, W), "C02": (200_000, 6_000_000, W), "C03": (160_000, 5_000_000, W),
    "C04": (130_000, 4_000_000, W), "C05": (100_000, 3_000_000, W), "C06": (1_600_000, 60_000_000, W),
    "C07": (400_000, 12_000_000, W), "C08": (1_600_000, 60_000_000, W), "C09": (200_000, 6_000_000, W),
    "C10": (200_000, 6_000_000, W), "C11": (120_000, 4_000_000, W), "C12": (160_000, 5_000_000, W),
    "C13": (100_000, 3_000_000, W), "C14": (1_600_000, 60_000_000, W), "C15": (60_000, 2_000_000, ["dev-mem", "dev-mem", "rel-mem"]),
    "C16": (400_000, 10_000_000, ["dev", "dev-strict", "rel", "rel-strict"]), "C17": (100_000, 3_000_000, W),
    "C18": (600_000, 20_000_000, W), "C20": (120_000, 4_000_000, W), "C21": (24_000, 800_000, W),
}
# Wall-clock limits on the search itself (building comes on top). They bound slow machines only.
WALL = {"quick": 150, "thorough": 3000}
REAL = ["http_ntlm crate of /repo: client, messages (all codecs), structures, flags, crypto (real code, unmodified)",
        "Rust standard library and the crate's dependencies (nom, rand/getrandom, des, md4, md5, hmac, rc4): real code above the intercepted libc symbols"]
STUB = ["network: simulated (discrete-event queue)", "servers: reference MS-NLMP implementation of the simulator (sim/src/refntlm.rs)",
        "clock_gettime, getrandom/SYS_getrandom, getenv, open and read of /etc/hostname, write to stderr: simulated at the libc boundary",
        "writers handed to the encoder: simulated disk/stream (C08)", "allocator: counting wrapper over the system allocator",
        "threads (C15): real threads, released one at a time by the simulator's scheduler, which may switch at any basic block, memory access, allocation or system call of the library"]


def die(msg):
    print("ERROR " + msg, flush=True)
    sys.exit(2)


def env(variant):
    e = dict(os.environ)
    e["PATH"] = e.get("PATH", "") + ":/root/.cargo/bin"
    tc = "stable-x86_64-unknown-linux-gnu"
    if os.path.isdir("/root/.rustup/toolchains/" + tc):
        e["RUSTUP_TOOLCHAIN"] = tc
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTFLAGS"] = "--cfg http_ntlm_sim -A unexpected_cfgs"
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    for k in [k for k in e if k.startswith("CARGO_PROFILE_")]:
        e.pop(k)
    e["RUSTC_WRAPPER"] = os.path.join(SIM, "rustc-wrap.sh")
    e["NTLMSIM_MEM"] = "1" if variant.endswith("-mem") else "0"
    return e


def binary(variant):
    prof = "debug" if variant.startswith("dev") else "release"
    return os.path.join(TARGET, variant, prof, "ntlmsim")


def build(variant):
    """Rebuilds the simulator against /repo's current working tree."""
    tdir = os.path.join(TARGET, variant)
    prof = "debug" if variant.startswith("dev") else "release"
    fp = os.path.join(tdir, prof, ".fingerprint")
    # Cargo judges by mtime; files put back with an old mtime must be rebuilt too.
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith(("http-ntlm-", "ntlmsim-")):
                shutil.rmtree(os.path.join(fp, d))
    cmd = ["cargo", "build", "--offline", "--locked", "--quiet"]
    if prof == "release":
        cmd.append("--release")
    if variant.endswith("-strict"):
        cmd += ["--features", "strict"]
    e = env(variant)
    e["CARGO_TARGET_DIR"] = tdir
    p = subprocess.run(cmd, cwd=SIM, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return "building %s failed:\n%s" % (variant, p.stdout[-6000:])
    return None


def build_all(variants):
    vs = sorted(set(variants))
    with ThreadPoolExecutor(len(vs)) as ex:
        for err in ex.map(build, vs):
            if err:
                die(err)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Result:
    def __init__(self):
        self.runs = self.sim_ms = self.checks = self.steps = self.ns = self.lib_steps = 0
        self.faults, self.counts, self.known = {}, {}, {}
        self.samples, self.viol, self.choices, self.err = [], None, None, None


def run_batch(prop, variant, seed, start, count, known, out):
    """One worker process over `count` seeds. A process that dies is a finding too."""
    r = Result()
    cmd = [binary(variant), "worker", prop, str(seed), str(start), str(count), out, ",".join(known)]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits, timeout=600)
        rc, tail = p.returncode, p.stderr[-1500:].decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        rc, tail = None, "no CPU use for 600 s (blocked for ever)"
    stats = out + ".stats"
    if rc == 0 and os.path.exists(stats):
        for line in open(stats, encoding="utf-8", errors="replace"):
            f = line.rstrip("\n").split("\t")
            k = f[0]
            if k in ("runs", "sim_ms", "checks", "steps", "ns", "lib_steps"):
                setattr(r, k, int(f[1]))
            elif k == "fault":
                r.faults[f[1]] = int(f[2])
            elif k == "count":
                r.counts[f[1]] = int(f[2])
            elif k == "known":
                r.known[f[1]] = (int(f[2]), int(f[3]), f[4])
            elif k == "sample":
                r.samples.append(f[1])
            elif k == "viol":
                r.viol = dict(index=int(f[1]), kind=f[2], digest=f[3], detail=f[4], variant=variant, start=start)
            elif k == "choices":
                r.choices = [int(x) for x in f[1].split()] if len(f) > 1 else []
        return r
    # died: the choices of the run it died in are in the sink
    sig = -rc if rc is not None and rc < 0 else None
    if rc is not None and sig is None:
        r.err = "worker exited with %s: %s" % (rc, tail)
        return r
    kind = "hang" if sig in (None, signal.SIGVTALRM) else "process-died-signal-%d" % sig
    try:
        words = array.array("Q")
        with open(out + ".sink", "rb") as f:
            words.frombytes(f.read())
        index, n = words[0], words[1]
        r.choices = list(words[2:2 + n])
    except Exception as e:  # noqa: BLE001
        r.err = "worker died (%s) and left no trace: %s" % (kind, e)
        return r
    if sig == signal.SIGKILL:
        r.err = "worker was killed (out of memory?)"
        return r
    r.runs = index - start + 1
    r.viol = dict(index=index, kind=kind, digest="", detail=tail.strip()[-800:] or kind, variant=variant, start=start)
    return r


class Distinct:
    """Counts distinct 64-bit values over many files."""

    def __init__(self):
        self.seen, self.new = set(), array.array("Q")

    def add(self, path):
        if os.path.exists(path):
            with open(path, "rb") as f:
                self.new.frombytes(f.read())
            if len(self.new) > 4_000_000:
                self.count()

    def count(self):
        self.seen.update(self.new)
        self.new = array.array("Q")
        return len(self.seen)


def write_replay(path, prop, v, seed, known, choices, mode, digest, trace):
    with open(path, "w") as f:
        f.write("property: %s\nkind: %s\nmode: %s\nvariant: %s\nseed: %d\nstart: %d\nindex: %d\ndigest: %s\nknown: %s\nchoices: %s\n"
                % (prop, v["kind"], mode, v["variant"], seed, v["start"], v["index"], digest, ",".join(known), " ".join(map(str, choices))))
        f.write("detail: %s\n" % v["detail"][:2000])
        f.write("--- trace (replay with: python3 /verif/check.py --replay %s)\n" % path)
        f.write(trace)


def run_replay(path, variant, timeout=120):
    """Returns (kind or None, digest, output)."""
    try:
        p = subprocess.run([binary(variant), "replay", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hang", "", "blocked for ever\n"
    out = p.stdout.decode("utf-8", "replace")
    if p.returncode < 0:
        s = -p.returncode
        return ("hang" if s == signal.SIGVTALRM else "process-died-signal-%d" % s), "", out + "process died with signal %d\n" % s
    kind = digest = None
    for l in out.splitlines():
        if l.startswith("RESULT violation "):
            d = dict(x.split("=", 1) for x in l.split()[2:])
            kind, digest = d["kind"], d["digest"]
    return kind, digest or "", out


def report(prop, v, seed, known, choices, tmp):
    """Minimises the failing run, checks that its replay file reproduces it, and returns its path."""
    rdir = os.path.join(ROOT, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s-%s-%d-%d.replay" % (prop, v["kind"], seed, v["index"]))
    raw = os.path.join(tmp, "raw.replay")
    write_replay(raw, prop, v, seed, known, choices, "choices", v["digest"], "")
    kind, digest, out = run_replay(raw, v["variant"])
    note = ""
    if kind == v["kind"]:
        best, bd = choices, digest
        if kind != "hang":
            small = os.path.join(tmp, "small")
            try:
                subprocess.run([binary(v["variant"]), "shrink", raw, small, "30"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=limits, timeout=120)
                if os.path.exists(small):
                    a = open(small).read().split("\n")
                    best, bd = [int(x) for x in a[1].split()], a[0]
            except subprocess.TimeoutExpired:
                pass
        if kind == "hang" or kind.startswith("process-died"):
            bd = ""
        write_replay(path, prop, v, seed, known, best, "choices", bd, "")
        k2, d2, out2 = run_replay(path, v["variant"])
        if k2 != v["kind"] or (bd and d2 != bd):
            best, bd, out2 = choices, digest, out  # keep the recorded run
        write_replay(path, prop, v, seed, known, best, "choices", bd, out2)
        note = "minimised from %d to %d choices; replayed in a fresh process" % (len(choices), len(best))
    else:
        # the run needs what earlier runs of the same process left behind
        write_replay(path, prop, v, seed, known, choices, "batch", v["digest"], "")
        k2, d2, out2 = run_replay(path, v["variant"], 600)
        if k2 == v["kind"]:
            lo = v["start"]  # latest start that still fails, by doubling the distance
            dist = 1
            while v["index"] - dist > lo:
                w = dict(v, start=v["index"] - dist)
                write_replay(raw, prop, w, seed, known, choices, "batch", "", "")
                kk, dd, oo = run_replay(raw, v["variant"], 600)
                if kk == v["kind"]:
                    v, d2, out2 = w, dd, oo
                    break
                dist *= 2
            write_replay(path, prop, v, seed, known, choices, "batch", d2, out2)
            note = "needs state left by earlier runs of the process: replays runs %d..%d" % (v["start"], v["index"])
        else:
            note = "seen once, but neither the run nor its batch reproduced it"
            write_replay(path, prop, v, seed, known, choices, "batch", v["digest"], "NOT REPRODUCED\n" + out2)
    return path, note


def merge(d, s):
    for k, n in s.items():
        d[k] = d.get(k, 0) + n


def check(prop, tier, seed, jobs):
    t_start = time.time()
    quick, thorough, variants = PLAN[prop]
    total = quick if tier == "quick" else thorough
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    total = max(int(total * scale), 1)
    entries = json.load(open(KNOWN))["findings"] if os.path.exists(KNOWN) else []
    entries = [e for e in entries if e["property"] == prop]
    known = [e["kind"] for e in entries]
    build_all(variants)
    t_build = time.time() - t_start
    st = subprocess.run([binary(variants[0]), "selftest"], stdout=subprocess.PIPE, text=True)
    if st.returncode != 0:
        die("the reference implementation fails its self-test: " + st.stdout)
    tmp = tempfile.mkdtemp(prefix="ntlmsim-")
    res = Result()
    shapes, paths = Distinct(), Distinct()
    edges = {}
    viols, errors = [], []
    t0 = time.time()
    per = max(50, min(4000, total // (jobs * 12)))
    batches = []
    i = 0
    while i < total:
        batches.append((i, min(per, total - i), variants[len(batches) % len(variants)]))
        i += per
    det_jobs = []
    per_variant = {}
    truncated = False
    sample_digests = {}
    try:
        with ThreadPoolExecutor(jobs) as ex:
            todo = iter(batches)
            live = {}

            def launch():
                b = next(todo, None)
                if b is None:
                    return False
                out = os.path.join(tmp, "b%d" % b[0])
                live[ex.submit(run_batch, prop, b[2], seed, b[0], b[1], known, out)] = (b, out)
                return True

            for _ in range(jobs):
                launch()
            while live:
                done, _ = wait(list(live), return_when=FIRST_COMPLETED)
                for f in done:
                    b, out = live.pop(f)
                    r = f.result()
                    for k in ("runs", "sim_ms", "checks", "steps", "ns", "lib_steps"):
                        setattr(res, k, getattr(res, k) + getattr(r, k))
                    merge(res.faults, r.faults)
                    merge(res.counts, r.counts)
                    per_variant[b[2]] = per_variant.get(b[2], 0) + r.runs
                    for k, (n, idx, d) in r.known.items():
                        o = res.known.get(k)
                        res.known[k] = (n + (o[0] if o else 0), *(min((o[1], o[2]), (idx, d)) if o else (idx, d)))
                    if len(res.samples) < 3 and r.samples:
                        res.samples.append("\n".join(r.samples[:40])[:4000])
                    if r.err:
                        errors.append(r.err)
                    if r.viol:
                        viols.append((r.viol, r.choices))
                    shapes.add(out + ".shapes")
                    paths.add(out + ".paths")
                    if os.path.exists(out + ".edges"):
                        e = open(out + ".edges", "rb").read()
                        edges[b[2]] = edges.get(b[2], 0) | int.from_bytes(e, "little")
                    if len(sample_digests) < 6 and not r.viol and not r.err and os.path.exists(out + ".digests"):
                        sample_digests[b] = open(out + ".digests", "rb").read()
                    for ext in (".stats", ".shapes", ".paths", ".edges", ".digests", ".sink"):
                        try:
                            os.unlink(out + ext)
                        except OSError:
                            pass
                    if time.time() - t0 > WALL[tier]:
                        truncated = True
                    elif not viols and len(errors) < 3:
                        launch()
            # the same seeds again, in other processes, cut differently: same event logs?
            det = {"runs_repeated": 0, "differences": 0}
            if not viols and not errors:
                for b, dig in sample_digests.items():
                    half = max(1, b[1] // 3)
                    for s, n in ((0, half), (half, b[1] - half)):
                        n = min(n, 400)
                        if n > 0:
                            out = os.path.join(tmp, "d%d-%d" % (b[0], s))
                            det_jobs.append((ex.submit(run_batch, prop, b[2], seed, b[0] + s, n, known, out), out, dig[8 * s:8 * (s + n)]))
                for f, out, want in det_jobs:
                    f.result()
                    got = open(out + ".digests", "rb").read() if os.path.exists(out + ".digests") else b""
                    det["runs_repeated"] += len(want) // 8
                    det["differences"] += sum(1 for k in range(0, len(want), 8) if want[k:k + 8] != got[k:k + 8])
        search_s = time.time() - t0
        n_viol, code = 0, 0
        if viols:
            v, ch = min(viols, key=lambda x: x[0]["index"])
            path, note = report(prop, v, seed, known, ch or [], tmp)
            n_viol, code = len(viols), 1
            print("violated: %s" % v["kind"])
            print("detail: %s" % v["detail"][:1500])
            print("seed %d run %d variant %s; %s" % (seed, v["index"], v["variant"], note))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        elif errors:
            die(errors[0])
        for e in entries:
            print("KNOWN-FINDING: property=%s %s (seen in %d checks of this run)" % (prop, e["what"], res.known.get(e["kind"], (0,))[0]))
        if det["differences"]:
            print("WARNING: %d of %d repeated runs differed: the simulation is not deterministic here" % (det["differences"], det["runs_repeated"]))
        wall = time.time() - t_start
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": n_viol,
            "coverage": {
                "evaluations": res.runs,
                "distinct_nontrivial": shapes.count(),
                "rule": RULES[prop],
                "samples": res.samples or ["(no run completed)"],
                "oracle_checks_evaluated": res.checks,
                "events_simulated": res.steps,
                "runs_per_variant": per_variant,
                "runs_planned": total,
                "stopped_early_by_wall_limit": truncated,
                "simulated_runs_and_seeds_per_hour": int(res.runs / max(search_s, 1e-3) * 3600),
                "simulated_time_covered_s": res.sim_ms / 1000.0,
                "faults_injected": dict(sorted(res.faults.items())),
                "reached": dict(sorted(res.counts.items())),
                "distinctness_measure": "64-bit hash of the run's event sequence (event kinds, actors, sizes and faults in order; message bytes left out)",
                "distinct_library_paths": paths.count(),
                "library_path_measure": "64-bit hash of the sequence of basic-block edges executed inside the library during the run (all threads, in execution order); compiler probes, sim/probe",
                "library_basic_block_edges_executed": res.lib_steps,
                "distinct_library_edges_reached": {v: bin(n).count("1") for v, n in sorted(edges.items())},
                "determinism": det,
                "known_findings_seen": {k: v[0] for k, v in res.known.items()},
                "real_components": REAL, "stubbed_components": STUB,
                "build_s": round(t_build, 2), "search_s": round(search_s, 2), "worker_processes": len(batches), "parallel": jobs,
            },
            "assumptions": ["the reference MS-NLMP implementation in sim/src/refntlm.rs is right (it is checked against the published MS-NLMP examples by `ntlmsim selftest`)",
                            "sampling: a clean batch is evidence over the seeds run, not proof"],
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        dst = os.path.join(ROOT, "evidence", prop + ".json")
        with open(dst + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(dst + ".tmp", dst)
        print("%s %s: %d runs, %d distinct, %d checks, %.0f s simulated, %.1f s" % (prop, tier, res.runs, shapes.count(), res.checks, res.sim_ms / 1000.0, wall))
        return code
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


NT = "One evaluation is one simulated run, a pure function of (VERIF_SEED, property, run index). "
RULES = {p: NT for p in PLAN}
RULES.update({
    "C01": NT + "Non-trivial: at least one complete exchange reached a server's verdict. Sessions, levels, accounts, challenges, layouts, delays and interleavings drawn per run.",
    "C02": NT + "Non-trivial: at least one complete exchange reached a server that derived a session key.",
    "C03": NT + "Non-trivial: at least one authenticate message of level 3-5 had its integrity code recomputed.",
    "C04": NT + "Non-trivial: at least one authenticate message was produced or refused under simulated entropy.",
    "C05": NT + "Non-trivial: at least one authenticate message was asked for in a history with deliveries out of order, duplicated or from another handshake.",
    "C06": NT + "Non-trivial: at least one damaged or arbitrary byte string was decoded or handed to a client.",
    "C07": NT + "Non-trivial: at least one message was decoded and compared, whole or cut.",
    "C08": NT + "Non-trivial: at least one message was encoded to a simulated writer that misbehaved.",
    "C09": NT + "Non-trivial: at least one timestamp was produced or converted under the simulated clock.",
    "C10": NT + "Non-trivial: at least one authenticate message was checked against the simulated host's name sources.",
    "C11": NT + "Non-trivial: faults were injected and the recovery phase ran.",
    "C12": NT + "Non-trivial: at least one downgrading or forged challenge was answered.",
    "C13": NT + "Non-trivial: at least one message was searched for secrets.",
    "C14": NT + "Non-trivial: at least one builder call sequence was applied and encoded.",
    "C15": NT + "Non-trivial: at least two threads used the library under a scheduler-chosen interleaving.",
    "C16": NT + "Non-trivial: at least one decision of the strict or default flag policy was compared.",
    "C17": NT + "Non-trivial: at least one complete exchange ran with its context (negotiate message) compared.",
    "C18": NT + "Non-trivial: a flag set was rendered, or a sink failed in the middle of a text.",
    "C20": NT + "Non-trivial: every run; each is a scenario of another property watched for side effects.",
    "C21": NT + "Non-trivial: a client went through its long life and was dropped.",
})


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        build_all([v for p in PLAN.values() for v in p[2]])
        return 0
    if len(a) >= 2 and a[0] == "--replay":
        head = {}
        for l in open(a[1], errors="replace"):
            if l.startswith("---"):
                break
            k, _, v = l.rstrip("\n").partition(": ")
            head[k] = v
        variant = head.get("variant", "dev")
        build_all([variant])
        kind, digest, out = run_replay(a[1], variant, 600)
        print(out, end="")
        same = kind == head.get("kind") and (not head.get("digest") or digest == head["digest"])
        print("replay: kind %s digest %s -> %s" % (kind, digest, "reproduced exactly" if same else "NOT the recorded violation"))
        return 1 if kind else 0
    if not a or a[0] not in PLAN:
        die("usage: check.py PROPERTY | --build | --replay FILE")
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    jobs = os.cpu_count() or 4
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
        elif a[i] == "--seed":
            seed = a[i + 1]
        elif a[i] == "--jobs":
            jobs = int(a[i + 1])
        i += 2
    if tier not in WALL:
        die("unknown tier " + tier)
    try:
        seed = int(seed) & (2**63 - 1)
    except ValueError:
        die("VERIF_SEED is not an integer: " + seed)
    return check(a[0], tier, seed, max(1, min(jobs, 16)))


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        print("ERROR %s" % e, flush=True)
        sys.exit(2)
