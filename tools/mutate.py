#!/usr/bin/env python3
"""Mutation campaign (development aid; no check uses it).

usage: mutate.py OUT.jsonl [--jobs N] [--scale F] [--only REGEX] [--sample N SEED] [--no-swaps 1]
Makes one-line changes to a copy of /repo/src, keeps those that compile and pass the stable tests,
and runs every check's simulation at reduced scale against each. Survivors are blind spots or
equivalent changes.
"""
import json, os, random, re, shutil, subprocess, sys, threading, queue, glob
ROOT = "/tmp/mut"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import check as C  # noqa: E402

SKIP = ("win.rs", "sim.rs")


def code_lines(path):
    """Line numbers outside tests and comments."""
    out, depth, skip = [], 0, None
    lines = open(path).read().split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if skip is None and s.startswith("#[cfg(test)]") or skip is None and s.startswith("#[cfg(http_ntlm_sim)]"):
            skip = "pending"
            base = depth
        depth += l.count("{") - l.count("}")
        if skip == "pending":
            if "{" in l:
                skip = "in" if depth > base else None
            elif s.endswith(";"):
                skip = None
            continue
        if skip == "in":
            if depth <= base:
                skip = None
            continue
        if s and not s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod")):
            out.append(i)
    return lines, out


OPS = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" \| ", " & "), (r" & ", " | "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bset_flag\b", "clear_flag"), (r"\bclear_flag\b", "set_flag"),
    (r"to_le_bytes", "to_be_bytes"), (r"le_u16", "be_u16"), (r"le_u32", "be_u32"), (r"le_u64", "be_u64"),
    (r"\bif (?!let)", "if !"), (r"\.is_empty\(\)", ".is_empty() == false"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"),
    (r"to_uppercase\(\)", "to_lowercase()"), (r"to_uppercase\(\)", "to_string()"), (r"\.trim\(\)", ""), (r"write_all\(", "write("),
    (r"break;", ""), (r"continue;", "break;"), (r"return Err", "let _ = Err::<(), _>"), (r"\?;", ";"),
    (r"\.clear\(\);", ".len();"), (r"Some\((\w+)\)", "None"), (r"\bSIGN\b", "SEAL"),
    (r"NTLMSSP_NEGOTIATE_SIGN\b", "NTLMSSP_NEGOTIATE_SEAL"), (r"NTLMSSP_NEGOTIATE_SEAL\b", "NTLMSSP_NEGOTIATE_SIGN"),
    (r"EXTENDED_SESSIONSECURITY\b", "LM_KEY"), (r"NEGOTIATE_LM_KEY\b", "NEGOTIATE_NTLM"), (r"NON_NT_SESSION_KEY", "TARGET"),
    (r"lm_hash\b", "nt_hash"), (r"nt_hash\b", "lm_hash"), (r"server_challenge\b", "client_challenge"), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
    (r"split_once", "rsplit_once"), (r"encode_utf16", "bytes"), (r"\.first\(", ".last("), (r"checked_", "wrapping_"), (r"saturating_", "wrapping_"),
    (r"fill_bytes\(&mut (\w+)", r"fill_bytes(&mut \1[..1]"), (r"unwrap_or\(", "map_or(0, |x| x).max("),
]


def mutants():
    out = []
    for p in sorted(glob.glob("/repo/src/**/*.rs", recursive=True)):
        rel = os.path.relpath(p, "/repo")
        if os.path.basename(p) in SKIP or "/tests" in p:
            continue
        lines, idx = code_lines(p)
        for i in idx:
            l = lines[i]
            cand = []
            for a, b in OPS:
                for m in re.finditer(a, l):
                    cand.append(l[:m.start()] + m.expand(b) + l[m.end():])
            for m in re.finditer(r"(?<![\w.'\"])(0x[0-9a-f]+|\d+)(?![\w.'\"])", l):
                v = int(m.group(1), 0)
                for w in (v + 1, v - 1):
                    if w >= 0:
                        cand.append(l[:m.start()] + str(w) + l[m.end():])
            s = l.strip()
            if s.endswith(";") and not s.startswith(("let ", "return", "}", "use", "pub", "const", "static", "type")) and s.count("(") == s.count(")"):
                cand.append(re.match(r"\s*", l).group(0) + "// deleted")
            # two neighbouring statements swapped
            if s.endswith(";") and i + 1 < len(lines) and lines[i + 1].strip().endswith(";") and "return" not in l + lines[i + 1] and not s.startswith("}"):
                out.append((rel, i, "\n".join([lines[i + 1], l]), 2))
            for c in cand:
                if c != l:
                    out.append((rel, i, c, 1))
    return out


def sh(cmd, cwd, env=None, timeout=300):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return 124, ""


class Slot:
    def __init__(self, k):
        self.d = "%s/%d" % (ROOT, k)
        shutil.rmtree(self.d, ignore_errors=True)
        os.makedirs(self.d)
        subprocess.run(["cp", "-a", "/repo", self.d + "/repo"], check=True)
        shutil.copytree(VERIF + "/sim", self.d + "/sim")
        f = self.d + "/sim/Cargo.toml"
        t = open(f).read().replace('path = "/repo"', 'path = "%s/repo"' % self.d)
        open(f, "w").write(t)
        self.stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

    def tests(self):
        e = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TARGET_DIR=self.d + "/ttarget", RUSTFLAGS="-A warnings")
        e["PATH"] += ":/root/.cargo/bin"
        rc, o = sh(["cargo", "test", "--offline", "--lib", "--quiet", "--no-run"], self.d + "/repo", e)
        if rc:
            return "nocompile"
        rc, o = sh(["cargo", "test", "--offline", "--lib", "--", "--test-threads=1"], self.d + "/repo", e, 60)
        ok = set()
        for m in re.finditer(r"^test (\S+) \.\.\.(.*?)(?=^test |\Z)", o, re.M | re.S):
            if re.search(r"\bok\s*$", m.group(2).strip().split("\n\nfailures")[0].strip()) or m.group(2).strip().endswith("ok"):
                ok.add(m.group(1))
        return ok

    def sim(self, props, scale, seed):
        e = C.env("dev")
        e["CARGO_TARGET_DIR"] = self.d + "/target"
        e["RUSTC_WRAPPER"] = self.d + "/sim/rustc-wrap.sh"
        e["NTLMSIM_MEM"] = "0"
        rc, o = sh(["cargo", "build", "--offline", "--quiet"], self.d + "/sim", e)
        if rc:
            return {"build": o[-300:]}
        killed = {}
        known = {x["property"]: x["kind"] for x in json.load(open(C.KNOWN))["findings"]}
        for p in props:
            if killed:
                break
            n = max(200, int(C.PLAN[p][0] * scale))
            out = self.d + "/w"
            rc, o = sh([self.d + "/target/debug/ntlmsim", "worker", p, str(seed), "0", str(n), out, known.get(p, "")], self.d, None, 120)
            if rc != 0:
                killed[p] = "died rc %d" % rc
                continue
            for l in open(out + ".stats", errors="replace"):
                if l.startswith("viol\t"):
                    killed[p] = l.split("\t")[2] + "@" + l.split("\t")[1]
        return killed


def main():
    a = sys.argv[1:]
    out = a[0]
    jobs, scale, only, sample, swaps = 6, 0.01, None, None, True
    i = 1
    while i < len(a):
        if a[i] == "--jobs":
            jobs = int(a[i + 1])
        elif a[i] == "--scale":
            scale = float(a[i + 1])
        elif a[i] == "--only":
            only = a[i + 1]
        elif a[i] == "--no-swaps":
            swaps = False
        elif a[i] == "--sample":
            sample = (int(a[i + 1]), int(a[i + 2]))
            i += 1
        i += 2
    ms = mutants()
    if only:
        ms = [m for m in ms if re.search(only, m[0])]
    if not swaps:
        ms = [m for m in ms if m[3] == 1]
    if sample:
        random.Random(sample[1]).shuffle(ms)
        ms = ms[:sample[0]]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    ms = [m for m in ms if (m[0], m[1] + 1, m[2]) not in done]
    print(len(ms), "mutants", flush=True)
    q = queue.Queue()
    for m in ms:
        q.put(m)
    lock = threading.Lock()
    # those that catch most come first; a mutant is done with at the first catch
    first = ["C07", "C01", "C14", "C18", "C02", "C11", "C16", "C06", "C03", "C08", "C09", "C10", "C17"]
    props = first + [p for p in C.PLAN if p not in first and p != "C15"]

    def work(k):
        s = Slot(k)
        base = s.tests()
        need = {t.split("::", 1)[1] for t in s.stable}
        assert need <= base, need - base
        while True:
            try:
                rel, i, new, n = q.get_nowait()
            except queue.Empty:
                break
            f = s.d + "/repo/" + rel
            orig = open(f).read()
            lines = orig.split("\n")
            old = "\n".join(lines[i:i + n])
            lines[i:i + n] = new.split("\n")
            open(f, "w").write("\n".join(lines))
            r = s.tests()
            if r == "nocompile":
                st, k2 = "nocompile", {}
            elif not need <= r:
                st, k2 = "tests", {}
            else:
                k2 = s.sim(props, scale, 1)
                st = "killed" if k2 and "build" not in k2 else ("nobuild" if k2 else "SURVIVED")
            with lock:
                with open(out, "a") as g:
                    g.write(json.dumps({"file": rel, "line": i + 1, "old": old, "new": new, "status": st, "by": k2}) + "\n")
            open(f, "w").write(orig)
        shutil.rmtree(s.d, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    main()
