"""Bit-precise model checking (Kani, CBMC) of the crate's sources against an integer stand-in field: harnesses of one crate."""
import concurrent.futures as cf
import os, re, resource, subprocess, time
import build

WS = {"kbase": "kani", "kcirc": "kanic"}
FLAGS = ["--no-memory-safety-checks", "--no-overflow-checks", "--no-undefined-function-checks"]


def env():
    e = dict(os.environ)
    for k in list(e):
        if (k.startswith("CARGO_") and k != "CARGO_HOME") or k in ("RUSTFLAGS", "RUSTUP_TOOLCHAIN"):
            e.pop(k)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    return e


def kani(package, features, harness, unwind, timeout, extra=()):
    ws = build.workspace(WS[package])
    tag = "-".join(sorted(features)) or "none"
    target = f"{build.BUILD}/t-{WS[package]}-{tag}"
    cmd = ["cargo", "kani", "-p", package, "--lib", "--no-default-features", "--features", ",".join(features), "--target-dir", target, *FLAGS, "--unwind", str(unwind), "--exact", *extra]
    for h in harness:
        cmd += ["--harness", h]
    log = f"{build.BUILD}/kani-{package}-{tag}-{harness[0].split('::')[-1]}.log"
    p = subprocess.Popen(cmd, cwd=ws, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        out += "\nTIMEOUT\n"
    with open(log, "w") as f:
        f.write(out)
    return out


def number(text, pat):
    return sum(float(x) for x in re.findall(pat, text))


def values(text, assertion):
    """the non-deterministic values of the concrete playback for the failed assertion, in order"""
    text = next((x for x in text.split("/// Check for")[1:] if assertion in x.split("#[test]")[0]), text)
    m = re.search(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", text, re.S)
    if not m:
        return None
    return [bytes(int(b) for b in x.split(",") if b.strip()) for x in re.findall(r"vec!\[([0-9, ]*)\]", m.group(1))]


def run(b, features, h, deadline):
    """decides one harness. b.own: the text of the assertions that state the property.
    status held / refuted / undecided, with solver figures"""
    t = kani(b.package, features, [h], b.unwind, max(20, deadline - time.time()))
    failed = [x.strip().strip('"') for x in re.findall(r"^Failed Checks: (.*)$", t, re.M)]
    covers = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", t)
    d = dict(harness=h, checks=int(number(t, r"\*\* \d+ of (\d+) failed")), symex_s=round(number(t, r"Runtime Symex: ([\d.]+)s"), 2), solver_s=round(number(t, r"Runtime decision procedure: ([\d.]+)s"), 2),
             queries=len(re.findall(r"Runtime decision procedure", t)), failed=failed, steps=int(number(t, r"size of program expression: (\d+) steps")))
    mine = [f for f in failed if f in b.own]
    covered = covers and int(covers.group(1)) > 0
    rejects = b.rejects(h) and failed and not mine and all("unwinding" not in f and "supported" not in f for f in failed)
    if covered and ("VERIFICATION:- SUCCESSFUL" in t or rejects):
        d["status"] = "held"
    elif mine and not any("unwinding" in f for f in failed):
        d["status"] = "refuted"
        t2 = kani(b.package, features, [h], b.unwind, max(120, deadline - time.time()), ["-Z", "concrete-playback", "--concrete-playback=print"])
        d["values"] = values(t2, mine[0])
        d["assertion"] = mine[0]
    else:
        d["status"] = "undecided"
        d["why"] = "; ".join(failed)[:300] or ("out of time" if "TIMEOUT" in t else "no answer: " + " ".join(re.findall(r"^error.*$", t, re.M))[:300])
    return d


def run_all(b, tier, budget, jobs):
    """every harness in every variant: [(variant, result)]"""
    deadline = time.time() + budget
    tasks = [(v, h) for h in b.harness(tier) for v in b.variants]
    with cf.ThreadPoolExecutor(min(jobs, len(tasks))) as ex:
        return list(zip([v for v, _ in tasks], ex.map(lambda t: run(b, t[0], t[1], deadline), tasks)))


class Bits:
    def __init__(self, package, variants, harness, unwind, own, model, replay, rejects=lambda h: False):
        self.rejects = rejects  # harnesses in which the code is to panic
        self.package, self.variants, self.harness, self.unwind, self.own, self.model, self.replay = package, variants, harness, unwind, own, model, replay


# ---- C06
def c06_model(h, vals):
    words = [int.from_bytes(v, "little") for v in vals if len(v) == 16]
    n = [int.from_bytes(v, "little") for v in vals if len(v) == 8]
    name = h.split("::")[-1]
    m = dict(n="%x" % (n[0] if n else 3 if name.endswith("_n") else int(name[-1])))
    if name.startswith("explicit"):
        m["cap"] = "%x" % (words.pop(0) if words else 0)
    for k in range(4):
        m[f"m{k}"] = "%x" % (words[k] if k < len(words) else 0)
    return m


def c06_replay(features, m, _):
    n = int(m["n"], 16)
    out = []
    if n <= 1 << 14:
        b, _ = build.base_binary("real", features)
        text = ",".join(f"{k}={v}" for k, v in m.items() if k in ("n", "cap"))
        r = subprocess.run([b, "C06", "quick", "replay"], input=text, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120)
        out = [l[5:] for l in r.stdout.splitlines() if l.startswith("FAIL ")]
    else:
        # too long to hash: the same code natively on the integer field, up to the first permutation
        b, _ = build.program("kbase", "kani", features)
        r = subprocess.run([b, str(n), m.get("cap", "default"), *(m[f"m{k}"] for k in range(4))], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120)
        if r.returncode == 1:
            out = [f"message of {n} elements, capacity {m.get('cap', 'default')}: " + r.stdout.strip()]
    return out


C06 = Bits("kbase", [("short",), (), ("legacy", "short")], lambda tier: ["proofs::" + h for h in ("explicit_1", "explicit_2", "explicit_n", "default_1", "default_2", "default_n")], 5,
           ["capacity word entering the first permutation", "no permutation"], c06_model, c06_replay)


# ---- C17, and the declared rows of C19
def c17_model(h, vals):
    return {f"v{k}": "%x" % int.from_bytes(v, "little") for k, v in enumerate(vals)}


def circ_replay(prop):
    def go(features, m, h):
        b, _ = build.circ_binary("real", features)
        text = ",".join(f"{k}={v}" for k, v in m.items())
        r = subprocess.run([b, prop, "quick", h], input=text, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=120)
        return [l[5:] for l in r.stdout.splitlines() if l.startswith("FAIL ")]
    return go


SEQUENCES = re.findall(r"\$each! \{ (\w+):", open(f"{build.VERIF}/engine/kcirc/src/ops.rs").read())
QUICK = ["fixed1", "fixed2", "fixed3", "stream1", "stream2", "stream3", "stream4", "plain1", "plain2", "fixed1_stream2", "stream2_fixed1", "plain2_fixed2", "bare2_fixed1", "known2"]
C17 = Bits("kcirc", [("short",)], lambda tier: ["proofs::" + h for h in ["long_2", "long_3", "long_4"] + (QUICK if tier == "quick" else SEQUENCES)], 8,
           ["one row per input", "one control per row", "no control beyond the rows", "no domain or digest beyond the rows", "inputs of the row", "control of the row", "domain of the row", "expected digest of the row", "stream longer than its count is recorded"],
           c17_model, circ_replay("C17"), rejects=lambda h: "long_" in h)
C19 = Bits("kcirc", [("short",), ()], lambda tier: ["proofs::rows"], 8, ["declared rows are at least block size times length"], c17_model, circ_replay("C19"))
