"""Assembles scratch workspaces under /verif/build around /repo's current sources and builds the checking programs."""
import fcntl, json, os, shutil, subprocess, sys, threading, time, tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", VERIF + "/build")
TOOLCHAIN = "nightly-2024-07-07"


def inline(v):
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{json.dumps(k)} = {inline(x)}" for k, x in v.items()) + " }"
    if isinstance(v, list):
        return "[" + ", ".join(map(inline, v)) + "]"
    return json.dumps(v, ensure_ascii=False)


def env(target):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTUP_TOOLCHAIN"):
            if k not in ("CARGO_HOME",):
                e.pop(k)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target, CARGO_TERM_COLOR="never",
             CARGO_INCREMENTAL="0")
    return e


def link(src, dst):
    if os.path.islink(dst) or os.path.exists(dst):
        if os.path.islink(dst) and os.readlink(dst) == src:
            return
        os.unlink(dst)
    os.symlink(src, dst)


_lock = threading.Lock()


def workspace(kind):
    """assembles the workspace, one caller at a time: several harnesses of one check ask for the same one at once"""
    os.makedirs(BUILD, exist_ok=True)
    with _lock, open(f"{BUILD}/.lock", "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        return assemble(kind)


def assemble(kind):
    """sym, circ: stand-in halo2curves; real, circreal: the real one. circ, circreal also have poseidon-circuit with the
    stand-in halo2_proofs; nodef: poseidon-circuit asks for poseidon-base without its default features."""
    ws = f"{BUILD}/ws-{kind}"
    os.makedirs(ws, exist_ok=True)
    with open(f"{REPO}/Cargo.toml", "rb") as f:
        root = tomllib.load(f)
    deps = dict(root["workspace"].get("dependencies", {}))
    deps.pop("halo2_proofs", None)
    eng = f"{VERIF}/engine"
    deps["symfield"] = {"path": f"{eng}/symfield"}
    members = {"poseidon-base": f"{REPO}/poseidon-base", "vbase": f"{eng}/vbase"}
    nodef, kind = "nodef" in kind, kind.replace("nodef", "")
    circ = kind in ("circ", "circreal")
    if kind in ("kani", "kanic"):
        h = deps.get("halo2curves")
        deps["halo2curves"] = {"path": f"{eng}/halo2curves-kani", "features": h.get("features", []) if isinstance(h, dict) else []}
        deps.pop("symfield")
        for n in ("once_cell", "lazy_static"):
            deps[n] = {"path": f"{eng}/stubs/{n}"}
        members = {"poseidon-base": f"{REPO}/poseidon-base", "kbase": f"{eng}/kbase"} if kind == "kani" else {"poseidon-base": f"{REPO}/poseidon-base", "kcirc": f"{eng}/kcirc", "halo2-sym": f"{eng}/halo2-sym"}
    if kind in ("sym", "circ"):
        h = deps.get("halo2curves")
        feats = h.get("features", []) if isinstance(h, dict) else []
        deps["halo2curves"] = {"path": f"{eng}/halo2curves-sym", "features": feats}
    if circ or kind == "kanic":
        deps["halo2_proofs"] = {"path": "halo2-sym"}
        for n in ("log", "thiserror", "rand_xorshift"):
            deps[n] = {"path": f"{eng}/stubs/{n}"}
        if circ:
            members = {"poseidon-base": f"{REPO}/poseidon-base", "vcirc": f"{eng}/vcirc", "vbase": f"{eng}/vbase", "halo2-sym": f"{eng}/halo2-sym"}
        circuit_package(f"{ws}/poseidon-circuit", nodef)
    for name in os.listdir(ws):
        p = f"{ws}/{name}"
        if os.path.islink(p) and name not in members:
            os.unlink(p)
    for name, src in members.items():
        link(src, f"{ws}/{name}")
    out = {"members": sorted(set(members) - {"vbase"} if circ else members) + (["poseidon-circuit"] if circ or kind == "kanic" else []), "resolver": "2", "dependencies": deps}
    text = "workspace = " + inline(out) + "\n"
    text += 'profile = { dev = { opt-level = 2, debug = 0, overflow-checks = true, debug-assertions = true, panic = "unwind" }, release = { opt-level = 2, debug = 0 } }\n'
    p = f"{ws}/Cargo.toml"
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)
    if not os.path.exists(f"{ws}/Cargo.lock"):
        shutil.copyfile(f"{eng}/Cargo.lock.base", f"{ws}/Cargo.lock")
    return ws


def circuit_package(dst, nodef=False):
    """poseidon-circuit's sources with its manifest, without what only its tests and benchmarks need"""
    os.makedirs(dst, exist_ok=True)
    with open(f"{REPO}/poseidon-circuit/Cargo.toml", "rb") as f:
        m = tomllib.load(f)
    for k in ("dev-dependencies", "bench", "test", "example", "bin"):
        m.pop(k, None)
    if nodef:
        m["dependencies"]["poseidon-base"]["default-features"] = False
    m["package"].update(autobenches=False, autotests=False, autoexamples=False, autobins=False)
    text = "".join(f"{k} = {inline(v)}\n" for k, v in m.items())
    p = f"{dst}/Cargo.toml"
    if not os.path.exists(p) or open(p).read() != text:
        open(p, "w").write(text)
    link(f"{REPO}/poseidon-circuit/src", f"{dst}/src")


def cargo(ws, target, args, log):
    t0 = time.time()
    r = subprocess.run(["cargo", "build", "--offline", *args], cwd=ws, env=env(target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with open(log, "w") as f:
        f.write(r.stdout)
    return r.returncode, time.time() - t0, r.stdout


def finish(kind, package, features, rc, dt, out, target, release):
    tag = "-".join(sorted(features)) or "none"
    if rc:
        raise RuntimeError(f"build of {package} ({kind}, {tag}) failed:\n" + "\n".join(l for l in out.splitlines() if "error" in l or "-->" in l)[:3000] + out[-1500:])
    os.makedirs(f"{BUILD}/bin", exist_ok=True)
    dst = f"{BUILD}/bin/{package}-{kind}-{tag}"
    tmp = f"{dst}.{os.getpid()}"
    shutil.copy2(f"{target}/{'release' if release else 'debug'}/{package}", tmp)
    os.replace(tmp, dst)
    return dst, dt


def program(package, kind, features, release=False):
    """builds a checking program against /repo's sources; returns (path, seconds)"""
    ws = workspace(kind)
    target = f"{BUILD}/t-{kind}"
    fl = list(features) + (["real"] if kind.endswith("real") else [])
    args = ["-p", package, "--no-default-features", "--features", ",".join(fl)] + (["--release"] if release else [])
    rc, dt, out = cargo(ws, target, args, f"{BUILD}/{kind}-{'-'.join(sorted(features)) or 'none'}.log")
    return finish(kind, package, features, rc, dt, out, target, release)


def base_binary(kind, features, release=False):
    return program("vbase", kind, features, release)


def circ_binary(kind, features, release=False):
    return program("vcirc", ("nodef" if "nodef" in features else "") + {"sym": "circ", "real": "circreal"}[kind], features, release)


if __name__ == "__main__":
    print(program(sys.argv[1], sys.argv[2], [x for x in sys.argv[3].split(",") if x]))
