"""Type-checks /repo's current working tree with the fact-extracting compiler driver (driver/main.rs).

Nothing of /repo is run: its crates are only checked (`cargo check`), through a mirror of symlinks as
the crates that need dependencies that are not on this machine have to be left out."""
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

REPO = os.environ.get("AX_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("AX_BUILD", f"{VERIF}/build")
WS, TARGET, FACTS = f"{BUILD}/ws", f"{BUILD}/target", f"{BUILD}/facts"
DRIVER = f"{BUILD}/axfacts"

LEFT_OUT = {
    "common/apm", "common/memory-tracker", "core/cli", "core/network", "devtools/metadata-cli",
}
# crates whose dependencies are not all on this machine: those are replaced by their signatures (stubs/), which suffices to type-check
WIDE = ["core/db", "core/storage", "core/executor", "core/mempool", "core/consensus", "core/api", "core/run"]
STUBS = {"rocksdb": "ckb-rocksdb", "lru": "lru", "crossbeam-queue": "crossbeam-queue", "az": "az", "rug": "rug", "bn": "substrate-bn", "jsonrpsee": "jsonrpsee",
         "tower": "tower", "tower-http": "tower-http"}
OVERLAY = {"common/apm": ("common-apm", ("src/metrics",)), "core/network": ("core-network", ())}
EXTRA = ["core/interoperation"]
# lines of manifests that are not needed to type-check the libraries (dev-dependencies)
PATCH = {
    "common/apm-derive/Cargo.toml": r"common-apm = ",
    "core/interoperation/Cargo.toml": r"(cardano-message-signing|core-executor|core-storage|core-db) = ",
    "devtools/axon-tools/Cargo.toml": r"eth_light_client_in_ckb-prover = ",
}
SPEC, WSPEC = "axspec", "axwide"
WCRATES = [w.replace("/", "_") for w in WIDE]
CRATES = ["abi_generator", "axon_protocol", "axon_tools", "common_apm_derive", "common_config_parser",
          "common_crypto", "common_hasher", "common_logger", "common_merkle", "common_version",
          "core_interoperation", "core_rpc_client"]


class BuildError(Exception):
    pass


def write(path, text):
    if os.path.islink(path):
        os.unlink(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


def repo_files():
    r = subprocess.run(["git", "-c", "safe.directory=*", "ls-files", "-z", "--cached", "--others", "--exclude-standard"],
                       cwd=REPO, capture_output=True, text=True)
    if r.returncode == 0:
        fs = r.stdout.split("\0")
    else:
        fs = []
        for d, ds, ns in os.walk(REPO):
            ds[:] = [x for x in ds if x not in (".git", "target")]
            fs += [os.path.relpath(f"{d}/{n}", REPO) for n in ns]
    return {f for f in fs if f and os.path.isfile(f"{REPO}/{f}")}


def root_manifest():
    text = open(f"{REPO}/Cargo.toml").read()
    out = []
    for part in re.split(r"^(?=\[)", text, flags=re.M):
        if part.startswith("[workspace"):
            lines = [x for x in part.splitlines() if x.strip(' ",') not in LEFT_OUT]
            part = "\n".join(lines) + "\n"
            if part.startswith("[workspace]"):
                part = part.replace("[workspace]", '[workspace]\nresolver = "2"', 1)
                extra = "".join(f'    "{m}",\n' for m in EXTRA + [SPEC, WSPEC])
                part = re.sub(r"members = \[\n", lambda m: m[0] + extra, part, count=1)
            out.append(part)
            if part.startswith("[workspace]"):
                out[-1] = out[-1].rstrip() + '\nexclude = ["axstubs", "common/apm", "core/network"]\n\n'
        elif part.startswith(("[profile", "[patch")):
            out.append(part)
    return "".join(out)


def wide_manifest(text, depth):
    """Without development dependencies and benchmarks, and with the signatures in the place of crates that are not here."""
    out = []
    for part in re.split(r"^(?=\[)", text, flags=re.M):
        if part.startswith(("[dev-dependencies", "[[bench]]", "[[example]]", "[[test]]", "[target.")):
            continue
        if part.startswith("[features]"):
            part = re.sub(r"dep:[\w-]+", "", part).replace('"", ', "").replace(', ""', "").replace('""', "")
        if part.startswith("[dependencies]"):
            part = re.sub(r"^.*optional = true.*$", "", part, flags=re.M)
            for k, d in STUBS.items():
                part = re.sub(rf"^{k}\s*=.*$", f'{k} = {{ path = "{"../" * depth}axstubs/{d}", package = "{d}" }}', part, flags=re.M)
        out.append(part)
    return "".join(out)


def link(dst, src):
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    if not (os.path.islink(dst) and os.readlink(dst) == src):
        if os.path.lexists(dst):
            os.unlink(dst)
        os.symlink(src, dst)


def mirror():
    os.makedirs(WS, exist_ok=True)
    files = repo_files()
    extra = {}
    for d, (stub, keep) in OVERLAY.items():
        files = {f for f in files if not f.startswith(d + "/") or f.startswith(tuple(f"{d}/{k}" for k in keep))}
        extra.update({f"{d}/" + os.path.relpath(p, f"{VERIF}/stubs/{stub}"): p for p in glob.glob(f"{VERIF}/stubs/{stub}/**/*.*", recursive=True)})
    for stub in set(STUBS.values()) | {"prometheus", "prometheus-static-metric", "jsonrpsee-rpc"}:
        extra.update({f"axstubs/{stub}/" + os.path.relpath(p, f"{VERIF}/stubs/{stub}"): p for p in glob.glob(f"{VERIF}/stubs/{stub}/**/*.*", recursive=True)})
    for f in files - {"Cargo.toml", "Cargo.lock"}:
        dst = f"{WS}/{f}"
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        if f.endswith("/Cargo.toml") and os.path.dirname(f) in WIDE:
            write(dst, wide_manifest(open(f"{REPO}/{f}").read(), f.count("/")))
        elif f in PATCH:
            lines = open(f"{REPO}/{f}").read().splitlines(keepends=True)
            write(dst, "".join(x for x in lines if not re.match(PATCH[f], x)))
        elif not (os.path.islink(dst) and os.readlink(dst) == f"{REPO}/{f}"):
            if os.path.lexists(dst):
                os.unlink(dst)
            os.symlink(f"{REPO}/{f}", dst)
    for f, p in extra.items():
        link(f"{WS}/{f}", p)
    files |= set(extra)
    spec = {}
    for crate, src in ((SPEC, "spec"), (WSPEC, "spec_wide")):
        for d, _, names in os.walk(f"{VERIF}/{src}"):
            for n in names:
                p = f"{d}/{n}"
                spec[f"{crate}/" + os.path.relpath(p, f"{VERIF}/{src}")] = p
    for f, p in spec.items():
        dst = f"{WS}/{f}"
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        if not (os.path.islink(dst) and os.readlink(dst) == p):
            if os.path.lexists(dst):
                os.unlink(dst)
            os.symlink(p, dst)
    files |= set(spec)
    for d, _, names in os.walk(WS, topdown=False):
        for n in names:
            rel = os.path.relpath(f"{d}/{n}", WS)
            if rel not in files and rel != ".lock.sha256":
                os.unlink(f"{d}/{n}")
        if not os.listdir(d):
            os.rmdir(d)
    write(f"{WS}/Cargo.toml", root_manifest())
    lock = open(f"{REPO}/Cargo.lock").read()
    sha = hashlib.sha256(lock.encode()).hexdigest()
    stamp = f"{WS}/.lock.sha256"
    if not os.path.exists(stamp) or open(stamp).read() != sha or not os.path.exists(f"{WS}/Cargo.lock"):
        open(f"{WS}/Cargo.lock", "w").write(lock)
        open(stamp, "w").write(sha)


def out(*cmd):
    return subprocess.run(cmd, capture_output=True, text=True, check=True).stdout.strip()


def driver():
    src = open(f"{VERIF}/driver/main.rs", "rb").read()
    sha = hashlib.sha256(src).hexdigest()
    stamp = f"{BUILD}/axfacts.sha256"
    if os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == sha:
        return
    os.makedirs(BUILD, exist_ok=True)
    sysroot = out("rustc", "+nightly", "--print", "sysroot")
    r = subprocess.run(["rustc", "+nightly", "-O", "--edition", "2021", "-o", DRIVER, f"{VERIF}/driver/main.rs",
                        "-C", f"link-arg=-Wl,-rpath,{sysroot}/lib"], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("driver does not build:\n" + r.stderr[-3000:])
    open(stamp, "w").write(sha)


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST"))}
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET, CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0",
             # as released: integer overflow is a panic, debug assertions are not there
             CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false", CARGO_PROFILE_DEV_OVERFLOW_CHECKS="true",
             CARGO_TERM_COLOR="never", RUSTC=out("rustup", "which", "rustc", "--toolchain", "nightly"),
             RUSTC_WRAPPER=f"{VERIF}/driver/rw.sh", RUSTC_WORKSPACE_WRAPPER=DRIVER, AXFACTS_OUT=FACTS)
    return e


def check(args, e):
    r = subprocess.run(["cargo", "+1.72", "check", "--offline", *args], cwd=WS, env=e, capture_output=True, text=True)
    if r.returncode:
        errs = [x for x in r.stderr.split("\n\n") if "error" in x]
        raise BuildError("cargo check " + " ".join(args) + " fails:\n" + "\n\n".join(errs)[:40000])


def with_references(crate, args, e):
    """Checks a reference crate; a module that no longer fits the code's types is left out: what it decided is then undecided."""
    left_out = set()
    while True:
        try:
            return check(args, e)
        except BuildError as x:
            bad = set(re.findall(rf"-->\s+{crate}/src/(\w+)\.rs", str(x))) - {"lib"} - left_out
            if not bad:
                raise
            left_out |= bad
            print(f"references left out: {sorted(bad)}", str(x)[:1500] if os.environ.get("AX_DEBUG") else "", file=sys.stderr)
            lib = open(f"{VERIF}/{'spec' if crate == SPEC else 'spec_wide'}/src/lib.rs").read()
            write(f"{WS}/{crate}/src/lib.rs", "".join(l for l in lib.splitlines(keepends=True) if l.strip() not in [f"pub mod {b};" for b in left_out]))


def extract(wide=True):
    """The directory of the facts of /repo as it is now."""
    os.makedirs(BUILD, exist_ok=True)
    with open(f"{BUILD}/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        driver()
        mirror()
        if os.environ.get("AX_CACHE"):
            h = hashlib.sha256(open(f"{BUILD}/axfacts.sha256").read().encode())
            for f in sorted(repo_files()):
                if f.endswith((".rs", ".toml", ".lock")):
                    h.update(f.encode() + b"\0" + open(f"{REPO}/{f}", "rb").read())
            for f in sorted(glob.glob(f"{VERIF}/s[pt]*/**/*.*", recursive=True)):
                h.update(f.encode() + b"\0" + open(f, "rb").read())
            if os.path.exists(f"{FACTS}/.sha") and open(f"{FACTS}/.sha").read() in (h.hexdigest() + str(wide), h.hexdigest() + "True"):
                return FACTS
        else:
            h = None
        # every member is compiled again from /repo's files
        for fp in glob.glob(f"{TARGET}/debug/.fingerprint/*"):
            n = os.path.basename(fp).rsplit("-", 1)[0].replace("-", "_")
            if n in CRATES + WCRATES + [SPEC, WSPEC]:
                shutil.rmtree(fp)
        shutil.rmtree(FACTS, ignore_errors=True)
        os.makedirs(FACTS)
        e = env()
        ex = [x for w in WCRATES + [WSPEC] for x in ("--exclude", w.replace("_", "-"))]
        check(["--workspace", "--exclude", "axon-tools", "--exclude", SPEC, *ex], e)
        with_references(SPEC, ["-p", "axon-tools", "-p", SPEC, "--all-features"], e)
        if wide:
            try:
                with_references(WSPEC, [x for w in WCRATES + [WSPEC] for x in ("-p", w.replace("_", "-"))], e)
            except BuildError as x:
                # they do not type-check with the signatures at hand: what is said about them is undecided
                print("crates left out:", str(x)[:3000], file=sys.stderr)
        missing = [c for c in CRATES + [SPEC] if not os.path.exists(f"{FACTS}/{c}.json")]
        if missing:
            raise BuildError(f"no facts for {missing}")
        if h:
            open(f"{FACTS}/.sha", "w").write(h.hexdigest() + str(wide))
    return FACTS


if __name__ == "__main__":
    t = time.time()
    print(extract(), f"{time.time() - t:.1f} s")
