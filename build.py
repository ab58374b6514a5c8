#!/usr/bin/env python3
"""Build the fact base (monomorphic MIR + crate audit) from /repo's current working tree.

Facts live in /verif/work/facts/<key>/{mono,audit}.json, key = hash(repo sources, driver, harness, feature set).
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent
REPO = Path(os.environ.get("CORRIES_REPO", "/repo"))
WORK = Path(os.environ.get("CORRIES_WORK", VERIF / "work"))
HARNESS = VERIF / "harness"
DRIVER = VERIF / "driver"


def _hash_files(h, root, pats):
    for pat in pats:
        for p in sorted(root.glob(pat)):
            if p.is_file():
                h.update(str(p.relative_to(root)).encode() + b"\0" + p.read_bytes() + b"\0")


def driver_bin():
    h = hashlib.sha256()
    _hash_files(h, DRIVER, ["Cargo.toml", "Cargo.lock", "src/**/*.rs"])
    stamp = WORK / "driver.stamp"
    b = DRIVER / "target" / "release" / "mirfacts"
    if b.exists() and stamp.exists() and stamp.read_text() == h.hexdigest():
        return b, h.hexdigest()
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline"], cwd=DRIVER,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise SystemExit("driver build failed:\n" + r.stdout[-4000:])
    WORK.mkdir(exist_ok=True)
    stamp.write_text(h.hexdigest())
    return b, h.hexdigest()


def repo_key(extra):
    h = hashlib.sha256()
    _hash_files(h, REPO, ["Cargo.toml", "build.rs", "src/**/*"])
    _hash_files(h, HARNESS, ["Cargo.toml", "Cargo.lock", "src/**/*.rs"])
    h.update(extra.encode())
    return h.hexdigest()[:20]


def strip_items(path, log):
    """remove the harness items that rustc rejects; returns what was removed"""
    lines = path.read_text().split("\n")
    bad = sorted({int(m) for m in re.findall(r"(?:-->|:::) src/lib\.rs:(\d+):", log)})
    gone, kill = [], set()
    for b in bad:
        i = b - 1
        k = i
        while k >= 0 and not re.match(r"\s*(pub fn|use |type |const )", lines[k]):
            k -= 1
        if k < 0 or re.match(r"\s*(type |const )", lines[k]):
            continue
        e, depth = k, 0
        while True:
            depth += lines[e].count("{") - lines[e].count("}")
            if (depth <= 0 and ("}" in lines[e] or lines[e].rstrip().endswith(";"))) or e + 1 >= len(lines):
                break
            e += 1
        if i <= e:
            kill |= set(range(k, e + 1))
            gone.append(lines[k].strip())
    if kill:
        path.write_text("\n".join(l for n, l in enumerate(lines) if n not in kill))
    return gone


def build(feature):
    """feature: 'validation' or 'plain' -> directory holding mono.json and audit.json"""
    WORK.mkdir(exist_ok=True)
    with open(WORK / "lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv, dh = driver_bin()
        key = repo_key(dh + feature + str(REPO) + Path(__file__).read_text())
        out = WORK / "facts" / (feature + "-" + key)
        if (out / "mono.json").exists() and (out / "audit.json").exists():
            return out
        facts = WORK / "facts"
        facts.mkdir(exist_ok=True)
        olds = sorted((d for d in facts.iterdir() if d.name.startswith(feature + "-")), key=lambda d: d.stat().st_mtime)
        for old in olds[:-2]:
            shutil.rmtree(old)
        tmp = facts / (feature + ".tmp")
        if tmp.exists():
            shutil.rmtree(tmp)
        tmp.mkdir()
        hdir = WORK / ("harness-" + feature)
        if hdir.exists():
            shutil.rmtree(hdir)
        shutil.copytree(HARNESS, hdir, ignore=shutil.ignore_patterns("target"))
        ct = (hdir / "Cargo.toml").read_text().replace('path = "/repo"', 'path = "%s"' % REPO)
        (hdir / "Cargo.toml").write_text(ct)
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True,
                                 check=True).stdout.strip()
        env = dict(os.environ)
        env.update({
            "RUSTC_WRAPPER": str(drv),
            "MIRFACTS_OUT": str(tmp),
            "LD_LIBRARY_PATH": sysroot + "/lib:" + env.get("LD_LIBRARY_PATH", ""),
            "RUSTFLAGS": "-Zmir-opt-level=0 -Zalways-encode-mir -Zub-checks=no -Cdebug-assertions=off -Coverflow-checks=on -Awarnings",
            "CARGO_INCREMENTAL": "0",
            "CARGO_TERM_COLOR": "never",
        })
        tgt = WORK / "target"
        # cargo's freshness check would skip the wrapper: forget the two crates of interest
        def forget():
            for pat in ("debug/.fingerprint/corries*", "debug/build/corries", "debug/build/corries_roots", "debug/build/corries[-_]*",
                        "debug/incremental/corries*"):
                for d in tgt.glob(pat):
                    shutil.rmtree(d, ignore_errors=True)
        cmd = ["cargo", "+nightly", "check", "--offline", "--target-dir", str(tgt)]
        if feature == "validation":
            cmd += ["--features", "validation"]
        missing = []
        for _ in range(12):
            forget()
            r = subprocess.run(cmd, cwd=hdir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                break
            # an entry point whose signature changed is left out of the analysis (reported as undecided)
            gone = strip_items(hdir / "src" / "lib.rs", r.stdout)
            if not gone:
                break
            missing += gone
        if r.returncode != 0 or not (tmp / "mono.json").exists() or not (tmp / "audit.json").exists():
            raise SystemExit("analysis build failed (rc=%s):\n%s" % (r.returncode, r.stdout[-6000:]))
        (tmp / "missing.json").write_text(json.dumps(missing))
        tmp.rename(out)
        return out


if __name__ == "__main__":
    for f in sys.argv[1:] or ["validation", "plain"]:
        print(build(f))
