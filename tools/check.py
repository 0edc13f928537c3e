#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Builds the harness against /repo's working tree (two build profiles, for some checks also one of the
crate's features), runs the check on each and
writes evidence/PROPERTY.json. Exit 0: held on everything explored; 1: VIOLATION; 2: no verdict."""
import json, os, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VH_BUILD", os.path.join(ROOT, ".build"))
PROFILES = ["release", "plain"]
# checks of what a build leaves behind also run on the crate's own sequential build
SINGLE = ["B01", "B02", "B03", "B05", "I05"]
# checks of arithmetic also run with the crate's feature "blas", on stand-ins for the library's routines
BLAS = ["E01", "E03", "E05"]
OPTIONAL = ["single", "blas"]
# checks of concurrency are compiled so that atomics are scheduling points
ATOMICS = ["B04", "W02", "W03"]


def profiles_of(prop):
    return PROFILES + (["single"] if prop in SINGLE else []) + (["blas"] if prop in BLAS else [])


def place(profile, prop):
    """Target directory, cargo profile and extra features of a build."""
    if prop in ATOMICS:
        return os.path.join(BUILD, "atomics"), profile, ""
    if profile == "single":
        return os.path.join(BUILD, "single"), "release", ",single"
    if profile == "blas":
        return os.path.join(BUILD, "blas"), "release", ",blas"
    return BUILD, profile, ""


def cargo_env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e.pop("RUSTC_WRAPPER", None)
    e.pop("RUSTFLAGS", None)
    e["VERIF_ROOT"] = ROOT
    return e


def start_build(profile, prop):
    env = cargo_env()
    target, cargo_profile, features = place(profile, prop)
    env["CARGO_TARGET_DIR"] = target
    if prop in ATOMICS:
        env["RUSTC_WRAPPER"] = os.path.join(ROOT, "tools", "rustc-atomics")
    if profile == "blas":
        os.makedirs(target, exist_ok=True)
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", os.path.join(target, "libblas.so"), os.path.join(ROOT, "tools", "blas.c"), "-lm"], check=True)
        env["RUSTFLAGS"] = "-L native=%s -C link-arg=-Wl,-rpath,%s" % (target, target)
    out = open(os.path.join(BUILD, "build-%s-%s.log" % (prop, profile)), "w+")
    return subprocess.Popen(["cargo", "build", "--profile", cargo_profile, "--offline", "--locked", "-q", "-p", "vh",
                             "--no-default-features", "--features", prop + features],
                            cwd=os.path.join(ROOT, "harness"), env=env, stdout=out, stderr=subprocess.STDOUT), out


def build(prop, profiles):
    """Builds the harness for one check in several profiles at once. None if that fails. The builds with features
    of the crate are left out if they do not compile: nothing says that they must."""
    os.makedirs(BUILD, exist_ok=True)
    binaries = {}
    for profile, (proc, out) in [(p, start_build(p, prop)) for p in profiles]:
        proc.wait()
        if proc.returncode == 0:
            binaries[profile] = os.path.join(place(profile, prop)[0], place(profile, prop)[1], "vh")
        else:
            out.seek(0)
            errs = [l for l in out.read().splitlines() if "warning" not in l]
            print("\n".join(errs[-60:]))
            print("%s the harness does not build against /repo (%s)" % ("NOTE" if profile in OPTIONAL else "ERROR", profile))
        out.close()
        os.remove(out.name)
    return binaries if all(p in binaries for p in profiles if p not in OPTIONAL) else None


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    evfile = os.path.join(ROOT, "evidence", prop + ".json")
    if os.path.exists(evfile):
        os.remove(evfile)
    merged, worst = None, 0
    binaries = build(prop, profiles_of(prop))
    if binaries is None:
        sys.exit(2)
    for profile in binaries:
        vh = binaries[profile]
        env = cargo_env()
        env["VH_PROFILE"] = profile
        part = os.path.join(BUILD, "evidence-%s-%s.json" % (prop, profile))
        if os.path.exists(part):
            os.remove(part)
        r = subprocess.run([vh, "run", prop, tier, part, os.path.join(ROOT, "replays")], env=env)
        if os.path.exists(part):
            ev = json.load(open(part))
            if merged is None:
                merged = ev
                merged["coverage"]["profiles"] = {}
            c = ev["coverage"]
            keep = {k: c[k] for k in ("evaluations", "distinct_nontrivial", "states", "transitions", "traces_validated_against_impl", "exhaustive") if k in c}
            keep["wall_s"] = ev["wall_s"]
            merged["coverage"]["profiles"][profile] = keep
            if ev is not merged:
                merged["coverage"]["exhaustive"] = merged["coverage"].get("exhaustive", True) and c.get("exhaustive", True)
                merged["violations"] = merged.get("violations", 0) + ev.get("violations", 0)
        if r.returncode == 1:
            worst = 1
            break
        if r.returncode != 0:
            print("ERROR the check ended with status %d (%s)" % (r.returncode, profile))
            worst = 2
            break
    if merged is not None:
        merged["coverage"].pop("build_profile", None)
        merged["wall_s"] = round(time.time() - t0, 3)
        with open(evfile, "w") as f:
            json.dump(merged, f, indent=1)
            f.write("\n")
    sys.exit(worst)


if __name__ == "__main__":
    main()
