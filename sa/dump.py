"""Builds the rustc driver (mirdump) and runs it over /repo's current working tree.

Everything here only type-checks /repo (`cargo check`): no code of walky is ever run.
"""
import fcntl, glob, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.environ.get("SA_BUILD", os.path.join(VERIF, "build"))

CONFIGS = {
    "default": dict(cwd="", args=[], crate="walky", expect=["walky.lib.json", "walky.bin.json"]),
    "mpi": dict(cwd="", args=["--features", "mpi"], crate="walky", expect=["walky.lib.json", "walky.bin.json"]),
    "gen": dict(cwd="utils/gen_matrix_fast", args=[], crate="gen_matrix_fast", expect=["gen_matrix_fast.bin.json"]),
}


class DumpError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()


def build_driver():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "mirdump", "main.rs")
    out = os.path.join(BUILD, "mirdump")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    tmp = out + ".tmp%d" % os.getpid()
    r = sh(["rustc", "+nightly", "--edition", "2021", "-O", "-Awarnings", src, "-o", tmp])
    if r.returncode != 0:
        raise DumpError("mirdump does not build:\n" + r.stdout)
    os.replace(tmp, out)
    return out


def dump(config):
    """returns the list of parsed JSON files of the current tree"""
    c = CONFIGS[config]
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = build_driver()
        out = os.path.join(BUILD, "out_" + config)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        tgt = os.path.join(BUILD, "t_" + config)
        for fp in glob.glob(os.path.join(tgt, "*", ".fingerprint", c["crate"] + "-*")):
            shutil.rmtree(fp, ignore_errors=True)
        shutil.rmtree(os.path.join(tgt, "release", "build", c["crate"]), ignore_errors=True)
        shutil.rmtree(os.path.join(tgt, "release", "incremental"), ignore_errors=True)
        env = dict(os.environ)
        env.update(RUSTUP_TOOLCHAIN="nightly", MIRDUMP_OUT=out, RUSTC_WORKSPACE_WRAPPER=drv,
                   LD_LIBRARY_PATH=sysroot() + "/lib", RUSTFLAGS="-Ctarget-cpu=x86-64",
                   CARGO_NET_OFFLINE="true")
        for k in ("CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
            env.pop(k, None)
        cmd = ["cargo", "check", "--release", "--offline", "--locked", "--target-dir", tgt] + c["args"]
        r = sh(cmd, cwd=os.path.join(REPO, c["cwd"]), env=env)
        if r.returncode != 0:
            raise DumpError("cargo check (%s) failed:\n%s" % (config, r.stdout[-4000:]))
        res = []
        for e in c["expect"]:
            p = os.path.join(out, e)
            if not os.path.exists(p):
                raise DumpError("no MIR dump %s was produced" % e)
            with open(p) as f:
                res.append(json.load(f))
        return res


if __name__ == "__main__":
    for c in sys.argv[1:] or ["default", "mpi", "gen"]:
        t = time.time()
        try:
            r = dump(c)
            print(c, [len(x["bodies"]) for x in r], "%.1fs" % (time.time() - t))
        except DumpError as e:
            print(c, "FAILED", e)
