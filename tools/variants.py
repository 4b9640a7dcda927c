"""Development tool: runs the checks against edited copies of /repo (refactorings and bugs).

usage: variants.py FILE.py [id-substring ...] [--props C01,C02] [-j N]
FILE.py defines V = [dict(id=, kind='refactor'|'bug', props=[...], edits=[(file, old, new), ...])]
A refactoring must leave every check quiet; a bug must be reported by every property in props.
"""
import os, shutil, subprocess, sys, runpy, concurrent.futures as cf, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "/tmp/variants"


def work(slot, v, props):
    repo = "%s/repo%d" % (BASE, slot)
    build = "%s/build%d" % (BASE, slot)
    if not os.path.exists(build):
        shutil.copytree(VERIF + "/build", build)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", repo + "/"], check=False) \
        if shutil.which("rsync") else (shutil.rmtree(repo, ignore_errors=True), shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("target", ".git")))
    if "patch" in v:
        r = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + repo, v["patch"]], cwd="/", capture_output=True, text=True)
        if r.returncode:
            return v, None, "PATCH FAILED " + r.stderr
    for f, old, new in v.get("edits", ()):
        p = os.path.join(repo, f)
        s = open(p).read()
        n = s.count(old)
        if n == 0 or (n > 1 and not v.get("multi")):
            return v, None, "EDIT FAILED (%d matches): %s" % (n, old[:80])
        s = s.replace(old, new)
        open(p, "w").write(s)
    env = dict(os.environ, SA_REPO=repo, SA_BUILD=build, SA_EVID="%s/evid%d" % (BASE, slot))
    r = subprocess.run([sys.executable, VERIF + "/sa/check.py"] + props, capture_output=True, text=True, env=env)
    return v, r.returncode, r.stdout + r.stderr[-3000:]


def main():
    args = sys.argv[1:]
    props = ["ALL"]
    j = 6
    pats = []
    vs = []
    verbose = False
    i = 0
    while i < len(args):
        a = args[i]
        if a == "--props":
            props = args[i + 1].split(",")
            i += 1
        elif a == "-j":
            j = int(args[i + 1])
            i += 1
        elif a == "-v":
            verbose = True
        elif a == "--seeded":
            import json
            d = VERIF + "/seeded"
            for n in sorted(os.listdir(d)):
                m = json.load(open("%s/%s/meta.json" % (d, n)))
                vs.append(dict(id="seeded/" + n, kind="bug", props=[m["property"]], patch="%s/%s/patch.diff" % (d, n)))
        elif a.endswith(".py"):
            vs += runpy.run_path(a)["V"]
        else:
            pats.append(a)
        i += 1
    if pats:
        vs = [v for v in vs if any(p in v["id"] for p in pats)]
    os.makedirs(BASE, exist_ok=True)
    import fcntl, queue
    lock = open(BASE + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)      # the working copies are shared
    slots = queue.Queue()
    for s in range(j):
        slots.put(s)

    def run(v):
        s = slots.get()
        try:
            return work(s, v, props)
        finally:
            slots.put(s)
    bad = 0
    with cf.ThreadPoolExecutor(j) as ex:
        for v, rc, out in ex.map(run, vs):
            hit = sorted(set(re.findall(r"VIOLATION property=(\S+)", out)))
            und = len(re.findall(r"^UNDECIDED", out, re.M))
            good = (rc == 0 and not hit) if v["kind"] == "refactor" else (rc == 1 and all(p in hit for p in v["props"])) if v["props"] else True
            if rc is None or rc not in (0, 1):
                good = False
            print("%-4s %-9s %-50s rc=%s hit=%s und=%d" % ("ok" if good else "BAD", v["kind"], v["id"], rc, ",".join(hit), und))
            if not good or verbose:
                bad += not good
                ls = [l for l in out.splitlines() if not re.match(r"^C\d\d:", l)]
                if rc is None or rc not in (0, 1):
                    ls = out.splitlines()[-12:]
                for l in ls[:14]:
                    print("       " + l[:420])
            sys.stdout.flush()
    print("%d variants, %d bad" % (len(vs), bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
