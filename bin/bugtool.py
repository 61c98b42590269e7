#!/usr/bin/env python3
"""Development tool: bugtool.py confirm ID...   confirm seeded/ID in a scratch worktree
                     bugtool.py try ID... [PROP...] run checks against seeded/ID in a scratch worktree
                     bugtool.py new ID PROP      make seeded/ID/patch.diff from the scratch worktree /tmp/bugwt
No check uses this."""
import json, os, re, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def worktree():
    d = tempfile.mkdtemp(prefix="bugwt-")
    os.rmdir(d)
    r = sh("git -C /repo worktree add -f --detach %s HEAD && cp /opt/vp/mod/go.mod /opt/vp/mod/go.sum %s/" % (d, d))
    assert r.returncode == 0, r.stdout
    return d


def drop(d):
    sh("git -C /repo worktree remove --force %s" % d)
    shutil.rmtree(d, ignore_errors=True)


def tests(d):
    env = open("/opt/vp/env.sh").read().replace("/repo", d)
    t = tempfile.mkdtemp()
    open(t + "/env.sh", "w").write(env)
    r = sh(". %s/env.sh; go build $PKGS || exit 9; go test -json -vet=off -count=1 -timeout 10m $PKGS > %s/go.json; python3 /opt/vp/results.py %s/o.json gojson:%s/go.json; for x in $LEFT_OUT_DIRS; do gofmt -e $x/*.go >/dev/null || exit 9; done" % (t, t, t, t), executable="/bin/bash")
    if r.returncode == 9 or not os.path.exists(t + "/o.json"):
        return "BUILD FAILED " + r.stdout[-1500:]
    o = json.load(open(t + "/o.json"))
    ok = set(o.get("passed") or [])
    shutil.rmtree(t)
    miss = sorted(set(B["stable"]) - ok)
    return "failing: %s" % miss if miss else ""


def demo(b, d):
    t = tempfile.mkdtemp()
    for f in os.listdir(b):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            (shutil.copytree if os.path.isdir(b + "/" + f) else shutil.copy)(b + "/" + f, t + "/" + f)
    try:
        r = subprocess.run(["bash", t + "/demo.sh"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        return r.returncode, r.stdout
    finally:
        shutil.rmtree(t)


def confirm(i):
    b = V + "/seeded/" + i
    d = worktree()
    try:
        rc, out = demo(b, d)
        if rc != 0:
            return "demo fails on the unchanged tree:\n" + out[-2000:]
        r = sh("git -C %s apply %s/patch.diff" % (d, b))
        if r.returncode:
            return "patch does not apply: " + r.stdout
        e = tests(d)
        if e:
            return e
        rc, out = demo(b, d)
        if rc == 0:
            return "demo passes with the patch"
        return "OK (demo: %s)" % " | ".join(l for l in out.splitlines() if "demo" in l or "panic" in l)[:300]
    finally:
        drop(d)


def tryit(i, props):
    b = V + "/seeded/" + i
    d = worktree()
    try:
        r = sh("git -C %s apply %s/patch.diff" % (d, b))
        assert r.returncode == 0, r.stdout
        res = []
        for p in props or [json.load(open(b + "/meta.json"))["property"]]:
            e = dict(os.environ, APPDASH_REPO=d, APPDASH_OUT="/tmp/bugout-%d" % os.getpid())
            r = sh("python3 %s/bin/check.py %s quick" % (V, p), env=e)
            res.append("%s rc=%d %s" % (p, r.returncode, " ".join(l[:300] for l in r.stdout.splitlines() if "no action" in l or "in the code" in l or "ERROR" in l)[:500]))
        return "\n   ".join(res)
    finally:
        drop(d)


if __name__ == "__main__":
    a = sys.argv
    if a[1] == "confirm":
        for i in a[2:] or sorted(os.listdir(V + "/seeded")):
            print(i, confirm(i), flush=True)
    elif a[1] == "try":
        props = [p for p in a[2:] if re.fullmatch(r"C\d\d", p)]
        for i in [i for i in a[2:] if i not in props] or sorted(os.listdir(V + "/seeded")):
            print(i, tryit(i, props), flush=True)
    elif a[1] == "new":
        b = V + "/seeded/" + a[2]
        os.makedirs(b, exist_ok=True)
        open(b + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", "/tmp/bugwt", "diff"], text=True))
        sh("git -C /tmp/bugwt checkout -- .")
        if not os.path.exists(b + "/demo.sh"):
            shutil.copy(V + "/bin/demo_template.sh", b + "/demo.sh")
