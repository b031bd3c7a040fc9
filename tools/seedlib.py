"""Helpers to write the planted bugs below /verif/seeded and to confirm them in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
DEMO_HEAD = """#!/bin/bash
# Run in the repository after its build. Exit 0: the property held in this demonstration.
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'cd /; rm -rf "$tmp"' EXIT
go build -o "$tmp/gowrap" ./cmd/gowrap || exit 3
"""
TPL_DEMO = DEMO_HEAD + """mkdir -p "$tmp/m" || exit 3
cp "$here"/demo.go "$tmp/m/main.go" || exit 3
@MOD@
cd "$tmp/m" || exit 3
"$tmp/gowrap" gen -g -p demo -i Svc -t "$repo/templates/@T@" -o dec.go @VARS@ || exit 3
timeout 120 go run @RACE@ . || exit 1
"""
def sh(cmd, cwd, timeout=600):
    p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")
def scratch():
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    c = os.path.join(d, "gowrap")
    shutil.copytree(REPO, c, symlinks=True)
    return d, c
def write(id, prop, edits, needs, breaks, files):
    """edits: [(file, old, new)] against /repo's HEAD; files: {name: content} of the demonstration."""
    d, c = scratch()
    try:
        for f, old, new in edits:
            p = os.path.join(c, f)
            s = open(p).read()
            if s.count(old) < 1:
                raise SystemExit("%s: text not found in %s: %r" % (id, f, old))
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        rc, out = sh("git diff --no-color", c)
        dst = os.path.join(ROOT, "seeded", id)
        os.makedirs(dst, exist_ok=True)
        open(os.path.join(dst, "patch.diff"), "w").write(out)
        for n, t in files.items():
            open(os.path.join(dst, n), "w").write(t)
            if n.endswith(".sh"):
                os.chmod(os.path.join(dst, n), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(d)
BASE = None
def confirm(id):
    """Confirms a planted bug: builds, passes the tests, demonstration passes without and fails with it."""
    src = os.path.join(ROOT, "seeded", id)
    d, c = scratch()
    try:
        demo = os.path.join(d, "elsewhere"); os.makedirs(demo)
        for f in os.listdir(src):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy2(os.path.join(src, f), demo)
        rc, out = sh("bash %s/demo.sh" % demo, c, 300)
        if rc != 0: return "demo fails on the unchanged tree (%d):\n%s" % (rc, out[-1500:])
        rc, out = sh("git apply %s/patch.diff" % src, c)
        if rc != 0: return "patch does not apply: " + out
        rc, out = sh("go build ./... && go vet ./generator ./loader ./pkg ./printer . ./cmd/... >/dev/null 2>&1; go build ./...", c)
        if rc != 0: return "does not build: " + out[-1500:]
        rc, out = sh("go test -json -vet=off -count=1 ./... | grep '\"Action\":\"fail\"' | grep '\"Test\"'", c)
        base = json.load(open("/opt/vp/BASELINE.json"))
        names = json.dumps(base)
        bad = []
        for l in out.splitlines():
            try: t = json.loads(l)["Test"]
            except Exception: continue
            if '/'.join([t]) in names and 'gitRootPath' not in t and 'absGitPath' not in t: bad.append(t)
        if bad: return "tests fail: %s" % bad
        rc, out = sh("bash %s/demo.sh" % demo, c, 300)
        if rc == 0: return "demo passes with the patch"
        return "ok (demo: %d: %s)" % (rc, out.strip().splitlines()[-1][:150] if out.strip() else "")
    finally:
        shutil.rmtree(d)
if __name__ == "__main__":
    for id in sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        print(id, confirm(id), flush=True)
