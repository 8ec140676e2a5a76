"""mkseed.py [ID..]: (re)creates /verif/seeded/<ID>/ from the definitions in tools/seeds/*.py and verifies each in a
scratch copy of /repo: applies, touches original lines, builds, passes the stable tests, demo passes without and fails
with the change, and says which checks catch it."""
import glob, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.abspath(__file__))
ORIG = "ebd72af"
BUGS = []


def bug(id, prop, edits, demo, needs, what):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, what=what))


for f in sorted(glob.glob(HERE + "/seeds/*.py")):
    exec(compile(open(f).read(), f, "exec"))

PRELUDE = open(HERE + "/seeds/prelude.rs").read()
DEMO_SH = open(HERE + "/seeds/demo.sh").read()


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, executable="/bin/bash", **k)


def edit(text, anchor, old, new):
    at = 0
    for a in [anchor] if isinstance(anchor, str) else anchor: at = text.index(a, at)
    i = text.index(old, at)
    return text[:i] + new + text[i + len(old):]


def one(b, work, check):
    src = work + "/repo"
    sh("git -C %s checkout -q -- ." % src)
    changed = {}
    for f, anchor, old, new in b["edits"]:
        p = src + "/src/parser/" + f
        t = open(p).read()
        open(p, "w").write(edit(t, anchor, old, new))
    diff = sh("git -C %s diff" % src).stdout
    out = os.path.join(V, "seeded", b["id"])
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.rs", "w").write(PRELUDE + "\n" + b["demo"].strip() + "\n")
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["what"]), open(out + "/meta.json", "w"), indent=1)
    msgs = []
    # original lines
    orig = 0
    cur = None
    for ln in diff.splitlines():
        m = re.match(r"--- a/(.*)", ln)
        if m: cur = m[1]
        m = re.match(r"@@ -(\d+)", ln)
        if m: n = int(m[1]); continue
        if ln.startswith("-") and not ln.startswith("---"):
            bl = sh("git -C %s blame -s -L%d,%d HEAD -- %s" % (src, n, n, cur)).stdout
            if bl.lstrip("^").startswith(ORIG[:7]): orig += 1
            else: msgs.append("removes a line of a later commit")
            n += 1
        elif ln.startswith("+") or ln.startswith("\\"): pass
        elif ln.startswith(" "): n += 1
    if not orig: msgs.append("NO ORIGINAL LINE")
    env = ". /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target RUSTFLAGS=-Awarnings; cd %s && ulimit -v 4000000; " % (work, src)
    r = sh(env + "timeout 200 cargo test --offline 2>&1")
    t = [l for l in r.stdout.splitlines() if l.startswith("test result")]
    if not t: msgs.append("DOES NOT BUILD OR HANGS: " + r.stdout[-600:])
    elif "FAILED" in t[0]: msgs.append("TESTS FAIL: " + ", ".join(re.findall(r"test (\S+) \.\.\. FAILED", r.stdout)))
    d1 = sh("cd %s && timeout 300 bash %s/demo.sh" % (src, out))
    sh("git -C %s checkout -q -- ." % src)
    d0 = sh("cd %s && timeout 300 bash %s/demo.sh" % (src, out))
    if d0.returncode != 0: msgs.append("DEMO FAILS UNPATCHED: " + d0.stdout[-900:])
    if d1.returncode == 0: msgs.append("DEMO PASSES PATCHED")
    elif "error" in d1.stdout and "could not compile" in d1.stdout: msgs.append("DEMO DOES NOT BUILD: " + d1.stdout[-900:])
    if check and not any(m.isupper() for m in msgs):
        sh("git -C %s apply %s/patch.diff" % (src, out))
        r = sh("cd %s && VERIF_REPO=%s VERIF_OUT=%s timeout 900 python3 check.py %s" % (V, src, work, b["prop"]))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        msgs.append("caught" if r.returncode == 1 and v else "MISSED (rc %d) %s" % (r.returncode, r.stdout[-300:]))
        sh("git -C %s checkout -q -- ." % src)
    print(b["id"], b["prop"], "|", "; ".join(msgs), flush=True)


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    todo = [b for b in BUGS if not ids or any(b["id"].startswith(i) for i in ids)]
    from concurrent.futures import ThreadPoolExecutor
    import queue
    W = int(os.environ.get("N", "4"))
    q = queue.Queue()
    for i in range(W):
        w = tempfile.mkdtemp(prefix="mkseed")
        sh("git clone -q /repo %s/repo" % w)
        q.put(w)

    def job(b):
        w = q.get()
        try: one(b, w, "-n" not in sys.argv)
        except Exception as e: print(b["id"], "EXC", repr(e), flush=True)
        finally: q.put(w)
    try:
        with ThreadPoolExecutor(W) as ex: list(ex.map(job, todo))
    finally:
        while not q.empty(): shutil.rmtree(q.get())
