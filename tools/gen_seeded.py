#!/usr/bin/env python3
"""Writes seeded/<id>/ from tools/seed/bugs*.py: gen_seeded.py [ID...]

With --try also runs, for each, in a scratch copy of /repo (/tmp/seedtry): apply,
build, tests, demo with and without the patch. With --check applies each to
/repo, runs the check of its property, and undoes it."""
import difflib, glob, json, os, runpy, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(HERE, "seed")
OUT = os.path.join(os.path.dirname(HERE), "seeded")
REPO = "/repo"
COPY = "/tmp/seedtry/repo"


def bugs():
    r = []
    for f in sorted(glob.glob(os.path.join(SEED, "bugs*.py"))):
        r += runpy.run_path(f)["BUGS"]
    ids = [b["id"] for b in r]
    assert len(ids) == len(set(ids)), [i for i in ids if ids.count(i) > 1]
    return r


def base_text(path):
    return subprocess.check_output(["git", "-C", REPO, "show", "HEAD:" + path], text=True)


def fixed_lines(path, cache={}):
    """Line numbers that my own commits added or changed."""
    if path not in cache:
        base = subprocess.check_output(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
        out = subprocess.check_output(["git", "-C", REPO, "blame", "-s", "-l", "HEAD", "--", path], text=True)
        cache[path] = {i for i, l in enumerate(out.splitlines(), 1) if base[:30] not in l.split()[0]}
    return cache[path]


def write(b):
    d = os.path.join(OUT, b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    diff, original = "", False
    files = {}
    for path, old, new in b["edits"]:
        cur = files.setdefault(path, [base_text(path)] * 2)
        assert cur[1].count(old) == 1, (b["id"], path, old, cur[1].count(old))
        files[path] = [cur[0], cur[1].replace(old, new)]
    for path, (a, c) in files.items():
        al, cl = a.splitlines(True), c.splitlines(True)
        mine = fixed_lines(path)
        for tag, i1, i2, _, _ in difflib.SequenceMatcher(None, al, cl, autojunk=False).get_opcodes():
            if tag in ("replace", "delete"):
                hit = [i for i in range(i1 + 1, i2 + 1) if i in mine]
                if hit:
                    print("note: %s changes lines %s of %s that a fix added" % (b["id"], hit, path))
                if len(hit) < i2 - i1:
                    original = True
        diff += "diff --git a/%s b/%s\n" % (path, path)
        diff += "".join(difflib.unified_diff(al, cl, "a/" + path, "b/" + path))
    if not original:
        print("note: %s changes no original line" % b["id"])
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    feats = b.get("features")
    sh = open(os.path.join(SEED, "demo.sh")).read().replace("@FEATURES@", ', features = ["%s"]' % feats if feats else "")
    if "tracing::" in b.get("items", ""):
        sh = sh.replace("\nT\n", '\ntracing = { version = "0.1.40", default-features = false, features = ["std"] }\nT\n', 1)
    if b.get("plain"):
        # without debug assertions and overflow checks
        sh = sh.replace("export CARGO_TARGET_DIR", "export CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=false CARGO_PROFILE_DEV_OVERFLOW_CHECKS=false\nexport CARGO_TARGET_DIR")
    open(os.path.join(d, "demo.sh"), "w").write(sh)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for f in ("common.rs", "eda.pem", "rsa1024.pem", "rsa1024pub.pem"):
        shutil.copy(os.path.join(SEED, f), d)
    open(os.path.join(d, "main.rs"), "w").write(
        "mod common;\n#[allow(unused_imports)]\nuse common::*;\n\n" + b.get("items", "") + "fn main() {\n" + b["demo"].strip("\n") + "\n}\n")
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def demo(b, cwd):
    env = dict(os.environ, DEMO_TARGET="/tmp/seedtry/target" + ("-f" if b.get("features") else "") + ("-p" if b.get("plain") else ""))
    return sh(["bash", os.path.join(OUT, b["id"], "demo.sh")], cwd, env=env)


def attempt(b):
    d = os.path.join(OUT, b["id"])
    if not os.path.isdir(COPY):
        os.makedirs("/tmp/seedtry", exist_ok=True)
        shutil.copytree(REPO, COPY, symlinks=True)
    sh(["git", "checkout", "-q", "--", "."], COPY)
    sh(["git", "pull", "-q"], COPY)
    r = demo(b, COPY)
    if r.returncode != 0:
        return "DEMO FAILS ON CLEAN (%d)\n%s" % (r.returncode, "\n".join(l for i, l in enumerate(r.stdout.splitlines()) if any(x.startswith("error") or "panicked" in x for x in r.stdout.splitlines()[max(0, i - 7):i + 1]))[:2500])
    r = sh(["git", "apply", os.path.join(d, "patch.diff")], COPY)
    if r.returncode != 0:
        return "DOES NOT APPLY\n" + r.stdout
    fails = []
    env = dict(os.environ, CARGO_TARGET_DIR=COPY + "/target")
    for f in ([], ["--features", "pre-rfc8301"]):
        r = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline"] + f, COPY, env=env)
        if r.returncode != 0:
            fails += [l for l in r.stdout.splitlines() if "FAILED" in l or l.startswith("error")][:5]
    r = demo(b, COPY)
    sh(["git", "checkout", "-q", "--", "."], COPY)
    if fails:
        return "TESTS FAIL " + "; ".join(fails)
    if r.returncode == 0:
        return "DEMO PASSES WITH PATCH"
    if r.returncode != 101:
        return "demo ends with %d\n%s" % (r.returncode, r.stdout[-1500:])
    return "ok: " + " / ".join(l for l in r.stdout.splitlines() if "panicked" in l or "left:" in l or "right:" in l)[:300]


def check(b, props):
    d = os.path.join(OUT, b["id"])
    res = []
    assert sh(["git", "status", "--porcelain"], REPO).stdout == "", "repo not clean"
    r = sh(["git", "apply", os.path.join(d, "patch.diff")], REPO)
    assert r.returncode == 0, r.stdout
    try:
        for p in props:
            env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
            r = sh([os.path.join(os.path.dirname(HERE), "check"), p, "quick"], "/verif", env=env)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res.append("%s:%s %s" % (p, r.returncode, v[0][:150] if v else ("" if r.returncode == 0 else r.stdout[-300:])))
    finally:
        sh(["git", "checkout", "-q", "--", "."], REPO)
    return "; ".join(res)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    sel = [b for b in bugs() if not args or b["id"] in args]
    for b in sel:
        if "--nowrite" not in sys.argv:
            write(b)
        if "--try" in sys.argv:
            print("%-28s %s" % (b["id"], attempt(b)), flush=True)
        if "--check" in sys.argv:
            print("%-28s %s" % (b["id"], check(b, [b["property"]])), flush=True)
