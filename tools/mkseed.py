#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from the descriptions in tools/seeds.py and confirms each one.

A seed is kept only if, in a scratch copy of /repo, the patch applies, the crate builds, the stable
tests pass and the demonstration fails with it and passes without it.

usage: mkseed.py [ID...]
"""
import difflib, json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS

KIT = os.path.join(HERE, "seedkit")
OUT = "/verif/seeded"
STABLE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main(ids):
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", TZ="UTC",
               PATH="/root/.cargo/bin:" + os.environ["PATH"])
    tmp = tempfile.mkdtemp(prefix="mkseed.", dir="/tmp")
    repo = os.path.join(tmp, "repo")
    shutil.copytree("/repo", repo, symlinks=True)
    sh(["git", "checkout", "-q", "--", "."], repo)
    try:
        for s in SEEDS:
            if ids and s["id"] not in ids:
                continue
            diff = ""
            for name, old, new in s["edits"]:
                path = os.path.join(repo, name)
                before = open(os.path.join("/repo", name)).read()
                before = sh(["git", "show", "HEAD:" + name], "/repo").stdout
                cur = open(path).read()
                if cur.count(old) != 1:
                    print("%-22s BAD EDIT: %d matches of %r" % (s["id"], cur.count(old), old[:60]))
                    break
                open(path, "w").write(cur.replace(old, new))
            else:
                d = sh(["git", "diff"], repo).stdout
                dst = os.path.join(OUT, s["id"])
                os.makedirs(dst, exist_ok=True)
                open(dst + "/patch.diff", "w").write(d)
                open(dst + "/main.rs", "w").write(
                    "mod common;\n#[allow(unused_imports)]\nuse common::*;\n" + s["demo"].lstrip("\n"))
                shutil.copy(KIT + "/common.rs", dst)
                shutil.copy(KIT + "/demo.sh", dst)
                os.chmod(dst + "/demo.sh", 0o755)
                json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                          open(dst + "/meta.json", "w"), indent=1)
                t = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--",
                        "--test-threads", "1"], repo, env=env)
                failed = [l for l in t.stdout.splitlines() if l.startswith("test ") and "FAILED" in l
                          and "macros::matches" not in l and not l.startswith("test result")]
                passed = t.stdout.count("... ok")
                fine = not failed and passed >= len(STABLE)
                tests = "tests %s" % ("pass" if fine else "FAIL (%d)" % passed)
                bad = sh(["bash", dst + "/demo.sh"], repo, env=env)
                sh(["git", "checkout", "-q", "--", "."], repo)
                good = sh(["bash", dst + "/demo.sh"], repo, env=env)
                ok = fine and bad.returncode not in (0, 3) and good.returncode == 0
                print("%-22s %s demo with %d without %d  %s" % (s["id"], tests, bad.returncode,
                      good.returncode, "ok" if ok else "REJECTED"), flush=True)
                if not ok:
                    if not fine:
                        print("\n".join(failed + [l for l in t.stdout.splitlines()
                                                  if l.startswith("error")])[:1500])
                    print(bad.stdout[-800:]); print(good.stdout[-800:])
                    shutil.rmtree(dst)
            sh(["git", "checkout", "-q", "--", "."], repo)
    finally:
        shutil.rmtree(tmp)


main(sys.argv[1:])
