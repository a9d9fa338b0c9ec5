#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from tools/seeds.py: applies the edit in a scratch copy of /repo, records the patch,
builds the demonstration (a driver, its stand-ins and a script with the answers of the unchanged tree), and confirms
that it passes without the change and fails with it.   mkseed.py [id...]; with VF_CHECK=1 also runs the property's check."""
import os, shutil, subprocess, sys, json, tempfile
ROOT = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path[:0] = [os.path.join(ROOT, "lib"), os.path.join(ROOT, "tools")]
from seeds import SEEDS  # noqa: E402
BASE = "/tmp/base"  # worktree of the original commit

DEMO = r'''#!/bin/bash
# Run in the repository's root. Builds a driver of the code together with the repository's sources, runs it on
# script.txt and compares its answers with the right ones (expected.txt). Everything is made in a scratch directory.
set -u
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
F="-std=gnu++20 -w -O0 @SAN@-include $D/prelude.hpp -I$D/craftpp -I$D -I$R/src -I$R"
# units that need the real craftpp library are left out, if the driver needs one linking fails
find "$R/src" -name '*.cpp' -not -path '*/node/*' | sort > "$T/list"
@MORE@
echo "$D/@DRIVER@" >> "$T/list"
export F T
xargs -P 8 -I{} bash -c 'o=$(echo "{}" | tr / _); g++ $F -c "{}" -o "$T/$o.o" 2> "$T/$o.err"; true' < "$T/list"
[ -f "$T/$(echo "$D/@DRIVER@" | tr / _).o" ] || { cat "$T"/*driver.cpp.err; echo "driver does not compile"; exit 3; }
g++ $F -c -x c++ /dev/null -o "$T/empty.o"
g++ @SAN@"$T"/*.o -lcrypto -lpthread -o "$T/demo" || exit 3
ASAN_OPTIONS=detect_leaks=0 timeout 60 "$T/demo" < "$D/script.txt" > "$T/out.txt" 2> "$T/err.txt"
rc=$?
if [ $rc -ne 0 ]; then head -20 "$T/err.txt"; echo "FAILED: exit code $rc"; exit 1; fi
if ! cmp -s "$T/out.txt" "$D/expected.txt"; then
  echo "FAILED: wrong answers (<: right, >: of the code)"; diff "$D/expected.txt" "$T/out.txt" | cut -c1-400; exit 1
fi
echo "right answers"
'''


def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def make(s):
    d = os.path.join(ROOT, "seeded", s["id"])
    tree = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        sh(f"cp -a /repo/. {tree}/")
        edits = s["edits"]
        for f, old, new in edits:
            p = os.path.join(tree, f)
            t = open(p).read()
            if t.count(old) != 1:
                return f"{f}: {t.count(old)} matches"
            open(p, "w").write(t.replace(old, new))
        patch = sh(f"git -C {tree} diff").stdout
        base = {f: open(os.path.join(BASE, f)).read().splitlines() for f, _, _ in edits}
        for f, _, _ in edits:
            for l in sh(f"git -C {tree} diff -U0 -- {f}").stdout.splitlines():
                if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in base[f]:
                    return f"changes a line that is not original: {l}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        drv = s["driver"] + "_driver.cpp"
        for f in (drv, "common.hpp", "prelude.hpp"):
            shutil.copy(os.path.join(ROOT, "harness", f), d)
        shutil.copytree(os.path.join(ROOT, "harness", "craftpp"), os.path.join(d, "craftpp"))
        san = "-fsanitize=address,undefined -fno-sanitize=alignment " if s.get("san") else ""
        if s["driver"] == "node":
            shutil.copytree(os.path.join(ROOT, "harness", "craftnapi", "craftnapi"), os.path.join(d, "craftnapi"))
        more = 'ls "$R"/node/node_stun/*.cpp "$R"/node/node_ice/*.cpp "$R"/node/openssl/*.cpp >> "$T/list"' if s["driver"] == "node" else 'ls "$R/node/openssl/node_openssl_error.cpp" "$R/node/node_stun/node_stun_error.cpp" >> "$T/list"' if s["driver"] == "values" else ""
        open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@SAN@", san).replace("@MORE@", more).replace("@DRIVER@", drv))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "script.txt"), "w").write("".join(l + "\n" for l in s["script"]))
        open(os.path.join(d, "expected.txt"), "w").write("")
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        # the right answers: those of the unchanged tree, looked at by hand when the seed is made
        keep = sh(f"sed 's#> \"$T/out.txt\" 2>#> {d}/expected.txt 2>#; s#cmp -s#true#' {d}/demo.sh > {d}/rec.sh; cd /repo && bash {d}/rec.sh; rc=$?; rm {d}/rec.sh; exit $rc")
        if keep.returncode:
            return "recording failed:\n" + keep.stdout
        a = sh(f"bash {d}/demo.sh", cwd="/repo")
        if a.returncode:
            return "demo fails on the unchanged tree\n" + a.stdout
        b = sh(f"bash {d}/demo.sh", cwd=tree)
        if b.returncode != 1:
            return f"demo exit {b.returncode} with the patch\n" + b.stdout
        print(f"== {s['id']} ({s['property']}): made\n" + b.stdout[:1500], flush=True)
        if os.environ.get("VF_CHECK"):
            return check(s, tree)
    finally:
        shutil.rmtree(tree, ignore_errors=True)


def check(s, tree):
    r = sh([sys.executable, os.path.join(ROOT, "bin", "check"), s["property"]], env={**os.environ, "VF_REPO": tree, "VF_SKIPMODEL": "1"}, cwd=ROOT)
    print(f"   check: rc={r.returncode} " + "\n".join(l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or "violat" in l.lower())[:600], flush=True)
    if r.returncode != 1:
        print(r.stdout[-1500:])


if __name__ == "__main__":
    want = sys.argv[1:]
    for s in SEEDS:
        if not want or s["id"] in want:
            e = make(s)
            if e:
                print(f"** {s['id']}: {e}", flush=True)
