"""Write /verif/seeded/<id>/ from the list below; test in a scratch tree."""
import os, subprocess, json, sys, shutil
SC = "/tmp/seedtree"
OUT = "/verif/seeded"
S = []
def seed(id, prop, file, old, new, needs, breaks, demo, extra=None, cxx=None):
    S.append(dict(id=id, prop=prop, edits=[(file, old, new)] + (extra or []), needs=needs, breaks=breaks, demo=demo, cxx=cxx))
HEAD = '''#!/bin/bash
# Run in the source tree after it was built.
export LC_ALL=C.UTF-8
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
bad=0
raw() { timeout 60 _build/thpronun/thpronun "$@" 2>/dev/null; }
same() { # what, got, wanted
  if [ "$2" != "$3" ]; then
    echo "$1: got"; echo "$2"; echo "wanted"; echo "$3"; bad=1
  fi
}
'''
CXX = '''
g++ -std=c++14 -pthread -I. "$here/demo.cxx" -o "$tmp/demo" \\
  $(for l in parser output lattice dict sylstring thortho; do echo _build/$l/.libs/lib$l.a; done) \\
  -lthai -ldatrie || exit 0
timeout 100 "$tmp/demo" || bad=1
'''
exec(open("/root/mut/seedlist.py", encoding="utf-8").read())
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def main():
    want = sys.argv[1:]
    if not os.path.exists(SC + "/_build/Makefile"):
        shutil.rmtree(SC, True)
        sh("git clone -q /repo %s && cd %s && echo 0.2.0 > VERSION && ./autogen.sh && mkdir _build && cd _build && CFLAGS='-g -O2 -fno-strict-aliasing' CXXFLAGS='-g -O2 -fno-strict-aliasing' ../configure --enable-debug && make -j8" % (SC, SC))
    BUILD = "cd %s && rm -f _build/data/except.tsv _build/data/except.dic _build/parser/tests/except.dic _build/dict/tests/test.dic && make -C _build -j8" % SC
    sh("git -C %s checkout -q -- . && git -C %s fetch -q origin && git -C %s reset -q --hard origin/main" % (SC, SC, SC))
    r = sh(BUILD); assert r.returncode == 0, r.stdout.decode()[-2000:]
    todo = [s for s in S if not want or s["id"] in want]
    for s in todo:
        d = OUT + "/" + s["id"]; os.makedirs(d, exist_ok=True)
        if s["cxx"]: open(d + "/demo.cxx", "w").write(s["cxx"])
        body = HEAD + s["demo"].strip("\n") + "\n" + (CXX if s["cxx"] else "") + "exit $bad\n"
        open(d + "/demo.sh", "w").write(body); os.chmod(d + "/demo.sh", 0o755)
        r = sh("cd %s && bash %s/demo.sh" % (SC, d)); s["base"] = r.returncode; s["bout"] = r.stdout.decode()
    for s in todo:
        d = OUT + "/" + s["id"]
        for f, old, new in s["edits"]:
            p = SC + "/" + f; t = open(p, encoding="utf-8").read()
            n = t.count(old)
            if n != 1: print(s["id"], "PATTERN", n, f, old[:60]); break
            open(p, "w", encoding="utf-8").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", SC, "diff"], stdout=subprocess.PIPE).stdout
        open(d + "/patch.diff", "wb").write(diff)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        r = sh(BUILD)
        if r.returncode: print(s["id"], "BUILD FAILED", r.stdout.decode()[-800:]); res = None
        else:
            t = sh("cd %s/_build && find . -name '*.trs' -delete; timeout 600 make -k -j8 check; grep -L ':test-result: PASS' $(find . -name '*.trs'); true" % SC)
            fails = [l for l in t.stdout.decode().split("\n") if l.endswith(".trs")]
            r = sh("cd %s && bash %s/demo.sh" % (SC, d))
            print(s["id"], s["prop"], "demo base", s["base"], "patched", r.returncode, "failing tests:", fails, flush=True)
            if s["base"] != 0: print("   base says:", s["bout"][:600])
            if r.returncode == 0 or os.environ.get("V"): print("   patched says:", r.stdout.decode()[:600])
        sh("git -C %s checkout -q -- ." % SC)
main()
