#!/usr/bin/env python3
# mkseed.py SPEC.py : SPEC defines ID, PROP, EDITS=[(file, old, new)], MODULE, PKG, TEST (Go source), NEEDS, BREAKS, [RACE], [ARGS]
# Writes /verif/seeded/<ID>/ (patch.diff made in a scratch copy of /repo) and checks build + demo in the scratch copy.
import sys, os, subprocess, json, shutil
S = {}
exec(open(sys.argv[1]).read(), S)
sid = S["ID"]
out = "/verif/seeded/" + sid
W = "/tmp/seedwork"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
if not os.path.isdir(W): sh(f"cp -a /repo {W}")
sh(f"cd {W} && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
for f, o, n in S["EDITS"]:
    p = W + "/" + f
    s = open(p).read()
    if o not in s: sys.exit("pattern not found in " + f + ":\n" + o)
    open(p, "w").write(s.replace(o, n, 1))
shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
open(out + "/patch.diff", "w").write(sh(f"cd {W} && git diff").stdout)
tests = S["TEST"] if isinstance(S["TEST"], dict) else {"verif_seed_test.go": S["TEST"]}
reps = ""
for name, src in tests.items():
    open(f"{out}/{name}.txt", "w").write(src.lstrip("\n"))
names = " ".join(tests)
race = "-race " if S.get("RACE") else ""
demo = f'''#!/bin/bash
# Fails (non-zero) when the planted change is present, passes on the unchanged tree. Run with cwd = the repository root.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
{{ echo '{{"Replace": {{'; sep=""
  for f in {names}; do echo "$sep\\"$R/{S["MODULE"]}/{S["PKG"]}/$f\\": \\"$D/$f.txt\\""; sep=","; done
  echo '}}}}'; }} > "$T/overlay.json"
cd "$R/{S["MODULE"]}" && TMPDIR="$T" timeout 280 go test {race}-vet=off -count=1 -overlay "$T/overlay.json" -run '^TestVerifSeed' ./{S["PKG"]}
'''
open(out + "/demo.sh", "w").write(demo); os.chmod(out + "/demo.sh", 0o755)
json.dump({"property": S["PROP"], "needs": S["NEEDS"], "what_it_breaks": S["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
b = sh(f". /opt/vp/env.sh; cd {W}; for m in common client gateway-admin provider-admin gateway provider register; do (cd $m && go build ./...) || exit 1; done", executable="/bin/bash")
print("build", b.returncode, b.stderr[-600:])
r = sh(f"cd {W} && bash {out}/demo.sh"); print("demo with change:", r.returncode, (r.stdout + r.stderr)[-700:])
c = sh(f"bash /verif/run.sh {S['PROP']} 2>/dev/null; /verif/bin/fcrcheck -repo {W} -root /tmp/mutroot -prop {S['PROP']} | cut -c1-300 | tail -4"); print(c.stdout)
sh(f"cd {W} && git checkout -q -- .")
r = sh(f"cd {W} && bash {out}/demo.sh"); print("demo unchanged:", r.returncode, "" if r.returncode == 0 else (r.stdout + r.stderr)[-900:])
