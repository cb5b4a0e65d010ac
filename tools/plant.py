#!/usr/bin/env python3
"""Plants bugs: makes seeded/<id>/ from a specification, and tries it out in a
scratch copy (/tmp/seed/repo, /tmp/seed/verif).  Not needed by any check.

plant.py SPEC.py [ID...]   SPEC.py defines BUGS, a list of dicts:
  id, property, file, edits [(old, new)...], needs, breaks,
  and one of  file_text, repl_text, crate (main.rs), node (sources)
"""
import json, os, re, shutil, subprocess, sys
R, V, OUT = "/tmp/seed/repo", "/tmp/seed/verif", os.environ.get("PLANT_OUT", "/verif/seeded")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="1.99.1-x86_64-unknown-linux-gnu", VERIF_SEED="1")

HEAD = '''#!/bin/bash
# Run in the repository's directory: exit 0 if it behaves, 1 if not.
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
'''
CLI = HEAD + '''cargo build --quiet --offline --bin whitespace --target-dir "$t/target" 2>/dev/null || exit 3
( ulimit -c 0; timeout -k 1 60 "$t/target/debug/whitespace" %s ) >"$t/out" 2>"$t/err" %s
echo "exit status $?" >>"$t/out"
cat "$t/out" "$t/err" >"$t/all"
if cmp -s "$t/all" "$here/expected.txt"; then exit 0; fi
diff "$here/expected.txt" "$t/all" | head -20
exit 1
'''
CRATE = HEAD + '''mkdir -p "$t/demo/src"
cp "$here/demo.rs" "$t/demo/src/main.rs"
cp Cargo.lock "$t/demo/Cargo.lock"
cat >"$t/demo/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
whitespace = { path = "$PWD" }
X
cargo build --quiet --offline --manifest-path "$t/demo/Cargo.toml" --target-dir "$t/target" 2>/dev/null || exit 3
timeout -k 1 120 "$t/target/debug/demo" || exit 1
'''
NODE = HEAD + '''cargo build --quiet --offline --lib --target wasm32-unknown-unknown --target-dir "$t/target" 2>/dev/null || exit 3
timeout -k 1 120 node "$here/server.mjs" "$t/target/wasm32-unknown-unknown/debug/whitespace.wasm" <"$here/in.txt" >"$t/all" 2>/dev/null
if cmp -s "$t/all" "$here/expected.txt"; then exit 0; fi
diff "$here/expected.txt" "$t/all" | head -20
exit 1
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, env=ENV, **k)

def clean():
    sh("git checkout -q -- .", cwd=R)

def run_demo(d):
    return sh(f"bash {d}/demo.sh", cwd=R)

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    for b in ns["BUGS"]:
        if want and b["id"] not in want: continue
        d = f"{OUT}/{b['id']}"
        say = lambda *x: print(b["id"], *x, flush=True)
        clean()
        os.makedirs(d, exist_ok=True)
        if "file_text" in b:
            open(f"{d}/in.ws", "w", newline="").write(b["file_text"])
            script = CLI % ('"$here/in.ws"', "</dev/null")
        elif "repl_text" in b:
            open(f"{d}/in.txt", "w", newline="").write(b["repl_text"])
            script = CLI % ("", '<"$here/in.txt"')
        elif "crate" in b:
            open(f"{d}/demo.rs", "w").write(b["crate"]); script = CRATE
        else:
            open(f"{d}/in.txt", "w").write("".join(json.dumps(s) + "\n" for s in b["node"]))
            shutil.copy("/verif/js/server.mjs", f"{d}/server.mjs"); script = NODE
        open(f"{d}/demo.sh", "w").write(script)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(f"{d}/meta.json", "w"), indent=1, ensure_ascii=False)
        if "crate" not in b:
            # What the unchanged tree gives is what is expected.
            s2 = script.replace('if cmp -s', f'cp "$t/all" "{d}/expected.txt"; if cmp -s')
            open(f"{d}/.rec.sh", "w").write(s2)
            sh(f"bash {d}/.rec.sh", cwd=R); os.remove(f"{d}/.rec.sh")
        r0 = run_demo(d)
        ok = True
        for f, old, new in b["edits"]:
            p = f"{R}/{f}"; s = open(p).read()
            if s.count(old) != 1:
                say("EDIT does not match once:", s.count(old), repr(old[:60])); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok: clean(); shutil.rmtree(d); continue
        open(f"{d}/patch.diff", "w").write(sh("git diff", cwd=R).stdout)
        t = sh("cargo test --workspace --no-fail-fast --offline 2>&1", cwd=R)
        bad = re.findall(r"^test (\S+) \.\.\. FAILED", t.stdout, re.M)
        good = len(re.findall(r"^test (\S+) \.\.\. ok", t.stdout, re.M))
        if bad or good < 43:
            say("TESTS", good, bad[:5], "" if good else t.stdout[-1500:]); clean(); shutil.rmtree(d); continue
        r1 = run_demo(d)
        if r0.returncode != 0 or r1.returncode == 0:
            say("DEMO clean", r0.returncode, "patched", r1.returncode, r0.stdout[:300]); clean(); shutil.rmtree(d); continue
        res = []
        for p in [b["property"]] + b.get("also", []):
            c = sh(f"./check.sh {p} quick", cwd=V)
            v = "VIOLATION" in c.stdout and c.returncode == 1
            res.append(f"{p}:{'caught' if v else 'MISSED(%d)' % c.returncode}")
            if not v and c.returncode: res.append((c.stdout + c.stderr)[-500:])
        say("ok", *res)
        clean()
main()
