#!/usr/bin/env python3
"""Dev helper: plants a bug in a scratch copy of /repo, confirms it and keeps it under seeded/.
usage: seed.py ID PROPERTY FILE(relative to layout/src) NEEDS BREAKS, with edits in /tmp/seed/ID.edit
(blocks '<<<<' old '====' new '>>>>') and the demonstration in /tmp/seed/ID.rs or ID.sh"""
import json, os, re, subprocess, sys, shutil
pid, prop, needs, breaks = sys.argv[1:5]
R = '/tmp/seed/repo'
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
sh(f'git -C {R} fetch -q /repo HEAD; git -C {R} checkout -q -f FETCH_HEAD; git -C {R} clean -fdq')
edit = open(f'/tmp/seed/{pid}.edit').read()
cur = None
for part in re.findall(r'@@ (\S+)\n|<<<<\n(.*?)====\n(.*?)>>>>\n', edit, re.S):
    if part[0]:
        cur = R + part[0] if part[0][0] == '/' else f'{R}/layout/src/{part[0]}'
        continue
    t = open(cur).read()
    if t.count(part[1]) != 1:
        sys.exit(f'{pid}: old text found {t.count(part[1])} times')
    open(cur, 'w').write(t.replace(part[1], part[2]))
diff = sh(f'git -C {R} diff').stdout
assert diff
E = f'CARGO_TARGET_DIR=/tmp/seed/target CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable'
r = sh(f'cd {R} && {E} timeout 600 cargo test --workspace --offline 2>&1')
passed = len(re.findall(r'^test .* \.\.\. ok$', r.stdout, re.M))
failed = re.findall(r'^test (.*) \.\.\. FAILED$', r.stdout, re.M)
if r.returncode != 0:
    print(r.stdout[-2500:])
    sys.exit(f'{pid}: tests fail or do not build: {passed} ok, {failed}')
d = f'/verif/seeded/{pid}'
os.makedirs(d, exist_ok=True)
open(f'{d}/patch.diff', 'w').write(diff)
own = f'/tmp/seed/{pid}.sh'
if os.path.exists(own):
    shutil.copy(own, f'{d}/demo.sh')
else:
  shutil.copy(f'/tmp/seed/{pid}.rs', f'{d}/demo.rs')
  open(f'{d}/demo.sh', 'w').write('''#!/bin/bash
# Run in the repository: builds demo.rs against its library and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 2
trap 'cd /; rm -rf "$t"' EXIT
mkdir "$t/src" "$t/work"
cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
layout-rs = { path = "$repo/layout" }
EOF
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cd "$t" || exit 2
CARGO_TARGET_DIR=$t/target cargo build -q --offline 2>"$t/log" || { cat "$t/log"; exit 3; }
cd "$t/work" && timeout 60 "$t/target/debug/demo"
''')
os.chmod(f'{d}/demo.sh', 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f'{d}/meta.json', 'w'), indent=1)
a = sh(f'cd {R} && bash {d}/demo.sh')
sh(f'git -C {R} checkout -q -f .')
b = sh(f'cd {R} && bash {d}/demo.sh')
ok = a.returncode != 0 and b.returncode == 0
if a.returncode in (2, 3) or not ok:
    print('with:', a.returncode, a.stdout[-1500:], a.stderr[-600:], '\nwithout:', b.returncode, b.stdout[-1500:], b.stderr[-600:])
    shutil.rmtree(d)
    sys.exit(f'{pid}: demo does not show it')
print(f'{pid}: kept ({passed} tests ok; demo {a.returncode}/{b.returncode}: {(a.stderr or a.stdout).strip()[-160:]})')
