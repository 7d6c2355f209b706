#!/usr/bin/env python3
"""mkseed.py: (re)creates seeded/<id> from the definitions in tools/seeds/*.py: edits are (file, old, new) on /repo's HEAD"""
import glob, json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WIRE_DEMO = r'''#!/bin/bash
# generates a protocol with the built generator, compiles a small program against it and runs it
set -e
H=$(cd "$(dirname "$0")" && pwd); D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
export RUSTUP_TOOLCHAIN=1.75.0 CARGO_NET_OFFLINE=true
mkdir -p "$D/src"; cp "$H/p.prot" "$D/p.prot"; cp "$H/main.rs" "$D/src/main.rs"
(cd "$D" && /repo/cli/target/release/clibri --src p.prot -rs src/proto.rs -o --em)
cat > "$D/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
bytes = "1.1.0"
[workspace]
T
cd "$D" && cargo build --offline --quiet && timeout 60 ./target/debug/demo
'''


def seed(id, prop, needs, breaks, edits, files):
    d = os.path.join(V, 'seeded', id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp()
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/r', 'HEAD'])
    try:
        for f, old, new in edits:
            p = os.path.join(w, 'r', f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'], text=True)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/r'])
        shutil.rmtree(w)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    for n, t in files.items():
        open(os.path.join(d, n), 'w').write(t)
    os.chmod(d + '/demo.sh', 0o755)


if __name__ == '__main__':
    want = sys.argv[1:]
    for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
        g = {'WIRE_DEMO': WIRE_DEMO, 'V': V, 'seed': lambda id, *a, **k: seed(id, *a, **k) if not want or id in want else None}
        exec(compile(open(f).read(), f, 'exec'), g)
