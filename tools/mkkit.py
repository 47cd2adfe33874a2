#!/usr/bin/env python3
"""mkkit.py <seed-id> <member>...: put the demo kit for the listed members into /verif/seeded/<id>/.
main.rs, patch.diff and meta.json are written by hand."""
import os, shutil, subprocess, sys, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, members = sys.argv[1], sys.argv[2:]
d = os.path.join(root, "seeded", sid); os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp(); s = os.path.join(t, "sim"); os.makedirs(s)
sim = os.path.join(root, "sim")
def cp(x):
    shutil.copytree(os.path.join(sim, x), os.path.join(s, x))
cp("rt"); cp("shims")
for m in members: cp("shadow/" + m)
for f in ["mirror.py", "rust-toolchain.toml", "Cargo.lock"]:
    shutil.copy(os.path.join(sim, f), os.path.join(s, f))
mm = ", ".join('"mirror/%s"' % m for m in members)
open(os.path.join(s, "Cargo.toml"), "w").write(f'''[workspace]
resolver = "2"
members = ["rt", "demo", "shims/*", {mm}]
[profile.dev]
opt-level = 0
debug = 0
incremental = false
''')
os.makedirs(os.path.join(s, "demo/src"))
deps = "\n".join(f'{m} = {{ path = "../mirror/{m}" }}' for m in members)
extra = open(os.path.join(root, "tools/kit/deps.toml")).read()
if len(members) > 2 or "query" in members:
    p = os.path.join(root, "tools/kit/deps-%s.toml" % members[-1])
    if os.path.exists(p): extra = open(p).read()
open(os.path.join(s, "demo/Cargo.toml"), "w").write(f'''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
simrt = {{ path = "../rt" }}
{deps}
{extra}
''')
subprocess.check_call(["tar", "czf", os.path.join(d, "kit.tgz"), "--sort=name", "--mtime=2020-01-01", "--owner=0", "--group=0", "-C", t, "sim"])
shutil.rmtree(t)
shutil.copy(os.path.join(root, "tools/kit/demo.sh"), os.path.join(d, "demo.sh"))
for f in os.listdir(os.path.join(root, "tools/kit")):
    if f == "common_%s.rs" % members[-1]:
        shutil.copy(os.path.join(root, "tools/kit", f), os.path.join(d, "common.rs"))
