#!/usr/bin/env python3
"""Copy the members of /repo that the simulation builds into sim/mirror/, byte for byte, rewriting
only what changed (so cargo rebuilds exactly that). Manifests come from sim/shadow/. The files
not taken from /repo are a test-support module and the demo commands of the binary."""
import os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.path.join(HERE, "mirror")
MEMBERS = ["common", "storage", "metadata", "ingester", "query", "platform", "cmd"]
# Nightly features that the installed compiler no longer has are spelled in the current way; nothing else
# about these files changes.
EDIT = {
    "query/src/lib.rs": [
        (b"#![feature(let_chains, concat_idents)]", b"#![feature(macro_metavar_expr_concat)]"),
        (b"concat_idents!($ident,Array)", b"${concat($ident, Array)}"),
    ],
    "platform/src/lib.rs": [(b"#![feature(let_chains)]", b"")],
    "cmd/src/lib.rs": [(b"#![feature(async_closure)]", b"")],
}
STUB = {"storage/src/test_util.rs": b"// test support: not part of the simulated build\n"}
for f in ("store", "test", "db_test"):
    STUB["cmd/src/command/" + f + ".rs"] = b"// demo data and benchmark commands: not part of the simulated build\n"


def put(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def read(path):
    with open(path, "rb") as f:
        return f.read()


def main():
    want = set()
    for m in MEMBERS:
        shadow = os.path.join(HERE, "shadow", m, "Cargo.toml")
        if not os.path.exists(shadow):
            continue
        put(os.path.join(OUT, m, "Cargo.toml"), read(shadow))
        want.add(os.path.join(OUT, m, "Cargo.toml"))
        root = os.path.join(REPO, "src", m)
        files = []
        for d in ("src", "schema"):
            for dp, dn, fn in os.walk(os.path.join(root, d)):
                dn.sort()
                files += [os.path.join(dp, f) for f in fn]
        if os.path.exists(os.path.join(root, "build.rs")):
            files.append(os.path.join(root, "build.rs"))
        for f in sorted(files):
            rel = os.path.relpath(f, root)
            dst = os.path.join(OUT, m, rel)
            data = STUB.get(m + "/" + rel)
            if data is None:
                data = read(f)
                for a, b in EDIT.get(m + "/" + rel, []):
                    data = data.replace(a, b)
            put(dst, data)
            want.add(dst)
    for dp, dn, fn in os.walk(OUT):
        for f in fn:
            p = os.path.join(dp, f)
            if p not in want:
                os.remove(p)


main()
