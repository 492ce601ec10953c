#!/usr/bin/env python3
"""Writes a first Cargo.lock that names the stand-in crates, so that cargo takes them for the
patched dependencies without asking their git repositories; cargo completes the rest."""
import pathlib, tomllib
here = pathlib.Path(__file__).resolve().parent.parent
repo = pathlib.Path("/repo")
load = lambda p: tomllib.loads(p.read_text())
manifests = [p / "Cargo.toml" for d in (here / "shims", repo / "crates") for p in sorted(d.iterdir())]
manifests += [here / m / "Cargo.toml" for m in load(here / "Cargo.toml")["workspace"]["members"]]
found = {}
for p in manifests:
    if p.exists():
        m = load(p)
        found.setdefault(m["package"]["name"], m)
out = ["version = 4\n"]
for name, m in sorted(found.items()):
    version = m["package"]["version"]
    deps = sorted(d for d in m.get("dependencies", {}) if d in found)
    entry = '[[package]]\nname = "%s"\nversion = "%s"\n' % (name, version)
    if deps:
        entry += "dependencies = [\n" + "".join(' "%s",\n' % d for d in deps) + "]\n"
    out.append(entry)
(here / "Cargo.lock").write_text("\n".join(out))
