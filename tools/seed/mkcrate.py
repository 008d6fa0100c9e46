"""mkcrate.py REPO OUT DIR: a copy of the crate in REPO with DIR/demo.rs as module `demo` and an example calling it.

DIR/in__a__b.rs is appended to src/a/b.rs. DIR/run.rs, if there, is the example that calls it.

Without the dependency manul, and without the modules that need it, unless DIR has a stand-in for it."""
import re, shutil, sys
from pathlib import Path

repo, out, here = map(Path, sys.argv[1:])
shutil.copytree(repo / "src", out / "src")
lib = (out / "src/lib.rs").read_text()
tools = (out / "src/tools.rs").read_text()
toml = (repo / "Cargo.toml").read_text()
lock = (repo / "Cargo.lock").read_text()
ATTRS = r"(?:^[ \t]*#\[[^\n]*\]\n)*"
VIS = r"(?:pub(?:\([^)]*\))?[ \t]+)?"


def drop(text, names):
    for name in names:
        text = re.sub(ATTRS + r"^[ \t]*" + VIS + r"mod[ \t]+" + name + r"[ \t]*;[^\n]*\n", "", text, flags=re.M)
        text = re.sub(ATTRS + r"^[ \t]*" + VIS + r"use[ \t]+(?:crate::|self::)?" + name + r"::[^;]*;[^\n]*\n", "", text, flags=re.M)
    return text


(out / "examples").mkdir()
toml = re.sub(r"^\[\[(bench|example)\]\]\n(?:(?!\[)[^\n]*\n)*", "", toml, flags=re.M)
toml += "\n[workspace]\n"
if (here / "minimanul").exists():
    shutil.copytree(here / "minimanul", out / "minimanul")
    toml = re.sub(r"^manul[ \t]*=[ \t]*\{[^}]*?(features[^}]*)?\}", 'manul = { path = "minimanul" }', toml, flags=re.M)
    toml = re.sub(r"^(\[dev-dependencies\](?:(?!^\[)[\s\S])*?)^manul.*\n", r"\1", toml, flags=re.M)
    blocks = re.split(r"\n(?=\[\[package\]\]\n)", lock)
    mine = '[[package]]\nname = "manul"\nversion = "0.3.0-dev"\ndependencies = [\n "rand_core",\n "serde",\n "signature",\n]\n'
    lock = "\n".join(mine if 'name = "manul"' in b else b for b in blocks)
else:
    lib, tools = drop(lib, ["entities", "protocols", "tests"]), drop(tools, ["protocol_shortcuts", "sss", "protocol_shortcuts_dev"])
    toml = re.sub(r"^manul[ \t]*=.*\n", "", toml, flags=re.M)
    blocks = [b for b in re.split(r"\n(?=\[\[package\]\]\n)", lock) if 'name = "manul"' not in b]
    lock = "\n".join(blocks).replace(' "manul",\n', "")
lib = re.sub(r"^#!\[doc = include_str.*\n", "", lib, flags=re.M)
lib += "\nextern crate std;\n#[doc(hidden)]\n#[allow(missing_docs, warnings)]\npub mod demo;\n"
(out / "src/lib.rs").write_text(lib)
(out / "src/tools.rs").write_text(tools)
(out / "src/demo.rs").write_text((here / "demo.rs").read_text())
for extra in here.glob("in__*.rs"):  # appended to the file they are named after
    path = out / "src" / extra.name[4:].replace("__", "/")
    path.write_text(path.read_text() + "\n" + extra.read_text())
(out / "Cargo.toml").write_text(toml)
if lock:
    (out / "Cargo.lock").write_text(lock)
main = here / "run.rs"
(out / "examples/run.rs").write_text(main.read_text() if main.exists() else "fn main() {\n    synedrion::demo::run();\n}\n")
