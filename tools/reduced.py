"""reduced.py SUITE OUT [full|subset]: what is needed to build the driver for one suite alone.

OUT/driver: the parts of the driver this suite uses. With `subset` also OUT/crate: a copy of the crate without its
modules `protocols` and `entities`, and OUT/harness, which uses it. Serves as a fallback: a change of the code that one part
of the driver does not build with must not keep the other parts from giving their answers.
"""
import re, shutil, sys
from pathlib import Path

suite, out, mode = sys.argv[1], Path(sys.argv[2]), (sys.argv + ["full"])[3]
V, R = Path("/verif"), Path("/repo")
shutil.rmtree(out, ignore_errors=True)
(out / "driver").mkdir(parents=True)


def uses(part):
    return set(re.findall(r"use super::(\w+)::", (V / "driver" / (part + ".rs")).read_text()))


parts = {suite, "util"}
while True:
    more = set().union(*map(uses, parts)) - parts
    if not more:
        break
    parts |= more
for f in (V / "driver").glob("*.rs"):
    if f.stem in parts | {"driver"}:
        t = f.read_text()
        if f.stem == "driver":
            t = re.sub(r'^part!\((\w+),.*\n', lambda m: m.group(0) if m.group(1) in parts else "", t, flags=re.M)
            t = re.sub(r'^ *"\w+" => (\w+)::\w+\(&ctx\),\n', lambda m: m.group(0) if m.group(1) in parts else "", t, flags=re.M)
        if mode == "subset":
            t = re.sub(r"^ *// full\{\n[\s\S]*?^ *// full\}\n", "", t, flags=re.M)
            t = re.sub(r"^.*// full\n", "", t, flags=re.M)
            t = t.replace("FULL: bool = true", "FULL: bool = false")
        (out / "driver" / f.name).write_text(t)

if mode == "subset":
    ATTRS, VIS = r"(?:^[ \t]*#\[[^\n]*\]\n)*", r"(?:pub(?:\([^)]*\))?[ \t]+)?"

    def drop(text, names):
        for name in names:
            text = re.sub(ATTRS + r"^[ \t]*" + VIS + r"mod[ \t]+" + name + r"[ \t]*;[^\n]*\n", "", text, flags=re.M)
            text = re.sub(ATTRS + r"^[ \t]*" + VIS + r"use[ \t]+(?:crate::|self::)?" + name + r"::[^;]*;[^\n]*\n", "", text, flags=re.M)
        return text

    shutil.copytree(R / "src", out / "crate/src")
    lib = out / "crate/src/lib.rs"
    t = drop(lib.read_text(), ["entities", "protocols", "tests"])
    t = re.sub(r"^#!\[doc = include_str.*\n", "", t, flags=re.M)
    t = re.sub(r"^#!\[(?:deny|warn|forbid)\([\s\S]*?\)\]\n", "", t, flags=re.M)
    if not re.search(r"^extern crate std;", t, flags=re.M):
        t += "\nextern crate std;\n"
    t += '\n#[allow(missing_docs, warnings)]\n#[doc(hidden)]\npub mod verif {\n    include!(concat!(env!("SYNEDRION_VERIF_DIR"), "/driver.rs"));\n}\n'
    lib.write_text(t)
    tools = out / "crate/src/tools.rs"
    tools.write_text(drop(tools.read_text(), ["protocol_shortcuts", "protocol_shortcuts_dev"]))
    toml = (R / "Cargo.toml").read_text()
    toml = re.sub(r"^\[\[(bench|example)\]\]\n(?:(?!\[)[^\n]*\n)*", "", toml, flags=re.M)
    (out / "crate/Cargo.toml").write_text(toml)
    shutil.copytree(V / "harness", out / "harness")
    h = out / "harness/Cargo.toml"
    h.write_text(h.read_text().replace('path = "/repo"', 'path = "%s"' % (out / "crate")))
