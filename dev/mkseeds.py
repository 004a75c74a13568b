#!/usr/bin/env python3
# Writes /verif/seeded/<id>/ from the definitions in seeds/*.py (development helper; no check uses it).
import subprocess, sys, json, pathlib, shutil, runpy, difflib
HERE = pathlib.Path(__file__).parent
OUT = HERE.parent / "seeded"
only = sys.argv[1:]
for f in sorted((HERE / "seeds").glob("*.py")):
    for s in runpy.run_path(str(f))["SEEDS"]:
        if only and s["id"] not in only: continue
        d = OUT / s["id"]; d.mkdir(parents=True, exist_ok=True)
        patch = ""
        edits = {}
        for (path, old, new) in s["edits"]:
            src = edits.get(path) or subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + path], text=True)
            assert src.count(old) == 1, (s["id"], path, src.count(old), old)
            edits[path] = src.replace(old, new)
        for path, new in edits.items():
            src = subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + path], text=True)
            patch += "diff --git a/%s b/%s\n" % (path, path) + "".join(difflib.unified_diff(src.splitlines(True), new.splitlines(True), "a/" + path, "b/" + path))
        (d / "patch.diff").write_text(patch)
        for name, text in s.get("files", {}).items():
            (d / name).write_text(text)
        if "demo_rs" in s:
            (d / "demo.rs").write_text("mod common;\n#[allow(unused_imports)]\nuse common::*;\n" + s["demo_rs"].lstrip("\n"))
            shutil.copy(HERE / "common.rs", d / "common.rs")
            shutil.copy(HERE / "demo.sh", d / "demo.sh")
        if s.get("cli"): shutil.copy(HERE / "demo_cli.sh", d / "demo.sh")
        if s.get("fsd"):
            shutil.copy(HERE / "demo_fsd.sh", d / "demo.sh")
            shutil.copy(HERE / "fsd" / "fuser.rs", d / "fuser.rs")
        for kind in ("desk", "web"):
            if s.get(kind):
                shutil.copy(HERE / ("demo_%s.sh" % kind), d / "demo.sh")
                for x in (HERE / "seeds" / kind).iterdir(): shutil.copy(x, d / x.name)
        (d / "demo.sh").chmod(0o755)
        (d / "meta.json").write_text(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
        print("wrote", d)
