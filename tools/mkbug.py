"""Writes /verif/seeded/<id>/ from an edit list: mk(id, property, deps, [(file, old, new)], demo_rs, needs, breaks)."""
import json, os, shutil, subprocess, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mk(id, prop, deps, edits, demo, needs, breaks):
    d = tempfile.mkdtemp(prefix="mkbug-", dir="/tmp")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", d + "/r"])
        for f, old, new in edits:
            p = os.path.join(d, "r", f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "diff"], cwd=d + "/r", text=True)
    finally:
        shutil.rmtree(d)
    out = os.path.join(V, "seeded", id)
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.rs", "w").write(demo)
    t = open(os.path.join(V, "tools", "demo_template.sh")).read().replace("@DEPS@", " ".join(deps))
    open(out + "/demo.sh", "w").write(t)
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
