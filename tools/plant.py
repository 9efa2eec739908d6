"""Plants a bug: plant.py SPEC.py [ID...]   (SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)])

Checks in a scratch copy that the edit applies, the stable tests pass, the demonstration separates the trees, then writes
/verif/seeded/<id>/ and reports whether the check of the property catches it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent", PYTHONHASHSEED="0", LANG="C.UTF-8", PYTHONPATH="/opt/vp/plugin")


def sh(cmd, cwd, env=None, t=900):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=t)


def tests(wt):
    xml = wt + ".xml"
    ok = set()
    import xml.etree.ElementTree as ET

    for a in (["."], ["tests/base_data_test_samples.py::test_compare_method"]):
        sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "bool_results", f"--rootdir={wt}", "-o", "junit_family=xunit2", f"--junitxml={xml}", *a], wt)
        for tc in ET.parse(xml).iter("testcase"):
            if not list(tc):
                ok.add(tc.get("classname") + "::" + tc.get("name"))
        os.remove(xml)
    return ok


def main():
    spec = {}
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"), spec)
    want = set(sys.argv[2:])
    tmp = tempfile.mkdtemp(prefix="plant-")
    clean = os.path.join(tmp, "clean")
    shutil.copytree("/repo", clean, ignore=shutil.ignore_patterns("__pycache__"))
    base = tests(clean)
    print("tests passing on the clean copy:", len(base))
    assert len(base) == 46
    for b in spec["BUGS"]:
        if want and b["id"] not in want:
            continue
        wt = os.path.join(tmp, "repo")
        shutil.copytree("/repo", wt, ignore=shutil.ignore_patterns("__pycache__"))
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(wt, f)
                s = open(p, encoding="utf-8", newline="").read()
                if "\r\n" in s:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                open(p, "w", encoding="utf-8", newline="").write(s.replace(old, new))
            diff = sh(["git", "diff"], wt).stdout
            t = tests(wt)
            lost = base - t
            d = os.path.join(HERE, "seeded", b["id"])
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            with open(os.path.join(d, "patch.diff"), "w", newline="") as f:
                f.write(subprocess.run(["git", "diff"], cwd=wt, capture_output=True).stdout.decode())
            with open(os.path.join(d, "demo.sh"), "w") as f:
                f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent LANG=C.UTF-8\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            with open(os.path.join(d, "demo.py"), "w") as f:
                f.write("from mini import *\n\n" + b["demo"].strip() + "\n")
            shutil.copy(os.path.join(HERE, "tools", "mini.py"), d)
            shutil.copy(os.path.join(HERE, "vlib", "rtcm.py"), d)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            good = sh(["bash", os.path.join(d, "demo.sh")], clean, t=300)
            bad = sh(["bash", os.path.join(d, "demo.sh")], wt, t=300)
            c = sh(["python3-vt", "check.py", b["property"]], HERE, dict(ENV, VERIF_REPO=wt, VERIF_SEED="1", VERIF_EVIDENCE=tmp))
            ok = not lost and good.returncode == 0 and bad.returncode != 0 and diff
            print(("VALID  " if ok else "INVALID"), b["id"], b["property"], "lost:", sorted(lost)[:2], "demo:", good.returncode, bad.returncode, "| check:", {0: "MISSED", 1: "caught"}.get(c.returncode, f"rc {c.returncode}"), "|", [x for x in c.stdout.splitlines() if "VIOL" not in x][-2:-1])
            if good.returncode:
                print(good.stdout[-500:], good.stderr[-800:])
            if not bad.returncode or "BROKEN" not in bad.stdout:
                print("  demo on the changed tree:", bad.stdout[-300:], bad.stderr[-600:])
            if not ok:
                shutil.rmtree(d)
            sys.stdout.flush()
        finally:
            shutil.rmtree(wt)
    shutil.rmtree(tmp)


main()
