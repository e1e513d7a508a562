"""mkbug.py SPEC.py: makes seeded/<id>/ from a spec that defines id, prop, file, old, new, demo (python), needs, breaks.
`edits` = [(file, old, new)] may be given instead of file/old/new."""
import json, os, subprocess, sys, tempfile, shutil
for f in sys.argv[1:]:
    s = {}; exec(open(f).read(), s)
    d = "/verif/seeded/" + s["id"]; os.makedirs(d, exist_ok=True)
    edits = s.get("edits") or [(s["file"], s["old"], s["new"])]
    diff = ""
    t = tempfile.mkdtemp()
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t + "/w"])
    try:
        for p, o, n in edits:
            q = t + "/w/" + p; x = open(q, newline="").read()
            if "\r\n" in x: o, n = o.replace("\n", "\r\n"), n.replace("\n", "\r\n")
            assert x.count(o) == 1, (s["id"], p, x.count(o), o)
            open(q, "w", newline="").write(x.replace(o, n))
        diff = subprocess.check_output(["git", "-C", t + "/w", "diff"])
    finally:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/w"]); shutil.rmtree(t)
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.py", "w").write(s["demo"].lstrip())
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=%s\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n' % s.get("threads", 2))
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    print(s["id"], "made")
