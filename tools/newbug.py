#!/usr/bin/env python3
"""newbug.py: reads a planted bug from stdin and writes seeded/<id>/, without touching /repo.

First line: <id> <property>.  Then sections, each started by a line `== name`:
needs, breaks (texts), demo (demo.sh, run in /repo), file:<name> (other files of the demonstration),
and edits: `== edit <path>` with old text, a line `=====`, and new text.
"""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lines = sys.stdin.read().split("\n")
bid, prop = lines[0].split()
secs, cur = [], None
for l in lines[1:]:
    if l.startswith("== "):
        cur = [l[3:], []]
        secs.append(cur)
    elif cur:
        cur[1].append(l)
d = os.path.join(V, "seeded", bid)
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix="newbug.")
subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && "
               "git -c user.name=x -c user.email=x@x commit -qm b" % (w, w), shell=True, check=True)
meta = {"property": prop}
for name, body in secs:
    text = "\n".join(body).strip("\n")
    if name == "needs":
        meta["needs"] = " ".join(text.split())
    elif name == "breaks":
        meta["what_it_breaks"] = " ".join(text.split())
    elif name == "demo":
        open(os.path.join(d, "demo.sh"), "w").write("#!/usr/bin/env bash\n" + text + "\n")
    elif name.startswith("file:"):
        open(os.path.join(d, name[5:]), "w").write(text + "\n")
    elif name.startswith("edit "):
        p = os.path.join(w, name[5:])
        old, new = ("\n".join(body)).split("\n=====\n")
        old, new = old.strip("\n"), new.strip("\n")
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit("%s: the old text occurs %d times in %s" % (bid, s.count(old), name[5:]))
        open(p, "w").write(s.replace(old, new))
diff = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE).stdout
open(os.path.join(d, "patch.diff"), "wb").write(diff)
json.dump(meta, open(os.path.join(d, "meta.json"), "w"), indent=1)
shutil.rmtree(w)
sys.exit(subprocess.run(["bash", os.path.join(V, "tools", "plant.sh"), bid]).returncode)
