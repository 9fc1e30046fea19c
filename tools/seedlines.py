"""Which planted changes touch only lines that fix commits added."""
import glob, os, subprocess
base = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, capture_output=True, text=True).stdout.split()[0]
for d in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    f, rm, add = None, [], 0
    own = []
    cur = None
    for l in open(d):
        if l.startswith("--- a/"):
            cur = l[6:].strip()
            b = subprocess.run(["git", "-C", "/repo", "show", "%s:%s" % (base, cur)], capture_output=True, text=True).stdout
            lines = {x.strip() for x in b.splitlines()}
        elif l.startswith("-") and l[1:].strip():
            own.append(l[1:].strip() in lines)
        elif l.startswith("+") and not l.startswith("+++"):
            add += 1
    if not any(own):
        print(os.path.basename(os.path.dirname(d)), own, "adds", add)
