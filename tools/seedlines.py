"""seedlines.py: planted bugs whose removed lines are not in the original repository (would not count)."""
import glob,subprocess,os,re
base=subprocess.check_output("git -C /repo rev-list --max-parents=0 HEAD",shell=True,text=True).split()[0]
base=subprocess.check_output("git -C /repo log --format=%H --grep='^fix:' --reverse",shell=True,text=True).split()[0]+"^"
for d in sorted(glob.glob("/verif/seeded/*/")):
    f=None; ok=False; n=0
    for l in open(d+"patch.diff"):
        if l.startswith("--- a/"): f=l[6:].strip(); orig=subprocess.run(["git","-C","/repo","show",base+":"+f],capture_output=True,text=True).stdout.splitlines()
        elif l.startswith("-") and not l.startswith("---"):
            n+=1
            if l[1:].rstrip("\n") in orig and l[1:].strip(): ok=True
    print(("ok  " if ok else "ADD " if n==0 else "BAD "),os.path.basename(d[:-1]))
