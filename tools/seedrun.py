"""Run the quick check of each planted bug's property against a scratch copy of /repo with the bug

usage: seedrun.py [ID ...]   (no check reads /verif/seeded, this is for the author only)
"""
import glob, json, os, shutil, subprocess, sys, tempfile, time

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.path.basename(x) for x in glob.glob(f"{here}/seeded/*"))
missed = []
book = f"{here}/tools/design/catches.json"
catches = json.load(open(book)) if os.path.exists(book) else {}
for sid in ids:
    seed = f"{here}/seeded/{sid}"
    prop = json.load(open(f"{seed}/meta.json"))["property"]
    copy = tempfile.mkdtemp(prefix="seedrun.", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", os.environ.get("SEED_REPO", "/repo") + "/.", copy], check=True)
        subprocess.run(["git", "-C", copy, "apply", f"{seed}/patch.diff"], check=True)
        t0 = time.time()
        r = subprocess.run(
            [f"{here}/run.sh", prop, "quick"], text=True, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, env={**os.environ, "VERIF_REPO": copy},
        )
        lines = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
        ok = r.returncode == 1 and any(f"property={prop} " in x for x in lines)
        catches[sid] = "yes" if ok else "no"
        json.dump(catches, open(book, "w"), indent=0, sort_keys=True)
        if not ok:
            missed.append(sid)
        print(sid, prop, "caught" if ok else f"MISSED rc={r.returncode}", f"{time.time()-t0:.0f}s",
              lines[0][:160] if lines else "", flush=True)
    finally:
        shutil.rmtree(copy, ignore_errors=True)
print("missed:", *missed)
