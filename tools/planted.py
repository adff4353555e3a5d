"""Runs the quick check of its property against every planted change (in a scratch copy of
/repo) and records which checks catch it in tools/planted.json.  Usage: planted.py [ID...]"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(V, "tools", "planted.json")


def run(sid, prop=None):
    prop = prop or json.load(open("%s/seeded/%s/meta.json" % (V, sid)))["property"]
    d = tempfile.mkdtemp(prefix="planted-")
    try:
        subprocess.check_call(["cp", "-a", "/repo", d + "/r"])
        subprocess.check_call(["git", "-C", d + "/r", "apply", "%s/seeded/%s/patch.diff" % (V, sid)])
        env = dict(os.environ, PG_REPO=d + "/r", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        p = subprocess.run(["python3-vt", V + "/harness/run.py", prop, "--tier", "quick", "--no-evidence", "--jobs", "2"], capture_output=True, text=True, env=env)
        return sid, prop, p.returncode, sorted(set(re.findall(r"VIOLATION property=%s replay=\S*/%s-(\w+)-" % (prop, prop), p.stdout)))
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    res = json.load(open(OUT)) if os.path.exists(OUT) else {}
    ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
    with cf.ThreadPoolExecutor(4) as ex:
        for sid, prop, rc, names in ex.map(run, ids):
            res[sid] = names
            print(sid, prop, "caught by " + ", ".join(names) if rc == 1 and names else "MISSED (%d)" % rc, flush=True)
    json.dump({k: v for k, v in sorted(res.items()) if os.path.isdir("%s/seeded/%s" % (V, k))}, open(OUT, "w"), indent=1)
