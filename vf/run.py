"""entry point: run.py <property> quick|thorough|replay <key>|list [substr]|one <substr>"""
import importlib
import os
import sys

if os.environ.get("PYTHONHASHSEED") is None:
    # set order inside the converter depends on the hash seed: fix it so that a run can be repeated
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    mod = importlib.import_module("vf.checks." + prop.lower())
    if tier in ("quick", "thorough"):
        sys.exit(mod.main(tier))
    if tier == "refused":
        # developer: record which programs the converter declines on the current tree
        from vf import tv
        keys = {}
        for t in ("quick", "thorough"):
            for j in mod.jobs(t):
                keys[j.key] = j
        outs, _ = tv.run_jobs(list(keys.values()), mod.run_job)
        os.makedirs("/verif/expected", exist_ok=True)
        with open("/verif/expected/%s.refused.txt" % prop, "w") as f:
            for o in sorted(o.key for o in outs if o.status == "refused"):
                f.write(o + "\n")
        return
    if tier == "list":
        for j in mod.jobs("thorough"):
            if len(sys.argv) < 4 or sys.argv[3] in j.key:
                print(j.key)
        return
    # replay / one: rerun matching programs in this process, verbosely
    pat = sys.argv[3]
    os.environ["VF_PROCS"] = "1"
    from vf import tv
    every = {j.key: j for t in ("thorough", "quick") for j in mod.jobs(t)}
    js = [j for j in every.values() if (j.key == pat if tier == "replay" else pat in j.key)]
    outs, st = tv.run_jobs(js, mod.run_job, 1)
    bad = 0
    for o in outs:
        print(o.key, o.status, o.detail, "%.2fs" % o.wall)
        if o.inputs is not None:
            for k, v in o.inputs.items():
                print("   ", k, v.dtype, v.tolist())
        bad |= o.status in ("diff", "error")
    print(st)
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
