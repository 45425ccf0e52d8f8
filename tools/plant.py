#!/usr/bin/env python3
"""plant.py: helper to create a planted bug: reads a spec python file with ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source)"""
import json, os, subprocess, sys, runpy, shutil

for spec_fn in sys.argv[1:]:
    ns = runpy.run_path(spec_fn)
    for spec in ns["BUGS"]:
        d = "/verif/seeded/" + spec["id"]
        w = "/tmp/plant.%i" % os.getpid()
        shutil.rmtree(w, ignore_errors=True)
        subprocess.check_call(["git", "clone", "-q", "/repo", w])
        for fn, old, new in spec["edits"]:
            s = open(w + "/" + fn).read()
            assert s.count(old) == 1, (spec["id"], fn, s.count(old))
            open(w + "/" + fn, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w, "diff"]).decode()
        assert diff
        shutil.rmtree(w)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(spec["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(
            "#!/bin/bash\n# exit 0: the property holds on the tree in the current directory\n"
            'HERE=$(cd "$(dirname "$0")" && pwd)\n'
            "export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LANG=C.UTF-8\n"
            "export TF_USE_LEGACY_KERAS=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES= PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2\n"
            'W=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 3\n'
            'export TMPDIR=$W HOME=$W RETURNN_CACHE_DIR=$W/cache DEMO_TMP=$W PYTHONPATH=$PWD\n'
            'timeout 250 /opt/venv/bin/python "$HERE/demo.py"\nRC=$?\n'
            'case "$W" in /tmp/demo.????????) rm -rf -- "$W";; esac\nexit $RC\n'
        )
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print("planted", spec["id"])
