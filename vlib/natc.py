"""Subprocess: compile + load + call via NativeCodeCompiler. argv: json spec"""
import json
import os
import random
import sys
import time


def main():
    spec = json.loads(sys.argv[1])
    from returnn.util.native_code_compiler import NativeCodeCompiler

    rng = random.Random(spec["seed"])
    open(spec["ready"], "w").close()
    while not os.path.exists(spec["go"]):
        time.sleep(0.001)
    time.sleep(rng.random() * spec["max_delay"])
    if spec.get("crash_at"):
        n = [0]

        def hook(event, args):
            if event in ("open", "os.rename", "os.remove", "subprocess.Popen", "os.utime"):
                if event == "open" and spec["cache"] not in str(args[0]):
                    return
                n[0] += 1
                if n[0] == spec["crash_at"]:
                    os._exit(77)

        sys.addaudithook(hook)
    def make():
        return NativeCodeCompiler(
            base_name=spec["base"], code_version=1, code=spec["code"], is_cpp=spec["cpp"],
            c_macro_defines=spec["defines"], include_paths=spec.get("include_paths", ()), include_deps=spec.get("include_deps"),
        )

    import ctypes
    import shutil

    lib = make().load_lib_ctypes()
    r = {lib.answer()}
    # later users of the same cache, each with a fresh view on the file
    for k in range(spec.get("rounds", 1)):
        fn = make().get_lib_filename()
        priv = "%s-copy%i.so" % (spec["ready"], k)
        shutil.copyfile(fn, priv)
        r.add(ctypes.CDLL(priv).answer())
        if spec.get("rounds", 1) > 1:
            time.sleep(0.05 + rng.random() * 0.2)
    print("RESULT %r" % sorted(r))


if __name__ == "__main__":
    main()
