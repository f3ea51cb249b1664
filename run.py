"""Usage: run.py <property> [quick|thorough]   (see MANIFEST.json)"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    env = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"}
    if pid == "P24":
        env["PYTHONMALLOC"] = "debug"   # released memory is overwritten
    if any(os.environ.get(k) != v for k, v in env.items()):
        env = dict(os.environ, **env)
        os.execve(sys.executable, [sys.executable] + sys.argv, env)
    sys.path.insert(0, os.path.join(HERE, "harness"))
    sys.path.insert(0, HERE)
    sys.setrecursionlimit(1000)
    import explore
    check = explore.Check(pid)
    mod = importlib.import_module("checks.%s" % pid.lower())
    try:
        mod.run(check)
    except Exception:
        # the machinery failed: no verdict either way
        import traceback
        traceback.print_exc()
        if not check.violations:
            sys.stdout.flush()
            os._exit(2)
    sys.stdout.flush()
    rc = check.finish()
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
