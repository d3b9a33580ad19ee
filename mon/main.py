import os
import sys


def main():
    prop, mode = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import mon  # before prodsys
    import prodsys
    if not os.path.abspath(prodsys.__file__).startswith("/repo/"):
        print("prodsys is not imported from /repo:", prodsys.__file__)
        return 2
    from mon import core, checks
    d = checks.get(prop)
    if mode == "replay":
        return core.replay(prop, d, sys.argv[3])
    return core.run_check(prop, d, mode, seed)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
