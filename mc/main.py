import sys, os, json, importlib, traceback


def main():
    prop = sys.argv[1]
    if prop == "setup":
        import numpy, scipy, polytope  # noqa: the dependencies every check needs

        print("setup ok")
        sys.exit(0)
    from mc import fakeray

    fakeray.install()
    from mc import core

    mod = importlib.import_module(f"mc.checks.{prop.lower()}")
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        r = json.load(open(sys.argv[3]))
        case = eval(r["case_repr"], {"inf": float("inf"), "nan": float("nan")})
        fn = mod.CASES[r["group"]]
        res = core.run_one(fn, case, core.Stats())
        print("replayed:", res)
        sys.exit(1 if res else 0)
    sys.exit(mod.main())


if __name__ == "__main__":
    main()
