"""Command line: python -m mc.run ID [--replay FILE] [--tier quick|thorough]."""
import importlib
import os
import sys


def main(argv):
    pid = argv[0]
    if pid == "--warm":
        import graphicle  # noqa: F401

        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    mod = importlib.import_module(f"mc.checks.{pid.lower()}")
    from mc import core

    import graphicle

    where = os.path.realpath(graphicle.__file__)
    want = os.path.realpath(os.path.join(core.REPO, "graphicle", "__init__.py"))
    if where != want:
        print(f"imported {where}, expected {want}", file=sys.stderr)
        return 4
    check = mod.C
    assert check.id == pid
    if "--replay" in argv:
        return core.replay(check, argv[argv.index("--replay") + 1])
    return core.run(check, tier, seed)


if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
