"""Entry point: python -m mc.main C01 [quick|thorough] [--only SC] [--replay FILE]"""
import importlib, json, os, sys


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    only = None
    i = 1
    while i < len(argv):
        if argv[i] in ("quick", "thorough"):
            tier = argv[i]
        elif argv[i] == "--only":
            i += 1
            only = argv[i]
        elif argv[i] == "--replay":
            i += 1
            only = json.load(open(argv[i]))["scenario"]
        i += 1
    from mc import common
    chk = common.Check(pid, tier, int(os.environ.get("VERIF_SEED", "1") or 1), only)
    return chk.run(pid.lower())


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
