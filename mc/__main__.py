"""python -m mc <ID> [--replay FILE] [--tier quick|thorough]"""
import argparse
import importlib
import os
import sys
import warnings

warnings.simplefilter("ignore")


def _parse():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", help="comma separated case indices")
    return ap.parse_args()


def main():
    args = _parse()
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    from . import engine

    try:
        mod = importlib.import_module("mc.props." + args.pid.lower())
    except ModuleNotFoundError as exc:
        if exc.name and exc.name.startswith("mc.props"):
            sys.stderr.write("no such property: {}\n".format(args.pid))
            return 2
        raise
    only = [int(x) for x in args.only.split(",")] if args.only else None
    return engine.main(mod, args.pid, tier, seed, replay=args.replay, only=only)


if __name__ == "__main__":
    CODE = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(CODE)
