import sys

from .engine import run_check


def main(argv):
    if len(argv) < 2:
        print("usage: check <id> quick|thorough | check <id> --replay FILE", file=sys.stderr)
        return 2
    cid = argv[0]
    if argv[1] == "--replay":
        return run_check(cid, "quick", replay=argv[2])
    return run_check(cid, argv[1], keep="--keep" in argv)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
