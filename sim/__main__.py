"""python -m sim check <property> | replay <file>"""
import os
import sys


def fixed_process():
    """The same hash seed and addresses in every process."""
    if os.environ.get("SIM_FIXED") == "1":
        return
    env = dict(os.environ, SIM_FIXED="1", PYTHONHASHSEED=os.environ.get("SIM_HASHSEED", "0"), PYTHONDONTWRITEBYTECODE="1")
    try:
        import ctypes

        libc = ctypes.CDLL(None)
        p = libc.personality(0xFFFFFFFF)
        if p != -1:
            libc.personality(p | 0x0040000)  # ADDR_NO_RANDOMIZE
    except Exception:
        pass
    os.execve(sys.executable, [sys.executable, "-m", "sim"] + sys.argv[1:], env)


def main():
    if len(sys.argv) != 3 or sys.argv[1] not in ("check", "replay"):
        print(__doc__)
        return 2
    fixed_process()
    try:
        from . import driver

        if sys.argv[1] == "check":
            return driver.check(sys.argv[2], os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")))
        hit, same = driver.replay_file(sys.argv[2])
        return 1 if hit else 0
    except Exception:
        import traceback

        traceback.print_exc()
        return 2


sys.exit(main())
