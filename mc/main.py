import importlib
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)
# sys.path[0] is /verif/mc (the script's directory): its modules are imported as mc.*
sys.path = [p for p in sys.path if p != os.path.join(VERIF, "mc")]
from mc import core


def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 and not argv[2].startswith("--") else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        check = importlib.import_module(f"checks.{pid.lower()}")
    except Exception as e:
        # the code under test does not import: nothing the property promises is available
        import traceback
        if any(fs.filename.startswith("/repo/") for fs in traceback.extract_tb(e.__traceback__)):
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            rp = os.path.join(VERIF, "replays", f"{pid}.json")
            with open(rp, "w") as f:
                f.write(traceback.format_exc())
            traceback.print_exc()
            print(f"VIOLATION property={pid} replay={rp}")
            return 1
        raise
    if "--replay" in argv:
        return core.replay(check, argv[argv.index("--replay") + 1])
    return core.run_check(check, tier, seed)


if __name__ == "__main__":
    code = main(sys.argv)
    sys.stdout.flush()
    os._exit(code)
