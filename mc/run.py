"""Entry point: run.py <property> [quick|thorough] [--replay FILE]"""
import os
import sys
import warnings
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.path.insert(0, str(HERE / "stubs"))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402

np.seterr(all="ignore")


def main():
    args = sys.argv[1:]
    replay = None
    if "--replay" in args:
        idx = args.index("--replay")
        replay = args[idx + 1]
        del args[idx : idx + 2]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    from loguru import logger

    logger.remove()
    import importlib

    import core

    os.environ["TQDM_DISABLE"] = "1"
    try:
        module = importlib.import_module(f"checks.{prop.lower()}")
    except Exception as e:
        # the interfaces every user of the property needs are gone or fail
        core.import_failed(prop, tier, seed, e)
        sys.exit(1)
    warnings.simplefilter("ignore")
    sys.exit(core.run(module, tier, seed, replay))


if __name__ == "__main__":
    main()
