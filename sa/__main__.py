import os, sys

if os.environ.get("PYTHONHASHSEED") != "0":  # the same iteration orders in every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-m", "sa", *sys.argv[1:]])
from .check import run_property
prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
sys.exit(run_property(prop, tier, int(os.environ.get("VERIF_SEED", "1"))))
