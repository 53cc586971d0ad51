"""Judge again the one case recorded in a replay file, without exploring anything else."""
import json, os, sys

d = json.load(open(sys.argv[1]))
os.environ["MC_ONLY"] = d["case"]
os.environ["VERIF_TIER"] = d.get("tier", "quick")
print("property %s, case %s\nrecorded: %s" % (d["property"], d["case"], d["message"]))
from mc import run
run.entry(d["property"])
