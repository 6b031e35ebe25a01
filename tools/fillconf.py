#!/usr/bin/env python3
"""fillconf.py Cxx RULE ASSUMPTION... : complete a driver's conf.json after a first run (require_events from the evidence)."""
import json, sys
pid, rule, assume = sys.argv[1], sys.argv[2], sys.argv[3:]
p = f"/verif/drv/{pid}/conf.json"
c = json.load(open(p)); ev = json.load(open(f"/verif/evidence/{pid}.json"))["coverage"]["events_observed"]
c["require_events"] = sorted(k for k, v in ev.items() if v > 20)
c["rule"] = rule; c["assumptions"] = assume
json.dump(c, open(p, "w"), indent=1)
