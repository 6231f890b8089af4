import json,sys
sys.path.insert(0,'.')
from runner.prove import LEVELS, NOTES, TECH
ids=[f"C{i:02d}" for i in range(1,21)]
m={"version":1,"setup_cmd":"./setup.sh",
 "checks":[{"property":p,"quick_cmd":f"python3-vt -B -m runner.main {p} quick","thorough_cmd":f"python3-vt -B -m runner.main {p} thorough",
   "evidence_file":f"evidence/{p}.json","technique":TECH[p],"level":LEVELS[p],"level_note":NOTES[p]} for p in ids],
 "not_applicable":[]}
json.dump(m,open("MANIFEST.json","w"),indent=1)
