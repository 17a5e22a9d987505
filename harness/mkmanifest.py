import json,os,re
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
notes=json.load(open('/verif/harness/levels.json'))
m={"version":1,"setup_cmd":"/opt/venv/bin/python -B harness/setup.py",
 "hooks":{"guard":"CMAKELANG_VERIF_TRACE","enable":"no hooks are needed: the checks drive the public functions and command lines of /repo's working tree","source_commits":[]},
 "checks":[],"not_applicable":[],
 "notes":"TLA+/TLC. All checks run the real code of /repo's working tree and have TLC judge the recorded behaviours against specs/*.tla; see DESIGN.md."}
for p in props:
  i=p['id']
  if os.path.exists('/verif/harness/props/%s.py'%i.lower()) and i in notes:
    n=notes[i]
    m["checks"].append({"property":i,"quick_cmd":"/opt/venv/bin/python -B harness/run.py %s --tier quick"%i,
     "thorough_cmd":"/opt/venv/bin/python -B harness/run.py %s --tier thorough"%i,
     "evidence_file":"evidence/%s.json"%i,"technique":n["technique"],"level":n["level"],"level_note":n["note"]})
  else:
    m["not_applicable"].append({"property":i,"reason":notes.get(i,{}).get("reason","check under construction: not claimed yet")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); print(len(m["checks"]),"claimed")
