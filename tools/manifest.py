import json
plans=json.load(open('/verif/plans.json'))
have=[k for k in plans['properties']]
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={"C21":"Pure functions of their arguments: no schedule, clock, fault or interleaving to simulate. The generated worlds use every form of requirement (name, ==, !=, <, >, <=, >=, ranges, blanks, platform) over versions whose order the reference model knows, so wrong choices made by commands show up under C06.",
"C20":"The solver is a pure computation over objects in memory which no command calls: no I/O, time, process or fault is involved, the only nondeterminism is hash order, so a simulation would be input generation under another name."}
checks=[]
for x in props:
    if x['id'] in have:
        checks.append({"property":x['id'],"quick_cmd":"python3 run_check.py %s"%x['id'],
        "thorough_cmd":"python3 run_check.py %s --tier thorough"%x['id'],
        "evidence_file":"evidence/%s.json"%x['id'],
        "technique":"deterministic simulation with fault injection: seeded search over histories, faults and schedules against a reference model",
        "level":"exploration",
        "level_note":plans['properties'][x['id']].get('note') or "Sampled, not exhaustive: holds for the simulated runs counted in the evidence. Real ipkg code on a simulated disk, network, clock and child programs; trusts the simulator, the reference model and Jython."})
na=[]
for x in props:
    if x['id'] not in have:
        na.append({"property":x['id'],"reason":NA.get(x['id'],"No check yet: its workload is being built.")})
m={"version":1,"setup_cmd":"python3 -m py_compile run_check.py && mkdir -p evidence out",
"checks":checks,"not_applicable":na,
"notes":"No hooks in /repo: every seam (file system, processes, sockets, clock, temporary names) is installed from /verif/sim by replacing the modules of the interpreter. The commits in /repo are all repairs, see known_findings.json."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),len(na))
