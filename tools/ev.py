import json,sys
for p in sys.argv[1:]:
    d=json.load(open(f"/verif/evidence/{p}.json"))
    for h in d["coverage"]["harness_configurations"]: print(p,h)
    print(d["coverage"]["notes"], d["coverage"]["queries"])
