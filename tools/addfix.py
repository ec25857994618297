import json, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
prop, commit, what = sys.argv[1:4]
d.append({"status": "fixed", "property": prop, "commit": commit, "entry": "fixed: property=%s %s %s" % (prop, commit, what)})
json.dump(d, open(p, "w"), indent=1)
