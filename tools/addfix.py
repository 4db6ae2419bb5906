"""addfix.py PROPERTY COMMIT KEY TEXT: record a repaired defect in known_findings.json."""
import json, sys
p = __file__.rsplit('/', 2)[0] + '/known_findings.json'
d = json.load(open(p)); pid, c, k, t = sys.argv[1:]
d.append({"property": pid, "status": "fixed", "commit": c, "key": k, "what": f"fixed: property={pid} {c} {t}"})
json.dump(d, open(p, 'w'), indent=1); open(p, 'a').write('\n')
