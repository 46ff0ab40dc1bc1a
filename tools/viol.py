import json,sys
d=json.load(open('/verif/evidence/replay/%s.json'%sys.argv[1]))
v=sorted(d['violations'],key=lambda x:len(x['key']))
for x in v[:int(sys.argv[2]) if len(sys.argv)>2 else 30]: print((x["message"] or x["key"])[:350])
