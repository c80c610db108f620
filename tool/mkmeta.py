import json,sys
d,p,needs,what=sys.argv[1:5]
json.dump({"property":p,"needs":needs,"what_it_breaks":what},open(f'/verif/seeded/{d}/meta.json','w'),indent=1)
