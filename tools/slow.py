import json,sys
e=json.load(open(f'/verif/evidence/{sys.argv[1]}.json'))
for c in sorted(e['coverage']['cases'],key=lambda c:-(c['wall_s'] or 0))[:int(sys.argv[2]) if len(sys.argv)>2 else 12]: print(c['case'],c['wall_s'],c['obligations'],c['terms'])
