import json,sys
e=json.load(open(f'/verif/evidence/{sys.argv[1]}.json'))
for o in e['coverage']['obligations']: print(f"{o['name']:34}",o['paths'],o['wall_s'],o['exhaustive'],o['fatal'] or '', {k:v for k,v in sorted((o['reached'] or {}).items(),key=lambda t:-t[1])[:6]})
