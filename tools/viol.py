import json,sys,glob
for f in sorted(glob.glob('/verif/evidence/replay-%s-*.json'%sys.argv[1])):
    d=json.load(open(f)); print(f.split('-')[-1],d.get('key'),'|',str(d.get('message') or d.get('msg') or d.get('what') or list(d))[:400])
