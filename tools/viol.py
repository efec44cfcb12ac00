import json,glob,os,sys
f=max(glob.glob(f'/verif/replays/{sys.argv[1]}*'),key=os.path.getmtime)
d=json.load(open(f))
n=int(sys.argv[2]) if len(sys.argv)>2 else 400
print(d['message'][:n], json.dumps(d['case'])[:n])
for o in d['others']: print('-',o['message'][:n], json.dumps(o['case'])[:n])
