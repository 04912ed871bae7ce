import os, glob
import mir, src, sem
def load(mirdir, repo='/repo'):
    errs=[]
    bodies=[]
    for c in ('pointcloud','goko','serve_goko'):
        bs = mir.parse_file(os.path.join(mirdir,c+'.mir'),c,errs,repo)
        bodies += bs
    # generator bodies: take the form before the state-machine transform
    gens={}
    for f in glob.glob(os.path.join(mirdir,'dump_serve_goko','*StateTransform.before.mir')):
        txt=open(f).read()
        if 'generator@' not in txt and '[async ' not in txt: continue
        for b in mir.parse_file(f,'serve_goko',errs,repo):
            if b.kind=='fn' and b.params and ('generator@' in b.params[0][1] or b.params[0][1].startswith('[async ')):
                gens[b.name]=b
    bodies=[gens.get(b.name,b) if b.crate=='serve_goko' and b.name in gens else b for b in bodies]
    si=src.SourceInfo(repo,('pointcloud','goko','serve_goko'))
    return sem.Engine(bodies,si),errs
