import sys,json,glob
sys.path.insert(0,'/verif/lib')
import props
rows=["| | property | models | traces of the code: generator (groups quick / thorough) | aspects judged |","|---|---|---|---|---|"]
for p in props.PROPS:
    g=", ".join("%s (%d/%d)"%(x[0].__name__,x[2],x[3]) for x in p.gens)
    # merge same names
    d={}
    for x in p.gens:
        a=d.setdefault(x[0].__name__,[0,0]); a[0]+=x[2]; a[1]+=x[3]
    g=", ".join("%s (%d/%d)"%(k,a,b) for k,(a,b) in d.items())
    if p.special: g+=(", " if g else "")+"special: "+p.special
    m=", ".join(x if isinstance(x,str) else x[0] for x in p.models) or "–"
    rows.append("| %s | %s | %s | %s | %s |"%(p.id,p.title,m,g or "–"," ".join(sorted(p.aspects))))
t="\n".join(rows)
rs=["| planted | needs | caught by |","|---|---|---|"]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); i=f.split('/')[3]
    rs.append("| `%s` | %s | %s |"%(i,m['needs'],m['property']))
s=open('/verif/DESIGN.md').read().replace('@@TABLE@@',t).replace('@@SEEDS@@',"\n".join(rs))
open('/verif/DESIGN.md','w').write(s)
