import sys; sys.path.insert(0,'/verif')
import check,re,json,subprocess,concurrent.futures as cf,time
tool=check.build_tool("absint"); spec=sys.argv[1]; pat=sys.argv[2] if len(sys.argv)>2 else '.*'
extra=[]
if "sksl_generated" in open(spec).read():
    gd,gr,_,ok=check.generated(tool); extra=["-I"+gd,"-fdeclspec"]
bc,us=check.link(spec,extra); 
fns=[f for f in check.sh([tool,bc,"--list"]).stdout.split() if re.fullmatch("prop_("+pat+")",f)]
def go(f):
    t=time.time(); r=check.run_harness(tool,bc,f,120,24); return f,r,time.time()-t
with cf.ThreadPoolExecutor(8) as ex:
  for f,r,t in ex.map(go,fns):
    bad=[o for o in r.get('obligations',[]) if o['fail'] or o.get('undec') or (not o['ok'] and not o['id'].startswith('never'))]
    print(f"{'ok ' if not bad and not r.get('error') and not r.get('incomplete') else 'BAD'} {f} {t:.1f}s ob={len(r.get('obligations',[]))} opaque={r.get('opaque',[])[:8]}", r.get('error',''), r.get('incomplete',''))
    for o in bad: print("     ",o['id'],"ok",o['ok'],"fail",o['fail'],"undec",o.get('undec'),o['where'],(o['detail'] or [''])[0][:int(sys.argv[3]) if len(sys.argv)>3 else 500])
