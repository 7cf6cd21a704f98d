import sys, subprocess; sys.path.insert(0,'/verif')
import check; bc,_=check.link(sys.argv[1],[]); print(bc); check.build_tool("absint")
r=subprocess.run(['/verif/build/absint',bc,'--fn','prop_'+sys.argv[2],'--out','/tmp/o.json','--debug'],capture_output=True,text=True); print(r.stderr[:int(sys.argv[3]) if len(sys.argv)>3 else 3000])
subprocess.run(f"/usr/lib/llvm-18/bin/llvm-dis {bc} -o /tmp/t.ll",shell=True)
