import sys,time,json
from server import *
prop=sys.argv[1]; n=int(sys.argv[2]); base=int(sys.argv[3]) if len(sys.argv)>3 else 0
tpl={"kind":"rust","tau":1,"ctxs":[{"threads":2,"width":0,"ncpu":4},{"threads":-1,"width":4,"ncpu":1}],"seed":1,"policy":0,"prestart":True,"ncpu":4}
t=time.time()
s=Server("/verif/.build/mt/x86_64-unknown-linux-gnu/release/dassim",tpl)
s.wait_ready(); print("ready",time.time()-t)
for i in range(n):
    t=time.time()
    st,af,plan,res=s.gen(prop,base+i,"quick")
    v=violation(st,af,res)
    p=json.loads(plan)
    print(i,p["scn"],"%.2f"%(time.time()-t),hex(st),af,len(plan),v,res and (res["hash"],res["sim"]["steps"],res["sim"]["hot"],res["sim"]["forced"],res["sim"]["live"]),flush=True)
    if v: json.dump(p,open("/tmp/v_%s_%d.json"%(prop,i),"w")); print(res and res.get("at"))
