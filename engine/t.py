import bsym,sys,time,collections,json,os
t=time.time()
s,n=bsym.build(sys.argv[1]); print("build %.1f"%(time.time()-t))
for case in (sys.argv[2].split(",") if len(sys.argv)>2 else [""]):
    r,w=bsym.run_symbolic(s,case,{},int(os.environ.get("T","300")),8)
    json.dump(r,open("/tmp/last-%s.json"%case,"w"))
    c=collections.Counter(); h=collections.Counter()
    for x in r:
        if x["kind"]=="ob":
            if x["status"]=="holds": h[x["label"]]+=1
            else: c[(x["label"],x["status"],x.get("method"))]+=1
        elif x["kind"]=="reach": h["@"+x["label"]]+=1
        elif x["kind"]=="error": c[("ERROR",str(x)[:300])]+=1
    sm=[x for x in r if x["kind"]=="summary"]; sm=sm[0] if sm else {}
    print("==",case,"wall %.1f"%w,"paths",sm.get("paths"),"q",sm.get("solver_queries"),"unk",sm.get("unknown"),dict(h))
    for k,v in sorted(c.items(),key=str)[:25]: print("  ",v,*k)
    sh=collections.Counter()
    for x in r:
        if x["kind"]=="ob" and x["status"]!="holds" and sh[x["label"]]<2:
            sh[x["label"]]+=1
            print("  !!",x["label"],x["status"],x.get("info","")[:300],str(x.get("ce")and x["ce"][0])[:1200])
            if x.get("ce"): print("     replay:",bsym.replay(n,case,x["ce"][0],x["label"]))
