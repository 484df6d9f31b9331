import sys
sys.path.insert(0,'/verif')
from vf.facts import load_all
from vf.engine import *
from vf.system import *
from vf import wire
from vf.wire import *
F=load_all(("tokio",))["tokio"]
print([v["name"] for v in F.adts['serde_core::private::content::Content']["variants"]])
s=System(F)
e=s.engine(extra=WIRE); e.rounds,e.nested,e.width=12,12,24
J="tower_lsp::jsonrpc::"
def T(n): return ("adt",J+n,())
def serial(st, v, ty):
    from vf.engine import Event
    return e.call_fn(st, callee(S+"Serialize","serialize"), (ty,SER_T), (e.alloc(st,v),SER), {"sp":"","k":"call","t":0}, None)
def decode(st, sh, ty):
    return e.call_fn(st, callee(D+"Deserialize","deserialize"), (ty,DE_T), (("jde",sh),), {"sp":"","k":"call","t":0}, None)
for n in []:
    print("==",n)
    try:
        for st,k,v in serial(State(),("sym","x"),T(n)): print(k,show(v)[:250])
    except Limit as x: print("LIMIT",x)
def jo(**k): return ("jobj",tuple(k.items()))
V=("jstr",("str","2.0")); idn=("jnum",("sym","n")); A=lambda n:("jany",("sym",n))
m=("jstr",("sym","method"))
for n,sh in [("Id",NULL),("Id",idn),("Id",("jstr",("sym","s"))),("Id",A("id")),("Version",V),("error::ErrorCode",idn),("error::Error",jo(code=idn,message=m)),("error::Error",jo(code=idn,message=m,data=A("d"))),("error::Error",jo(code=idn,message=m,x=A("d"))),
  ("request::Request",jo(jsonrpc=V,method=m)),("request::Request",jo(id=idn,params=A("p"),jsonrpc=V,method=m)),("request::Request",jo(id=idn,params=A("p"),method=m)),
  ("response::Response",jo(jsonrpc=V,id=idn,result=A("r"))),("response::Response",jo(jsonrpc=V,id=idn,result=NULL)),("response::Response",jo(jsonrpc=V,id=idn,error=jo(code=idn,message=m))),("response::Response",jo(jsonrpc=V,id=idn)),
  ("Message",jo(jsonrpc=V,id=idn,result=A("r"))),("Message",jo(jsonrpc=V,id=idn,method=m)),("Message",jo(jsonrpc=("jstr",("sym","v")),id=idn,method=m)),("Message",A("x"))]:
    print("==",n,show(sh)[:150])
    try:
        for st,k,v in decode(State(),sh,T(n)): print("  ",k,show(v)[:250])
    except Limit as x: print("  LIMIT",x)
print("=====")
for st,k,v in serial(State(),("sym","x"),T("request::Request"))[:3]:
    print(show(v)); print(st.facts)
for st,k,v in decode(State(),jo(jsonrpc=("jstr",("sym","v")),id=idn,method=m),T("Message")):
    print(show(v)[:100]); print(st.facts)
