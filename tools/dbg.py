import sys; sys.path.insert(0,'/verif'); 
import asyncio, json
import checks.c13_server_lost as m
c=json.load(open(sys.argv[1])); c=c.get('case',c)
orig=asyncio.wait
async def w(ts,timeout=None,**k):
    r=await orig(ts,timeout=min(timeout or 99,3),**k)
    if r[1]:
        for t in asyncio.all_tasks():
            print('-----'); t.print_stack(limit=8,file=sys.stdout)
    return r
m.asyncio.wait=w
try: m.scripted_run(c)
except BaseException as e: print(repr(e)[:300])
