import json,os,subprocess,sys,threading,queue,shutil,random
env=dict(os.environ,HOME='/root',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'])
ms=json.load(open('muts.json'))
N=int(sys.argv[1]); B=sys.argv[2]
SERVE='P27 P12 P17 P05 P14 P08 P13 P11 P10 P15 P06 P07 P28'.split()
API='P24 P22 P29 P20 P21 P16 P28 P26 P19 P25 P23 P15'.split()
def checks(m):
    f=m['File']; fn=m['Func']
    if f=='template.go': return 'P01 P02 P03 P04 P22 P23'.split()
    if f=='config.go': return 'P24 P11 P12'.split()
    if f=='errors.go': return ['P20']
    if f=='requesthandler.go': return 'P09 P25 P28 P26 P16 P15 P13 P08 P21'.split()
    if f=='middleware.go': return 'P26 P17 P16'.split()
    if f=='utils.go': return 'P27 P12 P26 P13 P14 P29 P22 P23 P21 P17'.split()
    if fn in ('handleOrPassRequest','passRequest','handleRequest','ServeHTTP','nextPathSegment','canHandleRequest','redirectAnyRequestTo'): return SERVE
    return API
st={json.loads(l)['i'] for l in open('s1.jsonl') if json.loads(l)['r']=='pass'}
done=set()
if os.path.exists('s2.jsonl'): done={json.loads(l)['i'] for l in open('s2.jsonl')}
q=queue.Queue()
for i in sorted(st-done): q.put(i)
print(q.qsize())
lock=threading.Lock(); out=open('s2.jsonl','a')
def w(k):
    d='/tmp/mu/c%d'%k; shutil.rmtree(d,ignore_errors=True); os.makedirs(d+'/v/evidence'); os.makedirs(d+'/w')
    subprocess.run(['cp','-a','/repo',d+'/repo']); shutil.copytree('/verif/mc',d+'/mc')
    g=open(d+'/mc/go.mod').read().replace('=> /repo','=> '+d+'/repo'); open(d+'/mc/go.mod','w').write(g)
    shutil.copy('/verif/known-findings.txt',d+'/v/')
    e=dict(env,NM_VERIF=d+'/v',NM_WORK=d+'/w',NM_MC=d+'/mc',NM_REPO=d+'/repo',NM_SIZES='0',VERIF_SEED='1',VERIF_TIER='quick')
    while True:
        try: i=q.get_nowait()
        except queue.Empty: return
        m=ms[i]; p=d+'/repo/'+m['File']; src=open('/repo/'+m['File'],'rb').read()
        open(p,'wb').write(src[:m['From']]+m['New'].encode()+src[m['To']:])
        r=subprocess.run('go build -o %s/w/nmcheck .'%d,cwd=d+'/mc',shell=True,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
        res='missed'
        if r.returncode: res='build'
        else:
            for c in checks(m):
                try: r=subprocess.run('%s/w/nmcheck -prop %s -workers 2 -budget %s'%(d,c,B),cwd=d,shell=True,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=200)
                except subprocess.TimeoutExpired: res='timeout '+c; break
                if r.returncode==1 and b'VIOLATION' in r.stdout: res=c; break
                if r.returncode not in (0,1): res='odd %s %d'%(c,r.returncode); break
        open(p,'wb').write(src)
        with lock: out.write(json.dumps({'i':i,'r':res})+'\n'); out.flush()
ts=[threading.Thread(target=w,args=(k,)) for k in range(N)]
[t.start() for t in ts]; [t.join() for t in ts]
