import json,os,subprocess,sys,threading,queue,signal
env=dict(os.environ,HOME='/root',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOMAXPROCS='2')
ms=json.load(open('muts.json'))
N=int(sys.argv[1])
q=queue.Queue()
done={}
if os.path.exists('s1.jsonl'):
    for l in open('s1.jsonl'):
        d=json.loads(l); done[d['i']]=1
import random
idx=list(range(len(ms))); random.Random(1).shuffle(idx)
for i in idx:
    if i not in done and ms[i]['File'] not in ('errors.go','doc.go'): q.put(i)
lock=threading.Lock(); out=open('s1.jsonl','a')
def w(k):
    d='/tmp/mu/w%d'%k
    if not os.path.exists(d): subprocess.run(['cp','-a','/repo',d])
    while True:
        try: i=q.get_nowait()
        except queue.Empty: return
        m=ms[i]; p=d+'/'+m['File']; src=open('/repo/'+m['File'],'rb').read()
        assert src[m['From']:m['To']].decode()==m['Old']
        open(p,'wb').write(src[:m['From']]+m['New'].encode()+src[m['To']:])
        pr=subprocess.Popen('go build . && ulimit -v 8000000; go test -vet=off -count=1 -timeout 25s . ',cwd=d,shell=True,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,start_new_session=True)
        try:
            o,_=pr.communicate(timeout=60); rc=pr.returncode
        except subprocess.TimeoutExpired:
            os.killpg(pr.pid,signal.SIGKILL); pr.communicate(); rc=98; o=b''
        open(p,'wb').write(src)
        r='pass' if rc==0 else 'build' if b'build failed' in o else 'fail'
        with lock: out.write(json.dumps({'i':i,'r':r})+'\n'); out.flush()
ts=[threading.Thread(target=w,args=(k,)) for k in range(N)]
[t.start() for t in ts]; [t.join() for t in ts]
