import json,os,subprocess,sys,time,shutil,threading,queue,random
W=int(sys.argv[1]); OUT=sys.argv[2]; SEL=sys.argv[3]
muts=json.load(open('/tmp/mutants.json'))
byid={m['ID']:m for m in muts}
sel=json.load(open(SEL))
done={}
if os.path.exists(OUT):
    for l in open(OUT):
        d=json.loads(l); done[d['ID']]=d
ch={
'table.go':'C03 C05 C04 C19 C02 C11 C14 C07 C09 C12 C06 C01 C18 C16 C10 C08',
'query.go':'C04 C18 C05 C12 C11 C06 C09',
'index.go':'C03 C04 C05 C14 C18 C11 C12 C19',
'iter.go':'C05 C04 C11 C03 C18 C06 C12',
'bond.go':'C10 C15 C01 C02 C08 C11 C07 C05 C04',
'batch.go':'C08 C07 C17 C02 C13 C05 C11',
'sync.go':'C17 C08','context.go':'C17 C07',
'filter.go':'C09 C11 C05','bloom/bloom_filter.go':'C09 C11 C05','filters/filter_fs_storer.go':'C09 C11',
'helpers.go':'C13 C08','keys.go':'C03 C04 C14 C10 C18 C05',
'options.go':'C15 C01 C03 C05 C02 C10 C11','version.go':'C15 C10',
'selector.go':'C04 C03 C18','serializer.go':'C04 C03',
'table_unsafe.go':'C02 C19 C03 C07 C12 C01 C09','table_utils.go':'C03 C05 C12 C11 C16',
}
def chain(f):
    if f.startswith('inspect'): return 'C16 C11 C12'
    if f.startswith('serial'): return 'C04 C19 C06 C03'
    if f.startswith('utils'): return 'C04 C06 C03 C05 C09 C19 C16'
    return ch[f]
q=queue.Queue()
for i in sel:
    if i not in done: q.put(i)
lock=threading.Lock()
out=open(OUT,'a')
env=dict(os.environ)
def sh(c,t):
    p=subprocess.Popen(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,start_new_session=True)
    try:
        o,_=p.communicate(timeout=t)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); o,_=p.communicate(); return 124,o.decode(errors='replace')
    return p.returncode,o.decode(errors='replace')
def work(n):
    R=f'/tmp/mw/{n}'
    if not os.path.exists(R):
        os.makedirs('/tmp/mw',exist_ok=True); subprocess.run(['cp','-a','/repo',R]); subprocess.run(['rm','-rf',R+'/.git'])
    while True:
        try: i=q.get_nowait()
        except queue.Empty: return
        m=byid[i]; src=open('/repo/'+m['File'],'rb').read()
        new=src[:m['From']]+m['New'].encode()+src[m['To']:]
        open(R+'/'+m['File'],'wb').write(new)
        t0=time.time()
        rc,o=sh(f'bash /tmp/mw/b2.sh {R} /tmp/mw/bin{n}',300)
        res={'ID':i,'File':m['File'],'Line':m['Line'],'Func':m['Func'],'Kind':m['Kind'],'Old':m['Old'][:80],'New':m['New'][:80]}
        if rc!=0: res['r']='nobuild'
        else:
            res['r']='SURVIVED'; noans=[]
            for p in chain(m['File']).split():
                rc,o=sh(f'/tmp/mw/orch -bin /tmp/mw/bin{n} -prop {p} -budget 12s -j 1 -nomin -replays /tmp/mw/rp -watchdog 20s -known /verif/known_findings.txt',120)
                if rc==1 and 'VIOLATION' in o:
                    res['r']='killed'; res['by']=p; res['msg']=o.strip()[-300:]; break
                if rc!=0: noans.append((p,rc,o[-300:]))
            if noans: res['noans']=noans[:2]
        res['t']=round(time.time()-t0)
        open(R+'/'+m['File'],'wb').write(src)
        with lock:
            out.write(json.dumps(res)+'\n'); out.flush()
th=[threading.Thread(target=work,args=(n,)) for n in range(W)]
[t.start() for t in th]; [t.join() for t in th]
