#!/usr/bin/env python3
"""Mutants of /repo used to test the checks (see DESIGN.md). Not used by any check.
usage: mutants.py run WORKERS [NAME...] | diff NAME
Each mutant is applied in a scratch copy, must compile and pass the baseline tests, then the survey and the quick
check of its property are run against it. Results: /tmp/mut/res/NAME.json
"""
import sys, os, subprocess, json, re, shutil, threading, queue
C='yamux/src/connection.rs'; S='yamux/src/connection/stream.rs'; F='yamux/src/connection/stream/flow_control.rs'
K='yamux/src/chunks.rs'; IO='yamux/src/frame/io.rs'; H='yamux/src/frame/header.rs'; R='yamux/src/connection/rtt.rs'
CL='yamux/src/connection/closing.rs'; CU='yamux/src/connection/cleanup.rs'; FR='yamux/src/frame.rs'; L='yamux/src/lib.rs'; T='yamux/src/tagged_stream.rs'
M={}
def m(name, prop, *edits):
    assert name not in M, name
    M[name]=(prop, edits)
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'mutant_list.py')).read())

BASE=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def sh(cmd, cwd=None, timeout=900, env=None):
    e=dict(os.environ); e.update(env or {})
    try:
        p=subprocess.run(cmd,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout,env=e)
        return p.returncode,p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as x:
        return 124,(x.stdout or b'').decode(errors='replace')
def prep(w):
    d=f'/tmp/mut/{w}'
    os.makedirs(d,exist_ok=True)
    sh(f'rsync -a --delete --exclude target /repo/ {d}/repo/ || (mkdir -p {d}/repo && cp -a /repo/. {d}/repo/)')
    if not os.path.exists(f'{d}/repo/target'): sh(f'cp -a /repo/target {d}/repo/target')
    os.makedirs(f'{d}/verif',exist_ok=True)
    sh(f'rm -rf {d}/verif/harness/src {d}/verif/harness/miri; mkdir -p {d}/verif/harness; cp -a /verif/harness/src /verif/harness/miri /verif/harness/Cargo.* /verif/harness/*.sh {d}/verif/harness/; cp -a /verif/check.sh /verif/known_findings.txt {d}/verif/')
    sh(f'grep -rl /repo/yamux {d}/verif --include=Cargo.toml --include=*.sh | xargs sed -i "s#/repo/yamux#{d}/repo/yamux#g"')
    if not os.path.exists(f'{d}/verif/harness/target/chk'): sh(f'mkdir -p {d}/verif/harness/target; cp -a /verif/harness/target/chk {d}/verif/harness/target/')
    return d
def apply(d,name):
    sh('git checkout -q -- .',cwd=f'{d}/repo')
    for (f,a,b) in M[name][1]:
        if f=='revert':
            rc,o=sh(f'git -C /repo show {a} -- yamux/src | git apply -R -3 && git reset -q',cwd=f'{d}/repo')
            if rc: return o
            continue
        p=f'{d}/repo/{f}'; s=open(p).read()
        if s.count(a)!=1: return f'{f}: {s.count(a)} matches for {a[:60]!r}'
        open(p,'w').write(s.replace(a,b))
    return None
def baseline(d):
    rc,o=sh('cargo nextest run --workspace --all-features --offline --no-fail-fast --test-threads 8 --tool-config-file vp:/opt/vp/nextest.toml --profile vp --no-tests=warn',cwd=f'{d}/repo',env={'CARGO_TARGET_DIR':f'{d}/repo/target','CARGO_INCREMENTAL':'1','CARGO_PROFILE_DEV_DEBUG':'line-tables-only','CARGO_TERM_COLOR':'never','CARGO_NET_OFFLINE':'true'},timeout=400)
    fails=sorted(set(re.findall(r'(?:FAIL|TIMEOUT|SIGABRT|SIGSEGV)\s*\[[^\]]*\]\s*(?:\([^)]*\))?\s*(\S+ \S+)',o)))
    if 'error' in o and 'could not compile' in o: return 'COMPILE '+'\n'.join(l for l in o.splitlines() if l.startswith('error'))[:300]
    if rc!=0: return 'TESTS '+str(fails)+o[-200:] if not fails else 'TESTS '+str(fails)
    return None
def survey(d,thr,scale=None):
    rc,o=sh('cargo build --offline --profile chk --bin yv --features hooks 2>&1 | tail -5; YV_DIR=/tmp/mut/ev timeout 600 ./target/chk/yv check ALL --seed 1 --evidence 0 --budget 60 --scale 0.4 --threads %d'%thr,cwd=f'{d}/verif/harness',env={'RUSTFLAGS':'--cfg yamux_verif','YV_FAM':''},timeout=700)
    return rc,o
def one(d,name,thr):
    r={'name':name,'prop':M[name][0]}
    e=apply(d,name)
    if e: r['err']=e; return r
    sh('git diff > ../%s.diff'%name,cwd=f'{d}/repo'); 
    r['base']=baseline(d)
    if r['base'] and r['base'].startswith('COMPILE'): return r
    rc,o=survey(d,thr)
    props={}
    for l in o.splitlines():
        mm=re.match(r'note \(other properties\): (\d+)x? ?\[([^\]]*)\] ?(.*)',l)
        if mm:
            for p in re.findall(r'C\d\d|\*',mm.group(2)): props[p]=props.get(p,0)+int(mm.group(1))
    r['survey']=props; r['sv_tail']=[l[:260] for l in o.splitlines()[-14:]]
    p=M[name][0]
    rc,o=sh(f'YV_DIR={d}/verif VERIF_SEED=1 ./check.sh {p} quick',cwd=f'{d}/verif',timeout=900)
    r['rc']=rc; r['out']=[l[:300] for l in o.splitlines() if 'VIOLATION' in l][:3]
    sh('git checkout -q -- .',cwd=f'{d}/repo')
    return r
if __name__=='__main__':
    if sys.argv[1]=='run':
        n=int(sys.argv[2]); names=sys.argv[3:] or [x for x in M if not os.path.exists(f'/tmp/mut/res/{x}.json')]
        os.makedirs('/tmp/mut/res',exist_ok=True); os.makedirs('/tmp/mut/ev',exist_ok=True)
        q=queue.Queue(); [q.put(x) for x in names]
        def work(i):
            d=prep(f'w{i}')
            while True:
                try: x=q.get_nowait()
                except queue.Empty: return
                try: r=one(d,x,max(2,8//n))
                except Exception as ex: r={'name':x,'err':repr(ex)}
                json.dump(r,open(f'/tmp/mut/res/{x}.json','w'),indent=1)
                print(x,r.get('prop'),'ERR '+r['err'] if 'err' in r else '', 'base:',r.get('base'),'rc:',r.get('rc'),'survey:',r.get('survey'),flush=True)
        ts=[threading.Thread(target=work,args=(i,)) for i in range(n)]
        [t.start() for t in ts]; [t.join() for t in ts]
    elif sys.argv[1]=='diff':
        d=prep('wd'); print(apply(d,sys.argv[2])); print(sh('git diff',cwd=d+'/repo')[1])
