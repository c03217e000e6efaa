#!/usr/bin/env python3
"""Systematic small mutations of every line of /repo/yamux/src (comparison, arithmetic, constants, conditions, deleted
statements). Development aid, used by no check.  automut.py list | run WORKERS [FROM TO]
Each must compile; a short survey of all families (stops at the first finding) runs against it. Survivors are then
judged by hand: equivalent, or a gap. Results: /tmp/am/res.txt
"""
import sys, os, re, subprocess, threading, queue, glob
SRC='/repo/yamux/src'
FILES=['chunks.rs','connection.rs','connection/cleanup.rs','connection/closing.rs','connection/rtt.rs','connection/stream.rs','connection/stream/flow_control.rs','frame.rs','frame/header.rs','frame/io.rs','lib.rs','tagged_stream.rs','error.rs']
OPS=[(' == ',' != '),(' != ',' == '),(' <= ',' < '),(' >= ',' > '),(' < ',' <= '),(' > ',' >= '),(' && ',' || '),(' || ',' && '),
 (' + ',' - '),(' - ',' + '),(' += ',' -= '),(' -= ',' += '),(' * 2',' * 4'),(' / 2',' / 4'),(' * ',' + '),('saturating_sub','wrapping_sub'),('saturating_add','wrapping_add'),
 ('true','false'),('false','true'),('Some(','None.or(Some('),('.is_some()','.is_none()'),('.is_none()','.is_some()'),('.is_empty()','.is_empty() == false'),
 ('min(','max('),('max(','min('),('push_back','push_front'),('pop_front','pop_back'),('continue;','break;'),('break;','continue;'),('.take()','.clone()'),
 ('is_ready()','is_pending()'),('is_pending()','is_ready()'),('Flag::Syn','Flag::None'),('Flag::Ack','Flag::None'),('fin()','rst()'),('rst()','fin()'),
 ('State::RecvClosed','State::SendClosed'),('State::SendClosed','State::RecvClosed'),('State::Closed','State::RecvClosed'),
 ('acknowledged: true','acknowledged: false'),('acknowledged: false','acknowledged: true'),('Poll::Pending => {}','Poll::Pending => return Poll::Pending,'),('SYN','ACK'),('ACK','SYN'),('FIN','RST'),('RST','FIN'),
 ('Ok(0)','Err(io::ErrorKind::Other.into())'),('if ','if !'),('Mode::Client','Mode::Server'),('Mode::Server','Mode::Client')]
def gen():
    out=[]
    for f in FILES:
        lines=open(f'{SRC}/{f}').read().split('\n')
        test=False; inlog=0
        for i,l in enumerate(lines):
            if '#[cfg(test)]' in l: test=True
            if test: continue
            s=l.strip()
            if s.startswith('//') or s.startswith('#') or s.startswith('use ') or s.startswith('pub use') or 'log::' in s or s.startswith('"') or 'debug_struct' in s or 'write!(f' in s or s.startswith('.field'): continue
            code=l.split('//')[0]
            for a,b in OPS:
                start=0
                while True:
                    k=code.find(a,start)
                    if k<0: break
                    start=k+len(a)
                    if a=='if ' and ('if let' in code[k:k+7] or (k>0 and code[k-1].isalnum())): continue
                    if a=='if ':
                        m=re.match(r'if (.*) \{$',code[k:].rstrip())
                        if not m: continue
                        n=code[:k]+f'if !({m.group(1)}) {{'
                    elif a=='Some(':
                        continue
                    elif a in('SYN','ACK','FIN','RST') and ((k>0 and (code[k-1].isalnum() or code[k-1]=='_')) or (k+3<len(code) and (code[k+3].isalnum() or code[k+3]=='_'))): continue
                    else: n=code[:k]+b+code[k+len(a):]
                    out.append((f,i,l,n,a.strip()))
            for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])',code):
                if int(m.group(1))<1000: out.append((f,i,l,code[:m.start()]+str(int(m.group(1))+1)+code[m.end():],'num'))
            # statement deletion: a line that is a whole statement
            if s.endswith(';') and not s.startswith(('let ','return','break','continue','}',')','pub ','type ','const ','mod ','fn ','.','type')) and s.count('(')==s.count(')') and s.count('{')==s.count('}'):
                prev=lines[i-1].strip() if i else ''
                if prev.endswith(('{','}',';',',')) or prev=='' or prev.startswith('//'):
                    out.append((f,i,l,re.match(r'\s*',l).group(0)+'{}','del'))
            if s.startswith('return ') and s.endswith(';'):
                out.append((f,i,l,re.match(r'\s*',l).group(0)+'{}','delret'))
    return out
def sh(cmd,cwd=None,timeout=300,env=None):
    e=dict(os.environ); e.update(env or {})
    p=subprocess.Popen(cmd,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=e,start_new_session=True)
    try:
        o,_=p.communicate(timeout=timeout); return p.returncode,o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); o,_=p.communicate(); return 124,o.decode(errors='replace')
def prep(w):
    d=f'/tmp/am/{w}'; os.makedirs(d+'/verif/harness',exist_ok=True)
    sh(f'rm -rf {d}/repo {d}/verif/harness/src; git clone -q /repo {d}/repo; cp -a /verif/harness/src /verif/harness/Cargo.* {d}/verif/harness/; cp /verif/known_findings.txt {d}/verif/')
    sh(f'sed -i "s#/repo/yamux#{d}/repo/yamux#g" {d}/verif/harness/Cargo.toml')
    if not os.path.exists(d+'/verif/harness/target'): sh(f'mkdir -p {d}/verif/harness/target; cp -a /verif/harness/target/chk {d}/verif/harness/target/')
    return d
def one(d,k,mu,scale='0.15',budget=100,limit=250):
    f,i,l,n,op=mu
    p=f'{d}/repo/yamux/src/{f}'; src=open(f'{SRC}/{f}').read().split('\n'); assert src[i]==l
    src[i]=n; open(p,'w').write('\n'.join(src))
    rc,o=sh('cargo build --offline --profile chk --bin yv --features hooks',cwd=d+'/verif/harness',env={'RUSTFLAGS':'--cfg yamux_verif'})
    if rc: res='nobuild'
    else:
        rc,o=sh('./target/chk/yv check ALL --seed 1 --evidence 0 --budget %d --scale %s --threads 3 --first 1'%(budget,scale),cwd=d+'/verif/harness',timeout=limit,env={'YV_DIR':d+'/verif','YV_FAM':''})
        props=sorted(set(re.findall(r'C\d\d|"\*"',' '.join(x for x in o.splitlines() if x.startswith('note (other')))))
        res='SURVIVED' if rc==0 and not props else f'caught rc={rc} {" ".join(props)}'
        if rc==124: res='timeout'
        if rc not in(0,1,124): res+=' ?? '+o[-200:].replace('\n',' ')
    sh('git checkout -q -- .',cwd=d+'/repo')
    return res
if __name__=='__main__':
    M=gen()
    if sys.argv[1]=='list':
        print(len(M)); sys.exit()
    os.makedirs('/tmp/am',exist_ok=True)
    done=set()
    if os.path.exists('/tmp/am/res.txt'): done={int(x.split('\t')[0]) for x in open('/tmp/am/res.txt')}
    a,b=(int(sys.argv[3]),int(sys.argv[4])) if sys.argv[1]=='run' and len(sys.argv)>4 else (0,len(M))
    ks=[k for k in range(a,b) if k not in done]; out='/tmp/am/res.txt'; opts={}
    if sys.argv[1]=='rerun': # the survivors, with more cases
        surv=[int(x.split('\t')[0]) for x in open(out) if 'SURVIVED' in x]
        out='/tmp/am/res2.txt'; done={int(x.split('\t')[0]) for x in open(out)} if os.path.exists(out) else set()
        only=set(map(int,sys.argv[3:])); ks=[k for k in surv if k not in done and (not only or k in only)]; opts=dict(scale='2',budget=200,limit=400)
    q=queue.Queue(); [q.put(k) for k in ks]
    lock=threading.Lock()
    def work(w):
        d=prep(w)
        while True:
            try: k=q.get_nowait()
            except queue.Empty: return
            try: r=one(d,k,M[k],**opts)
            except Exception as e: r='ERR '+repr(e)
            with lock: open(out,'a').write(f'{k}\t{M[k][0]}:{M[k][1]+1}\t{M[k][4]}\t{r}\t{M[k][3].strip()[:110]}\n')
    ts=[threading.Thread(target=work,args=(f'w{i}',)) for i in range(int(sys.argv[2]))]
    [t.start() for t in ts]; [t.join() for t in ts]
