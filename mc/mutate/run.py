#!/usr/bin/env python3
"""Development aid: run the checks against single-site mutants of /repo.

usage: run.py MUTANTS.jsonl RESULTS.jsonl [lanes]
Every mutant is built in a scratch copy; the properties mapped to its file are
checked in turn until one reports a violation. Survivors are for a human to read.
"""
import json, os, subprocess, sys, shutil, threading, queue, re

MAP = {
 'misc/beancode.go': 'C01 C02 C28 C04', 'misc/types.go': 'C03 C04 C28', 'misc/errors.go': 'C03 C04 C28',
 'dht/krpc/server.go': 'C04 C06 C05 C11 C09 C07', 'dht/krpc/udp.go': 'C11 C09 C05 C06',
 'dht/krpc/messages.go': 'C12 C04 C06', 'dht/krpc/middleware.go': 'C07 C04',
 'dht/requesthandler.go': 'C04 C16 C27', 'dht/resphandler.go': 'C15 C05', 'dht/dht.go': 'C15 C04 C16',
 'dht/messgaes.go': 'C12 C04', 'dht/node.go': 'C12 C08 C13 C15 C04', 'dht/routetable.go': 'C13 C15 C14',
 'dht/fetchtorrent.go': 'C16 C17 C05', 'dht/peerwire/bep9.go': 'C18 C19 C21 C20', 'dht/peerwire/bep3.go': 'C21 C18 C19 C20',
 'dht/peerwire/bep10.go': 'C21 C18 C19', 'dht/peerwire/peer.go': 'C18 C19 C20', 'misc/bytespool.go': 'C10 C09',
 'misc/syncmap.go': 'C24 C06', 'misc/workpool.go': 'C22 C05 C16', 'misc/shutdown.go': 'C23', 'misc/zap.go': 'C27',
 'misc/logger.go': 'C25', 'misc/strings.go': 'C25 C03', 'misc/file.go': 'C28 C17', 'misc/bits.go': 'C13',
 'config/config.go': 'C26', 'cmd/root.go': 'C29 C26', 'cmd/torrent.go': 'C28',
}
MC = os.environ.get('MC', '/verif/mc')
ENV = '. /opt/vp/env.sh >/dev/null 2>&1; '
def sh(c, cwd=None, t=900, env=None):
    try:
        p = subprocess.run(['bash', '-c', c], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=dict(os.environ, **(env or {})))
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        return 124, 'timeout'

lock = threading.Lock()
def work(q, out, lane):
    base = f'/tmp/mut.{lane}'
    while True:
        try: i, m = q.get_nowait()
        except queue.Empty: return
        r = dict(m, i=i)
        shutil.rmtree(base, ignore_errors=True); os.makedirs(base + '/out/cwd')
        sh(f'cp -a /repo {base}/r')
        p = f'{base}/r/{m["file"]}'; b = open(p, 'rb').read()
        b = b[:m['off']] + m['new'].encode() + b[m['off'] + m['len']:]
        open(p, 'wb').write(b)
        rc, o = sh(ENV + 'go build ./...', base + '/r', 200)
        if rc: r['res'] = 'nocompile'
        else:
            rc, o = sh(f'bash {MC}/build.sh {base}/out plain', env={'VMC_REPO': base + '/r'})
            rc2 = 0; open(f'{base}/out/vmc-race.ok', 'w').close()
            if rc == 0: rc2, o2 = sh(f'bash {MC}/build.sh {base}/out race', env={'VMC_REPO': base + '/r'})
            if rc or rc2: r['res'] = 'buildfail'; r['log'] = o[-500:]
            else:
                r['res'] = 'survived'; r['notes'] = []
                for prop in MAP.get(m['file'], '').split():
                    rc, o = sh(f'{base}/out/vmc check {prop} --race {base}/out/vmc-race --scratch {base}/out --out {base}/ev --limit 60s --known /verif/known_findings.json', base + '/out/cwd')
                    if f'VIOLATION property={prop}' in o:
                        r['res'] = 'killed ' + prop; break
                    if rc: r['notes'].append((prop, rc, o[-400:]))
        with lock:
            out.write(json.dumps(r) + '\n'); out.flush()
    
def main():
    ms = [json.loads(l) for l in open(sys.argv[1])]
    done = set()
    if os.path.exists(sys.argv[2]):
        done = {json.loads(l)['i'] for l in open(sys.argv[2])}
    q = queue.Queue()
    for i, m in enumerate(ms):
        if i not in done: q.put((i, m))
    out = open(sys.argv[2], 'a')
    lanes = int(sys.argv[3]) if len(sys.argv) > 3 else 3
    ts = [threading.Thread(target=work, args=(q, out, k)) for k in range(lanes)]
    [t.start() for t in ts]; [t.join() for t in ts]
    for k in range(lanes): shutil.rmtree(f'/tmp/mut.{k}', ignore_errors=True)
main()
