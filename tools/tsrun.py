"""Runs the TypeScript evaluation of the jobs the explorer wrote, one node process per job file."""
import json, os, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor

# seconds for all jobs of a file, and for a single one when that was not enough
ALL, ONE = {'quick': 470, 'thorough': 6 * 3600}, 50


def find_node():
    node = shutil.which('node')
    for p in ('/usr/local/bin/node', '/usr/bin/node', '/opt/veriftools/node/bin/node'):
        if not node and os.path.exists(p):
            node = p
    return node


def run(verif, repo, scratch, job_files, tier, conf, die):
    node = find_node()
    if not node:
        die('no node')

    def cmd(f, out):
        return [node, '--stack-size=3000', '--max-old-space-size=3000', os.path.join(verif, 'tools', 'ts_eval.js'), repo, f, out]

    t0 = time.time()
    procs = []
    for f in job_files:
        out = f + '.res'
        procs.append((subprocess.Popen(cmd(f, out), stdout=subprocess.DEVNULL, stderr=open(f + '.nerr', 'w'), cwd=scratch, preexec_fn=_stack), f, out))
    results, stuck = [], []
    for p, f, out in procs:
        try:
            rc = p.wait(max(1, ALL[tier] - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = 'time'
        if rc == 0 and os.path.exists(out):
            results.append(json.load(open(out)))
            continue
        err = open(f + '.nerr', errors='replace').read()[-3000:]
        lines = [int(x) for x in open(out + '.progress').read().split(',')] if os.path.exists(out + '.progress') else []
        if rc in (1, 98) or not lines:
            print(err)
            die('the TypeScript evaluation of %s ends with %s' % (f, rc))
        stuck += [(f, n) for n in lines]

    # the compiler did not return, or ended its process: which case is it
    def single(x):
        f, n = x
        out = '%s.%d.res' % (f, n)
        try:
            rc = subprocess.run(cmd(f, out), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=scratch, preexec_fn=_stack, env=dict(os.environ, ONLY=str(n)), timeout=ONE).returncode
        except subprocess.TimeoutExpired:
            rc = 'time'
        return x, rc

    found = []
    with ThreadPoolExecutor(8) as ex:
        for (f, n), rc in ex.map(single, stuck[:64]):
            if rc != 0:
                with open(f) as fh:
                    j = json.loads(fh.read().split('\n')[n - 1])
                what = 'the compiler does not come to an end' if rc == 'time' else 'the compiler ends its process'
                found.append({'idx': j['idx'], 'key': '%s | %s' % (j['label'], what), 'detail': j.get('text', '')[:1000]})
    if stuck and not found:
        die('the TypeScript evaluation takes too long')
    tot = {'cases': len(found), 'evaluations': 0, 'states': 0, 'transitions': 0, 'traces': 0, 'nviol': len(found), 'hist': {}, 'families': {}, 'samples': {}, 'violations': found}
    for d in results:
        for k in ('cases', 'evaluations', 'states', 'transitions', 'traces', 'nviol'):
            tot[k] += d[k]
        for k in ('hist', 'families'):
            for a, b in d[k].items():
                tot[k][a] = tot[k].get(a, 0) + b
        for a, b in d['samples'].items():
            tot['samples'][a] = (tot['samples'].get(a, []) + b)[:2]
        tot['violations'] += d['violations']
    return tot, set()


def _stack():
    import resource
    try:
        soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
        want = 64 << 20
        if hard != resource.RLIM_INFINITY:
            want = min(want, hard)
        resource.setrlimit(resource.RLIMIT_STACK, (want, hard))
    except (ValueError, OSError):
        pass
