#!/usr/bin/env python3
"""check.py ID            run the check of one property (VERIF_SEED, VERIF_TIER)
   check.py --replay FILE  run again the scenario that reported FILE

Builds the harness against /repo's current working tree, runs its scenarios,
merges what they observed into evidence/ID.json and reports violations."""
import concurrent.futures as cf
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
sys.path.insert(0, VERIF)
from registry import CHECKS  # noqa: E402

MOD = 'github.com/DanLavine/willow/'


def go_env():
    e = dict(os.environ)
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], capture_output=True).stdout.decode(errors='replace')
    for kv in out.split('\0'):
        k, _, v = kv.partition('=')
        if k in ('PATH', 'HOME') or k.startswith('GO'):
            e[k] = v
    e.setdefault('HOME', '/root')
    e['GOFLAGS'] = '-mod=readonly'
    return e


class Build:
    """Test binaries of the harness, by package and variant."""

    def __init__(self, tmp):
        self.tmp, self.env, self.done, self.overlays = tmp, go_env(), {}, {}

    def overlay(self, instrumented):
        if instrumented in self.overlays:
            return self.overlays[instrumented]
        rep = {}
        root = os.path.join(VERIF, 'harness')
        for d, _, fs in os.walk(root):
            for f in fs:
                if f.endswith('.go'):
                    p = os.path.join(d, f)
                    rep[os.path.join(REPO, 'internal/verif', os.path.relpath(p, root))] = p
        if instrumented:
            out = os.path.join(self.tmp, 'instr')
            os.makedirs(out)
            tool = os.path.join(self.tmp, 'instrtool')
            sh(['go', 'build', '-o', tool, '.'], cwd=os.path.join(VERIF, 'tools/instr'), env=self.env)
            files = []
            for top in ('internal', 'pkg/async', 'pkg/clients'):
                for d, _, fs in os.walk(os.path.join(REPO, top)):
                    if 'fakes' in d:
                        continue
                    files += [os.path.join(d, f) for f in fs if f.endswith('.go') and not f.endswith('_test.go')]
            for line in sh([tool, out] + sorted(files), env=self.env).splitlines():
                a, b = line.split('\t')
                rep[a] = b
        path = os.path.join(self.tmp, 'overlay%d.json' % instrumented)
        with open(path, 'w') as f:
            json.dump({'Replace': rep}, f)
        self.overlays[instrumented] = path
        return path

    def get(self, pkg, variant):
        key = (pkg, variant)
        if key not in self.done:
            out = os.path.join(self.tmp, 't_%s_%s' % (pkg.replace('/', '_'), variant))
            cmd = ['go', 'test', '-c', '-vet=off', '-overlay', self.overlay('sched' in variant), '-o', out]
            if 'race' in variant:
                cmd.append('-race')
            if 'cover' in variant:
                cmd += ['-cover', '-coverpkg=' + MOD + 'internal/...,' + MOD + 'pkg/...']
            sh(cmd + ['./internal/verif/' + pkg], cwd=REPO, env=self.env)
            self.done[key] = out
        return self.done[key]

    def binary(self, pkg):
        # 'race:PKG' is built with the race detector
        key = ('bin', pkg)
        if key not in self.done:
            race, path = pkg.startswith('race:'), pkg.split(':')[-1]
            out = os.path.join(self.tmp, 'bin_' + pkg.replace(':', '_').replace('/', '_'))
            sh(['go', 'build'] + (['-race'] if race else []) + ['-o', out, './' + path], cwd=REPO, env=self.env)
            self.done[key] = out
        return self.done[key]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode != 0:
        raise BuildError('%s\n%s%s' % (' '.join(cmd[:12]), p.stdout[-6000:], p.stderr[-6000:]))
    return p.stdout


def repo_site(block):
    """The first function of the repository in a stack, or '' (harness or other code first)."""
    for l in block.splitlines():
        l = l.strip()
        if l.startswith(MOD):
            if '/internal/verif/' in l:
                if 'vsched' in l:
                    continue
                return ''
            f = l[l.rindex('/') + 1:]
            i = f.rfind('(')
            return f[:i] if i > 0 else f
    return ''


def races(text):
    """Race reports: (key, report) for those whose both accesses are in the repository."""
    out = []
    for rep in re.findall(r'WARNING: DATA RACE\n(.*?)\n==================', text, re.S):
        parts = re.split(r'\n\n', rep)
        sites = []
        for p in parts[:2]:
            head = p.splitlines()[0]
            if not re.search(r'(?i)(read|write) at', head):
                continue
            sites.append(repo_site(p))
        key = '+'.join(sorted(set(s or '?' for s in sites)))
        out.append((key, any(sites), rep))
    return out


def run_one(job):
    """Runs one scenario process and returns what it said."""
    pid, run, exe, idx, seed, tier, tmp, env = job
    d = os.path.join(tmp, 'run%d' % idx)
    os.makedirs(d)
    outp = os.path.join(d, 'out.jsonl')
    e = dict(env)
    e.update({'VERIF_SEED': str(seed), 'VERIF_TIER': tier, 'VH_OUT': outp, 'VH_SHARD': str(run['shard']), 'VH_PROP': pid, 'TMPDIR': d,
              'GORACE': 'log_path=%s/race halt_on_error=0 exitcode=0 history_size=3' % d, 'GOTRACEBACK': 'all'})
    e.update(run.get('env', {}))
    timeout = run['timeout_thorough'] if tier == 'thorough' else run['timeout']
    t0 = time.time()
    with open(os.path.join(d, 'log'), 'wb') as log:
        try:
            p = subprocess.run([exe, '-test.run', '^' + run['test'] + '$', '-test.timeout', '0'], cwd=d, env=e, stdout=log, stderr=log, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 'timeout'
    text = open(os.path.join(d, 'log'), errors='replace').read()
    recs = []
    if os.path.exists(outp):
        for line in open(outp, errors='replace'):
            try:
                recs.append(json.loads(line))
            except ValueError:
                pass
    res = {'run': run, 'rc': rc, 'viol': [], 'inconclusive': [], 'sum': None, 'wall': time.time() - t0}
    for r in recs:
        if r['t'] == 'viol':
            res['viol'].append(r)
        elif r['t'] == 'inconclusive':
            res['inconclusive'].append(r['msg'] + ' | ' + str(r.get('context', '')))
        elif r['t'] == 'sum':
            res['sum'] = r
    rtext = ''.join(open(f, errors='replace').read() + '\n==================\n' for f in glob.glob(os.path.join(d, 'race.*')))
    for key, ours, rep in races(rtext):
        if ours:
            res['viol'].append({'key': 'race:' + key, 'msg': 'data race between ' + key, 'detail': rep.splitlines()[:80]})
        else:
            res['inconclusive'].append('race inside the harness: ' + rep[:1500])
    if res['sum'] is None or rc not in (0, 1, 3):
        # it did not get to its end: crash, exit or timeout
        m = re.search(r'^(panic: .*|fatal error: .*)$', text, re.M)
        if rc == 'timeout':
            if not res['viol']:
                res['inconclusive'].append('ran out of time (%ds)' % timeout)
        elif m:
            tail = text[m.start():]
            blocks = re.split(r'\n\n(?=goroutine )', tail)
            first = next((b for b in blocks if b.startswith('goroutine ')), tail)
            site = repo_site(first)
            if 'test timed out' in m.group(1):
                res['inconclusive'].append('test timed out')
            elif site or 'concurrent map' in m.group(1):
                res['viol'].append({'key': 'crash:' + site, 'msg': 'the process died: %s in %s' % (m.group(1)[:300], site), 'detail': tail.splitlines()[:120]})
            else:
                res['inconclusive'].append('harness crash: ' + tail[:3000])
        elif not res['viol']:
            if rc in (0, 1) and res['sum'] is None and run.get('exit_is_violation', True) and recs_started(text):
                res['viol'].append({'key': 'exit:' + run['test'], 'msg': 'the process exited (status %s) in the middle of the scenario' % rc, 'detail': text.splitlines()[-60:]})
            else:
                res['inconclusive'].append('ended with %s: %s' % (rc, text[-1500:]))
    res['log_tail'] = text[-2000:]
    shutil.rmtree(d, ignore_errors=True)
    return res


def recs_started(text):
    return 'VH-STARTED' in text


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        for f in json.load(open(p))['findings']:
            if f['property'] == pid:
                out.append(f)
    return out


def main():
    only = None
    seed = int(os.environ.get('VERIF_SEED') or 1)
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if sys.argv[1] == '--replay':
        rp = json.load(open(sys.argv[2]))
        pid, only, seed, tier = rp['property'], rp, rp['seed'], rp['tier']
    else:
        pid = sys.argv[1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    chk = CHECKS[pid]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif_')
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    if not only:
        for f in glob.glob(os.path.join(VERIF, 'evidence', 'replay', pid + '_*.json')):
            os.remove(f)
    status, results, error = 2, [], ''
    try:
        b = Build(tmp)
        jobs = []
        for run in chk['runs']:
            if only and run['test'] != only['test']:
                continue
            exe = b.get(run['pkg'], run['variant'])
            env = dict(b.env)
            for name, pkg in run.get('binaries', {}).items():
                env[name] = b.binary(pkg)
            for shard in range(run.get('shards_thorough', run['shards']) if tier == 'thorough' else run['shards']):
                if only and shard != only['shard']:
                    continue
                jobs.append((pid, dict(run, shard=shard), exe, len(jobs), seed, tier, tmp, env))
        tb = time.time() - t0
        with cf.ThreadPoolExecutor(max_workers=chk.get('parallel', 8)) as ex:
            results = list(ex.map(run_one, jobs))
    except BuildError as e:
        error = 'build failed: %s' % e
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if error:
        print(error)
        print('check %s: could not decide' % pid)
        sys.exit(2)

    known = known_findings(pid)
    seen, viols, printed = set(), [], set()
    for res in results:
        for v in res['viol']:
            k = v.get('key') or v['msg']
            f = next((f for f in known if re.fullmatch(f['key'], k) and (not f.get('msg') or re.search(f['msg'], v['msg']))), None)
            if f:
                if f['id'] not in printed:
                    printed.add(f['id'])
                    print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
                continue
            if k in seen:
                continue
            seen.add(k)
            viols.append((res, v))
    for f in known:
        if f['id'] not in printed and f.get('always'):
            printed.add(f['id'])
            print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    inconcl = [i for res in results for i in res['inconclusive']]
    for n, (res, v) in enumerate(viols[:8]):
        rp = os.path.join(VERIF, 'evidence', 'replay', '%s_%d.json' % (pid, n))
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'test': res['run']['test'], 'shard': res['run']['shard'], 'pkg': res['run']['pkg'], 'variant': res['run']['variant'],
                       'seed': seed, 'tier': tier, 'key': v.get('key'), 'message': v['msg'], 'context': v.get('context'), 'detail': v.get('detail'),
                       'rerun': './check.py --replay ' + rp}, f, indent=1)
        print('%s: %s' % (res['run']['test'], v['msg'][:600]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    # evidence
    cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': '', 'samples': [], 'scenarios': []}
    rules = []
    for res in results:
        s = res['sum']
        if not s:
            cov['scenarios'].append({'scenario': res['run']['test'], 'shard': res['run']['shard'], 'unfinished': True})
            continue
        cov['evaluations'] += s['evals']
        cov['distinct_nontrivial'] += s['distinct']
        if res['run']['shard'] == 0:
            rules.append('%s: %s' % (s['scenario'], s['rule']))
            cov['samples'] += [{'scenario': s['scenario'], 'case': x} for x in (s['samples'] or [])][:3]
        cov['scenarios'].append({'scenario': s['scenario'], 'variant': res['run']['variant'], 'shard': res['run']['shard'], 'evaluations': s['evals'],
                                 'distinct_nontrivial': s['distinct'], 'observed': s['stats'], 'wall_s': round(res['wall'], 2)})
    cov['rule'] = ' || '.join(rules)
    if not cov['samples']:
        cov['samples'] = ['no case was completed']
    cov['build_s'] = round(tb, 1)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': chk['level'], 'coverage': cov, 'assumptions': chk.get('assumptions', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(viols)}
    if not only:
        tmpf = os.path.join(VERIF, 'evidence', pid + '.json.tmp')
        with open(tmpf, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmpf, os.path.join(VERIF, 'evidence', pid + '.json'))
    if viols:
        status = 1
    elif inconcl:
        for i in inconcl[:5]:
            print('INCONCLUSIVE:', i)
        status = 2
    else:
        status = 0
    print('check %s: %d evaluations, %d distinct non-trivial, %d violation(s), %.1fs (build %.1fs)' % (pid, cov['evaluations'], cov['distinct_nontrivial'], len(viols), time.time() - t0, tb))
    sys.exit(status)


if __name__ == '__main__':
    main()
