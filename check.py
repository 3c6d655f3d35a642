#!/usr/bin/env python3
"""Decides one property on /repo's current source.

  check.py <property> [--tier quick|thorough] [--seed N] [--repo DIR]

Proof leg: the functions of the property and everything they call (as far as it is under
contract) are extracted from the source into Verus and verified. Bounded leg: the harness
runs the compiled crate on generated inputs, to have a failing input to show and to stand in
for functions that could not be brought to the verifier.
"""
import argparse, hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(VERIF, '.build')
CONTRACTS = os.path.join(VERIF, 'contracts')
EVID = os.path.join(VERIF, 'evidence')
VERUS = '/opt/veriftools/verus/verus'


def env():
    e = dict(os.environ)
    try:
        out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], capture_output=True).stdout
        for kv in out.split(b'\0'):
            if b'=' in kv:
                k, v = kv.split(b'=', 1)
                e[k.decode()] = v.decode(errors='replace')
    except OSError:
        pass
    e['CARGO_NET_OFFLINE'] = 'true'
    return e


ENV = env()


def run(cmd, timeout=800, cwd=None, extra=None):
    e = dict(ENV)
    if extra:
        e.update(extra)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', cwd=cwd, env=e, start_new_session=True)
    try:
        o, er = p.communicate(timeout=timeout)
        return p.returncode, o, er
    except subprocess.TimeoutExpired:
        # the solver processes are children of the verifier
        os.killpg(p.pid, signal.SIGKILL)
        o, er = p.communicate()
        return 124, o or '', (er or '') + '\ntimeout'


def tree_hash(d):
    h = hashlib.sha256()
    for r, ds, fs in sorted(os.walk(d)):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(r, f)
            h.update(os.path.relpath(p, d).encode())
            with open(p, 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()


class Lock:
    def __enter__(self):
        import fcntl
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def build_xlate():
    c, o, e = run(['cargo', 'build', '--release', '--offline', '-q'], cwd=os.path.join(VERIF, 'xlate'), extra={'CARGO_TARGET_DIR': os.path.join(BUILD, 'xlate')})
    return os.path.join(BUILD, 'xlate', 'release', 'xlate') if c == 0 else None, e


def build_harness(repo):
    hd = os.path.join(VERIF, 'harness')
    if repo != '/repo':
        # another tree: a copy of the harness that depends on it
        hd2 = os.path.join(BUILD, 'harness_src_' + hashlib.sha256(repo.encode()).hexdigest()[:12])
        shutil.rmtree(hd2, ignore_errors=True)
        shutil.copytree(hd, hd2, ignore=shutil.ignore_patterns('target'))
        t = open(os.path.join(hd2, 'Cargo.toml')).read().replace('"/repo"', '"%s"' % repo)
        open(os.path.join(hd2, 'Cargo.toml'), 'w').write(t)
        hd = hd2
    tgt = os.path.join(BUILD, 'harness')
    x = {'CARGO_TARGET_DIR': tgt}
    stamp = os.path.join(BUILD, 'harness.hash')
    h = repo + tree_hash(os.path.join(repo, 'src'))
    old = open(stamp).read() if os.path.exists(stamp) else ''
    if old != h:
        run(['cargo', 'clean', '--release', '--offline', '-q', '-p', 'renplex'], cwd=hd, extra=x)
    c, o, e = run(['cargo', 'build', '--release', '--offline', '-q'], cwd=hd, extra=x)
    if c == 0:
        open(stamp, 'w').write(h)
        return os.path.join(tgt, 'release', 'bcheck'), e
    return None, e


class Verus:
    """One property's extraction and verification."""

    def __init__(self, xlate, repo, prop, own, work, upto='', files=()):
        self.upto, self.files = upto, files
        self.xlate, self.repo, self.prop, self.own, self.work = xlate, repo, prop, list(own), work
        self.demoted = {}

    def translate(self, out, verify, vac=()):
        rs, js = os.path.join(self.work, out + '.rs'), os.path.join(self.work, out + '.json')
        c, o, e = run([self.xlate, os.path.join(self.repo, 'src'), CONTRACTS, rs, js, '--verify', ','.join(verify), '--demote', ','.join(self.demoted), '--vacuity', ','.join(vac), '--upto', self.upto, '--files', ','.join(self.files)])
        if c != 0:
            raise RuntimeError('extraction failed: ' + e[-2000:])
        return rs, json.load(open(js))

    def closure(self):
        _, info = self.translate('scan', ['all'])
        fns = {i['fn']: i for i in info if 'fn' in i}
        by = {}
        for k in fns:
            by.setdefault(k.split('::')[-1], []).append(k)
        todo, seen = [k for k in self.own], set()
        while todo:
            k = todo.pop()
            if k in seen or k not in fns:
                continue
            seen.add(k)
            for c in fns[k].get('calls', []):
                todo.extend(by.get(c, []))
        return sorted(seen), fns

    def verus(self, rs, extra=(), timeout=300):
        t = time.time()
        cmd = [VERUS, rs, '--error-format=json', '--output-json', '--time-expanded', '--triggers-mode', 'silent', '--no-report-long-running', '--num-threads', '8'] + list(extra)
        c, o, e = run(cmd, timeout=timeout, cwd=self.work)
        errs = []
        for l in e.splitlines():
            if l.startswith('{'):
                try:
                    j = json.loads(l)
                except ValueError:
                    continue
                if j.get('level') == 'error':
                    errs.append(j)
        res = {}
        i = o.find('{')
        if i >= 0:
            try:
                res = json.loads(o[i:])
            except ValueError:
                pass
        return {'code': c, 'errors': errs, 'json': res, 'stderr': e, 'wall': time.time() - t, 'cmd': ' '.join(cmd)}


def where(err, rs):
    """line of the failing point in the generated file"""
    base = os.path.basename(rs)
    sp = [s for s in err.get('spans', []) if os.path.basename(s['file_name']) == base]
    pr = [s for s in sp if s['is_primary']] or sp
    return [s['line_start'] for s in pr] + [s['line_start'] for s in sp if s not in pr]


def fn_at(info, line):
    for i in info:
        if 'fn' in i and 'first' in i and i['first'] <= line <= i['last']:
            return i
    return None


OBL = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied',
       'possible arithmetic', 'possible division', 'decreases not satisfied', 'recommendation not met', 'unable to prove',
       'possible bit shift', 'precondition not met', 'assert_', 'requires not satisfied', 'loop invariant', 'termination')


def kind(err):
    m = err['message']
    if 'rlimit' in m or 'Resource limit' in m or 'timed out' in m or 'solver' in m.lower():
        return 'limit'
    if err.get('code'):
        return 'compile'
    if m.startswith('aborting due to'):
        return 'abort'
    if any(m.startswith(p) or p in m for p in OBL):
        return 'obligation'
    return 'compile'


def proof_leg(xlate, repo, prop, spec, work, res, thorough):
    own = spec.get('own', [])
    v = Verus(xlate, repo, prop, own, work, spec.get('upto', ''), spec.get('files', []))
    vset, fns = v.closure()
    out = {'own': own, 'closure': vset, 'missing': [k for k in own if k not in fns or 'missing' in fns.get(k, {})], 'lost': {}, 'failed': {}, 'limit': {}, 'rounds': 0}
    items = None
    for rnd in range(12):
        out['rounds'] = rnd + 1
        rs, info = v.translate('p', vset)
        r = v.verus(rs, ['--multiple-errors', '4', '--rlimit', '40'])
        comp = {}
        unmapped = []
        failed, limit = {}, {}
        for e in r['errors']:
            k = kind(e)
            if k == 'abort':
                continue
            fn = None
            for ln in where(e, rs):
                fn = fn_at(info, ln)
                if fn:
                    break
            if k == 'compile':
                if fn and fn.get('verified'):
                    comp.setdefault(fn['fn'], []).append(e['message'])
                else:
                    unmapped.append(e['message'])
            elif k == 'limit':
                limit.setdefault(fn['fn'] if fn else '(lemma)', []).append(e)
            else:
                failed.setdefault(fn['fn'] if fn else '(lemma)', []).append(e)
        if comp:
            for k, m in comp.items():
                v.demoted[k] = 'not accepted by the verifier front end: ' + m[0]
            continue
        break
    out.update(failed=failed, limit=limit, unmapped=unmapped, verus=r, info=info, rs=rs)
    # second opinion on failures: other seeds, more resources
    if failed or limit:
        for sd in (7, 23):
            r2 = v.verus(rs, ['--multiple-errors', '4', '--rlimit', '100', '--smt-option', 'smt.random_seed=%d' % sd], timeout=150)
            if r2['code'] == 124:
                break
            bad = {}
            for e in r2['errors']:
                if kind(e) in ('obligation', 'limit'):
                    fn = None
                    for ln in where(e, rs):
                        fn = fn_at(info, ln)
                        if fn:
                            break
                    bad.setdefault(fn['fn'] if fn else '(lemma)', []).append(e)
            failed = {k: e for k, e in failed.items() if k in bad}
            limit = {k: e for k, e in limit.items() if k in bad}
            for k, es in bad.items():
                if k in limit and any(kind(x) == 'obligation' for x in es):
                    failed[k] = es
                    limit.pop(k, None)
            if not failed and not limit:
                break
        out.update(failed=failed, limit=limit)
    for i in info:
        if 'fn' in i and i['fn'] in vset:
            if i['fn'] in v.demoted:
                out['lost'][i['fn']] = v.demoted[i['fn']]
            elif i.get('bail'):
                out['lost'][i['fn']] = i['bail']
            elif 'missing' in i:
                out['lost'][i['fn']] = i['missing']
    # a hint of the contract had nothing to stand before: what is not proved without it says nothing about the code
    weak = {i['fn']: i['weak'][0] for i in info if i.get('weak') and i['fn'] in vset}
    out['weak_failed'] = {k: e for k, e in list(failed.items()) + list(limit.items()) if k in weak}
    for k in out['weak_failed']:
        out['lost'][k] = 'not proved as restructured: %s' % weak[k]
        failed.pop(k, None)
        limit.pop(k, None)
    for k in out['missing']:
        out['lost'].setdefault(k, 'not found in the source')
    # functions of which the verifier said nothing at all
    times = {}
    for m in r['json'].get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            n = f['function'].split('::', 2)[-1]
            a = times.setdefault(n, [0, 0, True])
            a[0] += f.get('time-micros', 0)
            a[1] += f.get('rlimit', 0)
            a[2] = a[2] and f.get('success', True)
    out['times'] = times
    vr = r['json'].get('verification-results', {})
    out['ran'] = bool(vr) and not vr.get('encountered-vir-error') and not unmapped
    out['verified_count'] = vr.get('verified', 0)
    # vacuity probes on the functions of the property
    rs2, info2 = v.translate('vac', vset, [k for k in vset if k in own])
    text = open(rs2).read().split('\n')
    probes = [i + 1 for i, l in enumerate(text) if 'vany() { proof { assert(false)' in l]
    out['probes'] = len(probes)
    if probes:
        r3 = v.verus(rs2, ['--multiple-errors', '40', '--rlimit', '20'], timeout=150)
        hit = set()
        for e in r3['errors']:
            for ln in where(e, rs2):
                if ln in probes:
                    hit.add(ln)
        out['probes_refused'] = len(hit)
        lim = {fn_at(info2, ln)['fn'] for e in r3['errors'] if kind(e) == 'limit' for ln in where(e, rs2) if fn_at(info2, ln)}
        if r3['code'] == 124:
            lim |= set(own)
        # running out of resources means that no contradiction was found either
        out['vacuous'] = sorted({fn_at(info2, l)['fn'] for l in probes if l not in hit and fn_at(info2, l)} - lim)
        out['probe_limits'] = sorted(lim)
    else:
        out['probes_refused'], out['vacuous'], out['probe_limits'] = 0, [], []
    # what the generated file takes on trust
    src = open(rs).read()
    out['external_body'] = len(re.findall(r'#\[verifier::external_body\]', src))
    out['assume'] = len(re.findall(r'\b(assume|admit)\s*\(', src))
    out['axioms'] = re.findall(r'\baxiom fn (\w+)', src)
    out['assume_spec'] = re.findall(r'assume_specification[^\[]*\[\s*([^\]]+?)\s*\]\s*\(', src)
    res['proof'] = out


def bounded_leg(binp, prop, seed, tier, res):
    c, o, e = run([binp, prop, '--seed', str(seed), '--tier', tier], timeout=700)
    line = o.strip().splitlines()[-1] if o.strip() else ''
    try:
        res['bounded'] = json.loads(line)
        res['bounded']['code'] = c
    except ValueError:
        res['bounded'] = {'error': 'exit %d: %s' % (c, (e or o)[-1500:])}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    spec = json.load(open(os.path.join(CONTRACTS, 'props.json')))[a.prop]
    os.makedirs(EVID, exist_ok=True)
    work = os.path.join(BUILD, 'work', a.prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    res = {}
    with Lock():
        bx, bh = {}, {}
        t1 = threading.Thread(target=lambda: bx.update(r=build_xlate()))
        t2 = threading.Thread(target=lambda: bh.update(r=build_harness(a.repo)))
        t1.start(); t2.start(); t1.join(); t2.join()
        xl, xe = bx['r']
        hb, he = bh['r']
        if hb:
            dst = os.path.join(work, 'bcheck')
            shutil.copy2(hb, dst)
            hb = dst
    ths = []
    if hb:
        ths.append(threading.Thread(target=bounded_leg, args=(hb, a.prop, a.seed, a.tier, res)))
    else:
        res['bounded'] = {'error': 'the harness does not build: ' + he[-1500:]}

    def pl():
        try:
            proof_leg(xl, a.repo, a.prop, spec, work, res, a.tier == 'thorough')
        except Exception as x:  # extraction trouble is never an alarm
            res['proof'] = {'error': str(x)}
    if spec.get('own'):
        if xl:
            ths.append(threading.Thread(target=pl))
        else:
            res['proof'] = {'error': 'the extractor does not build: ' + xe[-800:]}
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    code = report(a, spec, res, work, time.time() - t0)
    sys.exit(code)


def report(a, spec, res, work, wall):
    prop = a.prop
    p, b = res.get('proof', {}), res.get('bounded', {})
    own = spec.get('own', [])
    replay = os.path.join(EVID, 'replay_%s.json' % prop)
    if os.path.exists(replay):
        os.remove(replay)
    lines = []
    for k in b.get('known', []):
        lines.append('KNOWN-FINDING: ' + k)
    failed_own = {k: e for k, e in p.get('failed', {}).items() if k in own}
    failed_other = {k: e for k, e in p.get('failed', {}).items() if k not in own}
    lost_own = {k: m for k, m in p.get('lost', {}).items() if k in own}
    proved = [k for k in own if p.get('ran') and k not in failed_own and k not in p.get('limit', {}) and k not in lost_own and k not in p.get('vacuous', [])]
    support_ok = p.get('ran') and not failed_other and not [k for k in p.get('limit', {}) if k not in own] and not [k for k in p.get('lost', {}) if k not in own]
    bfails = b.get('failures', [])
    code = 0
    violation = None
    obl = lambda es: [e.get('rendered', e['message']) for e in es]
    if bfails:
        f = bfails[0]
        cmd = 'python3 %s %s --seed %d --tier %s   # then: %s %s --seed %d --tier %s --only %s' % (os.path.join(VERIF, 'check.py'), prop, a.seed, a.tier, '.build/work/%s/bcheck' % prop, prop, a.seed, a.tier, json.dumps(f['case']))
        json.dump({'property': prop, 'kind': 'failing input', 'case': f['case'], 'detail': f['detail'], 'all': bfails[:20], 'rerun': cmd,
                   'failed_obligations': {k: obl(e) for k, e in failed_own.items()}}, open(replay, 'w'), indent=1)
        violation = 'VIOLATION property=%s replay=%s' % (prop, replay)
        lines.append('failing input: %s' % f['case'])
        lines.append('  ' + f['detail'][:600])
    elif failed_own and p.get('ran'):
        json.dump({'property': prop, 'kind': 'failed obligation', 'obligations': {k: obl(e) for k, e in failed_own.items()}, 'verifier': p['verus']['cmd'], 'generated_file': p['rs'],
                   'bounded_search': {x: b.get(x) for x in ('evaluations', 'distinct', 'error')}}, open(replay, 'w'), indent=1)
        violation = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay)
    for k, es in failed_own.items():
        for e in es:
            lines.append('failed obligation in %s: %s' % (k, e['message']))
            if a.verbose:
                lines.append(e.get('rendered', ''))
    for k, es in p.get('weak_failed', {}).items():
        if bfails:
            lines.append('failed obligation in %s: %s' % (k, es[0]['message']))
    for k, es in failed_other.items():
        lines.append('note: obligation of %s (another property) fails: %s' % (k, es[0]['message']))
        if a.verbose:
            lines.append(es[0].get('rendered', ''))
    for k in p.get('limit', {}):
        lines.append('note: resource limit in %s' % k)
    for k, m in p.get('lost', {}).items():
        lines.append('note: %s is not under the verifier on this tree (%s)' % (k, m))
    for m in p.get('unmapped', []) or []:
        lines.append('note: verifier front end: ' + m)
    for k in p.get('vacuous', []):
        lines.append('note: a point of %s is unreachable under its contract' % k)
    if p.get('error'):
        lines.append('note: ' + p['error'])
    if b.get('error'):
        lines.append('note: bounded leg: ' + b['error'])
    if violation:
        code = 1
    if not violation and not p.get('ran') and b.get('error'):
        # nothing was decided
        lines.append('no answer')
        code = 2

    # ---- evidence
    full = len(proved) == len(own) and bool(own) and support_ok
    vt = p.get('times', {})
    short = lambda k: k.split('@')[-1]
    funcs = []
    for k in p.get('closure', []) or []:
        st = 'failed' if k in p.get('failed', {}) else 'resource limit' if k in p.get('limit', {}) else ('bounded only: ' + p['lost'][k]) if k in p.get('lost', {}) else 'discharged'
        i = next((x for x in p.get('info', []) if x.get('fn') == k), {})
        funcs.append({'function': k, 'source': '%s:%s' % (i.get('file'), i.get('line')), 'own': k in own, 'status': st})
    # obligations as the verifier counts them: one query per function body and per lemma
    nq = {n: x for n, x in vt.items()}
    obligations = len(nq)
    discharged = sum(1 for x in nq.values() if x[2])
    solver_s = round(sum(x[0] for x in nq.values()) / 1e6, 3)
    assumptions = list(spec.get('assumptions', [])) + COMMON
    trusted = ['Verus %s with Z3' % verus_version(), '/verif/xlate (extraction: see DESIGN.md for what it rewrites)', 'std operations replaced by specified stand-ins in contracts/*.rs (external_body): %d' % p.get('external_body', 0),
               'axioms: ' + ', '.join(p.get('axioms', []) or ['none'])] + ['assumed specification of ' + x for x in p.get('assume_spec', [])]
    bounded = {x: b.get(x) for x in ('evaluations', 'distinct', 'samples', 'notes', 'error') if b.get(x) is not None}
    cov = {
        'functions_under_contract': funcs,
        'bounded_leg': bounded,
        'bounded_stand_ins': ['%s: %s' % (k, m) for k, m in lost_own.items()] + list(spec.get('bounded', [])),
        'evaluations': b.get('evaluations', 0), 'distinct_nontrivial': b.get('distinct', 0), 'samples': b.get('samples', []),
        'rule': 'bounded leg: generated inputs for %s (harness/src); a case counts once by its parameters, and only if it exercises the operation on a non-empty input' % prop,
    }
    if own:
        cov.update({'obligations': obligations, 'discharged': discharged, 'checker_cmd': (p.get('verus') or {}).get('cmd', VERUS), 'trusted_base': trusted,
                    'own_functions_proved': proved, 'backend': 'Verus / Z3', 'solver_s': solver_s, 'verus_wall_s': round((p.get('verus') or {}).get('wall', 0), 2),
                    'vacuity_probes': p.get('probes', 0), 'vacuity_probes_refused': p.get('probes_refused', 0), 'assume_or_admit_in_generated_file': p.get('assume', 0)})
    level = 'proof' if full and not violation else 'exploration'
    ev = {'property': prop, 'tier': a.tier, 'seed': a.seed, 'level': level, 'coverage': cov, 'assumptions': assumptions, 'wall_s': round(wall, 2), 'violations': 1 if violation else 0}
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    for l in lines:
        print(l)
    print('%s: %d/%d functions of the property discharged, %d/%d queries, %d/%d vacuity probes refused, %s bounded cases, %.1f s, level %s' % (
        prop, len(proved), len(own), discharged, obligations, p.get('probes_refused', 0), p.get('probes', 0), b.get('evaluations', 'no'), wall, level))
    if violation:
        print(violation)
    return code


COMMON = ['machine integers are modelled exactly; allocation never fails',
          'preconditions in contracts/*.vc state where the property speaks (listed per function in DESIGN.md)']


def verus_version():
    c, o, e = run([VERUS, '--version'], timeout=30)
    m = re.search(r'Version:\s*(\S+)', o)
    return m.group(1) if m else '?'


if __name__ == '__main__':
    main()
