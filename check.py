#!/usr/bin/env python3
"""check.py <property> : decide one property against /repo's current working tree.  See DESIGN.md."""
import sys, os, json, time, subprocess, re, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from lib import verus, config
REPO = '/repo'
BUILD = os.path.join(HERE, '.build')
EVID = os.path.join(HERE, 'evidence')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if '--thorough' in sys.argv: TIER = 'thorough'
NATIVE_ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_TARGET_DIR=os.path.join(BUILD, 'native'))
KANI_ENV = dict(os.environ, CARGO_NET_OFFLINE='true'); KANI_ENV.pop('RUSTUP_TOOLCHAIN', None)
CRATE = os.path.join(HERE, 'contracts')

def sh(cmd, env=None, timeout=None, cwd=None):
    try:
        p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', start_new_session=True)
        try:
            o, e = p.communicate(timeout=timeout)
            return p.returncode, o, e
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9); p.communicate()
            return 124, '', 'timeout'
    except FileNotFoundError as x:
        return 127, '', str(x)

def build_native():
    rc, o, e = sh(['cargo', 'build', '--offline', '--bin', 'vh'], NATIVE_ENV, 800, CRATE)
    return rc == 0, e[-3000:]

def run_native(pid, millis, seed, replay):
    rc, o, e = sh([os.path.join(BUILD, 'native/debug/vh'), 'run', pid, str(seed), str(millis), replay], NATIVE_ENV, millis/1000*2+120, CRATE)
    cases = []
    for l in o.split('\n'):
        if l.startswith('{'):
            try: cases.append(json.loads(l))
            except Exception: cases.append(dict(case='?', evaluations=0, distinct=0, samples=[], raw=l[:300]))
    return rc, cases, e[-1500:]

def kani_compile():
    return sh(['cargo', 'kani', '--only-codegen', '--target-dir', os.path.join(BUILD, 'kani')], KANI_ENV, 800, CRATE)

def run_kani(h, timeout, playback=False):
    """status: ok | failed | undecided"""
    t0 = time.time()
    cmd = ['cargo', 'kani', '--target-dir', os.path.join(BUILD, 'kani' ), '--harness', 'proofs::' + h, '--exact']
    if playback: cmd += ['-Z', 'concrete-playback', '--concrete-playback=print']
    rc, o, e = sh(cmd, KANI_ENV, timeout, CRATE)
    r = dict(harness=h, wall=time.time()-t0, cmd=' '.join(cmd[:2] + cmd[4:]), output=(o[-5000:] + e[-1500:]))
    m = re.search(r'\*\* (\d+) of (\d+) failed', o)
    r['obligations'] = int(m.group(2)) if m else 0
    r['failed_n'] = int(m.group(1)) if m else 0
    tm = re.search(r'Verification Time: ([\d.]+)s', o)
    r['solver_s'] = float(tm.group(1)) if tm else None
    cov = re.search(r'\*\* (\d+) of (\d+) cover properties satisfied', o)
    fails = []
    for b in re.split(r'\nCheck \d+: ', o)[1:]:
        if re.search(r'- Status: (FAILURE)', b):
            d = re.search(r'- Description: "(.*?)"\n', b, re.S); l = re.search(r'- Location: (.*)', b)
            fails.append((b.split('\n')[0], d.group(1) if d else '', l.group(1) if l else ''))
    r['fails'] = fails
    if rc == 124: r['status'], r['reason'] = 'undecided', f'no answer in {timeout} s'
    elif 'VERIFICATION:- SUCCESSFUL' in o:
        if cov and cov.group(1) == cov.group(2) and int(cov.group(2)) > 0 and r['obligations'] > 0: r['status'] = 'ok'
        else: r['status'], r['reason'] = 'undecided', 'vacuous: end of contract not reachable'
    elif 'VERIFICATION:- FAILED' in o:
        real = [f for f in fails if 'unwinding assertion' not in f[1] and 'unsupported' not in f[0] and 'unsupported' not in f[1].lower() and 'is not currently supported' not in f[1]]
        if real: r['status'] = 'failed'
        else: r['status'], r['reason'] = 'undecided', 'tool limit: ' + (fails[0][1] if fails else 'unknown')
    else: r['status'], r['reason'] = 'undecided', 'no verdict: ' + (e or o)[-300:]
    if playback:
        r['vals'] = None
        m = re.search(r'concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', o, re.S)
        if m: r['vals'] = '[' + ','.join('[' + v + ']' for v in re.findall(r'vec!\[([^\]]*)\]', m.group(1))) + ']'
    return r

def main():
    pid = sys.argv[1]
    cfg = config.CHECKS[pid]
    t0 = time.time()
    thorough = TIER == 'thorough'
    os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
    replay = os.path.join(EVID, 'replays', f'{pid}.json')
    if os.path.exists(replay): os.remove(replay)
    tmpreplay = os.path.join(EVID, 'replays', f'{pid}.found.json')
    if os.path.exists(tmpreplay): os.remove(tmpreplay)
    ex = cf.ThreadPoolExecutor(8)
    vwork = os.path.join(BUILD, 'verus')
    rl = 200 if thorough else 80
    fv = [ex.submit(verus.run, os.path.join(HERE, 'specs', s), REPO, vwork, rl) for s in cfg['verus']]
    fp = [ex.submit(verus.run, os.path.join(HERE, 'specs', s), REPO, vwork, rl, True) for s in cfg['verus']]
    native_ok, native_err = build_native()
    kres = []
    if cfg['kani']:
        rc, o, e = kani_compile()
        if rc != 0:
            kres = [dict(harness=h, status='undecided', reason='kani could not compile: ' + e[-400:], obligations=0, fails=[], wall=0, output=e[-2000:], solver_s=None) for h in cfg['kani']]
        else:
            kt = 1500 if thorough else 420
            kres = list(ex.map(lambda h: run_kani(h, kt), cfg['kani']))
    vres = [f.result() for f in fv]
    pres = [f.result() for f in fp]
    ms = 120000 if thorough else cfg.get('millis', 15000)
    ncases, nrc = [], 0
    if native_ok: nrc, ncases, nerr = run_native(pid, ms, SEED, tmpreplay)
    concrete = next((c['fail'] for c in ncases if c.get('fail')), None)
    aborted = native_ok and nrc not in (0, 1)
    # vacuity of Verus preconditions: with assert(false) as first statement every contracted function must be refuted
    vac = []
    for v, p in zip(vres, pres):
        if v['status'] == 'ok' and p.get('info'):
            refuted = {e['function'] for e in p['errors']}
            vac += [f['name'] for f in p['info']['functions'] if f['name'] not in refuted]
    failed = []
    for v, s in zip(vres, cfg['verus']):
        for e in v['errors'] if v['status'] == 'failed' else []:
            failed.append(dict(backend='verus', spec=s, obligation=f"{e['function']}: {e['kind']}", lines=e['lines'], output=e['text']))
    for k in kres:
        if k['status'] == 'failed':
            for f in k['fails'][:5]: failed.append(dict(backend='kani', spec=k['harness'], obligation=f'{k["harness"]}: {f[1]}', lines=[f[2]], output=k['output'][-3000:]))
    violation = None
    if concrete or aborted:
        violation = {**(concrete or dict(message=f'native run ended with status {nrc}: {nerr}')), 'property': pid, 'kind': 'failing input on the real code', 'failed_obligations': failed,
                     'how_to_replay': f'cd /verif && .build/native/debug/vh replay {replay}'}
        nofail = False
    elif failed:
        # look harder for an input: a longer search first, then the verifier's own counterexample, within the time left
        def left(): return (3000 if thorough else 800) - (time.time() - t0)
        for extra in range(1, 4):
            if violation or not native_ok or left() < 90: break
            nrc2, c2, _ = run_native(pid, 30000, SEED + 1000*extra, tmpreplay)
            f2 = next((c['fail'] for c in c2 if c.get('fail')), None)
            if f2: violation = {**f2, 'property': pid, 'kind': 'failing input on the real code', 'failed_obligations': failed, 'how_to_replay': f'cd /verif && .build/native/debug/vh replay {replay}'}
        for k in kres:
            if violation or k['status'] != 'failed' or left() < 60: continue
            pb = run_kani(k['harness'], left() - 20, True)
            if pb.get('vals') and native_ok:
                rc, o, e = sh([os.path.join(BUILD, 'native/debug/vh'), 'kani', k['harness'], pb['vals']], NATIVE_ENV, 60)
                if rc == 1:
                    violation = dict(property=pid, kind='counterexample of the verifier, replayed on the real code', case=k['harness'], kani_values=pb['vals'], replayed=o, failed_obligations=failed,
                                     how_to_replay=f"cd /verif && .build/native/debug/vh kani {k['harness']} '{pb['vals']}'")
        nofail = violation is None
        if nofail: violation = dict(property=pid, kind='failed proof obligation, no failing input found', failed_obligations=failed)
    undecided = [dict(spec=s, reason=v.get('reason')) for v, s in zip(vres, cfg['verus']) if v['status'] == 'undecided'] + \
                [dict(spec=k['harness'], reason=k.get('reason')) for k in kres if k['status'] == 'undecided']
    undecided += [dict(spec='reachability', reason=f'precondition of {n} looks contradictory') for n in vac]
    # evidence
    vd = sum(v['verified'] for v in vres); ve = sum(len(v['errors']) for v in vres)
    kb = cfg['kani_bounded']
    ko = sum(k['obligations'] for k in kres if k['harness'] not in kb); kf = sum(k.get('failed_n', 0) for k in kres if k['harness'] not in kb)
    kund = [k for k in kres if k['status'] != 'ok']
    fns = [f"{f['name']} ({f['file']})" for v in vres if v.get('info') for f in v['info']['functions']]
    trusted = sorted({t for v in vres if v.get('info') for t in v['info']['trusted']})
    subs = sorted({t for v in vres if v.get('info') for t in v['info']['subs']})
    ev = dict(property=pid, tier='thorough' if thorough else 'quick', seed=SEED, level=cfg['level'],
        coverage=dict(obligations=vd+ve+ko, discharged=vd + sum(k['obligations']-k.get('failed_n', 0) for k in kres if k['status'] == 'ok' and k['harness'] not in kb),
            checker_cmd='; '.join([v.get('cmd', '') for v in vres] + [k.get('cmd', '') for k in kres]) or 'none',
            trusted_base=['Verus 0.2026.09.13 + Z3', 'Kani 0.68 + CBMC 6.11 + CaDiCaL', 'lib/extract.py (textual extraction and splicing)', 'rustc'] + trusted,
            functions_under_contract=fns, kani_contracts=[k['harness'] for k in kres if k['harness'] not in kb],
            bounded_stand_ins=[dict(contract=h, bound=b) for h, b in kb.items()] + [dict(contract=c['case'], bound='seeded search, evaluations counted below') for c in ncases],
            verus=[dict(spec=s, status=v['status'], verified=v['verified'], smt_ms=v.get('smt_ms'), wall_s=round(v['wall'], 1), reason=v.get('reason')) for v, s in zip(vres, cfg['verus'])],
            kani=[dict(contract=k['harness'], status=k['status'], checks=k['obligations'], solver_s=k['solver_s'], reason=k.get('reason')) for k in kres],
            extraction_rewrites=subs, extracted_items=sorted({t for v in vres if v.get('info') for t in v['info']['items']}),
            reachability_probes=sum(len(p['info']['functions']) for p in pres if p.get('info')), contradictory_preconditions=vac,
            undecided=undecided, evaluations=sum(c.get('evaluations', 0) for c in ncases), distinct_nontrivial=sum(c.get('distinct', 0) for c in ncases),
            rule='executable contract on the real crates with seeded inputs; distinct = distinct choice sequences that meet the precondition',
            samples=[dict(case=c['case'], input=c.get('samples')) for c in ncases][:12]),
        assumptions=cfg['assumptions'] + ([] if native_ok else ['native contracts could not be built: ' + native_err[-300:]]),
        wall_s=round(time.time()-t0, 1), violations=1 if violation else 0)
    with open(os.path.join(EVID, f'{pid}.json'), 'w') as f: json.dump(ev, f, indent=1, ensure_ascii=False)
    for k in known(pid): print(k)
    for u in undecided: print(f"note: {u['spec']} undecided ({str(u['reason'])[:200]}); the bounded stand-in decides this run")
    if violation:
        with open(replay, 'w') as f: json.dump(violation, f, ensure_ascii=False, separators=(',', ':'))
        if violation.get('message'): print('fails:', violation['message'][:300])
        for i in (violation.get('input') or [])[:4]: print('input:', i[:300])
        for f in failed[:6]: print('obligation:', f['backend'], f['obligation'][:200])
        print(f'VIOLATION property={pid} replay={replay}' + (' no-failing-input-found' if nofail else ''))
        return 1
    if not native_ok and (undecided or not (cfg['verus'] or cfg['kani'])):
        print('no answer: neither the verifier nor the bounded stand-in could run\n' + native_err); return 2
    print(f"{pid}: held; {ev['coverage']['discharged']}/{ev['coverage']['obligations']} obligations, {ev['coverage']['evaluations']} executable-contract evaluations, {ev['wall_s']} s")
    return 0

def known(pid):
    p = os.path.join(HERE, 'known_findings.txt')
    if not os.path.exists(p): return []
    return [l.strip() for l in open(p) if l.startswith(f'KNOWN-FINDING: property={pid} ')]

if __name__ == '__main__':
    sys.exit(main())
