import subprocess, json, os, re, time, tempfile
from . import extract

FAIL = ('postcondition not satisfied', 'precondition not satisfied', 'invariant not satisfied', 'assertion failed', 'possible arithmetic',
        'possible division by zero', 'decreases not satisfied', 'possible bit shift', 'assertion failure', 'possible overflow', 'possible underflow',
        'unable to prove', 'could not prove', 'unreached', 'array index', 'index out of bounds', 'recommendation not met', 'constant not in range',
        'union field', 'type invariant', 'unwind', 'could not show termination', 'ensures not satisfied', 'loop ensures not satisfied', 'split assertion failure',
        'split precondition failure','split postcondition failure')

def run(template, repo, workdir, rlimit=60, probe=False, timeout=600):
    """status: ok | failed | undecided"""
    t0 = time.time()
    name = os.path.basename(template)[:-3] + ('_probe' if probe else '')
    try:
        text, info = extract.render(template, repo, false_probe=True if probe else None)
    except extract.LostAnchor as e:
        return dict(status='undecided', reason=f'lost anchor: {e}', info=None, verified=0, errors=[], wall=time.time()-t0, output=str(e))
    except Exception as e:
        return dict(status='undecided', reason=f'extraction failed: {e!r}', info=None, verified=0, errors=[], wall=time.time()-t0, output=repr(e))
    os.makedirs(workdir, exist_ok=True)
    f = os.path.join(workdir, name + '.rs')
    with open(f, 'w') as h: h.write(text)
    env = dict(os.environ); env.pop('RUSTUP_TOOLCHAIN', None)
    cmd = ['verus', '--crate-type=lib', '--rlimit', str(rlimit), '--multiple-errors', '40' if probe else '4', '--output-json', '--time', '--triggers-mode', 'silent', f, '--', '--error-format=json', '-Awarnings']
    cmd = [c for c in cmd if c != '--']
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env, cwd=workdir)
    except subprocess.TimeoutExpired:
        return dict(status='undecided', reason='solver timeout', info=info, verified=0, errors=[], wall=time.time()-t0, output='timeout', cmd=' '.join(cmd))
    errs, tool = [], []
    tl = text.split('\n')
    for line in p.stderr.split('\n'):
        line = line.strip()
        if not line.startswith('{'): continue
        try: j = json.loads(line)
        except Exception: continue
        if j.get('level') != 'error': continue
        msg = j['message']
        if msg.startswith('aborting due'): continue
        sp = [s for s in j.get('spans', []) if os.path.basename(s.get('file_name', '')) == os.path.basename(f)] or j.get('spans', [])
        ln = [(s['line_start'], s.get('label') or '') for s in sp]
        where = None
        for l, _ in ln:
            for fn in info['functions']:
                if fn['start'] <= l <= fn['end']: where = fn['name']
        if where is None and ln: where = enclosing(text, ln[0][0])
        rec = dict(kind=msg, function=where, lines=[tl[l-1].strip() for l, _ in ln if l <= len(tl)][:4], text=j.get('rendered', '')[:2000])
        if any(k in msg.lower() for k in FAIL): errs.append(rec)
        else: tool.append(rec)
    res = None
    m = re.search(r'\{.*\}\s*$', p.stdout, re.S)
    try: res = json.loads(p.stdout[p.stdout.index('{'):])
    except Exception: pass
    vr = (res or {}).get('verification-results', {})
    tm = (res or {}).get('times-ms', {})
    smt = (tm.get('smt') or {}).get('total') if isinstance(tm.get('smt'), dict) else tm.get('total-smt')
    out = dict(info=info, verified=vr.get('verified', 0), errors=errs, wall=time.time()-t0, output=(p.stderr[-6000:] if (tool or res is None) else ''.join(e['text'] for e in errs)), smt_ms=smt, cmd='verus ' + os.path.basename(f), times=tm)
    if tool:
        out['status'] = 'undecided'; out['reason'] = 'not accepted by the verifier: ' + tool[0]['kind'] + ' in ' + str(tool[0]['function'])
        rl = [t for t in tool if 'rlimit' in t['kind'].lower() or 'resource limit' in t['kind'].lower()]
        # a resource limit in one place does not hide a real failure elsewhere
        if len(rl) == len(tool) and errs: out['status'] = 'failed'
    elif errs: out['status'] = 'failed'
    elif res is not None and vr.get('success') and vr.get('verified', 0) > 0: out['status'] = 'ok'
    else:
        out['status'] = 'undecided'; out['reason'] = 'no result from the verifier'; out['output'] = p.stdout[-2000:] + p.stderr[-4000:]
    return out

def enclosing(text, line):
    ls = text.split('\n')
    for i in range(min(line, len(ls))-1, -1, -1):
        m = re.search(r'\b(?:fn|lemma)\s+(\w+)', ls[i])
        if m: return m.group(1)
    return None
