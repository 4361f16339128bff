"""Mechanical extraction of items from /repo's current source into a Verus file.

A spec template (specs/*.rs) is a Verus source in which blocks

    //@ extract <file> fn <Type::method | Trait for Type::method | name>
    //@ ret <name>                       name the result (only changes the signature's `-> T` to `-> (name: T)`)
    //@ sub <regex> ==> <replacement>    mechanical rewrite of the extracted text, reported in the evidence
    //@ rename <name>                    rename the extracted function
    //@ contract                         requires/ensures text, put between signature and body
    //@ loop <n> [name]                  invariant/decreases text of the n-th loop of the body (1-based)
    //@ start | loop_start <n> | loop_end <n> | before_loop <n> | after_loop <n>   ghost code
    //@ end

(//@ include <spec> inserts the body of another template), and  //@ extract <file> struct|enum|const <Name> ... //@ end  are replaced by the item's text as it stands in the
source tree, with the ghost text spliced in.  Attributes, doc comments and visibility in front of an item are
dropped; `continue` in for-loops is turned into if/else (drop_continue).  Anything that cannot be located raises LostAnchor.
"""
import re, os

class LostAnchor(Exception): pass

def scan(src):
    """Yield (kind, start, end): code is split so that comments and string/char literals are single tokens."""
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if src.startswith('//', i):
            j = src.find('\n', i); j = n if j < 0 else j
            yield ('comment', i, j); i = j
        elif src.startswith('/*', i):
            d, j = 1, i+2
            while j < n and d:
                if src.startswith('/*', j): d += 1; j += 2
                elif src.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            yield ('comment', i, j); i = j
        elif (m := re.compile(r'b?r(#*)"').match(src, i)) and (i == 0 or not (src[i-1].isalnum() or src[i-1] == '_')):
            close = '"' + m.group(1)
            j = src.find(close, m.end()); j = n if j < 0 else j+len(close)
            yield ('lit', i, j); i = j
        elif c == '"':
            j = i+1
            while j < n and src[j] != '"': j += 2 if src[j] == '\\' else 1
            yield ('lit', i, j+1); i = j+1
        elif c == "'":
            m = re.compile(r"'(\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^'\\])'", re.S).match(src, i)
            if m: yield ('lit', i, m.end()); i = m.end()
            else: yield ('p', i, i+1); i += 1
        elif c.isalpha() or c == '_':
            m = re.compile(r'\w+').match(src, i); yield ('id', i, m.end()); i = m.end()
        elif c.isspace(): i += 1
        elif c.isdigit():
            m = re.compile(r'\d[\w]*(\.\d[\w]*)?').match(src, i); yield ('num', i, m.end()); i = m.end()
        else:
            yield ('p', i, i+1); i += 1

class Source:
    def __init__(self, path):
        with open(path) as f: self.text = f.read()
        self.path = path
        self.toks = [t for t in scan(self.text) if t[0] != 'comment']
        self.match = {}
        st = []
        for k, (kind, a, b) in enumerate(self.toks):
            if kind != 'p': continue
            ch = self.text[a]
            if ch in '([{': st.append(k)
            elif ch in ')]}':
                if not st: break
                self.match[st.pop()] = k
    def t(self, k): return self.text[self.toks[k][1]:self.toks[k][2]] if 0 <= k < len(self.toks) else ''
    def body_open(self, k, end=None):
        """first `{` at bracket depth 0 at or after token k"""
        end = len(self.toks) if end is None else end
        while k < end:
            c = self.t(k)
            if c in '([' and self.toks[k][0] == 'p': k = self.match[k]
            elif c == '{': return k
            elif c == ';': return None
            k += 1
        return None
    def impls(self, header):
        """token ranges of the bodies of `impl` blocks for `Type` or `Trait for Type`"""
        out = []
        for k in range(len(self.toks)):
            if self.toks[k][0] == 'id' and self.t(k) in ('impl', 'trait') and self.depth_ok(k):
                o = self.body_open(k)
                if o is None: continue
                h = self.text[self.toks[k][2]:self.toks[o][1]]
                h = re.sub(r'\bwhere\b.*', '', h, flags=re.S)
                h = re.sub(r'^\s*<[^{]*?>\s*(?=[A-Z])', '', h.strip()) if h.strip().startswith('<') else h
                h = re.sub(r"<[^<>]*>", '', h); h = re.sub(r"<[^<>]*>", '', h)
                h = re.sub(r'\s+', ' ', h).strip()
                h = re.sub(r':.*', '', h).strip() if self.t(k) == 'trait' else h
                if h == header: out.append((o, self.match[o]))
        return out
    def depth_ok(self, k):
        p = self.t(k-1)
        return p in ('', '}', ';', ']', '{', 'unsafe', 'pub', ')')
    def find_fn(self, path):
        if '::' in path:
            header, name = path.rsplit('::', 1)
            ranges = self.impls(header)
            if not ranges: raise LostAnchor(f'impl {header} not found in {self.path}')
        else:
            name, ranges = path, [(-1, len(self.toks))]
        hits = []
        for lo, hi in ranges:
            for k in range(lo+1, hi-1):
                if self.t(k) == 'fn' and self.t(k+1) == name:
                    if '::' not in path and self.in_tests(k): continue
                    o = self.body_open(k, hi)
                    if o is not None: hits.append((k, o, self.match[o]))
        if '::' not in path:  # free function: outermost only
            hits = [h for h in hits if not self.inside_impl(h[0])]
        if len(hits) != 1: raise LostAnchor(f'fn {path}: {len(hits)} candidates in {self.path}')
        return hits[0]
    def inside_impl(self, k):
        for j in range(len(self.toks)):
            if self.toks[j][0] == 'id' and self.t(j) in ('impl', 'trait') and self.depth_ok(j):
                o = self.body_open(j)
                if o is not None and o < k < self.match[o]: return True
        return False
    def in_tests(self, k):
        for j in range(len(self.toks)-2):
            if self.t(j) == 'mod' and self.t(j+1) == 'tests' and self.t(j+2) == '{' and j < k < self.match[j+2]: return True
        return False
    def find_item(self, kind, name):
        for k in range(len(self.toks)-1):
            if self.t(k) == kind and self.t(k+1) == name and not self.in_tests(k):
                if kind in ('const', 'type', 'static'):
                    j = k
                    while self.t(j) != ';':
                        j = self.match.get(j, j)+1
                    return self.text[self.toks[k][1]:self.toks[j][2]]
                j = k
                while self.t(j) not in ('{', ';', '('): j += 1
                if self.t(j) == '{': e = self.match[j]
                elif self.t(j) == ';': e = j
                else:
                    e = self.match[j]
                    while self.t(e) != ';': e += 1
                return self.text[self.toks[k][1]:self.toks[e][2]]
        raise LostAnchor(f'{kind} {name} not found in {self.path}')

def strip_comments(text):
    out, last = [], 0
    for kind, a, b in scan(text):
        if kind == 'comment': out.append(text[last:a]); last = b
    out.append(text[last:])
    return ''.join(out)

def toks_of(body):
    toks = [t for t in scan(body) if t[0] != 'comment']
    match, st = {}, []
    for i, (kind, a, b) in enumerate(toks):
        if kind == 'p':
            if body[a] in '([{': st.append(i)
            elif body[a] in ')]}': match[st.pop()] = i
    return toks, match

def drop_continue(body):
    """for-loops in Verus have no `continue`: `if C { ..; continue; } REST` in a for body becomes `if C { .. } else { REST }`"""
    again = True
    while again:
        again = False
        toks, match = toks_of(body)
        txt = lambda i: body[toks[i][1]:toks[i][2]] if i < len(toks) else ''
        for i in range(len(toks)):
            if not (toks[i][0] == 'id' and txt(i) == 'for' and txt(i+1) != '<'): continue
            j = i+1
            while not (toks[j][0] == 'p' and txt(j) == '{'):
                j = match[j] if txt(j) in ('(', '[') and toks[j][0] == 'p' else j
                j += 1
            hit = None
            tails = [(j, match[j])]  # the body, and the branches of an `if` that ends it
            while tails and not hit:
                start, end = tails.pop()
                blk, stmt, chain = start+1, True, []
                while blk < end:
                    if stmt and txt(blk) == 'if':
                        if txt(blk-1) != 'else': chain = []
                        o = blk+1
                        while not (toks[o][0] == 'p' and txt(o) == '{'):
                            o = match[o] if txt(o) in ('(', '[') and toks[o][0] == 'p' else o
                            o += 1
                        c = match[o]
                        cs = c-2 if txt(c-1) == ';' else c-1
                        if txt(cs) == 'continue' and txt(c+1) != 'else' and txt(blk-1) != 'else':
                            hit = (cs, c, end)  # the last one first, so that the rest has none left
                        chain.append((o, c))
                        blk = c+1; stmt = True
                        if txt(blk) == 'else' and txt(blk+1) == '{':
                            chain.append((blk+1, match[blk+1])); blk = match[blk+1]+1
                        elif txt(blk) == 'else': blk += 1
                        continue
                    w = txt(blk); chain = []
                    if w in ('(', '[', '{') and toks[blk][0] == 'p':
                        stmt = w == '{'; blk = match[blk]+1; continue
                    stmt = w in (';', '}'); blk += 1
                if chain and chain[-1][1] == end-1: tails += chain
            if hit:
                cs, c, end = hit
                a, b = toks[cs][1], toks[c][1]
                body = body[:a] + body[b:toks[c][2]] + ' else {' + body[toks[c][2]:toks[end][1]] + '}' + body[toks[end][1]:]
                again = True; break
    return body

def emit_fn(src, path, d):
    k, o, e = src.find_fn(path)
    sig = src.text[src.toks[k][1]:src.toks[o][1]].rstrip()
    body = strip_comments(src.text[src.toks[o][1]:src.toks[e][2]])
    sig = strip_comments(sig)
    for rx, rp, need in d['sub']:
        if rx.startswith('SIG:'): sig, n = re.subn(rx[4:], rp, sig, flags=re.S)
        else: body, n = re.subn(rx, rp, body, flags=re.S)
        if need and not n: raise LostAnchor(f'fn {path}: no text matches {rx}')
    body = drop_continue(body)
    if d.get('rename'): sig = re.sub(r'\bfn\s+\w+', 'fn '+d['rename'], sig, count=1)
    where = ''
    m = re.search(r'\bwhere\b.*$', sig, re.S)
    if m: where = sig[m.start():]; sig = sig[:m.start()].rstrip()
    if d.get('ret'):
        m = None
        depth = 0
        # last `->` outside parentheses
        for i in range(len(sig)):
            if sig[i] in '([': depth += 1
            elif sig[i] in ')]': depth -= 1
            elif sig.startswith('->', i) and depth == 0: m = i
        if m is None: raise LostAnchor(f'fn {path} has no result type any more')
        sig = sig[:m] + '-> (' + d['ret'] + ': ' + sig[m+2:].strip() + ')'
    # splice loops
    toks = [t for t in scan(body) if t[0] != 'comment']
    txt = lambda i: body[toks[i][1]:toks[i][2]] if i < len(toks) else ''
    match, st = {}, []
    for i, (kind, a, b) in enumerate(toks):
        if kind == 'p':
            if body[a] in '([{': st.append(i)
            elif body[a] in ')]}': match[st.pop()] = i
    loops = []
    i = 0
    while i < len(toks):
        w = txt(i)
        if toks[i][0] == 'id' and w in ('while', 'for', 'loop') and not (w == 'for' and txt(i+1) == '<'):
            j = i+1
            while not (toks[j][0] == 'p' and txt(j) == '{'):
                j = match[j] if txt(j) in ('(', '[') and toks[j][0] == 'p' else j
                j += 1
            loops.append((i, j, match[j], w))
        i += 1
    want = max([0] + list(d['loop']) + [n for n, _ in d['ghost'] if isinstance(n, int)])
    nloops = d.get('nloops')
    if (nloops is not None and len(loops) != nloops) or want > len(loops):
        raise LostAnchor(f'fn {path}: {len(loops)} loops, the contract is written for {nloops or want}')
    ins = []  # (offset, order, text)
    for n, (inv, itname) in d['loop'].items():
        i, j, c, w = loops[n-1]
        if itname:
            if w != 'for': raise LostAnchor(f'fn {path}: loop {n} is not a for loop')
            q = i+1
            while txt(q) != 'in':
                q = match[q]+1 if txt(q) in ('(', '[') else q+1
            ins.append((toks[q][2], 0, f' {itname}:'))
        ins.append((toks[j][1], 0, '\n' + inv + '\n'))
    for (n, where_), g in d['ghost2']:
        if where_ == 'start': ins.append((toks[0][2], 0, '\n' + g + '\n')); continue
        i, j, c, w = loops[n-1]
        # a labelled or expression loop is not handled specially: before/after act on the statement
        off = {'loop_start': toks[j][2], 'loop_end': toks[c][1], 'before_loop': toks[i][1], 'after_loop': toks[c][2]}[where_]
        ins.append((off, 1, '\n' + g + '\n'))
    for off, _, t in sorted(ins, key=lambda x: (-x[0], -x[1])):
        body = body[:off] + t + body[off:]
    return sig + ' ' + where + '\n' + d['contract'] + '\n' + body

def render(template_path, repo, false_probe=None):
    """returns (text, info). info: list of extracted functions with their line ranges, subs, trusted items."""
    lines = []
    for l in open(template_path).read().split('\n'):
        m = re.match(r'\s*//@ include (\S+)', l)
        if m:  # the body of another spec, without its prelude and closing brace
            t = open(os.path.join(os.path.dirname(template_path), m.group(1))).read()
            lines += t[t.index('verus! {')+8:t.rindex('}')].split('\n')
        else: lines.append(l)
    out, info = [], dict(functions=[], items=[], subs=[], template=os.path.basename(template_path))
    cache = {}
    i = 0
    while i < len(lines):
        l = lines[i]
        m = re.match(r'\s*//@ extract (\S+) (\w+) (.+?)\s*$', l)
        if not m:
            out.append(l); i += 1; continue
        file, kind, name = m.groups()
        d = dict(sub=[], contract='', loop={}, ghost=[], ghost2=[])
        cur, buf = None, []
        def flush():
            t = '\n'.join(buf)
            if cur is None: return
            if cur == 'contract': d['contract'] = t
            elif cur[0] == 'loop': d['loop'][cur[1]] = (t, cur[2])
            else:
                d['ghost2'].append(((cur[1], cur[0]), t))
                if cur[1]: d['ghost'].append((cur[1], t))
        i += 1
        while i < len(lines):
            q = re.match(r'\s*//@ (\w+\??)\s?(.*)$', lines[i])
            if q:
                flush(); buf = []; cur = None
                w, rest = q.group(1), q.group(2)
                if w == 'end': break
                elif w == 'ret': d['ret'] = rest.strip()
                elif w == 'nloops': d['nloops'] = int(rest)
                elif w == 'rename': d['rename'] = rest.strip()
                elif w in ('sub', 'sub?'):
                    a, b = rest.split(' ==> ') if ' ==> ' in rest else (rest[:-4] if rest.endswith(' ==>') else rest, '')
                    d['sub'].append((a, b, w == 'sub')); info['subs'].append(f'{name}: {a} ==> {b}')
                elif w == 'contract': cur = 'contract'
                elif w == 'loop':
                    p = rest.split(); cur = ('loop', int(p[0]), p[1] if len(p) > 1 else None)
                elif w == 'start': cur = ('start', 0)
                elif w in ('loop_start', 'loop_end', 'before_loop', 'after_loop'): cur = (w, int(rest))
                else: raise Exception('directive '+w)
            else: buf.append(lines[i])
            i += 1
        i += 1
        p = os.path.join(repo, file)
        if not os.path.exists(p): raise LostAnchor(f'{file} is gone')
        if p not in cache: cache[p] = Source(p)
        if kind == 'fn':
            if false_probe is not None:
                d['ghost2'].append(((0, 'start'), 'assert(false); // reachability probe'))
            text = emit_fn(cache[p], name, d)
            start = sum(x.count('\n')+1 for x in out)+1
            info['functions'].append(dict(name=name, file=file, start=start, end=start+text.count('\n')))
        else:
            text = strip_comments(cache[p].find_item(kind, name))
            text = re.sub(r'#\[[^\]]*\]', '', text)
            for rx, rp, need in d['sub']:
                text, n = re.subn(rx, rp, text, flags=re.S)
                if need and not n: raise LostAnchor(f'{kind} {name}: no text matches {rx}')
            info['items'].append(f'{kind} {name} ({file})')
        out.append(text)
    info['trusted'] = []
    full = '\n'.join(out)
    for m in re.finditer(r'(assume\s*\(|admit\s*\(|external_body|assume_specification|\baxiom\b|external_fn_specification|external_type_specification)', full):
        ln = full.count('\n', 0, m.start())
        ctx = ' '.join(x.strip() for x in full.split('\n')[ln:ln+3])
        info['trusted'].append(ctx[:160])
    return full, info
