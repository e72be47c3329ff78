#!/usr/bin/env python3
"""Development aid: systematic small changes to src/lib.rs, each run against every check.

  mutate.py list                       the mutants
  mutate.py run DIR WORKERS [FROM [STEP]]  run them in scratch copies under DIR; results in DIR/results.jsonl

Works on copies only; no registered check uses it. A mutant no check reports is a survivor: it is
either equivalent, outside what the properties claim, caught by the repository's own tests, or a hole.
"""
import json, os, re, subprocess, sys, threading, queue, shutil

SRC = '/repo/src/lib.rs'
HARNESS = '/verif/harness'
IDS = ['C03', 'C09', 'C14', 'C16', 'C15', 'C17', 'C04', 'C05', 'C06', 'C07', 'C01', 'C02', 'C08', 'C19', 'C18', 'C11', 'C12', 'C10', 'C13', 'C20']
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
           CARGO_PROFILE_RELEASE_OPT_LEVEL='2', CARGO_PROFILE_RELEASE_INCREMENTAL='false', CARGO_PROFILE_RELEASE_CODEGEN_UNITS='16')


def split_top(s, ops):
    """positions of && / || at bracket depth 0"""
    d = 0
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
        elif d == 0 and s[i:i + 2] in ops:
            out.append(i)
            i += 1
        i += 1
    return out


def mutants(text):
    lines = text.split('\n')
    stop = next((i for i, l in enumerate(lines) if l.startswith('#[cfg(test)]')), len(lines))
    start = next(i for i, l in enumerate(lines) if l.startswith('impl<'))
    res = []

    def add(i, new, what, upto=None):
        """lines i..upto (exclusive) become new"""
        res.append((i, (upto or i + 1), new, what))

    for i in range(start, stop):
        l = lines[i]
        s = l.strip()
        ind = l[:len(l) - len(l.lstrip())]
        if not s or s.startswith('//') or s.startswith('debug!') or s.startswith('trace!') or s.startswith('#'):
            continue
        # deletions
        if re.match(r'self\.[a-z_.#]+ = .*;$', s) or re.match(r'self\.[a-z_]+\(.*\)\??;$', s) or re.match(r'self\.context\.[a-z_.#]+\(.*\);$', s):
            add(i, [], 'delete')
        if re.match(r'(break|continue);$', s) or re.match(r'[a-z_]+ = .*;$', s):
            add(i, [], 'delete')
        # conditions
        m = re.match(r'(} else if|if|while) (?!let )(.*) \{$', s)
        if m:
            kw, c = m.groups()
            if kw == 'while':
                add(i, [ind + '%s !(%s) {' % (kw, c)], 'negate')
            else:
                add(i, [ind + '%s false && (%s) {' % (kw, c)], 'never')
                add(i, [ind + '%s true || (%s) {' % (kw, c)], 'always')
            for p in split_top(c, ('&&', '||')):
                add(i, [ind + '%s %s {' % (kw, c[:p].strip())], 'drop right')
                add(i, [ind + '%s %s {' % (kw, c[p + 2:].strip())], 'drop left')
                add(i, [ind + '%s %s %s %s {' % (kw, c[:p].strip(), '||' if c[p] == '&' else '&&', c[p + 2:].strip())], 'swap')
        if re.match(r'(&&|\|\|) ', s):
            if not s.endswith('{'):
                add(i, [], 'drop term')
            add(i, [ind + ('||' if s[0] == '&' else '&&') + s[2:]], 'swap op')
            add(i, [ind + s[:3] + '!(' + s[3:].rstrip(';') + ')' + (';' if s.endswith(';') else '')], 'negate term') if s.count('(') == s.count(')') and not s.endswith('{') else None
        elif re.search(r' (&&|\|\|) ', s) and not m:
            for mm in re.finditer(r' (&&|\|\|) ', l):
                add(i, [l[:mm.start()] + (' || ' if mm.group(1) == '&&' else ' && ') + l[mm.end():]], 'swap op')
        # pattern alternatives
        if re.match(r'\| .*[^{]$', s) and '=>' not in s and '||' not in s:
            add(i, [], 'drop alternative')
        if '=>' in s and '|' in s.split('=>')[0] and '||' not in s:
            pat, rest = s.split('=>', 1)
            alts = pat.split(' | ')
            if len(alts) > 1:
                for k in range(len(alts)):
                    a = alts[:k] + alts[k + 1:]
                    add(i, [ind + ' | '.join(a).rstrip() + ' =>' + rest], 'drop alternative %d' % k)
        mg = re.match(r'(.*) if (.*) => (.*)$', s)
        if mg:
            add(i, [ind + '%s if !(%s) => %s' % mg.groups()], 'negate guard')
        # constants
        for mm in re.finditer(r'\b(true|false)\b', l):
            add(i, [l[:mm.start()] + ('false' if mm.group(1) == 'true' else 'true') + l[mm.end():]], 'flip')
        for mm in re.finditer(r'(?<=[ (])!(?=self|[a-z_]+\b(?!\())', l):
            add(i, [l[:mm.start()] + l[mm.end():]], 'drop !')
        mm = re.match(r'(.*=> )(\d+)(,)$', l)
        if mm:
            add(i, [mm.group(1) + str(int(mm.group(2)) + 1) + ','], 'plus one')
        for mm in re.finditer(r' (==|!=|<=|>=|<|>) ', l):
            if '->' in l or 'fn ' in l or 'impl' in l:
                continue
            o = {'==': '!=', '!=': '==', '<': '<=', '>': '>=', '<=': '<', '>=': '>'}[mm.group(1)]
            add(i, [l[:mm.start()] + ' ' + o + ' ' + l[mm.end():]], 'compare')
        for mm in re.finditer(r' ([+-]) (\d+)', l):
            add(i, [l[:mm.start()] + l[mm.end():]], 'drop offset')
        # whole call arguments
        if re.match(r'self\.[a-z_]+\(.*\)\?$', s):
            pass
        for a, b in (('isolate_cover_grammar', 'inherit_cover_grammar'), ('inherit_cover_grammar', 'isolate_cover_grammar'),
                     ('parse_assignment_expr)', 'parse_expression)'), ('parse_assignment_expr()', 'parse_expression()'), ('parse_expression()', 'parse_assignment_expr()'),
                     ('parse_statement()', 'parse_statement_list_item_x()'),
                     ('Some(', 'None.or(Some('), ):
            pass
        for a, b in (('isolate_cover_grammar(', 'inherit_cover_grammar('), ('inherit_cover_grammar(', 'isolate_cover_grammar('),
                     ('Self::parse_assignment_expr', 'Self::parse_conditional_expr'),
                     ('parse_assignment_expr()', 'parse_conditional_expr()'), ('parse_assignment_expr()', 'parse_expression()'), ('parse_expression()', 'parse_assignment_expr()')):
            p = l.find(a)
            if p >= 0 and 'fn ' not in l:
                add(i, [l[:p] + b + l[p + len(a):]], a + ' to ' + b)
        # Punct / Keyword swaps on at_ and expect_
        mm = re.search(r'(at_punct|at_keyword|look_ahead_matches)\(', l)
    # save-and-restore around more than one line
    seen = set()
    out = []
    for (a, b, new, what) in res:
        k = (a, b, tuple(new))
        if k in seen or new == lines[a:b]:
            continue
        seen.add(k)
        out.append((a, b, new, what))
    return lines, out


def sh(c, t=None, **k):
    try:
        return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t, **k)
    except subprocess.TimeoutExpired:
        return None


def prepare(d):
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(d + '/repo'):
        shutil.copytree('/repo', d + '/repo', symlinks=True)
    shutil.rmtree(d + '/harness/src', ignore_errors=True)
    os.makedirs(d + '/harness', exist_ok=True)
    shutil.copytree(HARNESS + '/src', d + '/harness/src')
    shutil.copy(HARNESS + '/Cargo.lock', d + '/harness/Cargo.lock')
    t = open(HARNESS + '/Cargo.toml').read().replace('path = "/repo"', 'path = "%s/repo"' % d)
    open(d + '/harness/Cargo.toml', 'w').write(t)
    os.makedirs(d + '/ev', exist_ok=True)


def one(d, lines, m):
    a, b, new, what = m
    open(d + '/repo/src/lib.rs', 'w').write('\n'.join(lines[:a] + new + lines[b:]))
    r = sh('cargo build --release --offline --quiet', 600, cwd=d + '/harness', env=ENV)
    if r is None or r.returncode != 0:
        return 'does not build', ''
    for div in ('16',):
        for i in IDS:
            r = sh('./harness/target/release/harness run %s quick 1 %s/ev' % (i, d), 400, cwd=d, env=dict(ENV, DEV_DIV=div))
            if r is None:
                return 'TIMEOUT ' + i, ''
            if r.returncode == 1:
                return 'caught ' + i, (re.findall(r'input: .*', r.stdout) or [''])[0][:160]
            if r.returncode != 0 and not (div != '1' and 'too few' in r.stdout):
                return 'BROKEN %s rc=%d' % (i, r.returncode), r.stdout[-300:]
    r = sh('cargo test --offline --quiet -- --test-threads 8 --skip ecma262:: --skip major_libs:: 2>&1 | grep -E "^test result|FAILED|^error"', 900, cwd=d + '/repo', env=ENV)
    if r is None or 'FAILED' in r.stdout or 'error' in r.stdout or 'passed' not in r.stdout:
        return 'tests only', ''
    return 'SURVIVED', ''


def main():
    lines, ms = mutants(open(SRC).read())
    if sys.argv[1] == 'list':
        for k, (a, b, new, what) in enumerate(ms):
            print(k, a + 1, what, '|', lines[a].strip(), '=>', ' '.join(x.strip() for x in new))
        return
    root, n = sys.argv[2], int(sys.argv[3])
    frm = int(sys.argv[4]) if len(sys.argv) > 4 else 0
    step = int(sys.argv[5]) if len(sys.argv) > 5 else 1
    os.makedirs(root, exist_ok=True)
    resf = root + '/results.jsonl'
    done = set()
    if os.path.exists(resf):
        for x in open(resf):
            x = json.loads(x)
            done.add((x['line'], x['old'], x['new']))
    q = queue.Queue()
    import random
    order = list(range(len(ms)))
    random.Random(7).shuffle(order)
    for k in order[frm::step]:
        q.put(k)
    lock = threading.Lock()

    def work(w):
        d = '%s/w%d' % (root, w)
        prepare(d)
        while True:
            try:
                k = q.get_nowait()
            except queue.Empty:
                return
            a, b, new, what = ms[k]
            key = (a + 1, lines[a].strip(), ' '.join(x.strip() for x in new))
            if key in done:
                continue
            r, extra = one(d, lines, ms[k])
            with lock:
                with open(resf, 'a') as f:
                    f.write(json.dumps({'k': k, 'line': key[0], 'what': what, 'old': key[1], 'new': key[2], 'result': r, 'extra': extra}) + '\n')

    ts = [threading.Thread(target=work, args=(w,)) for w in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
