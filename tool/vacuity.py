#!/usr/bin/env python3
"""vacuity.py FILE.rs: for every function under contract in a generated file, checks that `false` cannot be
proved at its end (its contract, invariants and the contracts it uses are not contradictory)."""
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor


def variants(text):
    """(name, text with `ensures false` added to that function)"""
    for m in re.finditer(r'^//@fn ([^\n]*)\n(.*?)^//@end', text, re.S | re.M):
        key, body = m.group(1), m.group(2)
        nm = re.search(r'\bfn (\w+)', body).group(1)
        mod = re.findall(r'^pub mod (\w+) ', text[:m.start()], re.M)[-1]
        # the contract ends at the body's opening brace: first line that is a lone or leading '{' after the signature
        e = re.search(r'^    ensures\b', body, re.M)
        if e:
            nb = body[:e.end()] + ' false,' + body[e.end():]
        else:
            b = re.search(r'^\{', body, re.M)
            if not b:
                continue
            nb = body[:b.start()] + '    ensures false,\n' + body[b.start():]
        yield key, (mod, nm), text[:m.start(2)] + nb + text[m.end(2):]


def probe(path, workers=8, timeout=300):
    text = open(path).read()
    d = path[:-3] + '_vac'
    os.makedirs(d, exist_ok=True)
    jobs = list(variants(text))

    def one(i):
        key, nm, t = jobs[i]
        p = os.path.join(d, 'v%d.rs' % i)
        open(p, 'w').write(t)
        r = subprocess.run(['verus', p, '--triggers-mode', 'silent', '--verify-only-module', nm[0], '--verify-function', '*' + nm[1]],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        os.remove(p)
        m = re.search(r'(\d+) verified, (\d+) errors', r.stdout)
        if not m:
            return key, 'error', r.stdout[-600:]
        if int(m.group(2)) > 0:
            return key, 'ok', ''
        return key, 'vacuous', r.stdout[-300:]
    with ThreadPoolExecutor(workers) as ex:
        res = list(ex.map(one, range(len(jobs))))
    os.rmdir(d)
    return res


if __name__ == '__main__':
    bad = 0
    for k, s, o in probe(sys.argv[1]):
        if s != 'ok':
            bad += 1
            print(k, s, o)
    print('not ok:', bad)
