"""Compiles the text handed to the verifier and compares what it does with what the real crate does, on
the inputs of fxdreplay's generator. This tests the extraction (steps 1-4 of DESIGN.md), which the proofs
rest on; it proves nothing by itself."""
import os
import re
import subprocess
import time


def chunks(text):
    return re.findall(r'//@fn [^\n]*\n.*?//@end', text, re.S)


def run(here, build, full, verified, exe, prop, n, seed, timeout=300):
    """full: generated text with every function; verified: the text the verifier was given"""
    t0 = time.time()
    if verified:
        have = set(chunks(full))
        miss = [c.split('\n')[0] for c in chunks(verified) if c not in have]
        if miss:
            return dict(ran=False, why='text differs between the two generated files: ' + ', '.join(miss[:5]))
    d = os.path.join(build, 'cross')
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, prop.lower() + '_x.rs')
    i = full.rindex('fn main() {}')
    with open(src, 'w') as f:
        f.write(full[:i] + 'mod xcheck { use super::*;\n' + open(os.path.join(here, 'replay/src/outcome.rs')).read() +
                open(os.path.join(here, 'verus/crosscheck.rs')).read() + '}\nfn main() { xcheck::main() }\n')
    out = src[:-3]
    if os.path.exists(out):
        os.remove(out)
    try:
        r = subprocess.run(['verus', '--compile', '--no-verify', '--triggers-mode', 'silent', os.path.basename(src), '-C', 'opt-level=2'],
                           cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        if not os.path.exists(out):
            return dict(ran=False, why='the generated text does not compile: ' + r.stdout[-300:])
        a = subprocess.Popen([exe, 'trace', '--prop', prop, '--n', str(n), '--seed', str(seed)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        b = subprocess.Popen([out], stdin=a.stdout, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        a.stdout.close()
        try:
            o, _ = b.communicate(timeout=timeout)
        finally:
            for p in (a, b):
                if p.poll() is None:
                    p.kill()
                p.wait()
        m = re.search(r'compared (\d+) differ (\d+) hard (\d+)', o or '')
        if not m or int(m.group(1)) == 0:
            return dict(ran=False, why='no answer: ' + (o or '')[-200:])
        return dict(ran=True, compared=int(m.group(1)), differ=int(m.group(2)), hard=int(m.group(3)), text=(o or '')[:3000], seconds=round(time.time() - t0, 1))
    except subprocess.TimeoutExpired:
        return dict(ran=False, why='timeout')
    finally:
        if os.path.exists(out):
            os.remove(out)
