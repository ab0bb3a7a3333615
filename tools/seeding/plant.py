#!/usr/bin/env python3
"""plant.py [id...]: makes /verif/seeded/<id>/ from bugs.py and confirms each one in a scratch
copy of /repo: it builds, the stable tests pass, the demo passes before and fails after.
Nothing registered in MANIFEST.json uses this."""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from bugs import BUGS
OUT = '/verif/seeded'
STABLE = json.load(open('/opt/vp/BASELINE.json'))

DEMO = r'''#!/bin/bash
# Runs demo.rs as a unit test inside a scratch copy of the repository.
# exit 0: the behaviour is right; nonzero: it is broken.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR
D="$(mktemp -d)"
trap 'rm -rf "${D:?}"' EXIT
cp -a . "$D/repo" || exit 99
cp "$HERE/demo.rs" "$D/demo.rs" || exit 99
export TMPDIR="$D"
printf '\n#[cfg(test)]\n#[path = "%s"]\nmod zz_demo;\n' "$D/demo.rs" >> "$D/repo/src/@MOD@"
cd "$D/repo" || exit 99
timeout 280 cargo test --offline --locked --bin meerkat zz_demo -- --test-threads 1 > "$D/log" 2>&1
rc=$?
tail -n 40 "$D/log"
[ $rc -eq 0 ] || exit 1
grep -Eq 'test result: ok\. [1-9]' "$D/log" || exit 98
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def stable_names():
    b = STABLE
    for k in ('stable', 'tests', 'passed', 'pass'):
        if isinstance(b, dict) and k in b: return b[k]
    return b

def apply(root, edits):
    for f, old, new in edits:
        p = os.path.join(root, 'src', f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))

def main():
    ids = sys.argv[1:] or list(BUGS)
    for i in ids:
        b = BUGS[i]
        d = os.path.join(OUT, i)
        os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp(prefix='plant.')
        try:
            sh(f'cp -a /repo {w}/repo')
            r = f'{w}/repo'
            apply(r, b['edits'])
            diff = subprocess.run(['git', '-C', r, 'diff', '--', 'src'], stdout=subprocess.PIPE, text=True).stdout
            open(f'{d}/patch.diff', 'w').write(diff)
            open(f'{d}/meta.json', 'w').write(json.dumps({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, indent=1) + '\n')
            if 'demo_sh' in b:
                open(f'{d}/demo.sh', 'w').write(b['demo_sh'])
            else:
                open(f'{d}/demo.sh', 'w').write(DEMO.replace('@MOD@', b['mod']))
            if 'demo' in b: open(f'{d}/demo.rs', 'w').write(b['demo'])
            os.chmod(f'{d}/demo.sh', 0o755)
            # changed original lines?
            orig = 0
            for hunk in re.finditer(r'^--- a/(\S+)\n(?:.*\n)*?(?=^diff |\Z)', diff, re.M):
                base = subprocess.run(['git', '-C', '/repo', 'show', '51df936:' + hunk.group(1)], stdout=subprocess.PIPE, text=True).stdout.split('\n')
                for l in hunk.group(0).split('\n')[1:]:
                    if l.startswith('-') and l[1:].strip() and l[1:] in base: orig += 1
            env = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
            # build patched
            sh(f'find {r}/src -name "*.rs" -exec touch {{}} +')
            t = sh(f'cd {r} && cargo build --workspace --offline --locked && cargo test --workspace --no-fail-fast --offline --locked', env=env)
            oks = set(re.findall(r'^test (\S+) \.\.\. ok', t.stdout, re.M))
            fails = re.findall(r'^test (\S+) \.\.\. FAILED', t.stdout, re.M)
            ok_tests = t.returncode == 0 and len(oks) >= 20
            bad = sh(f'cd {r} && bash {d}/demo.sh')
            # unpatched
            shutil.rmtree(r)
            sh(f'cp -a /repo {r}')
            good = sh(f'cd {r} && bash {d}/demo.sh')
            verdict = 'OK' if ok_tests and bad.returncode not in (0, 98, 99) and 'could not compile' not in bad.stdout and good.returncode == 0 and orig else 'BAD'
            print(f'{verdict} {i} [{b["property"]}] orig-lines={orig} tests={len(oks)} fails={fails} demo clean={good.returncode} patched={bad.returncode}', flush=True)
            if verdict == 'BAD':
                print('--- tests', t.stdout[-1500:] if not ok_tests else '', '\n--- good', good.stdout[-1500:] if good.returncode else '', '\n--- bad', bad.stdout[-1500:], flush=True)
            elif '-v' in os.environ.get('PV', ''):
                print(bad.stdout[-600:])
        finally:
            shutil.rmtree(w, ignore_errors=True)

main()
