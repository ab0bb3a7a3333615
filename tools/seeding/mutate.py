#!/usr/bin/env python3
"""mutate.py WORKERS OUT.jsonl [file...]: one-token changes of the crate, each judged by the quick
checks (a share of their cases first, all of them for what survives). Works on copies made by
mkcopy.sh; /repo stays as it is. Survivors are read by hand: equivalent, or a gap."""
import json, os, queue, random, re, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
FILES = {
    'store/indexing_buffer.rs': 'C07 C05 C06 C01 C02 C20',
    'store/encoding/bitmap_rle.rs': 'C08 C25 C01',
    'store/encoding/offsets.rs': 'C10 C02',
    'store/encoding/util.rs': 'C10 C02',
    'store/encoding/varint.rs': 'C09 C25',
    'store/encoding/raw/primitive_enc.rs': 'C01 C03 C04 C17 C20',
    'store/encoding/raw/binary_enc.rs': 'C02 C03 C04 C17 C12 C20',
    'store/encoding/mod.rs': 'C18 C01',
    'store/encoding/snappy/snappy_enc.rs': 'C18',
    'store/block_index.rs': 'C12 C11 C18',
    'store/block_sink.rs': 'C12 C11 C14',
    'store/segment_writer.rs': 'C11 C12 C14 C16 C18 C21 C24 C27',
    'store/io/mod.rs': 'C13 C15 C22 C23',
    'store/io/default_block_writer.rs': 'C13 C14 C16 C12 C22 C24',
    'store/io/unix_disk_block_reader.rs': 'C13 C15 C23 C22 C24 C26',
    'store/segment_metadata.proto': 'C11 C18',
    'main.rs': 'C19',
}
BIG = [f for f in FILES if f.endswith(('bitmap_rle.rs', 'buffer.rs', '_enc.rs', '.proto'))]
OPS = [
    (r'<=', ['<']), (r'>=', ['>']), (r'==', ['!=']), (r'!=(?!=)', ['==']),
    (r'(?<![<\-=])<(?![<=])(?= )', ['<=', '>']), (r'(?<=[ ])(?<![>\-=])>(?![>=])(?= )', ['>=', '<']),
    (r'(?<= )\+(?= )', ['-', '*']), (r'(?<= )-(?= )', ['+']), (r'(?<= )\*(?= )', ['+', '/']),
    (r'(?<= )/(?= )', ['*']), (r'(?<= )%(?= )', ['/']), (r'<<(?= )', ['>>']), (r'>>(?= )', ['<<']),
    (r'(?<= )&(?= )', ['|']), (r'(?<= )\|(?= )', ['&', '^']), (r'\+=', ['-=', '=']), (r'\|=', ['=', '^=', '&=']), (r'-=', ['+=']),
    (r'&&', ['||']), (r'\|\|', ['&&']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r'(?<![\w.])\d+(?![\w.])', ['N+1', 'N-1', '0']), (r'(?<![\w.])0x[0-9A-Fa-f]+', ['N+1', 'N-1']),
    (r'\bSome\((?=[a-z_]+\),?$)', None),
    (r'\?;$', [';DROP']), (r'\.max\(', ['.min(']), (r'\.flush\(', ['.sync(']), (r'\.sync\(', ['.flush(']),
    (r'\.last\(\)', ['.first()']), (r'\bu64\b', ['u32']), (r'\bu32\b', ['u16', 'u64']), (r'\busize\b', ['u16']),
    (r'\bbreak;', ['continue;']), (r'\bstart\b', ['end']), (r'\bend\b', ['start']), (r'start_pos', ['end_pos', '0']),
    (r'end_pos', ['start_pos']), (r'start_offset', ['end_offset']), (r'chunk\.len', ['chunk.size as usize']),
    (r'\bindex_writer\b', ['data_writer']), (r'\bdata_writer\b', ['index_writer']),
    (r'index_type', ['encoding']), (r'_le_bytes', ['_be_bytes']), (r'create\(', ['open(']),
    (r'EncoderLayout::\w+\([^)]*\)', ['EncoderLayout::Snappy(NoLayout {})']),
]

def regions(path, text):
    """line numbers of code (no comments, tests, hooks)"""
    lines = text.split('\n'); out = []; skip = False; depth = 0
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith('#[cfg(test)]'):
            break
        if s.startswith('#[cfg(') and 'meerkat_verif' in s:
            skip = True; depth = 0; continue
        if skip:
            depth += l.count('{') - l.count('}')
            if ('{' in l or '}' in l or s.endswith(';')) and depth <= 0:
                skip = False
            continue
        if not s or s.startswith(('//', '#', 'const BIT_MASK', 'const BLOCK_SIZE', 'const BLOCK_BUFFER', 'use ', 'pub use', 'mod ', 'pub mod', '/*', '*')):
            continue
        out.append(n)
    return lines, out

def mutants(path, text):
    lines, code = regions(path, text)
    seen = set()
    def emit(n, new, what):
        if new != lines[n] and (n, new) not in seen:
            seen.add((n, new))
            return [dict(file=path, line=n + 1, old=lines[n].strip(), new=new.strip(), text='\n'.join(lines[:n] + [new] + lines[n + 1:]))]
        return []
    out = []
    for n in code:
        l = lines[n]
        if path.endswith('.proto'):
            for m in re.finditer(r'= (\d+);', l):
                out += emit(n, l[:m.start(1)] + str(int(m.group(1)) + 40) + l[m.end(1):], 'tag')
            continue
        for pat, subs in OPS:
            if subs is None: continue
            for m in re.finditer(pat, l):
                for s in subs:
                    if s == ';DROP':
                        new = re.sub(r'\?;$', '.ok();', l)
                    elif s.startswith('N'):
                        new = l[:m.start()] + str(max(0, int(m.group(0), 0) + (1 if s == 'N+1' else -1))) + l[m.end():]
                    else:
                        new = l[:m.start()] + s + l[m.end():]
                    out += emit(n, new, pat)
        s = l.strip()
        if s.endswith(';') and not s.startswith(('let ', 'return', 'const', 'pub', 'type', '}', ')', '.', 'static')) and s.count('(') == s.count(')'):
            out += emit(n, l[:len(l) - len(l.lstrip())] + '{}', 'delete')
        m = re.match(r'^(\s*)(if|while) ([^{]+) \{$', l)
        if m and ' let ' not in l:
            out += emit(n, f'{m[1]}{m[2]} !({m[3]}) {{', 'negate')
            if m[2] == 'if':
                out += emit(n, f'{m[1]}if false && ({m[3]}) {{', 'never')
                out += emit(n, f'{m[1]}if true || ({m[3]}) {{', 'always')
    return out

FAST = dict(RUSTUP_TOOLCHAIN='stable', CARGO_PROFILE_RELEASE_OPT_LEVEL='1', CARGO_PROFILE_RELEASE_INCREMENTAL='true',
            CARGO_PROFILE_RELEASE_DEBUG='0', CARGO_PROFILE_RELEASE_CODEGEN_UNITS='64')

def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return 124, 'timeout'

def work(k, jobs, out, lock):
    d = f'/tmp/mu{k}'
    if not os.path.isdir(d):
        subprocess.run([HERE + '/mkcopy.sh', d], check=True)
    src = f'{d}/repo/src/'; V = f'{d}/verif'
    while True:
        try: m = jobs.get_nowait()
        except queue.Empty: return
        t = time.time()
        orig = open('/repo/src/' + m['file']).read()
        open(src + m['file'], 'w').write(m['text'])
        verdict = None
        env = dict(VERIF_SCALE='0.2', RAYON_NUM_THREADS='2')
        rc, o = (0, '') if m['file'] == 'main.rs' else sh(
            ['cargo', 'build', '--config', V + '/harness/.cargo/config.toml', '--manifest-path', V + '/harness/Cargo.toml',
             '--target-dir', V + '/target/mut', '--offline', '--release'], V, FAST)
        if rc: verdict = 'nobuild'
        for ident in FILES[m['file']].split() if not verdict else []:
            if m['file'] == 'main.rs': rc, o = sh(['./run.sh', 'check', ident], V, env)
            else: rc, o = sh([V + '/target/mut/release/mkverif', 'check', ident], V, dict(env, VERIF_ROOT=V, VERIF_SEED='1', VERIF_TIER='quick'))
            if rc == 2 or 'build failed' in o: verdict = 'nobuild'; break
            if rc == 1 and 'VIOLATION' in o: verdict = 'caught ' + ident; break
            if rc != 0: verdict = f'rc{rc} {ident} {o[-200:]}'; break
        if verdict is None:
            rc, o = sh(['cargo', 'test', '--offline', '--locked'], f'{d}/repo', dict(RUSTUP_TOOLCHAIN='stable'))
            open(src + m['file'], 'w').write(m['text'])
            if rc: verdict = 'tests-only'
            else:
                for ident in FILES[m['file']].split():
                    rc, o = sh([V + '/target/mut/release/mkverif', 'check', ident], V, dict(VERIF_ROOT=V, VERIF_SEED='2', VERIF_TIER='quick'))
                    if rc == 1: verdict = 'caught-late ' + ident; break
        subprocess.run(['cp', '-a', '/repo/src/.', src])
        for root, _, fs in os.walk(src):
            for f in fs: os.utime(os.path.join(root, f))
        r = {k2: m[k2] for k2 in ('file', 'line', 'old', 'new')}
        r.update(verdict=verdict or 'SURVIVED', s=round(time.time() - t))
        with lock:
            open(out, 'a').write(json.dumps(r) + '\n')

if __name__ == '__main__':
    W, out, only = int(sys.argv[1]), sys.argv[2], sys.argv[3:]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l); done.add((r['file'], r['line'], r['new']))
    jobs = queue.Queue(); n = 0
    for f in sorted(FILES, key=lambda f: f in BIG or 'encoding' in f):
        if only and f not in only: continue
        for m in mutants(f, open('/repo/src/' + f).read()):
            share = 0.1 if f.endswith(('varint.rs', 'util.rs')) else 0.4 if f in BIG else 1
            if random.Random(repr((f, m['line'], m['new']))).random() > share: continue
            if (m['file'], m['line'], m['new']) not in done:
                jobs.put(m); n += 1
    print(n, 'mutants', flush=True)
    if W == 0:
        from collections import Counter
        print(Counter(m['file'] for m in jobs.queue)); sys.exit()
    lock = threading.Lock()
    ts = [threading.Thread(target=work, args=(k, jobs, out, lock)) for k in range(W)]
    [t.start() for t in ts]; [t.join() for t in ts]
