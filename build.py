#!/usr/bin/env python3
"""Builds the harness against /repo's current working tree.  Products go to
_build/<hash of every input>/ and objects to _build/obj/<hash of their inputs>.o,
so a stale file can never be used.  Prints the product directory."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
CC, CXX = 'clang', 'clang++'
SAN = '-fsanitize=address -fno-omit-frame-pointer'
CF = '-std=gnu99 -g1 -O1 -w -Wno-incompatible-function-pointer-types'
XF = '-std=c++17 -g1 -O1 -w'
SC = ('-include gmp.h -DSAFE_CLEAN -Dpbc_malloc=sc_malloc -Dpbc_realloc=sc_realloc -Dpbc_free=sc_free -Dpbc_calloc=sc_calloc '
      '-Dpbc_strdup=sc_strdup -Dpbc_set_memory_functions=sc_set_memory_functions -Dinit=sc_init "-D__attribute__(x)="')

def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:24]

def rd(p): return open(p, 'rb').read()

def main():
    gen = re.compile(r'(lex\.yy\.|parser\.tab\.)')
    inp, hdr = [], []
    for d in ('include', 'arith', 'ecc', 'misc', 'pbc', 'gen'):
        for root, _, fs in os.walk(REPO + '/' + d):
            for f in fs:
                if re.search(r'\.(c|h|y|lex)$', f) and not gen.search(f): inp.append(os.path.relpath(os.path.join(root, f), REPO))
    inp.sort(); data = {f: rd(REPO + '/' + f) for f in inp}
    am = rd(REPO + '/Makefile.am')
    own = {f: rd(f) for f in sorted(glob.glob(V + '/src/*'))}
    me = rd(V + '/build.py')
    H = sha(me, am, *[x for f in inp for x in (f, data[f])], *[x for f in own for x in (os.path.basename(f), own[f])])
    R = V + '/_build'; B = R + '/' + H; OBJ = R + '/obj'
    os.makedirs(OBJ, exist_ok=True)
    lock = open(R + '/lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    if os.path.exists(B + '/done'):
        os.utime(B); print(B); return 0
    old = sorted((d for d in glob.glob(R + '/*/') if not d.endswith('/obj/')), key=os.path.getmtime)
    for d in old[:-2]: shutil.rmtree(d, ignore_errors=True)
    objs = sorted(glob.glob(OBJ + '/*.o'), key=os.path.getmtime)
    for o in objs[:-600]: os.unlink(o)
    shutil.rmtree(B, ignore_errors=True)
    for d in ('inc', 'pbc', 'gen'): os.makedirs(B + '/' + d)
    os.symlink(REPO + '/include', B + '/inc/pbc')
    for f in ('pbc.c', 'pbc_getline.c', 'pbc_tree.h'): shutil.copy(REPO + '/pbc/' + f, B + '/pbc/')
    sh = lambda c, **k: subprocess.run(c, shell=True, **k)
    if sh(f'bison -d -b parser "{REPO}/pbc/parser.y" 2>/dev/null && flex -o lex.yy.c --header-file=lex.yy.h "{REPO}/pbc/parser.lex"', cwd=B + '/pbc', stdout=subprocess.DEVNULL).returncode:
        print('parser generation failed', file=sys.stderr); return 2
    # library sources as the project's own build lists them
    m = re.search(r'^libpbc_la_SOURCES\s*=((?:.*\\\n)*.*)', am.decode(), re.M)
    srcs = [f for f in m.group(1).replace('\\', ' ').split() if f.endswith('.c')]
    hh = sha(*[x for f in inp if not f.endswith(('.c', '.y', '.lex')) for x in (f, data[f])])
    cin = sha(*[x for f in inp if f.endswith('.c') and re.search(rb'#\s*include\s*"[^"]*\.c"', data[f]) for x in (f, data[f])])
    oh = sha(*[x for f in own if f.endswith('.h') for x in (os.path.basename(f), own[f])])
    rules = []
    def obj(cmd, src, *deps):   # compile command without -c/-o; deps: strings the object depends on
        k = sha(cmd.replace(REPO, '@R').replace(B, '@B').replace(V, '@V'), rd(src), hh, cin, *deps); o = f'{OBJ}/{k}.o'
        r = f'{o}:\n\t{cmd} -c {src} -o $@.tmp\n\tmv $@.tmp $@\n'
        if r not in rules: rules.append(r)
        if os.path.exists(o): os.utime(o)
        return o
    for T, L, S in (('vp', 'a', SAN), ('vpp', 'p', '')):
        inc = f'-I{REPO}/include -I{REPO}'
        O = [obj(f'{CC} {CF} {S} {inc}', REPO + '/' + f) for f in srcs]
        # the memory functions of the SAFE_CLEAN configuration, under other names
        O.append(obj(f'{CC} {CF} {S} {SC} {inc}', REPO + '/misc/memory.c'))
        lib = f'libpbc_{L}.a'
        rules.append(f'{lib}: {" ".join(O)}\n\trm -f $@\n\tar rcs $@ $^\n')
        HO = []
        for f in own:
            if not f.endswith('.cpp'): continue
            fl = '-std=c++17 -g1 -O2 -w' if os.path.basename(f) in ('ref.cpp', 'pairings.cpp') else f'{XF} {S}'
            HO.append(obj(f'{CXX} {fl} -I{V}/src -I{REPO}/include -I{B}/inc -I{REPO}', f, oh))
        rules.append(f'{T}: {" ".join(HO)} {lib}\n\t{CXX} {S} -o $@ $^ -lgmpxx -lgmp -lm\n')
    ptab = rd(B + '/pbc/parser.tab.h'); plex = rd(B + '/pbc/lex.yy.h')
    PO = []
    for f in ('pbc.c', 'pbc_getline.c', 'parser.tab.c', 'lex.yy.c'):
        i = f'-include {V}/src/toolseed.h' if f == 'pbc.c' else ''
        PO.append(obj(f'{CC} {CF} {SAN} {i} -I{B}/pbc -I{REPO}/include -I{REPO}', f'{B}/pbc/{f}', oh, ptab, plex))
    rules.append(f'pbccalc: {" ".join(PO)} libpbc_a.a\n\t{CC} {SAN} -o $@ $^ -lgmp -lm\n')
    G = []
    for f in sorted(glob.glob(REPO + '/gen/*.c')):
        t = 'gen/' + os.path.basename(f)[:-2]; G.append(t)
        o = obj(f'{CC} {CF} {SAN} -include {V}/src/toolseed.h -I{REPO}/include -I{REPO}', f, oh)
        rules.append(f'{t}: {o} libpbc_a.a\n\t{CC} {SAN} -o $@ $^ -lgmp -lm\n')
    open(B + '/Makefile', 'w').write(f'all: vp vpp pbccalc {" ".join(G)}\n\n' + '\n'.join(rules))
    p = sh(f'make -s -j{os.environ.get("VP_JOBS", "8")} all', cwd=B, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        sys.stderr.write(p.stdout.decode(errors='replace')); print('build failed', file=sys.stderr); return 2
    open(B + '/done', 'w').close(); print(B); return 0

sys.exit(main())
