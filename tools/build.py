"""Builds /repo's C library and the harnesses, per sanitizer flavour.

Objects are cached by content hash (source, every header, flags) in
/verif/.cache, which is only an accelerator: everything is rebuilt from
/repo's working tree whenever its text differs.
"""
import fcntl, hashlib, os, re, subprocess, sys, glob, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
C = os.path.join(REPO, 'c')

DEFS = ['-DBZ_NO_STDIO', '-D_FILE_OFFSET_BITS=64', '-DDEBUG', '-D_POSIX_C_SOURCE=2']

FLAVORS = {
    'asan': ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address'],
    'ubsan': ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
              '-fno-sanitize=alignment,function,shift-base,pointer-overflow,nonnull-attribute',
              '-fno-sanitize-recover=all'],
    'tsan': ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=thread'],
    'plain': ['-O1', '-g'],
}

# calls the crash and fault harnesses watch
WRAP = tuple('-Wl,--wrap=' + f for f in ('open open64 creat creat64 write read pread pread64 pwrite pwrite64 close lseek lseek64 stat stat64 '
    'fstat fstat64 remove unlink rename ftruncate ftruncate64 opendir frt_micro_sleep').split())
LDFLAGS = {'h_crash': WRAP, 'h_lock': ('-Wl,--wrap=frt_micro_sleep',)}

class BuildError(Exception):
    pass

def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:32]

def _read(p):
    with open(p, 'rb') as f:
        return f.read()

def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError(' '.join(cmd)[-200:] + '\n' + r.stdout.decode(errors='replace')[-4000:])

def headers_hash():
    h = hashlib.sha256()
    for pat in ('include/*.h', 'src/*.h', 'src/*.in', 'lib/bzlib/*.h', 'lib/libstemmer_c/include/*.h',
                'lib/libstemmer_c/*/*.h'):
        for p in sorted(glob.glob(os.path.join(C, pat))):
            h.update(p.encode()); h.update(_read(p))
    return h.hexdigest()

def lib_sources():
    srcs = sorted(glob.glob(os.path.join(C, 'src/*.c')))
    bz = [os.path.join(C, 'lib/bzlib', x + '.c') for x in
          ('bzlib', 'blocksort', 'compress', 'crctable', 'decompress', 'huffman', 'randtable')]
    mk = _read(os.path.join(C, 'lib/libstemmer_c/mkinc.mak')).decode()
    m = re.search(r'snowball_sources=(.*?)\n\s*\n', mk, re.S)
    st = [os.path.join(C, 'lib/libstemmer_c', x) for x in re.findall(r'(\S+\.c)', m.group(1))]
    return srcs, bz + st

def incs():
    return ['-I' + os.path.join(C, x) for x in ('include', 'lib/libstemmer_c/include', 'lib/bzlib')]

def _obj(src, flags, hh, cc='clang'):
    key = _hash(cc, ' '.join(flags), hh, src, _read(src))
    out = os.path.join(CACHE, key[:2], key + '.o')
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d.tmp' % os.getpid()
        _run([cc] + flags + ['-c', src, '-o', tmp])
        os.replace(tmp, out)
    return out

def build(flavor, harness=None, extra_cflags=()):
    """Returns the path of harness `harness` linked with the library."""
    os.makedirs(CACHE, exist_ok=True)
    ldflags = LDFLAGS.get(harness, ())
    hh = headers_hash()
    san = FLAVORS[flavor]
    srcs, ext = lib_sources()
    cflags = san + ['-std=c99', '-w'] + DEFS + incs() + list(extra_cflags)
    # the bundled third party code only serves as substrate: same instrumentation
    # would slow it without watching the project's own code
    extflags = ['-O1', '-g', '-w'] + DEFS + incs()
    if flavor == 'tsan':
        extflags += ['-fsanitize=thread']
    hsrc = os.path.join(VERIF, 'h', harness + '.cpp')
    vh = hashlib.sha256()
    for p in sorted(glob.glob(os.path.join(VERIF, 'h', '*.h'))):
        vh.update(_read(p))
    hflags = san + ['-std=c++17', '-Wno-register', '-w', '-I' + os.path.join(VERIF, 'h')] + \
        ['-D_FILE_OFFSET_BITS=64', '-DBZ_NO_STDIO', '-DDEBUG'] + incs()
    with ThreadPoolExecutor(8) as ex:
        fh = ex.submit(_obj, hsrc, hflags, hh + vh.hexdigest(), 'clang++')
        fo = [ex.submit(_obj, s, cflags, hh) for s in srcs]
        fe = [ex.submit(_obj, s, extflags, hh) for s in ext]
        objs = [f.result() for f in [fh] + fo + fe]
    key = _hash(flavor, ' '.join(objs), ' '.join(ldflags))
    exe = os.path.join(CACHE, 'bin_%s_%s_%s' % (harness, flavor, key))
    if not os.path.exists(exe):
        tmp = exe + '.%d.tmp' % os.getpid()
        _run(['clang++'] + [f for f in san if not f.startswith('-O')] + objs + list(ldflags) +
             ['-lm', '-lpthread', '-lz', '-o', tmp])
        os.replace(tmp, exe)
    return exe

def build_many(pairs):
    """{(flavor, harness): path}; what the harnesses of a flavour share is built with its first."""
    out, rest, have = {}, [], set()
    for f, h in pairs:
        if f in have:
            rest.append((f, h))
        else:
            out[f, h] = build(f, h)
            have.add(f)
    with ThreadPoolExecutor(8) as ex:
        for k, r in [(k, ex.submit(build, *k)) for k in rest]:
            out[k] = r.result()
    return out

RB = os.path.join(VERIF, 'h', 'rb')
RB_FLAVORS = {
    'rb': '',
    'rb_asan': ' CC=gcc\\ -fsanitize=address\\ -fno-omit-frame-pointer optflags=-O1\\ -g',
}

def libasan():
    return subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE).stdout.decode().strip()

def ruby_sources():
    out = []
    for top in ('c/src', 'c/include', 'c/lib', 'ruby/ext', 'ruby/lib', 'ruby/Rakefile'):
        top = os.path.join(REPO, top)
        if os.path.isfile(top):
            out.append(top)
        for d, ds, fs in os.walk(top):
            for f in fs:
                p = os.path.join(d, f)
                if os.path.islink(p) or not re.search(r'\.(c|h|rb|in)$', f):
                    continue
                out.append(p)
    return sorted(out)

def build_ruby(flavor):
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'ruby.lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        return build_ruby_i(flavor)

def build_ruby_i(flavor):
    """Builds the Ruby extension the way the project does (rake build) in a copy of the tree; returns ruby/'s path."""
    os.makedirs(CACHE, exist_ok=True)
    srcs = ruby_sources()
    compat = _read(os.path.join(RB, 'compat.h')) + _read(os.path.join(RB, 'compat.rb'))
    key = _hash(flavor, RB_FLAVORS[flavor], compat, *[x for p in srcs for x in (os.path.relpath(p, REPO), _read(p))])
    dst = os.path.join(CACHE, 'ruby_%s_%s' % (flavor, key))
    if os.path.exists(os.path.join(dst, 'ok')):
        return os.path.join(dst, 'ruby')
    import shutil
    for old in glob.glob(os.path.join(CACHE, 'ruby_%s_*' % flavor)):
        if old == dst or time.time() - os.path.getmtime(old) > 900:       # another one may be in use
            shutil.rmtree(old, ignore_errors=True)
    for p in srcs:
        q = os.path.join(dst, os.path.relpath(p, REPO))
        os.makedirs(os.path.dirname(q), exist_ok=True)
        shutil.copyfile(p, q)
    # the Rakefile wants these to exist
    for f in ('README', 'README.md', 'TODO', 'TUTORIAL', 'MIT-LICENSE'):
        if os.path.exists(os.path.join(REPO, 'ruby', f)):
            shutil.copyfile(os.path.join(REPO, 'ruby', f), os.path.join(dst, 'ruby', f))
    env = dict(os.environ)
    for k in ('CFLAGS', 'CPPFLAGS', 'LDFLAGS', 'RUBYLIB', 'LD_PRELOAD'):
        env.pop(k, None)
    env.update(RUBYOPT='-r' + os.path.join(RB, 'compat.rb'), LC_ALL='C.UTF-8',
               MAKEFLAGS='-j8 cppflags=-include' + os.path.join(RB, 'compat.h') + RB_FLAVORS[flavor])
    r = subprocess.run(['rake', 'build'], cwd=os.path.join(dst, 'ruby'), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0 or not os.path.exists(os.path.join(dst, 'ruby/ext/ferret_ext.so')):
        raise BuildError('rake build: ' + r.stdout.decode(errors='replace')[-4000:])
    for f in glob.glob(os.path.join(dst, 'ruby/ext/*.o')):
        os.unlink(f)
    open(os.path.join(dst, 'ok'), 'w').close()
    return os.path.join(dst, 'ruby')

def ruby_command(flavor):
    """(argv prefix, environment) that runs a script against the built extension."""
    d = build_ruby(flavor)
    env = {}
    if flavor == 'rb_asan':
        env['LD_PRELOAD'] = libasan()
        env['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=99:handle_segv=2:handle_sigbus=2:handle_abort=2:detect_stack_use_after_return=0:print_legend=0'
    return (['ruby', '-W0', '-r' + os.path.join(RB, 'compat.rb'), '-I' + os.path.join(d, 'lib'), '-I' + os.path.join(d, 'ext')], env)

if __name__ == '__main__':
    print(build(sys.argv[1], sys.argv[2]))
