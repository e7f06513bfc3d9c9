"""Builds the library from /repo's working tree, with instrumentation, together with the harness.

Objects are cached below /verif/.build by a digest of the command and of every file that can enter the
compilation unit, so a changed source is always compiled again and an unchanged one is not."""
import concurrent.futures as cf, hashlib, os, re, shutil, subprocess, sys, sysconfig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(VERIF, '.build')
HARNESS = os.path.join(VERIF, 'harness')
INC = ['-I' + os.path.join(HARNESS, 'include'), '-I' + REPO + '/src', '-I' + REPO + '/ns', '-I' + REPO + '/babel']
DEFS = ['-DSHOW_DEBUG_LOG', '-DVERSION="verif"', '-D__axl_disable_broken_bool_def__', '-DAXL_NS_SUPPORT', '-DAXL_BABEL_SUPPORT', '-DHAVE_CONFIG_H']
COMMON = ['-w', '-g', '-fno-omit-frame-pointer']
FLAVOURS = {
    # memory errors, undefined behaviour, leaks (through the allocation monitor)
    'asan': (['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=function'], []),
    # data races
    'tsan': (['-O1', '-fsanitize=thread'], []),
    # uninitialised values
    'msan': (['-O1', '-fsanitize=memory', '-fsanitize-memory-track-origins', '-fno-sanitize-recover=all'], []),
    # executed edges are counted: the amount of work, independent of the clock
    'cov': (['-O1'], ['-fno-builtin', '-fsanitize-coverage=trace-pc-guard']),
}

class BuildError(Exception):
    pass

def sources(directory, variable):
    text = open(os.path.join(REPO, directory, 'Makefile.am')).read().replace('\\\n', ' ')
    m = re.search(r'^' + variable + r'\s*=(.*)$', text, re.M)
    if not m:
        raise BuildError('no %s in %s/Makefile.am' % (variable, directory))
    return [os.path.join(REPO, directory, x) for x in m.group(1).split() if x.endswith('.c')]

def library_sources():
    return sources('src', 'libaxl_la_SOURCES') + sources('ns', 'libaxl_ns_la_SOURCES') + sources('babel', 'libaxl_babel_la_SOURCES')

def knife_sources():
    return sources('knife', 'axl_knife_SOURCES')

def _headers(dirs):
    out = []
    for d in dirs:
        for base, _, names in sorted(os.walk(d)):
            out += [os.path.join(base, n) for n in sorted(names) if n.endswith(('.h', '.hpp', '.inc'))]
    return out

def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]

def _compile(job):
    cmd, src, obj = job
    if os.path.exists(obj):
        return None
    tmp = obj + '.%d.tmp' % os.getpid()
    p = subprocess.run(cmd + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        return '%s\n%s' % (' '.join(cmd + ['-c', src]), p.stdout[-6000:])
    os.replace(tmp, obj)
    return None

def build(flavour='asan', modes=None, knife=False):
    """Returns the path of the harness binary (or of axl-knife)."""
    san, libsan = FLAVOURS[flavour]
    os.makedirs(OUT, exist_ok=True)
    repo_h = _headers([REPO + '/src', REPO + '/ns', REPO + '/babel', REPO + '/knife'])
    cfg = _headers([os.path.join(HARNESS, 'include')])
    jobs, objs = [], []
    ccl = ['clang', '-std=gnu89'] + COMMON + san + libsan + DEFS + INC
    cch = ['clang++', '-std=c++17'] + COMMON + san + DEFS + INC
    csrc = [(s, ccl) for s in library_sources()]
    if knife:
        csrc += [(s, ccl + ['-D__COMPILING_AXL_KNIFE__', '-DHAVE_VASPRINTF', '-I' + REPO + '/knife']) for s in knife_sources()]
    for s, cmd in csrc:
        key = digest([s] + repo_h + cfg, ' '.join(cmd))
        o = os.path.join(OUT, '%s-%s-%s.o' % (flavour, os.path.basename(s)[:-2], key))
        jobs.append((cmd, s, o)); objs.append(o)
    if not knife:
        own = _headers([HARNESS])
        names = sorted(n for n in os.listdir(HARNESS) if n.endswith('.cpp'))
        if modes is not None:
            names = [n for n in names if not n.startswith('m_') or n in modes]
        for n in names:
            s = os.path.join(HARNESS, n)
            key = digest([s] + repo_h + own, ' '.join(cch))
            o = os.path.join(OUT, '%s-%s-%s.o' % (flavour, n[:-4], key))
            jobs.append((cch, s, o)); objs.append(o)
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        errs = [e for e in ex.map(_compile, jobs) if e]
    if errs:
        raise BuildError('\n'.join(errs))
    exe = os.path.join(OUT, '%s-%s-%s' % (flavour, 'knife' if knife else 'vh', hashlib.sha256(' '.join(objs).encode()).hexdigest()[:24]))
    if not os.path.exists(exe):
        wraps = [] if knife else ['-Wl,--wrap=read', '-Wl,--wrap=close']
        if flavour == 'cov':
            wraps += ['-Wl,--wrap=' + f for f in 'strlen memcpy memmove memset calloc realloc strcmp strncmp memcmp strstr strcpy'.split()]
        cmd = ['clang++'] + san + objs + wraps + ['-lm', '-lpthread', '-o', exe + '.%d.tmp' % os.getpid()]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError(p.stdout[-6000:])
        os.replace(exe + '.%d.tmp' % os.getpid(), exe)
    prune()
    return exe

def build_python():
    """Returns the path of a Python interpreter with the binding of py-axl, as it is in the tree, built in."""
    san, libsan = FLAVOURS['asan']
    os.makedirs(OUT, exist_ok=True)
    own = os.path.join(VERIF, 'pyaxl')
    pyinc = sysconfig.get_paths()['include']
    ver = sysconfig.get_config_var('LDVERSION')
    repo_h = _headers([REPO + '/src', REPO + '/ns', REPO + '/babel', REPO + '/knife'])
    cfg = _headers([os.path.join(HARNESS, 'include')])
    py_h = _headers([REPO + '/py-axl']) + [os.path.join(own, 'py3compat.h')]
    ccl = ['clang', '-std=gnu89'] + COMMON + san + libsan + DEFS + INC
    ccp = ['clang', '-std=gnu11'] + COMMON + san + DEFS + INC + ['-I' + pyinc]
    jobs, objs = [], []
    def add(cmd, s, key, tag):
        o = os.path.join(OUT, '%s-%s-%s.o' % (tag, os.path.basename(s)[:-2], key))
        jobs.append((cmd, s, o)); objs.append(o)
    for s in sources('src', 'libaxl_la_SOURCES'):
        # the same objects as the harness uses
        add(ccl, s, digest([s] + repo_h + cfg, ' '.join(ccl)), 'asan')
    # with its log calls, which evaluate their arguments
    cmd = ccp + ['-DSHOW_DEBUG_LOG', '-I' + REPO + '/py-axl', '-include', os.path.join(own, 'py3compat.h')]
    for s in sources('py-axl', 'libpy_axl_la_SOURCES'):
        add(cmd, s, digest([s] + repo_h + cfg + py_h, ' '.join(cmd)), 'py')
    s = os.path.join(own, 'pyhost.c')
    add(ccp, s, digest([s], ' '.join(ccp)), 'py')
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        errs = [e for e in ex.map(_compile, jobs) if e]
    if errs:
        raise BuildError('\n'.join(errs))
    exe = os.path.join(OUT, 'pyhost-%s' % hashlib.sha256(' '.join(objs).encode()).hexdigest()[:24])
    if not os.path.exists(exe):
        tmp = exe + '.%d.tmp' % os.getpid()
        p = subprocess.run(['clang++'] + san + objs + ['-lpython' + ver, '-lm', '-lpthread', '-ldl', '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError(p.stdout[-6000:])
        os.replace(tmp, exe)
    prune()
    return exe

def prune(limit=3 << 30):
    """Keeps the cache small."""
    try:
        files = sorted((os.path.getmtime(os.path.join(OUT, n)), os.path.getsize(os.path.join(OUT, n)), n) for n in os.listdir(OUT))
        total = sum(f[1] for f in files)
        for _, size, n in files:
            if total <= limit:
                break
            os.unlink(os.path.join(OUT, n)); total -= size
    except OSError:
        pass

if __name__ == '__main__':
    try:
        for f in sys.argv[1:] or ['asan']:
            print(build_python() if f == 'python' else build(f) if f != 'knife' else build('asan', knife=True))
    except BuildError as e:
        sys.exit('BUILD FAILED\n%s' % e)
