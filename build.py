"""Builds the library under test from /repo's working tree and the monitors from /verif/harness.

Objects are kept under /verif/.build, keyed by the contents of everything they are made from, so that a change to /repo
always leads to a rebuild."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
BUILD = os.path.join(VERIF, '.build')
HARNESS = os.path.join(VERIF, 'harness')
HOOKS = 'PENGUINV_VERIF_HOOKS'

# what is not part of the C++ library proper
SKIP_DIRS = {'opencl', 'ui', 'python', 'cuda', 'thirdparty', 'FileOperation'}

FLAVORS = {
    'plain': '-O2',
    'asan': '-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all',
    'tsan': '-O1 -g -fno-omit-frame-pointer -fsanitize=thread',
    'poison': '-O2 -DVF_POISON',
    'opencl': '-O2 -DVF_OPENCL',
    'openclasan': '-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -DVF_OPENCL',
    'cuda': '-O2 -DVF_CUDA',
    'cudaasan': '-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -DVF_CUDA',
    'ui': '-O1',
    'uiasan': '-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all',
    # as if for ARM: the vector code for NEON with its intrinsics in plain C++
    'neon': '-O2 -DVF_NEON',
    'neonasan': '-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -DVF_NEON',
    # only what every x86-64 has
    'sse2': '-O2',
    'sse2asan': '-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all',
    # on a processor described by the monitor
    'cpu': '-O1',
    'cpusse2': '-O1',
    'cudatsan': '-O1 -g -fno-omit-frame-pointer -fsanitize=thread -DVF_CUDA -DVF_CUDA_PARALLEL',
}
COMMON = '-march=native -w -DPENGUINV_ENABLED_PNG_SUPPORT -DPENGUINV_ENABLED_JPEG_SUPPORT -D%s -I%s -I%s' % (HOOKS, SRC, HARNESS)


class BuildError(Exception):
    pass


def lib_sources(opencl):
    res = []
    for root, dirs, files in os.walk(SRC):
        rel = os.path.relpath(root, SRC)
        top = rel.split(os.sep)[0]
        if top in SKIP_DIRS and not (top == 'opencl' and opencl):
            dirs[:] = []
            continue
        for f in sorted(files):
            if f.endswith('.cpp'):
                res.append(os.path.join(root, f))
    kiss = os.path.join(SRC, 'thirdparty', 'kissfft')
    for f in ('kiss_fft.c', 'kiss_fftnd.c'):
        res.append(os.path.join(kiss, f))
    return sorted(res)


def ui_sources():
    res = []
    for root, dirs, files in os.walk(os.path.join(SRC, 'ui')):
        if os.path.basename(root) != 'win':
            res += [os.path.join(root, f) for f in files if f.endswith('.cpp')]
    return sorted(res)


def tree_hash():
    h = hashlib.sha256()
    for base in (SRC,):
        for root, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                if f.endswith(('.h', '.hpp', '.hh', '.c', '.cpp', '.i', '.inc', '.cl', '.cu', '.cuh')):
                    h.update(os.path.relpath(p, base).encode())
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
    return h.hexdigest()[:20]


def harness_hash():
    h = hashlib.sha256()
    for d in (HARNESS, os.path.join(HARNESS, 'cuda'), os.path.join(HARNESS, 'neon'), os.path.join(HARNESS, 'cpu')):
        for f in sorted(os.listdir(d)):
            if f.endswith(('.h', '.inc')):
                with open(os.path.join(d, f), 'rb') as fh:
                    h.update(f.encode() + fh.read())
    return h.hexdigest()


def plain_launches(text):
    """the launches of kernels of a CUDA source in plain C++"""
    text = re.sub(r'#\s*include\s*(["<][^">]*)\.cu([">])', r'#include \1.cu.cpp\2', text)
    pos = 0
    while True:
        at = text.find('<<<', pos)
        if at < 0:
            return text
        blank = ' \t\r\n\\'
        end = text.find('>>>', at)
        b = at
        while text[b - 1] in blank:
            b -= 1
        close = {')': '(', '>': '<'}
        start = b
        if text[start - 1] in close:
            c = text[start - 1]
            depth = 0
            while True:
                start -= 1
                depth += (text[start] == c) - (text[start] == close[c])
                if depth == 0:
                    break
            if c == '>':
                while text[start - 1] in blank:
                    start -= 1
        if start == b or text[b - 1] == '>':
            while re.match(r'[\w:]', text[start - 1]):
                start -= 1
        e = end + 3
        while e < len(text) and text[e] in blank:
            e += 1
        if end < 0 or start == b or text[e:e + 1] != '(':  # a comment, or the compiler will say
            pos = at + 3
            continue
        launch = '::vfcuda::Launch( %s ).run( [=]( auto... vf_a ) { %s( vf_a... ); } )' % (text[at + 3:end], text[start:b])
        text = text[:start] + launch + text[e:]
        pos = start + len(launch)


def cuda_tree(base):
    """the sources with the CUDA ones translated to plain C++; the rest is linked"""
    out = os.path.join(base, 'cudasrc')
    if os.path.isdir(out):
        return out
    tmp = '%s.%d.tmp' % (out, os.getpid())
    os.makedirs(os.path.join(tmp, 'cuda'))
    for e in sorted(os.listdir(SRC)):
        if e != 'cuda':
            os.symlink(os.path.join(SRC, e), os.path.join(tmp, e))
    d = os.path.join(SRC, 'cuda')
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if not f.endswith(('.cu', '.cuh', '.h', '.cpp', '.inc')):
            continue
        with open(os.path.join(d, f), encoding='utf-8', errors='surrogateescape') as fh:
            text = plain_launches(fh.read())
        with open(os.path.join(tmp, 'cuda', f + '.cpp' if f.endswith('.cu') else f), 'w', encoding='utf-8', errors='surrogateescape') as fh:
            fh.write(text)
    try:
        os.rename(tmp, out)
    except OSError:  # another process was faster
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-6000:]))


def prune(keep):
    if not os.path.isdir(BUILD):
        return
    ds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD)), key=lambda p: os.path.getmtime(p))
    ds = [d for d in ds if os.path.isdir(d) and os.path.basename(d) != keep]
    for d in ds[:-3]:
        shutil.rmtree(d, ignore_errors=True)


def python_module_parts():
    """sources, SWIG options and compiler arguments as src/python/setup.py states them"""
    code = """
import sys, types, json
seen = {}
core = types.ModuleType('distutils.core')
class Extension:
    def __init__(self, name, sources, **kw):
        seen.update(kw, sources=sources)
core.Extension = Extension
core.setup = lambda **kw: None
pack = types.ModuleType('distutils')
pack.core = core
for n in ('distutils', 'setuptools'):
    sys.modules[n] = core if n == 'setuptools' else pack
sys.modules['distutils.core'] = core
exec(open('setup.py').read())
print(json.dumps({k: v for k, v in seen.items() if k in ('sources', 'swig_opts', 'extra_compile_args', 'include_dirs', 'libraries')}))
"""
    p = subprocess.run([sys.executable, '-c', code], cwd=os.path.join(SRC, 'python'), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise BuildError('setup.py of the Python module: ' + p.stderr[-1000:])
    return json.loads(p.stdout.strip().split('\n')[-1])


def build_python(base, flavor):
    """the Python module as its setup.py describes it, with a probe; the reference library; a starter"""
    hp = os.path.join(HARNESS, 'python')
    h = hashlib.sha256()
    for f in sorted(os.listdir(hp)):
        if os.path.isfile(os.path.join(hp, f)):
            h.update(open(os.path.join(hp, f), 'rb').read())
    out = os.path.join(base, 'python_%s_%s' % (flavor, h.hexdigest()[:12]))
    starter = os.path.join(out, 'run.sh')
    if os.path.exists(starter):
        return starter
    tmp = '%s.%d.tmp' % (out, os.getpid())
    os.makedirs(tmp)
    parts = python_module_parts()
    here = os.path.join(SRC, 'python')
    run(['swig', '-python'] + parts.get('swig_opts', []) + ['-outdir', tmp, '-o', os.path.join(tmp, 'wrap.cpp'), os.path.join(here, 'penguinV.i')])
    include = '-I' + sysconfig.get_paths()['include']
    flags = ['-O1', '-fPIC', '-w', '-g']
    if flavor == 'asan':
        flags += '-fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -DVF_PYTHON_ASAN'.split()
    sources = [os.path.normpath(os.path.join(here, s)) for s in parts['sources'] if not s.endswith('.i')]
    cmds = []
    objs = []
    for k, s in enumerate([os.path.join(tmp, 'wrap.cpp'), os.path.join(hp, 'probe.cpp')] + sources):
        o = os.path.join(tmp, 'm%d.o' % k)
        objs.append(o)
        cmds.append(['g++'] + parts.get('extra_compile_args', []) + flags + [include, '-I' + here, '-c', s, '-o', o])
    refs = []
    for k, s in enumerate([os.path.join(hp, 'reference.cpp')] + [os.path.join(SRC, f) for f in ('image_function.cpp', 'image_function_helper.cpp', 'file/bmp_image.cpp')]):
        o = os.path.join(tmp, 'r%d.o' % k)
        refs.append(o)
        cmds.append(['g++', '-std=c++11', '-O1', '-fPIC', '-w', '-fno-gnu-unique', '-I' + SRC, '-c', s, '-o', o])
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(run, cmds))
    link = ['g++', '-shared', '-Wl,-Bsymbolic'] + (['-fsanitize=address,undefined'] if flavor == 'asan' else [])
    run(link + objs + ['-lpthread', '-o', os.path.join(tmp, '_penguinV.so')])
    # with a C++ runtime of its own: its memory is not counted
    run(['g++', '-shared', '-Wl,-Bsymbolic', '-static-libstdc++', '-static-libgcc', '-Wl,--exclude-libs,ALL'] + refs + ['-o', os.path.join(tmp, 'libref.so')])
    pre = ''
    if flavor == 'asan':
        libs = [subprocess.run(['g++', '-print-file-name=lib%s.so' % l], stdout=subprocess.PIPE, text=True).stdout.strip() for l in ('asan', 'stdc++')]
        pre = "export LD_PRELOAD='%s'\nexport ASAN_OPTIONS=\"$ASAN_OPTIONS:detect_leaks=0:detect_odr_violation=0:verify_asan_link_order=0\"\nexport PYTHONMALLOC=malloc\n" % ' '.join(libs)
    for f in os.listdir(tmp):
        if f.endswith('.o'):
            os.unlink(os.path.join(tmp, f))
    with open(os.path.join(tmp, 'run.sh'), 'w') as f:
        f.write("#!/bin/bash\n%sexec '%s' '%s' --dir '%s' \"$@\"\n" % (pre, sys.executable, os.path.join(hp, 'driver.py'), out))
    os.chmod(os.path.join(tmp, 'run.sh'), 0o755)
    try:
        os.rename(tmp, out)
    except OSError:  # another process was faster
        shutil.rmtree(tmp, ignore_errors=True)
    return starter


def build(targets):
    """targets: list of (harness name, flavor). Returns {(name, flavor): path}."""
    python = [t for t in targets if t[0] == 'pymodule']
    targets = [t for t in targets if t[0] != 'pymodule']
    th = tree_hash()
    base = os.path.join(BUILD, th)
    os.makedirs(base, exist_ok=True)
    os.utime(base)
    prune(th)
    done = {t: build_python(base, t[1]) for t in python}
    if not targets:
        return done
    hh = harness_hash()
    jobs = {}
    links = []
    for name, flavor in targets:
        opencl = flavor.startswith('opencl')
        cuda = flavor.startswith('cuda')
        lflags = FLAVORS[flavor]
        # objects without macros that only concern the harness
        libflavor = 'plain' if flavor == 'poison' else flavor
        libdir = os.path.join(base, libflavor)
        os.makedirs(libdir, exist_ok=True)
        objs = []
        sources = lib_sources(opencl)
        common = COMMON
        std = '-std=c++11'
        libs = []
        if flavor.startswith('neon'):
            common = '-D__arm__ -U__SSE2__ -I%s %s' % (os.path.join(HARNESS, 'neon'), COMMON.replace('-march=native ', ''))
        if flavor.startswith('sse2'):
            common = COMMON.replace('-march=native ', '')
        if flavor.startswith('cpu'):
            common = '-I%s %s' % (os.path.join(HARNESS, 'cpu'), COMMON if flavor == 'cpu' else COMMON.replace('-march=native ', ''))
        if opencl:
            libs = ['-lOpenCL']
        if flavor.startswith('ui'):  # the windows for Qt and X11; the library of X11 is replaced by a stand-in
            sources += ui_sources()
            qt = subprocess.run(['pkg-config', '--cflags', '--libs', 'Qt5Widgets'], stdout=subprocess.PIPE, text=True).stdout.split()
            common += ' -fPIC ' + ' '.join(a for a in qt if not a.startswith('-l'))
            libs = [a for a in qt if a.startswith('-l')]
        if cuda:
            ct = cuda_tree(base)
            sources += sorted(os.path.join(ct, 'cuda', f) for f in os.listdir(os.path.join(ct, 'cuda')) if f.endswith('.cpp'))
            # the translated sources include the other ones by relative paths
            common = '-I%s -I%s %s' % (ct, os.path.join(HARNESS, 'cuda'), COMMON)
            std = '-std=c++14'
        for s in sources:
            o = os.path.join(libdir, os.path.relpath(s, SRC).replace(os.sep, '__') + '.o')
            if cuda and s.startswith(ct):
                o = os.path.join(libdir, 'cuda-%s.o' % os.path.basename(s))
            objs.append(o)
            if not os.path.exists(o):
                comp = 'gcc' if s.endswith('.c') else 'g++'
                jobs[o] = [comp] + ([] if s.endswith('.c') else [std]) + (common + ' ' + FLAVORS[libflavor]).split() + ['-c', s, '-o']
        src = os.path.join(HARNESS, name + '.cpp')
        with open(src, 'rb') as fh:
            key = hashlib.sha256(fh.read() + hh.encode()).hexdigest()[:12]
        hd = os.path.join(base, 'h_' + flavor)
        os.makedirs(hd, exist_ok=True)
        ho = os.path.join(hd, '%s-%s.o' % (name, key))
        exe = os.path.join(hd, '%s-%s' % (name, key))
        if not os.path.exists(exe):
            if not os.path.exists(ho):
                fl = lflags.replace('-O2', '-O1')
                jobs[ho] = ['g++', '-std=c++14'] + (common + ' ' + fl).split() + ['-c', src, '-o']
            link = ['g++'] + lflags.split() + [ho] + objs + ['-lpng', '-ljpeg', '-lpthread', '-ldl'] + libs
            links.append((exe, link))

    def one(item):
        out, cmd = item
        tmp = '%s.%d.tmp' % (out, os.getpid())
        run(cmd + [tmp])
        os.replace(tmp, out)

    # the slowest first
    order = sorted(jobs.items(), key=lambda j: (HARNESS not in ' '.join(j[1][-3:]), -os.path.getsize(j[1][-2])))
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(one, order))
        list(ex.map(lambda l: one((l[0], l[1] + ['-o'])), links))
    done.update({(n, f): os.path.join(base, 'h_' + f, '%s-%s' % (n, hashlib.sha256(open(os.path.join(HARNESS, n + '.cpp'), 'rb').read() + hh.encode()).hexdigest()[:12]))
                 for n, f in targets})
    return done


if __name__ == '__main__':
    t = time.time()
    for k, v in build([tuple(a.split(':')) for a in sys.argv[1:]]).items():
        print(v)
    print('%.1f s' % (time.time() - t), file=sys.stderr)
