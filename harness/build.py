#!/usr/bin/env python3
"""Builds the harness shared library from /repo's current working tree.

Objects are cached by content hash (source + every header + flags), so a changed source is always
recompiled and nothing stale can be linked.  Output goes to /verif/build only."""
import concurrent.futures, fcntl, glob, hashlib, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('TDY_REPO', '/repo')
OUT = os.environ.get('TDY_BUILD', os.path.join(VERIF, 'build'))
PETSC = os.environ.get('PETSC_DIR', '/opt/petsc-3.17.3')
SRC_GLOBS = ['src/fv/share/*.c', 'src/fv/mpfao/*.c', 'src/fv/fvtpf/*.c', 'src/fv/*/*.c', 'src/fe/*.c',
             'src/materials/*.c', 'src/*.c', 'src/f90-mod/*.c']
VARIANTS = {
    'plain': ['-O1'],
    'asan': ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer'],
}


class BuildError(Exception):
    pass


def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def env():
    e = dict(os.environ)
    for k in ('PETSC_ARCH', 'MAKEFLAGS', 'MAKELEVEL', 'TDYCORE_DIR'):
        e.pop(k, None)
    e.update(PETSC_DIR=PETSC, OMP_NUM_THREADS='1', OMPI_ALLOW_RUN_AS_ROOT='1',
             OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_rmaps_base_oversubscribe='1',
             OMPI_MCA_hwloc_base_binding_policy='none', OMPI_MCA_pml='ob1', OMPI_MCA_btl='self,vader',
             OMPI_MCA_btl_vader_single_copy_mechanism='none', HOME='/root')
    e['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + e.get('PATH', '')
    return e


def build(variant='plain', extra_defines=()):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(variant, extra_defines)


def _build(variant, extra_defines):
    e = env()
    flags = ['-g', '-fPIC', '-w', '-I' + PETSC + '/include', '-I/usr/include/hdf5/openmpi', '-I' + REPO + '/include',
             '-include', os.path.join(HERE, 'vis.h')] + VARIANTS[variant] + ['-D' + d for d in extra_defines]
    srcs = []
    for g in SRC_GLOBS:
        for s in sorted(glob.glob(os.path.join(REPO, g))):
            if s not in srcs:
                srcs.append(s)
    if not srcs:
        raise BuildError('no sources under ' + REPO)
    hdrs = sorted(glob.glob(os.path.join(REPO, 'include', '**', '*.h'), recursive=True)) + \
        sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.h'), recursive=True)) + [os.path.join(HERE, 'vis.h')]
    hh = _hash(*[_read(h) for h in hdrs], ' '.join(flags))
    srcs.append(os.path.join(HERE, 'shim.c'))
    objdir = os.path.join(OUT, 'obj-' + variant)
    os.makedirs(objdir, exist_ok=True)
    jobs, objs = [], []
    for s in srcs:
        o = os.path.join(objdir, os.path.basename(s)[:-2] + '-' + _hash(_read(s), hh, s) + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o))

    fdeps = _hash(*[_read(h) for h in sorted(glob.glob(os.path.join(REPO, 'include', 'finclude', '*')) +
                                             glob.glob(os.path.join(REPO, 'src/f90-mod/*.h')))])
    for s in sorted(glob.glob(os.path.join(REPO, 'src/f90-mod/*.F90'))):
        o = os.path.join(objdir, os.path.basename(s)[:-4] + '-' + _hash(_read(s), fdeps, s) + '.o')
        objs.append(o)
        if not os.path.exists(o):
            jobs.insert(0, (s, o))

    def comp(j):
        s, o = j
        tmp = o + '.tmp.o'
        if s.endswith('.F90'):
            cmd = ['mpifort', '-g', '-fPIC', '-w', '-ffree-line-length-0', '-J' + objdir, '-I' + PETSC + '/include',
                   '-I' + REPO + '/include', '-I' + os.path.dirname(s)]
        else:
            cmd = ['mpicc'] + flags
        r = subprocess.run(cmd + ['-c', s, '-o', tmp], env=e, capture_output=True, text=True)
        if r.returncode:
            return s + '\n' + r.stderr[-4000:]
        os.replace(tmp, o)
        return None
    # the Fortran driver needs the module file of the library's Fortran interface, so it comes last
    fd = os.path.join(HERE, 'fdrv.F90')
    fo = os.path.join(objdir, 'fdrv-' + _hash(_read(fd), fdeps, *[_read(s) for s in sorted(glob.glob(os.path.join(REPO, 'src/f90-mod/*.F90')))]) + '.o')
    objs.append(fo)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        errs = [x for x in ex.map(comp, jobs) if x]
    if not errs and not os.path.exists(fo):
        e = comp((fd, fo))
        if e:       # only the check of the Fortran interface needs it
            sys.stderr.write(e + '\n')
            objs.remove(fo)
    if errs:
        raise BuildError('\n'.join(errs))
    so = os.path.join(OUT, 'libtdyh-%s-%s.so' % (variant, _hash(*objs)))
    if not os.path.exists(so):
        tmp = so + '.tmp'
        san = [f for f in VARIANTS[variant] if f.startswith('-fsanitize')]
        r = subprocess.run(['mpicc', '-shared', '-Wl,-Bsymbolic', '-Wl,--wrap=SNESSolve'] + san + ['-o', tmp] + objs +
                           ['-Wl,-rpath,' + PETSC + '/lib', '-L' + PETSC + '/lib', '-lpetsc',
                            '-L/usr/lib/x86_64-linux-gnu/hdf5/openmpi', '-lhdf5_hl', '-lhdf5', '-lgfortran', '-lm'],
                           env=e, capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-4000:])
        os.replace(tmp, so)
    # keep the build folder small
    keep = set(objs)
    for o in glob.glob(os.path.join(objdir, '*.o')):
        if o not in keep and not o.endswith('.tmp.o'):
            os.unlink(o)
    sos = sorted(glob.glob(os.path.join(OUT, 'libtdyh-%s-*.so' % variant)), key=os.path.getmtime)
    for s in sos[:-3]:
        if s != so:
            os.unlink(s)
    return so


if __name__ == '__main__':
    try:
        for v in (sys.argv[1:] or ['plain']):
            print(build(v))
    except BuildError as ex:
        print(ex)
        sys.exit(2)
