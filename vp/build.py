"""Builds /repo's current working tree into a scratch directory.

Nothing is ever written under /repo.  The tree is built from scratch on every
run, unless VERIF_BUILD_CACHE names a directory (used during development
only), in which case builds are keyed by the content of every source file.
"""
import hashlib
import os
import shutil
import subprocess
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VENV_PY = '/opt/stempy-venv/bin/python'
PYBIND = '/opt/vp/pybind11_from_apt.cmake'


class BuildError(Exception):
    pass


def _tree_hash(extra):
    h = hashlib.sha256(extra.encode())
    for top in ('CMakeLists.txt', 'cmake', 'h5cpp', 'python', 'stempy', 'thirdparty'):
        p = os.path.join(REPO, top)
        files = []
        if os.path.isfile(p):
            files = [p]
        else:
            for d, dirs, names in os.walk(p):
                dirs[:] = sorted(x for x in dirs if x != '__pycache__')
                files += [os.path.join(d, n) for n in sorted(names)]
        for f in files:
            h.update(f.encode() + b'\0')
            if f.endswith('.py'):
                continue  # linked, not compiled
            try:
                with open(f, 'rb') as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
            except OSError:
                pass
    return h.hexdigest()[:24]


def _run(cmd, log, env=None):
    with open(log, 'ab') as f:
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=env)
    if r.returncode != 0:
        tail = open(log, 'rb').read()[-6000:].decode('utf-8', 'replace')
        raise BuildError(f'command failed ({r.returncode}): {cmd}\n{tail}')


FLAVOURS = {
    # -O1 without LTO: half the build time of the default configuration.
    # Bounds checks of the standard library turn silent out-of-range
    # accesses into an abort.
    'plain': '-O1 -DNDEBUG -D_GLIBCXX_ASSERTIONS',
    'asan': ('-O1 -g -DNDEBUG -fsanitize=address,undefined '
             '-fno-sanitize=vptr,float-cast-overflow,alignment -fno-omit-frame-pointer '
             '-fno-sanitize-recover=undefined'),
    'tsan': '-O1 -g -DNDEBUG -fsanitize=thread',
}


def build(scratch, flavour='plain', targets=()):
    """Configure and build with cmake; returns the directory for PYTHONPATH."""
    flags = '-Wno-error ' + FLAVOURS[flavour]
    cache = os.environ.get('VERIF_BUILD_CACHE')
    if os.environ.get('VERIF_BUILD_INCR'):
        # tools/mutate.py: incremental builds
        out = os.path.join(os.environ['VERIF_BUILD_INCR'], flavour)
        if os.path.exists(os.path.join(out, 'build.ninja')):
            _run(['ninja', '-C', out] + list(targets), os.path.join(out, 'build.log'))
            return out
    elif cache:
        out = os.path.join(cache, _tree_hash(flags + ' '.join(targets)) + '-' + flavour)
        if os.path.exists(os.path.join(out, '.ok')):
            os.utime(out)
            return out
        os.makedirs(cache, exist_ok=True)
        old = sorted((os.path.join(cache, d) for d in os.listdir(cache)), key=os.path.getmtime)
        for d in old[:-12]:
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
    else:
        out = os.path.join(scratch, 'build-' + flavour)
    os.makedirs(out)
    log = os.path.join(out, 'build.log')
    env = dict(os.environ, CC='gcc', CXX='g++', LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1')
    _run(['cmake', '-S', REPO, '-B', out, '-G', 'Ninja',
          '-DCMAKE_BUILD_TYPE=Debug', '-DCMAKE_CXX_FLAGS_DEBUG=',
          '-DCMAKE_CXX_FLAGS=' + flags,
          '-DCMAKE_PROJECT_stempy_INCLUDE=' + PYBIND,
          '-DPython3_EXECUTABLE=' + VENV_PY,
          '-Dstempy_ENABLE_HDF5=ON', '-Dstempy_ENABLE_MPI=OFF',
          '-Dstempy_ENABLE_VTKm=OFF'], log, env)
    _run(['ninja', '-C', out] + list(targets), log, env)
    open(os.path.join(out, '.ok'), 'w').close()
    return out


def pythonpath(out):
    return os.path.join(out, 'lib')


def harness(scratch, libdir, name, source, flavour, compiler='g++', extra=()):
    """Build a C++ harness against the libstem in libdir."""
    exe = os.path.join(scratch, name)
    log = os.path.join(scratch, name + '.log')
    lib = os.path.join(libdir, 'lib', 'stempy')
    flags = FLAVOURS[flavour].split()
    _run([compiler, '-std=c++17', *flags, source, '-o', exe, '-I' + REPO, '-I' + libdir,
          '-I' + os.path.join(REPO, 'thirdparty/ThreadPool'),
          '-isystem', '/usr/include/python3.12', '-isystem', '/usr/include/hdf5/serial',
          *extra, '-L' + lib, '-lstem', '-Wl,-rpath,' + lib, '-lpython3.12', '-lpthread'], log)
    return exe


def sanitizer_runtime(name):
    return subprocess.run(['gcc', f'-print-file-name={name}'], capture_output=True,
                          text=True).stdout.strip()
