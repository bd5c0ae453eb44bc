"""Builds the code under test from /repo's working tree into a scratch directory."""
import atexit
import os
import shutil
import signal
import subprocess
import sys
import tempfile

REPO = os.environ.get('NXAS_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FLAVOURS = {
    'plain': ('g++', '-O1 -g'),
    'asan': ('g++', '-O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS'),
    'tsan': ('g++', '-O1 -g -fsanitize=thread'),
    'fuzz': ('clang++', '-O1 -g -fsanitize=fuzzer-no-link,address,undefined -fno-sanitize-recover=all '
                        '-D_GLIBCXX_ASSERTIONS'),
}

_scratch = None
_owner = None


def scratch():
    global _scratch, _owner
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='nxas-verif-')
        _owner = os.getpid()
        atexit.register(cleanup)
        for s in (signal.SIGTERM, signal.SIGHUP):
            signal.signal(s, lambda *_: sys.exit(3))
    return _scratch


def cleanup():
    if _scratch and os.getpid() == _owner:
        shutil.rmtree(_scratch, ignore_errors=True)


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        sys.stderr.write('build step failed: %s\n%s\n' % (' '.join(cmd), r.stdout.decode('utf8', 'replace')))
        sys.exit(2)
    return r.stdout


def build(flavour='plain', extra='', targets=('nxas_lib', 'nxas')):
    """Returns the build directory (library libnxas_lib.a and, where asked for, the tool)."""
    cxx, flags = FLAVOURS[flavour]
    d = os.path.join(scratch(), flavour)
    if os.path.exists(os.path.join(d, 'ok')):
        return d
    run(['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_CXX_COMPILER=' + cxx,
         '-DCMAKE_BUILD_TYPE=RelWithDebInfo', '-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=%s %s' % (flags, extra)])
    run(['ninja', '-C', d] + list(targets))
    open(os.path.join(d, 'ok'), 'w').close()
    return d


LOCALES = ('de_DE.UTF-8', 'tr_TR.UTF-8', 'ps_AF.UTF-8', 'fr_FR.ISO-8859-1', 'tr_TR.ISO-8859-9')
_locales = None


def make_locales():
    """Compiles locales whose number and letter rules differ from C's into the scratch directory; names of those made."""
    global _locales
    d = os.path.join(scratch(), 'locales')
    os.makedirs(d, exist_ok=True)
    made = []
    for name in LOCALES:
        base, _, charmap = name.partition('.')
        try:
            r = subprocess.run(['localedef', '-i', base, '-f', charmap, os.path.join(d, name)], stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL, timeout=120)
        except (OSError, subprocess.TimeoutExpired):
            break
        if r.returncode in (0, 1) and os.path.exists(os.path.join(d, name, 'LC_NUMERIC')):
            made.append(name)
    _locales = d
    return made


def locales():
    return _locales


def library(d):
    for root, _, files in os.walk(d):
        for f in files:
            if f.endswith('.a') and 'nxas' in f:
                return os.path.join(root, f)
    sys.stderr.write('library not found in %s\n' % d)
    sys.exit(2)


def tool(d):
    for root, _, files in os.walk(d):
        if 'nxas' in files:
            p = os.path.join(root, 'nxas')
            if os.access(p, os.X_OK) and os.path.isfile(p):
                return p
    sys.stderr.write('tool not found in %s\n' % d)
    sys.exit(2)


def worker(flavour='plain'):
    """Path of the request worker linked with the given flavour of the library."""
    d = build(flavour, targets=('nxas_lib', 'nxas') if flavour == 'plain' else ('nxas_lib',))
    cxx, flags = FLAVOURS[flavour]
    exe = os.path.join(d, 'worker')
    if not os.path.exists(exe):
        run([cxx, '-std=c++20'] + flags.split() + ['-I', os.path.join(REPO, 'include'),
            os.path.join(VERIF, 'harness', 'worker.cpp'), library(d), '-o', exe, '-pthread'])
    return exe
