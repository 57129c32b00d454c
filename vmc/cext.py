"""Builds the package's Python 2 C extensions, unchanged, for the Python here (see native/py2shim.h), in a scratch directory.

The package cannot load them otherwise: its setup has them, but they use the Python 2 C interface.  For the sampler there are two
builds: with the package's own random number generator, and with a scripted one (native/scriptkit.c) that replays the draws a check
chooses, so that every random outcome can be enumerated."""
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

from .core import REPO, VERIF

NATIVE = os.path.join(VERIF, 'vmc', 'native')
GAUSS = os.path.join(REPO, 'package', 'inference', 'gauss')
MC = os.path.join(REPO, 'package', 'inference', 'mc')


class CannotBuild(Exception):
    pass


def build(name, init, main, others=(), extra=()):
    import numpy
    d = tempfile.mkdtemp(prefix='vmc_' + name)
    try:
        with open(os.path.join(d, 'wrap.c'), 'w') as f:
            f.write('#include "py2shim.h"\n#include "%s"\nPyObject *PyInit_%s(void) { %s(); return PyErr_Occurred() ? NULL : shim_module; }\n' % (main, name, init))
        so = os.path.join(d, name + '.so')
        cmd = ['gcc', '-O2', '-w', '-fPIC', '-shared', '-I' + NATIVE, '-I' + sysconfig.get_path('include'), '-I' + numpy.get_include(),
               '-I' + os.path.dirname(main), '-o', so, os.path.join(d, 'wrap.c')] + list(others) + list(extra) + ['-lm']
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        if p.returncode:
            raise CannotBuild(p.stdout.decode(errors='replace')[-1500:])
        spec = importlib.util.spec_from_file_location(name, so)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        import ctypes
        m.__dict__['_lib'] = ctypes.CDLL(so)
        return m
    finally:
        shutil.rmtree(d, ignore_errors=True)


def fext(name, pyf, sources, register=False):
    """Builds a Fortran extension from its f2py signature file, as the package's own build does it, in a scratch directory."""
    import glob
    import numpy
    import numpy.f2py
    d = tempfile.mkdtemp(prefix='vmc_' + name)
    try:
        inc = numpy.f2py.get_include()

        def run(cmd):
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
            if p.returncode:
                raise CannotBuild(p.stdout.decode(errors='replace')[-1500:])
        run([sys.executable, '-m', 'numpy.f2py', '--build-dir', d, pyf])
        objects = []
        for s in glob.glob(d + '/*module.c') + [inc + '/fortranobject.c'] + list(sources) + glob.glob(d + '/*-f2pywrappers.f'):
            o = os.path.join(d, os.path.basename(s) + '.o')
            if s.endswith('.c'):
                run(['gcc', '-fno-strict-aliasing', '-O2', '-fPIC', '-w', '-I' + d, '-I' + inc, '-I' + numpy.get_include(), '-I' + sysconfig.get_path('include'), '-c', s, '-o', o])
            else:
                run(['gfortran', '-w', '-ffixed-form', '-fno-second-underscore', '-fPIC', '-O2', '-std=legacy', '-c', s, '-o', o])
            objects.append(o)
        so = os.path.join(d, name + '.so')
        run(['gfortran', '-shared'] + objects + ['-o', so, '-lm'])
        spec = importlib.util.spec_from_file_location(name, so)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        if register:
            sys.modules[name] = m
        return m
    finally:
        shutil.rmtree(d, ignore_errors=True)


def pymod(name, path):
    """Loads a Python module of the sandbox from its file."""
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


def vba():
    return build('vba', 'initvba', os.path.join(GAUSS, 'vbamodule.c'))


def others():
    return [os.path.join(MC, f) for f in sorted(os.listdir(MC)) if f.endswith('.c') and f not in ('_ppssampler.c', 'randomkit.c')]


def sampler(scripted):
    kit = os.path.join(NATIVE, 'scriptkit.c') if scripted else os.path.join(MC, 'randomkit.c')
    m = build('_ppssampler', 'init_ppssampler', os.path.join(MC, '_ppssampler.c'), others() + [kit])
    sys.modules['_ppssampler'] = m
    return m
