"""Copies the package of --repo into a scratch directory and builds its Fortran extensions there.

The extensions are read from the syntax tree of setup.py, as the repository's own build does.
"""
import ast
import concurrent.futures
import glob
import os
import shutil
import subprocess
import sys
import sysconfig

SUFFIX = sysconfig.get_config_var('EXT_SUFFIX')


def extensions(repo):
    with open(os.path.join(repo, 'setup.py'), 'rb') as f:
        tree = ast.parse(f.read(), 'setup.py')
    for node in ast.walk(tree):
        if isinstance(node, ast.Call) and getattr(node.func, 'id', '') == 'Extension':
            a = dict(zip(('name', 'sources'), node.args))
            a.update((k.arg, k.value) for k in node.keywords)
            yield ast.literal_eval(a['name']), ast.literal_eval(a['sources'])


def copy_package(repo, dest):
    shutil.copytree(os.path.join(repo, 'magpie'), os.path.join(dest, 'magpie'), symlinks=True,
                    ignore=shutil.ignore_patterns('__pycache__', '*.so', '*.pyc'))


def build_one(repo, dest, name, sources, flags):
    module = name.rpartition('.')[2]
    work = os.path.join(dest, 'build', module)
    os.makedirs(work)
    src = [os.path.join(dest, s) for s in sources]
    cmd = [sys.executable, '-m', 'numpy.f2py', '-c', '--backend', 'meson', '--build-dir', os.path.join(work, 'meson')]
    cmd += ['-I' + d for d in sorted({os.path.dirname(s) for s in src})]
    cmd += ['-m', module] + src
    env = dict(os.environ)
    if flags:
        env['FFLAGS'] = flags
    env['TMPDIR'] = work
    r = subprocess.run(cmd, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env)
    made = os.path.join(work, module + SUFFIX)
    if r.returncode or not os.path.exists(made):
        return r.stdout
    os.replace(made, os.path.join(dest, name.replace('.', '/') + SUFFIX))
    return None


def main(repo, dest, fortran, flags=''):
    copy_package(repo, dest)
    if fortran != 'yes':
        return 0
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        jobs = [pool.submit(build_one, repo, dest, n, s, flags) for n, s in extensions(repo)]
        bad = [j.result() for j in jobs]
    shutil.rmtree(os.path.join(dest, 'build'), ignore_errors=True)
    for b in bad:
        if b is not None:
            sys.stderr.write(b)
            return 1
    return 0 if bad else 1


if __name__ == '__main__':
    sys.exit(main(*sys.argv[1:]))
