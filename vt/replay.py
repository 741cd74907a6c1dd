"""
Replay of solver models against the real package: the same harness with
concrete floats, the package imported by the ordinary import system and the
Fortran kernels compiled from their current source.

    python -m vt.replay CASES.json [index ...]

prints one JSON line per case.  $VT_SO: folder with the compiled kernels.
"""

import importlib
import importlib.util
import json
import os
import sys
import tempfile
import traceback


def setup(repo, so):
    """Make `import atooms.postprocessing` find the package of `repo`"""
    import atooms
    p = os.path.join(repo, 'atooms')
    atooms.__path__ = [p] + [x for x in atooms.__path__ if os.path.realpath(x) != os.path.realpath(p)]
    # a package is a package whatever the loader thinks of the folder
    if so:
        import types
        spec = importlib.util.spec_from_file_location(
            'atooms.postprocessing', os.path.join(p, 'postprocessing', '__init__.py'),
            submodule_search_locations=[os.path.join(p, 'postprocessing')])
        pkg = importlib.util.module_from_spec(spec)
        sys.modules['atooms.postprocessing'] = pkg
        for n in ('realspace_wrap', 'fourierspace_wrap'):
            f = [x for x in os.listdir(so) if x.startswith(n + '.') and x.endswith('.so')]
            if f:
                full = 'atooms.postprocessing.' + n
                s = importlib.util.spec_from_file_location(full, os.path.join(so, f[0]))
                m = importlib.util.module_from_spec(s)
                s.loader.exec_module(m)
                sys.modules[full] = m
                setattr(pkg, n, m)
        spec.loader.exec_module(pkg)
        atooms.postprocessing = pkg


def run_case(mod, case, repo):
    from .backend import ConcBackend, Invalid
    B = ConcBackend(case['inputs'])
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory(prefix='vtrun.') as tmp:
        os.chdir(tmp)
        try:
            mod.harness(B, **case['cfg'])
        except Invalid as e:
            return {'status': 'invalid', 'what': str(e)}
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            inside = [f for f in tb if os.path.realpath(f.filename).startswith(os.path.realpath(repo) + os.sep)]
            what = '%s: %s' % (type(e).__name__, e)
            if inside and B.ties == 0:
                f = inside[-1]
                return {'status': 'violated', 'what': 'exception %s at %s:%s in %s' % (
                    what, os.path.basename(f.filename), f.lineno, f.name)}
            return {'status': 'error', 'what': what + ' ' + ' > '.join(
                '%s:%s' % (os.path.basename(f.filename), f.lineno) for f in tb[-5:])}
        finally:
            os.chdir(cwd)
    if B.broken is not None:
        return {'status': 'violated' if B.ties == 0 else 'tie', 'what': B.broken}
    if B.claims == 0:
        return {'status': 'invalid', 'what': 'no claims reached'}
    return {'status': 'ok', 'what': '%d claims' % B.claims}


def main():
    import warnings
    import random
    warnings.simplefilter('ignore')
    path = os.path.abspath(sys.argv[1])
    with open(path) as fh:
        job = json.load(fh)
    repo = os.environ.get('VT_REPO', '/repo')
    setup(repo, os.environ.get('VT_SO'))
    import numpy
    numpy.seterr(all='ignore')
    mod = importlib.import_module('vt.props.' + job['module'])
    todo = [int(x) for x in sys.argv[2:]] or range(len(job['cases']))
    out = sys.stdout
    fd = os.dup(1)
    os.dup2(2, 1)
    out = os.fdopen(fd, 'w')
    for i in todo:
        out.write(json.dumps({'start': i}) + '\n')
        out.flush()
        random.seed(1)
        r = run_case(mod, job['cases'][i], repo)
        r['case'] = i
        out.write(json.dumps(r) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
