"""The kernels compiled for replay, from their current source, with bounds checks"""

import os
import shutil
import subprocess
import sys
import threading


class Build(object):

    def __init__(self, repo, dest):
        self.repo, self.dest = repo, dest
        self.errors = []
        self.threads = [threading.Thread(target=self._one, args=(n,)) for n in ('realspace', 'fourierspace')]
        for t in self.threads:
            t.daemon = True
            t.start()

    def _one(self, n):
        src = os.path.join(self.repo, 'atooms', 'postprocessing', n + '.f90')
        work = os.path.join(self.dest, n)
        os.makedirs(work)
        shutil.copy(src, work)
        p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'numpy.f2py', '-c', '-m', n + '_wrap',
                            '--f90flags=-fcheck=bounds', n + '.f90'], cwd=work,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        so = [x for x in os.listdir(work) if x.endswith('.so')]
        if not so:
            self.errors.append('%s.f90 does not compile: %s' % (n, p.stdout.decode(errors='replace')[-800:]))
            return
        shutil.move(os.path.join(work, so[0]), os.path.join(self.dest, so[0]))

    def wait(self):
        for t in self.threads:
            t.join()
        return self.errors
