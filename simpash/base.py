"""What every property's simulation provides."""
import os
import shutil

SCRATCH = '/tmp/simpash.%d' % os.getpid()     # of the process started last by exec; its workers inherit the name


def scratch(what):
    """an empty directory for this worker"""
    d = os.path.join(SCRATCH, '%s.%d' % (what, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    os.chmod(SCRATCH, 0o755)
    return d


def clean_up():
    shutil.rmtree(SCRATCH, ignore_errors=True)


class Prop:
    pid = None
    quick_n = 100000
    thorough_n = 6000000
    corpus_runs = 12
    time_unit = 'simulated system calls and stalls (ticks)'
    interleaving_measure = 'distinct hashes of the sequence of process switches'
    rule = ''
    real = []
    stubs = []
    assumptions = []

    def gen(self, r):
        raise NotImplementedError

    def run(self, case, ch, stats):
        raise NotImplementedError

    def shrink(self, case):
        return []

    def measure(self, case):
        return case

    def known(self, case, msg):
        """is this violation one of the listed findings?"""
        from .run import known_findings
        if not hasattr(self, '_known'):
            self._known = [f for f in known_findings() if f['property'] == self.pid]
        return any(self.same(f['case'], case) for f in self._known)

    def same(self, listed, case):
        return listed.get('argv') is not None and listed.get('argv') == case.get('argv')
