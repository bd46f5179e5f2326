"""replace a function of the code under test by a stand-in, wherever and under whatever name it was imported"""
import sys
class swapped(object):
    def __init__(self, fn, new): self.fn, self.new, self.sites = fn, new, []
    def __enter__(self):
        for n, m in list(sys.modules.items()):
            if m is not None and n.startswith('SUAVE'):
                for k, v in list(vars(m).items()):
                    if v is self.fn: self.sites.append((m, k)); setattr(m, k, self.new)
        return self.new
    def __exit__(self, *a):
        for m, k in self.sites: setattr(m, k, self.fn)
        self.sites = []
