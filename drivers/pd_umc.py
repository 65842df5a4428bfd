"""UMC_generic with a source of samples that hands out the rows of a given array one after the other."""
import numpy as np

from PyDynamic.uncertainty.propagate_MonteCarlo import UMC_generic


class Source:
    def __init__(self, data):
        self.data = data
        self.used = 0

    def draw(self, size):
        block = self.data[self.used : self.used + size]
        self.used = self.used + size
        return block


def response(sample):
    return np.arctan(sample)


def umc(data, runs, blocksize, runs_init, nbins, return_samples, n_cpu=1):
    out = UMC_generic(
        Source(data).draw, response, runs=runs, blocksize=blocksize, runs_init=runs_init,
        nbins=nbins, return_samples=return_samples, n_cpu=n_cpu,
    )
    hist = out[2][nbins if isinstance(nbins, int) else nbins[0]]
    return out + (hist["bin-edges"], hist["bin-counts"])
