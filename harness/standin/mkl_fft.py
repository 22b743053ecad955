"""Stand-in for Intel's package of this name (not installed here): the functions
tomopy calls, with their arguments and effects, computed by numpy."""
import numpy as np


def _done(x, y, overwrite_x):
    if overwrite_x and isinstance(x, np.ndarray) and np.iscomplexobj(x) and x.shape == y.shape and x.flags.writeable:
        x[...] = y          # in place, as the real one does
        return x
    return y


def fft(x, n=None, axis=-1, overwrite_x=False):
    return _done(x, np.fft.fft(x, n=n, axis=axis), overwrite_x)


def ifft(x, n=None, axis=-1, overwrite_x=False):
    return _done(x, np.fft.ifft(x, n=n, axis=axis), overwrite_x)


def fftn(x, shape=None, axes=None, overwrite_x=False, s=None):
    return _done(x, np.fft.fftn(x, s=shape or s, axes=axes), overwrite_x)


def ifftn(x, shape=None, axes=None, overwrite_x=False, s=None):
    return _done(x, np.fft.ifftn(x, s=shape or s, axes=axes), overwrite_x)


def fft2(x, shape=None, axes=(-2, -1), overwrite_x=False, s=None):
    return _done(x, np.fft.fft2(x, s=shape or s, axes=axes), overwrite_x)


def ifft2(x, shape=None, axes=(-2, -1), overwrite_x=False, s=None):
    return _done(x, np.fft.ifft2(x, s=shape or s, axes=axes), overwrite_x)
