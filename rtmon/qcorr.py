"""Correction functions named in generated hardware configurations."""
import numpy as np

def echo(wave, gains):
    """The signal with delayed copies: gains[k] of the sample k earlier."""
    y = np.zeros(len(wave), dtype=np.result_type(wave, float))
    for k, g in enumerate(gains):
        if k < len(wave): y[k:] = y[k:] + g * np.asarray(wave)[:len(wave) - k]
    return y

def cubic(sig, c):
    """A memoryless non-linear correction of each quadrature."""
    f = lambda v: v * c[0] + c[1] * v ** 3
    return f(sig.real) + 1j * f(sig.imag) if np.iscomplexobj(sig) else f(sig)
