import numpy as np


def enclosed(density, factor, kpa, rmin, rmax, n, *shape):
    """mass of a lens model between 1e-4 rmin and rmax, by the trapezoidal rule on n logarithmic steps"""
    r = np.logspace(-4, np.log10(rmax / rmin), n) * rmin
    return np.trapezoid(4 * np.pi * r ** 2 * factor * density(r / kpa, *shape), r)


def projected(hessian, rmax, n, *shape):
    """mass of a lens model in projection inside rmax, by the trapezoidal rule on n logarithmic steps, in critical densities"""
    x = np.logspace(-3.5, 0.0, n) * rmax
    fxx, _, _, fyy = hessian(x, 0, *shape)
    return np.trapezoid(0.5 * (fxx + fyy) * 2 * np.pi * x, x)
