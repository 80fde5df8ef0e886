import numpy as np


def slope(density, r):
    """logarithmic derivative by finite differences between neighbouring radii"""
    return np.gradient(np.log(density(r)), np.log(r))


def kappa(alpha, x):
    """convergence of a circular lens of given deflection"""
    a = alpha(x)
    return 0.5 * (a / x + np.gradient(a, x))


def disk(alpha, kpa, rmax, n):
    """projected mass in critical densities, between 1e-3 rmax and rmax, by the trapezoidal rule on n logarithmic steps"""
    r = np.logspace(-3, 0.0, n) * rmax
    return np.trapezoid(kappa(alpha, r / kpa) * 2 * np.pi * r, r)


def surface_slope(hessian, r, *shape):
    """logarithmic derivative of the convergence of a lens model"""
    fxx, _, _, fyy = hessian(r, 0, *shape)
    return np.gradient(np.log(0.5 * (fxx + fyy)), np.log(r))
