"""projected NFW profile"""
import numpy as np


def bartelmann(x):
    """(1 - F(x)) / (x^2 - 1) of the projected NFW density"""
    if x < 1:
        f = np.arctanh(np.sqrt(1 - x ** 2)) / np.sqrt(1 - x ** 2)
    else:
        f = np.arctan(np.sqrt(-1 + x ** 2)) / np.sqrt(-1 + x ** 2)
    return (1 - f) / (x ** 2 - 1)
