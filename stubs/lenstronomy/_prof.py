import numpy as np


class Profile(object):
    _id = 1.0

    def _v(self, tag, *a):
        s = 0.37 * self._id + 0.11 * tag
        for i, x in enumerate(a):
            s = s + (0.5 + 0.13 * i) * np.log1p(np.abs(x))
        return s

    def _mass(self, tag, r, a, b, *more):
        return a * b * r ** 2 / (1 + r) * (1.0 + 0.01 * self._v(tag, *more))

    def _density(self, tag, r, a, b, *more):
        return b / (1.0 + r / a) ** 2 * (1.0 + 0.01 * self._v(tag, *more))

    def _conv(self, tag, a, rs, *more):
        return a * (4.0 * rs ** 2 * (1.0 + np.log(0.5))) * (1.0 + 0.01 * self._v(tag, *more))

    def _derivatives(self, dx, dy, *a):
        s = self._v(7, *a)
        return dx * s, dy * s

    def _hessian(self, dx, dy, *a):
        s = self._v(8, dx, dy, *a)
        return s, 0.1 * s, 0.1 * s, 1.2 * s
