def azimuthal_average(image, center=None):
    raise NotImplementedError
