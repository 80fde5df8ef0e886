class LensModelExtensions(object):
    def __init__(self, lens_model):
        self.lens_model = lens_model
