class Rupture(object):
    def __init__(self, mag, rake, tectonic_region_type, hypocenter,
                 surface, source_typology):
        if not mag > 0:
            raise ValueError('magnitude must be positive')
        self.mag = mag
        self.rake = rake
        self.tectonic_region_type = tectonic_region_type
        self.hypocenter = hypocenter
        self.surface = surface
        self.source_typology = source_typology
