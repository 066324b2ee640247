"""
Stand-in for openquake.hazardlib.source. `count_ruptures` is the number of
bins with a nonzero rate times the number of points of the source.
"""


class BaseSeismicSource(object):
    _fields = ()

    def __init__(self, source_id, name, tectonic_region_type, mfd, **kw):
        self.source_id = source_id
        self.name = name
        self.tectonic_region_type = tectonic_region_type
        self.mfd = mfd
        missing = set(self._fields) - set(kw)
        extra = set(kw) - set(self._fields)
        if missing or extra:
            raise TypeError('%s: missing arguments %s, unknown arguments %s' %
                            (self.__class__.__name__, sorted(missing),
                             sorted(extra)))
        vars(self).update(kw)
        self.num_counts = 0
        self._check(kw)

    def _check(self, kw):
        rms = kw.get('rupture_mesh_spacing', 1)
        if not rms > 0:
            raise ValueError('rupture mesh spacing must be positive')
        if not kw.get('rupture_aspect_ratio', 1) > 0:
            raise ValueError('rupture aspect ratio must be positive')
        upper = kw.get('upper_seismogenic_depth', 0)
        lower = kw.get('lower_seismogenic_depth', 1)
        if not upper < lower:
            raise ValueError('lower seismogenic depth must be below '
                             'upper seismogenic depth')

    def _num_points(self):
        return 1

    def count_ruptures(self):
        return sum(1 for _mag, rate in self.mfd.get_annual_occurrence_rates()
                   if rate) * self._num_points()

    def __repr__(self):
        return '<%s %s>' % (self.__class__.__name__, self.source_id)


_COMMON = ('rupture_mesh_spacing', 'magnitude_scaling_relationship',
           'rupture_aspect_ratio', 'temporal_occurrence_model')


class PointSource(BaseSeismicSource):
    _fields = _COMMON + (
        'upper_seismogenic_depth', 'lower_seismogenic_depth', 'location',
        'nodal_plane_distribution', 'hypocenter_distribution')

    def _num_points(self):
        return len(self.nodal_plane_distribution.data) * len(
            self.hypocenter_distribution.data)


class AreaSource(PointSource):
    _fields = tuple(f for f in PointSource._fields if f != 'location') + (
        'polygon', 'area_discretization')

    def _num_points(self):
        return super(AreaSource, self)._num_points() * len(
            self.polygon.discretize(self.area_discretization))


class SimpleFaultSource(BaseSeismicSource):
    _fields = _COMMON + (
        'upper_seismogenic_depth', 'lower_seismogenic_depth', 'fault_trace',
        'dip', 'rake')


class ComplexFaultSource(BaseSeismicSource):
    _fields = _COMMON + ('edges', 'rake')


class CharacteristicFaultSource(BaseSeismicSource):
    _fields = ('surface', 'rake', 'temporal_occurrence_model')
