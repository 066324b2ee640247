"""
Stand-in for openquake.nrmllib.models: plain value objects.
"""


class SourceModel(object):
    def __init__(self, name=None, sources=None):
        self.name = name
        self.sources = sources

    def __iter__(self):
        return iter(self.sources)


class _Base(object):
    _attrs = ()

    def __init__(self, *args, **kw):
        if len(args) > len(self._attrs):
            raise TypeError('too many arguments')
        for name in self._attrs:
            setattr(self, name, None)
        for name, value in zip(self._attrs, args):
            setattr(self, name, value)
        for name, value in kw.items():
            if name not in self._attrs:
                raise TypeError('unexpected argument %r' % name)
            setattr(self, name, value)


class SeismicSource(_Base):
    _attrs = ('id', 'name', 'trt')


class PointSource(SeismicSource):
    _attrs = SeismicSource._attrs + (
        'geometry', 'mag_scale_rel', 'rupt_aspect_ratio', 'mfd',
        'nodal_plane_dist', 'hypo_depth_dist')


class AreaSource(PointSource):
    pass


class SimpleFaultSource(SeismicSource):
    _attrs = SeismicSource._attrs + (
        'geometry', 'mag_scale_rel', 'rupt_aspect_ratio', 'mfd', 'rake')


class ComplexFaultSource(SimpleFaultSource):
    pass


class CharacteristicSource(SeismicSource):
    _attrs = SeismicSource._attrs + ('mfd', 'rake', 'surface')


class _Geometry(_Base):
    pass


class PointGeometry(_Geometry):
    _attrs = ('wkt', 'upper_seismo_depth', 'lower_seismo_depth')


class AreaGeometry(PointGeometry):
    pass


class SimpleFaultGeometry(_Geometry):
    _attrs = ('wkt', 'dip', 'upper_seismo_depth', 'lower_seismo_depth')


class ComplexFaultGeometry(_Geometry):
    _attrs = ('top_edge_wkt', 'bottom_edge_wkt', 'int_edges')

    def __init__(self, *args, **kw):
        super(ComplexFaultGeometry, self).__init__(*args, **kw)
        self.int_edges = [] if self.int_edges is None else self.int_edges


class PlanarSurface(_Base):
    _attrs = ('strike', 'dip', 'top_left', 'top_right', 'bottom_left',
              'bottom_right')


class Point(_Base):
    _attrs = ('longitude', 'latitude', 'depth')


class IncrementalMFD(_Base):
    _attrs = ('min_mag', 'bin_width', 'occur_rates')


class TGRMFD(_Base):
    _attrs = ('a_val', 'b_val', 'min_mag', 'max_mag')


class NodalPlane(_Base):
    _attrs = ('probability', 'strike', 'dip', 'rake')


class HypocentralDepth(_Base):
    _attrs = ('probability', 'depth')


class SimpleFaultRuptureModel(_Base):
    _attrs = ('id', 'magnitude', 'rake', 'hypocenter', 'geometry')


class ComplexFaultRuptureModel(SimpleFaultRuptureModel):
    pass
