"""
Builders of NRML sources and ruptures (models of nrmllib), with all their
parameters different from each other, and the corresponding reference
conversion as a dictionary of plain values.
"""
from decimal import Decimal
from openquake.nrmllib import models as M

MSRS = ['WC1994', 'PeerMSR']


def incr(min_mag=6.55, bin_width=0.1, rates=(0.0010614989, 8.8291627E-4)):
    return M.IncrementalMFD(min_mag=min_mag, bin_width=bin_width,
                            occur_rates=list(rates))


def tgr(a_val=-3.5, b_val=1.1, min_mag=5.0, max_mag=6.5):
    return M.TGRMFD(a_val=a_val, b_val=b_val, min_mag=min_mag,
                    max_mag=max_mag)


def planes(n=2):
    probs = {1: ['1.0'], 2: ['0.3', '0.7'], 3: ['0.2', '0.3', '0.5'],
             4: ['0.0', '0.25', '0.25', '0.5']}[n]
    if n == 4:  # a zero probability, the second plane repeated
        return [M.NodalPlane(Decimal(p), 10. + i, 60. + i, 20. + i)
                for i, p in zip([0, 1, 1, 2], probs)]
    return [M.NodalPlane(Decimal(p), 10. + i, 60. + i, 20. + i)
            for i, p in enumerate(probs)]


def depths(n=2):
    probs = {1: ['1.0'], 2: ['0.5', '0.5'], 3: ['0.1', '0.1', '0.8'],
             4: ['0.25', '0.0', '0.5', '0.25']}[n]
    if n == 4:  # a zero probability, the same depth twice
        return [M.HypocentralDepth(Decimal(p), 4. + i)
                for i, p in zip([0, 1, 2, 0], probs)]
    return [M.HypocentralDepth(Decimal(p), 4. + i)
            for i, p in enumerate(probs)]


def line(n=2, depth=None, shift=0.):
    pts = []
    for i in range(n):
        pts.append('%s %s%s' % (-121.8 + i + shift, 37.7 + i * .5,
                                '' if depth is None else ' %s' % depth))
    return 'LINESTRING(%s)' % ', '.join(pts)


def simple_geom(n=2):
    return M.SimpleFaultGeometry(wkt=line(n), dip=45.5,
                                 upper_seismo_depth=10.5,
                                 lower_seismo_depth=20.5)


def complex_geom(n_int=1):
    return M.ComplexFaultGeometry(
        top_edge_wkt=line(2, 5., 0.), bottom_edge_wkt=line(3, 30., .3),
        int_edges=[line(2, 10. + i, .1 * i) for i in range(n_int)])


def planar(i=0):
    def pt(lon, lat):
        return M.Point(lon + i, lat, 1. + i)
    return M.PlanarSurface(
        strike=1. + i, dip=2. + i, top_left=pt(-1, 1), top_right=pt(1, 1.5),
        bottom_left=pt(-1, -1), bottom_right=pt(1, -1.5))


def point(id='2', name='point source', trt='Stable Continental Crust',
          mfd=None, nplanes=2, ndepths=2, msr='WC1994'):
    return M.PointSource(
        id=id, name=name, trt=trt, geometry=M.PointGeometry(
            wkt='POINT(-122.0 38.5)', upper_seismo_depth=0.5,
            lower_seismo_depth=10.25),
        mag_scale_rel=msr, rupt_aspect_ratio=0.75, mfd=mfd or tgr(),
        nodal_plane_dist=planes(nplanes), hypo_depth_dist=depths(ndepths))


def area(id='1', name='area source', trt='Active Shallow Crust',
         mfd=None, nplanes=2, ndepths=2, msr='PeerMSR', npoints=4):
    pts = ['-122.5 37.5', '-121.5 37.75', '-121.25 38.5', '-122.25 38.25',
           '-122.75 38.0'][:npoints]
    return M.AreaSource(
        id=id, name=name, trt=trt, geometry=M.AreaGeometry(
            wkt='POLYGON((%s))' % ', '.join(pts + pts[:1]),
            upper_seismo_depth=1.5, lower_seismo_depth=11.5),
        mag_scale_rel=msr, rupt_aspect_ratio=1.25, mfd=mfd or incr(),
        nodal_plane_dist=planes(nplanes), hypo_depth_dist=depths(ndepths))


def simple(id='3', name='simple fault', trt='Volcanic', mfd=None, npoints=2,
           msr='WC1994'):
    return M.SimpleFaultSource(
        id=id, name=name, trt=trt, geometry=simple_geom(npoints),
        mag_scale_rel=msr, rupt_aspect_ratio=1.5, mfd=mfd or incr(),
        rake=30.5)


def cmplx(id='4', name='complex fault', trt='Subduction Interface', mfd=None,
          nint=1, msr='PeerMSR'):
    return M.ComplexFaultSource(
        id=id, name=name, trt=trt, geometry=complex_geom(nint),
        mag_scale_rel=msr, rupt_aspect_ratio=2.5, mfd=mfd or tgr(),
        rake=31.5)


def char_simple(id='5', name='char, simple', trt='Volcanic', mfd=None,
                npoints=2):
    return M.CharacteristicSource(id=id, name=name, trt=trt,
                                  mfd=mfd or tgr(), rake=32.5,
                                  surface=simple_geom(npoints))


def char_complex(id='6', name='char, complex', trt='Volcanic', mfd=None,
                 nint=1):
    return M.CharacteristicSource(id=id, name=name, trt=trt,
                                  mfd=mfd or incr(), rake=33.5,
                                  surface=complex_geom(nint))


def char_multi(id='7', name='char, multi', trt='Volcanic', mfd=None,
               nplanar=2):
    return M.CharacteristicSource(id=id, name=name, trt=trt,
                                  mfd=mfd or incr(), rake=34.5,
                                  surface=map(planar, range(nplanar)))

MAKERS = dict(point=point, area=area, simple=simple, complex=cmplx,
              char_simple=char_simple, char_complex=char_complex,
              char_multi=char_multi)


def snapshot(obj):
    """The whole content of a model as a nested structure"""
    if hasattr(obj, '__dict__'):
        return (obj.__class__.__name__, sorted(
            (k, snapshot(v)) for k, v in vars(obj).items()))
    elif isinstance(obj, (list, tuple)):
        return map(snapshot, obj)
    return repr(obj)
