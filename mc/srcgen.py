"""Builders of seismic sources of all kinds, reference statistics"""
from openquake.hazardlib import geo, mfd, pmf, scalerel, source
from openquake.hazardlib.tom import PoissonTOM

MSR = scalerel.get_available_magnitude_scalerel()
MSR = [MSR[k] for k in sorted(MSR)]
TOM = PoissonTOM(50.)
TRTS = ['Volcanic', 'Active Shallow Crust', 'Subduction Interface']


def incr(min_mag=5.0, bin_width=0.5, rates=(0.1, 0.2)):
    return mfd.EvenlyDiscretizedMFD(min_mag, bin_width, list(rates))


def tgr(min_mag=5.0, max_mag=6.0, bin_width=0.5, a_val=3.0, b_val=1.0):
    return mfd.TruncatedGRMFD(min_mag, max_mag, bin_width, a_val, b_val)


PROBS = {1: [1.0], 2: [0.5, 0.5], 3: [0.5, 0.25, 0.25]}


def planes(n=1):
    return pmf.PMF([(PROBS[n][i], geo.NodalPlane(10. * i, 45. + i, 5. * i))
                    for i in range(n)])


def depths(n=1):
    return pmf.PMF([(PROBS[n][i], 4. + i) for i in range(n)])


def common(msr=0):
    return dict(rupture_mesh_spacing=2.0,
                magnitude_scaling_relationship=MSR[msr % len(MSR)](),
                rupture_aspect_ratio=1.5, temporal_occurrence_model=TOM)


def point(id, mfd, trt=TRTS[0], nplanes=1, ndepths=1):
    return source.PointSource(
        id, 'point ' + id, trt, mfd, upper_seismogenic_depth=1.,
        lower_seismogenic_depth=20., location=geo.Point(1., 2.),
        nodal_plane_distribution=planes(nplanes),
        hypocenter_distribution=depths(ndepths), **common())


def area(id, mfd, trt=TRTS[0], nx=2, ny=1, nplanes=1, ndepths=1, discr=10.):
    """An area with (nx + 1) * (ny + 1) points with step of 10 km"""
    poly = geo.Polygon([geo.Point(0., 0.), geo.Point(.1 * nx, 0.),
                        geo.Point(.1 * nx, .1 * ny), geo.Point(0., .1 * ny)])
    return source.AreaSource(
        id, 'area ' + id, trt, mfd, upper_seismogenic_depth=1.5,
        lower_seismogenic_depth=21., polygon=poly, area_discretization=discr,
        nodal_plane_distribution=planes(nplanes),
        hypocenter_distribution=depths(ndepths), **common(1))


def simple(id, mfd, trt=TRTS[0]):
    return source.SimpleFaultSource(
        id, 'simple ' + id, trt, mfd, upper_seismogenic_depth=1.2,
        lower_seismogenic_depth=22.,
        fault_trace=geo.Line([geo.Point(0., 0.), geo.Point(1., 1.)]),
        dip=30., rake=60., **common(2))


def cmplx(id, mfd, trt=TRTS[0]):
    return source.ComplexFaultSource(
        id, 'complex ' + id, trt, mfd, rake=70., edges=[
            geo.Line([geo.Point(0., 0., d), geo.Point(1., 1., d)])
            for d in (1., 5.)], **common(3))


def char(id, mfd, trt=TRTS[0]):
    return source.CharacteristicFaultSource(
        id, 'char ' + id, trt, mfd, rake=80., temporal_occurrence_model=TOM,
        surface=geo.PlanarSurface(2., 1., 2., geo.Point(0, 0),
                                  geo.Point(1, 0), geo.Point(1, 1),
                                  geo.Point(0, 1)))

MAKERS = dict(point=point, area=area, simple=simple, complex=cmplx, char=char)


def snapshot(src):
    """The full content of a source"""
    return repr(sorted((k, repr(v)) for k, v in vars(src).items()
                       if k not in ('num_counts',)))


class Array(object):
    """An object without truth value, like an array"""
    def __nonzero__(self):
        raise ValueError('the truth value of an array is ambiguous')

    def __eq__(self, other):
        return Array()
    __ne__ = __eq__


# anything different from None, returned by a filter which accepts a source
SITES = [['a site'], [], Array(), 0, False, '', ()]
