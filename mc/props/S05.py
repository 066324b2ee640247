"""
All the 7 kinds of sources and the 2 kinds of ruptures, with all the
combinations of their options (distributions of magnitudes, nodal planes,
depths and scaling relations, number of points, edges and planes) and of 3
converters (12 parameters sets in the thorough tier); all the sequences of 2
conversions (thorough: 3) with the same or different converters, checking
that neither the result nor the elements depend on the previous ones; 30
single corruptions of the elements, with names and identifiers over 6 texts.
The parameters have all different values.
"""
import itertools
from decimal import Decimal
from mclib import check, fail, seqs
import nrmlsrc
from openquake.commonlib import source as S
from openquake.nrmllib import models as M
from openquake.hazardlib import geo, mfd, pmf, scalerel, source
from openquake.hazardlib.tom import PoissonTOM
from shapely import wkt

QUICK_SHARDS = 2
PARAMS = [(50., 2., .5, 10.), (None, 1.5, .1, 20.), (1., 3., 1.0, 5.),
          (.5, 2.5, .25, 7.)]
MORE = list(itertools.product([50., None, 0.5], [1., 2.5, 4.], [.1, .25], [7.]))
TEXTS = ['x1', '', 'a b', 'src-1', '100%', '%s']


def rupture_simple(npoints=2, mag=7.65, rake=15.5):
    return M.SimpleFaultRuptureModel(
        id='r1', magnitude=mag, rake=rake, hypocenter=[-1.5, 2.5, 3.5],
        geometry=nrmlsrc.simple_geom(npoints))


def rupture_complex(nint=1, mag=8.65, rake=16.5):
    return M.ComplexFaultRuptureModel(
        id='r2', magnitude=mag, rake=rake, hypocenter=[1.5, -2.5, 4.5],
        geometry=nrmlsrc.complex_geom(nint))

# kind -> (maker, options)
MFDS = dict(incr=nrmlsrc.incr, tgr=nrmlsrc.tgr,
            long=lambda: nrmlsrc.incr(5., .2, (.1, .0, .3, .4)))
DISTS = dict(mfd=sorted(MFDS), nplanes=[1, 2, 3, 4], ndepths=[1, 2, 3, 4],
             msr=nrmlsrc.MSRS)
KINDS = dict(
    point=(nrmlsrc.point, DISTS),
    area=(nrmlsrc.area, dict(DISTS, npoints=[3, 4, 5])),
    simple=(nrmlsrc.simple, dict(mfd=sorted(MFDS), npoints=[2, 3, 4],
                                 msr=nrmlsrc.MSRS)),
    complex=(nrmlsrc.cmplx, dict(mfd=sorted(MFDS), nint=[0, 1, 2, 3],
                                 msr=nrmlsrc.MSRS)),
    char_simple=(nrmlsrc.char_simple, dict(mfd=sorted(MFDS),
                                           npoints=[2, 3])),
    char_complex=(nrmlsrc.char_complex, dict(mfd=sorted(MFDS),
                                             nint=[0, 1, 2])),
    char_multi=(nrmlsrc.char_multi, dict(mfd=sorted(MFDS),
                                         nplanar=[1, 2, 3])),
    rupture_simple=(rupture_simple, dict(npoints=[2, 3], rake=[-90., 15.5])),
    rupture_complex=(rupture_complex, dict(nint=[0, 1, 2],
                                           rake=[-90., 15.5])))


def build(kind, opts):
    opts = dict(opts)
    if 'mfd' in opts:
        opts['mfd'] = MFDS[opts['mfd']]()
    return KINDS[kind][0](**opts)


def cases(tier):
    for kind in sorted(KINDS):
        yield ['convert', kind, tier]
    n = 2 if tier == 'quick' else 3
    for kinds in seqs(sorted(KINDS), n, 2):
        for params in ([[0] * len(kinds), [0, 1, 2][:len(kinds)]]):
            yield ['sequence', kinds, params]
    for kind in sorted(KINDS):
        if not kind.startswith('rupture'):
            yield ['invalid', kind]
    yield ['unknown']


# --------------------- the reference conversion -------------------------- #

def points(text):
    return [geo.Point(*c) for c in wkt.loads(text).coords]


def edges(geom):
    texts = [geom.top_edge_wkt] + list(geom.int_edges) + [
        geom.bottom_edge_wkt]
    return [geo.Line(points(t)) for t in texts]


def ref_mfd(m, width):
    if isinstance(m, M.TGRMFD):
        return mfd.TruncatedGRMFD(m.min_mag, m.max_mag, width, m.a_val,
                                  m.b_val)
    return mfd.EvenlyDiscretizedMFD(m.min_mag, m.bin_width, m.occur_rates)


def ref_surface(surf, spacing):
    if isinstance(surf, M.SimpleFaultGeometry):
        return geo.SimpleFaultSurface.from_fault_data(
            geo.Line(points(surf.wkt)), surf.upper_seismo_depth,
            surf.lower_seismo_depth, surf.dip, spacing)
    elif isinstance(surf, M.ComplexFaultGeometry):
        return geo.ComplexFaultSurface.from_fault_data(edges(surf), spacing)
    return geo.MultiSurface([
        geo.PlanarSurface(spacing, p.strike, p.dip, p.top_left, p.top_right,
                          p.bottom_right, p.bottom_left) for p in surf])


def reference(kind, src, params):
    """The expected class and fields"""
    time, spacing, width, discr = params
    if kind.startswith('rupture'):
        surf = ref_surface(src.geometry, spacing)
        return 'Rupture', dict(
            mag=src.magnitude, rake=src.rake, tectonic_region_type=None,
            hypocenter=geo.Point(*src.hypocenter), surface=surf,
            source_typology=source.SimpleFaultSource
            if kind == 'rupture_simple' else source.ComplexFaultSource)
    fields = dict(source_id=src.id, name=src.name,
                  tectonic_region_type=src.trt, mfd=ref_mfd(src.mfd, width),
                  temporal_occurrence_model=PoissonTOM(time) if time
                  else None)
    if kind.startswith('char'):
        fields.update(surface=ref_surface(src.surface, spacing),
                      rake=src.rake)
        return 'CharacteristicFaultSource', fields
    fields.update(
        rupture_mesh_spacing=spacing,
        rupture_aspect_ratio=src.rupt_aspect_ratio,
        magnitude_scaling_relationship=scalerel.
        get_available_magnitude_scalerel()[src.mag_scale_rel]())
    if kind in ('point', 'area', 'simple'):
        fields.update(
            upper_seismogenic_depth=src.geometry.upper_seismo_depth,
            lower_seismogenic_depth=src.geometry.lower_seismo_depth)
    if kind in ('point', 'area'):
        fields.update(
            nodal_plane_distribution=pmf.PMF(
                [(p.probability, geo.NodalPlane(p.strike, p.dip, p.rake))
                 for p in src.nodal_plane_dist]),
            hypocenter_distribution=pmf.PMF(
                [(d.probability, d.depth) for d in src.hypo_depth_dist]))
    if kind == 'point':
        fields['location'] = geo.Point(*wkt.loads(src.geometry.wkt).coords[0])
        return 'PointSource', fields
    elif kind == 'area':
        ring = [geo.Point(*c) for c in
                wkt.loads(src.geometry.wkt).exterior.coords]
        fields.update(polygon=geo.Polygon(ring[:-1]),
                      area_discretization=discr)
        return 'AreaSource', fields
    fields['rake'] = src.rake
    if kind == 'simple':
        fields.update(fault_trace=geo.Line(points(src.geometry.wkt)),
                      dip=src.geometry.dip)
        return 'SimpleFaultSource', fields
    fields['edges'] = edges(src.geometry)
    return 'ComplexFaultSource', fields


def compare(T, kind, src, params, converter=None, what=''):
    before = nrmlsrc.snapshot(src)
    if converter is None:
        converter = S.NrmlHazardlibConverter(*params)
    got = converter(src)
    check(nrmlsrc.snapshot(src) == before, 'modified',
          'the conversion changed %s into %s', before, nrmlsrc.snapshot(src))
    cls, want = reference(kind, src, params)
    check(got.__class__.__name__ == cls, 'class', '%s%s is converted into '
          '%r', what, kind, got)
    fields = dict((k, v) for k, v in vars(got).items() if k != 'num_counts')
    check(sorted(fields) == sorted(want), 'fields', '%s%s has the fields %s',
          what, kind, sorted(fields))
    for k in want:
        check(repr(fields[k]) == repr(want[k]), 'value', '%s%s: %s is %r '
              'instead of %r', what, kind, k, fields[k], want[k])
    T.step()
    return got


def run_convert(T, kind, tier):
    opts = KINDS[kind][1]
    names = sorted(opts)
    for values in itertools.product(*[opts[n] for n in names]):
        for params in PARAMS + (MORE if tier != 'quick' else []):
            src = build(kind, zip(names, values))
            compare(T, kind, src, params)
            T.state(kind, values, params)
    T.trace()
    T.outcome('convert')


def run_sequence(T, kinds, params):
    convs = [S.NrmlHazardlibConverter(*p) for p in PARAMS]
    srcs = dict((k, build(k, {})) for k in kinds)
    results = []
    for kind, p in zip(kinds, params):
        results.append(compare(T, kind, srcs[kind], PARAMS[p], convs[p],
                               'after %s: ' % kinds[:len(results)]))
    for kind, p, res in zip(kinds, params, results):
        cls, want = reference(kind, srcs[kind], PARAMS[p])
        for k in want:
            check(repr(getattr(res, k)) == repr(want[k]), 'later',
                  'the field %s of %s changed with a later conversion', k,
                  kind)
    T.state(kinds, params)
    T.trace()
    T.outcome('sequence')


def put(path, value):
    def corrupt(src):
        obj = src
        names = path.split('.')
        for name in names[:-1]:
            obj = obj[int(name)] if name.isdigit() else getattr(obj, name)
        setattr(obj, names[-1], value)
    return corrupt

# (kinds, corruption, exception)
ALL = ['point', 'area', 'simple', 'complex', 'char_simple', 'char_complex',
       'char_multi']
DIST = ['point', 'area']
FAULTS = ['simple', 'complex']
BAD_TGR = M.TGRMFD(a_val=1., b_val=1., min_mag=7., max_mag=6.)
CORRUPTIONS = [
    (ALL, put('mfd', BAD_TGR), 'ValueError', 'maximum magnitude'),
    (ALL, put('mfd', M.TGRMFD(1., -1., 5., 6.)), 'ValueError', 'b value'),
    (ALL, put('mfd', M.IncrementalMFD(5., .1, [])), 'ValueError',
     'at least one bin'),
    (ALL, put('mfd', M.IncrementalMFD(5., 0, [.1])), 'ValueError',
     'bin width'),
    (ALL, put('mfd', M.IncrementalMFD(-5., .1, [.1])), 'ValueError',
     'minimum magnitude'),
    (DIST + FAULTS, put('mag_scale_rel', 'Unknown'), 'KeyError', 'Unknown'),
    (DIST + FAULTS, put('rupt_aspect_ratio', 0), 'ValueError', 'aspect'),
    (DIST + FAULTS, put('rupt_aspect_ratio', -1.), 'ValueError', 'aspect'),
    (DIST + ['simple'], put('geometry.upper_seismo_depth', 500.),
     'ValueError', 'depth'),
    (DIST, put('nodal_plane_dist.0.probability', Decimal('0.9')),
     'ValueError', 'sum'),
    (DIST, put('nodal_plane_dist.0.dip', 0.), 'ValueError', 'dip'),
    (DIST, put('nodal_plane_dist.1.strike', 400.), 'ValueError', 'strike'),
    (DIST, put('hypo_depth_dist.0.probability', Decimal('0.6')),
     'ValueError', 'sum'),
    (DIST + ['simple'], put('geometry.wkt', 'NONSENSE'), 'ReadingError',
     'geometry'),
    (['point'], put('geometry.wkt', 'POINT(200 0)'), 'ValueError',
     'longitude'),
    (['area'], put('geometry.wkt', 'POLYGON((0 0, 1 99, 1 1, 0 0))'),
     'ValueError', 'latitude'),
    (['simple'], put('geometry.wkt', 'LINESTRING(0 0, 1 -91)'), 'ValueError',
     'latitude'),
    (['complex'], put('geometry.top_edge_wkt', 'X'), 'ReadingError',
     'geometry'),
    (['complex'], put('geometry.bottom_edge_wkt',
                      'LINESTRING(0 0 1, 181 0 1)'), 'ValueError',
     'longitude'),
    (['complex'], put('geometry.int_edges', ['X']), 'ReadingError',
     'geometry'),
    (['char_simple'], put('surface.wkt', 'X'), 'ReadingError', 'geometry'),
    (['char_simple'], put('surface.dip', 91.), 'ValueError', 'dip'),
    (['char_complex'], put('surface.top_edge_wkt', 'X'), 'ReadingError',
     'geometry'),
    (['char_complex'], put('surface.int_edges', ['X']), 'ReadingError',
     'geometry')]


def run_invalid(T, kind):
    for i, (kinds, corrupt, cls, text) in enumerate(CORRUPTIONS):
        if kind not in kinds:
            continue
        for id, name in [(a, b) for a in TEXTS for b in TEXTS]:
            src = build(kind, {})
            src.id, src.name = id, name
            corrupt(src)
            invalid(T, kind, i, src, PARAMS[0], cls, text)
    for params, cls, text in [((50., 0., .5, 10.), 'ValueError', 'spacing'),
                              ((50., -1., .5, 10.), 'ValueError', 'spacing'),
                              ((50., 2., None, 10.), 'AssertionError', '')]:
        src = build(kind, {})
        src.mfd = nrmlsrc.tgr()
        invalid(T, kind, params, src, params, cls, text)
        # the converter and the source can be used after an error
        src = build(kind, {})
        compare(T, kind, src, PARAMS[0])
    T.trace()
    T.outcome('invalid')


def invalid(T, kind, i, src, params, cls, text):
    try:
        got = S.NrmlHazardlibConverter(*params)(src)
    except Exception as e:
        check(e.__class__.__name__ == cls, 'error-class', 'the error for %s '
              'with the corruption %s is %r instead of %s', kind, i, e, cls)
        msg = str(e)
        for t in (text, "'%s'" % src.id, "'%s'" % src.name):
            check(t in msg or repr(t)[1:-1] in msg, 'error-text',
                  'the error for %s with the corruption %s is %r', kind, i,
                  msg)
    else:
        fail('no-error', 'no error for %s with the corruption %s: %r', kind,
             i, got)
    T.step()
    T.state('invalid', kind, i, src.id, src.name)


def run_unknown(T):
    """The classes derived from the known ones are converted too"""
    for kind in sorted(KINDS):
        src = build(kind, {})
        cls = src.__class__
        src.__class__ = type(cls.__name__ + 'Sub', (cls,), {})
        compare(T, kind, src, PARAMS[0])
    T.trace()
    T.outcome('subclasses')


def run(case, T):
    globals()['run_' + case[0]](T, *case[1:])
