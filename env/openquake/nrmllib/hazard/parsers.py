# -*- coding: utf-8 -*-
"""
Stand-in for openquake.nrmllib.hazard.parsers.

`SourceModelParser(fname)` looks in the dictionary `MODELS` for a list of
models registered with that name; otherwise it parses the NRML file.
"""
from decimal import Decimal
from openquake.nrmllib import models
from openquake.nrmllib.node import node_from_xml

MODELS = {}


class SourceModelParser(object):
    def __init__(self, source):
        self.source = source

    def parse(self):
        if isinstance(self.source, basestring) and self.source in MODELS:
            sources = MODELS[self.source]
            if callable(sources):
                sources = sources()
            return models.SourceModel('model', iter(sources))
        root = node_from_xml(self.source)
        sm = root.sourceModel
        return models.SourceModel(
            sm.attrib.get('name'), (_source(n) for n in sm.nodes))


def _text(node):
    return ' '.join((node.text or '').split())


def _coords(text, dim):
    vals = text.split()
    return ['%s' % ' '.join(vals[i:i + dim])
            for i in range(0, len(vals), dim)]


def _mfd(node):
    for sub in node:
        if sub.tag == 'truncGutenbergRichterMFD':
            return models.TGRMFD(
                float(sub['aValue']), float(sub['bValue']),
                float(sub['minMag']), float(sub['maxMag']))
        if sub.tag == 'incrementalMFD':
            return models.IncrementalMFD(
                float(sub['minMag']), float(sub['binWidth']),
                map(float, sub.occurRates.text.split()))


def _common(node):
    return dict(id=node['id'], name=node['name'], trt=node['tectonicRegion'])


def _first(node, *names):
    for name in names:
        node = getattr(node, name)
    return node


def _edges(geom):
    def line(n):
        return 'LINESTRING(%s)' % ', '.join(
            _coords(_text(_first(n, 'LineString', 'posList')), 3))
    return models.ComplexFaultGeometry(
        top_edge_wkt=line(geom.faultTopEdge),
        bottom_edge_wkt=line(geom.faultBottomEdge),
        int_edges=[line(n) for n in geom.getnodes('intermediateEdge')])


def _simple_geom(geom):
    return models.SimpleFaultGeometry(
        wkt='LINESTRING(%s)' % ', '.join(
            _coords(_text(_first(geom, 'LineString', 'posList')), 2)),
        dip=float(_text(geom.dip)),
        upper_seismo_depth=float(_text(geom.upperSeismoDepth)),
        lower_seismo_depth=float(_text(geom.lowerSeismoDepth)))


def _source(node):
    kw = _common(node)
    kw['mfd'] = _mfd(node)
    tag = node.tag
    if tag in ('pointSource', 'areaSource'):
        kw['mag_scale_rel'] = _text(node.magScaleRel)
        kw['rupt_aspect_ratio'] = float(_text(node.ruptAspectRatio))
        kw['nodal_plane_dist'] = [models.NodalPlane(
            Decimal(n['probability']), float(n['strike']), float(n['dip']),
            float(n['rake'])) for n in node.nodalPlaneDist]
        kw['hypo_depth_dist'] = [models.HypocentralDepth(
            Decimal(n['probability']), float(n['depth']))
            for n in node.hypoDepthDist]
        if tag == 'pointSource':
            geom = node.pointGeometry
            kw['geometry'] = models.PointGeometry(
                'POINT(%s)' % _text(_first(geom, 'Point', 'pos')),
                float(_text(geom.upperSeismoDepth)),
                float(_text(geom.lowerSeismoDepth)))
            return models.PointSource(**kw)
        geom = node.areaGeometry
        pts = _coords(_text(_first(geom, 'Polygon', 'exterior', 'LinearRing',
                                   'posList')), 2)
        kw['geometry'] = models.AreaGeometry(
            'POLYGON((%s))' % ', '.join(pts + pts[:1]),
            float(_text(geom.upperSeismoDepth)),
            float(_text(geom.lowerSeismoDepth)))
        return models.AreaSource(**kw)
    kw['rake'] = float(_text(node.rake))
    if tag == 'characteristicFaultSource':
        surf = node.surface
        first = surf.nodes[0]
        if first.tag == 'simpleFaultGeometry':
            kw['surface'] = _simple_geom(first)
        elif first.tag == 'complexFaultGeometry':
            kw['surface'] = _edges(first)
        else:
            def pt(n):
                return models.Point(float(n['lon']), float(n['lat']),
                                    float(n['depth']))
            kw['surface'] = [models.PlanarSurface(
                float(n['strike']), float(n['dip']), pt(n.topLeft),
                pt(n.topRight), pt(n.bottomLeft), pt(n.bottomRight))
                for n in surf.nodes]
        return models.CharacteristicSource(**kw)
    kw['mag_scale_rel'] = _text(node.magScaleRel)
    kw['rupt_aspect_ratio'] = float(_text(node.ruptAspectRatio))
    if tag == 'simpleFaultSource':
        kw['geometry'] = _simple_geom(node.simpleFaultGeometry)
        return models.SimpleFaultSource(**kw)
    assert tag == 'complexFaultSource', tag
    kw['geometry'] = _edges(node.complexFaultGeometry)
    return models.ComplexFaultSource(**kw)
