# -*- coding: utf-8 -*-
"""
Stand-in for openquake.nrmllib.risk.parsers
"""
from openquake.nrmllib.node import node_from_xml


class VulnerabilityModelParser(object):
    """Iterable over dictionaries, one per vulnerability function"""
    def __init__(self, source):
        self.source = source

    def __iter__(self):
        model = node_from_xml(self.source).vulnerabilityModel
        for vset in model.getnodes('discreteVulnerabilitySet'):
            for fn in vset.getnodes('discreteVulnerability'):
                yield dict(
                    ID=fn['vulnerabilityFunctionID'],
                    IMT=vset.IML['IMT'],
                    IML=map(float, vset.IML.text.split()),
                    lossRatio=map(float, fn.lossRatio.text.split()),
                    coefficientsVariation=map(
                        float, fn.coefficientsVariation.text.split()),
                    probabilisticDistribution=fn['probabilisticDistribution'])


class FragilityModelParser(object):
    """
    Iterable: first yields (format, limit states) then one tuple
    (taxonomy, iml, params, no_damage_limit) for each set of functions
    """
    def __init__(self, source):
        self.source = source

    def __iter__(self):
        model = node_from_xml(self.source).fragilityModel
        fmt = model['format']
        limit_states = model.limitStates.text.split()
        yield fmt, limit_states
        for ffs in model.getnodes('ffs'):
            taxonomy = ffs.taxonomy.text.strip()
            ndl = ffs.attrib.get('noDamageLimit')
            ndl = float(ndl) if ndl else None
            if fmt == 'discrete':
                iml = dict(IMT=ffs.IML['IMT'],
                           imls=map(float, ffs.IML.text.split()))
                params = [map(float, ffd.poEs.text.split())
                          for ffd in ffs.getnodes('ffd')]
            else:
                iml = dict(IMT=ffs.IML['IMT'], imls=None)
                params = [(float(ffc.params['mean']),
                           float(ffc.params['stddev']))
                          for ffc in ffs.getnodes('ffc')]
            yield taxonomy, iml, params, ndl
