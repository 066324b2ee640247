"""Stand-in for openquake.nrmllib (see /verif/DESIGN.md, environment model)"""

NAMESPACE = 'http://openquake.org/xmlns/nrml/0.4'
GML_NAMESPACE = 'http://www.opengis.net/gml'
SERIALIZE_NS_MAP = {None: NAMESPACE, 'gml': GML_NAMESPACE}
PARSE_NS_MAP = {'nrml': NAMESPACE, 'gml': GML_NAMESPACE}

# abridged content of the NRML schema: the known element names
KNOWN_TAGS = set('''nrml sourceModel pointSource areaSource simpleFaultSource
complexFaultSource characteristicFaultSource pointGeometry areaGeometry
simpleFaultGeometry complexFaultGeometry upperSeismoDepth lowerSeismoDepth
magScaleRel ruptAspectRatio truncGutenbergRichterMFD incrementalMFD
occurRates nodalPlaneDist nodalPlane hypoDepthDist hypoDepth dip rake
faultTopEdge intermediateEdge faultBottomEdge surface planarSurface topLeft
topRight bottomLeft bottomRight
logicTree logicTreeBranchingLevel logicTreeBranchSet logicTreeBranch
uncertaintyModel uncertaintyWeight config
vulnerabilityModel discreteVulnerabilitySet discreteVulnerability IML
lossRatio coefficientsVariation
fragilityModel description limitStates ffs taxonomy ffd ffc params poEs
exposureModel conversions area costTypes costType deductible insuranceLimit
assets asset location costs cost occupancies occupancy
gmfCollection gmfSet gmf node'''.split())


class InvalidFile(Exception):
    """Raised from custom file validation routines"""


def nrml_schema_file():
    """The path of the NRML schema"""
    return '/nonexistent/nrml.xsd'
