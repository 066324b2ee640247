from openquake.hazardlib.source.base import (
    BaseSeismicSource, PointSource, AreaSource, SimpleFaultSource,
    ComplexFaultSource, CharacteristicFaultSource)
from openquake.hazardlib.source import rupture
