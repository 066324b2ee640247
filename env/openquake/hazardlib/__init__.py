"""Stand-in for openquake.hazardlib (see /verif/DESIGN.md)"""
from openquake.hazardlib import (
    geo, mfd, pmf, scalerel, source, tom, gsim, const, site)
