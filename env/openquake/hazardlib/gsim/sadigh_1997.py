from openquake.hazardlib.gsim import SadighEtAl1997
