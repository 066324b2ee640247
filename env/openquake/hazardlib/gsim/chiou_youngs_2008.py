from openquake.hazardlib.gsim import ChiouYoungs2008
