from openquake.nrmllib.hazard.parsers import *
