"""Stand-in for openquake.risklib (see /verif/DESIGN.md)"""
