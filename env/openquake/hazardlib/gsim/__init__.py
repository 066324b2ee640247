from openquake.hazardlib.gsim.base import GroundShakingIntensityModel, GMPE


def _mk(name):
    return type(name, (GMPE,), {})

SadighEtAl1997 = _mk('SadighEtAl1997')
ChiouYoungs2008 = _mk('ChiouYoungs2008')
ToroEtAl2002 = _mk('ToroEtAl2002')
AkkarBommer2010 = _mk('AkkarBommer2010')


def get_available_gsims():
    import collections
    return collections.OrderedDict(
        (cls.__name__, cls) for cls in (
            AkkarBommer2010, ChiouYoungs2008, SadighEtAl1997, ToroEtAl2002))
