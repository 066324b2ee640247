class GroundShakingIntensityModel(object):
    pass


class GMPE(GroundShakingIntensityModel):
    pass
