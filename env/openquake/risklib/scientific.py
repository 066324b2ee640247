"""
Stand-in for openquake.risklib.scientific: value objects with the validity
checks of the original.
"""


class VulnerabilityFunction(object):
    def __init__(self, imt, imls, mean_loss_ratios, covs=None,
                 distribution_name='LN'):
        self.imt = imt
        self.imls = list(imls)
        self.mean_loss_ratios = list(mean_loss_ratios)
        self.covs = list(covs) if covs is not None else [0.] * len(self.imls)
        self.distribution_name = distribution_name
        if not all(x < y for x, y in zip(self.imls, self.imls[1:])):
            raise ValueError('IMLs must be strictly increasing')
        if not all(x >= 0.0 for x in self.imls):
            raise ValueError('IMLs must be non-negative')
        if not all(x >= 0.0 for x in self.covs):
            raise ValueError('The coefficients of variation must be >= 0')
        if len(self.mean_loss_ratios) != len(self.imls) or \
                len(self.covs) != len(self.imls):
            raise ValueError('Mismatching lengths')
        for lr, cov in zip(self.mean_loss_ratios, self.covs):
            if lr == 0.0 and cov > 0.0:
                raise ValueError(
                    "It is not valid to define a loss ratio = 0.0 with a "
                    "corresponding coeff. of varation > 0.0")


class FragilityFunctionDiscrete(object):
    def __init__(self, imls, poes, no_damage_limit=None):
        self.imls = list(imls)
        self.poes = list(poes)
        self.no_damage_limit = no_damage_limit
        if len(self.imls) != len(self.poes):
            raise ValueError('Mismatching lengths')
        self.interp = None


class FragilityFunctionContinuous(object):
    def __init__(self, mean, stddev):
        if not mean > 0:
            raise ValueError('the mean must be positive')
        self.mean = mean
        self.stddev = stddev
