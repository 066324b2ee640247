class Value(object):
    """Base class for objects compared by content"""
    def __eq__(self, other):
        return self.__class__ is other.__class__ and vars(self) == vars(other)

    def __ne__(self, other):
        return not self == other

    __hash__ = None

    def __repr__(self):
        return '<%s %s>' % (self.__class__.__name__, sorted(
            vars(self).items()))
