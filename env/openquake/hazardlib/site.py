class Site(object):
    def __init__(self, location, *args):
        self.location = location
        self.args = args


class SiteCollection(object):
    def __init__(self, sites):
        self.sites = list(sites)

    def __len__(self):
        return len(self.sites)
