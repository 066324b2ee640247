"""Minimal stand-in for mock.Mock"""


class Mock(object):
    def __init__(self, spec=None, side_effect=None, return_value=None, **kw):
        self.side_effect = side_effect
        self.return_value = return_value
        self.call_args_list = []
        self.call_count = 0
        self.parent = None
        self.method_calls = []
        vars(self).update(kw)

    def __call__(self, *args, **kw):
        self.call_count += 1
        if self.parent:
            self.parent[0].method_calls.append((self.parent[1], args, kw))
        self.call_args = (args, kw)
        self.call_args_list.append((args, kw))
        if self.side_effect is not None:
            return self.side_effect(*args, **kw)
        return self.return_value

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        m = Mock()
        m.parent = (self, name)
        setattr(self, name, m)
        return m
