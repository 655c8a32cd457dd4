# class-level attributes with a default, as the data model uses them
class HasTraits:
    def __init__(self, *args, **kwargs):
        for k, v in kwargs.items():
            setattr(self, k, v)
class Undefined:
    pass
class TraitType:
    plain = None
    def __init__(self, *args, default_value=Undefined, **kw):
        self.start = default_value
    def tag(self, **kw):
        return self
    def __get__(self, obj, cls=None):
        if self.start is Undefined:
            return self.plain
        return self.start
class Any(TraitType):
    pass
class Instance(TraitType):
    pass
class Float(TraitType):
    plain = 0.0
class Complex(TraitType):
    plain = 0.0
class Int(TraitType):
    plain = 0
class Bool(TraitType):
    plain = False
class Unicode(TraitType):
    plain = ""
class List(TraitType):
    def __get__(self, obj, cls=None):
        v = []
        setattr(obj, self.name, v)
        return v
Bunch = dict
def observe(*names):
    return lambda f: f
