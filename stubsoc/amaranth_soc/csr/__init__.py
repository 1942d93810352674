import enum


class _Access(enum.Enum):
    R = "r"
    W = "w"
    RW = "rw"


class Element:
    Access = _Access


class FieldPort:
    Access = _Access


class FieldAction:
    pass


class Field:
    def __init__(self, *args):
        self.args = args


class Register:
    def __init_subclass__(cls, *, access=None, **kw):
        super().__init_subclass__(**kw)


class action:
    R = W = RW = FieldAction
