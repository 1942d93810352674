class MemoryMap:
    """Records what is placed in it; no allocation is modelled."""

    def __init__(self, *, addr_width, data_width, alignment=0):
        self.addr_width, self.data_width = addr_width, data_width
        self.resources = []

    def add_resource(self, resource, *, name, size, addr=None):
        self.resources.append((resource, name, size))
