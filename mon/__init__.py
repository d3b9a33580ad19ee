"""Monitors for prodsys.

prodsys builds a pydantic TypeAdapter for every element of every simulation, which takes most of the time of a short
simulation. Here one adapter per type is kept for the whole process; it validates in the same way.
"""
import pydantic

_kept = {}


class KeptTypeAdapter(pydantic.TypeAdapter):
    def __new__(cls, type, *args, **kwargs):
        key = id(type)
        if args or kwargs:
            return super().__new__(cls)
        if key not in _kept:
            _kept[key] = (type, super().__new__(cls))
        return _kept[key][1]

    def __init__(self, type, *args, **kwargs):
        if not getattr(self, "_kept_ready", False):
            super().__init__(type, *args, **{"_parent_depth": 3, **kwargs})
            self._kept_ready = True


pydantic.TypeAdapter = KeptTypeAdapter
