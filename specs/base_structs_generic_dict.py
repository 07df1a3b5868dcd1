"""Reference definitions for seyfert.base_structs.generic_dict."""
from abc import ABC
from seyfert.base_structs.generic_dict import GenericDictInterface
from typing import Dict, TypeVar, Mapping

_KeyType = TypeVar('_KeyType')
_ValueType = TypeVar('_ValueType')

constants("seyfert.base_structs.generic_dict", '_KeyType', '_ValueType')


@shape("seyfert.base_structs.generic_dict.GenericDictInterface")
class s_GenericDictInterface(Mapping[_KeyType, _ValueType], ABC):
    _base_dict: 'Dict[_KeyType, _ValueType]'


@shape("seyfert.base_structs.generic_dict.DictLike")
class s_DictLike(dict):
    pass


@of("seyfert.base_structs.generic_dict.GenericDictInterface.__init__", ret=False)
def r_GenericDictInterface_init(self, data_dict=None):
    self._base_dict = {}
    if isinstance(data_dict, dict):
        self._base_dict = data_dict


@of("seyfert.base_structs.generic_dict.GenericDictInterface.base_dict", kind='property')
def r_GenericDictInterface_base_dict(self):
    return self._base_dict


@of("seyfert.base_structs.generic_dict.GenericDictInterface.keys")
def r_GenericDictInterface_keys(self):
    return list(super(GenericDictInterface, self).keys())


@of("seyfert.base_structs.generic_dict.GenericDictInterface.__setitem__", ret=False)
def r_GenericDictInterface_setitem(self, k, v):
    self._base_dict[k] = v


@of("seyfert.base_structs.generic_dict.GenericDictInterface.__delitem__", ret=False)
def r_GenericDictInterface_delitem(self, k):
    del self._base_dict[k]


@of("seyfert.base_structs.generic_dict.GenericDictInterface.__getitem__")
def r_GenericDictInterface_getitem(self, k):
    return self._base_dict[k]


@of("seyfert.base_structs.generic_dict.GenericDictInterface.__len__")
def r_GenericDictInterface_len(self):
    return len(self._base_dict)


@of("seyfert.base_structs.generic_dict.GenericDictInterface.__iter__")
def r_GenericDictInterface_iter(self):
    return iter(self._base_dict)


@of("seyfert.base_structs.generic_dict.GenericDictInterface.__eq__")
def r_GenericDictInterface_eq(self, other):
    return self._base_dict == other._base_dict


@of("seyfert.base_structs.generic_dict.GenericDictInterface.__repr__")
def r_GenericDictInterface_repr(self):
    return self._base_dict.__repr__()


@of("seyfert.base_structs.generic_dict.GenericDictInterface.update", ret=False)
def r_GenericDictInterface_update(self, other):
    self._base_dict.update(other)


@of("seyfert.base_structs.generic_dict.DictLike.__init__", ret=False)
def r_DictLike_init(self):
    super().__init__()


@of("seyfert.base_structs.generic_dict.DictLike.__getattr__")
def r_DictLike_getattr(self, name):
    if name in self:
        return self[name]
    else:
        raise AttributeError()


@of("seyfert.base_structs.generic_dict.DictLike.__setattr__", ret=False)
def r_DictLike_setattr(self, name, value):
    self[name] = value


@of("seyfert.base_structs.generic_dict.DictLike.__delattr__", ret=False)
def r_DictLike_delattr(self, name):
    if name in self:
        del self[name]
    else:
        raise AttributeError()

