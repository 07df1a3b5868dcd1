"""Reference definitions for seyfert.base_structs.cl_dict."""
from seyfert import PROBE_LONG_TO_ALIAS
from seyfert.base_structs.cl_dict import ClDict
from seyfert.base_structs.cl_dict import FlexDict
from seyfert.base_structs.cl_dict import TupleSmartDict
from seyfert.base_structs.generic_dict import GenericDictInterface
from seyfert.utils import general_utils as gu
from typing import Tuple
import numpy as np

_fullname_to_alias_map = {key: value for key, value in PROBE_LONG_TO_ALIAS.items()}
_alias_to_fullname_map = {value: key for key, value in _fullname_to_alias_map.items()}

constants("seyfert.base_structs.cl_dict", '_fullname_to_alias_map', '_alias_to_fullname_map')


@shape("seyfert.base_structs.cl_dict.FlexDict")
class s_FlexDict(GenericDictInterface[str, np.ndarray]):
    _base_dict: 'Dict[str, np.ndarray]'


@shape("seyfert.base_structs.cl_dict.ClDict")
class s_ClDict(FlexDict):
    pass


@shape("seyfert.base_structs.cl_dict.TupleSmartDict")
class s_TupleSmartDict(GenericDictInterface[Tuple[str, str], np.ndarray]):
    pass


@shape("seyfert.base_structs.cl_dict.ClSmartDict")
class s_ClSmartDict(TupleSmartDict):
    pass


@of("seyfert.base_structs.cl_dict.FlexDict.__init__", ret=False)
def r_FlexDict_init(self, data_dict=None):
    super(FlexDict, self).__init__(data_dict=data_dict)


@of("seyfert.base_structs.cl_dict.FlexDict.transform")
def r_FlexDict_transform(self, X):
    return X


@of("seyfert.base_structs.cl_dict.FlexDict.base_dict", kind='property')
def r_FlexDict_base_dict(self):
    return self._base_dict


@of("seyfert.base_structs.cl_dict.FlexDict.alias_to_fullname", kind='static')
def r_FlexDict_alias_to_fullname(p):
    return _alias_to_fullname_map[p]


@of("seyfert.base_structs.cl_dict.FlexDict.fullname_to_alias", kind='static')
def r_FlexDict_fullname_to_alias(p):
    return _fullname_to_alias_map[p]


@of("seyfert.base_structs.cl_dict.FlexDict.tuple_keys", kind='property')
def r_FlexDict_tuple_keys(self):
    return [self.str_key_to_tuple_key(key) for key in self.keys()]


@of("seyfert.base_structs.cl_dict.FlexDict.__getitem__")
def r_FlexDict_getitem(self, key):
    try:
        return self._base_dict[key]
    except KeyError:
        if isinstance(key, str):
            rev_key = gu.reverse_probes_comb_key(key)
            return self.transform(self._base_dict[rev_key])
        elif isinstance(key, tuple):
            p1, p2 = key
            p1 = self.alias_to_fullname(p1)
            p2 = self.alias_to_fullname(p2)
            try:
                return self._base_dict[gu.get_probes_combination_key(p1, p2)]
            except KeyError:
                return self.transform(self._base_dict[gu.get_probes_combination_key(p2, p1)])
        else:
            raise TypeError()


@of("seyfert.base_structs.cl_dict.FlexDict.tuple_key_to_str_key")
def r_FlexDict_tuple_key_to_str_key(self, tpl_key):
    p1, p2 = tpl_key
    p1 = self.alias_to_fullname(p1)
    p2 = self.alias_to_fullname(p2)
    key = gu.get_probes_combination_key(p1, p2)
    if key in self:
        return key
    else:
        return gu.reverse_probes_comb_key(key)


@of("seyfert.base_structs.cl_dict.FlexDict.str_key_to_tuple_key")
def r_FlexDict_str_key_to_tuple_key(self, str_key):
    p1, p2 = gu.get_probes_from_comb_key(str_key)
    p1 = self.fullname_to_alias(p1)
    p2 = self.fullname_to_alias(p2)
    return (p1, p2)


@of("seyfert.base_structs.cl_dict.ClDict.__init__", ret=False)
def r_ClDict_init(self, data_dict=None):
    super(ClDict, self).__init__(data_dict=data_dict)


@of("seyfert.base_structs.cl_dict.ClDict.transform")
def r_ClDict_transform(self, X):
    return np.transpose(X, axes=(0, 2, 1))


@of("seyfert.base_structs.cl_dict.TupleSmartDict.transform")
def r_TupleSmartDict_transform(self, X):
    return X


@of("seyfert.base_structs.cl_dict.TupleSmartDict.__getitem__")
def r_TupleSmartDict_getitem(self, item):
    try:
        return self._base_dict[item]
    except KeyError:
        p1, p2 = item
        return self.transform(self._base_dict[p2, p1])


@of("seyfert.base_structs.cl_dict.ClSmartDict.transform")
def r_ClSmartDict_transform(self, X):
    return np.transpose(X, axes=(0, 2, 1))

