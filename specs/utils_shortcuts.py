"""Reference definitions for seyfert.utils.shortcuts."""
from seyfert import PROBES_LONG_NAMES, PROBES_SHORT_NAMES, PROBES_ALIAS_NAMES, PROBE_SHORT_TO_LONG, PROBE_LONG_TO_SHORT, PROBE_LONG_TO_ALIAS, PROBE_ALIAS_TO_LONG, PROBE_SHORT_TO_ALIAS, PROBE_ALIAS_TO_SHORT
from seyfert.base_structs.generic_dict import GenericDictInterface
from seyfert.utils.shortcuts import ClKey
from seyfert.utils.shortcuts import InvalidKeyError
from seyfert.utils.shortcuts import ProbeName
from seyfert.utils.shortcuts import SmartKeyDict
from typing import Tuple, Union
import copy
import numpy as np
import re

TRawClKey = Union[str, Tuple[str, str]]
_TRANSL_MAPPINGS = {'long_to_short': PROBE_LONG_TO_SHORT, 'short_to_long': PROBE_SHORT_TO_LONG, 'long_to_alias': PROBE_LONG_TO_ALIAS, 'alias_to_long': PROBE_ALIAS_TO_LONG, 'short_to_alias': PROBE_SHORT_TO_ALIAS, 'alias_to_short': PROBE_ALIAS_TO_SHORT}
long_cl_key_regex = re.compile('(PhotometricGalaxy|SpectroscopicGalaxy|Lensing|Void)_(PhotometricGalaxy|SpectroscopicGalaxy|Lensing|Void)')
short_cl_key_regex = re.compile('(ph|sp|wl|vd)(ph|sp|wl|vd)')
alias_probe_name_regex = re.compile('(WL|GCph|GCsp|V)')

constants("seyfert.utils.shortcuts", 'TRawClKey', '_TRANSL_MAPPINGS', 'long_cl_key_regex', 'short_cl_key_regex', 'alias_probe_name_regex')


@shape("seyfert.utils.shortcuts.InvalidKeyError")
class s_InvalidKeyError(Exception):
    pass


@shape("seyfert.utils.shortcuts.ClKey")
class s_ClKey:
    key: 'TRawClKey'
    kind: 'str'
    match: 're.Match'


@shape("seyfert.utils.shortcuts.SmartKeyDict")
class s_SmartKeyDict(GenericDictInterface[ClKey, np.ndarray]):
    pass


@shape("seyfert.utils.shortcuts.ClSmartKeyDict")
class s_ClSmartKeyDict(SmartKeyDict):
    pass


@shape("seyfert.utils.shortcuts.ProbeName")
class s_ProbeName:
    name: 'str'
    kind: 'str'


@of("seyfert.utils.shortcuts.InvalidKeyError.__init__", ret=False)
def r_InvalidKeyError_init(self, message='Invalid key', **kwargs):
    self.kwargs = kwargs
    self.message = message
    self.add_info_str = ', '.join([f'{key} = {value}' for key, value in self.kwargs.items()])
    super().__init__(message)


@of("seyfert.utils.shortcuts.InvalidKeyError.__repr__")
def r_InvalidKeyError_repr(self):
    return f'{self.message}: {self.add_info_str}'


@of("seyfert.utils.shortcuts.ClKey.__init__", ret=False)
def r_ClKey_init(self, key, infer_kind=True):
    self.key = None
    self.kind = None
    self.match = None
    if isinstance(key, ClKey):
        self.key = key.key
        self.kind = key.kind
        self.match = key.match
    else:
        self.key = key
        if infer_kind:
            self.kind = self.inferKind()
            if not self.isValidKind(self.kind):
                raise InvalidKeyError()


@of("seyfert.utils.shortcuts.ClKey.__key")
def r_ClKey_key(self):
    return self.toShortRawKey()


@of("seyfert.utils.shortcuts.ClKey.__hash__")
def r_ClKey_hash(self):
    return hash(self.__key())


@of("seyfert.utils.shortcuts.ClKey.__repr__")
def r_ClKey_repr(self):
    return repr(self.key)


@of("seyfert.utils.shortcuts.ClKey.__eq__")
def r_ClKey_eq(self, other):
    return isinstance(other, self.__class__) and self.equivalentTo(other)


@of("seyfert.utils.shortcuts.ClKey.__deepcopy__")
def r_ClKey_deepcopy(self, memodict={}):
    return self.copy()


@of("seyfert.utils.shortcuts.ClKey.copy")
def r_ClKey_copy(self):
    return ClKey(self.key)


@of("seyfert.utils.shortcuts.ClKey.equivalentTo")
def r_ClKey_equivalentTo(self, other):
    transf = self.transformTo(other.kind)
    return transf.key == other.key and transf.kind == other.kind


@of("seyfert.utils.shortcuts.ClKey.is_auto_correlation", kind='property')
def r_ClKey_is_auto_correlation(self):
    p1, p2 = self.toParts()
    return p1 == p2


@of("seyfert.utils.shortcuts.ClKey.is_long", kind='property')
def r_ClKey_is_long(self):
    return self.kind == 'long'


@of("seyfert.utils.shortcuts.ClKey.is_short", kind='property')
def r_ClKey_is_short(self):
    return self.kind == 'short'


@of("seyfert.utils.shortcuts.ClKey.is_tuple", kind='property')
def r_ClKey_is_tuple(self):
    return self.kind == 'alias'


@of("seyfert.utils.shortcuts.ClKey.toParts")
def r_ClKey_toParts(self):
    if self.kind is None:
        self.kind = self.inferKind()
    if self.kind == 'long' or self.kind == 'short':
        parts = self.match.groups()
    elif self.kind == 'alias':
        parts = self.key
    else:
        raise InvalidKeyError()
    return parts


@of("seyfert.utils.shortcuts.ClKey.fromParts", kind='class')
def r_ClKey_fromParts(cls, p1, p2, kind):
    if not cls.isValidKind(kind):
        raise InvalidKeyError()
    if kind == 'long':
        key = f'{p1}_{p2}'
    elif kind == 'short':
        key = f'{p1}{p2}'
    elif kind == 'alias':
        key = (p1, p2)
    else:
        raise InvalidKeyError()
    cl_key = cls(key)
    if cl_key.kind != kind:
        raise ValueError()
    return cl_key


@of("seyfert.utils.shortcuts.ClKey.fromFisherStringRepr", kind='class')
def r_ClKey_fromFisherStringRepr(cls, str_repr):
    auto_match = alias_probe_name_regex.match(str_repr)
    if auto_match:
        p = auto_match.groups()[0]
        key = cls.fromParts(p, p, kind='alias')
    else:
        pattern = alias_probe_name_regex.pattern
        xc_regex = re.compile('XC\\(%s,%s\\)' % (pattern, pattern))
        xc_match = xc_regex.match(str_repr)
        if not xc_match:
            raise Exception()
        p1, p2 = xc_match.groups()
        key = cls.fromParts(p1, p2, kind='alias')
    return key


@of("seyfert.utils.shortcuts.ClKey.inferKind")
def r_ClKey_inferKind(self):
    if isinstance(self.key, str):
        long_match = long_cl_key_regex.match(self.key)
        short_match = short_cl_key_regex.match(self.key)
        if long_match:
            kind = 'long'
            self.match = long_match
        elif short_match:
            kind = 'short'
            self.match = short_match
        else:
            raise KeyError()
    elif isinstance(self.key, tuple):
        if len(self.key) != 2:
            raise KeyError()
        kind = 'alias'
        p1, p2 = self.key
        if not alias_probe_name_regex.match(p1):
            raise KeyError()
        if not alias_probe_name_regex.match(p2):
            raise KeyError()
    else:
        raise KeyError()
    return kind


@of("seyfert.utils.shortcuts.ClKey.isValidKind", kind='static')
def r_ClKey_isValidKind(kind):
    return kind in {'long', 'short', 'alias'}


@of("seyfert.utils.shortcuts.ClKey.getReverseKey")
def r_ClKey_getReverseKey(self):
    p1, p2 = self.toParts()
    return ClKey.fromParts(p2, p1, kind=self.kind)


@of("seyfert.utils.shortcuts.ClKey.transformTo")
def r_ClKey_transformTo(self, new_kind):
    if new_kind == self.kind:
        transformed = copy.deepcopy(self)
    else:
        if not self.isValidKind(new_kind):
            raise InvalidKeyError()
        old_kind = self.kind
        old_p1, old_p2 = self.toParts()
        transformation_key = f'{old_kind}_to_{new_kind}'
        new_p1, new_p2 = (_TRANSL_MAPPINGS[transformation_key][old_p1], _TRANSL_MAPPINGS[transformation_key][old_p2])
        transformed = self.fromParts(new_p1, new_p2, kind=new_kind)
    return transformed


@of("seyfert.utils.shortcuts.ClKey.toLongKey")
def r_ClKey_toLongKey(self):
    return self.transformTo(new_kind='long')


@of("seyfert.utils.shortcuts.ClKey.toLongRawKey")
def r_ClKey_toLongRawKey(self):
    return self.toLongKey().key


@of("seyfert.utils.shortcuts.ClKey.toShortKey")
def r_ClKey_toShortKey(self):
    return self.transformTo(new_kind='short')


@of("seyfert.utils.shortcuts.ClKey.toShortRawKey")
def r_ClKey_toShortRawKey(self):
    return self.toShortKey().key


@of("seyfert.utils.shortcuts.ClKey.toAliasKey")
def r_ClKey_toAliasKey(self):
    return self.transformTo(new_kind='alias')


@of("seyfert.utils.shortcuts.ClKey.toTupleRawKey")
def r_ClKey_toTupleRawKey(self):
    return self.toAliasKey().key


@of("seyfert.utils.shortcuts.ClKey.toFisherStringRepr")
def r_ClKey_toFisherStringRepr(self, kind='alias'):
    key = self.transformTo(kind) if kind != self.kind else self
    p1, p2 = key.toParts()
    if p1 == p2:
        str_repr = p1
    else:
        str_repr = f'XC({p1},{p2})'
    return str_repr


@of("seyfert.utils.shortcuts.SmartKeyDict.__init__", ret=False)
def r_SmartKeyDict_init(self, data_dict=None):
    super(SmartKeyDict, self).__init__()
    if isinstance(data_dict, dict):
        self._base_dict.update({ClKey(raw_key): data_dict[raw_key] for raw_key in data_dict})


@of("seyfert.utils.shortcuts.SmartKeyDict.reversed_key_transform")
def r_SmartKeyDict_reversed_key_transform(self, X):
    return X


@of("seyfert.utils.shortcuts.SmartKeyDict.searchAlias")
def r_SmartKeyDict_searchAlias(self, cl_key):
    equiv_key = None
    for key in self.keys():
        if key.equivalentTo(cl_key):
            equiv_key = key
            break
    return equiv_key


@of("seyfert.utils.shortcuts.SmartKeyDict.__getitem__")
def r_SmartKeyDict_getitem(self, cl_key):
    if not isinstance(cl_key, ClKey):
        cl_key = ClKey(cl_key)
    try:
        return self._base_dict[cl_key]
    except KeyError:
        rev_key = cl_key.getReverseKey()
        return self.reversed_key_transform(self._base_dict[rev_key])


@of("seyfert.utils.shortcuts.ClSmartKeyDict.reversed_key_transform")
def r_ClSmartKeyDict_reversed_key_transform(self, X):
    return np.transpose(X, axes=(0, 2, 1))


@of("seyfert.utils.shortcuts.ProbeName.__init__", ret=False)
def r_ProbeName_init(self, name):
    self.name = name
    self.kind = None
    self.inferKind()


@of("seyfert.utils.shortcuts.ProbeName.__eq__")
def r_ProbeName_eq(self, other):
    return self.equivalentTo(other)


@of("seyfert.utils.shortcuts.ProbeName.__repr__")
def r_ProbeName_repr(self):
    return self.name


@of("seyfert.utils.shortcuts.ProbeName.is_long", kind='property')
def r_ProbeName_is_long(self):
    return self.name in PROBES_LONG_NAMES


@of("seyfert.utils.shortcuts.ProbeName.is_short", kind='property')
def r_ProbeName_is_short(self):
    return self.name in PROBES_SHORT_NAMES


@of("seyfert.utils.shortcuts.ProbeName.is_alias", kind='property')
def r_ProbeName_is_alias(self):
    return self.name in PROBES_ALIAS_NAMES


@of("seyfert.utils.shortcuts.ProbeName.inferKind", ret=False)
def r_ProbeName_inferKind(self):
    if self.is_long:
        self.kind = 'long'
    elif self.is_short:
        self.kind = 'short'
    elif self.is_alias:
        self.kind = 'alias'
    else:
        raise ValueError()


@of("seyfert.utils.shortcuts.ProbeName.transformTo")
def r_ProbeName_transformTo(self, kind):
    if kind == self.kind:
        new_name = self
    else:
        trans_key = f'{self.kind}_to_{kind}'
        mapping = _TRANSL_MAPPINGS[trans_key]
        new_name = ProbeName(mapping[self.name])
    return new_name


@of("seyfert.utils.shortcuts.ProbeName.toShort")
def r_ProbeName_toShort(self):
    return self.transformTo('short')


@of("seyfert.utils.shortcuts.ProbeName.toLong")
def r_ProbeName_toLong(self):
    return self.transformTo('long')


@of("seyfert.utils.shortcuts.ProbeName.toAlias")
def r_ProbeName_toAlias(self):
    return self.transformTo('alias')


@of("seyfert.utils.shortcuts.ProbeName.equivalentTo")
def r_ProbeName_equivalentTo(self, other):
    trasf = other.transformTo(self.kind)
    return self.name == trasf.name

