"""Reference definitions for seyfert.fisher.datavector."""
from seyfert.fisher.datavector import ClDataVector
from seyfert.utils.shortcuts import ClKey
import re



@shape("seyfert.fisher.datavector.ClDataVector")
class s_ClDataVector:
    name: 'str'
    entries: 'List[ClKey]'


@of("seyfert.fisher.datavector.ClDataVector.__init__", ret=False)
def r_ClDataVector_init(self, input_data):
    self.name = None
    self.entries = None
    self.involved_probes = None
    if isinstance(input_data, ClDataVector):
        self.entries = input_data.entries
    else:
        self.entries = [ClKey(entry) for entry in input_data]
    self.name = self.getNameFromEntries()
    self.involved_probes = self.getInvolvedAutoCorrelationProbes()


@of("seyfert.fisher.datavector.ClDataVector.__repr__")
def r_ClDataVector_repr(self):
    return f'{self.name}: {repr(self.entries)}'


@of("seyfert.fisher.datavector.ClDataVector.__iter__")
def r_ClDataVector_iter(self):
    return iter(self.entries)


@of("seyfert.fisher.datavector.ClDataVector.__getitem__")
def r_ClDataVector_getitem(self, item):
    return self.entries[item]


@of("seyfert.fisher.datavector.ClDataVector.__len__")
def r_ClDataVector_len(self):
    return len(self.entries)


@of("seyfert.fisher.datavector.ClDataVector.__eq__")
def r_ClDataVector_eq(self, other):
    return len(self) == len(other) and all((entry1 == entry2 for entry1, entry2 in zip(self, other)))


@of("seyfert.fisher.datavector.ClDataVector.is_single_autocorrelation", kind='property')
def r_ClDataVector_is_single_autocorrelation(self):
    return len(self) == 1 and self[0].is_auto_correlation


@of("seyfert.fisher.datavector.ClDataVector.getRawEntries")
def r_ClDataVector_getRawEntries(self):
    return [entry.key for entry in self]


@of("seyfert.fisher.datavector.ClDataVector.transformEntriesTo", ret=False)
def r_ClDataVector_transformEntriesTo(self, kind):
    new_entries = [entry.transformTo(kind) for entry in self]
    self.entries = new_entries
    self.name = self.getNameFromEntries()


@of("seyfert.fisher.datavector.ClDataVector.fromName", kind='class')
def r_ClDataVector_fromName(cls, name):
    name = name.replace('[', '').replace(']', '')
    entries = [ClKey.fromFisherStringRepr(p) for p in name.split('+')]
    return cls(entries)


@of("seyfert.fisher.datavector.ClDataVector.fromString", kind='class')
def r_ClDataVector_fromString(cls, s):
    name, elements = s.split(':')
    elements = re.findall('([a-z]{4})', elements)
    return cls([ClKey(el).toTupleRawKey() for el in elements])


@of("seyfert.fisher.datavector.ClDataVector.fromBriefString", kind='class')
def r_ClDataVector_fromBriefString(cls, s):
    entries = [ClKey(p).toTupleRawKey() for p in s.split('_')]
    return cls(entries)


@of("seyfert.fisher.datavector.ClDataVector.toString")
def r_ClDataVector_toString(self):
    return str(ClDataVector([entry.toShortRawKey() for entry in self]))


@of("seyfert.fisher.datavector.ClDataVector.toBriefString")
def r_ClDataVector_toBriefString(self):
    shv = self.toShortKeysVector()
    return '_'.join((entry.key for entry in shv))


@of("seyfert.fisher.datavector.ClDataVector.toShortKeysVector")
def r_ClDataVector_toShortKeysVector(self):
    return ClDataVector([entry.toShortRawKey() for entry in self])


@of("seyfert.fisher.datavector.ClDataVector.toTupleKeysVector")
def r_ClDataVector_toTupleKeysVector(self):
    return ClDataVector([entry.toTupleRawKey() for entry in self])


@of("seyfert.fisher.datavector.ClDataVector.toRawTuples")
def r_ClDataVector_toRawTuples(self):
    return [k.toTupleRawKey() for k in self]


@of("seyfert.fisher.datavector.ClDataVector.getNameFromEntries")
def r_ClDataVector_getNameFromEntries(self):
    return '[' + '+'.join((entry.toFisherStringRepr() for entry in self)) + ']'


@of("seyfert.fisher.datavector.ClDataVector.getInvolvedAutoCorrelationProbes")
def r_ClDataVector_getInvolvedAutoCorrelationProbes(self):
    probes = set()
    for entry in self:
        if entry.is_auto_correlation:
            p1, _ = entry.toTupleRawKey()
            probes.add(p1)
    return probes

