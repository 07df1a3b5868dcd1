"""Reference definitions for seyfert.cosmology.parameter."""
from pathlib import Path
from seyfert.base_structs.generic_dict import GenericDictInterface
from seyfert.cosmology.parameter import ParameterError
from seyfert.cosmology.parameter import PhysicalParameter
from seyfert.cosmology.parameter import PhysicalParametersCollection
from seyfert.utils.encoders import PhysParJSONEncoder
from typing import Union, Dict, List
import json
import logging
import numpy as np

logger = logging.getLogger(__name__)


@shape("seyfert.cosmology.parameter.ParameterError")
class s_ParameterError(Exception):
    pass


@shape("seyfert.cosmology.parameter.PhysicalParameter")
class s_PhysicalParameter:
    name: 'str'
    fiducial: 'float'
    current_value: 'float'
    par_type: 'str'
    is_free_parameter: 'bool'
    probe: 'str'
    description: 'str'
    derivative_method: 'str'
    COSMO_PAR_STRING = 'CosmologicalParameter'
    NUISANCE_PAR_STRING = 'NuisanceParameter'


@shape("seyfert.cosmology.parameter.PhysicalParametersCollection")
class s_PhysicalParametersCollection(GenericDictInterface[str, PhysicalParameter]):
    stem_steps: 'np.ndarray'
    stem_disps: 'np.ndarray'
    stem_dict: 'Dict[int, float]'


@of("seyfert.cosmology.parameter.PhysicalParameter.__init__", ret=False)
def r_PhysicalParameter_init(self, name=None, fiducial=None, current_value=None, kind=None, probe=None, is_free_parameter=None, stem_factor=1.0, description='', units='None', derivative_method='SteM'):
    self.name = name
    self.fiducial = fiducial
    self.current_value = current_value
    self.probe = probe
    self.kind = kind
    self.stem_factor = stem_factor
    self.is_free_parameter = is_free_parameter
    self.description = description
    self.units = units
    self.derivative_method = derivative_method
    if not isinstance(self.name, str):
        raise TypeError()
    if not isinstance(self.fiducial, float):
        raise TypeError()
    if not isinstance(self.is_free_parameter, (bool, np.bool_)):
        raise TypeError()
    if self.kind not in {self.COSMO_PAR_STRING, self.NUISANCE_PAR_STRING}:
        raise ValueError()
    if self.is_nuisance and self.probe is None:
        raise ValueError()
    if self.current_value is None:
        self.current_value = self.fiducial


@of("seyfert.cosmology.parameter.PhysicalParameter.fromJSON", kind='class')
def r_PhysicalParameter_fromJSON(cls, json_file):
    with open(json_file, 'r') as jsf:
        data = json.load(jsf)
    return cls.from_dict(data)


@of("seyfert.cosmology.parameter.PhysicalParameter.from_dict", kind='class')
def r_PhysicalParameter_from_dict(cls, data):
    return cls(**data)


@of("seyfert.cosmology.parameter.PhysicalParameter.createNuisanceParameter", kind='class')
def r_PhysicalParameter_createNuisanceParameter(cls, **kwargs):
    return cls(kind=cls.NUISANCE_PAR_STRING, **kwargs)


@of("seyfert.cosmology.parameter.PhysicalParameter.createCosmologicalParameter", kind='class')
def r_PhysicalParameter_createCosmologicalParameter(cls, **kwargs):
    return cls(kind=cls.COSMO_PAR_STRING, **kwargs)


@of("seyfert.cosmology.parameter.PhysicalParameter.to_dict")
def r_PhysicalParameter_to_dict(self):
    data = {'name': self.name, 'fiducial': self.fiducial, 'current_value': self.current_value, 'kind': self.kind, 'is_free_parameter': self.is_free_parameter, 'stem_factor': self.stem_factor, 'derivative_method': self.derivative_method, 'units': self.units, 'description': self.description}
    if self.is_nuisance:
        data['probe'] = self.probe
    return data


@of("seyfert.cosmology.parameter.PhysicalParameter.to_JSON")
def r_PhysicalParameter_to_JSON(self):
    return json.dumps(self.to_dict(), cls=PhysParJSONEncoder, indent=2)


@of("seyfert.cosmology.parameter.PhysicalParameter.is_cosmological", kind='property')
def r_PhysicalParameter_is_cosmological(self):
    return self.kind == self.COSMO_PAR_STRING


@of("seyfert.cosmology.parameter.PhysicalParameter.is_nuisance", kind='property')
def r_PhysicalParameter_is_nuisance(self):
    return self.kind == self.NUISANCE_PAR_STRING


@of("seyfert.cosmology.parameter.PhysicalParameter.is_galaxy_bias_parameter", kind='property')
def r_PhysicalParameter_is_galaxy_bias_parameter(self):
    return self.is_nuisance and self.name.startswith('bg')


@of("seyfert.cosmology.parameter.PhysicalParameter.resetCurrentValueToFiducial", ret=False)
def r_PhysicalParameter_resetCurrentValueToFiducial(self):
    self.current_value = self.fiducial


@of("seyfert.cosmology.parameter.PhysicalParameter.computeValueForDisplacement")
def r_PhysicalParameter_computeValueForDisplacement(self, eps):
    delta_p = eps * self.stem_factor
    if self.fiducial != 0:
        delta_p *= self.fiducial
    return self.fiducial + delta_p


@of("seyfert.cosmology.parameter.PhysicalParameter.computeSteMValues")
def r_PhysicalParameter_computeSteMValues(self, stem_eps_arr):
    values = [self.computeValueForDisplacement(eps) for eps in stem_eps_arr]
    values.insert(len(values) // 2, self.fiducial)
    return np.array(values)


@of("seyfert.cosmology.parameter.PhysicalParameter.updateValueForDisplacement", ret=False)
def r_PhysicalParameter_updateValueForDisplacement(self, eps):
    self.current_value = self.computeValueForDisplacement(eps)


@of("seyfert.cosmology.parameter.PhysicalParameter.__repr__")
def r_PhysicalParameter_repr(self):
    s = f'{self.kind}, name: {self.name}, is_free: {self.is_free_parameter}, fiducial: {self.fiducial}, current: {self.current_value}, diff_method: {self.derivative_method}, units: {self.units}'
    if self.probe is not None:
        s += f', probe: {self.probe}'
    return s


@of("seyfert.cosmology.parameter.PhysicalParameter.__str__")
def r_PhysicalParameter_str(self):
    return self.__repr__()


@of("seyfert.cosmology.parameter.PhysicalParameter.__eq__")
def r_PhysicalParameter_eq(self, other):
    return all([self.name == other.name, self.fiducial == other.fiducial, self.kind == other.kind, self.current_value == other.current_value])


@of("seyfert.cosmology.parameter.PhysicalParametersCollection.__init__", ret=False)
def r_PhysicalParametersCollection_init(self, base_stem_disps=None, is_universe_flat=None, **kwargs):
    super(PhysicalParametersCollection, self).__init__(**kwargs)
    self.stem_steps = None
    self.stem_disps = None
    self.stem_dict = None
    self.inv_stem_dict = None
    self.is_universe_flat = is_universe_flat
    if base_stem_disps is not None:
        self.loadStemDisplacements(base_stem_disps)


@of("seyfert.cosmology.parameter.PhysicalParametersCollection.params", kind='property')
def r_PhysicalParametersCollection_params(self):
    return self._base_dict


@of("seyfert.cosmology.parameter.PhysicalParametersCollection.cosmological_parameters", kind='property')
def r_PhysicalParametersCollection_cosmological_parameters(self):
    return {name: par for name, par in self.items() if par.is_cosmological}


@of("seyfert.cosmology.parameter.PhysicalParametersCollection.nuisance_parameters", kind='property')
def r_PhysicalParametersCollection_nuisance_parameters(self):
    return {name: par for name, par in self.items() if par.is_nuisance}


@of("seyfert.cosmology.parameter.PhysicalParametersCollection.free_physical_parameters", kind='property')
def r_PhysicalParametersCollection_free_physical_parameters(self):
    return {name: par for name, par in self.items() if par.is_free_parameter}


@of("seyfert.cosmology.parameter.PhysicalParametersCollection.free_cosmological_parameters", kind='property')
def r_PhysicalParametersCollection_free_cosmological_parameters(self):
    return {k: par for k, par in self.cosmological_parameters.items() if par.is_free_parameter}


@of("seyfert.cosmology.parameter.PhysicalParametersCollection.cosmo_pars_fiducials", kind='property')
def r_PhysicalParametersCollection_cosmo_pars_fiducials(self):
    return {k: par.fiducial for k, par in self.cosmological_parameters.items()}


@of("seyfert.cosmology.parameter.PhysicalParametersCollection.free_cosmo_pars_fiducials", kind='property')
def r_PhysicalParametersCollection_free_cosmo_pars_fiducials(self):
    return {key: par.fiducial for key, par in self.free_cosmological_parameters.items()}


@of("seyfert.cosmology.parameter.PhysicalParametersCollection.cosmo_pars_current_values", kind='property')
def r_PhysicalParametersCollection_cosmo_pars_current_values(self):
    return {k: par.current_value for k, par in self.cosmological_parameters.items()}


@of("seyfert.cosmology.parameter.PhysicalParametersCollection.from_dict_list", kind='class')
def r_PhysicalParametersCollection_from_dict_list(cls, dict_list, only_cosmological=False):
    data_dict = cls.getParamsDictFromDictList(dict_list, only_cosmological=only_cosmological)
    base_stem_disps = dict_list[-1]['base_stem_disps']
    is_universe_flat = dict_list[-1]['is_universe_flat']
    return cls(data_dict=data_dict, base_stem_disps=base_stem_disps, is_universe_flat=is_universe_flat)


@of("seyfert.cosmology.parameter.PhysicalParametersCollection.fromJSON", kind='class')
def r_PhysicalParametersCollection_fromJSON(cls, file, only_cosmological=False):
    with open(file, 'r') as jsf:
        dict_list = json.load(jsf)
    return cls.from_dict_list(dict_list, only_cosmological=only_cosmological)


@of("seyfert.cosmology.parameter.PhysicalParametersCollection.readJSON", ret=False)
def r_PhysicalParametersCollection_readJSON(self, file, only_cosmological=False):
    with open(file, 'r') as jsf:
        data = json.load(jsf)
    self.update(self.getParamsDictFromDictList(data, only_cosmological=only_cosmological))
    self.loadStemDisplacements(data[-1]['base_stem_disps'])
    self.is_universe_flat = data[-1]['is_universe_flat']


@of("seyfert.cosmology.parameter.PhysicalParametersCollection.writeJSON", ret=False)
def r_PhysicalParametersCollection_writeJSON(self, file):
    with open(file, 'w') as jsf:
        dict_list = [par.to_dict() for par in self.values()]
        dict_list.append({'base_stem_disps': list(self.stem_disps[self.stem_disps > 0]), 'is_universe_flat': self.is_universe_flat})
        json.dump(dict_list, jsf, indent=2)


@of("seyfert.cosmology.parameter.PhysicalParametersCollection.loadStemDisplacements", ret=False)
def r_PhysicalParametersCollection_loadStemDisplacements(self, base_stem_disp):
    if not isinstance(base_stem_disp, np.ndarray):
        base_stem_disp = np.array(base_stem_disp, dtype=float)
    self.stem_disps = np.concatenate([-base_stem_disp, base_stem_disp])
    self.stem_disps.sort()
    self.stem_steps = np.r_[-len(base_stem_disp):0, 1:len(base_stem_disp) + 1]
    self.stem_dict = dict(zip(self.stem_steps, self.stem_disps))
    self.inv_stem_dict = {value: key for key, value in self.stem_dict.items()}


@of("seyfert.cosmology.parameter.PhysicalParametersCollection.getNuisanceParametersForProbe")
def r_PhysicalParametersCollection_getNuisanceParametersForProbe(self, probe):
    return {name: par for name, par in self.items() if par.is_nuisance and par.probe == probe}


@of("seyfert.cosmology.parameter.PhysicalParametersCollection.getFreeNuisanceParametersForProbe")
def r_PhysicalParametersCollection_getFreeNuisanceParametersForProbe(self, probe):
    return {name: par for name, par in self.getNuisanceParametersForProbe(probe).items() if par.is_free_parameter}


@of("seyfert.cosmology.parameter.PhysicalParametersCollection.getFreePhysicalParametersForProbe")
def r_PhysicalParametersCollection_getFreePhysicalParametersForProbe(self, probe):
    free_phys_pars = {}
    free_phys_pars.update(self.free_cosmological_parameters)
    free_phys_pars.update(self.getFreeNuisanceParametersForProbe(probe))
    return free_phys_pars


@of("seyfert.cosmology.parameter.PhysicalParametersCollection.getParamsDictFromDictList", kind='static')
def r_PhysicalParametersCollection_getParamsDictFromDictList(dict_list, only_cosmological=False):
    d = {}
    for param_dict in dict_list[:-1]:
        param = PhysicalParameter.from_dict(param_dict)
        if only_cosmological:
            if param.is_cosmological:
                d[param.name] = param
            else:
                pass
        else:
            d[param.name] = param
    return d


@of("seyfert.cosmology.parameter.PhysicalParametersCollection.updatePhysicalParametersForDvarStep", ret=False)
def r_PhysicalParametersCollection_updatePhysicalParametersForDvarStep(self, dvar=None, step=None):
    if dvar == 'central':
        self.resetPhysicalParametersToFiducial()
    else:
        if not self[dvar].is_free_parameter:
            raise ParameterError()
        if self.is_universe_flat and dvar in {'Omm', 'OmDE'}:
            Omm = self['Omm']
            OmDE = self['OmDE']
            if Omm.fiducial + OmDE.fiducial != 1:
                raise ParameterError()
            if Omm.is_free_parameter and OmDE.is_free_parameter:
                raise ParameterError()
        self[dvar].updateValueForDisplacement(self.stem_dict[step])
        if self.is_universe_flat and dvar in {'Omm', 'OmDE'}:
            if dvar == 'Omm' and (not OmDE.is_free_parameter):
                OmDE.current_value = 1 - Omm.current_value
            elif dvar == 'OmDE' and (not Omm.is_free_parameter):
                Omm.current_value = 1 - OmDE.current_value


@of("seyfert.cosmology.parameter.PhysicalParametersCollection.resetPhysicalParametersToFiducial", ret=False)
def r_PhysicalParametersCollection_resetPhysicalParametersToFiducial(self):
    for par in self:
        self[par].resetCurrentValueToFiducial()


@of("seyfert.cosmology.parameter.PhysicalParametersCollection.computePhysParSTEMValues")
def r_PhysicalParametersCollection_computePhysParSTEMValues(self, dvar=None):
    return self[dvar].computeSteMValues(self.stem_disps)


@of("seyfert.cosmology.parameter.PhysicalParametersCollection.__repr__")
def r_PhysicalParametersCollection_repr(self):
    return json.dumps(self._base_dict, indent=2, cls=PhysParJSONEncoder)

