"""Reference definitions for seyfert.file_io.json_io."""
from seyfert import VERSION
import datetime
import json
import os



@shape("seyfert.file_io.json_io.JSONForecastConfig")
class s_JSONForecastConfig:
    pass


@of("seyfert.file_io.json_io.JSONForecastConfig.__init__", ret=False)
def r_JSONForecastConfig_init(self, file=None, data=None):
    if data is None:
        data = {}
    self.data = data
    if not self.data and file is not None:
        self.loadJSON(file)


@of("seyfert.file_io.json_io.JSONForecastConfig.__contains__")
def r_JSONForecastConfig_contains(self, item):
    return item in self.data


@of("seyfert.file_io.json_io.JSONForecastConfig.__getitem__")
def r_JSONForecastConfig_getitem(self, item):
    return self.data[item]


@of("seyfert.file_io.json_io.JSONForecastConfig.__repr__")
def r_JSONForecastConfig_repr(self):
    return repr(self.data)


@of("seyfert.file_io.json_io.JSONForecastConfig.loadJSON", ret=False)
def r_JSONForecastConfig_loadJSON(self, file):
    with open(file) as jsf:
        self.data = json.load(jsf)


@of("seyfert.file_io.json_io.JSONForecastConfig.toJSON", ret=False)
def r_JSONForecastConfig_toJSON(self, file):
    with open(file, mode='w') as jsf:
        self.metadata.update({'author': os.getenv('USER'), 'creation_date': datetime.datetime.now().isoformat(), 'version': VERSION})
        json.dump(self.data, jsf, indent=4)


@of("seyfert.file_io.json_io.JSONForecastConfig.metadata", kind='property')
def r_JSONForecastConfig_metadata(self):
    return self.data['metadata']


@of("seyfert.file_io.json_io.JSONForecastConfig.scenario", kind='property')
def r_JSONForecastConfig_scenario(self):
    return self.synthetic_opts['scenario']


@of("seyfert.file_io.json_io.JSONForecastConfig.n_sp_bins", kind='property')
def r_JSONForecastConfig_n_sp_bins(self):
    return self.synthetic_opts['n_sp_bins']


@of("seyfert.file_io.json_io.JSONForecastConfig.synthetic_opts", kind='property')
def r_JSONForecastConfig_synthetic_opts(self):
    return self.data['synthetic_opts']


@of("seyfert.file_io.json_io.JSONForecastConfig.survey", kind='property')
def r_JSONForecastConfig_survey(self):
    return self.data['survey']


@of("seyfert.file_io.json_io.JSONForecastConfig.f_sky", kind='property')
def r_JSONForecastConfig_f_sky(self):
    return self.survey['f_sky']


@of("seyfert.file_io.json_io.JSONForecastConfig.shot_noise_file", kind='property')
def r_JSONForecastConfig_shot_noise_file(self):
    return self.survey['shot_noise_file']


@of("seyfert.file_io.json_io.JSONForecastConfig.shot_noise_file@setter", ret=False, kind='setter')
def r_JSONForecastConfig_shot_noise_file_set(self, value):
    self.survey['shot_noise_file'] = value


@of("seyfert.file_io.json_io.JSONForecastConfig.cosmology", kind='property')
def r_JSONForecastConfig_cosmology(self):
    return self.data['cosmology']


@of("seyfert.file_io.json_io.JSONForecastConfig.probes", kind='property')
def r_JSONForecastConfig_probes(self):
    return self.data['probes']


@of("seyfert.file_io.json_io.JSONForecastConfig.derivative_settings", kind='property')
def r_JSONForecastConfig_derivative_settings(self):
    return self.data['derivative_settings']


@of("seyfert.file_io.json_io.JSONForecastConfig.WL", kind='property')
def r_JSONForecastConfig_WL(self):
    return self.probes['WL']


@of("seyfert.file_io.json_io.JSONForecastConfig.GCph", kind='property')
def r_JSONForecastConfig_GCph(self):
    return self.probes['GCph']


@of("seyfert.file_io.json_io.JSONForecastConfig.GCsp", kind='property')
def r_JSONForecastConfig_GCsp(self):
    return self.probes['GCsp']


@of("seyfert.file_io.json_io.JSONForecastConfig.Void", kind='property')
def r_JSONForecastConfig_Void(self):
    return self.probes['V']


@of("seyfert.file_io.json_io.JSONForecastConfig.getConfigID")
def r_JSONForecastConfig_getConfigID(self):
    conf_id_parts = []
    for key, value in self.synthetic_opts.items():
        if isinstance(value, bool):
            if value:
                conf_id_parts.append(key)
        else:
            conf_id_parts.append(f'{key}_{value}')
    if conf_id_parts:
        conf_id = '__'.join(conf_id_parts)
    else:
        conf_id = None
    return conf_id

