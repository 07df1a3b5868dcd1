"""Reference definitions for seyfert.utils.encoders."""
import json
import numpy as np



@shape("seyfert.utils.encoders.PhysParJSONEncoder")
class s_PhysParJSONEncoder(json.JSONEncoder):
    pass


@shape("seyfert.utils.encoders.NumpyJSONEncoder")
class s_NumpyJSONEncoder(json.JSONEncoder):
    pass


@of("seyfert.utils.encoders.PhysParJSONEncoder.default")
def r_PhysParJSONEncoder_default(self, o):
    return o.__dict__


@of("seyfert.utils.encoders.NumpyJSONEncoder.default")
def r_NumpyJSONEncoder_default(self, obj):
    if isinstance(obj, np.ndarray):
        return obj.tolist()
    return json.JSONEncoder.default(self, obj)

