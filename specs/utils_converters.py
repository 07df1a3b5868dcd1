"""Reference definitions for seyfert.utils.converters."""
import numpy as np



@of("seyfert.utils.converters.InchesToPts")
def r_InchesToPts(l):
    return l * 72


@of("seyfert.utils.converters.PtsToInches")
def r_PtsToInches(l):
    return l / 72


@of("seyfert.utils.converters.InchesToCm")
def r_InchesToCm(l):
    return l * 2.54


@of("seyfert.utils.converters.CmToInches")
def r_CmToInches(l):
    return l / 2.54


@of("seyfert.utils.converters.SteradToDeg2")
def r_SteradToDeg2(x):
    return x * (180 / np.pi) ** 2


@of("seyfert.utils.converters.SteradToArcmin2")
def r_SteradToArcmin2(x):
    return x * (180 * 60 / np.pi) ** 2


@of("seyfert.utils.converters.Deg2ToSterad")
def r_Deg2ToSterad(x):
    return x / (180 / np.pi) ** 2


@of("seyfert.utils.converters.Arcmin2ToSterad")
def r_Arcmin2ToSterad(x):
    return x / (180 * 60 / np.pi) ** 2


@of("seyfert.utils.converters.invDeg2ToInvSterad")
def r_invDeg2ToInvSterad(x):
    return x * (180 / np.pi) ** 2


@of("seyfert.utils.converters.invSteradToinvDeg2")
def r_invSteradToinvDeg2(x):
    return x / (180 / np.pi) ** 2


@of("seyfert.utils.converters.invArcmin2ToInvSterad")
def r_invArcmin2ToInvSterad(x):
    return x * (180 * 60 / np.pi) ** 2


@of("seyfert.utils.converters.invSteradToinvArcmin2")
def r_invSteradToinvArcmin2(x):
    return x / (180 * 60 / np.pi) ** 2

