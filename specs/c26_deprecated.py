"""C26: the deprecated names keep the contracts of the functions they stand for: every contract is proved again for
the deprecated name, through its own body, default values and order of arguments."""
from vc.contract import REG, contract

OLD = {
    "PyDynamic.deconvolution.fit_filter:LSFIR": ("C16", "PyDynamic.model_estimation.fit_filter:invLSFIR"),
    "PyDynamic.deconvolution.fit_filter:LSFIR_unc": ("C16", "PyDynamic.model_estimation.fit_filter:invLSFIR_unc"),
    "PyDynamic.deconvolution.fit_filter:LSFIR_uncMC": ("C16", "PyDynamic.model_estimation.fit_filter:invLSFIR_uncMC"),
    "PyDynamic.deconvolution.fit_filter:LSIIR": ("C16", "PyDynamic.model_estimation.fit_filter:invLSIIR"),
    "PyDynamic.deconvolution.fit_filter:LSIIR_unc": ("C16", "PyDynamic.model_estimation.fit_filter:invLSIIR_unc"),
    "PyDynamic.identification.fit_filter:LSFIR": ("C16", "PyDynamic.model_estimation.fit_filter:LSFIR"),
    "PyDynamic.identification.fit_filter:LSIIR": ("C16", "PyDynamic.model_estimation.fit_filter:LSIIR"),
    "PyDynamic.identification.fit_transfer:fit_sos": ("C19", "PyDynamic.model_estimation.fit_transfer:fit_som"),
    "PyDynamic.uncertainty.interpolation:interp1d_unc": ("C11", "PyDynamic.uncertainty.interpolate:interp1d_unc"),
    "PyDynamic.misc.tools:make_equidistant": ("C12", "PyDynamic.uncertainty.interpolate:make_equidistant"),
}

for name, (prop, target) in OLD.items():
    for c in [c for c in REG if c.prop == prop and c.target == target]:
        contract("C26", name, c.name)(c.fn)
