"""Every property again for integer arrays: the first contract of each function, with its real arrays
integer-valued.  Nothing may be truncated, so the postconditions stay as they are.
Left out are the phase of zero and equal frequencies, times or weights (no unique result)."""
from vc.contract import *

integers("C01", "propagate_DFT:GUM_DFT", "dense covariance, even length", "x", "Ux")
integers("C02", "propagate_DFT:GUM_iDFT", "dense covariance", "F", "UF")
integers("C04", "propagate_DFT:DFT2AmpPhase", "dense covariance, separate", "UF")
integers("C04", "propagate_DFT:AmpPhase2DFT", "dense covariance", "A", "P", "UAP")
integers("C05", "propagate_DFT:AmpPhase2Time", "dense covariance", "A", "P", "UAP")
integers("C05", "propagate_DFT:Time2AmpPhase", "dense uncertainty, even length", "Ux")
integers("C05", "propagate_DFT:Time2AmpPhase_multi", "even length", "Ux")
integers("C06", "propagate_DFT:DFT_deconv", "UH covariance, UY covariance", "Y", "UH", "UY")
integers("C06", "propagate_DFT:DFT_transferfunction", "UX covariance, UY covariance", "Y", "UH", "UY")
integers("C07", "propagate_DFT:DFT_multiply", "UY covariance, UF none", "Y", "F", "UY")
integers("C08", "propagate_filter:_fir_filter", "constant initial conditions, uncertain signal, uncertain filter", "x", "theta", "Ux", "Utheta")
integers("C08", "propagate_filter:FIRuncFilter", "full covariance: noise standard deviation, exact coefficients", "y", "theta")
integers("C09", "propagate_filter:_fir_filter_diag", "constant initial conditions, uncertain signal, uncertain filter", "x", "theta", "Ux", "Utheta")
integers("C09", "propagate_filter:FIRuncFilter", "noise standard deviation, exact coefficients", "y", "theta")
integers("C10", "propagate_convolution:convolve_unc", "full, both uncertain, first longer", "x1", "x2", "U1", "U2")
integers("C11", "interpolate:interp1d_unc", "linear, outside the range: nan", "y", "uy", "tn")
integers("C12", "interpolate:make_equidistant", "default step", "y", "uy")
integers("C14", "propagate_MonteCarlo:MC", "vector of uncertainties, samples", "x", "b", "a", "Uab", "ux")
integers("C14", "filterstuff:isstable", "digital", "b", "a")
integers("C15", "propagate_filter:IIRuncFilter", "full numerator, noise level", "x", "b", "Uab")
integers("C16", "fit_filter:LSFIR", "weights", "Wt")
integers("C16", "fit_filter:invLSFIR", "weights", "Wt")
integers("C16", "fit_filter:invLSFIR_unc", "complex response", "UH")
integers("C16", "fit_filter:invLSFIR_uncMC", "Monte Carlo", "UH")
integers("C16", "fit_filter:invLSIIR_unc", "Monte Carlo", "UH")
integers("C18", "noise:ARMA", "autoregressive and moving average", "phi", "theta")
integers("C18", "noise:power_law_noise", "white", "w")
integers("C20", "filterstuff:db", "real values", "v")
integers("C20", "filterstuff:savitzky_golay", "derivative 0", "y")
integers("C21", "tools:shift_uncertainty", "one uncertainty", "x")
integers("C21", "tools:trimOrPad", "zeros", "x")
integers("C21", "tools:FreqResp2RealImag", "covariance", "A", "P", "U")
integers("C22", "SecondOrderSystem:sos_FreqResp", "one system", "f")
integers("C22", "SecondOrderSystem:sos_phys2filter", "several systems", "S", "d", "f0")
integers("C22", "SecondOrderSystem:sos_realimag", "Monte Carlo propagation", "f")
integers("C22", "SecondOrderSystem:sos_absphase", "Monte Carlo propagation", "f")
