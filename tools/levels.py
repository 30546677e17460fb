"""The level, technique and note of each check (used by mkmanifest.py)."""
T_PROOF = "contracts on the real functions; weakest-precondition style symbolic execution of /repo's source; obligations discharged by z3/cvc5"
BOTH = (" The bounded stand-in (the same contracts evaluated on the real code for seeded inputs) runs beside it, replays the solver's "
        "counterexamples and is never counted as proved.")
REAL = "Machine arithmetic is treated as mathematical (reals with NaN/inf as separate flags); numpy/scipy primitives have trusted contracts (listed in the evidence). "


def proof(what, rest=""):
    return dict(level="proof", technique=T_PROOF, note=what + " " + REAL + rest + BOTH)


def bounded(why):
    return dict(level="exploration", technique="run-time evaluation of the contracts on the real code (bounded stand-in)", note=why)


DEFAULT = bounded("Bounded: the contract is evaluated on the real code for seeded generated inputs. Not proved: no obligations are discharged for this property.")
LEVELS = {
    "C01": proof("All paths of spi and spei, for all series, scales, calibration periods, with fitted or passed-in parameters, both distributions and periodicities."),
    "C02": proof("Missing values of spi, spei, pet, eto, pnp and pci stay exactly where they are, for all inputs (reuses the cases of the other properties, narrowed to this one)."),
    "C03": proof("sum_to_scale, scale_values and reshape_to_2d for all lengths, values and scales (symbolic scale)."),
    "C04": proof("transform_to_366day, transform_to_gregorian, their composition and gregorian_length_as_366day, for all start years, numbers of years, record lengths and values (loops cut by invariants; the calendar lemmas are proved separately).",
                 "A failing obligation counts as a violation only when the real code confirms it; otherwise it is undecided. Termination of the while loop is assumed. "),
    "C05": proof("Fitting functions and transforms for all records; two runs on inputs that agree on one calendar step in the calibration years are compared (relational contract)."),
    "C06": proof("gamma_parameters, transform_fitted_gamma, spi and spei against Thom's estimators and the mixed distribution."),
    "C07": proof("pearson_parameters, transform_fitted_pearson, spi and spei; lmoments.fit is used through an uninterpreted contract (a function of the observed sample), see C18."),
    "C08": proof("Relational contract over pairs of time steps; monotonicity of the distribution functions of scipy.stats is trusted."),
    "C09": proof("spi, spei and the transforms with the parameters passed in against the direct result.",
                 "The Palmer part is proved piecewise: the state that the remaining parts see is the same with the coefficients passed back in. "),
    "C10": proof("Frame conditions of spi, spei, percentage_of_normal, pci, pet, the two evapotranspiration functions, the scaling, fitting and transforming functions, lmoments.fit, the 366-day conversions and helpers, on all paths (exceptions included), with the real helpers (aliasing through views is modelled).",
                 "palmer.pdsi is proved piecewise (what each part may change, and no sharing with the arrays passed in). Hidden state between calls is not modelled. "),
    "C11": proof("percentage_of_normal for all records, scales and calibration periods; the sliding total is the one of C03."),
    "C12": proof("pci for all years of 365 and 366 values."),
    "C13": proof("eto_thornthwaite, pet and the month-length and daylight helpers, all lengths, latitudes and start years; real powers are uninterpreted with trusted monotonicity facts."),
    "C14": proof("Solar declination, sunset hour angle, daylight hours and monthly means; sin, cos, tan and arccos by trusted bounds and monotonicity facts."),
    "C15": proof("eto_hargreaves for all lengths and latitudes."),
    "C16": proof("The accounting of palmer.pdsi (loops cut by invariants; the storage carried over is ghost state) for all series, lengths and capacities.",
                 "Obligations of the arbitrary month start from the invariants, so a failing one counts as a violation only when the real code confirms it; otherwise it is reported as undecided. "),
    "C17": proof("Every part of the procedure against NOAA's: monthly water balance, calibration sums, coefficients, climatic characteristic, one month of the recursion from an arbitrary state, backtracking assignment, last months, and their composition in palmer.pdsi (loops cut by invariants, ghost state).",
                 "The parts are private functions, so a failing obligation counts as a violation only when the real code confirms it (bounded part); otherwise it is undecided. Complete data; log10 is an uninterpreted increasing function. "),
    "C18": proof("lmoments.fit against Hosking's estimators for every sample, in terms of its order statistics; the effect of a shift or a factor by induction on the definition.",
                 "np.sort is trusted (observed values in ascending order first). "),
    "C21": proof("compute_days for all months, years, lengths and units start years of the datetime range."),
    "C22": proof("Each kind of invalid argument on every function that takes it, for all values of the other arguments; the accepted limits are checked by C01, C13, C14 and the bounded part."),
}
