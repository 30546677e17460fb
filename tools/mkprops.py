"""Writes /verif/properties.jsonl (the list is kept here so that it is easy to edit)."""
import json, os
S = "src/climate_indices/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=[S + f for f in files],
                          mechanism=[dict(name=n, where=S + w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = state
    P.append(d)


prop("C01", "SPI and SPEI values are aligned with the input and within [-3.09, 3.09]",
     "For every series of one or more values, scale, distribution, periodicity and calibration period, SPI and SPEI return a "
     "1-D array with exactly one value per input time step, in input order, also for a 2-D (years x steps) input and for an "
     "incomplete final year. Every value is either missing (NaN) or lies within -3.09 to 3.09 inclusive, never infinite, "
     "whether the fitting parameters are computed or passed in. A series with no observed value is returned unchanged. "
     "Where a Pearson III fit to some calendar step does not exist, ValueError may be raised instead.",
     ["inputs"], "all input arrays (any length, any pattern of missing, zero, negative or extreme values), scales >= 1, both "
     "distributions, both periodicities, all calibration periods",
     "The tests compare a handful of fixtures; lengths, shapes, missing patterns and extreme values are unbounded.",
     ["indices.py", "compute.py", "utils.py"],
     [("clip to the valid range and truncation to the original length", "indices.py: spi, spei"),
      ("padding to whole years", "utils.py: reshape_to_2d")],
     ["return value of indices.spi and indices.spei"])

prop("C02", "A missing value never becomes a number",
     "A time step whose window of `scale` input steps is incomplete (before the start of the record) or contains a missing value "
     "is missing in the sliding totals, SPI, SPEI (missing precipitation or missing PET) and percentage of normal. "
     "Potential evapotranspiration (Thornthwaite and Hargreaves) is missing exactly where a temperature it needs is missing, given "
     "at least one observed temperature per calendar month and (Hargreaves) no minimum above the maximum. No missing value is counted as zero, and one missing step affects no "
     "window that does not contain it.",
     ["inputs"], "all arrays and all patterns of missing values, all scales, distributions and periodicities",
     "Fixtures contain few missing values; the patterns are exponentially many.",
     ["indices.py", "compute.py", "eto.py", "utils.py"],
     [("sliding sums by convolution, NaN left padding", "compute.py: sum_to_scale"),
      ("NaN padding of the final year", "utils.py: reshape_to_2d"),
      ("NaN propagation through the transforms", "compute.py: transform_fitted_gamma, _pearson_fit"),
      ("percentages initialised as NaN", "indices.py: percentage_of_normal"),
      ("PET initialised as NaN", "eto.py: eto_thornthwaite, eto_hargreaves")],
     ["return values of sum_to_scale, spi, spei, percentage_of_normal, pet, eto_hargreaves"])

prop("C03", "Sliding totals are exact sums of the last `scale` steps",
     "The scaled value of step i is the sum of the input values i-scale+1 .. i, and missing for the first scale-1 steps; the number of "
     "totals always equals the number of inputs, also when the scale exceeds it, and scale 1 leaves the values as they are. "
     "Scaling for parameter fitting first replaces negative values with zero (also when other values are missing), then lays the "
     "totals out in rows of one year, padding the final row with missing values and losing, duplicating or moving no value.",
     ["inputs"], "all arrays, all scales >= 1, both periodicities",
     "Tests use one small example array and two scales.",
     ["compute.py", "utils.py"],
     [("convolution with a vector of ones", "compute.py: sum_to_scale"),
      ("clipping, scaling and reshaping", "compute.py: scale_values"),
      ("padding and reshaping", "utils.py: reshape_to_2d")],
     ["return values of compute.sum_to_scale, compute.scale_values, utils.reshape_to_2d"])

prop("C04", "Conversion between real calendar days and 366-day years loses nothing",
     "Converting a daily series of real calendar years to 366-day years and back returns the same series, for every start year and "
     "number of years: in the 366-day form each calendar date sits at the same offset in every year and Feb. 29th of a non-leap year "
     "is the mean of Feb. 28th and Mar. 1st. An incomplete final year is padded with missing values; the converted lengths are 366 "
     "per year and the true number of days respectively, and a length given in real days is converted to 366 per complete year plus the "
     "remaining days of the final year.",
     ["inputs"], "all start years (including century years), all numbers of years, all data values and final-year lengths",
     "Tests convert two or three fixed spans; leap-year alignment varies with start year and length.",
     ["utils.py"],
     [("year loop with running offsets", "utils.py: transform_to_366day, transform_to_gregorian"),
      ("year loop over remaining days", "utils.py: gregorian_length_as_366day")],
     ["return values of the three functions"])

prop("C05", "Fitted parameters depend only on the same calendar step in calibration years",
     "The distribution parameters fitted for a calendar month (or day) are determined by that calendar step's values in the calibration "
     "years, from the initial to the final year inclusive, and by nothing else: values of other calendar steps or years outside the "
     "calibration period never change them. If the calibration period starts before the data or ends after the data the "
     "whole record is used instead. Consequently the index values of one calendar step are unaffected by the totals of any other.",
     ["inputs"], "all data arrays, data start years, calibration periods and both periodicities",
     "Tests check a single calibration period over one record.",
     ["compute.py"],
     [("calibration slice and per-step fitting", "compute.py: gamma_parameters, pearson_parameters, transform_fitted_pearson"),
      ("fallback to the whole record", "compute.py: adjust_calibration_years")],
     ["return values of gamma_parameters, pearson_parameters, transform_fitted_gamma, transform_fitted_pearson, spi, spei"])

prop("C06", "Gamma SPI/SPEI is the standard normal quantile of the fitted mixed gamma",
     "For each calendar step the gamma shape and scale are Thom's maximum-likelihood estimates from the non-zero, non-missing totals: with "
     "A = ln(mean) - mean(ln), shape = (1 + sqrt(1 + 4A/3)) / (4A) and scale = mean / shape. The index of a non-zero total x is the standard "
     "normal quantile of q + (1 - q) G(x), clipped to [-3.09, 3.09], where G is the fitted gamma distribution function and q the share of years of "
     "the record in which that calendar step's total is zero; a zero total gives a missing index. For SPEI the total is that of precipitation "
     "(negatives as zero) minus PET plus 1000 per step.",
     ["inputs"], "all arrays, scales, calibration periods and both periodicities",
     "Fixture comparison covers one dataset with default calibration; the definition must hold for all inputs.",
     ["compute.py", "indices.py"],
     [("Thom estimators", "compute.py: gamma_parameters"),
      ("mixed distribution and quantile", "compute.py: transform_fitted_gamma"),
      ("P - PET + 1000", "indices.py: spei")],
     ["return values of gamma_parameters, transform_fitted_gamma, spi, spei"])

prop("C07", "Pearson SPI/SPEI is the normal quantile of the fitted Pearson III mixture",
     "For each calendar step with at least four non-zero observed totals in the calibration years, location, scale and skew are the L-moment "
     "estimates from all its observed totals (zeros included) and the probability of zero p0 is the share of zeros among them; with fewer, all "
     "four parameters are 0. The index of a total x is the normal quantile of p0 + (1 - p0) F(x), clipped to [-3.09, 3.09], with F the Pearson III "
     "distribution function, except that F is taken as 0 for totals below 0.0005 when p0 > 0, as 0.0005 for them when p0 is 0, and as 0.0005 "
     "(positive or no skew) or 0.9995 (negative skew) for totals at or beyond the distribution's end.",
     ["inputs"], "all arrays, scales, calibration periods and both periodicities, positive, negative and zero skew",
     "The fixture has neither zero-heavy steps nor values beyond the support for each sign of the skew.",
     ["compute.py", "lmoments.py", "indices.py"],
     [("parameters per calendar step", "compute.py: pearson_parameters, calculate_time_step_params"),
      ("distribution function with floors", "compute.py: _pearson_fit, _minimum_possible")],
     ["return values of pearson_parameters, transform_fitted_pearson, spi, spei"])

prop("C08", "A wetter total never gets a lower SPI or SPEI",
     "Within one call and one calendar step, of two non-zero totals the larger one never has the smaller gamma index. The same holds for the "
     "Pearson index of any two totals that are at least 0.0005 and strictly inside the fitted distribution's support.",
     ["inputs"], "all pairs of time steps of all input series, both distributions, fitted and passed-in parameters",
     "Order is a relation between pairs of results over all inputs; the tests compare single fixtures.",
     ["compute.py", "indices.py"],
     [("monotone composition of CDF, mixing and quantile", "compute.py: transform_fitted_gamma, _pearson_fit"),
      ("monotone clip", "indices.py: spi, spei")],
     ["return values of spi and spei"])

prop("C09", "Precomputed fitting parameters reproduce the direct result",
     "Passing the parameters that the fitting functions return for the scaled series of the same data and calibration period to SPI, SPEI or the "
     "Pearson/gamma transforms gives the same index values as letting them be computed; SPEI accepts the deprecated key names with the same "
     "result. Each parameter is used for its own calendar step only, and a set of Pearson parameters of which some are None is rejected by SPI and the Pearson transform with ValueError. Palmer "
     "coefficients returned by one run and passed to another over the same data give the same four index series and are returned unchanged.",
     ["inputs", "histories"], "all series, scales, calibration periods, distributions and parameter arrays",
     "The tests pass parameters in one fixture; the agreement of the two code paths must hold for all inputs.",
     ["indices.py", "compute.py", "palmer.py"],
     [("fitting_params handling", "indices.py: spi, spei, _norm_fitdict"),
      ("parameter arguments", "compute.py: transform_fitted_gamma, transform_fitted_pearson"),
      ("coefficient validation", "palmer.py: _validate_fitting_params")],
     ["return values of spi, spei, transform_fitted_gamma, transform_fitted_pearson, palmer.pdsi"])

prop("C10", "No computation modifies the arrays it is given",
     "No public index, fitting, scaling, conversion or evapotranspiration function changes an element of any array passed to it (data, PET, temperature or "
     "fitting parameters) or the dictionary of fitting parameters. Repeating a call with the same arguments therefore gives the same result.",
     ["inputs", "histories"], "all functions, all array shapes (1-D and 2-D), values and parameters, all sequences of calls",
     "The tests never look at the inputs after a call; aliasing depends on shape and length.",
     ["compute.py", "indices.py", "eto.py", "palmer.py", "utils.py", "lmoments.py"],
     [("copies before in-place assignment", "compute.py: gamma_parameters, transform_fitted_gamma; eto.py: eto_thornthwaite"),
      ("no in-place operations elsewhere", "indices.py")],
     ["the argument arrays after each call"])

prop("C11", "Percentage of normal is the total divided by its calendar normal",
     "The percentage of normal of a time step is its sliding total divided by the mean of the non-missing totals of the same calendar step within "
     "the calibration years (first to last inclusive), as a ratio; it is missing where the total is missing or that mean is not positive. The result has one value per "
     "input value, and calibration years outside the given period, or other calendar steps, never matter.",
     ["inputs"], "all arrays, scales, periodicities and calibration periods inside the record",
     "One monthly fixture with a full-record calibration is tested.",
     ["indices.py", "compute.py"],
     [("calibration slice, strided means, ratio", "indices.py: percentage_of_normal")],
     ["return value of indices.percentage_of_normal"])

prop("C12", "PCI follows Oliver's definition with true month lengths",
     "For a year of 365 or 366 daily values the precipitation concentration index is 100 times the sum of squared monthly totals divided by the "
     "squared annual total, with the months split at their true calendar lengths (February 28 or 29 days). For non-negative rainfall with a positive "
     "total it lies between 100/12 (equal months) and 100 (all in one month), and does not change when all rainfall is multiplied by a positive factor.",
     ["inputs"], "all years of 365 or 366 daily values",
     "Tests hold two fixed years; a wrong month boundary moves one day only.",
     ["indices.py"], [("month boundaries and sums", "indices.py: pci")], ["return value of indices.pci"])

prop("C13", "Thornthwaite PET follows its defining equation for each month and year",
     "Monthly PET equals 16 (L/12) (N/30) (10 T/I)^a, with T the month's temperature (negatives as zero), N its number of days in that actual year (leap "
     "years by the Gregorian calendar, counted from the data start year), L the mean daylight hours of that month at the latitude, I the sum over the calendar months of (mean T/5)^1.514 over the "
     "record and a the cubic in I; where I is 0 it is 0. The output has one value per input month in the same order, is never negative, "
     "and 1-D and (years, 12) inputs give the same values.",
     ["inputs"], "all temperature series of any length, all latitudes in [-90, 90], all start years",
     "One fixture and one latitude are tested; leap-year handling depends on start year and index.",
     ["eto.py", "indices.py", "utils.py"],
     [("Thornthwaite equation, year loop", "eto.py: eto_thornthwaite"),
      ("monthly mean daylight", "eto.py: _monthly_mean_daylight_hours"),
      ("latitude validation", "indices.py: pet")],
     ["return values of indices.pet and eto.eto_thornthwaite"])

prop("C14", "Solar geometry stays within its physical bounds at every latitude and day",
     "For every day of the year 1 to 366 the solar declination lies within +-23.45 degrees; for every latitude from pole to pole the sunset hour angle lies in [0, pi] and the "
     "daylight in [0, 24] hours, so that no valid latitude is rejected. Daylight is 24 hours in polar day and 0 in polar night, 12 hours all year at the equator, and the day "
     "lengths of latitudes +x and -x on a day add up to 24 hours.",
     ["inputs"], "all real latitudes in [-90, 90] and all days 1..366",
     "Tests evaluate a few latitude/day pairs; bounds and domain errors concern the whole continuum.",
     ["eto.py"],
     [("declination formula", "eto.py: _solar_declination"), ("acos argument clamp", "eto.py: _sunset_hour_angle"),
      ("hours conversion", "eto.py: _daylight_hours"), ("monthly mean", "eto.py: _monthly_mean_daylight_hours")],
     ["return values of the solar geometry functions; eto_thornthwaite and eto_hargreaves not raising"])

prop("C15", "Hargreaves PET follows its defining equation for each day",
     "For minimum temperatures not above the maximum, daily PET equals 0.0023 (Tmean + 17.8) sqrt(Tmax - Tmin) 0.408 Ra, with Ra the extraterrestrial radiation of that latitude and day of the 366-day year (FAO-56), each output depending "
     "on the three temperatures of its own day only. The output is 1-D with one value per input day in the same order for any length; 1-D and (years, 366) inputs give the same values.",
     ["inputs"], "all temperature series of any length, all latitudes in [-90, 90]",
     "The single test is one fixture of one latitude.",
     ["eto.py", "utils.py"],
     [("radiation per day of year, equation per value", "eto.py: eto_hargreaves")],
     ["return value of eto.eto_hargreaves"])

prop("C16", "The Palmer soil moisture accounting conserves water",
     "In every month of the Palmer two-layer accounting precipitation equals evapotranspiration plus recharge plus runoff minus soil loss, and the change in stored "
     "water equals recharge minus loss. The surface layer stays within 0 to 1 inch and the lower layer within 0 and the capacity minus 1 inch; evapotranspiration lies between 0 and the potential, and recharge, runoff and loss are never "
     "negative; recharge and loss never exceed their potentials, and water runs off only when both layers are full. The accounting starts with both layers full, and the next month starts from the storage this month ended with.",
     ["inputs", "histories"], "all non-negative precipitation and PET series of any length, all capacities of at least 1 inch",
     "The recursion runs over the whole record; tests compare only final indices of fixtures.",
     ["palmer.py"],
     [("month step", "palmer.py: _calc_recharge, _calc_potential_loss"), ("recursion", "palmer.py: _calc_water_balances")],
     ["the monthly water balance terms; the alpha..delta coefficients returned by palmer.pdsi"],
     [dict(name="ss, su", meaning="water stored in the surface and lower layer", where=S + "palmer.py: _calc_water_balances")])

prop("C17", "Palmer indices follow the NOAA procedure for any record",
     "PDSI, PHDI, PMDI and Z-index equal those of the published NOAA procedure (water balance over the whole record, coefficients, climatic characteristic over the calibration years, "
     "then the X1/X2/X3 recursion with backtracking) for every complete record, however long an abatement lasts. Each output has one value per input month; wherever no spell "
     "is established PHDI equals PDSI, else it equals the established spell's X3.",
     ["inputs", "histories"], "all complete monthly precipitation/PET records, capacities and calibration periods inside the record",
     "The state machine's histories (spell starts, abatements, backtracking) are unbounded; the fixtures exercise a sample.",
     ["palmer.py"],
     [("CAFEC coefficients and K factors", "palmer.py: _calc_cafec_coefficients, _calc_kfactors"),
      ("spell recursion", "palmer.py: _calc_zindex, _statement_*"), ("backtracking", "palmer.py: _assign, _finish_up")],
     ["return values of palmer.pdsi"],
     [dict(name="x1, x2, x3, v, pro, k8", meaning="incipient wet/dry index, established spell index, abatement state, number of months awaiting assignment",
           where=S + "palmer.py: _calc_zindex")])

prop("C18", "Pearson III fits are the L-moment estimates of the sample",
     "The fit of a sample returns the Pearson III location, scale and skew given by its first three unbiased sample L-moments (Hosking): location is the sample mean, and "
     "the skew has the sign of the third L-moment. The result depends on the non-missing values only and not on their order, adding a constant shifts the location only, and multiplying by a positive constant multiplies "
     "location and scale only. Fewer than four observed values, or only zeros, raise ValueError.",
     ["inputs"], "all samples of any size, order and missing pattern",
     "There is no direct test of the module; fixtures reach it with one dataset.",
     ["lmoments.py"],
     [("sample L-moments", "lmoments.py: _estimate_lmoments"), ("parameter approximation", "lmoments.py: _estimate_pearson3_parameters"),
      ("validity checks", "lmoments.py: fit")],
     ["return value of lmoments.fit"])

prop("C19", "Command-line results don't depend on workers and equal the library per cell",
     "For gridded, division and time series input the index written for each cell equals the library function applied to that cell's series alone; every cell is "
     "computed exactly once and lands in its own place. The result is the same for every choice of worker processes (single, all, all but one, more "
     "workers than rows) and is unaffected by other cells, or by datasets or scales processed before in the same session.",
     ["inputs", "configurations", "schedules", "histories"], "all grid shapes, worker counts, indices, scales, distributions and sequences of runs",
     "No stable test runs the command-line programs.",
     ["__main__.py", "__spi__.py"],
     [("splitting among workers", "__main__.py: _parallel_process; __spi__.py: _parallel_spi, _parallel_fitting"),
      ("application to sub-arrays", "__main__.py: _apply_along_axis, _apply_along_axis_double; __spi__.py: _apply_to_subarray_*"),
      ("shared arrays", "__main__.py, __spi__.py: _compute_write_index")],
     ["NetCDF files written; the chunks handed to the workers"])

prop("C20", "Command-line results don't depend on the input units",
     "The same physical data given in millimetres or inches (precipitation, PET), and in degrees Celsius, Fahrenheit or Kelvin (temperature), gives the same index "
     "values up to rounding; unit names are matched regardless of upper or lower case. Any other unit is rejected with ValueError rather than processed.",
     ["inputs", "configurations"], "all supported unit names for each variable, all data values",
     "No stable test runs the command-line programs.",
     ["__main__.py", "__spi__.py"],
     [("unit conversion", "__main__.py, __spi__.py: _compute_write_index")],
     ["NetCDF files written"])

prop("C21", "Day numbers of monthly time steps are exact calendar day counts",
     "Element i of the computed days is the exact number of days in the Gregorian calendar from January 1st of the units start year to the first day of the month i months after the "
     "initial month and year, also when the initial date is before the units start year. The values are integers and strictly increasing by 28 to 31.",
     ["inputs"], "all initial years and months, lengths and units start years within the datetime range",
     "Tests check a few month/year combinations.",
     ["utils.py"], [("month arithmetic with datetime", "utils.py: compute_days")], ["return value of utils.compute_days"])

prop("C22", "Invalid arguments raise ValueError and never yield numbers",
     "Arrays of unsupported dimensions or second dimension, arrays of unequal size that must match, an unknown periodicity or distribution, a scale below 1 for the percentage of normal, a calibration period starting before or longer than "
     "the data for it, a latitude that is missing, NaN or outside [-90, 90], a day outside 1-366, a daily year of other than 365 or 366 complete values for PCI, and a daily series of other than whole 366-day years for the "
     "conversion back all raise ValueError. Values at the limits of the valid ranges are accepted.",
     ["inputs"], "all argument values outside, at and inside the documented ranges",
     "Tests sample one or two invalid values per argument; the limits are inclusive ranges.",
     ["indices.py", "compute.py", "utils.py", "eto.py", "palmer.py", "lmoments.py"],
     [("argument validation", "indices.py: spi, spei, percentage_of_normal, pet, pci; utils.py: reshape_to_2d, transform_*; eto.py; palmer.py: pdsi")],
     ["exception raised by each public function"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for p in P:
        fh.write(json.dumps(p) + "\n")
print(len(P))
