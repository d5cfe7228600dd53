"""Writes the "fixed" list of /verif/known_findings.json (run by hand after a "fix:" commit in /repo)."""
import json, pathlib

F = [
    ("C09", "7fef825", "duration of an empty index had no unit, so that resampling an empty line failed"),
    ("C09", "a604596", "downsampling daily-or-shorter values to periods that start on a day with clock change raised or lost values (e.g. Africa/Cairo, America/Sao_Paulo)"),
    ("C03", "d5e89b1", "nested + nested with partial overlap: children in one operand only made the sum fail or kept distinct indices"),
    ("C03", "ff78e74", "volume * price without common delivery period gave an empty line instead of an error"),
    ("C04", "7e49658", "price of a + b was NaN at timestamps without volume although both prices were equal"),
    ("C02", "c9a1c49", "2QS, 2YS etc. were accepted as frequency"),
    ("C12", "e4e77fa", "timestamps with seconds were considered (quarter)hour boundaries"),
    ("C12", "5c04e43", "floor and ceil of timestamps in the repeated hour at the end of DST raised or gave the wrong hour"),
    ("C12", "cc42b22", "duration/right of a timestamp without frequency gave an unrelated error or wrong value"),
    ("C12", "c5038aa", "floor, ceil and boundary for QS-FEB, YS-APR etc. used January"),
    ("C14", "ac18cd1", "intersection of one index, or with an empty index, raised"),
    ("C14", "3ca8133", "ignore_start_of_day with equal start-of-days changed the result"),
    ("C14", "b1b7977", "intersection ignoring start-of-day without a full period raised"),
    ("C15", "1653aec", "weighted average with zero-weight or missing values was NaN or raised"),
    ("C19", "ffb32b2", "mark-to-market value was NaN where the sourced volume is zero"),
    ("C06", "be87fce", "copy.copy and copy.deepcopy of nested lines failed (endless recursion)"),
    ("C11", "5b246b5", "reindexing a nested line failed"),
    ("C08", "a798755", "concatenating zero or one portfolio state gave an unrelated error"),
    ("C07", "b37b59f", "slice with a step ignored the step"),
    ("C30", "e778a58", "equality depended on the name of the index"),
    ("C30", "530276f", "truth value of a nested line was the truth value of its dictionary"),
    ("C11", "87af270", "reindexing lost the price where the volume is zero"),
    ("C10", "35eb375", "resampling to the present frequency lost the price where the volume is zero"),
    ("C16", "6b1afdc", "peak function with a bound in the hour that is skipped at the start of DST raised"),
    ("C16", "f50e2c2", "peak function with weekdays from a generator was exhausted after the first call, and changed with the list afterwards"),
    ("C16", "4e5dc55", "peak function without any weekday was accepted"),
    ("C17", "337b992", "conversion of peak and offpeak values to a timeseries swapped the two"),
    ("C17", "40779db", "conversion of summable peak and offpeak values to a timeseries did not conserve the sum"),
    ("C17", "e465bde", "peak and offpeak values with another start-of-day were attributed to the wrong period"),
    ("C18", "3bf9b9c", "hedge with daily products or another start-of-day raised or used the wrong period"),
    ("C18", "f10c006", "hedge failed if only one of volume and price had a unit"),
    ("C23", "2783345", "conversion to agnostic lost name, unit and columns of (quarter)hourly data"),
    ("C23", "32d2a53", "conversion to the same timezone failed with a zoneinfo timezone"),
    ("C23", "3afb0eb", "conversion of daily-or-longer data to another timezone silently changed the delivery periods"),
    ("C24", "9e67b7b", "standardizing right-bound data with a gap before the final timestamp gave a wrong first timestamp"),
    ("C24", "4a4e13b", "monthly frequency was inferred although the timestamps differ in time of day"),
    ("C24", "76a4330", "daily right-bound timestamps around a DST change gave wrong left-bound timestamps"),
    ("C23", "52bcac8", "follow-up of 3afb0eb: the check needs a frequency"),
    ("C28", "3141dfd", "shortest and longest of frequencies with another start month were wrong"),
    ("C25", "8029c50", "changing the year of (quarter)hourly data with a start-of-day other than midnight failed"),
    ("C25", "6c6e98d", "changing the year mapped a 23h-day onto a 25h-day"),
    ("C25", "934fdf6", "changing the year of a revenue line failed"),
    ("C26", "a0a020b", "left and right timestamps in UTC raised AttributeError"),
    ("C27", "302adf6", "dataframe(has_units=False) raised AttributeError"),
    ("C27", "b53fae1", "dataframe without any available column lost its index"),
    ("C27", "ac9ca8e", "keyword arguments of to_excel were passed as positional arguments"),
    ("C27", "2fa0598", "print(num_of_ts=n) with n <= 2 repeated (nearly) all timestamps"),
    ("C27", "c960f00", "print of a line with more than 7 levels raised IndexError"),
    ("C28", "585cbee", "the frequency of an 89-day quarter with the start of DST was not recognised"),
    ("C28", "c1a784e", "a gappy index of months or quarters got a week-of-month frequency which it does not have"),
    ("C29", "7c6b4b0", "fill_gaps raised IndexError if the only gap is at the end"),
    ("C29", "d90d5ba", "fill_gaps changed the existing value after the gap by rounding (1e17, nan, 1 -> 1e17, 5e16, 0)"),
    ("C29", "83c929b", "frame.concat failed if the frames are given as iterator"),
    ("C29", "6062d4f", "fill_gaps left gaps, if a single value separates a gap at the start or end from the next ([nan, 1, nan, 3])"),
    ("C31", "126ac1c", "steps in a plot started halfway the delivery period (step \"mid\" instead of \"post\")"),
    ("C31", "02c2e96", "bar plots of quarters and years that do not start in January had wrong labels or failed"),
    ("C31", "d74286b", "bar plot of a complete line with zero volume (nan price) raised TypeError"),
    ("C31", "3645833", "plot of a portfolio state hid values if the axes limits have the same sign"),
    ("C31", "9dcbff5", "plotting dimensionless values raised AttributeError"),
    ("C31", "7a2f14d", "plot_pfstates always raised AttributeError (used functions that do not exist) and returned no figure"),
    ("C32", "e6452af", "a series of quantities in e.g. kWh/euro_per_MWh could not be turned into a pint-series (or got another unit)"),
    ("C32", "06086ba", "a series with quantities of several dimensions raised TypeError instead of DimensionalityError"),
    ("C32", "38ca491", "fraction or kWh/MWh values kept their unit when converted to default units, and compared unequal to the same plain values"),
    ("C33", "177949d", "dev.get_pfline(positive=True) with more than one level had negative values"),
    ("C31", "2ba2da2", "plotting a timeseries in a custom unit raised"),
    ("C31", "f64b130", "plotting values with a unit without standard name (e.g. tCO2) raised"),
    ("C02", "e08e766", "numpy numbers and series of float32 values were not accepted, or kept their precision (so that equal data gave unequal lines)"),
    ("C18", "462e187", "hedge without complete product lost the units"),
    ("C08", "c1dd486", "concatenating the elements of an iterator raised"),
    ("C05", "dc3b20a", "set_child accepted names that are not a string"),
    ("C15", "6d7bd1d", "weighted average of a series with small weights (sum below 1e-8) was not a number"),
]
V = pathlib.Path(__file__).resolve().parent.parent
path = V / "known_findings.json"
d = json.loads(path.read_text())
d["fixed"] = [f"fixed: property={p} {h} {what}" for p, h, what in F]
d["findings"] = [
    {"id": f"C33-name-{fn}", "property": "C33", "case": [{"part": "name"}, {"fn": fn}], "match": "name of index became ts_left",
     "what": f"dev.{fn} gives the index that it is passed the name 'ts_left' (existing tests rely on it)"}
    for fn in ("get_series", "get_dataframe")
] + [
    {"id": f"C33-weekday-{tz}", "property": "C33", "case": [{"part": "curve", "tz": tz}, {"tz": tz, "what": "price by weekday"}], "match": "[119.704, 114.967, 98.961, 83.736, 80.759, 92.271, 109.602]",
     "what": f"dev.p_marketprices has its weekly maximum on Monday instead of Tuesday, so that prices on Sunday are higher than midweek (timezone {tz})"}
    for tz in (None, "Europe/Berlin", "America/New_York")
]
path.write_text(json.dumps(d, indent=1) + "\n")
print(len(F), "fixed")
