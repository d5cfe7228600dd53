"""Writes /verif/properties.jsonl."""
import json, pathlib

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
    }
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)


PF, T, T2, PS = "portfolyo/core/pfline/", "portfolyo/tools/", "portfolyo/tools2/", "portfolyo/core/pfstate/"

prop("C01", "Portfolio lines are dimensionally and arithmetically consistent",
     "For every portfolio line built from power, energy, price and/or revenue data, at every timestamp energy equals power times the (DST-aware) duration of that delivery period and, if price and revenue are present, revenue equals energy times price; values are reported in MW, MWh, Eur/MWh and Eur whatever unit they were supplied in, and the data are exactly those that were supplied. The kind (volume, price, revenue or complete) follows from which dimensions were supplied or can be derived. Data that contradict each other, lack or have an unknown dimension, have no common delivery period, or are too many or unsuitable for any kind, are rejected with an error.",
     ["inputs"], "all subsets of {power, energy, price, revenue}, given consistently or not, times units, frequencies, timezones, start-of-days and DST periods within the bounds",
     "Tests use a few random frames per subset and one or two units; a wrong conversion, duration or missed contradiction for one particular combination of dimensions, frequency, timezone and DST period is not sampled.",
     [PF + "create.py", PF + "flat_helper.py", PF + "interop.py", PF + "classes.py", T + "duration.py", T + "unit.py"],
     [("filling in and cross-checking of w, q, p, r", PF + "interop.py make_consistent"), ("unit conversion", PF + "interop.py _set_unit"), ("kind from columns", PF + "flat_helper.py _kind")],
     ["PfLine(...).kind, .w, .q, .p, .r, .df"])
prop("C02", "The same data in any accepted representation gives the same portfolio line",
     "Constructing a portfolio line from the same information - as dictionary, dataframe, unit-aware series or list of them, quantity or number next to a timeseries, with keys in any order, in any equivalent unit, with integers or floats, or from another portfolio line - always gives an equal portfolio line. A nested portfolio line built from a mapping or a multi-level dataframe has exactly the named children, limited to their common delivery period. Ambiguous, duplicate or non-standard input (e.g. two values for one dimension, reserved child names, children of different kinds, gaps, missing frequency) is rejected.",
     ["inputs"], "all representations x kinds x frequencies/timezones within the bounds",
     "Tests check each representation against one hand-written expectation, not the pairwise agreement of all representations for all kinds and indices.",
     [PF + "create.py", PF + "interop.py", PF + "flat_helper.py", PF + "nested_helper.py", T + "unit.py"],
     [("recognition of data", PF + "interop.py _from_data"), ("flat-then-nested attempt", PF + "create.py pfline"), ("children from mapping", PF + "nested_helper.py")],
     ["PfLine(...)"])
prop("C03", "Portfolio-line arithmetic yields the defined kind and values, on the overlap",
     "For every pair of operands (portfolio lines of any kind and structure, numbers, dimensionless series, quantities, unit-aware series, None) and every operator (+, -, *, /, |, negation, and their reflected forms), the result has exactly the documented kind and structure and, at every timestamp in both operands and no other, exactly the arithmetic value. Combinations that are not defined (e.g. adding volume to price, adding a non-zero plain number, operands with incompatible frequency, timezone or start-of-day, or without common delivery period) raise an error and never give a value.",
     ["inputs", "programs"], "all operator x left operand x right operand combinations from the operand alphabet (kinds, structures, overlaps, incompatible indices, scalars/series in several units)",
     "The table has over a thousand cells per index relation; tests parametrize part of it and mostly with equal indices.",
     [PF + "arithmatic.py", PF + "interop.py", T + "intersect.py", T + "wavg.py"],
     [("operator preparation", PF + "arithmatic.py Prep"), ("operations", PF + "arithmatic.py Add/Multiply/Divide/Unite"), ("operand recognition", PF + "interop.py pfline_or_nodimseries")],
     ["a + b, a - b, a * b, a / b, a | b, -a"])
prop("C04", "Portfolio-line arithmetic obeys the algebraic laws",
     "For all portfolio lines and sequences of operations: addition is commutative and associative, subtraction is the inverse of addition, negation is an involution, scaling distributes over addition and composes multiplicatively, and scaling or negating a complete portfolio line leaves its prices unchanged. Volume times price divided by price gives back the volume (and by volume the price), uniting two of volume, price and revenue gives the complete portfolio line whose parts are the originals, and flattening, taking a part (volume, price, revenue) and restricting to a period commute with the operators.",
     ["histories", "inputs"], "all expressions up to the depth bound over the operand alphabet",
     "Tests check single operations; laws over compound expressions (where structure, overlap and kind handling interact) are not tested.",
     [PF + "arithmatic.py", PF + "classes.py", PF + "flat_methods.py", PF + "nested_methods.py"],
     [("operators", PF + "arithmatic.py")], ["expressions over portfolio lines"])
prop("C05", "A nested portfolio line always equals the sum of its children",
     "After any sequence of operations (building, adding, replacing or dropping a child, arithmetic, slicing, resampling, reindexing, taking the volume or revenue part), the top-level volume, energy and revenue (and price, for price lines) of a nested portfolio line are at every timestamp the sums over its children, the price of a complete one is total revenue over total volume, and all children and the aggregate have the same index and kind. The set of children and the value of each child are exactly those prescribed by the operations, and flattening keeps the aggregate values.",
     ["histories"], "all operation sequences up to the depth bound, from several initial portfolio lines, with state deduplication",
     "Tests apply one operation to one nested line; stale aggregates or misaligned children that only show after a particular sequence are not reached.",
     [PF + "children.py", PF + "classes.py", PF + "nested_methods.py", PF + "nested_helper.py", PF + "arithmatic.py"],
     [("aggregate computed at construction", PF + "classes.py Nested*PfLine.__post_init__"), ("child management", PF + "children.py")],
     ["pfl.df, pfl.w/q/p/r, pfl.items()"], [("children", "name -> PfLine", PF + "classes.py"), ("df", "aggregate", PF + "classes.py")])
prop("C06", "Operations never change their operands",
     "Portfolio lines and portfolio states are values: no operation (arithmetic, child management, slicing, resampling, reindexing, hedging, concatenation, intersection, decomposition, export, printing, comparison) changes the observable content of any portfolio line, portfolio state, series, dataframe or dictionary that took part in it, and evaluating the same operation twice gives equal results. Changing, after construction, the series, dataframe or dictionary from which an object was built does not change the object. The attributes of an existing object cannot be reassigned, and a copy is an equal, independent object.",
     ["histories", "inputs"], "every operation of the API alphabet on every operand class; all pairs of operations on the same operands within the bounds",
     "Existing tests look at results, hardly ever at the operands afterwards, and never at sequences of operations that share operands.",
     [PF + "classes.py", PF + "children.py", PF + "arithmatic.py", PF + "interop.py", PS + "pfstate.py", PS + "arithmatic.py", T + "changefreq.py", T + "frame.py"],
     [("frozen dataclasses", PF + "classes.py, " + PS + "pfstate.py"), ("new objects returned from every method", PF + "children.py")],
     ["fingerprint of every operand before and after"])
prop("C07", "Selecting a delivery period returns exactly its timestamps and values",
     "Selecting part of a portfolio line or portfolio state returns, for every pair of bounds on, between or outside the period starts (or omitted), an object of the same class whose timestamps are exactly those of the original inside the bounds - label-based selection including the end, half-open selection excluding it - with unchanged values, frequency and children. Splitting at any point gives two parts that together are the original. Selections that are empty, not contiguous, or (for (quarter)hourly data) do not consist of whole days are rejected, and a slice step is rejected.",
     ["inputs"], "all pairs of bounds around every timestamp of every index of the alphabet, for both selection methods, all kinds, structures, and portfolio states",
     "Tests use a handful of bounds on one or two indices.",
     [PF + "flat_methods.py", PF + "nested_methods.py", PS + "pfstate.py"],
     [("LocIndexer / SliceIndexer", PF + "flat_methods.py, nested_methods.py, " + PS + "pfstate.py")], ["pfl.loc[...], pfl.slice[...], pfs.loc[...], pfs.slice[...]"])
prop("C08", "Concatenation is the inverse of splitting, in any order",
     "Concatenating the parts of any portfolio line or portfolio state that was cut at any set of points gives back an equal object, whatever the order in which the parts are passed, and for nested lines child by child. Parts that overlap, leave a gap, or differ in kind, structure, frequency, timezone, start-of-day or child names are rejected, as are mixtures of lines and states.",
     ["inputs", "histories"], "all ways to cut an index of n periods into parts, all permutations of the parts, all kinds/structures, all incompatible pairs",
     "Tests concatenate two or three fixed parts; permutations, all gaps/overlaps and state/children combinations are not covered.",
     [T2 + "concat.py"], [("concat_pflines / concat_pfstates", T2 + "concat.py")], ["pf.concat(...)"])
prop("C09", "Resampling conserves values over exactly the complete delivery periods",
     "For every timeseries, dataframe or portfolio line, changing the frequency gives exactly the target periods that lie completely inside the original delivery period (respecting start-of-day, timezone and DST), in each of which summable quantities (energy, revenue) are the exact sum and averagable quantities (power, price-only) the exact duration-weighted average of the original values when downsampling, or are distributed proportionally to duration, respectively repeated, when upsampling. Unit, name, column order, kind and children are kept. A portfolio line without any complete target period raises an error.",
     ["inputs"], "all (frequency, target frequency, timezone, start-of-day, start, end) windows around period boundaries and DST changes within the bounds",
     "Tests sample a few starts and ends; errors appear only for specific combinations of partial first/last period, DST change and start-of-day.",
     [T + "changefreq.py", T + "trim.py", T + "duration.py", PF + "classes.py"],
     [("summable/averagable resampling", T + "changefreq.py"), ("trim to complete periods", T + "trim.py"), ("asfreq", PF + "classes.py")],
     ["pf.asfreq_sum, pf.asfreq_avg, pfl.asfreq"])
prop("C10", "Resampling is path-independent and reversible",
     "Upsampling followed by downsampling to the original frequency gives back the original portfolio line or series. Downsampling in several steps gives the same as downsampling directly, whenever the intermediate steps keep the same delivery period; resampling to the present frequency changes nothing; and resampling commutes with addition, scaling, flattening, and taking the volume or revenue part.",
     ["histories", "inputs"], "all chains of frequencies up to the depth bound x start/end x timezone x start-of-day x kinds",
     "No test composes resampling steps.",
     [T + "changefreq.py", PF + "classes.py"], [("asfreq", PF + "classes.py"), ("resampling", T + "changefreq.py")], ["pfl.asfreq(a).asfreq(b)"])
prop("C11", "Reindexing keeps existing values and fills new periods with zero",
     "Reindexing a portfolio line onto any compatible index gives a line of the same kind and structure with exactly that index, in which every timestamp of the original keeps its values and every other timestamp has zero volume, energy, revenue (and price, for price lines), for every child as well. An index with a different frequency, timezone or start-of-day is rejected.",
     ["inputs"], "all relative positions of the original and target index within the bounds, all kinds/structures",
     "Tests cover a few positions and only flat lines.",
     [PF + "flat_methods.py", PF + "nested_methods.py", PF + "classes.py"], [("reindex", PF + "flat_methods.py, nested_methods.py, classes.py")], ["pfl.reindex(index)"])
prop("C12", "Delivery-period boundaries are calendar-correct everywhere",
     "For every timestamp, frequency (15min to year), start-of-day and timezone: a timestamp is a period boundary exactly if a delivery period starts there; rounding down/up gives the latest boundary not after / earliest boundary not before it, and a further number of periods moves by exactly that many periods. The end of a period is the start of the next and its duration is the elapsed time between them - also across DST changes, leap days, and month, quarter and year ends. Applied to an index, these functions give the same as applied to its timestamps one by one.",
     ["inputs"], "all timestamps of a grid (minute-level offsets around every boundary and DST change of the calendar window) x frequencies x start-of-days x timezones x number of periods",
     "Hundreds of thousands of (timestamp, frequency, start-of-day, timezone) combinations; tests sample some tens.",
     [T + "floor.py", T + "ceil.py", T + "round.py", T + "isboundary.py", T + "right.py", T + "duration.py", T + "freq.py", T + "startofday.py", T + "stamp.py", T + "righttoleft.py", "portfolyo/core/extendpandas.py"],
     [("stamp/index variants", T + "floor.py, ceil.py, isboundary.py, right.py, duration.py")], ["tools.floor/ceil/isboundary/right/duration .stamp/.index; index.duration, index.right"])
prop("C13", "Trimming keeps exactly the complete target periods",
     "Trimming an index, series or dataframe to a frequency keeps exactly those timestamps that belong to target periods lying completely inside the original delivery period, with unchanged values, frequency, timezone and start-of-day; if there is no complete target period the result is empty, and trimming again changes nothing.",
     ["inputs"], "all start/end windows around period boundaries x frequencies x start-of-days x timezones",
     "Tests cover fixed examples only.",
     [T + "trim.py", T + "floor.py", T + "ceil.py"], [("index / frame", T + "trim.py")], ["tools.trim.index, tools.trim.frame"])
prop("C14", "Intersection returns exactly the common delivery periods",
     "The intersection of any number of indices, series, dataframes, portfolio lines or portfolio states is, for each, its restriction to exactly the timestamps (for different frequencies: the longest-frequency periods) common to all, with unchanged values, class, frequency, timezone and start-of-day, independent of the order of the arguments. Differences in frequency, timezone or start-of-day raise an error unless ignoring that difference was requested (the start-of-day can only be ignored if all data are daily or longer). For indices, series and dataframes, having no overlap gives an empty result; for portfolio lines and states, an error.",
     ["inputs"], "all pairs (and triples) of windows over the index alphabet x all subsets of the three ignore flags",
     "Tests cover chosen examples, not all relative positions and flag combinations.",
     [T + "intersect.py", T2 + "intersect.py"], [("indices / indices_flex / frames", T + "intersect.py"), ("indexable", T2 + "intersect.py")], ["tools.intersect.*, pf.intersection"])
prop("C15", "Weighted averages are exact",
     "The weighted average of any series or dataframe (row- or column-wise) equals the sum of weight times value divided by the sum of weights for all finite values and weights, whether weights are passed as list, mapping, series or dataframe, with or without units, keeping the unit of the values, ignoring value entries whose weight is zero. With weights that sum to zero (but are not all zero) the result is the common value if all values that count are equal, and undefined (not a number) if they are not; if all weights are zero, the average of a series is undefined, and that of the rows or columns of a dataframe is the common value if all values are equal and undefined otherwise. Weights that do not match the values are rejected.",
     ["inputs"], "all value and weight vectors up to length n over a small alphabet including zero, negative and missing values x representations x units",
     "Edge cases (zero-sum weights, missing values with zero weight, equal values) form a product space of which tests cover single points.",
     [T + "wavg.py"], [("series / dataframe", T + "wavg.py")], ["pf.wavg"])
prop("C16", "Peak-hour functions select exactly the specified hours",
     "A peak function made from given bounds and weekdays selects exactly the delivery periods whose local start lies on one of the weekdays and in the half-open interval from left to right bound (wall-clock time, also on DST-change days, bounds may be open); the built-in German function selects 08:00-20:00 on Monday to Friday. Indices with a too long frequency are rejected, as are bounds that are not on a quarter-hour, and bounds and weekdays that single out nothing or everything; a period that is only partly peak raises an error.",
     ["inputs"], "all (left, right, weekday set) specifications of the alphabet x all quarter-hours of the calendar windows x timezones x frequencies",
     "Tests compare with few fixed lists.",
     [T + "peakfn.py", T + "product.py"], [("factory", T + "peakfn.py"), ("germanpower_peakfn", T + "product.py")], ["pf.create_peakfn(...)(index)"])
prop("C17", "Peak/offpeak decomposition loses nothing",
     "Decomposing a timeseries or portfolio line into peak and offpeak values per month, quarter or year gives for every complete period exactly the sums (energy, revenue, duration) and duration-weighted averages (power, price-only) over its peak and offpeak timestamps, so that peak plus offpeak equals base; the complete-price is revenue over energy. Converting back gives every timestamp the value of its period and peak class, and filling in missing peak, offpeak or base columns reproduces the missing column exactly.",
     ["inputs"], "all windows x target frequencies x peak functions x timezones/start-of-days; all subsets of known columns",
     "Tests use one peak function and fixed months.",
     [T + "peakconvert.py", PF + "flat_methods.py"], [("tseries2poframe, poframe2tseries, complete_bpoframe", T + "peakconvert.py"), ("po", PF + "flat_methods.py")], ["pfl.po(...), tools.peakconvert.*"])
prop("C18", "Hedging preserves volume or value in every hedge period",
     "A hedge has one constant power and price per hedge product (each complete day/month/quarter/year, split in peak and offpeak if requested): the price is the duration-weighted average of the market prices in the product, and the power either preserves the product's total energy (volume hedge) or its total value at the market prices (value hedge). The result covers exactly the complete hedge periods common to volume and prices at the original frequency, carries the original units, and hedging a hedge changes nothing. A value hedge is not defined for a product whose total price is zero. Invalid hedge specifications are rejected.",
     ["inputs"], "all windows x (how, peak function, hedge frequency) x volume/price patterns x timezones/start-of-days",
     "Tests use fixed months and patterns.",
     [T + "hedge.py", PF + "flat_methods.py", PF + "nested_methods.py"], [("hedge", T + "hedge.py"), ("hedge_with", PF + "flat_methods.py")], ["pfl.hedge_with, pf.hedge"])
prop("C19", "Portfolio states balance",
     "In every portfolio state, at every timestamp: unsourced volume is the negative sum of offtake and sourced volume, valued at the unsourced prices; the procurement cost is the sum of sourced and unsourced volume and revenue; net position mirrors unsourced volume; sourced and unsourced fractions add up to one with the sourced fraction being sourced over (negative) offtake volume; and the mark-to-market value is the sourced volume times the difference of unsourced and sourced price. Construction from lines or series trims all parts to the offtake period and rejects missing, wrongly-dimensioned, incompatible or too-short parts; replacing a part changes that part and everything derived from it, and nothing else.",
     ["inputs", "histories"], "all combinations of part representations, structures, overhangs and value patterns; all sequences of part-replacement up to the depth bound",
     "Tests check derived values on one or two states.",
     [PS + "pfstate.py", PS + "pfstate_helper.py"], [("derived properties", PS + "pfstate.py"), ("input preparation", PS + "pfstate_helper.py")], ["pfs.unsourced, pfs.pnl_cost, pfs.netposition, pfs.sourcedfraction, ..."])
prop("C20", "Portfolio-state arithmetic acts on all parts consistently",
     "Adding or subtracting portfolio states adds or subtracts offtake and sourced volumes and revenues timestamp by timestamp on the common period, and the resulting unsourced price is the volume-weighted average of the two unsourced prices; multiplying with or dividing by a number or factor series scales volumes and revenues and keeps prices; negation inverts volumes and keeps prices; dividing two states gives the ratios of their parts. Addition is commutative, and undefined combinations (e.g. adding a number or portfolio line to a state, multiplying two states) raise an error.",
     ["inputs", "programs"], "all operator/operand combinations over the state alphabet, incl. partial overlap, nested parts and incompatible indices",
     "Tests cover few operands, all with equal index.",
     [PS + "arithmatic.py"], [("Add/Multiply/Divide", PS + "arithmatic.py")], ["pfs1 + pfs2, pfs * f, pfs1 / pfs2, -pfs"])
prop("C21", "Resampling a portfolio state keeps its balance",
     "Resampling a portfolio state gives the complete target periods only, in which offtake, sourced and unsourced energy and revenue are the sums of the originals, unsourced and sourced prices are the energy-weighted averages, and all balance relations hold again; parts that are nested stay nested.",
     ["inputs"], "all (frequency, target frequency, start, end, timezone, start-of-day) windows x state patterns",
     "Tests cover one or two windows.",
     [PS + "pfstate.py", PF + "classes.py", T + "changefreq.py"], [("asfreq", PS + "pfstate.py")], ["pfs.asfreq"])
prop("C22", "Sourcing the unsourced volume hedges it completely",
     "Simulating that the unsourced volume is hedged adds exactly the hedge of the unsourced volume at unsourced prices to the sourced position and leaves offtake and unsourced prices unchanged; for a portfolio state of complete hedge products, afterwards the unsourced volume (volume hedge) or the unsourced value (value hedge) is zero in every hedge product, and procurement cost over every hedge product is unchanged in case of a value hedge.",
     ["inputs", "histories"], "all windows x (how, peak function, hedge frequency) x state patterns",
     "Tests check one configuration.",
     [PS + "pfstate.py", T + "hedge.py"], [("source_unsourced, hedge_of_unsourced", PS + "pfstate.py")], ["pfs.source_unsourced(...)"])
prop("C23", "Timezone conversion keeps the data aligned",
     "Making a frame timezone-aware or -agnostic, or converting it to another timezone, keeps day-or-longer values at the same wall-clock periods and (for (quarter)hourly data) keeps every absolute instant, or, when fixing wall-clock time, every unambiguous wall-clock time; the only values dropped or repeated are those of the nonexistent or repeated hour at DST changes (when fixing wall-clock time, the first of the repeated hours is kept and the nonexistent hour gets the values of the hour before), and name, unit, columns and frequency are preserved. If day-or-longer values are converted by absolute instant to a timezone in which their delivery periods do not exist, an error is raised.",
     ["inputs"], "all windows around DST changes x source/target timezones x frequencies x start-of-days x floating flag",
     "Tests cover listed examples.",
     [T + "tzone.py"], [("force_aware / force_agnostic", T + "tzone.py")], ["pf.force_aware, pf.force_agnostic"])
prop("C24", "Standardizing gives a well-formed frame with the same data, or an error",
     "Standardizing a timeseries or dataframe - with left- or right-bound timestamps, aware or agnostic - gives left-bound, gapless, sorted timestamps with frequency set in the requested timezone, with every value at its delivery period, and the result can be used to build a portfolio line; standardizing it again changes nothing. Input that is unsorted, has gaps or duplicates, an undeterminable or not-allowed frequency, or that does not consist of whole days is rejected.",
     ["inputs"], "all windows (around DST changes) x frequency x bound x aware/agnostic x permutations x defects (gap, duplicate)",
     "Tests cover listed examples.",
     [T + "standardize.py", T + "freq.py", T + "righttoleft.py", T + "tzone.py"], [("frame", T + "standardize.py")], ["pf.standardize"])
prop("C25", "Mapping to another year keeps calendar structure and values",
     "Mapping data of complete months to another year gives the complete corresponding delivery period in the target year at the same frequency and timezone; every target value of daily-or-shorter data is an unchanged copy of a source value from the same calendar month, from a day with the same duration and at the same time of day, and the same weekday if it is not a holiday, or, on a holiday, from the same holiday (else another holiday or Sunday), such that source days are repeated as little as possible; if there is no corresponding day, an error is raised. Monthly-or-longer values are those of the same month(s). Months that are in both source and target period are unchanged. For portfolio lines the kind and the children are kept, and energy and revenue scale with the duration of the period.",
     ["inputs"], "all (source year, target year) pairs of the bound x frequency x timezone x holiday country",
     "Tests cover a few year pairs.",
     [T + "changeyear.py", T2 + "changeyear.py"], [("map_index_to_year, characterize_index", T + "changeyear.py"), ("map_to_year", T2 + "changeyear.py")], ["pf.map_to_year, pf.map_frame_to_year"])
prop("C26", "Product delivery periods are correct",
     "For every trading date, product (day, month, quarter, season from April or October, year) and number of periods ahead, the delivery period has the right calendar start and end, starts after the trading date and lies exactly that many periods ahead, at the requested start-of-day; consecutive front numbers tile the calendar without gap or overlap. Given an optional left and right bound, the completed bounds are ordered (swapped if necessary), equal to the given ones, and otherwise lie at year boundaries; two bounds with distinct timezone or time of day are rejected.",
     ["inputs"], "all trading dates of leap and non-leap years x products x front numbers x timezones x start-of-days",
     "Tests cover some tens of dates.",
     [T + "product.py", T + "leftandright.py"], [("delivery_period", T + "product.py"), ("stamps", T + "leftandright.py")], ["tools.product.delivery_period, tools.leftandright.stamps"])
prop("C27", "Exports contain every value exactly once, under the right label",
     "The dataframe, Excel, clipboard and text representations of any portfolio line or portfolio state contain, for the requested columns and child levels, exactly the values of the object (and of every child) at every timestamp, in the documented units, under the right (nested) name; columns that are not available are left out; with units or without them the numbers are the same, and a dataframe export can be read back into an equal portfolio line. Text output shows, for every number of requested timestamps, the first and last ones and the right totals, and the tree of children.",
     ["inputs"], "all kinds x structures x column subsets x child levels x unit flag x index lengths x number of timestamps",
     "Tests check few combinations; has_units=False and short/long text output are not tested.",
     [PF + "dataframeexport.py", "portfolyo/core/shared/excelclipboard.py", PF + "text.py", PS + "text.py", "portfolyo/core/shared/text.py", PS + "pfstate.py"],
     [("dataframe", PF + "dataframeexport.py"), ("to_excel/to_clipboard", "portfolyo/core/shared/excelclipboard.py"), ("text", PF + "text.py")], ["pfl.dataframe, pfl.to_excel, repr(pfl)"])
prop("C28", "Frequencies are totally ordered and inferred correctly",
     "Comparison of frequencies is a total order by length (15min < hour < day < month < quarter < year; quarters and years with distinct start month are equally long, but only comparable for resampling if quarters or years of one consist of periods of the other) in which the shortest and longest of any collection are its minimum and maximum regardless of argument order, and resampling direction follows it. The frequency inferred for (from three timestamps on), or set on, any gapless index or frame is the frequency with which it was made, also with a single DST change, and is refused if it does not fit the timestamps.",
     ["inputs"], "all ordered collections of frequencies up to length k; all windows x frequency x timezone x start-of-day for inference",
     "Tests check listed pairs only.",
     [T + "freq.py"], [("up_or_down, longest, shortest, guess_to_index, set_to_index", T + "freq.py")], ["tools.freq.*"])
prop("C29", "Gap filling and frame joining keep all existing data",
     "Filling gaps in a timeseries keeps all existing values and replaces an interior gap by exact linear interpolation if it is not longer than the given maximum, leaving longer gaps as they are. Joining frames with different column depths puts every value under its original label, and adding a header level changes labels only.",
     ["inputs"], "all presence patterns up to length n x maximum gap; all pairs of column depths",
     "Gap patterns form a power set; tests use few.",
     [T + "frame.py"], [("fill_gaps, concat, add_header, series_allclose", T + "frame.py")], ["tools.frame.*"])
prop("C30", "Equality and truth value of portfolio lines follow their content",
     "Two portfolio lines (or states) are equal exactly if they have the same kind, structure, index (frequency, timezone, timestamps; not its name), children (in any order) and values up to a relative tolerance of 1e-7, where the unsourced price of a state only matters at timestamps with unsourced volume; equality is reflexive, symmetric and consistent with replacing any single value. A portfolio line is true exactly if it contains a non-zero value, and compatibility of indices is decided exactly by frequency, timezone and start-of-day.",
     ["inputs"], "all pairs over the object alphabet; every single-value perturbation of every object",
     "Tests compare a handful of pairs.",
     [PF + "flat_methods.py", PF + "nested_methods.py", PF + "classes.py", PS + "pfstate.py", T + "testing.py"],
     [("__eq__, __bool__", PF + "flat_methods.py, nested_methods.py, classes.py"), ("assertions", T + "testing.py")], ["a == b, bool(a)"])
prop("C31", "Plots show the values of the portfolio line",
     "Every line, bar or area that is plotted for a portfolio line or portfolio state has at every delivery period the value of the corresponding timeseries (energy or power, price, revenue; of the line itself and, if wanted, of each child), spanning exactly that period, and lies within the visible range of its axes, also if several portfolio states are plotted in one figure; tick labels and data labels belong to the period at which they are shown.",
     ["inputs"], "all kinds, frequencies and structures",
     "Tests only check that plotting does not fail.",
     [PF + "plot.py", T + "visualize/plot.py", PS + "plot.py", T2 + "plot.py"], [("plot_timeseries*", T + "visualize/plot.py")], ["matplotlib artists"])
prop("C32", "Units only scale a value",
     "A unit never changes the quantity that is meant. For every unit that is defined - in every spelling, with every prefix, and in every product and quotient of units - the kind of value (power, energy, price, revenue, duration, temperature, dimensionless) follows from its dimension alone, and units of other dimensions are rejected; conversion to default units keeps the physical value of scalars, integer and float series with unit, series of quantities (in one or in several units and dimensions) and dataframes, is idempotent, gives plain numbers for dimensionless values, and leaves its argument unchanged; a series of quantities of one dimension becomes a series with that unit and the same values, and one of several dimensions is rejected as such. The comparison functions for testing accept exactly the equal values, in whatever unit.",
     ["inputs"], "all units x spellings x prefixes; all products and quotients of k units; all containers",
     "Tests compare a handful of quantities; the space of units is combinatorial.",
     [T + "unit.py", T + "unitdefinitions.txt", T + "testing.py"],
     [("to_name, defaultunit, split_magn_unit, avoid_frame_of_objects", T + "unit.py"), ("assert_series_equal, assert_frame_equal", T + "testing.py")], ["tools.unit.*, pf.testing.*"])
prop("C33", "Example objects are as requested",
     "Whatever the random generator returns, the objects of portfolyo.dev are as requested: an index has the frequency, timezone, start-of-day and (if given) start and length, and consists of complete delivery days; values, series and frames have the requested index, columns and units, the same numbers with and without units, and are complete and positive; a portfolio line has the requested kind, number of levels and number of children on every level, with names that start with those of their ancestors, and only positive values if these are requested; a portfolio state has negative offtake and positive sourced volume, with sourced price and volume uniform within each month (and within its peak and its offpeak hours) if days start at midnight. With a seed, equal calls give equal objects; the index that is passed is not changed (not even its name); mock-up curves are high and low in the documented seasons, days and hours and proportional to the requested average.",
     ["inputs", "histories"], "all parameters x all outcomes of the first k random decisions",
     "Tests see one random outcome per run.",
     ["portfolyo/dev/develop.py", "portfolyo/dev/mockup.py"],
     [("get_index, get_series, get_pfline, get_randompfline, get_pfstate", "portfolyo/dev/develop.py"), ("w_offtake, p_marketprices, wp_sourced", "portfolyo/dev/mockup.py")], ["pf.dev.*"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
