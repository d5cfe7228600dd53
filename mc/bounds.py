"""Bounds of the explored space, per property and tier (goes to the evidence files and DESIGN.md)."""

BOUNDS = {
    "C01": ("all 15 dimension subsets x up to 4 units per dimension x 5 value patterns x 20 indices (7 frequencies, 6 timezones, start-of-day, DST changes); contradictions at every single position; relative index positions for 3 indices; all sets of periods without volume x unknown price x 9 subsets (day or longer)",
            "relative positions for all indices"),
    "C02": ("6 indices x all representations of 4 kinds, all key orders; nested: 3 indices x 4 kinds x all representations x child windows", "all 17 indices"),
    "C03": ("7 index configurations x up to 9 index relations x 4x4 kinds x 4 structures on either side x 5 operators; ~60 other operands on both sides (3 configurations)", "all configurations x all relations"),
    "C04": ("2 index configurations x 4 kinds x all pairs and triples of a 5-operand alphabet (per law), all unary laws, all kind combinations", "all configurations"),
    "C05": ("all sequences of 35 operations to depth 2 (1 configuration, 4 kinds), depth 1 from all other configurations x 3 initial lines, depth 3 over a 14-operation subset", "depth 2 everywhere, depth 3 over all operations, depth 4 over the subset"),
    "C06": ("~150 operations x 12 portfolio lines and 3 states x 2 configurations; all ordered pairs of operations on 2 objects; every way to change every input container and every result", "all pairs on all 15 objects, all configurations"),
    "C07": ("all ordered pairs of ~4n+3 bounds, all 2^n subsets of timestamps (n = 4..6), all pairs of selections; 8 kind/structure combinations x 12 configurations (covering subset)", "full product"),
    "C08": ("n = 4..5 periods, all 2^(n-1) cuts, all permutations of the parts, x 4 kinds x 3 structures x all configurations; all single gaps/overlaps/repeats and incompatible pairs", "longer periods"),
    "C09": ("6 x 6 frequencies (plus 9 with other start months) x 4 timezones x 2 start-of-days x all window ends around the boundaries of interest", "more window ends"),
    "C10": ("all sequences of target frequencies to depth 3; covering third of configuration x kind x structure", "full product, one level deeper"),
    "C11": ("all windows [i, j) from 2 periods before start to 2 after end, followed by all second windows; all kinds x 3 structures x all configurations", "longer periods, more second windows"),
    "C12": ("all quarter-hours (plus 5 offsets inside) of 24 days (1969..2032) x 10 frequencies x 4 start-of-days x 7 timezones x -3..3 periods; all index windows of 8 frequencies", "every day of 24 months, 7 timezones"),
    "C13": ("7 x 9 frequencies x 4 timezones x 2 start-of-days x all window ends around boundaries, incl. windows of parts of days", "more window ends"),
    "C14": ("all pairs and triples of 4-8 windows per configuration, all 8 combinations of ignore flags, all subsets of {frequency, timezone, start-of-day} differing, 5 classes of object, all argument orders", "more windows"),
    "C15": ("all value vectors over {10, 30, -20, 0, nan} and weight vectors over {0, 1, -1, 2, .5} of length 1..3, 11 representations of the weights", "length 4"),
    "C16": ("97 x 97 bounds, 128 sets of weekdays, 7 windows x timezones with every (quarter)hour; durations for all frequencies", "the same with longer windows"),
    "C17": ("10 windows x 2 start-of-days x 7 peak functions x month/quarter/year; 7 windows of peak/offpeak values (covering half)", "full product"),
    "C18": ("8 windows x 2 start-of-days x 6 relative positions of the prices x 4 products x volume/value x base/peak functions x 3 value patterns", "portfolio lines with every start-of-day"),
    "C19": ("9 representations of offtake x 11 of prices x 9 of sourced x 4 overhangs (covering subset); sequences of 13 operations to depth 2, 7 operations to depth 3", "depth 3 for all, 4 for the subset, all configurations"),
    "C20": ("7 configurations x 9 index relations (covering subset) x 4 x 4 states x all operators; ~40 other operands; sequences of 10 operations to depth 2", "full product; depth 3"),
    "C21": ("all sequences of target frequencies to depth 2; every second (configuration, shape)", "full product; depth 3"),
    "C22": ("5 shapes x 7 windows x 2 start-of-days (half of the product) x all sequences of hedges to depth 2", "full product; depth 3"),
    "C23": ("6 x 6 timezones (plus half-hour and midnight DST changes) x 8 frequencies x all windows around DST changes x 5 frame shapes x floating", "more windows"),
    "C24": ("4 zones x 8 frequencies x all windows x all input representations x all conversions; every single-position defect", "more windows"),
    "C25": ("11 (timezone, country, start-of-day) x source years 2019/2020 x 9 target years x all months (daily); hourly/quarterhourly for months with DST changes", "source years 2016-2027 x all target years"),
    "C26": ("every day of 2 years x 5 products x front counts 1..5 x 5 timezones x 4 start-of-days (half); all days as single bound; all pairs of a date grid", "6 years, full product"),
    "C27": ("4 configurations x 4 kinds x 6 structures x all column subsets x levels x units; text: all index lengths x number of timestamps", "all configurations"),
    "C28": ("30 frequencies: all ordered pairs and triples; all windows x 11 frequencies x 5 timezones x start-of-day", "quadruples"),
    "C29": ("all presence patterns of length 1..8 x all maximum gaps x value patterns x indices; all depths 1..4 of pairs and triples of frames", "length 10"),
    "C30": ("all ordered pairs of an alphabet of ~14 lines per kind and configuration; every single-value perturbation (covering third of configurations)", "full product"),
    "C31": ("14 configurations x 4 kinds x 4 structures x up to 5 lengths x 4 value patterns (covering subset); portfolio states x 4 price ranges; figures with 1..3 states; timeseries with all pairs of 16 units in 4 plot functions (6 configurations)", "full product"),
    "C32": ("all units x spellings x prefixes; all products and quotients of two of 19 units; 4 value patterns x 5 containers; all pairs of units for conversion and comparison; all series of up to 3 quantities of 8 units", "all products and quotients of three of 9 units"),
    "C33": ("8 frequencies x 4 timezones x 3 start-of-days x 4 starts x 10 lengths; 11 indices x all kinds x 1..3 levels x 1..3 children x sign; all outcomes of the first 1..4 random decisions (per size)", "first 4..7 random decisions, all sizes"),
}
