"""What each check quantifies over (b) and what lies outside (o). Read by checks.py; shown in MANIFEST.json, the evidence and DESIGN.md."""
_ACC = ('one order on one tick; every float value of balances (base <= 1e6, quote <= 1e8), units (0 or 1e-6..10 / 1e-4..10), liquidity 0..1, volume ratio (0 or 1e-3..1), '
        'fees (relative <= 0.1, fixed and minimum <= 100, per order type), prices 0.01..1e6 with low<=open,close<=high, volume <= 1e6, order amounts (base <= 1e6, quote <= 1e8)')
_ACCO = 'values outside the stated ranges, NaN, negative units or fees, malformed ticks; obligations listed as undecided or decided only in narrowed precision'
_EV = 'up to 3 ticks (one gap position free), up to 2 orders emitted per step, free acceptance of every attempt (the executor is replaced by an uninterpreted one), free timestamps, prices and volumes'
_EVO = 'longer histories (the loop body has no state besides the one compared at every step); the executor itself is decided by C01-C10'
_IND = 'windows of 1..3 values, the stated number of updates with free prices and volumes; periods 60, 300 or 86400 s, free gaps of up to 2 periods between ticks'
B = {
 'C01': (_ACC, _ACCO), 'C02': (_ACC + '; inductive: the start state is any non-negative one, so order sequences of any length follow', _ACCO),
 'C03': (_ACC, _ACCO), 'C04': (_ACC, _ACCO), 'C05': (_ACC, _ACCO), 'C06': (_ACC, _ACCO), 'C07': (_ACC, _ACCO), 'C08': (_ACC, _ACCO), 'C09': (_ACC, _ACCO),
 'C10': (_ACC, _ACCO),
 'C11': (_EV, _EVO), 'C12': (_EV + '; up to 4 ticks', _EVO),
 'C13': (_EV + '; volatilities and the price/portfolio changes from any balances and prices', _EVO),
 'C14': ('up to 3 ticks, up to 3 side records of 1..2 signals, free times and values', 'longer inputs (look-ups of longer side inputs: C21)'),
 'C15': (_EV + '; logging and volatility on/off', _EVO), 'C16': (_EV, _EVO),
 'C17': ('three start dates, windows of 0..3 months, intervals of up to 2 (thorough 3) windows with a free end, free tick times', 'other start dates (calendar arithmetic: C47)'),
 'C18': ('up to 3 periods with free final values, prices, volatilities and counts', 'more periods (a sum over the list)'),
 'C19': ('up to 2 (thorough 3) traders in a batch, every interleaving of their evaluation tasks at synchronisation and evaluation points with up to 1 (2) preemptions, 0/1 months, with and without side input, equal or different emitters',
         'more preemptions, weak memory; data races on plain accesses are detected only between the modelled switch points'),
 'C20': ('three start dates, window lengths 0..3 months (also -1 and -12), up to 3 windows and 2 ticks, zero volumes, with and without side input, free start and end', 'longer histories'),
 'C21': ('up to 10 (thorough 20) side records with free, ordered times and any hint', 'more records'),
 'C22': ('up to 5 (thorough 9) records with free ordered times (duplicates included), free start and end (0 = open)', 'more records'),
 'C23': ('up to 4 (thorough 6) price records, six sampling rates, free gaps of up to 3 (4) periods, one long gap of up to 16 (64) periods', 'longer histories and gaps'),
 'C24': ('up to 4 (thorough 6) records with free times, prices and volumes', 'more records'),
 'C25': ('up to 4 (thorough 5) records with free prices, volumes and deviation bounds; look-ahead cases of 9..13 records', 'longer histories'),
 'C26': ('up to 4 (thorough 6) records with free times, optional start and end, top_n 0..6', 'more records'),
 'C27': ('histories of 1..6 records, up to 3 outlier positions (sorted or not), free left/right context, last_n 0..4', 'longer histories'),
 'C28': (_IND, 'longer streams: the window content is a function of the ticks since the last N period starts'),
 'C29': (_IND, 'longer streams, larger windows'), 'C30': (_IND + '; EMA lengths 1 and 10, two MACD triples', 'other lengths'),
 'C31': (_IND + '; two updates from the start, plus one step from any averages (core)', 'larger windows'),
 'C32': (_IND + '; two updates, plus the quotient for any range (core)', 'larger windows'),
 'C33': ('windows of 1..3, five operations (add or replace the last value) with free values', 'larger windows'),
 'C34': ('windows of 0..3, up to 4 operations with free values up to 1e6', 'larger windows; accumulated rounding of very long streams'),
 'C35': ('windows of 0..3 periods, free prices and balances', 'the logarithm itself is an uninterpreted monotone function'),
 'C36': ('two periods, each fed as one tick or as two partial ticks with free values, six indicators, windows of 1..2, two period lengths', 'finer splits (two parts compose)'),
 'C37': ('every target, band, balances and price', ''), 'C38': ('every target, band, balances and price', ''),
 'C39': ('one step of each trader from any state and any holdings', ''),
 'C40': ('three consecutive ticks with free prices, side and holdings', 'longer streams (one step from any stop price is C41)'),
 'C41': ('one step (thorough: two) from any stop price, any elapsed time below the reset gap of one hour, any factors', 'the exponential of the decay is an uninterpreted monotone function'),
 'C42': ('up to 2 (thorough 3) values in every hyper-parameter list', 'longer lists'),
 'C43': ('up to 2 (thorough 3) rows of every kind, every field free or unset', 'text formatting of floats is compared through the modelled formatter'),
 'C44': ('files of up to 2 (thorough 3) rows, at most one malformed in one of seven ways, every number free', 'arbitrary byte sequences; two independent malformations (the reader stops at the first)'),
 'C45': ('up to 2 (thorough 3) records with free or unset fields, NaN/infinite values, free range', 'more records'),
 'C46': ('up to 2 (thorough 3) messages of any content, stream ends clean, cut or corrupt at any message boundary or inside one, any reaction of the reader', 'zlib and the wire format are modelled at library level and replayed on the real ones'),
 'C47': ('every second of 1970..2100 on days 1..28 (days 29..31 in four kinds of years), month counts of -600..599 (carrying days: eight spans from -49 to 49 years)', 'other years; time zones other than UTC are not used by the code'),
 'C48': ('five documented formats, every digit free within valid ranges; 16 kinds of malformed text', 'arbitrary byte sequences'),
 'C49': ('up to 2 (thorough 3) records of every kind with free or unset fields, plain or compressed, new or existing file', 'see C46'),
 'C50': ('histories of up to 2 (thorough 3) records of every input kind, every output combination, free time range', 'more records (the loops are those of C22-C25, C44, C45)'),
 'C51': ('up to 2 (thorough 3) ticks and side records, every flag free; up to 21 batch results (3 with free scores)', 'the evaluation itself is a stand-in (decided by C11-C20)'),
 'C52': ('up to 3 (thorough 4) records with free times, top_n 0..2; 4..16 records with up to 2 outliers', 'more records'),
 'C53': ('every reader and writer of history files and logs with a failing device: at the first read, after the whole content, or at the final write', 'failures in the middle of a large file; failures of close()'),
 'C54': ('two ticks from the start, any times, holdings, prices and configuration, for both traders', 'text formatting of numbers is compared through the modelled formatter'),
}
B['C55'] = ('up to 3 ticks with free prices, volumes, balances and fills, spaced freely by up to three days (three ticks: an hour, a day, 2.3 days)', 'longer histories; what one Volatility object yields for a sequence of updates is C35')
_LONG = {
 'C11': '11 or 40 orders at one step, over 8..20 ticks with gaps of 0, 2 or 12 ticks', 'C12': '11 or 40 orders at one step, over 8..20 ticks with gaps of 0, 2 or 12 ticks',
 'C13': '11 or 40 orders at one step, over 8..20 ticks with gaps of 0, 2 or 12 ticks', 'C16': '11 or 40 orders at one step, over 8..20 ticks with gaps of 0, 2 or 12 ticks',
 'C17': 'runs of up to 14 windows', 'C19': 'batches of 17 and 41 traders in the calm schedule', 'C28': 'a long stream with a window of many ticks', 'C29': 'a long stream with a window of many ticks',
 'C33': 'a long stream with a large window', 'C40': 'exact ties with whole-number values', 'C51': '2..180 batch results with equal scores', 'C44': 'files of 4 (thorough 7) rows with an open range', 'C45': 'files of 4 (thorough 7) records with an open range',
 'C46': 'longer streams', 'C49': 'longer histories',
}
for _k, _v in _LONG.items(): B[_k] = (B[_k][0] + '; in addition, with fewer free values: ' + _v, B[_k][1])
