"""Per property: technique, level, note; the rule applied; reasons for properties not claimed."""
VG = 'value-graph abstract interpretation of the compiled MIR, compared with the prescribed value graph by normalisation and partition refinement'
BASE = 'Holds for every input of the stated domain, for both overflow-check settings; trusts the MIR dump, the term engine and the hand-written models of core/std/chrono library functions. '
def vg(note): return (VG, 'proof', BASE + note)
def blk(note): return ('inductive simulation relation between the value graph of one call (from the compiled MIR, instance fields symbolic) and the reference automaton, by partition refinement', 'proof', 'Holds for every history of calls from a zero-initialised instance; the relation is searched in the source, one-step induction decides it. Trusts the MIR dump, the term engine and its models of core/std/chrono. ' + note)
SH = 'Every string of the enumerated shapes (number of characters and encoded width of each; the characters themselves are arbitrary) and every position/count; of longer strings only samples of 90 to 300 units with a few arbitrary characters are decided. '
def shp(note=''): return ('value-graph abstract interpretation of the compiled MIR per string shape (characters symbolic), compared with the prescribed value graph by normalisation and partition refinement', 'other', SH + 'Trusts the MIR dump, the term engine and its models of core/std text functions. ' + note)
TECH = {
 'C22': shp(), 'C23': shp('Besides, every text of 6 (8) characters over two different arbitrary characters a < b, with every needle of up to 4 (5) of the same two.'), 'C24': shp(), 'C25': shp(), 'C26': shp('Argument lists up to 8 strings (40 in the thorough tier).'), 'C27': shp('Lists of 2 to 4 strings.'), 'C28': shp('The fixed-format conversions are decided for every value.'),
 'C31': shp('Number syntax itself is core::num parsing, one uninterpreted operation per type and radix; the prefix dispatch, the parsed part and the rejection are decided.'), 'C32': shp(),
 'C29': vg('Decimal and floating-point formatting is core::fmt, one uninterpreted text operation per format; which format is applied to which value, and the text around it, is decided.'),
 'C30': vg('Zero-ness of the seven TIME components is split into its 256 cases; chrono Display of dates and times is modelled.'),
 'C01': vg('Library mathematics (libm, powi) is an uninterpreted operation per function and precision.'),
 'C02': vg('Reals are bit patterns.'), 'C03': vg(''), 'C04': vg('Counts are split by residue modulo the width.'),
 'C05': ('value-graph abstract interpretation of the compiled MIR per list length (elements symbolic), compared with the extreme element in every case of a total case distinction', 'other', 'Lists of up to 7 (floats 4) arbitrary elements, and of 17 and 300 elements of which three are arbitrary; the thorough tier goes to 8 (5) and 600. Trusts the MIR dump, the term engine and its models of core. '),
 'C06': vg('REAL/LREAL ordering is modelled on bit patterns; equal NaN results are not distinguished.'), 'C07': vg(''), 'C08': vg('Little-endian target as compiled.'),
 'C16': vg('chrono date arithmetic is modelled as exact integer arithmetic.'), 'C17': vg(''), 'C18': vg('Duration::mul_f/div_f rounding is one uninterpreted operation per precision.'),
 'C19': vg('The Gregorian calendar is one uninterpreted day-number function with its validity predicate; the leap-second notation of chrono (ms 1000..1999 at second 59) is outside the domain.'),
 'C20': vg('chrono field accessors are modelled by the calendar functions.'), 'C21': vg(''), 'C39': vg('chrono::Local::now is an arbitrary reading.'),

 'C33': ('value-graph abstract interpretation of both variants with the library text operations uninterpreted, and agreement of the two value graphs', 'other', SH + 'Trusts the MIR dump, the term engine and its models.'),
 'C34': ('effect analysis: every store of every exported function is traced through the abstract interpreter to the object it reaches, together with a typed-pointer rule over the compiled MIR and the static data of the library', 'proof', 'All exported functions; string functions per enumerated shape (the remaining stores are covered by the typed-pointer rule). Trusts the MIR dump and the models of library functions.'),
 'C35': ('interprocedural purity analysis: reachability over the call graph of the compiled MIR (generic instances and drop glue included) to mutable statics, thread locals, clocks, environment and other sources of state', 'proof', 'All exported functions except those documented to read the clock. Trusts a list of library functions known to be pure; a function of the standard library that is not on it counts as undecided.'),
 'C40': ('panic reachability: every assert, unwrap, explicit panic and unwinding call of the exported functions is decided by abstract interpretation', 'other', 'Trusts the MIR dump, the term engine and its models. ' + SH),

 'C44': ('memory-access analysis: every load and store of the exported functions is resolved by abstract interpretation to an object and a position and proved inside it, with the precondition checks of the standard library switched on in the analysed MIR', 'other', SH + 'Long samples (over 20 units) are analysed without the library checks. Alignment is not decided. Trusts the MIR dump, the term engine and its models. '),
 'C45': ('termination by exhaustive abstract interpretation: the interpretation of every path of the call ends; a state that repeats on a trace (trace partitioning where the joined analysis does not end) is a violation', 'other', SH + 'A loop whose bound the analysis cannot resolve counts as undecided. Library functions with a model are taken to return. Trusts the MIR dump, the term engine and its models. '),

 'C36': ('signature and layout comparison of the parsed Structured Text declarations with the compiled function types, and argument-role analysis by value graphs', 'proof', 'All 272 external declarations (generics expanded) and all exports, on the compiled target (x86-64). The calling convention of the IEC compiler (strings and outputs by address, lists as count and address) is part of the specification. Trusts the ST parser in specs/stparse.py.'),
 'C37': ('layout comparison of the parsed function-block declarations with the compiled structure layouts, and field-role analysis by value graphs', 'proof', 'All 31 external function blocks, natural C alignment, on the compiled target (x86-64). Trusts the ST parser in specs/stparse.py.'),
 'C38': ('value-graph abstract interpretation of the Structured Text bodies, compared with the prescribed value graph by normalisation and partition refinement', 'proof', 'All 385 functions with an ST body. Library functions are the operations that C01 to C32 decide; implicit conversions follow the IEC compiler (integers wrap, reals truncate). The capacity of text variables is compared for the two encoding conversions only. Trusts the ST parser in specs/stparse.py.'),

 'C09': blk(''), 'C10': blk(''), 'C11': blk('The counter value starts in the range of its type (CTU: not negative).'), 'C12': blk(''),
 'C13': blk('Clock readings do not decrease; PT is not negative.'), 'C14': blk('Clock readings do not decrease; PT is not negative.'), 'C15': blk('Clock readings do not decrease; PT is not negative.'),
}
_EQ = 'the value graph of every listed export (panic condition, result, final content of every output) equals the prescribed graph in every cell of the partition; '
RULES = {
 'C01': _EQ + 'prescribed: the named operation of the type, library mathematics uninterpreted per function and precision',
 'C02': _EQ + 'prescribed: the same bits, zero-extended or truncated to the width',
 'C03': _EQ + 'prescribed: shift by min(count, width), vacated bits 0, never a panic',
 'C04': _EQ + 'prescribed: rotation by count modulo the width, for every residue class of the count',
 'C05': 'for every list length enumerated and every case "element i is the extreme one": the result is element i, no element outside the list is read, no panic for n >= 1',
 'C06': _EQ + 'prescribed: mn if in < mn, else mx if in > mx, else in, in the order of the type',
 'C07': _EQ + 'prescribed: the IEEE-754 class of the bit pattern; every nibble <= 9 for BCD',
 'C08': _EQ + 'prescribed: byte i of the result is byte n-1-i (or i) of the argument',
 'C09': 'a relation R between instance and reference automaton holds of the zeroed instance and is preserved by one call with equal outputs',
 'C16': _EQ + 'prescribed: exact integer sum/difference of the nanosecond counts, panic iff it leaves 64 bits',
 'C17': _EQ + 'prescribed: exact product/truncated quotient, panic iff it leaves 64 bits or the divisor is 0',
 'C18': _EQ + 'prescribed: sign and magnitude handed to Duration::mul_f/div_f of the same precision, sign restored, panic iff not representable',
 'C19': _EQ + 'prescribed: 86400e9*day(y,m,d) with panic iff the components (in the parameter type, before any conversion) are not a date/time or the instant leaves 64 bits',
 'C20': _EQ + 'prescribed: each output receives its calendar/time field of the argument, converted only if it fits',
 'C21': _EQ + 'prescribed: floor division of the nanosecond count by one day and its remainder',
 'C22': 'per text shape: the value graph equals the number of characters before the terminator; nothing behind the terminator is read',
 'C23': 'per pair of shapes: result = 1 + least index at which every character of the needle is equal, else 0',
 'C24': 'per shape, position and count: destination = the addressed characters followed by NUL; panic iff the counts/positions are negative or outside the documented range',
 'C25': 'per shape, position and count: destination = text with exactly the addressed characters inserted/removed/replaced, then NUL',
 'C26': 'per list of shapes: destination = all texts in order, then NUL; every list entry is read once, none beyond argc',
 'C27': 'per list of shapes: result = conjunction over adjacent pairs of the comparison of the code-unit sequences (decided at the first difference)',
 'C28': 'the unit after the last character written is 0, whatever the destination held before (its old content is symbolic)',
 'C29': 'the text written = the uninterpreted decimal formatting of the whole value (right type, sign, precision), then NUL',
 'C30': 'the text written = the documented fields of the argument with their separators, sign in front, zero components left out, then NUL',
 'C31': 'per text class (prefix, sign, white space, body): result = the parse of exactly the part behind the prefix in its radix, panic iff that parse fails or does not fit',
 'C32': 'per shape: every scalar value of the source is encoded once in the destination, in order, then the terminator',
 'C33': 'for every pair of variants of one function: equal value graphs modulo the width of the type on the common domain',
 'C34': 'every store of every export reaches a documented output (or a local of the call) and, for a documented output, only its own bytes; no typed pointer wider than the parameter is formed; the library holds no mutable static',
 'C35': 'no path of the call graph from an export outside TIME/TP/TON/TOF reaches a clock, environment, random, thread-local or mutable static; reads are of arguments only',
 'C36': 'every ST declaration {external} has an export of its name with the parameter count, order, width, signedness, direction and passing that the declaration implies, and parameter roles (by value graph) in declaration order; every export is extern "C"',
 'C37': 'every external function block: field order, offset, width of the VAR sections = offset and width of the fields of the structure the library function takes; field roles by value graph; nothing lies beyond the declared instance',
 'C44': 'every source object ends where the argument ends; no load or store outside an object, no failing precondition check of an unsafe library function and no access through a null pointer has a satisfiable path condition; null text = empty text',
 'C45': 'the abstract interpretation of every call ends on all paths; no block is met twice on one trace with the same memory',
 'C38': 'the value graph of every ST body equals the conversion/alias its name states',
 'C39': _EQ + 'prescribed: nanoseconds of the local time of day of one reading of the clock',
 'C40': 'every reachable panic (assert, unwrap, expect, explicit, arithmetic in the checked profile, slice bounds) of every export has a condition contained in the documented ones',
}
for _p in ('C10', 'C11', 'C12', 'C13', 'C14', 'C15'): RULES[_p] = RULES['C09'] + ('; each reading of the clock in a call is its own instant' if _p > 'C12' else '')
NA = {
 'C41': 'The library receives a bare pointer: the capacity of the destination is a run-time quantity of the calling program that appears nowhere in this code, so no static argument about this repository bounds it.',
 'C42': 'Last-place accuracy is a numerical property of the platform mathematics library and of rounding; no structural clause of this repository decides it (which operation is applied is decided under C01 and C18).',
 'C43': 'Physical time and scheduling are run-time quantities; the relation between the clock reading and the outputs is decided under C13 to C15.',
}
