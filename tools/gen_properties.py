#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": observe or [], "hook_needed": None}})
I=["inputs"]; H=["inputs","histories"]; PR=["programs"]
NOTEST="No unit test of this module runs in the test suite (the integration tests need the RuSTy compiler), and those that exist sample a handful of values."

p("C01","Arithmetic and numerical functions compute the named operation",
 "SQRT, LN, LOG, EXP, SIN, COS, TAN, ASIN, ACOS, ATAN, ATAN2, EXPT and ROUND apply exactly the operation they are named after (LN natural logarithm, LOG base 10, ATAN2(y,x) with y first, EXPT base first, ROUND half away from zero), in the precision of their result type, to their arguments in the declared order, for every input including NaN and infinities, and never panic. The exported constants PI, PI/2, PI/4 and E hold the nearest REAL/LREAL value.",
 I,"all bit patterns of all REAL/LREAL/DINT arguments",NOTEST,
 ["src/arithmetic_functions.rs","src/numerical_functions.rs"],
 [("one std float operation per export","src/arithmetic_functions.rs: SQRT__REAL .. EXPT__LREAL__LREAL"),("ROUND","src/numerical_functions.rs"),("constants","src/arithmetic_functions.rs: PI_LREAL .. E_LREAL")],
 observe=["SQRT__REAL","LN__LREAL","ATAN2__REAL","EXPT__LREAL__DINT","PI_REAL"])
p("C02","Bit-pattern conversions between words and reals are exact",
 "LWORD_TO_LREAL, DWORD_TO_REAL, LREAL_TO_LWORD and REAL_TO_DWORD reinterpret the bit pattern of their argument without changing a bit, so converting there and back is the identity for every pattern, including NaN payloads, signed zero and subnormals.",
 I,"all 2^32 / 2^64 patterns",NOTEST,["src/bit_num_conversion.rs"],[("to_bits/from_bits","src/bit_num_conversion.rs")],observe=["LWORD_TO_LREAL","REAL_TO_DWORD"])
p("C03","Shifts fill with zeros for every shift count",
 "SHL and SHR on BYTE, WORD, DWORD and LWORD return the input shifted by N bit positions, zero filled; for every N greater than or equal to the width of the type the result is 0. They never panic, in any build profile.",
 I,"all inputs, all N in 0..2^32-1, both build profiles",NOTEST,["src/bit_shift_functions.rs"],[("SHL__*/SHR__*","src/bit_shift_functions.rs")],observe=["SHL__BYTE","SHR__LWORD"])
p("C04","Rotations are circular for every count",
 "ROL and ROR on BYTE, WORD, DWORD and LWORD rotate the bits circularly by N modulo the width of the type, for every N, losing no bit; ROR undoes ROL for the same N. They never panic.",
 I,"all inputs, all N",NOTEST,["src/bit_shift_functions.rs"],[("ROL__*/ROR__*","src/bit_shift_functions.rs")],observe=["ROL__BYTE","ROR__LWORD"])
p("C05","MAX and MIN return the extreme of exactly the passed elements",
 "For every element type, MAX and MIN return the largest (smallest) of exactly the `size` elements passed, in the order of that type (signed types compared signed, unsigned ones unsigned, and for REAL/LREAL a NaN element is ignored when another element is a number). A null pointer or an empty list is rejected by a panic instead of returning a value.",
 I,"all arrays of all lengths, all 21 element types",NOTEST,["src/types.rs"],[("define_order_type!/define_float_type!","src/types.rs")],observe=["MAX__INT","MIN__LREAL"])
p("C06","LIMIT clamps its value to the interval",
 "LIMIT(MN, IN, MX) returns MN if IN is less than MN, otherwise MX if IN is greater than MX, otherwise IN, for every element type, comparing with the signedness of that type. It never panics (in particular not when MN is greater than MX).",
 I,"all triples of all 21 element types",NOTEST,["src/types.rs"],[("limit","src/types.rs: limit")],observe=["LIMIT__INT","LIMIT__LREAL"])
p("C07","Validity checks classify every bit pattern",
 "IS_VALID on REAL/LREAL is TRUE exactly for the finite values (FALSE for every NaN and both infinities). IS_VALID_BCD on BYTE/WORD/DWORD/LWORD is TRUE exactly when every 4-bit digit of the full width of the type is at most 9.",
 I,"all bit patterns",NOTEST,["src/validation_functions.rs"],[("IS_VALID__*","src/validation_functions.rs"),("is_valid_bcd","src/validation_functions.rs")],observe=["IS_VALID__REAL","IS_VALID_BCD__LWORD"])
p("C08","Endianness conversions reverse or keep all bytes",
 "On a little-endian target, TO_BIG_ENDIAN and FROM_LITTLE_ENDIAN reverse the bytes of every integer, bit string, WCHAR and date/time value and TO_LITTLE_ENDIAN and FROM_BIG_ENDIAN return it unchanged; for REAL and LREAL all four return the value with its bit pattern unchanged. Nothing else about the value changes and no input panics.",
 I,"all values of all 15 types, four directions","No test of this module runs; the integration tests fix one constant per type.",["src/endianness_conversion_functions.rs"],[("define_endianness_for_int_types!","src/endianness_conversion_functions.rs")],observe=["TO_BIG_ENDIAN__INT","FROM_BIG_ENDIAN__LREAL"])
p("C09","SR is set dominant and RS is reset dominant",
 "After every call of SR its output is SET or (previous output and not RESET); after every call of RS its output is not RESET and (SET or previous output). Neither changes its inputs.",
 H,"all input combinations and previous outputs, hence all call histories",NOTEST,["src/bistable_functionblocks.rs"],[("SR","src/bistable_functionblocks.rs: SR"),("RS","src/bistable_functionblocks.rs: RS")],
 state=[{"name":"output","meaning":"the latch","where":"src/bistable_functionblocks.rs: SetResetParams"}],observe=["SR","RS"])
p("C10","R_TRIG and F_TRIG fire exactly on the edge",
 "After every call, R_TRIG's Q is TRUE exactly when CLK is TRUE in this call and was FALSE in the previous call (FALSE before the first), and F_TRIG's Q is TRUE exactly when CLK is FALSE in this call and was TRUE in the previous call; Q is therefore TRUE for one call per edge, and CLK itself is never changed.",
 H,"all sequences of CLK values","utils.rs has unit tests of a few edge sequences; the exported blocks have no running test.",["src/flanks.rs","src/utils.rs"],[("R_TRIG/F_TRIG","src/flanks.rs"),("rising_edge/falling_edge","src/utils.rs: Signal")],
 state=[{"name":"internal","meaning":"CLK of the previous call","where":"src/flanks.rs: Trigger"}],observe=["R_TRIG","F_TRIG"])
p("C11","CTU and CTD count every edge once and saturate",
 "In every typed variant, a call of CTU with R sets CV to 0, otherwise a rising edge of CU (TRUE in this call, FALSE in the latest earlier call without R, or no such call) increments CV by one unless CV is at the maximum of its type; a call of CTD with LD sets CV to PV, otherwise a rising edge of CD (TRUE in this call, FALSE in the latest earlier call without LD, or no such call) decrements CV by one unless it is at the minimum of its type. After the call CTU's Q is CV >= PV and CTD's Q is CV <= 0. CV never wraps around, no call panics, and the inputs are not changed.",
 H,"all call histories, all PV and CV values of INT, DINT, UDINT, LINT, ULINT",NOTEST,["src/counters.rs","src/utils.rs"],[("ctu","src/counters.rs: ctu"),("ctd","src/counters.rs: ctd")],
 state=[{"name":"internal","meaning":"CU/CD of the latest call without R/LD","where":"src/counters.rs: CTUParams, CTDParams"}],observe=["CTU","CTD_ULINT"])
p("C12","CTUD applies reset, load, up and down in that priority",
 "In every typed variant, a call of CTUD with R sets CV to 0; otherwise with LD sets CV to PV; otherwise, with rising edges of both CU and CD (each relative to the latest earlier call with neither R nor LD) CV is unchanged, with a rising edge of CU alone it is incremented unless at the type's maximum, and with one of CD alone decremented unless at the type's minimum. After the call QU is CV >= PV and QD is CV <= 0; calls with R or LD leave the remembered CU and CD untouched; CV never wraps, no call panics, and inputs are not changed.",
 H,"all call histories, all PV and CV values of the five integer types",NOTEST,["src/counters.rs","src/utils.rs"],[("ctud","src/counters.rs: ctud")],
 state=[{"name":"internal_up, internal_down","meaning":"CU and CD of the latest call with neither R nor LD","where":"src/counters.rs: CTUDParams"}],observe=["CTUD","CTUD_ULINT"])
p("C13","TP produces one pulse of length PT per trigger",
 "A TP that is idle starts a pulse on a rising edge of IN (Q TRUE, ET 0) and otherwise stays idle with Q FALSE; while a pulse started by it runs, Q is TRUE as long as the time since the start does not exceed PT and FALSE after that, ET is the smaller of that time and PT, and IN cannot restart or shorten it; once the pulse is over the block becomes idle again, with ET 0, in the first call in which IN is FALSE. Q and ET of one call are decided by the same instant. For every non-negative PT no call panics, in any state reachable from the initial one, and IN and PT are not changed.",
 ["inputs","histories","schedules"],"all sequences of (IN, PT, call time), PT >= 0",NOTEST,["src/timers.rs","src/utils.rs"],[("TP","src/timers.rs: TP"),("TP_TIME/TP_LTIME","src/timers.rs")],
 state=[{"name":"start_time","meaning":"start of the running pulse","where":"src/timers.rs: TimerParams"},{"name":"input_edge","meaning":"IN of the previous call","where":"src/timers.rs: TimerParams"}],observe=["TP","TP_TIME","TP_LTIME"])
p("C14","TON switches on only after IN was TRUE for longer than PT",
 "When IN is FALSE, TON's Q is FALSE and ET is 0; on a rising edge of IN timing starts with Q FALSE and ET 0; while IN stays TRUE, ET is the smaller of PT and the time since that edge, and Q is TRUE exactly when that time exceeds PT. Q and ET of one call are decided by the same instant. For every non-negative PT no call panics, and IN and PT are not changed.",
 ["inputs","histories","schedules"],"all sequences of (IN, PT, call time), PT >= 0",NOTEST,["src/timers.rs","src/utils.rs"],[("TON","src/timers.rs: TON"),("TON_TIME/TON_LTIME","src/timers.rs")],observe=["TON","TON_TIME","TON_LTIME"])
p("C15","TOF switches off only after IN was FALSE for longer than PT",
 "When IN is TRUE, TOF's Q is TRUE, and a rising edge of IN stops the delay and sets ET to 0; on a falling edge of IN timing starts with Q TRUE and ET 0; while IN stays FALSE after that, ET is the smaller of PT and the time since that edge and Q is TRUE exactly while that time does not exceed PT; before the first falling edge Q is FALSE whenever IN is FALSE. Q and ET of one call are decided by the same instant. For every non-negative PT no call panics, and IN and PT are not changed.",
 ["inputs","histories","schedules"],"all sequences of (IN, PT, call time), PT >= 0",NOTEST,["src/timers.rs","src/utils.rs"],[("TOF","src/timers.rs: TOF"),("TOF_TIME/TOF_LTIME","src/timers.rs")],observe=["TOF","TOF_TIME","TOF_LTIME"])
p("C16","Time and date addition and subtraction are exact or rejected",
 "ADD_TIME, ADD_TOD_TIME and ADD_DT_TIME return the exact sum IN1+IN2, and SUB_TIME, SUB_DATE_DATE, SUB_TOD_TIME, SUB_TOD_TOD, SUB_DT_TIME and SUB_DT_DT the exact difference IN1-IN2 in nanoseconds; when the result does not fit the signed 64-bit range they panic rather than return a wrapped or saturated value.",
 I,"all pairs of 64-bit values",NOTEST,["src/date_time_numeric_functions.rs"],[("checked chrono arithmetic","src/date_time_numeric_functions.rs: ADD_TIME .. SUB_DT_DT")],observe=["ADD_TIME","SUB_DT_DT"])
p("C17","Multiplying and dividing TIME by integers is exact or rejected",
 "Every MUL variant of TIME/LTIME with an integer returns the exact product and every DIV variant the quotient truncated toward zero, where the integer operand keeps its value (sign- or zero-extended by its own type); a product or quotient outside the signed 64-bit range, a division by zero, and a ULINT operand above the largest LINT cause a panic, never a wrapped value.",
 I,"all TIME values and all operands of all eight integer types, 48 exports",NOTEST,["src/date_time_numeric_functions.rs"],[("checked_mul_time_with_*int","src/date_time_numeric_functions.rs"),("checked_div_time_by_*int","src/date_time_numeric_functions.rs")],observe=["MUL__TIME__SINT","DIV_LTIME__ULINT"])
p("C18","Multiplying and dividing TIME by REAL/LREAL keeps sign and rejects overflow",
 "Every MUL and DIV variant of TIME/LTIME with REAL or LREAL scales the magnitude of the time by the magnitude of the operand, in the operand's precision, and gives the result a negative sign exactly when one of the two operands is negative; MUL multiplies and DIV divides. A NaN operand, a division by zero and a result magnitude outside the signed 64-bit range cause a panic, never a wrapped or saturated value.",
 I,"all TIME values and all REAL/LREAL values, 12 exports",NOTEST,["src/date_time_numeric_functions.rs"],[("checked_mul_time_with_f32/f64","src/date_time_numeric_functions.rs"),("checked_div_time_by_f32/f64","src/date_time_numeric_functions.rs")],observe=["MUL__TIME__REAL","DIV_LTIME__LREAL"])
p("C19","CONCAT_DATE, CONCAT_TOD and CONCAT_DATE_TOD build the exact instant",
 "CONCAT_DATE of every integer type returns midnight of the proleptic Gregorian date (year, month, day) and CONCAT_TOD the time of day (hour, minute, second, millisecond) in nanoseconds since 1970-01-01; CONCAT_DATE_TOD returns the day of its first argument at the time of day of its second. Components that do not denote an existing date or time (whatever their size or sign in the parameter type), or whose instant does not fit 64 bits, cause a panic and never produce another date.",
 I,"all component tuples of all eight integer types",NOTEST,["src/date_time_extra_functions.rs"],[("concat_date","src/date_time_extra_functions.rs: concat_date"),("concat_tod","src/date_time_extra_functions.rs: concat_tod"),("CONCAT_DATE_TOD","src/date_time_extra_functions.rs")],observe=["CONCAT_DATE__LINT","CONCAT_TOD__USINT","CONCAT_DATE_TOD"])
p("C20","SPLIT_DATE, SPLIT_TOD, SPLIT_DT and DAY_OF_WEEK report the calendar fields",
 "SPLIT_DATE, SPLIT_TOD and SPLIT_DT of every output type store the year, month, day, hour, minute, second and millisecond of the instant (UTC, proleptic Gregorian calendar) into their outputs in that order and return 0, for every 64-bit instant including those before 1970; no component is truncated. DAY_OF_WEEK returns 0 for Sunday up to 6 for Saturday.",
 I,"all 64-bit instants, 18 SPLIT exports",NOTEST,["src/date_time_extra_functions.rs"],[("SPLIT_*","src/date_time_extra_functions.rs"),("DAY_OF_WEEK","src/date_time_extra_functions.rs")],observe=["SPLIT_DT__INT","DAY_OF_WEEK"])
p("C21","A date-and-time splits into its day and its time of day",
 "For every 64-bit instant t whose day start is representable, DATE_AND_TIME_TO_DATE(t) is the midnight (UTC) at or before t and DATE_AND_TIME_TO_TIME_OF_DAY(t) is t minus that midnight, in 0..24h, including instants before 1970, to the nanosecond; so CONCAT_DATE_TOD of the two gives back t.",
 I,"all 64-bit instants",NOTEST,["src/date_time_conversion.rs","src/date_time_extra_functions.rs"],[("DATE_AND_TIME_TO_DATE","src/date_time_conversion.rs"),("DATE_AND_TIME_TO_TIME_OF_DAY","src/date_time_conversion.rs")],observe=["DATE_AND_TIME_TO_DATE","DATE_AND_TIME_TO_TIME_OF_DAY"])
p("C22","LEN counts the characters before the terminator",
 "LEN of a STRING or WSTRING is the number of Unicode characters (not code units) before the first NUL, for every well-formed string; nothing behind the terminator influences it.",
 I,"all NUL-terminated UTF-8 and UTF-16 strings","Unit tests sample a few strings.",["src/string_functions.rs"],[("LEN__*","src/string_functions.rs"),("get_null_terminated_len","src/string_functions.rs"),("decode","src/string_functions.rs: EncodedCharsIter")],observe=["LEN__STRING","LEN__WSTRING"])
p("C23","FIND returns the character position of the first occurrence",
 "FIND returns the 1-based character position of the first occurrence of its second string in its first one, for every pair of well-formed STRINGs or WSTRINGs, and 0 when there is none or when either is empty.",
 I,"all pairs of strings","Unit tests sample a few pairs.",["src/string_functions.rs"],[("FIND__*","src/string_functions.rs")],observe=["FIND__STRING","FIND__WSTRING"])
p("C24","LEFT, RIGHT and MID return exactly the requested substring",
 "LEFT(s,n) writes the first n characters, RIGHT(s,n) the last n, MID(s,n,p) the n characters from 1-based position p, in both encodings, NUL-terminated, and returns 0. A negative or too large length, or a position below 1 or beyond the last character, causes a panic; every request inside the string succeeds.",
 I,"all strings, all DINT lengths and positions","Unit tests sample a few strings and bounds.",["src/string_functions.rs"],[("LEFT_EXT__*","src/string_functions.rs"),("RIGHT_EXT__*","src/string_functions.rs"),("MID_EXT__*","src/string_functions.rs")],observe=["LEFT_EXT__STRING","RIGHT_EXT__WSTRING","MID_EXT__STRING"])
p("C25","INSERT, DELETE and REPLACE edit exactly the addressed characters",
 "INSERT(s,t,p) writes the first p characters of s, then t, then the rest of s; DELETE(s,n,p) writes s without the n characters from 1-based position p; REPLACE(s,t,n,p) writes s with those n characters replaced by t; in both encodings, NUL-terminated, returning 0. A position or count that does not address characters of s (including every negative count) causes a panic in every build profile, and every request inside the string succeeds.",
 I,"all strings, all DINT counts and positions, both build profiles","Unit tests sample a few strings and bounds, none with a negative count.",["src/string_functions.rs"],[("INSERT_EXT__*","src/string_functions.rs"),("DELETE_EXT__*","src/string_functions.rs"),("REPLACE_EXT__*","src/string_functions.rs")],observe=["INSERT_EXT__STRING","DELETE_EXT__WSTRING","REPLACE_EXT__STRING"])
p("C26","CONCAT joins all strings in order",
 "CONCAT in both encodings writes the concatenation of exactly the argc strings of the argument vector, in order, followed by one NUL (for an empty argument list the empty string), and its EXT form returns 0; a null destination or argument vector causes a panic.",
 I,"all argument counts and strings","Unit tests sample a few lists; the empty one only into a zeroed buffer.",["src/string_functions.rs"],[("CONCAT_EXT__*","src/string_functions.rs"),("CONCAT__*","src/string_functions.rs")],observe=["CONCAT_EXT__STRING","CONCAT__WSTRING"])
p("C27","String comparisons hold for every adjacent pair",
 "GT, GE, EQ, LE and LT of STRINGs (WSTRINGs) return TRUE exactly when the named relation, in the lexicographic order of the code units before the terminator, holds between every two neighbouring strings of the list, and panic when fewer than two are passed; NE is TRUE exactly when its two strings differ.",
 I,"all lists of strings of all lengths","Unit tests sample a few lists.",["src/string_functions.rs"],[("compare","src/string_functions.rs: compare"),("GT__* .. NE__*","src/string_functions.rs")],observe=["GT__STRING","NE__WSTRING"])
p("C28","Every string result is NUL-terminated whatever the buffer held",
 "Every function that writes a STRING or WSTRING into a caller-supplied buffer writes one contiguous run of code units from the start of the buffer and a NUL directly after it, whatever the buffer contained before, and does not write past that NUL; the fixed-format _TO_STRING functions never write outside the 81 bytes of a default STRING.",
 I,"all inputs and all previous buffer contents, 25 exports","Unit tests pass zeroed buffers and trim trailing NULs.",["src/string_functions.rs","src/string_conversion.rs","src/extra_functions.rs"],[("encode","src/string_functions.rs: CharsEncoder"),("x_TO_STRING_EXT","src/extra_functions.rs"),("STRING_TO_WSTRING_EXT","src/string_conversion.rs")],observe=["BYTE_TO_STRING_EXT","CONCAT_EXT__STRING","STRING_TO_WSTRING_EXT"])
p("C29","Numbers are converted to their full decimal text",
 "BYTE_TO_STRING, LWORD_TO_STRING and LINT_TO_STRING write the decimal representation of the value (with a minus sign if negative); LREAL_TO_STRING (REAL_TO_STRING) writes the value with six decimals when its magnitude is below 1E14 (1E6) and in scientific notation with six decimals otherwise, so that no value of any sign or magnitude panics. The functions return 0.",
 I,"all BYTE, LWORD, LINT, LREAL values","Unit tests sample one value each and no large negative one.",["src/extra_functions.rs"],[("BYTE_TO_STRING_EXT .. REAL_TO_STRING_EXT","src/extra_functions.rs")],observe=["LREAL_TO_STRING_EXT","LINT_TO_STRING_EXT"])
p("C30","Times and dates are converted to text without losing a component",
 "TIME_TO_STRING writes, for every TIME, a minus sign if it is negative and then every non-zero component (d, h, m, s, ms, us, ns, in this order) of its magnitude followed by its unit; DATE_TO_STRING writes YYYY-MM-DD, TOD_TO_STRING the UTC time of day and DT_TO_STRING both joined by a dash, for every 64-bit instant. They return 0 and never panic.",
 I,"all 64-bit values","Unit tests sample one or two positive values each.",["src/extra_functions.rs"],[("TIME_TO_STRING_EXT, parse_timestamp","src/extra_functions.rs"),("DT_TO_STRING_EXT, DATE_TO_STRING_EXT, TOD_TO_STRING_EXT","src/extra_functions.rs")],observe=["TIME_TO_STRING_EXT","DT_TO_STRING_EXT"])
p("C31","Numbers are parsed in the radix their prefix names, or rejected",
 "STRING_TO_LINT and STRING_TO_DINT parse the whole string before the terminator as an integer in radix 16 after the prefix 16#, 0x or 0X, radix 8 after 8#, radix 2 after 2#, 0b or 0B, and radix 10 otherwise; STRING_TO_LREAL and STRING_TO_REAL parse the whole string as a floating-point number of their own precision. Text that is not such a number, or a number that does not fit the type, causes a panic and never yields a value.",
 I,"all strings","Unit tests sample one string per prefix.",["src/extra_functions.rs"],[("string_to_int","src/extra_functions.rs: string_to_int"),("string_to_float","src/extra_functions.rs: string_to_float")],observe=["STRING_TO_LINT","STRING_TO_DINT","STRING_TO_LREAL","STRING_TO_REAL"])
p("C32","Encoding conversions keep every character",
 "STRING_TO_WSTRING writes the UTF-16 encoding of exactly the characters of its UTF-8 argument and WSTRING_TO_STRING the UTF-8 encoding of those of its UTF-16 argument, unpaired surrogates becoming U+FFFD; both return 0. CHAR_TO_WCHAR zero-extends; WCHAR_TO_CHAR returns the first byte of the UTF-8 encoding (of U+FFFD for a surrogate), hence the same code for every ASCII character.",
 I,"all strings, all WCHAR and CHAR values","No unit test covers these functions in the running suite.",["src/string_conversion.rs","src/string_functions.rs"],[("WSTRING_TO_STRING_EXT, STRING_TO_WSTRING_EXT","src/string_conversion.rs"),("WCHAR_TO_CHAR, CHAR_TO_WCHAR","src/string_conversion.rs")],observe=["STRING_TO_WSTRING_EXT","WCHAR_TO_CHAR"])
p("C33","Variants of one function agree",
 "The variants of a function that differ only in operand type or name (STRING and WSTRING forms, the integer types of one counter, MUL/DIV, SPLIT, MIN/MAX or LIMIT family, TIME and LTIME aliases, the _TIME/_LTIME timers, CONCAT and CONCAT_EXT) compute the same function of their arguments up to the encoding or value range of that type.",
 I,"all inputs, every pair of variants in a family","Tests exercise variants separately on different samples and never compare them.",["src/types.rs","src/counters.rs","src/timers.rs","src/string_functions.rs","src/date_time_numeric_functions.rs","src/date_time_extra_functions.rs"],[("typed exports sharing one body","src/types.rs, src/counters.rs, src/timers.rs, src/date_time_*_functions.rs"),("STRING/WSTRING twins","src/string_functions.rs")],observe=["every exported family"])
p("C34","Calls write only their documented outputs",
 "No call changes memory other than its documented outputs: source strings, argument vectors, input arrays and the inputs of a function block (IN, PT, CLK, CU, CD, R, LD, PV, SET, RESET) are never written, and no function writes an output of another block instance or any static data.",
 H,"all inputs, all exported functions","Tests inspect outputs, not the memory around them.",["src/timers.rs","src/counters.rs","src/flanks.rs","src/bistable_functionblocks.rs","src/string_functions.rs","src/extra_functions.rs","src/date_time_extra_functions.rs","src/types.rs"],[("&mut parameter structs with private fields","src/timers.rs, src/counters.rs, src/flanks.rs, src/bistable_functionblocks.rs"),("*const sources, *mut destinations","src/string_functions.rs, src/extra_functions.rs")],observe=["every exported function with a pointer parameter"])
p("C35","Results depend on arguments only",
 "Except for TIME and the timers TP, TON and TOF, no exported function reads a clock, environment, file, random source or mutable static state, so equal arguments (and equal block state) always give equal results; TIME reads only the local wall clock and the timers only the monotonic clock.",
 ["inputs","histories","schedules"],"all calls in any order and interleaving","A test observes one run; hidden state shows only in some histories.",["src/lib.rs","src/extra_functions.rs","src/timers.rs"],[("no mutable statics in the crate","src/*.rs"),("Instant::now","src/timers.rs: TimerParams::start"),("Local::now","src/extra_functions.rs: TIME")],observe=["call graph of every exported function"])
p("C36","Exports have the C ABI that their Structured Text declaration uses",
 "Every function that the Structured Text files declare external exists in the library under the symbol the compiler calls (generic functions expanded per type), uses the C calling convention with FFI-safe types only, and takes and returns the same number of values of the same width, kind and passing mode in the same order as the declaration.",
 PR,"all external declarations and all exports","Nothing in the running test suite compiles the ST files or calls through the C ABI.",["src/*.rs","iec61131-st/*.st"],[("#[no_mangle] pub extern \"C\"","src/*.rs"),("{external} declarations","iec61131-st/*.st")],observe=["every exported symbol"])
p("C37","Function block instances in ST have the layout the library writes",
 "For every external function block, the inputs and outputs the ST declaration exposes lie at the offsets, with the sizes, of the corresponding fields of the library's parameter structure, and the ST instance including its hidden variables is at least as large as that structure, so a call never reads or writes outside the instance.",
 PR,"all 31 external function blocks","Nothing in the running test suite compiles the ST files.",["iec61131-st/timers.st","iec61131-st/counters.st","iec61131-st/flanks.st","iec61131-st/bistable_functionblocks.st","src/timers.rs","src/counters.rs","src/flanks.rs","src/bistable_functionblocks.rs"],[("repr(C) parameter structs","src/timers.rs, src/counters.rs, src/flanks.rs, src/bistable_functionblocks.rs"),("FUNCTION_BLOCK declarations","iec61131-st/*.st")],observe=["TimerParams","CTUDParams<i64>"])
p("C38","ST conversions and aliases compute what their names say",
 "Every conversion function X_TO_Y and wrapper written in Structured Text takes one X, returns a Y, and obtains its result from its own input, by plain assignment, by the documented chain of conversions, or by calling the library function of the same operation and type with the parameters in the declared order; bit-string to real conversions preserve the bit pattern and long/short aliases of a type behave identically.",
 PR,"all inputs, all functions implemented in the ST files","Nothing in the running test suite compiles the ST files.",["iec61131-st/num_conversion.st","iec61131-st/bit_conversion.st","iec61131-st/bit_num_conversion.st","iec61131-st/date_time_conversion.st","iec61131-st/extra_functions.st","iec61131-st/string_functions.st","iec61131-st/string_conversion.st","iec61131-st/date_time_numeric_functions.st","iec61131-st/date_time_extra_functions.st","iec61131-st/selectors.st","iec61131-st/numerical_functions.st"],[("X_TO_Y := IN","iec61131-st/num_conversion.st"),("*_EXT delegation","iec61131-st/string_functions.st, iec61131-st/extra_functions.st")],observe=["every FUNCTION with a body in iec61131-st"])
p("C39","TIME returns the time since local midnight",
 "Outside leap seconds TIME() returns hours, minutes, seconds and nanoseconds of one single reading of the local wall clock as nanoseconds since midnight, so the value is always at least 0 and less than 24 hours and never combines two different readings.",
 ["inputs","schedules"],"all wall-clock readings","The only test uses a mock clock with a constant sub-second part.",["src/extra_functions.rs"],[("TIME","src/extra_functions.rs: TIME")],observe=["TIME"])
p("C40","Only documented conditions can panic",
 "A call with arguments inside its documented domain never panics: shifts, rotations, arithmetic, bit and endianness conversions, validity checks, latches, edge triggers, counters, LIMIT, field splitting into outputs wide enough for the year, TIME, and character conversions are total, in debug and release builds alike.",
 H,"all inputs and block states of the total functions, both build profiles","A test observes one run per sample; no test of these modules runs.",["src/arithmetic_functions.rs","src/bit_shift_functions.rs","src/bit_num_conversion.rs","src/endianness_conversion_functions.rs","src/validation_functions.rs","src/bistable_functionblocks.rs","src/flanks.rs","src/counters.rs","src/types.rs","src/date_time_extra_functions.rs","src/string_conversion.rs"],[("no reachable panic terminator","compiler MIR of the listed exports")],observe=["every total export"])
p("C41","String functions never write beyond the capacity of the destination",
 "No string function writes more code units than the destination variable of its caller can hold.",
 I,"all strings and destination sizes","Tests use large buffers.",["src/string_functions.rs","iec61131-st/string_functions.st"],[("none: the interface does not pass the capacity","src/string_functions.rs")],observe=["CONCAT_EXT__STRING"])
p("C42","Floating-point results are accurate to the last place",
 "The transcendental functions return results within the error bound of the platform's mathematical library, and scaling a TIME by REAL/LREAL is correctly rounded.",
 I,"all floating-point inputs","Tests compare a few values with a tolerance.",["src/arithmetic_functions.rs","src/date_time_numeric_functions.rs"],[("platform libm","std"),("Duration::mul_f64/div_f64","core::time")],observe=["SIN__LREAL","MUL__TIME__LREAL"])
p("C43","Timers measure real elapsed time",
 "The time a timer measures between two calls equals the physical time between them to clock resolution, whatever the scheduling of the calling task.",
 ["schedules"],"all schedules of the caller and clock behaviours","Tests use a mock clock.",["src/timers.rs"],[("std::time::Instant","std")],observe=["TON"])
p("C44","Calls read only their arguments",
 "No call reads memory beyond its arguments: a string is read up to and including its terminator and no further (one unit before the end of its buffer is enough), a list up to its last element, an argument vector up to its last pointer, a function block only inside its instance; this holds for every text, well-formed or not, and for every position and count, inside the text or not, and no precondition of an unsafe operation of the standard library is violated on the way. A null string pointer counts as the empty string.",
 H,"all texts (also ill-formed ones), all requests, all list lengths, all block states","A read past an argument finds ordinary memory in a test and changes nothing that the test sees; the tests pass no ill-formed text and no null string.",["src/string_functions.rs","src/extra_functions.rs","src/string_conversion.rs","src/types.rs","src/timers.rs","src/counters.rs","src/flanks.rs","src/bistable_functionblocks.rs"],[("get_null_terminated_len, ptr_to_slice","src/string_functions.rs"),("slice::from_raw_parts(value, size)","src/types.rs"),("argv.add","src/string_functions.rs: CONCAT_EXT, compare")],observe=["every exported function with a pointer parameter"])
p("C45","Every call returns",
 "Every call of an exported function comes to an end, with a result or a panic, after work bounded by its arguments: no text (well-formed or not, empty or null), position, count, list, point in time, clock reading or block state makes a function loop for ever.",
 H,"all texts, requests, lists and block states","A loop that does not advance needs one particular constellation of characters or arguments; the tests pass a few ordinary ones.",["src/string_functions.rs","src/extra_functions.rs","src/string_conversion.rs","src/types.rs","src/arithmetic_functions.rs","src/date_time_extra_functions.rs","src/timers.rs","src/counters.rs"],[("iterator chains over the characters","src/string_functions.rs"),("compare","src/string_functions.rs"),("parse_timestamp","src/extra_functions.rs")],observe=["every exported function"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
