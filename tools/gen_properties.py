#!/usr/bin/env python3
"""Source of truth for /verif/properties.jsonl (run to regenerate it)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":m.split("@")[0],"where":m.split("@")[1]} for m in mech]}
    if state: a["state"]=[{"name":s[0],"meaning":s[1],"where":s[2]} for s in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

prop("P01","Bit-field reads and writes follow one big-endian bit model",
 "Reading an unsigned or signed field of 1 to 32 bits at any bit offset returns exactly the bits of the buffer taken most-significant first (two's complement for signed fields), and writing a field changes exactly those bits, so a read after a write returns the written value truncated to the width and every other bit of the buffer is untouched. No access goes outside the bytes that contain the field. Sign extension at a width yields the two's complement value of the low bits at every width 1..64.",
 ["inputs","histories"],"every buffer content, bit offset, width 1..32, value, and sequence of writes",
 "Tests read/write a handful of fixed fields in one fixed buffer; offset x width x content combinations (byte straddling, sign bit, widths 25..32) and memory bounds are not covered.",
 ["src/bits.c","include/swiftnav/bits.h"],["getbitu/getbits/setbitu/setbits@src/bits.c"],["values returned by the bit access functions","buffer bytes after a write"])
prop("P02","Bit copy, left shift, counting and parity agree with a plain bit-vector model",
 "Copying a run of bits between disjoint buffers, shifting a buffer left by any number of bits, counting ones or zeros in 8/16/32/64-bit words and computing the parity of a word all give the result of the same operation on a plain array of bits. Bits outside the destination run, and memory outside the buffers, are never modified.",
 ["inputs"],"every buffer length, source/destination offset, run length, shift amount and word value",
 "Tests use a few fixed vectors; offsets x lengths crossing word boundaries and shift amounts at or above the buffer size are unbounded combinations.",
 ["src/bits.c"],["bitcopy/bitshl@src/bits.c","count_bits_*/parity@src/bits.c"])
prop("P03","Bit and byte stream readers never read out of bounds and keep an exact cursor",
 "For every request on a stream reader, either the request lies inside the stream, it reports success and yields the exact value the stream holds there in the requested byte order, or it reports failure without touching any memory outside the stream and without moving the cursor. Reads at an explicit position never move the cursor, and the remaining length always equals the total length minus what was consumed.",
 ["inputs","histories"],"every stream content and length and every sequence of read, peek, skip and position queries with arbitrary (including huge) positions and sizes",
 "No existing test exercises these readers with out-of-range positions or a sequence of operations.",
 ["include/swiftnav/bitstream.h","include/swiftnav/bytestream.h"],["would_overflow checks@include/swiftnav/bitstream.h","endian-aware getters@include/swiftnav/bytestream.h"])
prop("P04","The 24-bit CRC is the Q-polynomial CRC for every message and alignment",
 "For every byte message and initial value the checksum equals the bit-by-bit remainder for the generator 0x864CFB, so it can be computed incrementally over any split of the message, and every burst error of up to 24 bits or any single- or double-bit error in a message is detected. The bit-counted variant equals the same checksum of the message's bits right-aligned in whole bytes after zero padding at the front, with the optional bit inversion applied only to message bits.",
 ["inputs"],"every message, length (bytes and bits), seed, split point, and injected error pattern",
 "Tests pin a few strings; a table with one wrong entry or a wrong tail shift passes them.",
 ["src/edc.c"],["crc24q/crc24q_bits and lookup table@src/edc.c"])
prop("P05","The byte FIFO is a bounded queue over any operation history",
 "After any sequence of writes, reads, peeks, removals and re-initialisations the FIFO behaves as a first-in first-out queue of bounded capacity: bytes come out in the order they went in, length and free space always sum to the capacity, and an operation transfers exactly the number of bytes it reports, which is the requested number limited by the bytes stored or the space free. It never touches memory outside its buffer, however many bytes have passed through it.",
 ["histories"],"all operation sequences and sizes on every power-of-two capacity, including counters that wrap around",
 "There is no test for this component; wrap-around of the free-running counters needs long histories.",
 ["src/fifo_byte.c","include/swiftnav/fifo_byte.h"],["read/write index arithmetic modulo size@src/fifo_byte.c"],state=[["read_index/write_index","free-running positions","include/swiftnav/fifo_byte.h"]])
prop("P06","Sorted-set helpers implement mathematical sets",
 "On arrays sorted by the given order without duplicates, intersection, membership, subset and set tests, insertion and removal give exactly the result of the mathematical operation, in sorted order, with correct sizes, index maps and callback pairs. An array holds a value exactly when some element equals it. Inputs are left unmodified and nothing is read or written outside the arrays.",
 ["inputs","histories"],"all sets of any element size, comparison order and overlap pattern",
 "Tests cover a few small integer arrays; element sizes, extremes (first, last, absent below or above) and empty sets are sampled or absent.",
 ["src/set.c","include/swiftnav/set.h"],["merge walk / binary insertion@src/set.c"])
prop("P07","A signal set counts signals and satellites exactly over any history",
 "After any sequence of adding, removing and re-initialising, the set contains exactly the signals added and not removed, its signal count is their number, and its satellite count is the number of distinct satellites (constellation and number) among them.",
 ["histories"],"all sequences of add/remove/query operations over all signals",
 "Tests add a few GPS/SBAS signals; they do not explore all codes, satellites, removal orders or repeated adds.",
 ["src/sid_set.c","include/swiftnav/sid_set.h"],["bitfield per code@src/sid_set.c"])
prop("P08","Signal identifiers, indices, constellations and labels are mutually consistent",
 "Mapping a valid signal to its code-specific index and back is the identity, indices are dense and unique, and an arbitrary (code, satellite) pair is valid exactly when its satellite number lies in the range of the code's constellation. Text forms of codes parse back to the same code, and each code belongs to exactly one constellation as reported by every query; the SBAS system of a satellite is the one whose published satellite list holds it.",
 ["inputs"],"every code value (including invalid ones) and satellite number",
 "Tests walk some codes; completeness over all codes, satellite numbers and invalid values is not pinned.",
 ["src/signal.c","include/swiftnav/signal.h"],["code table@src/signal.c","index helpers@include/swiftnav/signal.h"])
prop("P09","Signal ordering, equality and hashing are coherent",
 "Comparing signals is a total order that agrees with equality, and equal signals always have equal hashes; code comparison orders codes consistently with it. These queries are defined, without touching memory outside their tables, for every signal value including the unknown one.",
 ["inputs"],"every pair and triple of signal values including the invalid or unknown signal",
 "Tests compare hand-picked pairs; transitivity and antisymmetry range over triples, and the unknown signal is never compared.",
 ["include/swiftnav/signal.h","src/signal.c"],["sid_compare/sid_is_equal/sid_hash@include/swiftnav/signal.h"])
prop("P10","Carrier frequencies, wavelengths and code properties match published values",
 "For every valid signal the nominal carrier frequency is the published frequency of its band (for GLONASS including the channel offset of the satellite's current frequency slot), wavelength times frequency equals the speed of light, code length, chip rate and code period satisfy length = rate x period, phase alignments are those of the RINEX 3.03 alignment table, and the Doppler limits are symmetric and, within a constellation, in proportion to the carrier (QZSS L1C codes apart, which use the GPS limit).",
 ["inputs","configurations"],"every signal and every GLONASS slot-to-channel assignment",
 "Tests spot check some codes; the full table (and GLONASS channels) is not covered.",
 ["src/signal.c","include/swiftnav/constants.h"],["code table / sid_to_carr_freq@src/signal.c"])
prop("P11","Checked memory copy and bounded string length never exceed their bounds",
 "The checked copy either reports success after copying exactly the requested bytes or reports the specific reason (null, zero size, too large, overlap) and leaves the destination unchanged; it never writes outside the destination nor accepts distinct overlapping regions. Bounded string length equals the smaller of the bound and the distance to the first terminator and never reads beyond the bound.",
 ["inputs"],"all sizes, offsets and overlap arrangements",
 "No test covers these functions.",
 ["src/memcpy_s.c","include/swiftnav/swift_strnlen.h"],["argument checks@src/memcpy_s.c"])
prop("P12","GPS time arithmetic is exact, normalised and order preserving",
 "Normalising keeps the instant and yields a time of week in [0, one week) with a finite week; adding a duration and then differencing returns the duration, differences are antisymmetric and additive, and comparisons, range tests and validity queries agree with the instant in seconds. Values produced from valid times are valid, to floating-point resolution, across week boundaries.",
 ["inputs","histories"],"all valid times, positive and negative durations up to many weeks, and chains of such operations",
 "Tests use fixed tuples; rounding at week boundaries, negative remainders and long chains are not explored.",
 ["src/gnss_time.c","include/swiftnav/gnss_time.h"],["normalize_gps_time/gpsdifftime/add_secs@src/gnss_time.c"])
prop("P13","Week-number recovery picks the unique consistent week",
 "Given a time of week without week number and a reference, the recovered week is the one that puts the time within half a week of the reference; given a truncated week number and a reference, the expanded week is congruent to it and the first one not earlier than the reference. Already correct times are unchanged.",
 ["inputs"],"all times of week, references and truncated weeks, including exact half-week ties and boundaries",
 "Tests use a few fixed cases.",
 ["src/gnss_time.c"],["gps_time_match_weeks/gps_adjust_week_cycle@src/gnss_time.c"])
prop("P14","GPS-to-UTC conversion follows the leap-second history and a real calendar",
 "For every valid GPS time, converting to UTC yields the calendar date and time obtained by subtracting the leap seconds in force (including second 60 during an inserted leap second, and without second 59 at a removed one), from the built-in table or from broadcast parameters, and the offsets reported for GPS-to-UTC and UTC-to-GPS are consistent with it. Conversions never crash, always produce fields in range, and advance monotonically as GPS time advances.",
 ["inputs"],"all GPS times from 1980 to far in the future, with no parameters, and all broadcast parameter sets with small drift terms and arbitrary leap event times",
 "Tests check fixed instants around a few leap seconds with fixed parameters; rounding close to second, day, year and leap boundaries is unbounded.",
 ["src/gnss_time.c","include/swiftnav/leap_seconds.h"],["gps2utc/gps_utc_offset/is_leap_second_event@src/gnss_time.c","leap second table@include/swiftnav/leap_seconds.h"])
prop("P15","Calendar, Julian date and Unix conversions are mutually consistent",
 "Conversions between GPS time, modified Julian date, calendar date/time and UTC agree with the proleptic Gregorian calendar: round trips return the original to the documented resolution, day-of-year, leap-year and day counts match the calendar, every composition of conversions gives the same instant, and Greenwich sidereal time follows the published polynomial.",
 ["inputs"],"all dates and times of day in the supported era",
 "Tests convert a handful of dates.",
 ["src/gnss_time.c"],["date2mjd/mjd2date/mjd2gps/gps2mjd/utc2mjd/date2gps@src/gnss_time.c"])
prop("P16","GLONASS time converts to GPS time through Moscow time and leap seconds",
 "A GLONASS day-number/four-year-interval/time-of-day converts to the GPS time of the same instant (Moscow time, three hours ahead of UTC, plus leap seconds in force), and converting a GPS time (until 2100) to GLONASS time and back is the identity to the sub-second part of the UTC offset; out-of-range GLONASS day or interval numbers yield the unknown time, never a wrong one.",
 ["inputs"],"all in-range and out-of-range field combinations, with and without broadcast parameters, around leap seconds and four-year boundaries",
 "Tests pin a few conversions.",
 ["src/gnss_time.c"],["glo2gps/gps2glo@src/gnss_time.c"])
prop("P17","Broadcast UTC parameters decode to the transmitted values",
 "Decoding a GPS UTC page returns the transmitted polynomial, leap second counts and reference times with weeks expanded around the reference week and the leap event placed at the end of the indicated day; pages with another data or page identifier are rejected and inconsistent day numbers are rejected, and decoding never aborts.",
 ["inputs"],"every bit pattern of the page words and every reference week",
 "Tests decode one page.",
 ["src/gnss_time.c"],["decode_utc_parameters@src/gnss_time.c"])
prop("P18","Rounding to the solution epoch picks the nearest (or previous) epoch",
 "Rounding a GPS time to an output rate returns the nearest multiple of the period, flooring returns the last multiple not after it; results are valid normalised times, idempotent, monotone and within half (or one) period of the input across week roll-over.",
 ["inputs"],"all times and solution rates",
 "Tests check a few times at one rate.",
 ["src/gnss_time.c"],["round_to_epoch/floor_to_epoch@src/gnss_time.c"])
prop("P19","GPS navigation subframes decode to exactly the broadcast ephemeris",
 "For any ephemeris representable in the legacy GPS subframes, decoding its transmitted bits yields every parameter scaled to double precision, with reference times in the right week, fit interval, accuracy, health and issue numbers as broadcast. Inconsistent or out-of-range subframes are never reported as valid, and decoding any bit pattern never aborts.",
 ["inputs"],"every bit pattern of the three subframes and every reference week",
 "Tests decode one or two recorded ephemerides, so a wrong bit offset, sign or scale factor in a field that is zero or small there is invisible.",
 ["src/ephemeris.c"],["decode_ephemeris@src/ephemeris.c"])
prop("P20","BeiDou D1 subframes decode to exactly the broadcast ephemeris",
 "For any ephemeris representable in BeiDou D1 subframes, decoding its transmitted words yields every orbit, clock, group delay and health parameter scaled to double precision, with reference times moved to GPS weeks; decoding any bit pattern never aborts.",
 ["inputs"],"every bit pattern of the subframe words",
 "Tests decode one recorded ephemeris.",
 ["src/ephemeris.c"],["decode_bds_d1_ephemeris@src/ephemeris.c"])
prop("P21","Galileo I/NAV pages decode to exactly the broadcast ephemeris",
 "For any ephemeris representable in the five Galileo I/NAV words, decoding the pages yields every parameter scaled to double precision, with accuracy, group delays and reference times as broadcast and the validity flag following the broadcast signal health; reference times outside the week are rejected and the checked decoder never aborts on any bit pattern.",
 ["inputs"],"every bit pattern of the pages",
 "Tests decode one recorded ephemeris.",
 ["src/ephemeris.c"],["decode_gal_ephemeris@src/ephemeris.c"])
prop("P22","GLONASS strings decode to the broadcast ephemeris for any arrival order",
 "For any GLONASS immediate data, feeding strings 1 to 5 in order yields an ephemeris with every parameter scaled as broadcast, the right reference time, health and satellite slot; strings of the wrong number are ignored, out-of-range fields are rejected, and a decoded ephemeris is marked valid only when its reference time is known. Any bit pattern decodes without aborting, and decoding a second ephemeris into the same variable gives the same result as into a fresh one (except that the last known fit interval is kept when none is broadcast).",
 ["inputs","histories"],"every content of the strings, sequences of string sets through one decoder state",
 "Tests decode one recorded frame; out-of-range fields and decoder re-use are not covered.",
 ["src/decode_glo.c"],["decode_glo_string_*/decode_glo_ephemeris@src/decode_glo.c"])
prop("P23","GLONASS Hamming check corrects or rejects, and never accepts a corrupted string",
 "An error-free GLONASS string passes; any single flipped bit is reported either as that bit's position, as a harmless check-bit error or (for the overall parity bit) as a bad string; any two flipped bits are reported as uncorrectable, so no string with one or two wrong bits is ever passed as good with wrong data.",
 ["inputs","fault_sequences"],"every string content and every pattern of one or two bit errors",
 "Tests flip a few bits of one recorded string.",
 ["src/decode_glo.c"],["error_detection_glo/hamming masks@src/decode_glo.c"])
prop("P24","Almanac pages decode to the broadcast almanac, weeks and health",
 "Every GPS almanac page decodes to its satellite's parameters exactly scaled, with the reference week expanded around the reference, and health and week pages return each satellite's transmitted value; pages of other types or data identifiers are rejected and no bit pattern aborts.",
 ["inputs"],"every bit pattern of the page words and reference week",
 "Tests decode a few recorded pages.",
 ["src/almanac.c"],["almanac_decode*@src/almanac.c"])
prop("P25","Accuracy and fit-interval indices convert by the published tables",
 "Converting an accuracy index to metres follows the published table (and is safe for every index value), converting an accuracy to an index gives the smallest index whose bound covers it, and fit intervals follow the published relation between the fit flag, issue number and hours.",
 ["inputs"],"every index and accuracy value, every issue number",
 "Tests sample some entries.",
 ["src/ephemeris.c"],["decode_ura_index/encode_ura/decode_sisa_index/decode_fit_interval@src/ephemeris.c"])
prop("P26","Ephemeris and almanac validity windows gate every use",
 "An ephemeris is accepted at a time exactly when it is marked valid, has a usable reference time, a positive fit interval, a healthy status and consistent issue numbers, and the time lies inside its window: within half the fit interval around the reference for GPS, QZSS and GLONASS, from the reference to the end of the fit interval for Galileo and BeiDou, and at any time for SBAS. An almanac is accepted when it is marked valid, healthy and within half its fit interval of the reference. Every state, look-angle and Doppler query reports failure outside that window and leaves its outputs unchanged, and no validity query ever aborts on decoded data.",
 ["inputs"],"all reference times, fit intervals, constellations, and query times including the exact window edges and unknown times",
 "Tests probe a few instants of one or two ephemerides.",
 ["src/ephemeris.c","src/almanac.c"],["ephemeris_valid*/almanac_valid@src/ephemeris.c"])
prop("P27","Satellite health decisions follow the broadcast health words",
 "A signal is judged unhealthy exactly when the broadcast health word (per constellation, with the per-signal codes of the GPS tables, accuracy limits and invalid codes) says so, for ephemerides, almanac words and page-25 words alike.",
 ["inputs"],"all health words, codes, accuracy values and constellations",
 "Tests sample some words for one or two codes.",
 ["src/shm.c","src/ephemeris.c"],["check_6bit_health_word/check_8bit_health_word/check_nav_dhi@src/shm.c","signal_healthy/ephemeris_healthy@src/ephemeris.c"])
prop("P28","Keplerian satellite states follow the published orbit equations",
 "For GPS, Galileo, QZSS and BeiDou ephemerides (and almanacs) the computed satellite position and clock equal those of the published user algorithm to well under a centimetre for MEO, IGSO and GEO satellites, at every time within validity, including near-circular and eccentric orbits and week roll-over.",
 ["inputs"],"all parameter sets of realistic orbits, times within validity",
 "Tests compare one or two satellites at one time with coarse tolerance.",
 ["src/ephemeris.c","src/almanac.c"],["calc_sat_state_kepler@src/ephemeris.c"])
prop("P29","Satellite velocity, acceleration and clock rate are true time derivatives",
 "For every supported constellation and for almanacs the returned velocity is the time derivative of the returned position, the acceleration that of the velocity, and the clock drift that of the broadcast clock polynomial (the periodic relativistic term excluded), within the stated numerical resolution.",
 ["inputs"],"all ephemerides and times in validity, all orbit types",
 "Tests never differentiate.",
 ["src/ephemeris.c","src/almanac.c"],["calc_sat_state_kepler/_glo/_xyz@src/ephemeris.c"])
prop("P30","GLONASS and SBAS states follow their motion models",
 "GLONASS states agree with an independent high-accuracy integration of the published equations of motion from the broadcast state, forwards and backwards, and are continuous in time; SBAS states (from ephemerides and almanacs) are the broadcast polynomial. Clock offset and drift follow the broadcast clock model.",
 ["inputs"],"all realistic broadcast states and times within validity",
 "Tests check one state.",
 ["src/ephemeris.c"],["calc_sat_state_glo/calc_sat_state_xyz@src/ephemeris.c"])
prop("P31","Look angles and predicted Doppler are consistent with the satellite state",
 "Azimuth and elevation from an ephemeris or almanac equal those computed from the returned satellite state, and predicted Doppler equals minus-or-plus the projected relative velocity scaled by carrier frequency with one fixed sign, so it agrees with numerically differentiated range for a static receiver and vanishes for a receiver moving with the satellite.",
 ["inputs"],"all satellites, receiver positions and velocities on and near the Earth",
 "Tests compare almanac and ephemeris on one satellite only for a static receiver.",
 ["src/ephemeris.c","src/almanac.c"],["calc_sat_az_el/calc_sat_doppler@src/ephemeris.c"])
prop("P32","Group-delay corrections follow each system's definition",
 "The group-delay correction returned for a signal is the broadcast delay scaled as its interface document prescribes for that signal (including frequency-squared ratios), for every signal of every constellation: inter-signal ratios for GPS, QZSS and Galileo, the B1I or B2I delay for BeiDou (zero on B3I), for GLONASS zero on L1 and the broadcast delay on L2. Signals without a defined correction report failure (SBAS is outside the domain).",
 ["inputs"],"all group delay values and codes",
 "No test covers most codes.",
 ["src/ephemeris.c"],["get_tgd_correction@src/ephemeris.c"])
prop("P33","Ephemeris and almanac equality is an equivalence that sees every field",
 "Equality is reflexive and symmetric, and reports a difference when any single broadcast parameter, identifier, time or status differs by more than the comparison resolution. User accuracy, fit interval and data source of an ephemeris are not part of the comparison.",
 ["inputs"],"all pairs of ephemerides/almanacs that differ in one arbitrary field",
 "Tests change one field at a time for some of the fields in one example.",
 ["src/ephemeris.c","src/almanac.c"],["ephemeris_equal/almanac_equal@src/ephemeris.c"])
prop("P34","The BeiDou ephemeris checksum identifies the broadcast parameters",
 "For every decoded BeiDou ephemeris the issue checksum (get_bds2_iod_crc) is a deterministic function of the broadcast orbit and clock fields only, equals the 24-bit CRC of those fields as broadcast, and changes whenever any one of those fields changes by any pattern within 24 bits.",
 ["inputs"],"all BeiDou ephemerides and single-field changes",
 "Tests check one value.",
 ["src/ephemeris.c"],["get_bds2_iod_crc@src/ephemeris.c"])
prop("P35","Geodetic and Cartesian coordinates convert back and forth without loss",
 "Converting latitude, longitude and height to Earth-centred coordinates matches the ellipsoid formulas, and converting back recovers the point to sub-millimetre for every latitude including the poles, the equator and the date line, from well below the surface to beyond GNSS orbits; degree/radian conversion is its own inverse.",
 ["inputs"],"all points with heights from -5000 km to 100000 km",
 "Random tests exist but sample few points and do not target poles, axis or extreme heights.",
 ["src/coord_system.c"],["wgsllh2ecef/wgsecef2llh@src/coord_system.c"])
prop("P36","Local north-east-down frames are rigid rotations with exact azimuth/elevation",
 "The transformation to local north-east-down axes is a proper rotation that preserves lengths and angles and is inverted by its counterpart, north/east/down point along the geodetic axes, and azimuth in [0, 2 pi] and elevation in [-pi/2, pi/2] are those of the rotated difference vector, finite for every pair of distinct points including exactly overhead.",
 ["inputs"],"all reference positions and vectors/targets, including poles and overhead targets",
 "Tests check a zero vector only.",
 ["src/coord_system.c"],["wgsecef2ned*/wgsned2ecef*/wgsecef2azel@src/coord_system.c"])
prop("P37","Matrix inversion and QR solving meet their defining equations or report singular",
 "For every well-conditioned square system of any size the inverse times the matrix is the identity and the QR factors are orthogonal and upper-triangular with the right product and solve the system; exactly singular matrices (determinant or pivot of zero, or below the documented thresholds) are reported as singular and inputs are not modified.",
 ["inputs"],"all sizes and matrices, well-conditioned and exactly singular, badly scaled",
 "Tests use random 2..5-sized matrices with loose tolerance and one QR case.",
 ["src/linear_algebra.c"],["matrix_inverse/qrdecomp_square/qrsolve@src/linear_algebra.c"])
prop("P38","Least-squares and pseudo-inverse routines return the true minimiser",
 "For full-rank systems the weighted least-squares solution makes the weighted residual orthogonal to every column and the covariance is the inverse normal matrix, and the pseudo-inverse satisfies its defining equations for tall, wide and square matrices (the weighted forms their documented formulas); failure is reported only for rank-deficient or under-determined input, and memory outside the operands is never touched.",
 ["inputs"],"all shapes, weights and full-rank matrices",
 "There is no test of these functions.",
 ["src/linear_algebra.c"],["matrix_wlsq_solve/matrix_pseudoinverse/matrix_ataiat/matrix_ataati@src/linear_algebra.c"])
prop("P39","Matrix and vector kernels equal their textbook definitions",
 "Products (floating and integer), transposes, sums, copies, sub-matrices, identity and triangular parts, the UDU factorisation (with a diagonal that is never negative) and its reconstruction, dot and cross products, norms, means, normalisation and distances equal their definitions for every size, and write only their outputs.",
 ["inputs"],"all sizes and contents",
 "Tests use small fixed or random sizes and do not cover several kernels.",
 ["src/linear_algebra.c"],["matrix_*/vector_* kernels@src/linear_algebra.c"])
prop("P40","Ionospheric delay follows the broadcast Klobuchar model",
 "The ionospheric delay equals the published single-frequency model for every time, position, direction and coefficient set, is never less than the model's night-time constant times the obliquity factor, and is periodic over the day; broadcast coefficient pages (GPS subframe 4 page 18 and BeiDou D1 subframe 1) decode to the transmitted values, and any other GPS page is rejected.",
 ["inputs"],"all coefficients, times, positions, directions, and page contents",
 "Tests check a few fixed points and one page.",
 ["src/ionosphere.c"],["calc_ionosphere/decode_iono_parameters/decode_bds_d1_iono@src/ionosphere.c"])
prop("P41","Tropospheric delay follows the UNM3m/Niell model",
 "The tropospheric delay equals the published model for every date, latitude, height and elevation, is positive and finite, decreases as the elevation grows and (above 3 degrees of elevation) as the height grows, is zero above the 11 km top of the model, is mirrored between hemispheres half a year apart, and is bounded for negative heights and low elevations.",
 ["inputs"],"all dates, latitudes, heights, elevations",
 "Tests check a few points.",
 ["src/troposphere.c"],["calc_troposphere@src/troposphere.c"])
prop("P42","Geoid height interpolates its grid everywhere on Earth",
 "The geoid height is defined for every latitude and longitude in range, passes through the grid heights at grid points, is the documented interpolation between them (bicubic, bilinear in the two polar cells), is continuous (to 3 mm where the interpolation changes) and periodic in longitude, single valued at the poles and within the physical range of the geoid; out-of-range arguments return zero and no argument reads outside the grid.",
 ["inputs"],"all latitudes and longitudes in and out of range",
 "The geoid test file is not part of the suite as built (it needs a grid that is not in the tree).",
 ["src/geoid_model.c"],["get_geoid_offset@src/geoid_model.c"])
prop("P43","The GLONASS slot map is an exact registry under any update history",
 "After any sequence of assignments, clears and resets, a satellite slot is mapped exactly when its last update was an assignment, its channel is the last one assigned, and looking up a channel returns the slots currently assigned to it (at most two, with the right count); every update, filling the map with placeholder channels (1..14) included, is bracketed by the configured lock and unlock.",
 ["histories"],"all sequences of assignments, clears, resets and look-ups over valid slots and channels",
 "Tests use one fixed sequence.",
 ["src/glo_map.c"],["slot table@src/glo_map.c"],state=[["slot table","channel per slot","src/glo_map.c"]])
prop("P44","Single-point positioning recovers the true receiver state",
 "From consistent pseudoranges and Dopplers of enough satellites in good geometry, at any place on or near the Earth and with any mix of supported signals, the solver converges and returns position, velocity, clock offset and drift (of the first constellation seen) and solution time equal to the truth within numerical error and the first-order Earth-rotation model (for sets without redundancy, to one of the exact solutions), with dilution of precision and covariances equal to those of the geometry.",
 ["inputs","configurations"],"all receiver states, satellite geometries, constellation mixes, clock biases, solver strategies",
 "Tests solve recorded measurement sets for one location and mostly check return codes.",
 ["src/single_epoch_solver.c"],["pvt_iter/pvt_solve/vel_solve/compute_dops@src/single_epoch_solver.c"])
prop("P45","RAIM excludes a faulty signal and reports which one",
 "When one (or two) signals carry a large range or Doppler fault and enough redundancy remains, the solver returns a repaired solution close to the truth, names exactly the excluded signals and counts only the used ones; with fault-free signals nothing is excluded, and when the fault is detected but cannot be isolated by excluding one or two signals or, last, all but GPS, a failure is returned, never a silently wrong position.",
 ["inputs","fault_sequences"],"all geometries with redundancy, fault sizes, signs, victims, and measurement orders",
 "Tests inject a few fixed faults into one recorded set.",
 ["src/single_epoch_solver.c"],["residual_test/pvt_repair/pvt_solve_gps_only@src/single_epoch_solver.c"])
prop("P46","A reported solution is always sane, and a failed one is never usable",
 "For every set of measurements a successful solution has finite values, is marked valid, has GDOP at most 20, height between -1 km and 1000 km and speed below 1000 knots, and satellite and signal counts that match the used measurements; every failure returns its documented code and leaves the solution and its velocity marked invalid whatever they held before, and a position or velocity refused for altitude or speed is not handed out; the velocity is marked valid only if every used signal has a measured Doppler; no measurement values make the solver hang or abort. The result does not depend on uninitialised memory, and the order of measurements changes only rounding (and which constellation's clock is the reference).",
 ["inputs","histories"],"all measurement sets including inconsistent, degenerate, huge or duplicated ones; all orders; re-use of the solution structure across epochs",
 "Tests use a dozen recorded sets.",
 ["src/single_epoch_solver.c"],["filter_solution/calc_PVT_pred@src/single_epoch_solver.c"])
prop("P47","Measurement selection follows the chosen strategy and masks",
 "Only measurements admitted by the chosen processing strategy and above the carrier-to-noise mask influence the solution: adding or altering any other measurement leaves the solution unchanged, and the counts report exactly the admitted and not excluded signals.",
 ["inputs","configurations"],"all strategies, masks and measurement sets with excluded members",
 "Tests check two strategies on one recorded set.",
 ["src/single_epoch_solver.c"],["strategy predicates/obs_mask_check_passed@src/single_epoch_solver.c"])
prop("P48","Measurement helpers: lock time code, clock correction, ordering, equality",
 "Lock time encodes to the largest indicator whose minimum does not exceed it and decoding returns that minimum, so re-encoding a decoded indicator is the identity; clock corrections add exactly the satellite clock error in metres to the pseudorange and in cycles of the signal's carrier to the phase, and subtract exactly the clock error rate in hertz from the Doppler (which is positive when the range decreases); measurements order by signal, equality compares every field, and a flag word is valid exactly when it combines only documented flags.",
 ["inputs"],"all lock times and indicators, all signals, all single-field differences",
 "Tests check values away from the table boundaries and one example of each correction.",
 ["src/nav_meas.c"],["encode_lock_time/decode_lock_time/nav_meas_cor_*/nav_meas_equal@src/nav_meas.c"])
prop("P49","GLONASS inter-channel biases apply by signal and mask",
 "The bias correction for a GLONASS L1OF or L2OF signal is the reference receiver's bias minus the bias broadcast for that signal, falling back to the P-code bias of the same band when only that is flagged and to zero when nothing is flagged or the signal is any other one; bias equality compares mask and every bias.",
 ["inputs"],"all masks, biases and codes",
 "There is no test for this component.",
 ["src/glonass_phase_biases.c"],["get_glonass_bias@src/glonass_phase_biases.c"])
prop("P50","Status-report callbacks are delivered exactly to the current registrations",
 "After any sequence of registering, re-registering, de-registering and resetting, a report reaches exactly the currently registered callbacks, once each, in registration order, with the reported values and their own context, registering an object again replaces its callback and context in place, and registering with no callback removes it; delivery always terminates, also when a callback changes one registration (callbacks whose turn is still to come see the change).",
 ["histories"],"all sequences of operations over any number of registration objects",
 "Tests use fixed sequences that never re-register an object.",
 ["src/subsystem_status_report.c"],["linked list of nodes@src/subsystem_status_report.c"],state=[["callback list","registered nodes","src/subsystem_status_report.c"]])
prop("P51","Log helpers shorten any path safely and log redirection always takes effect",
 "Shortening a path returns its last component exactly as the standard base-name rule does (an empty path stays empty) for every path and never touches memory outside it; after any sequence of installing and removing log sinks, every message within the level threshold reaches exactly the sink installed last, with its level, text, base file name and line, and the standard error stream when none is installed; the rate limiter runs its command the first time and then once the threshold of tics has passed since it last did, and a counted block runs on every nth call; signal log macros name the satellite.",
 ["inputs","histories"],"all paths and all sequences of sink changes and messages",
 "Tests log a few messages with one sink.",
 ["src/logging_common.c","src/logging.c"],["truncate_path_@src/logging_common.c","logging_set_implementation@src/logging.c"])

prop("P52","The byte FIFO is correct for one producer and one consumer running concurrently",
 "With one context writing and another reading, peeking or removing, and neither taking a lock (a signal handler against the main loop, or two threads on a machine that keeps loads and stores in program order), every interleaving of their individual loads, stores and copied bytes keeps the FIFO promises: the consumer gets exactly the bytes written, in order, never one whose write has not completed; the producer never overwrites a byte that has not been removed; a write stores at least as many bytes as were free when it began, a read returns at least as many as were available when it began, and the reported length and space never promise more than can be taken or stored. No access goes outside the FIFO's own memory.",
 ["inputs","schedules","histories"],"all FIFO sizes, index offsets and fill levels, all histories of producer and consumer operations, and all interleavings of their memory accesses",
 "Tests call the FIFO from a single thread; the order in which a call reads and publishes the indices is invisible to them.",
 ["src/fifo_byte.c","include/swiftnav/fifo_byte.h"],["write publishes write_index after the copy@src/fifo_byte.c","read/remove publish read_index after the copy@src/fifo_byte.c"],state=[["read_index/write_index","owned by consumer and producer respectively","include/swiftnav/fifo_byte.h"]])
prop("P53","Computations depend on nothing but their arguments",
 "Every computational entry point (time, coordinates, geoid, ephemeris and almanac states, decoders, atmosphere, linear algebra, corrections, position solving, bit access, signal tables) gives bit-identical results for the same arguments (and the same GLONASS channel map) no matter which calls were made before it, what the previous results were, whether it is the first call of the process, or whether another call runs, on other arguments, in between any two of its memory accesses; inputs are never changed. So the library may be called from several threads or from an interrupt without locks.",
 ["inputs","schedules","histories"],"all inputs of all call groups, all call histories, all points at which another call may run",
 "Tests call each function a few times with unrelated inputs from one thread; a cached value, a warm start or shared scratch memory gives the same answers there.",
 ["src/gnss_time.c","src/coord_system.c","src/geoid_model.c","src/ephemeris.c","src/almanac.c","src/decode_glo.c","src/ionosphere.c","src/troposphere.c","src/linear_algebra.c","src/correct_iono_tropo.c","src/single_epoch_solver.c","src/bits.c","src/edc.c","src/signal.c"],["absence of mutable file-scope and function-static storage@src/"])
prop("P54","From broadcast navigation bits to the receiver's state",
 "The parts of the library form a receiver: when the navigation messages of GPS, QZSS, Galileo, BeiDou and GLONASS satellites in view are decoded, satellites judged usable exactly when they are broadcast healthy and inside their validity window, their states and clocks taken at the transmission time given by the receiver's clock and the pseudorange, group delays, ionosphere (from the decoded Klobuchar page) and troposphere applied, and the position solved, then position, velocity, clock offset, clock drift, solution time, look angles and the set of signals used are the true ones, to the numerical precision of the models (millimetres times the geometry's dilution), at any place, at any time including week and day ends, and for any mix of constellations and frequencies.",
 ["inputs","histories"],"all broadcast values, receiver states, instants and constellation mixes with well-conditioned geometry",
 "Tests check each stage by itself on a few recorded frames; conventions between the stages (signs, time scales, week numbers, which clock, which frequency) are exercised together by none.",
 ["src/ephemeris.c","src/decode_glo.c","src/gnss_time.c","src/ionosphere.c","src/troposphere.c","src/nav_meas.c","src/single_epoch_solver.c","src/coord_system.c"],["decode_*_ephemeris/calc_sat_state_kepler/get_tgd_correction@src/ephemeris.c","glo2gps/gps_time_match_weeks@src/gnss_time.c","nav_meas_cor_*@src/nav_meas.c","calc_PVT@src/single_epoch_solver.c"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
for p in P: assert len(p["title"])<=80,(p["id"],len(p["title"]))
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
