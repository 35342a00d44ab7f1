#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=["include/boost/random/" + f if not f.startswith("src") and not f.startswith("inc") else f for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"observe_at": observe} if observe else {}))))

prop("C01", "Uniform integers stay inside the requested closed range",
 "For every integer type, every valid bound pair a <= b (including the full range of the type, negative bounds and a == b) and every engine output stream, uniform_int_distribution (also through its param overload, the legacy uniform_int and random_number_generator) returns a value in [a, b]. No call reads past what it needs when a == b and no combination of engine range and target range makes the result escape the interval.",
 ["inputs", "configurations"], "all a <= b of 8/16/32/64-bit signed and unsigned types, all engine output values, engines with narrower, equal, wider, signed-offset and non-power-of-two ranges",
 "Tests sample a few hand-picked ranges with one engine each; overflow at type extremes and at the seams between the engine-range cases needs specific a, b and draws.",
 ["uniform_int_distribution.hpp", "uniform_int.hpp", "random_number_generator.hpp", "detail/signed_unsigned_tools.hpp"],
 [("generate_uniform_int", "include/boost/random/uniform_int_distribution.hpp"), ("random_number_generator::operator()", "include/boost/random/random_number_generator.hpp")])

prop("C02", "Uniform integers are exactly uniform",
 "If the underlying engine is exactly uniform over its range, uniform_int_distribution is exactly uniform over [a, b]: among all equally likely engine outputs consumed by one attempt every target value is produced by the same number of outputs. This holds whether the engine range is smaller than, equal to, or larger than the target range.",
 ["inputs", "configurations"], "all target ranges over small-range engines (counted exactly over one complete attempt) and all 16/32-bit draws for the bucket structure of wide engines",
 "The statistical tests cannot see a bias of a few parts in 2^32 or a bias that exists only for one range size.",
 ["uniform_int_distribution.hpp"],
 [("rejection of the incomplete last bucket", "include/boost/random/uniform_int_distribution.hpp generate_uniform_int"), ("multi-draw assembly with overflow rejection", "include/boost/random/uniform_int_distribution.hpp generate_uniform_int")])

prop("C03", "uniform_smallint yields the documented reduction and stays in range",
 "For every engine output and every valid range, uniform_smallint consumes exactly one engine output and returns a value in [a, b]; for integer engines with power-of-two-sized or larger output ranges this is the documented reduction of that output to the target size, offset by a. The param overload and repeated use give the same value.",
 ["inputs"], "all engine outputs (8 to 64 bits, signed-offset ranges, floating engines) and all ranges a <= b that fit",
 "Tests sample a few ranges; the reduction formula has separate cases for integer and real engines whose extremes sampling does not reach.",
 ["uniform_smallint.hpp"],
 [("operator()/impl", "include/boost/random/uniform_smallint.hpp")])

prop("C04", "Unit-interval generators never return 1 or a negative number",
 "uniform_01 (engine-wrapping and free-standing forms) and generate_canonical return a value in [0, 1) for every engine output, including the engine's largest output and engines whose range is wider than the mantissa of the result type.",
 ["inputs", "configurations"], "all outputs of integer engines with 8- to 64-bit ranges, offset ranges and floating engines; result types with 11- and 24- and 53-bit mantissas as stated per harness",
 "The critical output is one in 2^32 or 2^64 (rounding up to 1.0), which a sampled test practically never draws.",
 ["uniform_01.hpp", "generate_canonical.hpp"],
 [("retry when the result rounds to 1", "include/boost/random/uniform_01.hpp new_uniform_01::operator()"), ("generate_canonical clamp", "include/boost/random/generate_canonical.hpp")])

prop("C05", "Uniform reals stay in the half-open interval [a, b)",
 "uniform_real_distribution (and the legacy uniform_real) returns a value x with a <= x < b for every finite a < b and every engine output, including intervals whose width overflows the type. Rounding never yields b.",
 ["inputs"], "all finite a < b of the result type and all engine outputs, up to the stated number of rejected draws",
 "Returning b needs one particular engine output together with particular a, b; tests use fixed intervals and random draws.",
 ["uniform_real_distribution.hpp", "uniform_real.hpp"],
 [("generate_uniform_real retry loop and width halving", "include/boost/random/uniform_real_distribution.hpp")])

prop("C06", "Engine outputs never leave [min(), max()]",
 "From every state an engine can reach by seeding, stepping, discarding or restoring a state that operator<< wrote, every output lies in [min(), max()], and all later states obey the same bound. For the linear congruential, shift-register and Mersenne Twister engines, degenerate seeds (zero, multiples of the modulus, all-zero words) are mapped to states that still generate a non-constant sequence.",
 ["inputs", "histories"], "all seed words / integer seeds / seed sequences, one symbolic step from an arbitrary valid state for each engine family",
 "Tests check 10000 outputs after the default seed; a bad state needs one particular seed among 2^32 or more.",
 ["linear_congruential.hpp", "linear_feedback_shift.hpp", "mersenne_twister.hpp", "subtract_with_carry.hpp", "lagged_fibonacci.hpp", "inversive_congruential.hpp", "additive_combine.hpp", "xor_combine.hpp", "splitmix64.hpp", "mixmax.hpp", "shuffle_order.hpp", "independent_bits.hpp", "discard_block.hpp"],
 [("seed() range reduction", "include/boost/random/linear_congruential.hpp"), ("seed() low-bit fix-up", "include/boost/random/linear_feedback_shift.hpp"), ("all-zero state fix-up", "include/boost/random/mersenne_twister.hpp normalize_state")])

prop("C07", "Congruential engines compute their recurrence exactly for every modulus",
 "linear_congruential_engine (including the 48-bit family), inversive_congruential_engine and the additive combination step by their published recurrences in exact integer arithmetic, for every multiplier, increment and modulus the result type admits, including modulus 2^w and moduli close to the type's limit. Seeding reduces modulo the modulus as documented.",
 ["inputs", "configurations"], "all states (and, for the narrow instances, all states and all seeds) of a family of instances covering every arithmetic strategy",
 "Tests compare the 10000th value of shipped instances only; an overflow in modular multiplication appears for particular states or parameters.",
 ["linear_congruential.hpp", "inversive_congruential.hpp", "additive_combine.hpp", "detail/const_mod.hpp", "detail/large_arithmetic.hpp"],
 [("const_mod::mult/mult_schrage/mult_add/pow/invert", "include/boost/random/detail/const_mod.hpp"), ("mulmod/muldiv", "include/boost/random/detail/large_arithmetic.hpp")])

prop("C08", "Shift-register engines and their XOR combinations follow their recurrence",
 "linear_feedback_shift_engine steps by its published Tausworthe recurrence from every valid state, and xor_combine and taus88 return exactly the XOR of their components' shifted outputs. Seeding and drawing keep the components in step.",
 ["inputs"], "all states of the shipped and of narrow instances",
 "Tests compare one value after 10000 steps from the default seed.",
 ["linear_feedback_shift.hpp", "taus88.hpp", "xor_combine.hpp"],
 [("operator()", "include/boost/random/linear_feedback_shift.hpp"), ("operator()", "include/boost/random/xor_combine.hpp")])

prop("C09", "Mersenne Twister follows its recurrence, tempering and seeding exactly",
 "mersenne_twister_engine, mt19937, mt19937_64 and mt11213b produce, from every state and at every position within a state block, the outputs of the published twisted generalised feedback shift register with the published tempering. Integer seeding follows the published initialisation formula.",
 ["inputs", "histories"], "all states at every block position (including the wrap between blocks) and all integer seeds",
 "Tests compare single values for the default seed; the twist has special cases at block edges that depend on state bits.",
 ["mersenne_twister.hpp"],
 [("twist/operator()", "include/boost/random/mersenne_twister.hpp"), ("seed", "include/boost/random/mersenne_twister.hpp")])

prop("C10", "Lagged engines follow their recurrence, and luxury levels discard right",
 "subtract_with_carry, subtract_with_carry_01, lagged_fibonacci, lagged_fibonacci_01 and the ranlux engines produce exactly the published recurrence (including the carry or borrow) from every state across the wrap of the lag table; discard_block returns exactly the first r of every p outputs of its base engine.",
 ["inputs", "histories"], "all states and all positions over more than one table wrap for narrow instances; shipped instances from all states for the stated number of steps",
 "Tests compare one value per shipped engine; borrow handling matters only for particular neighbouring words.",
 ["subtract_with_carry.hpp", "lagged_fibonacci.hpp", "ranlux.hpp", "discard_block.hpp"],
 [("operator()/fill", "include/boost/random/subtract_with_carry.hpp"), ("operator()/fill", "include/boost/random/lagged_fibonacci.hpp"), ("operator()", "include/boost/random/discard_block.hpp")])

prop("C11", "splitmix64 and MIXMAX follow their published algorithms",
 "splitmix64 is the published add-and-mix generator for every state and seed. mixmax steps every state vector by its matrix recurrence in exact arithmetic modulo 2^61-1 with a consistent running sum, and its skip-based seeding always yields a valid non-zero state.",
 ["inputs"], "all 64-bit states for splitmix64; all valid state vectors for one mixmax step",
 "Tests compare a handful of outputs; reduction modulo 2^61-1 fails only for values next to the modulus.",
 ["splitmix64.hpp", "mixmax.hpp"],
 [("next", "include/boost/random/splitmix64.hpp"), ("iterate_raw_vec", "include/boost/random/mixmax.hpp")])

prop("C12", "discard(n) leaves the engine exactly where n calls would",
 "For every engine and engine adaptor, from every state and at every position, discard(n) has the same effect on all later outputs and on equality as calling the engine n times and ignoring the results. This holds for engines with jump-ahead as well as for those that loop.",
 ["inputs", "histories"], "all states and positions, n over 0..bound chosen to cross block/table boundaries and jump-ahead thresholds; all 64-bit n for congruential jumps of narrow instances",
 "Tests use the single count 9307 from a fresh state.",
 ["linear_congruential.hpp", "mersenne_twister.hpp", "subtract_with_carry.hpp", "lagged_fibonacci.hpp", "detail/polynomial.hpp", "discard_block.hpp", "shuffle_order.hpp", "independent_bits.hpp", "additive_combine.hpp", "xor_combine.hpp", "linear_feedback_shift.hpp", "inversive_congruential.hpp", "splitmix64.hpp", "mixmax.hpp"],
 [("discard", "include/boost/random/linear_congruential.hpp"), ("discard_many", "include/boost/random/mersenne_twister.hpp"), ("subtract_with_carry_discard", "include/boost/random/subtract_with_carry.hpp")])

prop("C13", "Equal engines generate equal sequences",
 "Whenever two engines of the same type compare equal, all their later outputs are equal; a copy always compares equal to its source, and operator!= is the negation of operator==. For mersenne_twister_engine and subtract_with_carry_engine, equality does not depend on the internal position at which the same logical state is stored.",
 ["inputs", "histories"], "all pairs of states of narrow instances and of shipped instances with symbolic words, at all position pairs",
 "Tests compare only copies and engines advanced in lock step.",
 ["linear_congruential.hpp", "linear_feedback_shift.hpp", "mersenne_twister.hpp", "subtract_with_carry.hpp", "lagged_fibonacci.hpp", "inversive_congruential.hpp", "shuffle_order.hpp", "discard_block.hpp", "additive_combine.hpp", "xor_combine.hpp", "independent_bits.hpp", "splitmix64.hpp", "mixmax.hpp"],
 [("operator== with backward reconstruction", "include/boost/random/mersenne_twister.hpp rewind"), ("operator==", "include/boost/random/subtract_with_carry.hpp")])

prop("C14", "Saving and restoring an engine preserves its future",
 "Writing any engine in any reachable state to a stream and reading it back yields an engine that compares equal to and continues exactly like the original, consumes exactly what was written (up to trailing white space), and leaves the stream usable for what follows. This includes engines saved in the middle of a block and adaptors with buffered values.",
 ["inputs", "histories"], "all states and positions of each engine (shipped instances where the state is small, narrow instances of the same templates otherwise); stream modelled as a sequence of whitespace-separated tokens",
 "Tests save one state per engine.",
 ["linear_congruential.hpp", "linear_feedback_shift.hpp", "mersenne_twister.hpp", "subtract_with_carry.hpp", "lagged_fibonacci.hpp", "inversive_congruential.hpp", "shuffle_order.hpp", "discard_block.hpp", "additive_combine.hpp", "xor_combine.hpp", "independent_bits.hpp", "splitmix64.hpp", "mixmax.hpp"],
 [("operator<< / operator>>", "every engine header")])

prop("C15", "Saving and restoring a distribution preserves parameters and behaviour",
 "Writing the parameter set of any distribution with any valid parameters to a stream and reading it back consumes exactly what was written and gives an equal parameter set; the same holds for the distributions themselves, which then produce the same values from the same engine (except that distributions over real-valued weights normalise those weights again when read). Input that cannot be parsed sets failbit; for the distributions whose extraction checks its input (uniform_int, uniform_real, geometric, triangle, bracketed weight vectors) invalid values also set failbit and leave the object unchanged. Assigning a parameter set gives the same object as constructing from it, whatever the object held before.",
 ["inputs", "histories"], "all parameter values of every distribution (vectors up to the stated length); stream modelled as a token sequence",
 "Tests stream one parameter set per distribution.",
 ["bernoulli_distribution.hpp", "beta_distribution.hpp", "binomial_distribution.hpp", "cauchy_distribution.hpp", "chi_squared_distribution.hpp", "discrete_distribution.hpp", "exponential_distribution.hpp", "extreme_value_distribution.hpp", "fisher_f_distribution.hpp", "gamma_distribution.hpp", "geometric_distribution.hpp", "laplace_distribution.hpp", "lognormal_distribution.hpp", "negative_binomial_distribution.hpp", "non_central_chi_squared_distribution.hpp", "normal_distribution.hpp", "piecewise_constant_distribution.hpp", "piecewise_linear_distribution.hpp", "poisson_distribution.hpp", "student_t_distribution.hpp", "triangle_distribution.hpp", "uniform_int_distribution.hpp", "uniform_on_sphere.hpp", "uniform_real_distribution.hpp", "uniform_smallint.hpp", "weibull_distribution.hpp", "hyperexponential_distribution.hpp", "detail/vector_io.hpp"],
 [("operator<< / operator>>", "every distribution header"), ("print_vector/read_vector", "include/boost/random/detail/vector_io.hpp")])

prop("C16", "seed_seq generates exactly the standard's sequence",
 "For every input sequence and every output length, seed_seq fills the output with the values the C++ standard prescribes for std::seed_seq, for output elements of 32 bits or more, and param()/size() return the stored words unchanged modulo 2^32. An empty output range is a no-op.",
 ["inputs"], "all 32-bit input words for input lengths 0..bound and output lengths 0..bound crossing every size threshold",
 "Tests check fixed inputs at a few lengths; index wrap-around differs at each size threshold.",
 ["seed_seq.hpp"],
 [("generate", "include/boost/random/seed_seq.hpp")])

prop("C17", "Seeding consumes exactly the words it needs and reports shortage",
 "Seeding an engine from an iterator range advances the iterator by exactly the documented number of words and assembles every state word from all of its 32-bit pieces in order; a range that is too short raises std::invalid_argument. Seeding through a seed sequence requests the same number of words (three more, which are ignored, for engines seeded from a single integer) in one call and gives the same state.",
 ["inputs"], "all word values; range lengths 0..needed+2 for each engine",
 "The iterator-seeding tests for short ranges and exact consumption sample a few word vectors.",
 ["detail/seed_impl.hpp", "detail/seed.hpp", "linear_congruential.hpp", "mersenne_twister.hpp", "subtract_with_carry.hpp", "lagged_fibonacci.hpp"],
 [("fill_array_int / get_one_int / seed_one_int", "include/boost/random/detail/seed_impl.hpp")])

prop("C18", "generate() fills exactly the requested range from the engine's stream",
 "generate(first, last) writes every element of the range and nothing outside it, for every range length and element type; the elements are the engine's consecutive outputs cut into chunks (for a range that is not a power of two, the outputs beyond the largest multiple of the chunk size are rejected) and packed into 32-bit words least significant first, except that splitmix64 and rand48 write one output per element; no more outputs are consumed than these words need, and the engine is left where it would be after producing them. An empty range writes nothing.",
 ["inputs", "histories"], "all engine outputs; range lengths 0..bound; element widths narrower, equal and wider than the engine's",
 "The generate test is compiled out in the generic suite, and partial last words depend on length and width together.",
 ["detail/generator_bits.hpp", "detail/seed_impl.hpp", "random_device.hpp"],
 [("generate_from_int / generate_from_real", "include/boost/random/detail/seed_impl.hpp")])

prop("C19", "Quasi-random sequences stratify every dyadic interval exactly",
 "Counting the all-zero point that the Sobol and Niederreiter base-2 engines skip as point 0, each Sobol coordinate visits every dyadic interval of length 2^-k exactly once in every aligned block of 2^k points, and each Niederreiter coordinate does so for every k that is a multiple of the degree of its polynomial. Each coordinate of the Faure engine over base q visits every interval of length q^-k exactly once in every aligned block of q^k points. Outputs stay within [min(), max()].",
 ["inputs", "configurations"], "all pairs of point indices within a block for the stated dimensions and k",
 "Tests compare fixed point tables for a few dimensions.",
 ["sobol.hpp", "niederreiter_base2.hpp", "faure.hpp", "detail/gray_coded_qrng.hpp", "detail/qrng_base.hpp"],
 [("direction-number table construction", "include/boost/random/sobol.hpp, niederreiter_base2.hpp"), ("gray-coded update", "include/boost/random/detail/gray_coded_qrng.hpp")])

prop("C20", "Quasi-random engines seek, resume and end exactly",
 "For the Sobol, Niederreiter and Faure engines, seed(n) and discard(n) reach exactly the point that stepping would reach, saved and restored engines continue identically, and equal engines generate equal sequences. Requests outside the sequence or an unsupported dimension raise std::range_error or std::invalid_argument instead of silently wrapping.",
 ["inputs", "histories"], "all positions inside a point and all sequence indices of narrow-integer instances; symbolic skip counts",
 "Tests use a few skip counts; the end of a 2^32 or 2^64 sequence is unreachable by stepping.",
 ["detail/qrng_base.hpp", "detail/gray_coded_qrng.hpp", "sobol.hpp", "niederreiter_base2.hpp", "faure.hpp"],
 [("discard/discard_vector", "include/boost/random/detail/qrng_base.hpp"), ("seed / overflow checks", "include/boost/random/detail/gray_coded_qrng.hpp")])

prop("C21", "Distribution results stay inside the documented support",
 "Every distribution returns values inside the support reported by its min() and max(), for every valid parameter set and engine stream: bernoulli respects p == 0 and p == 1, binomial lies in [0, t], counts and waiting times are non-negative, triangle lies in [a, c], beta in [0, 1]. Results are never NaN for valid parameters.",
 ["inputs"], "all valid parameters and all engine outputs over small mantissas as stated, library math functions constrained only by their contracts, rejection loops up to the stated number of attempts",
 "A draw at the very edge of the engine's range (0 or just below 1) is needed and is practically never sampled.",
 ["bernoulli_distribution.hpp", "binomial_distribution.hpp", "geometric_distribution.hpp", "poisson_distribution.hpp", "exponential_distribution.hpp", "triangle_distribution.hpp", "beta_distribution.hpp", "gamma_distribution.hpp", "weibull_distribution.hpp", "lognormal_distribution.hpp", "laplace_distribution.hpp", "normal_distribution.hpp", "detail/int_float_pair.hpp"],
 [("operator()", "each distribution header")])

prop("C22", "Parameter sets and distribution objects agree",
 "For every distribution and every valid parameter set p: constructing from p and calling param() or the accessors returns p, setting param(p) makes the object equal to one constructed from p, dist(engine, p) draws exactly as a fresh object constructed from p, and after reset() the object no longer depends on earlier draws. Two equal distribution objects produce equal values from equal engines. (discrete_distribution's dist(engine, p) uses a different selection method, so it is only required to select by the same weights; param() of tables with real weights returns them normalised, up to rounding.)",
 ["inputs", "histories"], "all parameter values and engine outputs, one to three draws per object",
 "Tests use one parameter set per distribution and compare with one engine stream.",
 ["bernoulli_distribution.hpp", "binomial_distribution.hpp", "exponential_distribution.hpp", "gamma_distribution.hpp", "normal_distribution.hpp", "poisson_distribution.hpp", "uniform_int_distribution.hpp", "uniform_real_distribution.hpp", "triangle_distribution.hpp", "piecewise_constant_distribution.hpp", "discrete_distribution.hpp"],
 [("param()/param_type/operator()(eng, parm)", "each distribution header")])

prop("C23", "Discrete and piecewise selection honours the weights exactly",
 "discrete_distribution never returns an index whose weight is zero or an index outside the table, and with integer weights over a uniform engine each index is produced in exact proportion to its weight; probabilities() are the normalised weights. piecewise_constant and piecewise_linear draw only from sub-intervals of positive weight and stay inside them. Giving boundaries and weights by iterators, by ranges, by an initializer list or through a function evaluated at the documented points describes the same distribution.",
 ["inputs"], "all weight vectors up to the stated length and value bound, all engine outputs",
 "Tests check a few weight vectors statistically; a leak of one alias-table unit is invisible.",
 ["discrete_distribution.hpp", "piecewise_constant_distribution.hpp", "piecewise_linear_distribution.hpp"],
 [("alias table init", "include/boost/random/discrete_distribution.hpp")])

prop("C24", "Engine adaptors deliver exactly the transformed base stream",
 "shuffle_order_engine selects its table slot from the previous output by the standard's formula over the base engine's whole range, independent_bits_engine returns exactly w uniform bits built from the base engine's outputs, and additive and XOR combinations use one output of each component per step. Every adaptor consumes base outputs only as documented.",
 ["inputs", "histories"], "all base-engine outputs; base engines with 8- to 64-bit, offset and non-power-of-two ranges",
 "Tests use one shipped instance per adaptor; slot selection goes wrong only for wide base ranges or particular outputs.",
 ["shuffle_order.hpp", "independent_bits.hpp", "shuffle_output.hpp", "detail/large_arithmetic.hpp"],
 [("slot index computation", "include/boost/random/shuffle_order.hpp operator()"), ("calc_params / assembly", "include/boost/random/independent_bits.hpp")])

prop("C25", "variate_generator applies its distribution to its own engine",
 "A variate_generator yields exactly the sequence the stored distribution would produce from the stored engine, advancing the caller's engine when constructed with a reference or pointer and a private copy when constructed with a value. min(), max(), engine() and distribution() expose the same objects.",
 ["inputs", "histories"], "all engine outputs and distribution parameters, interleaved direct and adapted draws",
 "Tests check statistics, not identity with the underlying sequence for each ownership mode.",
 ["variate_generator.hpp", "detail/ptr_helper.hpp", "random_number_generator.hpp"],
 [("engine()/operator()", "include/boost/random/variate_generator.hpp"), ("ptr_helper", "include/boost/random/detail/ptr_helper.hpp")])

prop("C26", "random_device returns only bytes the system source delivered",
 "Every value returned by random_device consists entirely of bytes delivered by the operating-system source for that call, however the reads are split, and a failed or exhausted source raises an exception instead of returning a value. The descriptor opened by the constructor is the one read and closed.",
 ["fault_sequences"], "all sequences of short reads, end-of-file and errors returned by the system calls, up to the stated number of reads",
 "Tests read a working /dev/urandom only.",
 ["src:random_device".replace("src:random_device", "src/random_device.cpp"), "random_device.hpp"],
 [("impl::next", "src/random_device.cpp")])

prop("C27", "No undefined behaviour in generation, seeding or discarding",
 "For all valid parameters, seeds and engine outputs, the library's generation, seeding, discarding and serialisation code performs no out-of-bounds access, division by zero, signed overflow, over-wide shift or out-of-range float-to-integer conversion. None of the library's own internal assertions can fail.",
 ["inputs", "histories"], "every seed, draw and parameter of the listed engine, adaptor and distribution instances, with the compiler's undefined-behaviour checks as assertions",
 "Sanitizer runs of the tests see only the sampled values.",
 ["linear_congruential.hpp", "mersenne_twister.hpp", "uniform_int_distribution.hpp", "subtract_with_carry.hpp", "lagged_fibonacci.hpp", "discrete_distribution.hpp", "detail/large_arithmetic.hpp", "detail/polynomial.hpp", "seed_seq.hpp"],
 [("unsigned arithmetic helpers", "include/boost/random/detail/signed_unsigned_tools.hpp"), ("BOOST_ASSERT preconditions", "throughout")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
