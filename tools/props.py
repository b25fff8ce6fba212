LC = ["lcrng/__init__.py", "lcrng/lcrng32.py", "lcrng/lcrng64.py"]
BV = "Every input bit pattern within the stated bounds; float, numpy-scalar and LLVM semantics as modelled; trusts z3."

prop("C01", "LCRNG step law", "For each of the ten published linear congruential generators, every draw maps the seed s to (mult*s + add) mod 2^32 (mod 2^64 for the Gen 5 ones) with the published constants (mult 0x41C64E6D add 0x6073; 0x6C078965 and 1; 0x343FD and 0x269EC3; 0x5D588B656C078965 and 0x269EC3) or their inverse map for the reversed generators. The full draw returns the new seed and the half-width draw returns its upper half, after construction as well as after re-initialisation, compiled or not.",
     ["inputs", "configurations"], "every seed of the generator's width, three consecutive draws, re-initialisation; numpy and numba mode; all ten classes",
     "tests draw from a handful of seeds of some classes", LC, [("next_", "lcrng32.py wrap / lcrng64.py wrap"), ("constants", "lcrng/__init__.py")],
     state=[("seed", "current state", "LCRNG32.seed / LCRNG64.seed")], observe=["next", "next_u16", "next_u32", "seed", "re_init"], note=BV)
prop("C02", "Reversed LCRNGs undo their forward partners", "Stepping a forward generator and then its reversed partner (or the other way round) the same number of times, or jumping both by the same distance, restores the original seed for every seed.",
     ["inputs", "histories"], "every seed; three steps each way, interleavings; jumps of 0 to 63 there and back",
     "no existing test pairs a generator with its reversed partner", LC, [("mod_inv and -add*mult", "lcrng32_init / lcrng64_init"), ("mod_inv", "compatability.py")],
     observe=["next", "jump", "seed"], note=BV)
prop("C03", "LCRNG jump, const_jump and advance equal repeated draws", "For every seed and every distance n, jump(n), a function built by const_jump(n), and advance(n) all leave the generator exactly where n single draws would and return the resulting seed, also between other draws; distances may be Python ints or numpy unsigned scalars of the generator's width.",
     ["inputs", "histories"], "every seed; every n < 2^32 (2^64) for jump; const_jump for every n whose set bits lie in one 6-bit window (every n in the thorough tier); advance for n < 8",
     "tests jump a few fixed distances from fixed seeds", LC, [("jump_table", "lcrng32_init / lcrng64_init"), ("jump, const_jump", "wrap()"), ("advance", "LCRNG32/LCRNG64")],
     observe=["jump", "const_jump", "advance", "seed"], note=BV + " Compiled const_jump functions are checked for seven fixed distances per class.")
prop("C04", "LCRNG bounded draws follow their distribution and stay in range", "For every seed and every maximum >= 1 that fits the documented type, next_rand(maximum) and functions built by const_rand(maximum) consume exactly one draw and return the published distribution of its upper half u: u mod maximum (modulo), u div (0xFFFF div maximum + 1) (reciprocal division), (u * maximum) >> 32 (multiplication-shift). The result is always below maximum and no maximum >= 1 raises.",
     ["inputs"], "every seed, every maximum 1..65535 (1..2^32-1 for the 64-bit generators)",
     "tests draw with one or two maxima", LC, [("next_rand, const_rand", "wrap() of lcrng32_init / lcrng64_init")], observe=["next_rand", "const_rand"], note=BV + " Compiled const_rand functions: eight fixed maxima per class.")
MT = ["mersenne_twister/mt.py", "mersenne_twister/sfmt.py", "mersenne_twister/tinymt.py"]
prop("C05", "MT19937 reference law", "For every 32-bit seed MersenneTwister produces the reference MT19937 sequence: Knuth initialisation, state regeneration every 624 draws by the twist recurrence, and tempering of each word; re-initialisation equals a fresh construction whatever was drawn before.",
     ["inputs", "histories"], "every 32-bit seed (initialisation), every 624-word state and index (regeneration, one draw)",
     "tests compare some draws for a few seeds", ["mersenne_twister/mt.py"], [("re_init", "mt.py"), ("shuffle", "mt.py"), ("next tempering", "mt.py")],
     state=[("state", "624 words", "MersenneTwister.state"), ("index", "next word", "MersenneTwister.index")], observe=["next", "shuffle", "re_init", "state", "index"], note=BV)
prop("C06", "SFMT19937 reference law", "For every 32-bit seed SIMDFastMersenneTwister produces the reference SFMT19937 64-bit sequence: initialisation with period certification, state regeneration by the 128-bit recurrence, and 64-bit words assembled low half first.",
     ["inputs", "histories"], "every 32-bit seed (initialisation), every 624-word state and even index (regeneration, draw)",
     "tests compare some draws for a few seeds", ["mersenne_twister/sfmt.py"], [("re_init", "sfmt.py"), ("sfmt_shuffle, sfmt_shuffle_ir", "sfmt.py"), ("next", "sfmt.py")],
     state=[("state", "624 words", "SIMDFastMersenneTwister.state")], observe=["next", "shuffle", "re_init", "state", "index"], note=BV)
prop("C07", "TinyMT reference law", "For every 32-bit seed TinyMersenneTwister performs the reference TinyMT32 initialisation (with the all-zero fallback) and eight warm-up steps, and each draw applies one state transition and the tempering; every returned word is below 2^32, compiled or not.",
     ["inputs", "histories"], "every seed; every 128-bit state for one transition and tempering",
     "tests compare few draws of few seeds; a carry in the tempering sum shows only on rare states", ["mersenne_twister/tinymt.py"], [("re_init", "tinymt.py"), ("shuffle, temper", "tinymt.py")],
     state=[("state", "4 words", "TinyMersenneTwister.state")], observe=["next", "shuffle", "temper", "re_init"], note=BV)
prop("C08", "Twister advance equals discarded draws", "advance(n) of each Mersenne Twister leaves the generator in the same observable position as n discarded draws, wherever in the state block it is called.",
     ["inputs", "histories"], "every state and every position in it; n small, around the block boundaries, and (arithmetic of the distance) every 32-bit n with the regeneration abstracted",
     "the position within the block and the wrap of the distance are not sampled by the tests", MT, [("advance", "mt.py, sfmt.py, tinymt.py")], observe=["advance", "next", "index"], note=BV)
prop("C09", "Twister bounded draws", "next_rand and next_rand_mod of the Mersenne Twister generators return the published multiplication-shift or modulo image of exactly one draw, always below maximum.",
     ["inputs"], "every generated word (arbitrary state), every maximum >= 1 of the documented width", "tests use a few maxima", MT, [("next_rand, next_rand_mod", "mt.py, sfmt.py, tinymt.py")], observe=["next_rand", "next_rand_mod"], note=BV)
XS = ["xorshift/xorshift128.py", "xorshift/xoroshiro128plus.py", "util.py"]
prop("C10", "Xorshift and Xoroshiro forward laws", "Xorshift128 follows its 11/8/19 recurrence and both Xoroshiro128+ variants follow the 24/16/37 recurrence with output s0+s1 (upper half for the splitmix variant) from every state; the splitmix variant seeds its state by the published splitmix64 finaliser, and the rejection variant defaults its second word to 0x82A2B175229D6A5B.",
     ["inputs"], "every 128-bit state, every 64-bit seed", "tests draw from a few seeds", XS, [("next", "xorshift128.py, xoroshiro128plus.py"), ("splitmix, re_init", "xoroshiro128plus.py"), ("rotate_left_u64", "util.py")], observe=["next", "state", "re_init"], note=BV)
prop("C11", "Xorshift-family previous inverts next", "previous() restores the state before the last next() from every state, and next() after previous() restores it too; Xorshift128.previous returns the value the undone draw had returned, and the Xoroshiro variants return the value the next draw will return.",
     ["inputs", "histories"], "every 128-bit state; two steps forward and back, interleaved", "tests walk back from one seed", XS, [("previous", "xorshift128.py, xoroshiro128plus.py"), ("rotate_right_u64", "util.py")], observe=["previous", "next", "state"], note=BV)
prop("C12", "Xorshift-family bounded draws", "next_rand, next_randrange, next_alternate_rand and next_float_randrange return the published image of the consumed draws, inside the requested range: modulo for Xorshift128 and the splitmix variant, masked rejection sampling (first masked draw below the maximum) for the rejection variant; advance(n) equals n draws.",
     ["inputs", "histories"], "every state, every maximum / range of the documented type; rejection sampling up to three rejected draws; floats over every 23-bit draw for stated ranges",
     "tests use few maxima", XS, [("next_rand, next_randrange, next_alternate_rand, next_float_randrange", "xorshift128.py"), ("next_rand, bit_mask", "xoroshiro128plus.py")], observe=["next_rand", "next_randrange", "next_alternate_rand", "next_float_randrange", "advance"], note=BV)
prop("C14", "SHA-1 seed hash", "For every message block the Gen 5 initial-seed hash is the byte-swapped leading 64 bits of SHA-1's compression of it, advanced once by the Gen 5 LCRNG.",
     ["inputs"], "every value of all sixteen message words that the setters can change, chained over the 80 rounds",
     "tests hash a few messages", ["sha1.py"], [("hash_seed, precompute", "sha1.py")], observe=["hash_seed"], note=BV)
prop("C15", "SHA-1 message layout", "The message words encode exactly the documented fields: game- and hardware-specific constants, timer0 and vcount, MAC address and GxStat with the frame and soft-reset bits, date with weekday in BCD, time in BCD with the DS pm flag, and inverted button state.",
     ["inputs", "configurations"], "every field value, every supported version / language / hardware combination", "tests use a few combinations", ["sha1.py", "enums/"], [("__init__, set_date, set_time, set_button, set_timer", "sha1.py")], observe=["message data", "hash_seed"], note=BV)
prop("C16", "SHA-1 object reuse has no history", "Setting fields in any order, several times, and hashing repeatedly gives the same seed as a fresh object with the final field values.",
     ["histories", "inputs"], "every pair of field values, all orders of two updates per setter and repeated hashing", "tests build one object per case", ["sha1.py"], [("setters, hash_seed, precompute", "sha1.py")], observe=["hash_seed"], note=BV)
prop("C17", "RNGList is a faithful window over its generator", "After any sequence of advance_state, advance_states, advance and get_value calls, a list of size 2^k returns exactly the generator's outputs from the current window, wrapping within it, for every supported generator, draw function and element type.",
     ["histories", "inputs"], "every seed; histories of bounded length with symbolic choices and distances; sizes 1 to 8", "no test covers it", ["rng_list.py"], [("build_rnglist, SpecificRNGList", "rng_list.py")],
     state=[("head, pointer", "window start and read position", "SpecificRNGList")], observe=["get_value"], note=BV)
prop("C18", "Bit utilities", "Byte swap, 32- and 64-bit rotations and the hexadecimal formatter are exact for every value (rotation counts 1 to width-1, and rotations are mutual inverses).",
     ["inputs"], "every value and count", "no test covers them directly", ["util.py"], [("change_endian_u32, rotate_*, hex_32", "util.py")], observe=["return values"], note=BV)
prop("C19", "FNV hashes", "fnv1_64 and fnv1a_64 equal the published 64-bit FNV-1 and FNV-1a of the code points of every string.",
     ["inputs"], "every string of up to 6 characters, any code points", "marked untested in the source", ["fnv.py"], [("fnv1_64, fnv1a_64", "fnv.py")], observe=["return value"], note=BV)
G3 = ["gen3/encounter_area_3.py", "gen3/wild_generator_3.py", "gen3/state.py", "gen3/util.py"]
prop("C20", "Gen 3 encounter slot tables and rates", "For every roll 0..99 the slot chosen equals the published cumulative slot distribution of the encounter method (grass 20/20/10/10/10/10/5/5/4/4/1/1, surf and rock smash 60/30/5/4/1, old rod 70/30, good rod 60/20/20, super rod 40/40/15/4/1), and the area's encounter rate is the one of the same method.",
     ["inputs"], "every roll, every encounter method, arbitrary rates", "no test covers gen3", ["gen3/encounter_area_3.py"], [("compute_table, calc_slot, get_encounter_rate", "gen3/encounter_area_3.py")], observe=["slot index", "encounter rate"], note=BV)
prop("C21", "Gen 3 encounter levels", "The level of an encounter lies within the slot's minimum and maximum and equals minimum + draw mod span; a pressure-type lead forces the maximum exactly when its check succeeds.",
     ["inputs"], "every slot level pair, every draw", "no test covers gen3", ["gen3/encounter_area_3.py", "gen3/wild_generator_3.py"], [("calc_level", "gen3/encounter_area_3.py")], observe=["level"], note=BV)
prop("C22", "Gen 3 lead-modified slots", "A type-attracting lead picks only among the slots whose species carries that type, by the lead's draw modulo their number, and leaves the choice alone when there is none.",
     ["inputs"], "every assignment of types to slots, every draw", "no test covers gen3", ["gen3/encounter_area_3.py", "enums/lead.py"], [("calc_slot with lead", "gen3/encounter_area_3.py")], observe=["slot index"], note=BV)
prop("C23", "Gen 3 wild generation", "Each reported state is the one the game generates from the state's advance: encounter check, slot, level, nature, PID and IVs come from consecutive draws in the order of the chosen method, and consecutive advances report independently of which earlier ones failed.",
     ["inputs", "configurations", "histories"], "every seed, methods 1/2/4, encounter types, leads; bounded number of advances and PID rerolls", "no test covers gen3", G3, [("WildGenerator3.generate", "gen3/wild_generator_3.py")], observe=["generated states"], note=BV)
prop("C24", "PID-derived attributes", "Nature, ability, gender, shininess and hidden power of a state are the published functions of its PID, IVs, trainer id and gender ratio.",
     ["inputs"], "every PID, IV set, trainer id, secret id and gender ratio", "no test covers gen3", ["gen3/state.py", "gen3/util.py"], [("State, get_gender, get_shiny", "gen3/")], observe=["state attributes"], note=BV)
prop("C25", "Stat calculation", "Each computed stat is the published formula of base stat, IV and level, raised or lowered by ten percent exactly for the stat the nature names.",
     ["inputs"], "every base stat, IV, level and nature", "no test covers it", ["gen3/state.py", "util.py"], [("compute_stat, NATURE_MODIFIERS", "util.py")], observe=["stats"], note=BV)
prop("C26", "Personal tables", "Every game flag is distinct and selects its own personal table, whose entries decode the packed fields at their published offsets.",
     ["inputs", "configurations"], "every entry byte pattern, every game flag", "no test covers it", ["data/personal/", "enums/game.py"], [("get_info_table, PersonalInfo", "data/personal/")], observe=["fields"], note=BV)
prop("C27", "Gen 3 encounter data", "The encounter tables of each generation 3 game hold exactly what its data file says: one area per entry of that game, in file order (unused and repeated Altering Cave entries keep their place but stay empty), named after its map, with its own index, every rate, every slot's level range and national species number under the right method (rods split 2/3/5), and each Tanoby chamber's land slots carrying their Unown letter.",
     ["inputs", "configurations"], "every rate and level, every presence pattern of the four kinds of encounters, each game, files of up to three entries, all seven chambers, every species of the shipped files", "no test covers it", ["data/encounter/__init__.py", "data/encounter/encounter_area_3.py"], [("load_encounter_3, clean_map_string", "data/encounter/__init__.py")], observe=["areas", "map names"], note="Resource reading and JSON parsing are stand-ins that hand the loader a symbolic document; the loader is the repository's source; trusts z3.")
prop("C28", "FlatBuffer reader", "Reading a FlatBuffer gives back exactly what an encoder stored: the table, sub-table, vector, string and number accessors (at a position or at the running counter) return the stored value, sign and width included, or the given default where the field is absent from the vtable or beyond its end; the Legends Arceus record classes take every attribute from its field of the layout, and their lists and lookup tables hold every record under its key.",
     ["inputs"], "every field value, every presence pattern within bounds (any two fields of a record absent, vtables of any length), four placements of vtables and fields, arrays of up to three records, strings of up to three characters", "no test covers it", ["data/fbs/flatbuffer_object.py", "data/fbs/encounter_la.py"],
     [("read_*, read_init_*", "flatbuffer_object.py"), ("record layouts, lookups", "encounter_la.py")], observe=["fields", "lists", "lookups"], note="Every value and presence pattern within the stated bounds; the flatbuffers package's offset arithmetic runs as it is, its number decoding is modelled; trusts z3.")
prop("C29", "Legends Arceus encounter tables", "Loading an area's encounter tables resolves every record: a slot's levels are its override where that is 1 to 100 and the table's otherwise, raised for alphas by the boost (15, 15, 15, 20, 20) of the species' alpha level index; each time and weather multiplier is the slot's own unless negative, else that of its species and form unless negative, else 1; all other fields are copied, an absent form or IV count being 0; and the same tables come back from the cache.",
     ["inputs", "histories"], "every field value and 32-bit level override, every multiplier that is a multiple of a quarter from -1 up to 6.75, tables of up to two slots (three in the thorough tier), each loaded fresh and again from the cache", "no test covers it", ["data/encounter/__init__.py", "data/encounter/encounter_area_la.py"], [("load_encounter_tables_la", "data/encounter/__init__.py")], observe=["slots"], note="The records are stand-ins for what C28 decodes, the file system that of C31; the loader is the repository's source; trusts z3.")
prop("C30", "Legends Arceus slot selection", "calc_slot chooses the first slot whose cumulative weight exceeds draw * total weight, a slot's weight being base probability times the multipliers of the given time and weather only, and leaves the area's slots and identity unchanged.",
     ["inputs"], "every draw k/2^24 and weight on which the arithmetic is exact (k/2^8 in compiled mode, which computes in single precision), one to three slots (five in the thorough tier), every weather with some time", "no test covers it", ["data/encounter/encounter_area_la.py"], [("calc_slot", "encounter_area_la.py")], observe=["slot"], note=BV)
prop("C31", "Derived-data cache is crash-safe", "Whatever point one or two runs are interrupted at (killed, interrupted from the keyboard, or failing on a full disk) while storing a computed table in the user cache, or while another run stores the same table, every later run gets the complete computed table of its own argument; a completely stored table is reused instead of computed again, and tables of different arguments or loaders never replace each other.",
     ["crash_points", "histories", "schedules", "fault_sequences"], "every file system step of the store, every prefix of unflushed data, both initial states of the cache, two interrupted runs, two concurrent runs with two changes of control (three in the thorough tier)", "no test interrupts a run", ["data/encounter/__init__.py"],
     [("pickle_cached", "data/encounter/__init__.py"), ("load_encounter_tables_3, load_encounter_tables_la", "data/encounter/__init__.py")], observe=["returned table", "cache file"], note="File system, pickle and the loaders' computation are models (one atomic step per operation, rename atomic); the functions under test are the repository's source; trusts z3.")
