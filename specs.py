# Which harnesses decide which property, and within which bounds.
# R(harness, bound, witnesses that must be reached, tier): tier "q" runs in both tiers, "t" only in the thorough one.
COMMON_ASSUMPTIONS = [
    "rustc nightly-2023-11-04 (the repository's toolchain), release profile with overflow checks and debug assertions on, panic=abort; the compiler and LLVM optimiser are trusted to preserve behaviour",
    "64-bit little-endian target",
    "memory allocation succeeds up to the executor's size limit; larger requests fail like an exhausted allocator",
]
def R(h, bound="", reach=(), tier="q", **k):
    return dict(h=h, bound=bound, reach=list(reach), tier=tier, **k)
SF = ["--stubfmt"]
SPECS = {
 "P01": dict(crate="abe", runs=[
    R("p01_esc1", "every byte string of length 1", [1]), R("p01_esc3", "every byte string of length 3", [1]),
    R("p01_embed2", "every byte string of length 2, embedded twice in an expression", [1]),
    R("p01_long40", "40 byte strings: any byte at any position, all others any byte that prints as itself", [1]),
    R("p01_esc4", "every byte string of length 4", [1], "t"), R("p01_embed3", "length 3 embedded", [1], "t"), R("p01_long130", "the same with 130 bytes", [1], "t")]),
 "P02": dict(crate="abe", runs=[R("p02_dec5", "every text of 0..=5 bytes with every limit 0..=5", [1, 2]), R("p02_dec6", "every text of 0..=6 bytes, limit 0..=6", [1, 2], "t")]),
 "P03": dict(crate="abe", runs=[R("p03_parse4", "every text of 0..=4 bytes", [1, 2]), R("p03_parse6", "every text of 0..=6 bytes", [1, 2]),
    R("p03_loose4", "every text of 0..=4 bytes, lenient parser", [1]), R("p03_loose5", "0..=5 bytes, lenient parser", [1], "t")]),
 "P04": dict(crate="abe", runs=[R("p04_print3", "expressions of at most 3 nodes, literals of at most 2 arbitrary bytes", [1]), R("p04_print4", "at most 4 nodes, literals of 1 arbitrary byte", [1]),
    R("p04_print5", "at most 5 nodes, literals of 1 byte", [1], "t")]),
 "P05": dict(crate="abe", runs=[R("p05_tok5", "every text of 0..=5 bytes", [1, 2]), R("p05_tok6", "every text of 0..=6 bytes", [1, 2]),
    R("p05_cset3", "every text of 0..=3 bytes with the control characters ':' and '/' switched off and extra plain bytes allowed", [1, 2]), R("p05_cset4", "the same with 0..=4 bytes", [1, 2])]),
 "P06": dict(crate="abe", runs=[R("p06_list2", "lists of at most 2 components of at most 1 byte", [1]), R("p06_list3", "3 components of at most 1 byte", [1]), R("p06_list22", "2 components of at most 2 bytes", [1]), R("p06_delim", "delimiter lists", [1])]),
 "P07": dict(crate="abe", runs=[R("p07_eval5", "every expression tree of at most 5 nodes, all literal bytes symbolic", [1,2,3,4,5,6]), R("p07_eval6", "at most 6 nodes", [1,2,3,4,5,6]),
    R("p07_flat7", "one bracket with any sequence of at most 7 delimiters and literals", [1,2,3,4]), R("p07_flat9", "at most 9", [1,2,3,4]),
    R("p07_args", "calls with up to 18 components, first and chained", [1,6,7,8]), R("p07_scopes", "every combination of three answering / failing / silent scopes in the combinators", [1,2]), R("p07_escope", "function tables: name, argument count, position", [1,2,3]),
    R("p07_eval7", "at most 7 nodes", [1,2,3,4,5,6], "t")]),
 "P08": dict(crate="abe", runs=[R("p08_pad", "all pad/fit functions, argument lengths 0..=3, length text of up to 2 arbitrary bytes or absent, any pad byte", []), R("p08_padlong", "arguments of 12..=21 bytes", []), R("p08_padhuge", "extreme lengths up to 20 decimal digits", []),
    R("p08_cut", "lcut/rcut, arguments 0..=4", []), R("p08_cuthuge", "extreme lengths", []), R("p08_slice", "slices of 0..=5 bytes with small start/end/step", []), R("p08_slicetext", "slice indices as arbitrary text of up to 2 bytes", []),
    R("p08_slicehuge", "slice indices at the integer limits", []), R("p08_replace", "4 byte text, 2 byte pattern", [1,2]), R("p08_replace5", "5 byte text, 3 byte pattern", [1,2]), R("p08_argc", "argument counts 0..=17 and unknown names", []), R("p08_text", "?a ?a0 ~utf8 on values of up to 3 arbitrary bytes", [])]),
 "P09": dict(crate="abe", runs=[R("p09_bin3", "every text of 0..=3 bytes for radix 2, 8, 16", []), R("p09_binlimit", "texts around the 128 bit limit", []), R("p09_b64_0", "", []), R("p09_b64_1", "every value of 1 byte", []), R("p09_b64_2", "every value of 2 bytes", []),
    R("p09_b64_3", "every value of 3 bytes", []), R("p09_b64_4", "every value of 4 bytes", []), R("p09_b64any2", "every text of 2 bytes", []), R("p09_b64any3", "every text of 3 bytes", []), R("p09_mini", "abbreviation of every length up to its limit", []),
    R("p09_bin4", "texts of up to 4 bytes", [], "t")]),
 "P10": dict(crate="abe", runs=[R("p10_parse3", "every text of 0..=3 bytes, all widths", []), R("p10_limits", "decimal texts around each width's limit", []), R("p10_print1", "printing with one arbitrary byte at any place of 1,2,3,8,9,16 bytes", []), R("p10_print2", "every 2 byte value", []),
    R("p10_printbig", "17 byte values and the empty value", []), R("p10_arith2", "+ and - on up to 3 arguments of up to 2 bytes", []), R("p10_arith4", "+ and - on up to 3 arguments of up to 4 bytes", []), R("p10_wide", "16 byte operands", []),
    R("p10_parse4", "texts of up to 4 bytes", [], "t"), R("p10_print3", "3 byte values with 2 arbitrary bytes", [], "t")]),
 "P11": dict(crate="abe", runs=[R("p11_fit", "values of 0..=6 arbitrary bytes into sizes 0..=5", [])]),
 "P13": dict(crate="abe", runs=[R("p13_conf1", "one entry of at most 3 components", [1,2,3,4]), R("p13_conf2", "two entries of at most 2 components", [1,2,3,4]), R("p13_conf3", "two entries of at most 3 components", [1,2,3,4]),
    R("p13_text1", "one entry of at most 2 components with arbitrary bytes", [1]), R("p13_text2", "two entries", [1]), R("p13_any4", "every text of 0..=4 bytes as a configuration", [1,2]), R("p13_argv", "argument vectors of at most 3 one byte arguments, index text of at most 2 bytes", [1,2,3,4]), R("p13_argvslice", "argv slices with arbitrary index text", [1,2])]),
 "P14": dict(crate="abe", runs=[R("p14_enc1", "every value of 1 byte and the empty value, every encoder of the core scope", []), R("p14_enc2", "every value of 2 bytes", []), R("p14_enc3", "every value of 3 bytes", []), R("p14_enclong", "values of up to 17 bytes with an arbitrary byte anywhere", []),
    R("p14_opts", "encoder option lists of up to 3 arbitrary bytes", [1,2,3]), R("p14_lens", "length options", []), R("p14_funcs", "the encode functions and macros on values of 2 bytes", [1,2,3])]),
 "P15": dict(crate="abe", runs=[R("p15_test", "size?/val? on values and arguments of up to 2 bytes", []), R("p15_or", "or over up to 3 alternatives of at most one literal, delimiter, succeeding or failing call", [1,2], opts=["--stubfmt"]), R("p15_orseq", "up to 2 alternatives of up to 2 such items", [1,2], opts=["--stubfmt"])]),
 "P12": dict(crate="abe", runs=[R("p12_typed3", "every text of 0..=3 bytes as a typed expression of 7 target types", [1,2,3,4,5]), R("p12_typed4", "every text of 4 bytes", [1,2,3,4,5]), R("p12_typedcall", "expressions calling [b2:xy] with arbitrary bytes", [1,2,3,4,5])]),
 "P20": dict(crate="abe", runs=[R("p20_fit", "values of 0..=5 arbitrary bytes into sizes 0,1,2,3,4,16", [1,2]), R("p20_fitlong", "15..=17 bytes into 16 and 32", [1,2]), R("p20_text1", "every 1 byte value", [1]), R("p20_text3", "every 3 byte value", [1]), R("p20_text16", "16 bytes, any byte anywhere", [1]),
    R("p20_utf8", "every 3 byte value", []), R("p20_parse4", "every text of 0..=4 bytes into sizes 0,1,2,4", [1,2]), R("p20_parse5", "0..=5 bytes", [1,2]), R("p20_abe1", "every 1 byte value", [1]), R("p20_abe2", "every 2 byte value", [1]), R("p20_abe3", "every 3 byte value", [1]), R("p20_abe16", "16 bytes, null / 255 prefixes, any byte anywhere", [1]),
    R("p20_u128", "every 16 byte value", []), R("p20_list", "lists of at most 2 components of at most 2 bytes", [])]),
 "P21": dict(crate="abe", runs=[R(f"p21_{e}{n}", f"every pair of {n} bit values", [1,3]) for e in ("be","le") for n in (16,32,64,128)] + [R("p21_text16", "every 16 bit value", [1,3], "t"), R("p21_text_be", "16..128 bit big endian values with an arbitrary byte anywhere, all others 0 or all 255", [1,3]), R("p21_text_le", "the same, little endian", [1,3]),
    R("p21_bits", "every 2 byte value", [1]), R("p21_parse", "every text of 0..=3 bytes", [1,2])]),
 "P22": dict(crate="abe", runs=[R(f"p22_text{n}", f"every value of {n} bytes", [1]) for n in range(4)] + [R("p22_text4", "every value of 4 bytes", [1], "t"), R("p22_text32", "32 byte values, any byte anywhere", [1]), R("p22_any", "every text of 0..=3 bytes into sizes 0..=3", [1,2]), R("p22_any4", "every text of 4 bytes", [1,2]), R("p22_list", "lists of at most 2 components of at most 2 bytes", [1,2]),
    R("p22_abe1", "every 1 byte value", [1]), R("p22_abe2", "every 2 byte value", [1]), R("p22_abe3", "every 3 byte value", [1], "t"), R("p22_abe32", "32 byte values, any byte anywhere", [1]), R("p22_num", "every pair of 32 byte values", [])]),
 "P16": dict(crate="abe", runs=[R("p16_match3", "every sequence of at most 3 items", [1,2,3,4]), R("p16_match5", "at most 5 items", [1,2,3,4], opts=["--stubfmt"]), R("p16_replace3", "expressions of at most 3 nodes, patterns of at most 2 items, 3 replacements", [1,2]), R("p16_replace4", "at most 4 nodes", [1,2]), R("p16_dump", "expressions of at most 4 nodes", [])]),
 "P17": dict(crate="abe", runs=[R("p17_func1", "every function of the basic scope with at most 4 arguments of at most 1 arbitrary byte, first and chained", [1,2]), R("p17_func2", "at most 3 arguments of at most 2 bytes", [1,2]), R("p17_macro", "every macro with any sequence of at most 4 items", [1,2]),
    R("p17_text3", "every text of at most 3 bytes in brackets", [1,2], nochecks=True), R("p17_text4", "at most 4 bytes", [1,2], nochecks=True), R("p17_text5", "at most 5 bytes", [1,2], nochecks=True), R("p17_names", "every name of at most 3 bytes", []), R("p17_text6", "at most 6 bytes", [1,2], "t", nochecks=True)]),
 "P18": dict(crate="abe", runs=[R("p18_wrap", "11 wrappers around a scope with every kind of answer, arbitrary name, argument, position and environment", [1,2,3]), R("p18_absent", "names of at most 2 bytes", []), R("p18_result", "every kind of result", [1,2,3])]),
 "P30": dict(crate="crypto", runs=[R("p30_segments", "every list of at most 5 segments of at most 2 bytes, all bytes arbitrary", [30], loose=True), R("p30_many", "up to 19 segments, one of up to 65 bytes", [30], loose=True), R("p30_differ", "every pair of contents of at most 4 bytes, each cut in two anywhere", [31,32], loose=True)]),
 "P31": dict(crate="crypto", runs=[R("p31_sign", "every secret and digest", [33], loose=True, opts=["--stubfmt"]), R("p31_forge", "secrets with one free byte, any two digests, any 64 byte signature", [34,35,36], loose=True, opts=["--stubfmt"]),
    R("p31_key", "pairs of secrets with one free byte each", [37,38], loose=True, opts=["--stubfmt"]), R("p31_anykey", "any 32 byte name", [39], loose=True, opts=["--stubfmt"])]),
 "P40": dict(crate="crypto", runs=[R("p40_roundtrip", "secrets with one free byte at three places, passwords of at most 2 arbitrary bytes", [40], loose=True), R("p40_costs", "6 cost settings, secrets with one free byte, passwords of one arbitrary byte", [40], loose=True),
    R("p40_otherpw", "every two different passwords of at most 2 arbitrary bytes, bare or with 70 common bytes before or after", [41], loose=True), R("p40_hidden", "secrets with one free byte, passwords of at most 2 bytes", [42], loose=True)]),
 "P41": dict(crate="crypto", runs=[R("p41_edited", "a well formed identity with any one byte replaced, inserted or removed, cut at any place, or without any one field", [43,44,45], loose=True), R("p41_short", "any 0..=5 bytes after each field of the fixed head", [45], loose=True, nochecks=True), R("p41_costs", "any 0..=4 bytes as one of the costs", [44,45], loose=True)]),
 "P50": dict(crate="ipcbus", runs=[R("p50_seq", "every sequence of 3 emissions of 64 bit values, sending working or failing", [50]), R("p50_race", "one emission with up to two emissions of other threads at any of its scheduling points (nested), up to 2 spurious exchange failures, every value", [51,52]),
    R("p50_look", "two readers and one emission at any scheduling point of another", [51,52]), R("p50_wait", "a waiting task polled at any point of one or two emissions", [53]), R("p50_waiters", "up to 3 waiting tasks, one cancelled", [54]), R("p50_deadline", "waits with a passed deadline", [55])]),
 "P51": dict(crate="ipcbus", runs=[R("p51_any", "any datagram of 0,1,7,8,9,11,12,13,19,20,21,24,28,40 bytes from any address, interrupted receives before or after", [57,58]), R("p51_own", "the same behind the right bus id", [56,57,58]), R("p51_order", "4 deliveries, in any order with repetition, of messages of two processes and another bus", [59]),
    R("p51_both", "a local emission and a reader at any scheduling point of the listener", [60])]),
 "P52": dict(crate="ipcbus", runs=[R("p52_seq", "3 requests for any bus ids, equal or not", [63]), R("p52_two", "another process asking while this one waits for the lock", [64]), R("p52_crash0", "a process dying at any file effect of its request, a write cut after 0..=11 bytes, with or without a torn entry left before; no earlier entry", [65,66]),
    R("p52_crash", "one earlier entry", [65,66]), R("p52_crash2", "two earlier entries, a write cut after 0..=31 bytes", [65,66]), R("p52_anyfile", "a map file of any 0..=22 bytes", [67])]),
 "P53": dict(crate="ipcbus", runs=[R("p53_local", "any bus id and values, up to 2 earlier buses", [61,62])]),
 "P60": dict(crate="pkt", runs=[R("p60_head", "any bytes of 13 lengths up to 80, at addresses aligned and not", [60,61], opts=SF), R("p60_data", "88 bytes, data and error points, every content size", [60,61], opts=SF), R("p60_link", "144 bytes, link points, every size and offset", [60,61], opts=SF),
    R("p60_link_off", "136 bytes at an unaligned address", [60,61], opts=SF), R("p60_links", "188 bytes, room for a link and a space of one component", [60,61], opts=SF), R("p60_key", "240 bytes, signed points", [60,61], opts=SF), R("p60_size", "every value of the 16 bit size", [62,63], opts=SF)]),
 "P61": dict(crate="pkt", runs=[R("p61_data", "data of 0..=17 arbitrary bytes", [64], opts=SF), R("p61_error", "error points of 0..=8 bytes", [64], opts=SF), R("p61_link", "link points of at most 1 component, 2 links, 8 data bytes, all fields arbitrary", [64], opts=SF), R("p61_space", "spaces of 0..=8 one byte components", [64], opts=SF),
    R("p61_key", "signed points of at most 1 component, 1 link, 8 data bytes", [64], opts=SF), R("p61_wrap", "6 stacks of wrappers around link and signed points", [65], opts=SF), R("p61_layout", "allocation sizes of every representation, data of 0..=8 bytes", [71], opts=SF)]),
 "P62": dict(crate="pkt", runs=[R("p62_tamper", "link and signed points of at most 1 component and 1 data byte, any one byte of hash or point replaced by any other", [66], opts=SF), R("p62_header", "any net header", [67], opts=SF), R("p62_resign", "any one byte of a signed point replaced, hash recomputed", [68], opts=SF), R("p62_accept", "any 232 bytes as a small data, link or signed point", [69,70], opts=SF)]),
 "P63": dict(crate="pkt", runs=[R("p63_any", "any 0..=5 bytes", [72,73], opts=SF), R("p63_depth", "0..=11 components of one arbitrary byte", [74], opts=SF), R("p63_ops", "up to 2 and up to 2 more components of 1 or 2 bytes", [75], opts=SF), R("p63_split", "up to 3 components of 1 or 2 bytes", [76], opts=SF), R("p63_limits", "3 components of 13 lengths around each limit, in every order", [77], opts=SF),
    R("p63_text", "up to 2 components of 1 or 2 arbitrary bytes", [84]), R("p63_text16", "one component of 15..=33 bytes with an arbitrary byte anywhere", [84]), R("p63_si", "up to 3 components, indices 0..=10", [85,86])]),
 "P64": dict(crate="pkt", runs=[R("p64_any", "any 0..=12 bytes", [78,79], opts=SF), R("p64_eight", "any index before 7, 8 or 9 components", [78,79], opts=SF), R("p64_append", "up to 4 components of 1 or 2 bytes", [78,80], opts=SF), R("p64_limits", "10 components around the size limit", [78,81], opts=SF), R("p64_range", "up to 3 components, every range", [83], opts=SF), R("p64_deep", "5..=8 components", [78,82], opts=SF)]),
 "P65": dict(crate="pkt", runs=[R("p65_key", "all fields arbitrary, up to 3 components of 1 or 2 bytes", [90], opts=SF), R("p65_raw", "any bytes of 10 lengths around the smallest key", [91]), R("p65_order", "every pair of link or signed points, one arbitrary byte (first or last) in each fixed field, up to 1 component of up to 2 bytes", [92,93], opts=SF),
    R("p65_value", "every kind of point, up to 2 components, 2 links, 3 data bytes", [94,95], opts=SF), R("p65_cmp", "every pair of data, link or signed points", [96,97], opts=SF)]),
 "P67": dict(crate="pkt", runs=[R("p67_space", "every shape up to 2 components, 2 links, 9 data bytes, signed or not", [98], opts=SF), R("p67_over", "data at and beyond the computed limit", [99,100], opts=SF), R("p67_links", "6 numbers of links around the limit", [101,102], opts=SF)]),
 "P68": dict(crate="pkt", runs=[R("p68_fields", "all 29 fields of every kind of point, all contents arbitrary", [103], opts=SF), R("p68_ids", "every name of 0..=11 bytes", [104], opts=SF), R("p68_route", "every field, any header, any new value", [105], opts=SF), R("p68_scope", "every field by name in three spellings", [106], opts=SF), R("p68_abe", "10 fields in expression form", [107]), R("p68_links", "up to 2 links with any tags, any tag and any suffix of 0,1,2,16,17 bytes", [108,109,110], opts=SF)]),
 "P69": dict(crate="pkt", runs=[R("p69_stamps", "any stamp, durations of 4x256 seconds and 3x256 nanoseconds around the limits", [111], opts=SF), R("p69_delta", "every pair of stamps", [112], opts=SF), R("p69_time", "5x256 stamps", [113], opts=SF)]),
}
