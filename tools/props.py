# The properties: id -> (title, statement, over, quantifier text, why tests cannot, files, mechanisms[(name, where)], observe_at)
PROPS = {}
def P(id, title, statement, text, why, files, mech, over=("inputs",), observe=None):
    PROPS[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                     anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **({"observe_at": observe} if observe else {})))
A = "crates/abe/src/"
P("P01", "Every byte string has an escaped text that reads back to exactly it",
  "Escaping any byte string as abe text yields printable ascii in which bytes without special meaning appear as themselves and the rest as their documented escape; decoding that text gives the same bytes. The text stays one literal (no delimiter, no bracket) wherever it is placed inside an expression, and an already plain string is passed through unchanged.",
  "all byte strings of length 1..=3 (4 in thorough), 2 embedded in an expression; 40 byte strings with an arbitrary byte at an arbitrary position",
  "The one unit test escapes a fixed list of strings; each byte value at each position and next to each other byte is not tried.",
  [A + "abtxt.rs"], [("escape tables and writer", A + "abtxt.rs (byte2abtxt, as_abtxt, as_abtxt_c, escape_default)")])
P("P02", "Decoding text to bytes is exact, strict and respects the length limit",
  "For every text, decoding a delimiter-free abe string into bytes either yields exactly the bytes its characters and escapes denote, or reports an error; it fails exactly when the text has an unescaped control character, a non printable byte, an unknown or incomplete escape, or denotes more bytes than the limit. It never panics and never reports bytes beyond the limit.",
  "all texts of 0..=5 arbitrary bytes (6 in thorough) with every limit 0..=5",
  "Malformed escapes at the end of the input, at the limit, and every non-ascii byte are not in the tests.",
  [A + "abtxt.rs", A + "ast.rs"], [("next_byte token reader", A + "abtxt.rs (next_byte, abtxt_no_ctr, parse_abtxt_upto_max)")])
P("P03", "The expression parser accepts exactly the language and printing is canonical",
  "For every text, parsing it as an expression succeeds exactly when brackets balance and every other character is a printable literal, a documented escape or one of the two delimiters; the tree it gives prints as the canonical text of the input (same structure, each literal byte in its escaped form). The lenient parser accepts the same language plus raw non printable bytes, taken as themselves, and agrees with the strict parser on text both accept; neither ever panics.",
  "all texts of 0..=6 arbitrary bytes (strict), 0..=4 (lenient; 5 in thorough)",
  "The unit tests parse a handful of well formed expressions; the reject side and odd nestings are not covered.",
  [A + "ast.rs", A + "abtxt.rs"], [("parser", A + "ast.rs (parse_abe_b, parse_abe_strict_b, parse_abe_with_unencoded_b)"), ("printer", A + "ast.rs (print_abe, Display)")])
P("P04", "Any expression tree printed as text parses back to the same tree",
  "For every expression tree (literals of arbitrary bytes, delimiters, nested lists; adjacent literals merged) the printed text parses to an equal tree, and printing the pieces one by one gives the same text as printing the whole.",
  "all trees of at most 3 nodes with literals of up to 2 arbitrary bytes, 4 nodes with 1 byte literals (5 in thorough)",
  "Tests print a few trees; the interaction of literal bytes with neighbouring delimiters is a property of all pairs.",
  [A + "ast.rs"], [("printer and parser", A + "ast.rs (print_abe, parse_abe_b)")])
P("P05", "Splitting text at top-level delimiters loses nothing and respects brackets",
  "Splitting any text into delimiter separated components cuts exactly at the delimiters that stand outside brackets and are not escaped, reports each component's delimiter, bracket depth-balanced text and whether it contains bracket expressions, and joining the components gives the text back (an empty last component is not reported). Unbalanced brackets, bad escapes and disallowed bytes are reported as an error instead; switching a delimiter off in the character set makes it ordinary text and allowing extra bytes makes those pass.",
  "all texts of 0..=6 arbitrary bytes; 0..=4 with each character set variation",
  "The tests split a few sample strings.",
  [A + "abtxt.rs", A + "ast.rs"], [("tokenizer", A + "ast.rs (tokenize_abe_b, ABTokenizer) and abtxt.rs (CtrSet, Token)")])
P("P06", "A list value keeps its components and delimiters through every view of it",
  "For every list of delimited components, concatenation, text form, reparsing and evaluating that text, the expression items, per-component iteration and removal of the first component all describe the same sequence of (delimiter, bytes). Extracting a value as exact bytes succeeds only for a list without delimiters, and the empty list behaves as an empty sequence everywhere (no panic).",
  "all lists of at most 2 components of at most 2 arbitrary bytes, or 3 components of at most 1 byte, with either delimiter or none in front",
  "Tests look at single values; combinations of empty components and leading delimiters are never enumerated.",
  [A + "eval.rs"], [("ABList", A + "eval.rs (ABList: push, concat, Display, items, iter_bytes, pop_front, as_exact_bytes, clist, flist)")])
P("P07", "Evaluation calls the right function with the right arguments, first scope wins",
  "Evaluating an expression replaces each bracket, inner ones first and left to right, by the result of the named function applied to its ':' separated arguments, feeds that result as first argument to the next '/' chained function, passes the raw expression to a macro when the bracket starts with '/', and otherwise keeps bytes and delimiters as written. Which function is called, with which arguments and position in the chain, the resulting value, and the kind of error (unknown function, function failure, unknown macro, macro failure, too many components) are those of this reading for every expression; among several scopes the first one that answers (value or failure) decides.",
  "all expression trees of at most 6 nodes (7 in thorough) with symbolic literals, one bracket of up to 9 arbitrary items, argument lists up to 18 components, all combinations of three scopes",
  "Tests evaluate fixed expressions in the standard scopes; dispatch under every tree shape, every error and scope order is not sampled.",
  [A + "eval.rs", A + "scope/mod.rs"], [("evaluator", A + "eval.rs (eval, eval_expr and dispatch)"), ("scope combinators", A + "eval.rs (Scope for tuples/options/refs, EScope)")])
P("P08", "Byte functions compute what they document and never panic",
  "Padding, fitting, cutting, slicing (python rules), replacing (leftmost, non overlapping) and the text functions of the basic scope return exactly the documented bytes, or an error when the arguments are not of the documented form, for every argument value including empty, oversized, negative and extreme lengths; they never panic or hang. A wrong number of arguments and an unknown function name are reported as errors, and a name only matches exactly.",
  "arguments of 0..=5 and 12..=21 bytes with arbitrary contents, length and index texts of up to 2 arbitrary bytes and all integer limits up to 20 digits, patterns up to 3 bytes, 0..=17 arguments",
  "Tests call a few functions with ordinary arguments; extreme index and length text is never tried.",
  [A + "scope/bytes.rs", A + "scope/mod.rs", A + "lib.rs"], [("byte functions", A + "scope/bytes.rs"), ("string functions", A + "scope/mod.rs")])
P("P09", "Base 2, 8, 16 and 64 conversions are exact inverses and reject other text",
  "Reading a number in base 2, 8 or 16 gives its minimal big endian bytes and fails for anything that is not such a number below 2^128. The base64 text of a value (url-safe without padding, or standard with padding) decodes to that value; text is accepted exactly when it is the encoding of some value, and the abbreviated form has the documented shape for every length.",
  "all texts of 0..=3 bytes (4 in thorough) in each base and texts at the 128 bit limit; all values of 0..=4 bytes in both base64 alphabets; all texts of 2 and 3 bytes; abbreviations of every length up to the bound",
  "One sample per base is tested.",
  [A + "scope/base.rs"], [("base functions", A + "scope/base.rs (bin, base64, mini_b64)")])
P("P10", "Integer functions parse, print and saturate like mathematical integers",
  "Reading decimal text as an 8 to 128 bit integer gives its big endian bytes exactly when the text is a number within range, printing big endian bytes gives the decimal text of the value (any width up to 16 bytes, an error beyond) and reading that text gives the value back. Adding and subtracting equally long byte strings equals big endian integer arithmetic on the arguments from left to right, clamped to all ones or zero on overflow, and mismatched lengths are an error.",
  "all texts of 0..=3 bytes (4 in thorough) and texts around each limit; all 1 and 2 byte values, one arbitrary byte anywhere in 3, 8, 9, 16 byte values; up to 3 operands of up to 4 arbitrary bytes, and 16 byte operands",
  "Tests add two sample numbers; carries across every byte boundary and every limit are not covered.",
  [A + "scope/uint.rs"], [("uint functions", A + "scope/uint.rs (carry_add_be, carry_sub_be, parse_b, ?u)")])
P("P11", "Fitting bytes into a fixed size never loses or invents data silently",
  "Cutting leading or trailing zero bytes removes exactly the maximal run of zeros, and fitting or padding a byte string into a fixed size array gives the string plus zero padding on the documented side when it fits and an error exactly when it does not.",
  "values of 0..=6 arbitrary bytes into every size 0..=5",
  "Tests use one or two lengths.",
  [A + "lib.rs"], [("fit and cut helpers", A + "lib.rs (cut_prefix_nulls, cut_ending_nulls, fit helpers)")])
P("P13", "Configuration and argument lookups find the latest matching entry",
  "Looking a key up in a configuration returns the remaining components of the latest entry whose leading components equal the key (delimiters included, for any entry and key shape), and the has and get views agree; writing a configuration as text and reading it back preserves the entries, and reading arbitrary text gives one entry per line or an error, never a panic. Positional argument expressions give exactly the selected argument or slice of arguments, or an error when out of range or not a number.",
  "configurations of up to 2 entries of up to 3 components, texts of 0..=4 arbitrary bytes, argument vectors of up to 3 arguments with arbitrary index text",
  "Lookup tests use a few fixed entries.",
  [A + "abconf.rs", A + "eval.rs", A + "scope/argv.rs"], [("ABConf", A + "abconf.rs"), ("ArgV scope", A + "scope/argv.rs")])
P("P14", "What an encoder prints evaluates back to the value it was given",
  "Encoding a value with any encoder of the core scope, with any options, gives an expression whose evaluation is exactly that value, or reports that the encoder has nothing to say about it; encoders are tried in the order of the option list and the empty option is the plain text encoding. The encode functions and the evaluating functions and macros of the language are inverse to each other in the same way.",
  "every encoder on all values of 0..=3 bytes and values of up to 17 bytes with an arbitrary byte anywhere; option lists of up to 3 arbitrary bytes; length options",
  "Tests encode a few values; which encoder output fails to evaluate back depends on the value's bytes.",
  [A + "eval.rs", A + "scope/base.rs", A + "scope/uint.rs"], [("encoders", A + "eval.rs (encode, encode_abe, try_encode) and the encoders in scope/")])
P("P15", "Checks pass a value through unchanged or fail, and 'or' takes the first success",
  "The size and value checks return their input unchanged exactly when the stated condition holds and an error otherwise. The alternative macro evaluates its alternatives in order and returns the first that succeeds, failing only when all fail.",
  "values and arguments of up to 2 arbitrary bytes, conditions of every operator; up to 3 alternatives, each any call or failing expression",
  "Tests run two fixed expressions.",
  [A + "scope/logic.rs"], [("logic scope", A + "scope/logic.rs")])
P("P12", "Typed expressions accept exactly the right shapes and convert exactly",
  "Reading text as a typed expression fails with a parse error exactly for text that is no expression, with a shape error exactly when the expression has a shape the type forbids (delimiters for numbers, hashes and fixed size text; anything but one item for strings), and otherwise keeps the expression and prints it canonically. Evaluating gives the evaluation error, the value when the resulting bytes fit the type, or a conversion error; nothing panics. The default is used exactly when the result is empty.",
  "all texts of 0..=4 arbitrary bytes and [b2:xy] calls with arbitrary xy, for Vec<u8>, String, U8, U16, LU16, AB<[u8;2]>, B64<[u8;1]>",
  "One test evaluates the value 24 for each type.",
  [A + "convert.rs", "crates/byte-fmt/src/lib.rs", "crates/byte-fmt/src/endian_types.rs"], [("TypedABE", A + "convert.rs (TypedABE, ABEValidator)"), ("validators and conversions", "crates/byte-fmt/src (ABEValidator / TryFrom<ABList> impls)")])
P("P16", "Matching and replacing expression items is exact",
  "Taking a fixed number of items, requiring an exact number, one or none, splitting off a leading delimiter, delimiter / item pairs in either order and whole runs of them succeed exactly when the items have that form, return the right item and the exact rest, and otherwise report the error that names what was expected; the kind tests of single items agree with each other. Replacing a sequence by another replaces its left to right, non overlapping occurrences in every nested list (innermost first) and nothing else, for every pattern including the empty one. The raw dump used for quoted brackets reproduces every byte and delimiter.",
  "all sequences of at most 5 items of the four kinds with literals of at most 1 arbitrary byte; all expressions of at most 4 nodes with patterns of at most 2 items",
  "The unit test replaces two fixed patterns; matcher edge cases (empty, short, wrong delimiter) are untested.",
  [A + "ast.rs", A + "eval.rs"], [("matchers", A + "ast.rs (take, exact, single, one_or, multi_ctr_expr, take_ctr_expr, take_expr_ctr2, strip_prefix)"), ("replace", A + "ast.rs (replace_abe)"), ("dump", A + "eval.rs (dump_abe_bytes)")])
P("P17", "Evaluation in the standard scope is total",
  "Any expression evaluated in the standard scope, whatever function or macro it names, however many arguments of whatever bytes it passes, first or chained, gives a byte string or an error and never panics, overflows or hangs. A value is only given for an argument count the function declares, every listed function and macro can be called by its name and no other name answers.",
  "every function listed by the scope with up to 3 arguments of up to 2 arbitrary bytes (4 of 1), every macro with any 4 items, every text of up to 5 arbitrary bytes in brackets (6 in thorough)",
  "User supplied expressions reach the evaluator unfiltered; tests call a few functions with well formed arguments.",
  [A + "scope/bytes.rs", A + "scope/uint.rs", A + "scope/base.rs", A + "scope/logic.rs", A + "scope/encode.rs", A + "scope/help.rs", A + "eval.rs"], [("standard scope", A + "scope (BASIC_SCOPE)"), ("dispatch and argument count", A + "eval.rs (EScope)")])
P("P18", "Wrapping a scope does not change its answers",
  "A scope behind a reference, a counted pointer, an option, a result, or next to silent scopes answers every function call, macro call, encoding request and description exactly as the scope itself, receiving the same name, arguments, position and environment. An absent scope is silent and a failed one reports failure. The three valued results keep value, error and silence through every conversion and through the '?' operator.",
  "11 wrappers, every kind of answer, arbitrary one byte names and arguments, both positions and environments",
  "No test exercises the wrappers.",
  [A + "eval.rs"], [("Scope impls for wrappers", A + "eval.rs (impl Scope for Option, Rc, Arc, &A, &dyn Scope, Result, tuples)"), ("ApplyResult", A + "eval.rs (ApplyResult)")])
B = "crates/byte-fmt/src/"
P("P20", "Fixed size byte names keep their bytes through padding, text and expression form",
  "A byte string fits a fixed size name exactly when it is not longer; it is then left padded with nulls (or the chosen fill byte), and the asserting constructors panic otherwise. The text of a name, with or without its leading nulls, and the expression it writes (as items or as text) read back to the same bytes; any text reads as the reference decoding left padded or is refused. Views (utf8, integer, list) agree with the bytes.",
  "values of 0..=5 arbitrary bytes into sizes 0..=4 and 16; every 3 byte value, 16 byte values with any byte at any place behind null or 255 prefixes; every text of 0..=5 bytes",
  "Doc tests show one value; escaping combined with prefix trimming is a property of all values.",
  [B + "lib.rs", A + "lib.rs", A + "abtxt.rs"], [("AB newtype", B + "lib.rs (ab, abx, try_fit_byte_slice, parse_abtxt, write_abe, to_abe_str, as_str, utf8)")])
P("P21", "Wire integers behave as the number they hold",
  "Big and little endian integers of 16 to 128 bits hold exactly the number their bytes denote in their order; construction, setting, conversion to and from bytes, natives, the opposite endianness and lists keep it; comparison is numeric (and for big endian equals byte order); increment, addition and subtraction saturate; bit operations act on the number. Decimal text, binary text and the expression form denote the same number, and text or slices that do not fit are refused.",
  "all pairs of values of every width for arithmetic, order and conversions; every 16 bit value and wider values with one arbitrary byte for text; every text of 0..=3 bytes",
  "Tests use the value 24 and one slice.",
  [B + "endian_types.rs"], [("endian_number! macro", B + "endian_types.rs (endian_number, big_endian, little_endian, U8)")])
P("P22", "Base64 hashes read back to the same bytes from every form",
  "The base64 text of a fixed size value is the url-safe unpadded encoding, in every printing route; it reads back to the value, as does its expression form. Any text is accepted exactly when it is the canonical encoding of a value of that size (or, where raw bytes are allowed, has that size); lists with delimiters are refused with an error. The 256/512 bit number views, the 128 bit lane view and xor agree with the bytes.",
  "every value of 0..=3 bytes (4 in thorough), 32 byte values with any byte anywhere, every text of 0..=4 bytes into sizes 0..=3, lists of at most 2 components",
  "A hash is printed in one test; canonicity of the last digit and size confusion need all texts.",
  [B + "lib.rs", A + "scope/base.rs"], [("B64 newtype", B + "lib.rs (B64: parse_str, try_fit_bytes_or_b64, TryFrom<ABList>, Display, write_abe, to_u256, BitXor)")])
C = "crates/cryptography/src/"
I = "crates/argon2-identity/src/"
P("P30", "A digest depends on the content alone",
  "The digest of a list of byte segments equals the digest of their concatenation, however the content is cut into segments (empty ones included), equals the one-piece digest function, and differs for different contents up to collisions of the hash function itself.",
  "all lists of at most 5 segments of at most 2 arbitrary bytes, up to 19 segments, one up to 65 bytes; all pairs of contents of at most 4 bytes",
  "A packet's identity is this digest; segmentation independence is a property of all inputs. The hash function itself is an uninterpreted injective function.",
  [C + "lib.rs"], [("hash_segments", C + "lib.rs (ops::hash_segments, blake3_hash)")])
P("P31", "A signature is accepted for exactly its key and digest",
  "Signing a digest gives a signature that validates for that digest and the signer's public key, and nothing else validates: not the same signature for another digest or another key, not other bytes in place of the signature. A key keeps its secret, gives the same public key every time, and different secrets give different public keys.",
  "every secret and every digest; secrets with one free byte against any second digest, any 64 byte signature and any 32 byte key name",
  "No test covers refusal. The curve arithmetic is an uninterpreted injective function of (key, digest): the check decides that this layer hands the right arguments on and uses the answer.",
  [C + "lib.rs"], [("sign / validate", C + "lib.rs (ops::sign_hash, ops::validate_signature, SigningKey)")])
P("P40", "A protected identity opens with its password and only with it",
  "Encrypting a key with a password and any cost setting gives a text that states the costs, names the key's public key and decrypts with the same password to exactly the same secret; any other password is refused as wrong. The secret is not stored in the clear.",
  "secrets with one free byte at several places, passwords of at most 2 arbitrary bytes (up to 72 with long common parts), 6 cost settings",
  "The test uses one key and one password. The memory-hard function is an uninterpreted injective function of password, salt and costs; everything else (encoding, parsing, xor, comparison) is the real code.",
  [I + "lib.rs"], [("encrypt / decrypt", I + "lib.rs (_encrypt, decrypt, pubkey, params::decode_string)")])
P("P41", "No identity text opens as a key it does not name",
  "Any text is refused or names the public key written in its salt field; decryption never panics, never succeeds on a text that names no key, and a key it returns always has exactly the public key the text names.",
  "a well formed identity with any one byte replaced, inserted or removed, cut anywhere, or any field dropped; any 0..=5 bytes after each prefix; any 0..=4 bytes as a cost",
  "Identities are read from files and environment; tests use well formed ones only.",
  [I + "lib.rs"], [("decode", I + "lib.rs (params::decode_string, pubkey, decrypt)")])
U = "crates/ipcbus/src/"
P("P50", "The notification value only grows, and every growth reaches the waiters",
  "The bus value is at every moment the largest value emitted so far: an emission returns at least its value, readers never see the value fall, and this holds however emissions and readers in several threads interleave and when exchanges fail spuriously or sending fails. A task that waits when a larger value is emitted is woken and reads at least that value; a cancelled or timed out wait disturbs nobody.",
  "every 64 bit value; 3 emissions in sequence; up to 2 emissions or readers nested at any scheduling point (atomic operation) of another emission; up to 3 waiters. Sequentially consistent memory only",
  "A lost update or lost wake-up needs one particular interleaving; no test emits concurrently (the crate has no tests).",
  [U + "udp_procbus.rs"], [("value and wake-ups", U + "udp_procbus.rs (_emit, val, next_async, next_deadline)")])
P("P51", "Notifications cross processes, and nothing a peer sends stops the listener",
  "Any value another process emits on the same bus raises this process' value to at least it once the datagram arrives, whatever the order, repetition or concurrent local emission, and wakes its waiters. Any other datagram (any bytes, any length, any sender address, another bus) changes nothing, an interrupted receive is retried, and the listener goes on to handle the next datagram. Nothing received is sent on.",
  "datagrams of 0..=40 arbitrary bytes from any IPv4 address, any order of 4 deliveries, local emission at any scheduling point of the listener",
  "Datagram content is controlled by any local process; no test sends one.",
  [U + "udp_procbus.rs", U + "udp_multicast.rs"], [("listener", U + "udp_procbus.rs (init)"), ("receive loop", U + "udp_multicast.rs (recv)")])
P("P52", "Every bus id keeps its port through any history, crashes included",
  "A bus id is given one port and the same port ever after, different ids get different ports (until ports run out), whatever other processes ask for in between, while waiting for the lock, or when a process dies at any point of its own request; the map is touched only under the lock, and the lock is free afterwards. A map file with any content is tolerated.",
  "3 requests with arbitrary ids, one concurrent request, a crash at any file effect with a write cut at any byte, map files of up to 22 arbitrary bytes",
  "Two processes that disagree about the port never hear each other; crash points and file contents are not reachable by tests.",
  [U + "udp_procbus.rs"], [("port map", U + "udp_procbus.rs (get_port)")])
P("P53", "Notifications stay on the machine",
  "Every datagram is sent with a multicast time to live of zero through the loopback interface, the listener joins its group on the loopback interface only, and sender and listener of a bus use the port that was assigned to its id.",
  "any bus id and value, up to 2 earlier buses",
  "A wrong interface or time to live leaks local activity to the network and is invisible to a test on one machine.",
  [U + "udp_multicast.rs"], [("socket setup", U + "udp_multicast.rs (setup_socket, send)")])
K = "crates/pkt/src/"
P("P60", "Received bytes are a packet exactly when they follow the wire format",
  "Reading accepts a byte string exactly when it follows the documented layout (type, size, 255 padding, offsets in order, links of 48 bytes, a well formed space), whatever its content, length or alignment; it never reads outside of it and never panics. Every accessor of an accepted packet returns the bytes the layout assigns to it, and the packet writes back as the bytes it was read from. A prefix that may grow into a packet says how many bytes are needed.",
  "any bytes of the lengths listed per run (up to 240), every packet type, every value of the size and offset fields",
  "Packets come from other peers; one wrong bound is memory unsafety. The tests read only packets that were built by the library.",
  [K + "read.rs", K + "point_ptr.rs", K + "point.rs", K + "netpkt/netpkt_ptr.rs", K + "rooted_space.rs"], [("reading", K + "read.rs (parse_netpkt, read_pkt)"), ("consistency", K + "point_ptr.rs (internal_consitent_length, unchecked_tail, fixed)"), ("header", K + "point.rs (PointHeader::check)")])
P("P61", "A packet keeps its contents in every representation",
  "What a packet is built from is what its accessors return, and its bytes follow the wire format with the given header and the digest of the point as hash. Parts, boxes, shared and raw pointers, wrappers (received, rerouted, shared) and re-reading give the same bytes, with exactly the header replaced where it is replaced; reference counts and allocation layouts are kept.",
  "all fields arbitrary, data of up to 17 bytes, up to 2 links and 8 components, 6 stacks of wrappers",
  "Each representation has its own pointer arithmetic, depending on sizes modulo 8 and on the number of segments.",
  [K + "builder.rs", K + "netpkt/netpkt_arc.rs", K + "netpkt/netpkt_ptr.rs", K + "netpkt/netpkt_parts.rs", K + "netpkt/reroute.rs", K + "byte_segments.rs"], [("building", K + "builder.rs (try_point, linkp)"), ("representations", K + "netpkt/*.rs"), ("segments", K + "byte_segments.rs")])
P("P62", "A packet that was changed after it was made is not accepted",
  "With checks on, reading accepts a packet only if its hash is the digest of its point and, for a signed point, the signature is valid for the named key and the signed content. Changing any byte of the point or of the hash leads to refusal; recomputing the hash after changing any byte of a signed point does too. The net header is not covered and may change freely.",
  "link and signed points of up to one component and one data byte with any byte replaced by any value; any 232 bytes as a small point of each type",
  "This is the integrity guarantee of the whole system; no test feeds a changed packet. The digest and the signature are uninterpreted injective functions.",
  [K + "read.rs", K + "point_ptr.rs", K + "netpkt/netpkt_ptr.rs", C + "lib.rs"], [("validation", K + "netpkt/netpkt_ptr.rs, read.rs (check hash)"), ("signature", K + "point_ptr.rs (check_signature)"), ("signing", K + "builder.rs (try_keypoint_ref)")])
P("P63", "A space is a list of components",
  "Any bytes are a space exactly when they are length prefixed components within the limits (1..=200 bytes each, 242 in all). Every operation on spaces (joining, pushing, splitting, prefixes, parents, ranges, iteration, rooting) is the operation on the list of components, respects the limits (at most 8 components) or returns an error without dropping anything, and never panics. The text and expression forms of a space read back to the same space.",
  "any 0..=5 bytes; 0..=11 components; up to 4 components of up to 2 arbitrary bytes; lengths around every limit; indices 0..=10",
  "Components may contain any byte (also '/' and null), which text handling and offsets must survive.",
  [K + "space.rs", K + "space_fmt.rs", K + "rooted_space.rs"], [("spaces", K + "space.rs"), ("text", K + "space_fmt.rs (SpaceFE, Display, FromStr)")])
P("P64", "A rooted space agrees with its index",
  "Any bytes are a rooted space exactly when the depth and the seven offsets in front are those of the components that follow. For these every component, range, depth and last component is that of the list, and building a space component by component gives the same bytes as rooting the whole.",
  "any 0..=12 bytes; any index bytes before 7 to 9 components; up to 10 components around the size limit",
  "The index comes from received packets and is used in unchecked pointer arithmetic.",
  [K + "rooted_space.rs", K + "space.rs"], [("index", K + "rooted_space.rs (check_components, pre_idx_comp, range, try_append_component)")])
P("P65", "Packets are ordered by group, domain, depth, space, key, time and hash",
  "The key and value bytes under which a packet is indexed compare, as bytes, like the tuple (group, domain, depth, space, public key, creation time, hash), and give back exactly these fields, the log position, and the numbers of links and data bytes. Points outside of the tree have no entry. PktCmp is a total order: equal exactly for equal hashes, that tuple order otherwise, data points last.",
  "all fields arbitrary for keys; every pair of points with one arbitrary byte in each fixed field and up to one component",
  "Iteration and prefix queries depend on byte order equal to field order; big endian, field order or length slips stay hidden for typical values.",
  [K + "netpkt/tree_order.rs", K + "netpkt/cmp.rs"], [("tree entry", K + "netpkt/tree_order.rs"), ("PktCmp", K + "netpkt/cmp.rs")])
P("P67", "The announced free space is what fits",
  "calc_free_space is exactly the number of bytes by which the largest possible packet exceeds the packet at hand, for signed and unsigned points; building succeeds exactly when it is not negative.",
  "every shape up to 2 components, 2 links, 9 data bytes; data at the limit and beyond it; link counts around the limit",
  "Callers split data by it; an off-by-one shows only at the limit.",
  [K + "builder.rs", K + "consts.rs", K + "point.rs"], [("sizes", K + "builder.rs (calc_free_space), consts.rs, point.rs (new_point_size)")])
P("P68", "Fields have one value under every name",
  "Every packet field, by token, name, number, bytes, in an expression, or through any representation of the packet is the value the wire format holds there (nulls where the point has none), with the announced size. Names and tokens stand for one field each. Writing a variable field changes that field alone. Links are found by the first matching tag or tag suffix.",
  "all 29 fields on every kind of point with arbitrary contents; every name of up to 11 bytes; up to 2 links with any tags",
  "Queries, filters and formats all go through these tables; a swapped row is invisible in most tests.",
  [K + "field_ids.rs", K + "eval.rs", K + "netpkt/header.rs"], [("field table", K + "field_ids.rs (fid!, field_val!, field_ptr!, bytes, abe, mut_route)"), ("expressions", K + "eval.rs (pkt_scope, SelectLink)")])
P("P69", "Stamp arithmetic is exact or says so",
  "Adding and subtracting durations saturates in the saturating forms and is refused in the checked forms exactly when the result does not fit; differences have the right size and sign; the byte order of stamps is their numeric order; conversion to system time and back is the identity.",
  "any stamp, durations around zero and the 64 bit limits; every pair of stamps",
  "Stamps order the log; limits (MAX as the open end of a range) are in everyday use.",
  [K + "stamp.rs"], [("stamps", K + "stamp.rs")])
NOT_APPLICABLE = {}
