API = "crates/ethportal-api/src/"
PROPS = [
 dict(id="A01", title="Hex text converts to bytes and back exactly, and bad text is refused",
  statement="Every byte string is written as 0x followed by two lowercase (or, where asked, uppercase) digits per byte, and reading that text in any capitalisation returns the same bytes. Text that lacks the 0x prefix, has an odd number of digits or contains a non-digit is refused with an error that says which of these it was and quotes the input, and never crashes. The abbreviated form is the full text up to eight bytes, and otherwise the first and last two bytes joined by two dots.",
  over=["inputs"], q="every byte string and every text, including multi-byte characters, mixed case and mutated encodings",
  why="Eight unit tests cover one valid text and six fixed errors; they fix neither the inverse relation over all byte strings nor the refusal of arbitrary text.",
  files=[API+"utils/bytes.rs"], mech=[("prefix check before digit decoding", API+"utils/bytes.rs hex_decode"), ("length cut-off of the abbreviated form", API+"utils/bytes.rs hex_encode_compact")],
  observe=["return values of the public conversion functions"],
  technique="runtime monitoring: generated byte strings and texts against a reference codec, panic capture",
  level_note="exhaustive for byte strings up to 2 bytes and short texts over a hostile alphabet; random beyond"),
 dict(id="A02", title="Random identifiers have exactly the requested leading zero bits",
  statement="A random 256-bit identifier requested with n leading zero bits (0 to 255) starts with exactly n zero bits followed by a one. All remaining bits are random: each takes both values about equally often, every value of the first non-zero byte can occur, and identifiers do not repeat, also across threads.",
  over=["inputs", "schedules"], q="every n from 0 to 255, many draws, concurrent callers",
  why="Three unit tests draw one identifier each for n = 15, 16, 17 and look at the first bytes only.",
  files=[API+"utils/bytes.rs"], mech=[("range of the first non-zero byte", API+"utils/bytes.rs random_32byte_array")],
  observe=["returned identifiers"],
  technique="runtime monitoring: statistical monitor over draws for every prefix length (failure probability of a correct generator below 2^-60)",
  level_note="all 256 prefix lengths, thousands of draws each; the generator is OS-seeded, so draws differ between runs"),
 dict(id="A03", title="Reported client names are identified case-insensitively and shown faithfully",
  statement="A client name that equals one of the known Portal client names in any capitalisation is identified as that client, and any other name is treated as unknown while keeping the reported name in lowercase. Each identified client is shown under its own name, an unknown one as Unknown with the reported name in parentheses, or plain Unknown when nothing was reported.",
  over=["inputs"], q="every text, in particular all capitalisations of known names and names one edit away from them",
  why="No test covers it.",
  files=[API+"types/client_type.rs"], mech=[("case folding before comparison", API+"types/client_type.rs From<&str>"), ("display of known and unknown clients", API+"types/client_type.rs Display")],
  observe=["identified client and its displayed form"],
  technique="runtime monitoring: exhaustive capitalisations and single edits of known names, random text, reference lookup",
  level_note="exhaustive for capitalisations and single edits of the known names"),
 dict(id="A04", title="JSON-RPC parameters are carried through unchanged",
  statement="A JSON null, array or object is accepted as request parameters (absent, positional or named respectively) with exactly the contained values, and any scalar or malformed text is refused without crashing. Writing the parameters out again, or converting them to a plain JSON value, yields the JSON that was read.",
  over=["inputs"], q="every JSON text, including extreme numbers, awkward strings, deep nesting and malformed text",
  why="Eleven unit tests read fixed arrays; named and absent parameters, refusals, writing and conversion are untested.",
  files=[API+"types/jsonrpc/params.rs"], mech=[("untagged choice by JSON kind", API+"types/jsonrpc/params.rs Params"), ("conversion to a JSON value", API+"types/jsonrpc/params.rs From<Params> for Value")],
  observe=["parsed parameters, written text, converted value"],
  technique="runtime monitoring: generated and mutated JSON compared with the plain reading of the same text",
  level_note="random nested values to depth 4 plus hand-picked extremes"),
 dict(id="A05", title="Consensus forks are identified unambiguously by digest, name and activation",
  statement="Exactly the four mainnet fork digests of Bellatrix, Capella, Deneb and Electra are recognised, each mapping to its fork and back, and every other digest is refused with an error that quotes it. Fork names are recognised in any capitalisation (merge meaning Bellatrix), any other name is refused, and each fork is written under its own lowercase or capitalised name. The slot, epoch and fork-activation constants place every fork at its mainnet activation time.",
  over=["inputs"], q="every 4-byte digest and every text",
  why="Tests check the digest of each fork against itself and four exact lowercase names; a digest or constant changed on both sides, near-miss digests, aliases and capitalisation go unnoticed.",
  files=[API+"types/consensus/fork.rs", API+"types/consensus/constants.rs"], mech=[("digest table in both directions", API+"types/consensus/fork.rs"), ("mainnet constants", API+"types/consensus/constants.rs")],
  observe=["fork for a digest or name, digest and names of a fork, constants"],
  technique="runtime monitoring: digest neighbourhoods, all capitalisations and edits of names, activation times recomputed from genesis",
  level_note="all digests within two bit flips or one byte of a known one, millions of random ones"),
 dict(id="B01", title="Bridge mode arguments are read exactly or refused, never crash",
  statement="The bridge accepts exactly the plain mode keywords, a block range written as single:rX-Y with X not above Y, and a snapshot written as snapshot:N, and starts in precisely the mode and with the numbers that were written. Every other argument, including malformed, missing or oversized numbers and multi-byte characters, is refused with an error and never crashes the process.",
  over=["inputs", "configurations"], q="every command-line mode argument",
  why="One accepted keyword and four refused strings are tested; no range or snapshot is ever parsed by a test.",
  files=["bin/portal-bridge/src/types/mode.rs"], mech=[("mode argument parser", "bin/portal-bridge/src/types/mode.rs FromStr")],
  observe=["parsed mode or error"],
  technique="runtime monitoring: grammar-based and mutated arguments against an independent parser, panic capture",
  level_note="hundreds of thousands of distinct arguments per run; numbers with a leading plus sign are left unprescribed"),
 dict(id="B02", title="A block range is split into epochs that cover it exactly once",
  statement="Splitting a block range into 8192-block epochs yields exactly the epochs the range touches, marking an epoch as whole only when all of its blocks lie in the range and otherwise giving precisely the first and last block of the range inside it. Together the pieces contain every block of the range once and no other block, for any range up to the largest block number.",
  over=["inputs"], q="every pair of block numbers with start not after end",
  why="Five fixed ranges in low epochs are tested; boundaries at other epochs, one-block overlaps, long spans and the top of the number range are not.",
  files=["bin/portal-bridge/src/types/range.rs"], mech=[("per-epoch overlap computation", "bin/portal-bridge/src/types/range.rs")],
  observe=["returned epochs and sub-ranges"],
  technique="runtime monitoring: boundary-focused ranges against a walk over the range, with arithmetic overflow checks on",
  level_note="all boundary offsets at nine epochs with spans of 0-4 epochs plus random ranges"),
 dict(id="M01", title="A metric timer records its true duration once, and only when asked to",
  statement="A timer adds exactly one observation to its histogram when it is stopped for recording, and none when it is stopped for discarding, dropped, or abandoned by a panic. The recorded and the reported duration are the same and equal the time the timer actually ran. This holds with any number of timers running concurrently on one histogram from any threads.",
  over=["schedules", "histories"], q="every way and order of ending concurrent timers, durations below and above a second",
  why="Nine unit tests use one timer of 100 ms each; they do not compare recorded with reported or real durations, never run past a second, and never share a histogram.",
  files=["crates/metrics/src/timer.rs"], mech=[("recording on explicit stop only", "crates/metrics/src/timer.rs observe"), ("silent drop", "crates/metrics/src/timer.rs Drop")],
  observe=["histogram count, sum and buckets; reported durations"],
  technique="runtime monitoring: conservation between ended timers and histogram contents under concurrent workloads; durations bracketed by the same monotonic clock",
  level_note="every ending, up to 8 threads sharing histograms; no wall-clock deadline decides"),
 dict(id="V01", title="Checked arithmetic gives the exact result or refuses",
  statement="Checked addition, subtraction, multiplication, division, remainder and sums over all ten integer types return the mathematically exact result when it fits the type, and otherwise an overflow error, or a division-by-zero error when the divisor is zero. Shifts return the machine shift when the amount is below the type's width and an overflow error otherwise. The in-place forms store the same result on success and leave the operand untouched on error.",
  over=["inputs"], q="every operand pair, shift amount and sequence of every integer type",
  why="Three unit tests use a handful of u32 values; other types, signed boundaries, in-place failure and sums are unexplored.",
  files=["crates/validation/src/merkle/safe_arith.rs"], mech=[("checked operations mapped to errors", "crates/validation/src/merkle/safe_arith.rs")],
  observe=["returned results and operands after in-place operations"],
  technique="runtime monitoring: exhaustive 8-bit operands, boundary and random operands for wider types, oracle in 128-bit arithmetic",
  level_note="exhaustive for u8 and i8; boundary neighbourhoods and random pairs for the rest; most-negative divided by -1 may be refused with either error"),
]
