#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the text is readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

FEED = ["event/feed.go", "event/feedof.go"]
p("E01", "Feed delivers every sent value exactly once to each current subscriber",
  "A value passed to Send of an event feed (the untyped and the generic one) is delivered exactly once to every channel whose Subscribe returned before the Send began and whose Unsubscribe had not been called before the Send returned, and at most once to any other channel; nothing is put into a channel after its Unsubscribe returned, and channels never receive values that were not sent. "
  "Send returns exactly the number of channels it delivered the value to. "
  "Both hold for any number of subscribers and buffer sizes, for subscribing the same channel only once or several times in succession, and for any interleaving of Send, Subscribe, Unsubscribe and slow or fast receivers.",
  ["schedules", "histories"], "all interleavings of concurrent Send, Subscribe, Unsubscribe and receives, and all sequential operation histories",
  "The existing tests exercise only panics on a wrong type; delivery under concurrent Unsubscribe depends on the schedule, and on which slot of the case list is removed while a send is half done.",
  FEED, [("caseList.delete/deactivate", "event/feed.go"), ("Send: TrySend loop and reflect.Select with removeSub", "event/feed.go, event/feedof.go"), ("inbox merge under mu", "event/feed.go, event/feedof.go")],
  [("sendCases", "channels of the current subscribers, guarded by sendLock", "event/feed.go"), ("inbox", "subscriptions since the last Send", "event/feed.go")],
  ["return value of Send", "values received on the subscribed channels"])
p("E02", "All subscribers of a feed observe the sends in one common order",
  "Concurrent Sends on one feed take effect one after the other: any two subscribers that both receive two given values receive them in the same order, and that order never contradicts the real-time order of two Sends of which one returned before the other began. "
  "In particular each channel receives the values of one sender in the order in which that sender sent them.",
  ["schedules"], "all interleavings of two or more concurrent senders and receivers",
  "No existing test sends concurrently; an ordering violation needs two senders interleaved inside Send.",
  FEED, [("sendLock token channel", "event/feed.go init/Send"), ("once.Do(init)", "event/feed.go")], None, ["order of values on subscriber channels"])
p("E03", "Feed Unsubscribe always returns, is idempotent and releases a blocked Send",
  "Unsubscribe of a feed subscription returns after finitely many steps whatever other Sends, Subscribes and Unsubscribes run concurrently, even when a Send is blocked on that very subscriber, and that Send then completes for the remaining subscribers. "
  "It may be called any number of times and from several goroutines; afterwards the subscription's error channel is closed without ever having carried a value, and other subscriptions stay untouched. "
  "No combination of feed operations deadlocks, panics or leaves a goroutine behind when receivers keep receiving or unsubscribe.",
  ["schedules", "histories"], "all interleavings of Unsubscribe with sends blocked on any subset of subscribers, other unsubscribes and repeated calls",
  "The tests contain no Unsubscribe on a feed at all; deadlock and lost wake-ups are schedule dependent.",
  FEED, [("remove: select on removeSub or sendLock", "event/feed.go"), ("errOnce", "event/feed.go")], None, ["return of Unsubscribe", "Err() channel"])
p("E04", "A wrong-typed Feed operation panics and leaves the feed fully usable",
  "The first Send or Subscribe that is accepted fixes the element type of an untyped feed; every later Send or Subscribe with a different element type, and any Subscribe of a value that is not a channel one can send on and any Send of nil, panics. "
  "Such a rejected call has no other effect: it delivers nothing, registers nothing, and every later correctly typed operation behaves as if it had never been made.",
  ["histories", "inputs"], "all operation sequences up to a depth that mix correctly and wrongly typed Send, Subscribe and Unsubscribe calls",
  "TestFeedPanics checks the panic itself on single calls; it never uses the feed afterwards, so a lock kept by a panicking call or a half-made registration goes unnoticed.",
  ["event/feed.go"], [("typecheck", "event/feed.go"), ("sendLock release before panic", "event/feed.go Send")], [("etype", "element type fixed by the first operation", "event/feed.go")], ["panics", "later deliveries"])
p("E05", "TypeMux delivers posted events exactly once, in order, and closes cleanly",
  "An event posted on a type multiplexer is delivered exactly once to every subscription registered for the event's dynamic type when the post begins and not closed before it returns, in posting order for each poster, and never to a subscription for other types; a subscription for several types gets events of all of them. "
  "After its Unsubscribe returned, and for every subscription still registered after Stop returned, the subscription reports closed and its channel is closed and carries no further event; repeated Unsubscribe and Stop are harmless, and Post returns ErrMuxClosed after Stop; subscribing to the same type twice in one call panics and subscribing after Stop yields a closed channel. "
  "No interleaving of Post, Subscribe, Unsubscribe and Stop deadlocks, sends on a closed channel or delivers to an unsubscribed receiver.",
  ["schedules", "histories"], "all interleavings of Post, Subscribe, Unsubscribe, Stop and receives up to the bounds, and all sequential histories up to a depth",
  "The tests run a few sequential histories; closing races between Post and Unsubscribe/Stop are schedule dependent.",
  ["event/event.go"], [("deliver: select on postC and closing under postMu", "event/event.go"), ("closewait", "event/event.go"), ("copy-on-write subm slices, posdelete", "event/event.go")], [("subm", "subscriptions by dynamic type", "event/event.go")], ["Chan()", "Closed()", "return value of Post"])
p("E06", "Function-backed subscription: one error at most, clean close, prompt stop",
  "A subscription made from a producer function runs the producer exactly once; the first Unsubscribe of a running subscription closes the quit channel given to the producer, which is closed at most once and never before, and returns only after the producer has returned and the error channel is closed. "
  "If the producer ends by itself with an error, exactly that error is delivered once before the error channel closes, also when Unsubscribe is called while the error waits to be read; if it ends without error or after its quit channel was closed, the error channel just closes. "
  "Unsubscribe may be called repeatedly and concurrently, before, during or after the producer's end, without panic or deadlock.",
  ["schedules"], "all interleavings of the producer's end, one or several Unsubscribe calls and a reader of the error channel",
  "The tests run one schedule per scenario; the outcome depends on whether Unsubscribe or the producer's return comes first.",
  ["event/subscription.go"], [("unsubscribed flag under mu", "event/subscription.go NewSubscription/Unsubscribe"), ("close(unsub), <-err", "event/subscription.go")], None, ["Err() channel", "quit channel of the producer"])
p("E07", "Resubscribe retries with bounded backoff and never leaks a subscription",
  "A resubscribing subscription calls its function again after each failure of the function or of the established subscription, one call at a time, passing the error that ended the previous established subscription (nil at first), until the active subscription ends without error or Unsubscribe is called; the wait before a retry after a failed call never exceeds the given maximum and starts at a fraction of it, growing while failures follow quickly. "
  "Unsubscribe, in every state and however often called, makes it stop: the context given to a running call is cancelled, no call starts afterwards, and it returns after the error channel is closed. "
  "Every subscription the function returned is unsubscribed by the time the resubscribing subscription has ended, and no goroutine is left behind.",
  ["schedules", "fault_sequences"], "all sequences of failures, immediate ends and successes of the function up to a length, with Unsubscribe at every scheduling point, under a virtual clock",
  "The existing suite has no test of Resubscribe at a chosen point; the failure cases need Unsubscribe inside a running call, inside the backoff or after the loop ended.",
  ["event/subscription.go"], [("loop/subscribe/waitForError/backoffWait", "event/subscription.go"), ("unsub channel and unsubOnce", "event/subscription.go")], [("waitTime", "current backoff", "event/subscription.go"), ("lastSubErr", "error handed to the next call", "event/subscription.go")], ["calls of the function and their times", "Err() channel", "Unsubscribe calls on inner subscriptions"])
p("E08", "SubscriptionScope closes everything it tracks, once, and tracks nothing after",
  "Closing a subscription scope unsubscribes every subscription that it still tracks, and when Close returns every subscription ever tracked has been unsubscribed; Track on a closed scope returns nil and leaves the subscription alone. "
  "Count is the number of tracked wrappers not yet unsubscribed (0 after Close), unsubscribing a wrapper unsubscribes its subscription and removes exactly that one, and the wrapper's error channel is the subscription's. "
  "This holds for every interleaving of Track, wrapper Unsubscribe, Close and Count, with repeated calls, without deadlock or data race.",
  ["schedules", "histories"], "all interleavings of Track, Unsubscribe, Close and Count from up to three goroutines and all sequential histories up to a depth",
  "The suite has one sequential scope example at most; the interesting cases are Close racing with Track and wrapper Unsubscribe.",
  ["event/subscription.go"], [("SubscriptionScope mutex and closed flag", "event/subscription.go")], [("subs", "tracked wrappers", "event/subscription.go")], ["Unsubscribe calls on inner subscriptions", "Count()", "Track result"])
MC = ["common/mclock/simclock.go"]
p("T01", "Simulated clock: every timer fires exactly once, on time, and only if armed",
  "On a simulated clock, advancing by d fires exactly the timers whose deadline is not later than the new time and that were neither stopped nor fired, each once, in order of deadline, channel timers carrying their deadline; no timer fires otherwise, and Now is the sum of all advances. "
  "Stop reports true exactly when it prevents a firing; Reset re-arms a stopped, expired or pending channel timer for now+d; ActiveTimers is the number of armed timers; a function timer has no channel and cannot be reset, asking for it panics. "
  "This holds for every sequence of NewTimer, After, AfterFunc, Stop, Reset and Run, including calls made from inside timer functions.",
  ["histories"], "all operation sequences up to a depth over several timers with equal and different deadlines, including re-entrant calls",
  "The package has no tests in this repository; heap-index mistakes need particular orders of insertion, removal and re-arming.",
  MC, [("container/heap with index bookkeeping", "common/mclock/simclock.go"), ("Run", "common/mclock/simclock.go")], [("scheduled", "heap of armed timers", "common/mclock/simclock.go")], ["C() channels", "callbacks", "Stop results", "ActiveTimers", "Now"])
p("T02", "Alarm fires no later than scheduled, never early, never stale after Stop",
  "On a simulated clock, after Schedule(t) and with no Stop, an alarm's channel holds a notification once the clock has been advanced to t or beyond (at the next advance, even by nothing, if t is not in the future); while the pending deadline lies in the future, further Schedule calls can only move it to an earlier time, so that the notification comes at the earliest requested deadline. "
  "A notification never appears when no scheduled deadline has been reached, and never more than one is pending. "
  "After Stop the channel is empty and stays empty until the next scheduled deadline, and the alarm can be reused any number of times.",
  ["histories"], "all sequences of Schedule, Stop, clock advance and channel receive up to a depth, over a small set of deadlines",
  "The package has no tests in this repository; errors show only for certain orders of old and new deadlines relative to now.",
  ["common/mclock/alarm.go"], [("schedule: reuse of the running timer", "common/mclock/alarm.go"), ("send: non-blocking", "common/mclock/alarm.go")], [("deadline", "time of the running timer", "common/mclock/alarm.go")], ["C() channel", "armed timers of the clock"])
p("T03", "Clocks stay consistent and never lose a wake-up under concurrent use",
  "On a simulated clock used by several goroutines, WaitForTimers(n) returns once at least n timers are armed at the same time and never before, Sleep(d) returns only after the clock advanced by d, a timer stopped with result true never fires and one not stopped fires exactly once, whatever the interleaving of Run, Stop, Reset, NewTimer and AfterFunc. "
  "The system clock offers the same timer contract: timers fire once, not before their delay, a successful Stop prevents firing, and Reset after Stop or expiry re-arms. "
  "No interleaving deadlocks, loses a wake-up or races on memory.",
  ["schedules"], "all interleavings of two or three goroutines using one clock, with virtual time for the system clock",
  "The package has no tests in this repository, and a missed Broadcast or an unlocked access shows only in particular schedules.",
  MC + ["common/mclock/mclock.go"], [("cond.Broadcast on schedule/Stop/Reset", "common/mclock/simclock.go"), ("mutex", "common/mclock/simclock.go"), ("System adapters", "common/mclock/mclock.go")], None, ["return of WaitForTimers and Sleep", "timer firings"])
HX = ["common/hexutil/hexutil.go", "common/hexutil/json.go"]
p("H01", "Hex encodings are canonical and decode back to the same value",
  "Encoding any byte string yields 0x followed by exactly two lower-case digits per byte, and encoding any unsigned or big integer yields 0x (after a minus sign for negative ones) followed by its lower-case digits without leading zeros, zero being 0x0. "
  "Decoding such an encoding returns the identical value, for all byte strings, all 64-bit and platform integers and all non-negative integers up to 256 bits, through the functions and through the text, JSON and string methods of the wrapper types alike.",
  ["inputs"], "all values in bounded-exhaustive families: every short byte string, every integer with at most three distinct set positions, and all word boundaries",
  "Tests list some dozens of values; boundary handling at word and nibble limits needs the whole family.",
  HX, [("Encode/EncodeUint64/EncodeBig", "common/hexutil/hexutil.go"), ("DecodeBig word loop", "common/hexutil/hexutil.go")], None, ["encoded strings", "decoded values"])
p("H02", "Hex decoding accepts exactly the documented grammar, with the right error",
  "Byte-string decoding accepts exactly 0x or 0X followed by an even number of hex digits; number decoding accepts exactly 0x or 0X followed by one or more hex digits without a leading zero unless the number is a single 0, within 64 bits, the platform word or 256 bits respectively. "
  "Every other input is rejected with the documented error for its first defect (empty, missing prefix, bare prefix, leading zero, odd length, bad digit, out of range), fixed-length decoding also rejects any other length, and text decoding into a wrapper type additionally accepts empty input as empty or zero. "
  "A rejected input leaves a fixed-length or wrapper target unchanged.",
  ["inputs"], "all strings up to a length over an alphabet with a representative of each byte class, plus all lengths around the range limits",
  "Tests list some dozens of strings; the grammar has to hold for all.",
  HX, [("checkText/checkNumber/checkNumberText/has0xPrefix", "common/hexutil"), ("UnmarshalFixedText pre-validation", "common/hexutil/json.go")], None, ["returned values and errors", "target after an error"])
p("H03", "JSON, text and GraphQL decoding of hex wrapper types agree",
  "For each hex wrapper type (Bytes, Big, Uint64, Uint, Hash, Address), decoding a JSON string gives the same value or is rejected exactly when decoding the characters between its quotes (escapes are not interpreted) as text does, a JSON value that is not a string is always rejected with a type error naming the target type, and GraphQL decoding of a string agrees with text decoding for non-empty input and rejects unsupported input types. "
  "Marshalling through encoding/json and decoding again reproduces the value. Decoding into a variable never changes a value decoded before.",
  ["inputs"], "all JSON tokens and strings up to a length over a class alphabet, for every wrapper type",
  "Tests cover chosen examples per type; agreement between the three front ends is a statement about all inputs.",
  HX + ["common/types.go"], [("UnmarshalJSON/UnmarshalText/UnmarshalGraphQL", "common/hexutil/json.go"), ("wrapTypeError/errNonString", "common/hexutil/json.go")], None, ["values and errors of the three decoders"])
CT = ["common/types.go"]
p("C01", "Hash and Address conversions crop and pad on the left and round-trip",
  "Building a hash or address from bytes, (the magnitude of) a big integer or a hex string keeps the last 32 (20) bytes of longer input and left-pads shorter input with zeros; the byte, big-integer, hex, text, JSON, database and unprefixed forms of any hash or address convert back to the same value. "
  "Converting an address to a hash left-pads it. "
  "Scanning from a database value accepts exactly byte slices of the right length and leaves the target unchanged otherwise.",
  ["inputs"], "all input lengths from 0 to beyond the type's size with position-revealing contents, and all one- and two-byte patterns at every position",
  "Tests use a handful of lengths; off-by-one cropping and padding need all lengths and positions.",
  CT, [("SetBytes/BytesToX/HexToX/BigToX", "common/types.go"), ("Scan/Value", "common/types.go")], None, ["resulting bytes"])
p("C02", "Address text follows EIP-55 and mixed-case addresses validate it exactly",
  "The hex form of an address capitalises exactly the letters that EIP-55 prescribes. "
  "IsHexAddress accepts exactly 40 hex digits with an optional 0x or 0X prefix; a mixed-case address accepts the same strings (with prefix required in JSON), preserves the original text, reports a valid checksum exactly when the text equals the EIP-55 form, and its JSON form decodes again to the same address.",
  ["inputs"], "all addresses of bounded-exhaustive families, all single-letter case changes of them, and all short strings over a class alphabet around the valid length",
  "Tests use the EIP's examples; an error in one nibble position or digit class can miss them.",
  CT, [("checksumHex", "common/types.go"), ("MixedcaseAddress", "common/types.go"), ("IsHexAddress", "common/types.go")], None, ["Hex()", "ValidChecksum()", "MarshalJSON"])
p("C03", "Format verbs of Hash and Address print the documented text",
  "For every hash and address, %v and %s print the canonical prefixed form (EIP-55 for addresses), %q the same in double quotes, %x and %X lower- and upper-case digits with a prefix only under #, %d the byte list, and any other verb a bad-verb message carrying the value; values and pointers, alone or nested in other types, print alike; widths, precisions and flags other than # change nothing, and formatting never changes the value.",
  ["inputs"], "all verbs, with and without the # flag, over families of hashes and addresses",
  "Tests check one address value per verb.",
  CT, [("Format methods", "common/types.go")], None, ["fmt output"])
p("C04", "Byte and hex helpers agree with their simple specifications",
  "Padding, trimming, copying and hex helper functions return, for every input and length, exactly what their one-line specification says (pad or trim zeros on the named side only, crop on the left for fixed lengths, tolerate odd and prefixed hex), never modify their input, and trimming inverts padding; a copy never shares memory with its source. "
  "Decoding hex-or-string input returns the decoded bytes for well-formed prefixed hex, an error for malformed prefixed hex and for empty input, and the raw bytes for anything without a prefix.",
  ["inputs"], "all byte strings up to a length over a small alphabet times all target lengths, and all strings up to a length over a class alphabet",
  "Tests check one or two examples per helper.",
  ["common/bytes.go"], [("LeftPadBytes/RightPadBytes/TrimLeftZeroes/TrimRightZeroes/FromHex/Hex2BytesFixed/CopyBytes/ParseHexOrString", "common/bytes.go")], None, ["returned slices"])
p("J01", "Structured file and compiler output parsing is faithful and locates errors",
  "Loading a JSON file returns exactly what decoding its content returns, reports the 1-based line on which a syntax error lies, and reports missing files as such. "
  "Parsing combined compiler output yields, for the old (string-valued) and the new (object-valued) layout alike, one entry per contract with code and runtime code prefixed by 0x and every other field taken from the matching input field and parameter; malformed embedded documents are rejected.",
  ["inputs"], "all documents of a bounded grammar: every error position over multi-line documents, and every combination of layout, field presence and malformed part for up to two contracts",
  "No existing test covers either function.",
  ["common/test_utils.go", "common/compiler/solidity.go"], [("LoadJSON/findLine", "common/test_utils.go"), ("ParseCombinedJSON with fallback to the v0.8 layout", "common/compiler/solidity.go")], None, ["returned structures and errors"])
p("D01", "Command-test expectations match the child's output exactly and always end",
  "An exact expectation on a child command's output succeeds exactly if the next bytes of the output are the expanded template (less one leading newline) and consumes just these, however the output is cut into writes; a failing one marks the first position that differs. "
  "A regular expression expectation succeeds exactly if the expression matches the unread output (valid UTF-8) and returns the text of the match and of each group, empty for a group that takes no part. Reading all output returns what is left; expecting the exit reports any output that is left, waits for the child and runs the cleanup. "
  "Each expectation ends: if the child does not come up with the output (or its end) within five seconds it is killed and cleaned up, never earlier and never after the expectation is over. "
  "Lines of input reach the child in order, signals reach it, its exit status is reported after its end, and its standard error text is complete then and a prefix of that at any time before.",
  ["inputs", "schedules"], "all outputs to length 3 [5] in all chunkings against all pairs of expectations, long outputs, slow and hanging children with the time limit at any moment, and all interleavings of child, reader and timer",
  "Nothing in the repository runs it; chunk boundaries, the timer and the child's end are timing.",
  ["internal/cmdtest/test_cmd.go"], [("Expect/matchExactOutput", "internal/cmdtest/test_cmd.go"), ("ExpectRegexp/runeTee", "internal/cmdtest/test_cmd.go"), ("ExpectExit/Output/withKillTimeOut", "internal/cmdtest/test_cmd.go"), ("testlogger", "internal/cmdtest/test_cmd.go")], [("stdout", "buffered unread output", "internal/cmdtest/test_cmd.go")], ["failures and errors reported to the test", "submatches", "whether and when the child is killed"])
p("S01", "Human-readable sizes and durations keep value and unit",
  "A storage size prints with two decimals in the largest unit it exceeds (B, KiB, MiB, GiB, TiB), with a space in normal and none in terminal form; a pretty duration prints the standard text cut to at most three decimals. "
  "An age prints at most three of its leading non-zero units from years to seconds, each the whole number of that unit in what the larger units left over, and 0 for less than a second.",
  ["inputs"], "all values within a few steps of every unit boundary and their pairwise sums, under a virtual clock for ages",
  "Tests check a few sizes and no ages; errors hide at unit boundaries.",
  ["common/size.go", "common/format.go"], [("StorageSize.String", "common/size.go"), ("PrettyDuration/PrettyAge", "common/format.go")], None, ["String()", "TerminalString()"])
BM = ["common/math/big.go"]
p("M01", "256-bit integer helpers are exact and leave their arguments alone",
  "Exponentiation equals base to the exponent modulo 2^256, signed and unsigned 256-bit reinterpretation are exact two's complement inverses, fixed-length big-endian encodings have at least the requested length, padded on the left, and truncate nothing, byte extraction and lowest-set-bit agree with the binary expansion, and maximum, minimum and power agree with integer arithmetic. "
  "Except for the two documented destructive conversions, no argument is modified.",
  ["inputs"], "bounded-exhaustive families of operands: all small values, all values with at most two set bits or bytes, and all values within 2 of powers of two, in all pairs",
  "The package has no tests in this repository; word- and byte-boundary errors need the boundary families.",
  BM, [("Exp/S256/U256/U256Bytes/PaddedBigBytes/ReadBits/Byte/FirstBitSet/BigPow/BigMax/BigMin", "common/math/big.go")], None, ["results", "arguments after the call"])
p("M02", "Hex-or-decimal 256-bit text parses exactly and round-trips",
  "Parsing accepts exactly the empty string (zero), decimal numerals and numerals with a 0x or 0X prefix whose magnitude fits in 256 bits, and returns their exact value; everything else is rejected and leaves the target unchanged. "
  "The hex and decimal wrapper types print any non-negative value up to 256 bits as 0x hexadecimal and plain decimal text respectively, which parses back to the same value.",
  ["inputs"], "all strings up to a length over a class alphabet and all values of boundary families up to 257 bits",
  "The package has no tests in this repository.",
  BM, [("ParseBig256", "common/math/big.go"), ("HexOrDecimal256/Decimal256", "common/math/big.go")], None, ["parsed values, text forms"])
p("K01", "Keccak digests equal the specification for every length and chunking",
  "The Keccak-224/256/384/512 digest of a message depends only on its bytes and equals the original Keccak specification, however the message is split over Write calls. "
  "Sum appends the digest to its argument without changing the running state, so hashing can continue, Reset returns to the initial state, and Size and BlockSize are those of the specification; independent hashers do not influence each other.",
  ["inputs", "histories"], "every message length from 0 to beyond two blocks for each variant, every two-way and (around lane and block limits) every three-way split, and all short operation sequences of Write, Sum and Reset",
  "No test covers the package; alignment and block-boundary errors need all lengths and splits.",
  ["crypto/sha3/sha3.go", "crypto/sha3/keccakf.go"], [("Write/unalignedAbsorb/pad/squeeze", "crypto/sha3/sha3.go"), ("keccakF1600", "crypto/sha3/keccakf.go")], [("a, absorbed", "sponge state", "crypto/sha3/sha3.go")], ["Sum output"])
p("K02", "Elliptic curve operations obey the group law for all points and scalars",
  "On any curve y^2 = x^3 + b of this package's form, addition, doubling and scalar multiplication agree with the affine group law for every pair of points (equal, opposite and the identity, written (0,0), included) and every scalar, IsOnCurve holds exactly for the points of the curve, and multiplying the base point by the group order yields the identity. "
  "The four named curves have the published SEC 2 parameters, coordinates of results lie within the field, arguments are never modified, and concurrent first use of the curves is safe.",
  ["inputs"], "all point pairs and all scalars on every curve over small prime fields, boundary scalars on the named curves",
  "No test covers the curves; exceptional cases of the formulas are hit with negligible probability by samples on large curves.",
  ["crypto/curve.go"], [("addJacobian/doubleJacobian/affineFromJacobian", "crypto/curve.go"), ("ScalarMult", "crypto/curve.go"), ("initAll constants", "crypto/curve.go")], None, ["returned coordinates"])
p("K03", "Key generation and point serialisation are correct for every random stream",
  "For every byte stream of the random source, key generation either fails with the source's error or returns a private key of the field's byte length together with the public point that is exactly that key times the base point, never the identity and always on the curve. "
  "Marshalling a point gives 04 followed by both coordinates in fixed-length big-endian form, unmarshalling inverts it and rejects every other length or leading byte. "
  "The key has at most the field's bits and keeps every random bit among them: different random blocks of that many bits give different keys. The system's random source is handed through byte for byte, and its failure never yields bytes.",
  ["inputs", "fault_sequences"], "all random streams on toy curves including short reads and errors at every position, all points of toy curves, boundary coordinates on the named curves",
  "No test covers key generation; a leading-zero coordinate or a zero scalar is too rare for samples on the large curves.",
  ["crypto/curve.go"], [("GenerateKey", "crypto/curve.go"), ("Marshal/Unmarshal", "crypto/curve.go")], None, ["returned key, point, error and bytes"])
p("K04", "Mnemonic encoding is lossless for 256-bit messages",
  "Encoding a 64-digit lower-case hex message gives 24 words of the word list and decoding them returns the message, for every message; the word list has 1626 distinct words, and the encoding of one 8-digit group depends on nothing but that group; a list of words decodes three by three. "
  "Index lookup returns the first position of a word and -1 for an absent one.",
  ["inputs"], "all values of a group within bounds around every multiple of the list length and its square, at every group position",
  "The existing test covers one message; modular wrap-around needs the boundary values in each of the three digits.",
  ["crypto/mnemonic.go", "crypto/mnemonic_words.go"], [("MnemonicEncode/MnemonicDecode", "crypto/mnemonic.go"), ("MnemonicWords", "crypto/mnemonic_words.go")], None, ["words and decoded message"])
p("L01", "Child loggers inherit context and handler without affecting each other",
  "A record written through a logger carries the contexts of its ancestors, outermost first, then its own, then the call's, with the given message and level and the time of the call; creating children or logging never changes the context of any other logger nor any slice or map the caller passed in. "
  "A child uses its parent's current handler until it is given its own, a handler set on a child never affects its parent or siblings, and an odd argument list is completed with a nil value and an error marker instead of being lost.",
  ["histories"], "all sequences of New, SetHandler and log calls up to a depth over a tree of loggers and a set of context shapes with spare capacity",
  "No test creates child loggers; slice aliasing shows only for particular capacities and orders.",
  ["log/logger.go", "log/handler_go14.go"], [("newContext copies", "log/logger.go"), ("normalize", "log/logger.go"), ("swapHandler chaining", "log/handler_go14.go")], None, ["records reaching the handlers"])
p("L02", "Logging never panics, whatever is logged and whatever is configured",
  "Every log call below critical level completes without panic for every mix of context values (nil, nil pointers, odd counts, non-string keys, nested or invalid lazies, errors and stringers on nil receivers) in every format, including before any handler was configured. "
  "Formatting such values yields the documented placeholder text rather than dropping the record: exactly one record reaches the handler per call.",
  ["inputs"], "all context lists up to three elements over an alphabet of awkward values, in every format and handler configuration",
  "Tests log only plain strings and numbers.",
  ["log/format.go", "log/root.go", "log/handler.go"], [("formatShared recover", "log/format.go"), ("evaluateLazy checks", "log/handler.go"), ("root handler default", "log/root.go")], None, ["panics", "number of records and output lines"])
p("L03", "Formatted log lines are injection-proof and decode to what was logged",
  "A logfmt or terminal context field prints as key=value in the order logged, where any key or value containing characters outside the plain printable range, spaces, quotes or equal signs is quoted so that unquoting returns it exactly. "
  "In logfmt a record is exactly one line, and no logged text can forge another field or line; a terminal message is quoted likewise if it holds an equal sign or any control or non-ASCII character but line breaks. "
  "Terminal output has the level (coloured if asked), time, optional origin and message in the documented places; padding (to forty columns behind a message, to the widest value of at most forty characters seen so far for a key, to the longest origin so far) adds spaces between fields only. "
  "JSON output is one valid JSON object, ended by a newline if asked for, holding time, level, message and each context pair (of distinct keys) with its value.",
  ["inputs"], "all messages, keys and values up to a length over an alphabet with a representative of each character class, in all formats and options",
  "TestSanitation covers five strings in one format.",
  ["log/format.go"], [("escapeString/escapeMessage", "log/format.go"), ("logfmt", "log/format.go"), ("JSONFormatEx/JSONFormatOrderedEx", "log/format.go")], [("fieldPadding", "widest value per key", "log/format.go")], ["formatted bytes"])
p("L04", "Thousands separators never change a logged number",
  "A formatted integer with its separators removed is exactly the decimal numeral of the number, the separators stand at every third digit from the right and nowhere else, and numbers below one hundred thousand in magnitude carry none; this holds for all signed, unsigned and big integers, positive and negative, directly and when logged as a value.",
  ["inputs"], "all integers below a bound, all values within 2 of every power of ten, two and word boundary of either sign, for every integer type",
  "Tests list a dozen numbers.",
  ["log/format.go"], [("formatLogfmtUint64/formatLogfmtBigInt", "log/format.go")], None, ["formatted text"])
p("L05", "Handlers and filters pass exactly the records their configuration selects",
  "Level, match and function filters pass exactly the matching records; a multi handler gives every record to all its handlers regardless of their errors; a failover handler stops at the first handler that succeeds, annotates the record for each one that failed and otherwise returns the last error; lazy values are replaced by their results or an error marker; caller handlers add their one field. "
  "The verbosity handler passes a record exactly when its level is within the global verbosity or within the level of the first module pattern (of those with a positive level) matching its call site, after any sequence of Verbosity and Vmodule changes, rejects malformed pattern lists without changing anything, and adds a stack dump, raising the record to info level, at the configured location only. A record's call site is the line that called the logger, or for output with a call depth that many callers further up.",
  ["histories", "inputs", "fault_sequences"], "all handler trees up to a size with all error patterns, and all sequences of Verbosity, Vmodule and log calls up to a depth over a set of call sites and patterns",
  "No existing test covers handlers; cached per-site decisions need sequences of reconfiguration.",
  ["log/handler.go", "log/handler_glog.go"], [("FilterHandler/MultiHandler/FailoverHandler/LazyHandler", "log/handler.go"), ("GlogHandler.Log with siteCache", "log/handler_glog.go"), ("Vmodule pattern compilation", "log/handler_glog.go")], [("siteCache", "decisions per call site", "log/handler_glog.go")], ["records reaching the inner handlers", "returned errors"])
p("L06", "Concurrent logging loses, tears and reorders nothing",
  "With any number of goroutines logging through shared loggers, a synchronised or stream handler receives every record exactly once, one at a time, and each goroutine's records in its program order; a buffered handler delivers every record in order; a record is handled by a handler that was installed at some moment during the call. "
  "A lazy value may itself log. Changing handlers, verbosity or module patterns and toggling origins concurrently with logging neither races on memory nor yields a decision that matches no verbosity and no pattern list in force during the call, nor a cached decision that outlives its configuration.",
  ["schedules"], "all interleavings of two or three goroutines logging and reconfiguring, up to the preemption bound reported",
  "No existing test logs concurrently.",
  ["log/handler.go", "log/handler_go14.go", "log/handler_glog.go", "log/format.go"], [("SyncHandler mutex", "log/handler.go"), ("swapHandler atomic value", "log/handler_go14.go"), ("GlogHandler lock and siteCache reset", "log/handler_glog.go"), ("fieldPaddingLock", "log/format.go")], None, ["records reaching the handlers", "data races"])
p("L07", "Records reach files, connections and syslog whole, in order and at once",
  "A file handler appends to the file, which it creates with mode 0644 (less the umask) if there is none, and never changes what was there. When Log returns nil, the record's formatted bytes are completely in the file, after those of every earlier call, whatever their size, also with several handlers and other writers on the file, after a truncation or removal of the name, and in whatever way the process ends afterwards; Crit has written its record when the process exits with status 1. "
  "A network handler sends each record's formatted bytes exactly once and in order over its connection. A syslog handler sends each record as one message with the facility and tag it was made with, the severity of the record's level (crit, error, warn, info, debug) and the formatted text without surrounding white space, and nothing for a trace record. "
  "Lazy values are evaluated first. An error of the write is returned by Log; a target that cannot be opened gives an error and no handler, and the Must form panics with that error.",
  ["histories", "inputs", "crash_points", "fault_sequences"], "all histories of 6 [7] operations on two files with up to three handlers and on connections of four kinds, all ways to end after every number of records, record sizes to 2^18 [2^22], all facilities, severities and levels",
  "The existing tests open one gzip file and one socket; appending, sharing, the end of the process, errors and syslog are untested.",
  ["log/handler.go", "log/syslog.go", "log/logger.go", "log/root.go"], [("FileHandler/NetHandler/StreamHandler", "log/handler.go"), ("sharedSyslog", "log/syslog.go"), ("must", "log/handler.go"), ("Crit", "log/logger.go")], [("file contents", "bytes of the records in order", "log/handler.go")], ["file contents and modes", "bytes at the peer", "errors and panics", "exit status"])
p("R01", "RLP struct tag processing follows its documented rules for every struct",
  "For every list of struct fields, processing returns exactly the exported, non-ignored fields in order with the tags they carry, or an error: unknown tags, nil tags on non-pointers, tail together with optional, tail not on the last exported field or not on a slice, and any field after an optional one that is neither optional nor tail are rejected, naming the field and tag; everything else is accepted. "
  "The nil kind of a pointer is that of the element type: string for unsigned integers, booleans, strings and byte arrays or slices, list for everything else, unless the tag names it.",
  ["inputs", "programs"], "all field lists up to three fields over all tag combinations up to two tags and a set of types",
  "No test covers the package.",
  ["rlp/internal/rlpstruct/rlpstruct.go"], [("ProcessFields/parseTag", "rlp/internal/rlpstruct/rlpstruct.go"), ("DefaultNilValue", "rlp/internal/rlpstruct/rlpstruct.go")], None, ["returned fields, tags and errors"])
p("R02", "Generated RLP methods encode per specification and decode what they encode",
  "For every supported struct type, the generated code compiles and its encoder writes the RLP encoding that the field types and tags prescribe (trailing zero optional fields dropped, nil pointers as the empty value of their kind, raw values and custom encoders verbatim, negative big integers rejected), and its decoder accepts exactly the canonical encodings of values of the type and returns the encoded value (an empty value of the nil kind is a nil pointer where a nil tag allows one). "
  "Types the generator does not support (signed and platform-sized integers, floats, maps, channels, functions, interfaces, arrays of anything but bytes, one-sided or value-receiver custom codecs, tail fields, recursive and generic types, fields whose tags are invalid) are rejected with an error, never with wrong code or a crash.",
  ["programs", "inputs"], "all struct shapes up to three fields over the supported field types and tags, each with bounded-exhaustive field values and all byte strings up to a length as decoder input",
  "The generator's tests cannot even start here (they import a package that does not exist) and only compare text for five examples.",
  ["rlp/rlpgen/gen.go", "rlp/rlpgen/types.go", "rlp/rlpgen/main.go"], [("op.genWrite/genDecode", "rlp/rlpgen/gen.go"), ("nonZeroCheck", "rlp/rlpgen/types.go"), ("makeOp", "rlp/rlpgen/gen.go")], None, ["generated code run against a reference RLP codec"])
p("P01", "RPC messages are dispatched to handlers and answered with the matching id",
  "Every well-formed call of a JSON-RPC message reaches the registered method with its arguments in order and is answered exactly once with the id of the call, and every response resolves the pending request of its id.",
  ["schedules", "histories"], "all interleavings of requests, responses and cancellations on one connection",
  "The package does not compile, so nothing can be run.",
  ["rpc/handler.go", "rpc/service.go", "rpc/json.go"], [("handler", "rpc/handler.go")], None, ["responses"])
p("P02", "Block parameters of RPC calls are parsed strictly and print back the same",
  "A block number in JSON is accepted exactly if it is one of the five tags (earliest 0, latest -1, pending -2, finalized -3, safe -4) or a canonical 0x quantity of at most 2^63-1; anything else is rejected and leaves the target unchanged. Its text form is the tag or the quantity and parses back to the same number. "
  "A number-or-hash parameter accepts a tag, a quantity, a 32-byte hash string, or an object with at most one of number and hash and the canonical flag; it reports through Number and Hash exactly the one it holds, and the constructors round-trip.",
  ["inputs"], "all strings up to a length over an alphabet of the relevant characters, all tags, quantities around every boundary, and all objects over sets of fields and values",
  "The package does not even build, so it has no running tests; boundary quantities and malformed objects need enumeration.",
  ["rpc/types.go"], [("BlockNumber.UnmarshalJSON/MarshalText", "rpc/types.go"), ("BlockNumberOrHash.UnmarshalJSON", "rpc/types.go")], None, ["parsed values", "errors"])
p("P03", "RPC services expose exactly their suitable methods and calls reach them intact",
  "Registering a receiver exposes exactly its exported methods with at most two results of which, if any is an error, it is the last and, with two, the second is an error; names have their first letter lower-cased, and methods taking a context and returning a subscription and an error are subscriptions instead of calls. "
  "A method is found by service, underscore and name, split at the first underscore; later registrations under one name add and replace; an empty name or a receiver without suitable methods is rejected without effect. "
  "A call passes the context, if the method wants one, and all arguments in order, returns the method's result or error, and turns a panic into an internal error (code -32603) instead of ending the process.",
  ["inputs", "histories"], "all method signatures up to a number of parameters and results over a set of types, all registration sequences up to a depth, and all lookups over an alphabet of names",
  "The package has no running tests; signatures and registration orders are a product space.",
  ["rpc/service.go"], [("suitableCallbacks/newCallback", "rpc/service.go"), ("serviceRegistry.registerName/callback", "rpc/service.go"), ("callback.call", "rpc/service.go")], [("serviceRegistry.services", "registered callbacks per service", "rpc/service.go")], ["registered names", "arguments received", "results and errors"])
p("P04", "Client subscriptions deliver every notification in order and end exactly once",
  "Every notification a client subscription accepts is put on the subscriber's channel exactly once and in order, and a slow receiver never blocks the dispatcher; if more than 20000 wait for it, the subscription ends with an overflow error. The subscription ends by Unsubscribe, by a notification that cannot be decoded, or when the connection is lost, whichever comes first; the error channel then carries the cause once (nothing if unsubscribed, nil if the client quit) and is closed. Unsubscribe may be called at any time, repeatedly and concurrently, and returns with the error channel closed; later notifications are refused, the server is told exactly when the subscription ended on this side, and no goroutine stays behind. "
  "A successful answer to a subscription request stores and starts the subscription under the server's id; an error or a malformed id leaves nothing registered and the error is reported.",
  ["schedules", "fault_sequences"], "all interleavings of notifications, receives, unsubscriptions and connection loss by up to three goroutines within the reported bound",
  "The package has no running tests; lost errors and deadlocks need particular orders of three goroutines.",
  ["rpc/subscription.go", "rpc/handler.go"], [("ClientSubscription.run/forward/deliver/close/Unsubscribe", "rpc/subscription.go"), ("handleResponse/handleSubscriptionResult/cancelAllRequests", "rpc/handler.go")], [("ClientSubscription.quit/forwardDone/unsubDone/in", "hand-over between dispatcher, forwarder and user", "rpc/subscription.go")], ["values received", "error channel", "unsubscribe requests", "blocked goroutines"])
p("P05", "Server-side notifications, batches and connections survive every interleaving",
  "A notifier writes nothing before it is activated, then every notification exactly once and in order of the calls, with at most one subscription per call. Unsubscribing a server subscription (or losing the connection, which delivers its error) ends it exactly once, of several attempts exactly one succeeds, and its error channel is closed. Closing a connection waits for its running calls and cancels their contexts. "
  "A batch is answered with exactly one write carrying one answer for each call and none for notifications, in order, even if its timeout fires at any moment (the calls without an answer then get the timeout error). "
  "Stopping the server closes every tracked connection once and refuses new ones and single requests; a single request that cannot be read is answered with one parse error (none at the end of input); closing a client's connection closes the transport once, after its calls; concurrent registrations, lookups and generation of ids lose and repeat nothing.",
  ["schedules"], "all interleavings of two or three goroutines per scenario within the reported bound",
  "The package has no running tests; double answers and lost notifications need a particular interleaving.",
  ["rpc/subscription.go", "rpc/handler.go", "rpc/server.go", "rpc/service.go"], [("Notifier.Notify/activate/takeSubscription", "rpc/subscription.go"), ("batchCallBuffer", "rpc/handler.go"), ("handler.close/addSubscriptions/unsubscribe", "rpc/handler.go"), ("Server.Stop/trackCodec", "rpc/server.go")], [("Notifier.buffer/activated", "notifications held back", "rpc/subscription.go"), ("batchCallBuffer.calls/resp/wrote", "progress of a batch", "rpc/handler.go")], ["messages written", "error channels", "closed connections"])
p("P06", "RPC messages are classified, answered and matched to requests by id",
  "A message is a notification, a call, a response or none of them, never two, by its version, id, method, result and error. The answer to a call is version 2.0 with the id of the call and exactly one of result and error, and holds nothing else; an error carries its message, its code if it has one (-32000 otherwise) and its data if it has any, and a result that cannot be encoded is answered with an internal error. "
  "A response reaches exactly the pending request with its id, once, alone or in a batch, and no other; when requests are cancelled every pending one except the excluded ends once with the given error. Subscription ids are canonical hex quantities, and every byte of the generator's seed and output counts.",
  ["inputs", "histories"], "all messages over sets of values per field, all sequences of requests, responses and cancellations up to a depth, and id bytes around every boundary",
  "The package has no running tests; classification is a product of six fields and matching a history.",
  ["rpc/json.go", "rpc/handler.go", "rpc/subscription.go", "rpc/errors.go"], [("jsonrpcMessage.isNotification/isCall/isResponse/response/errorMessage", "rpc/json.go"), ("handler.addRequestOp/handleResponse/cancelAllRequests", "rpc/handler.go"), ("encodeID/randomIDGenerator", "rpc/subscription.go")], [("handler.respWait", "pending requests by id", "rpc/handler.go")], ["message fields", "request outcomes", "ids"])
for x in P:
    if x["id"] in "C01 C02 C03 C04 H01 K01 K02 K03 K04 M01 M02 S01 J01".split():
        x["statement"] += " Results belong to the caller: neither later calls nor changes made to other results alter them, and calls made at the same time do not influence each other."
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
