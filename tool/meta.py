#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)

C = "codec/src/main/java/com/finproto/codec/"
B = "codec/src/main/java/com/finproto/bitmap/"
MSG = ["*-bin/src/main/java/com/finproto/**/messages/*.java"]
CODEC = C + "BinaryCodec.java"
AI = "abstract interpretation of the type-checked Java AST into symbolic effect summaries"

P = []
NA = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note, observe=None, claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))
    P[-1]["_m"] = (technique, note, claimed, reason)


RT = "The tests encode one value per message with every text filled with the digit 1 and no field absent, so they sample one point of the input space."

prop("C01", "Decode of encode gives back every field",
     "For every message type of every protocol, decoding the bytes produced by encoding a message into a newly constructed message gives, field by field, what was encoded. Absent and empty text, and absent and empty lists, count as equal, and fixed-width text counts up to its padding. Decoding consumes exactly the bytes that encoding wrote.",
     ["inputs"], "all field values that fit the wire widths, all list lengths up to 65535, every text or list field absent, empty or filled (thorough: every pair of such variations)",
     RT, MSG + [CODEC], [("encode and decode of each message class", "encode(ByteBuf)/decode(ByteBuf) of all 182 message classes"), ("shared text, list and number helpers", CODEC)],
     AI + "; encode's symbolic byte stream is fed to decode's and the resulting heap compared",
     "Sound for the modelled Java and Netty operations; anything outside the model is reported as undecided, never as held silently. Trusts the library model of ByteBuf and the JDK collections.")
prop("C02", "Each message keeps its wire layout",
     "The bytes of every message are laid out in the order, widths, signedness-neutral integer sizes, text widths, paddings, count prefixes and nested groups that its protocol fixes. Every message type of each protocol exists, and no encoded field is missing, duplicated, reordered, widened, narrowed or written from another field.",
     ["inputs"], "every message class, every presence/absence combination of one field (thorough: of two), all values",
     "The tests only check that decode inverts encode, so a change made on both sides at once (swap two fields, another width) passes them all.",
     MSG + [CODEC], [("encode methods", "encode(ByteBuf) of each message class"), ("committed layout specification", "/verif/spec/layout.txt")],
     AI + "; the symbolic byte stream is matched against a committed layout specification",
     "The specification was frozen from the pinned tree (the schema submodule is empty in the checkout) after cross-checking sibling messages, so it decides stability of the wire format, not conformance to the exchanges' documents.")
prop("C03", "One byte order per protocol",
     "All multi-byte integers of the SSE, SZSE and risk protocols, including length and count prefixes, frame lengths and checksums, are written and read most significant byte first. All those of the BJSE and sample protocols are written and read least significant byte first.",
     ["inputs"], "every multi-byte read and write reachable from any message's encode or decode",
     "A helper that swaps the order on both the write and the read side still round-trips, and the tests compare with nothing else.",
     MSG + [CODEC], [("little-endian and big-endian helper families", CODEC)],
     AI + "; byte-order attribute of every wire effect on every path",
     "Every read/write effect found in the summaries is classified; palindromic constants are exempt.")
prop("C04", "Fixed-width text takes exactly its declared width",
     "Writing a text into a fixed-width field puts exactly as many bytes in the buffer as the field is wide, whatever the text is: absent, empty, shorter, exact, longer, or containing characters of more than one byte. Reading the field consumes exactly that width, whatever the bytes are.",
     ["inputs"], "all texts, all paddings, both alignments, all widths, and every fixed-width field of every message",
     "The tests write one text of ordinary length per field and two paddings; they never write multi-byte, over-long or absent text.",
     [CODEC] + MSG, [("fixed-width text writer and reader", CODEC)],
     AI + "; symbolic byte count of the writer/reader over all length relations",
     "Length relations (shorter/equal/longer/absent) are decided symbolically over the encoded byte length, so they cover all texts at once.")
prop("C05", "Fixed-width text keeps its content, padded and trimmed alike",
     "A fixed-width text field carries the UTF-8 bytes of the text, cut to the field width, with the declared pad character filling the declared side only. Reading drops exactly the run of that pad character at that side and returns the rest unchanged, so a text that fits and does not itself begin or end with the pad at that side comes back as it was. An absent text is carried as all padding.",
     ["inputs"], "all texts, pad characters and alignments; every fixed-width field of every message",
     "The tests use texts of 1s without leading or trailing pad characters and never look at the bytes.",
     [CODEC] + MSG, [("fixed-width text writer and reader", CODEC), ("padding conventions of the fields", "writeFixedString/readFixedString calls in the message classes")],
     AI + "; byte-by-byte content of the written region and loop-summary of the trim",
     "The cut of a multi-byte character at the field end is not claimed to be at a character boundary.")
prop("C06", "Length and count prefixes tell exactly what follows",
     "Every length or count prefix equals the number of bytes or elements written right after it, and is zero, with nothing after it, when the text or list is absent or empty. Decoding reads exactly as many bytes or elements as the prefix, taken as an unsigned number of its width, announces.",
     ["inputs"], "all texts and lists up to 65535 bytes or elements, each absent, empty or filled",
     "The tests hold a couple of elements per list, none absent or empty, and never above 32767 where an unsigned prefix differs from a signed one.",
     [CODEC] + MSG, [("length-prefixed text and list helpers", CODEC), ("repeating groups written inline", "encode/decode of messages with repeating groups")],
     AI + "; prefix value compared with the symbolic size of what follows",
     "Sizes beyond what the prefix can hold are outside the property.")
prop("C07", "A frame's length field equals its body's size",
     "After encoding a framed packet of the sample, SSE, SZSE or risk protocol, the length on the wire is exactly the number of bytes its body takes, and the packet object reports that same length. It does so whatever the buffer already held, whatever length value the packet object had before, and for every body type.",
     ["inputs", "histories"], "any body, any prior buffer contents and positions, any earlier state of the packet object",
     "The tests encode into an empty buffer once, with the body's real length never compared with the field.",
     ["*-bin/src/main/java/com/finproto/**/messages/{RootPacket,SseBinary,SzseBinary,RcBinary}.java"],
     [("length back-patching", "encode of the four framed packets")],
     AI + "; back-patched length compared with the symbolic extent of the body region",
     "Bodies up to 2^31 bytes; the BJSE frame carries a caller-supplied length and is outside the property.")
prop("C08", "A frame's checksum covers exactly that frame",
     "A frame with a checksum ends with the checksum, computed by the protocol's algorithm over precisely the bytes of that frame that precede it, after the length has been filled in. Bytes of the buffer before the frame do not count, and the packet object reports the checksum that was written.",
     ["inputs", "histories"], "any frame contents and any earlier buffer contents",
     "The tests encode one frame into an empty buffer and compare only what decode reads back.",
     ["*-bin/src/main/java/com/finproto/**/messages/{RootPacket,SseBinary,SzseBinary}.java", C + "ChecksumServiceFactory.java"],
     [("checksum computed at the end of encode", "encode of the three framed packets"), ("algorithm lookup", C + "ChecksumServiceFactory.java")],
     AI + "; region, order and algorithm of the checksum effect",
     "If the algorithm has been removed from the registry the frame is out of scope; the value of the algorithm itself is C09.")
prop("C09", "The checksum algorithms compute their standard functions",
     "CRC16 is CRC-16/MODBUS, CRC32 is the ISO-HDLC (zip) CRC-32, and the SSE and SZSE checksums are the sum of all bytes modulo 256, as a number from 0 to 255, for every readable content of the buffer wherever it starts. Verification accepts a checksum exactly when it equals the computed one.",
     ["inputs"], "all byte sequences of all lengths, at any reader position",
     "The tests compute two CRCs of one nine-byte text; the two summing algorithms are called by no direct test.",
     [C + "Crc16ChecksumService.java", C + "Crc32ChecksumService.java", C + "SseBinChecksumService.java", C + "SzseBinChecksumService.java", C + "ChecksumService.java"],
     [("table or bitwise update loops", "calc of the four services")],
     "abstract interpretation into loop summaries, then an affine (GF(2)) relational domain over the loop state compared with the reference recurrence",
     "Exact for every byte sequence: the affine closure for the CRCs, residues modulo 256 for the sums (byte sums below 2^31, that is contents up to 8 MB). Verification of an absent checksum is included. An implementation outside both domains is undecided, not accepted.")
prop("C10", "Computing or verifying a checksum changes nothing",
     "Computing or verifying a checksum leaves the buffer's contents and its reader and writer positions as they were, and two computations over the same bytes give the same value. No state is kept from one computation to the next.",
     ["inputs", "histories"], "any buffer, any sequence of computations",
     "The tests compute each checksum once on a throw-away buffer.",
     [C + "*ChecksumService.java"], [("index-based reads only", "calc of the four services")],
     AI + "; effect sets of calc and verify",
     "Covers the four services and the default verification.")
prop("C11", "The checksum registry holds what was registered",
     "The four standard algorithms are available by name from the start, each name giving the service that computes it. A service registered under a free name is the one looked up under it until it is removed; registering under a taken name is refused and keeps the present service. Looking up an unknown name gives nothing, and registering or removing one name leaves every other name alone.",
     ["histories", "inputs"], "any sequence of register, look up and remove calls with any names",
     "No test registers, removes or looks up a service.",
     [C + "ChecksumServiceFactory.java"], [("name to service map", C + "ChecksumServiceFactory.java")],
     AI + "; symbolic map algebra of the registry operations",
     "Sequential histories; concurrent registration is not covered.")
prop("C12", "Each type code is dispatched to its message class",
     "Every type code of every protocol's frames and extension groups selects the message class that the protocol assigns to it, as a new object on every decode. Registering a code adds or replaces just that code, and removing it takes just that code away.",
     ["inputs", "histories"], "all codes of all 19 dispatch tables, any sequence of register/remove calls",
     "Round-trip tests build each body directly and cover some codes once; none registers or removes.",
     ["*-bin/src/main/java/com/finproto/**/messages/*Factory.java", "*-bin/src/main/java/com/finproto/**/messages/*.java"],
     [("code to constructor maps", "the Body, ApplExtend and Payload factories and inline maps")],
     AI + "; static map contents against a committed dispatch specification, map algebra for register/remove",
     "Dispatch specification frozen from the pinned tree.")
prop("C13", "An unknown type code is rejected",
     "Decoding a frame or an extension group whose type code is not known fails with an IllegalArgumentException; it never yields a message of another type, an absent body, or a silently skipped one. Asking a factory for an unregistered code fails the same way.",
     ["inputs"], "all codes outside each dispatch table",
     "No test decodes an unknown code.",
     ["*-bin/src/main/java/com/finproto/**/messages/*.java"], [("null check after lookup", "create methods of the factories")],
     AI + "; must-throw over the paths on which the lookup misses",
     "Covers all 19 dispatch points.")
prop("C14", "SSE type codes and message classes agree both ways",
     "In the SSE protocol the type code looked up for a message class is exactly the code under which that class is dispatched, after any sequence of registrations and removals. Every named message type maps to a distinct code, and looking a code up by value gives back the name that carries it or fails for unknown values.",
     ["inputs", "histories"], "all SSE codes and classes, any register/remove sequence",
     "No test calls the reverse lookup for more than the classes it encodes, and none changes the registration.",
     ["sse-bin/src/main/java/com/finproto/sse/bin/messages/*"], [("forward and reverse maps", "the SSE body factory"), ("named codes", "MessageType")],
     AI + "; two-way map algebra",
     "Sequential histories.")
prop("C15", "Decoding into a used message leaves nothing of its past",
     "Decoding into a message object that already holds values gives the same fields as decoding the same bytes into a newly constructed one. No text, list element, nested message or number from before survives, in particular when the incoming text, list or group is empty.",
     ["histories", "inputs"], "any earlier contents of the object, any incoming bytes",
     "Every test decodes into a new object.",
     MSG + [CODEC], [("unconditional assignment in decode", "decode of each message class")],
     AI + "; dependence of the decoded heap on the pre-state",
     "Covers all message classes with each field absent, empty or filled.")
prop("C16", "Encoding is repeatable and leaves the message alone",
     "Encoding the same unchanged message again produces the same bytes again, in whatever buffer and however often. Encoding changes no field of the message or of its nested messages and lists, except that a frame's own computed length and checksum are filled in.",
     ["histories", "inputs"], "any message, any number of encodings, any earlier buffer contents",
     "The tests encode each object once.",
     MSG + [CODEC], [("encode only reads fields", "encode of each message class")],
     AI + "; write effects of encode and dependence of the bytes on mutable state",
     "For a frame whose algorithm is not registered the checksum falls back to a constant.")
prop("C17", "Messages share no mutable state",
     "Two message objects never influence each other: what one encodes, decodes, holds or reports does not depend on operations done on another. A newly constructed message starts with the same field values however many were constructed before.",
     ["histories", "schedules"], "any interleaving of operations on distinct objects",
     "Each test works with one or two objects in one thread.",
     MSG + [CODEC], [("no static mutable buffers, lists or caches", "all message classes and shared helpers")],
     "effect inference: reads and writes of static state and escaping shared objects over the resolved call graph",
     "The dispatch and checksum registries, changed only by explicit registration, are outside.")
prop("C18", "Message equality is field-by-field equality",
     "Two messages are equal exactly when they have the same class and all their fields are equal, deeply, numbers and text by value. Equality is reflexive and symmetric, false against null and other classes, and never fails on absent fields.",
     ["inputs"], "all pairs of messages of all classes",
     "The tests compare a message with its decoded copy only, so a comparison that ignores a field passes.",
     MSG, [("equals", "equals(Object) of each message class")],
     AI + "; the result formula of equals against the conjunction over all fields",
     "Nested values are compared by their own equals, covered in turn.")
prop("C19", "Equal messages have equal hash codes",
     "The hash code of a message is always computed, without failing, from the values of fields that take part in equality and nothing else, so equal messages have equal hash codes. It is the same every time it is asked for while the message does not change.",
     ["inputs"], "all messages of all classes, including messages without fields and with absent fields",
     "No test calls hashCode.",
     MSG, [("hashCode", "hashCode() of each message class")],
     AI + "; atoms of the hash term against the fields compared by equals; recursion detection",
     "")
prop("C20", "The printed form shows every field under its name",
     "The printed form of a message names its class and shows every field once, by its own name with its own current value, in brackets. Printing works for absent fields and changes nothing.",
     ["inputs"], "all messages of all classes, any field values, present or absent",
     "No test looks at the printed form.",
     MSG, [("toString", "toString() of each message class")],
     AI + "; concatenation structure of the result",
     "Separators and spacing are not fixed.")
prop("C21", "Setters and getters of a property agree",
     "After setting a property of a message, getting it gives back exactly the value that was set (for a list or nested message: that very object, not a copy), for any value, and every other property is unchanged. Getters change nothing.",
     ["inputs", "histories"], "all properties of all classes, any value, any order of calls",
     "Tests reach each accessor with one value and mostly compare whole objects.",
     MSG, [("accessors", "getX/setX of each message class")],
     AI + "; composition of the setter's and getter's summaries",
     "")
prop("C22", "Truncated input is reported, never half-accepted",
     "Decoding a proper prefix of a message's encoding fails with an exception; it never returns normally with missing fields left absent or zero or filled from elsewhere. No failure while reading is swallowed, and none of the decoding depends on how many bytes happen to be readable.",
     ["inputs"], "every truncation point of every message",
     "No test decodes a truncated message.",
     MSG + [CODEC], [("checked buffer reads", "decode of each message class and the shared readers")],
     AI + "; no handler swallows a read failure, no read is conditioned on remaining bytes, every width is consumed through a checked read",
     "Relies on Netty's checked reads raising IndexOutOfBoundsException.")
prop("C23", "Decoding terminates with work bounded by its input",
     "For any input bytes, decoding ends: every loop runs a number of times fixed by a count in the input or a constant, counting neither backwards nor past its end, and no decoding recurses without consuming input. Memory is allocated only in step with bytes actually read or with the fixed widths, so a short hostile input cannot make decoding allocate far more than the input's own counts justify.",
     ["inputs"], "all byte sequences",
     "The tests decode well-formed bytes only.",
     MSG + [CODEC], [("count-driven loops", "decode of each message class and the shared readers")],
     AI + "; loop trip counts, allocation sizes and recursion in decode summaries",
     "A list pre-sized by a 16-bit count is accepted; one pre-sized by an unchecked 32-bit count is not.")
prop("C24", "Bitmaps are sets of positions",
     "In each bitmap type, for every position below its bit count (8, 16, 32 and 64), setting the position makes it present and clearing makes it absent, and neither changes any other position. A new bitmap is empty, and neither asking for a position nor writing the bitmap to a buffer changes it.",
     ["inputs", "histories"], "all positions of all four bitmap types, any sequence of operations",
     "The tests cover the 8-bit bitmap with a few positions and none of the wider ones.",
     [B + "*.java"], [("bit masks of set, get and clear", B)],
     AI + "; every bit of the backing value as a boolean function (canonical decision graph) of the earlier bits, per position",
     "Exact for every content of the bitmap at once. Positions outside 0..bits-1 are outside the property.")
prop("C25", "A bitmap read back from its bytes is the same set",
     "Writing a bitmap to a buffer and reading the bytes into a bitmap of the same type gives the same set of positions and consumes exactly the bytes written.",
     ["inputs"], "all contents of all four bitmap types",
     "Only the 8-bit bitmap is written and read by a test, with one content.",
     [B + "*.java"], [("write and read", B)],
     AI + "; every bit as a boolean function through write and read",
     "ShortBitMap, IntBitMap and LongBitMap lose or move positions on the pinned tree; these are recorded as known findings by type and exact position map, so any other deviation is still reported.")
prop("C26", "Wire bytes do not depend on the platform",
     "The bytes a message encodes to, and the fields it decodes to, depend on the message or bytes alone: not on default charset, locale, time zone, clock, randomness, system properties, environment, identity hash codes or the iteration order of unordered collections. Text is always UTF-8.",
     ["configurations", "inputs"], "all platforms and settings, all messages",
     "The tests run under one platform setting with ASCII text.",
     MSG + [CODEC], [("explicit charset everywhere", CODEC)],
     "effect inference over the resolved call graph: no platform-dependent source reaches encode or decode",
     "")
prop("C27", "Encode only appends and decode only advances",
     "Encoding writes only at and after the writer position the buffer had when it was called, leaves the reader position and earlier bytes untouched, and leaves the writer position right after the message. Decoding never writes to the buffer, reads only forward from the reader position, leaves it right after the message, and keeps no reference to the buffer; neither retains, releases or clears it.",
     ["inputs", "histories"], "any buffer with any earlier contents, any message",
     "The tests use a new buffer per message and look at nothing but the decoded object.",
     MSG + [CODEC], [("sequential writes, back-patched length at a remembered index", "encode/decode of each message class")],
     AI + "; typestate of the buffer cursors over encode and decode summaries",
     "")

NA.append(("C28", "Conformance to the exchanges' published specifications",
           "For every message, the encoded bytes conform to the official interface documents of the exchange concerned.",
           "The schema submodule is empty in this checkout and no exchange document is available, so there is no oracle outside the code itself; C02 and C12 decide stability against a specification frozen from the pinned tree instead."))
NA.append(("C29", "Registration is safe while other threads decode",
           "Registering or removing a type code or checksum algorithm while other threads encode and decode never makes those threads fail or see a partly registered entry.",
           "The factories use unsynchronised maps by design (registration is meant for start-up); deciding it needs the actual schedules, and statically the only rule (every access synchronised) is violated by design without a documented promise to the contrary."))


def main():
    claimed = os.environ.get("CLAIM")
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for q in P:
            d = {k: v for k, v in q.items() if k != "_m"}
            f.write(json.dumps(d) + "\n")
        for id, t, s, _ in NA:
            f.write(json.dumps(dict(id=id, title=t, statement=s,
                    quantifier=dict(over=["inputs"] if id == "C28" else ["schedules"], text="all messages" if id == "C28" else "all interleavings of registration with use"),
                    why_tests_cant="No test has an outside reference for the bytes." if id == "C28" else "All tests are single-threaded.",
                    anchors=dict(files=MSG if id == "C28" else ["*-bin/src/main/java/com/finproto/**/messages/*Factory.java", C + "ChecksumServiceFactory.java"],
                                 mechanism=[dict(name="encode methods", where="encode(ByteBuf)")] if id == "C28" else [dict(name="registry maps", where="the factories")], observe_at=[], hook_needed=None))) + "\n")
    only = claimed.split(",") if claimed else None
    checks, na = [], [dict(property=i, reason=r) for i, _, _, r in NA]
    for q in P:
        t, note, ok, reason = q["_m"]
        if not ok or only and q["id"] not in only:
            na.append(dict(property=q["id"], reason=reason or "check not built yet"))
            continue
        checks.append(dict(property=q["id"], quick_cmd="./check.sh " + q["id"], thorough_cmd="./check.sh " + q["id"] + " thorough",
                           evidence_file="evidence/" + q["id"] + ".json", technique="static analysis: " + t, level="other",
                           level_note="Decided from /repo's current source on every run, without executing it. " + (note or "Anything the interpreter cannot model is reported as undecided.")))
    json.dump(dict(version=1, setup_cmd="./tool/build.sh", checks=checks, not_applicable=na,
                   notes="No hooks in /repo. Each check type-checks /repo's sources with the JDK compiler API and interprets them abstractly; see DESIGN.md."),
              open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)


main()
