#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text is reviewable)."""
import json, os
D, E, T, S, I = ("iso8583/decoder.py", "iso8583/encoder.py", "iso8583/tools.py", "iso8583/specs.py", "iso8583/__init__.py")
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))
prop("C01", "Decoding never fails with anything but DecodeError",
 "For every bytes or bytearray input, however malformed, and every well-formed specification (h, t, p, 1 present, mandatory field properties present, desc and the optional properties possibly absent, any codec name), decode either returns or raises DecodeError; no other exception (KeyError, UnicodeError, ValueError, IndexError, ...) ever reaches the caller. Input that is not bytes or bytearray is refused with TypeError.",
 ["inputs", "configurations"], "all byte strings received from a peer x all well-formed specifications",
 "Messages come from the network; the tests feed some fifty malformed messages with ascii/cp500 codecs, not every byte string under every codec and field configuration.",
 [D], [("handlers that convert every library failure into DecodeError", "iso8583/decoder.py:decode, _decode_field, _decode_bitmap, _decode_text_data, _remove_pad_field"), ("input type check", "iso8583/decoder.py:decode")], observe=["exceptions escaping iso8583.decode"])
prop("C02", "Encoding never fails with anything but EncodeError",
 "For every dict, whatever its keys and values (missing or malformed fields, non-string keys, numeric keys in non-canonical form, non-string values), and every well-formed specification, encode either returns or raises EncodeError; no other exception ever reaches the caller. A document that is not a dict is refused with TypeError.",
 ["inputs", "configurations"], "all dicts an application can build x all well-formed specifications",
 "The tests try a few wrong keys and values per encoding; the space of keys, values and configurations is unbounded.",
 [E], [("handlers that convert every library failure into EncodeError", "iso8583/encoder.py:encode, _encode_field, _encode_bindary_field, _encode_text_field, _encode_bitmap"), ("document type check and key validation", "iso8583/encoder.py:encode")], observe=["exceptions escaping iso8583.encode"])
prop("C03", "A successful decode accounts for every input byte exactly once",
 "When decode succeeds, concatenating the len and data bytes of the encoded dictionary in wire order (h, t, p, 1, then fields in ascending numeric order) reproduces the input exactly: no byte is skipped, overlapped or read twice, and nothing is left over. Input with bytes left after the last announced field is rejected.",
 ["inputs", "configurations"], "all accepted messages x all specifications",
 "Tests compare individual fields of short sample messages; a cursor error for one length/encoding combination leaves other combinations untouched.",
 [D], [("cursor returned by each element decoder and passed to the next", "iso8583/decoder.py:decode"), ("trailing data check", "iso8583/decoder.py:decode")],
 state=[("idx", "offset of the first byte not consumed yet", "iso8583/decoder.py:decode")], observe=["values returned by iso8583.decode"])
prop("C04", "An encoded message is exactly its reported parts in wire order",
 "When encode succeeds, the returned message equals the concatenation of the len and data bytes of the returned encoded dictionary in wire order (h, t, p, 1, then fields in ascending numeric order), and the dictionary reports exactly the elements that were sent. The result does not depend on the insertion order of the document.",
 ["inputs", "configurations"], "all encodable documents x all specifications",
 "Tests check fixed expected messages with few fields; order and completeness have to hold for every subset of 191 fields and every insertion order.",
 [E], [("message assembled from the pieces returned by the element encoders", "iso8583/encoder.py:encode"), ("numeric sort of field keys", "iso8583/encoder.py:encode")],
 state=[("s", "message built so far", "iso8583/encoder.py:encode")], observe=["values returned by iso8583.encode"])
prop("C05", "Decoded fields are exactly those the bitmaps announce",
 "A decoded message contains data field n (2-192 except 65) if and only if bit n is set in the received bitmaps, where field 1 announces the secondary bitmap (65-128) and field 65 announces its extension (129-192); bit n is the n-th bit counted from the most significant bit of its bitmap. Fields are read in ascending numeric order, and field 1 holds the secondary bitmap itself (with its extension appended) while field 65 is never a data field.",
 ["inputs"], "all 2^64 values of each of the three bitmaps",
 "Tests exercise about a dozen bit positions per bitmap; each of 192 positions and each combination of bitmaps has to be right.",
 [D], [("bitmap to field number conversion", "iso8583/decoder.py:_decode_bitmap"), ("conditional secondary/tertiary bitmap decoding and sorted field loop", "iso8583/decoder.py:decode")],
 state=[("fields", "numbers of the announced fields", "iso8583/decoder.py:decode")], observe=["keys of the dictionaries returned by iso8583.decode"])
prop("C06", "Generated bitmaps announce exactly the fields that are encoded",
 "encode sets bit n of the bitmaps exactly for the data fields n present in the document, emits the secondary bitmap exactly when a field 65-192 is present and its extension exactly when a field 129-192 is present, with bits 1 and 65 saying so. Caller-supplied p, 1 and 65 never influence the result: p and 1 are replaced in the document by the generated bitmaps in upper case hex (1 is removed when there is no secondary bitmap, 65 is always removed), and numeric keys outside 1-192 are rejected.",
 ["inputs", "histories"], "all subsets of fields 2-192, including documents that were encoded or decoded before",
 "Tests exercise a few small sets of fields; each of 192 bit positions, each boundary and each combination of bitmaps has to be right.",
 [E], [("field numbers to bitmap conversion", "iso8583/encoder.py:_encode_bitmap"), ("secondary/tertiary decision and range check", "iso8583/encoder.py:encode")],
 state=[("fields", "numbers of the fields to encode", "iso8583/encoder.py:encode")], observe=["message and dictionaries after iso8583.encode"])
prop("C07", "Decoding takes exactly the announced or fixed length, never over maximum",
 "A variable-length element has a len_type-byte length prefix read as unsigned big-endian binary (b), BCD (bcd) or decimal digits in the configured text encoding; a fixed-length element has no prefix and its length is max_len. Exactly that many bytes (or half that, rounded up, for nibbles) are taken as data; a message with a shorter prefix or shorter data, or a declared length over max_len, or an odd nibble count that the data cannot have, is rejected.",
 ["inputs", "configurations"], "all prefixes and data x all combinations of len_type, len_enc, len_count, data_enc, max_len",
 "Tests sample one or two lengths per combination, mostly with one-byte prefixes.",
 [D], [("length parsing, maximum check, nibble conversion and short data check", "iso8583/decoder.py:_decode_field")], observe=["values returned by iso8583.decode"])
prop("C08", "Encoded lengths are exact: fixed size, maximum, and prefix all hold",
 "Every element that encode emits has data of exactly max_len for a fixed-length element and at most max_len for a variable-length one, counted in bytes or nibbles as configured (an added pad is not counted). A variable-length element is preceded by exactly len_type bytes stating that count in the configured representation (unsigned big-endian binary, BCD, or zero-padded decimal text); a count that does not fit is rejected, and a fixed-length element has no prefix.",
 ["inputs", "configurations"], "all field values x all combinations of len_type, len_enc, len_count, data_enc, max_len",
 "Tests sample a few lengths per combination; boundaries of each prefix representation and each combination with nibbles and pads are not enumerated.",
 [E], [("length computation, maximum check and prefix encoding", "iso8583/encoder.py:_encode_field, _encode_bindary_field, _encode_text_field")], observe=["values returned by iso8583.encode"])
prop("C09", "Field data survives encode followed by decode in every encoding",
 "For every field configuration, decoding what encode produced gives back the original value (hex digits in upper case): binary/BCD data is hex on the dictionary side and raw bytes on the wire, text data goes through the configured codec unchanged. The pad of an odd-nibble value is added on the configured side (left_pad wins over right_pad) by encode and exactly that pad is removed by decode, which refuses odd-nibble data without the expected pad.",
 ["inputs", "configurations"], "all field values x all data encodings, pads and nibble/byte counts (text codecs assumed to round-trip)",
 "Tests check each direction on separate samples; agreement of the two directions for every value and configuration is never exercised.",
 [D, E], [("hex/text conversion and pad removal", "iso8583/decoder.py:_decode_field, _remove_pad_field, _decode_text_data, _decode_type"), ("hex/text conversion and padding", "iso8583/encoder.py:_encode_bindary_field, _add_pad_field, _encode_text_field, _encode_type")], observe=["values returned by iso8583.encode and iso8583.decode"])
prop("C10", "Malformed length prefixes, bitmaps and hex data are rejected, not guessed",
 "decode accepts a text length prefix only if it consists of ASCII decimal digits, a BCD length prefix only if every nibble is 0-9, and a text bitmap only if it is exactly 16 hexadecimal digits: signs, blanks, underscores, non-ASCII digits and whitespace inside hex are rejected with DecodeError. encode accepts binary field data only if it is purely an even number of hexadecimal digits (after padding), and rejects anything else with EncodeError.",
 ["inputs", "configurations"], "all byte values in prefixes and bitmaps, all strings as hex data, in every codec",
 "Python conversions are more lenient than the protocol (int, bytes.fromhex); the tests try one malformed sample of each kind.",
 [D, E], [("length and bitmap validation", "iso8583/decoder.py:_decode_field, _decode_bitmap"), ("strict hex conversion", "iso8583/encoder.py:_encode_bindary_field")], observe=["acceptance by iso8583.decode and iso8583.encode"])
prop("C11", "The caller's input, specification and unrelated entries are never modified",
 "decode never modifies the message buffer or the specification; encode never modifies the specification and changes nothing in the document except entries p, 1 and 65; pp modifies neither the document nor the specification. This holds on success and on failure.",
 ["inputs", "histories"], "all calls, successful or failing, including bytearray buffers and specifications shared between calls",
 "Tests rarely look at the arguments after the call, and almost never after a failing call.",
 [D, E, T], [("reads only through slices and item access; writes confined to new dictionaries and to p/1/65", "iso8583/decoder.py, iso8583/encoder.py, iso8583/tools.py")], observe=["arguments after iso8583.decode, encode, pp"])
prop("C12", "Results share nothing with the arguments or with other calls",
 "The dictionaries and buffers returned by decode and encode are newly created by that call and share no mutable object with the arguments (apart from the documented exception attributes), with the specification, with each other or with the results of any other call: changing a result, or reusing the input buffer, never affects anything else.",
 ["inputs", "histories"], "all sequences of calls with results and buffers that are modified in between",
 "Aliasing only shows when a caller mutates something after a call; tests compare values right after a single call.",
 [D, E], [("fresh dictionaries per call, bytes() copies of input slices", "iso8583/decoder.py:decode, _decode_field, _decode_bitmap, _decode_type; iso8583/encoder.py:encode, _encode_field")], observe=["identity of objects reachable from results"])
prop("C13", "Calls are independent: no hidden state, I/O or ambient input",
 "The outcome of decode, encode and pp depends only on the arguments: no module, class, default-argument or other process-wide state is modified or used to carry information from one call to another, nothing is read from the environment (clock, random numbers, locale, files, hash order), and nothing is written except to the stream of pp. Concurrent calls on separate arguments therefore cannot interfere.",
 ["schedules", "histories"], "all interleavings and all earlier calls",
 "Tests run single calls in one thread; state that leaks needs a particular earlier or concurrent call to show.",
 [D, E, T, I], [("all state lives in local variables passed as arguments; module tables are only written at import", "iso8583/decoder.py, iso8583/encoder.py, iso8583/tools.py")],
 state=[("_dispatch", "import-time table of pretty printers", "iso8583/tools.py")], observe=["module state and outside effects of the API calls"])
prop("C14", "Returned and partial documents always have the documented shape",
 "The decoded dictionary produced by decode maps str to str; the encoded dictionary produced by decode and encode maps str to a dictionary of exactly len and data, both immutable bytes; encode returns a bytearray. This holds for bytes and bytearray input, and also for the partial dictionaries carried by DecodeError and EncodeError.",
 ["inputs", "configurations"], "all successful and failing calls, both input types",
 "bytes and bytearray compare equal, so value comparisons in tests do not see a wrong type; partial documents are hardly inspected.",
 [D, E], [("placeholder entries written before each step that can fail, bytes() conversion of slices", "iso8583/decoder.py:_decode_field, _decode_bitmap, _decode_type; iso8583/encoder.py:_encode_field, _encode_type, _encode_bitmap")], observe=["types of results and of exception attributes"])
prop("C15", "A DecodeError tells which element failed, where, and what was decoded",
 "Every DecodeError carries the input itself (s), the key of the element being decoded (field), the offset where the failing length prefix or data of that element starts (pos; the end of the last element for trailing data), and the same partial decoded and encoded dictionaries that would have been returned, holding every element completed before the failure. The two partial dictionaries always have the same keys.",
 ["inputs", "fault_sequences"], "all failing inputs, in every element and at every step",
 "Tests compare the message text for one failure of each kind with one-byte prefixes; attributes and partial documents are not compared.",
 [D], [("raise sites pass the current buffer, dictionaries, cursor and key", "iso8583/decoder.py"), ("attribute assignment and message", "iso8583/decoder.py:DecodeError.__init__")], observe=["attributes of DecodeError raised by iso8583.decode"])
prop("C16", "An EncodeError tells which element failed and what was encoded so far",
 "Every EncodeError carries the document being encoded (doc_dec, the caller's own object), the key of the element being encoded (field; p for problems with the set of keys), and the partial encoded dictionary holding every element completed before the failure. Its text is the message followed by that key.",
 ["inputs", "fault_sequences"], "all failing documents, in every element and at every step",
 "Tests compare the message text for one failure of each kind; attributes and partial documents are not compared.",
 [E], [("raise sites pass the document, the partial dictionary and the key", "iso8583/encoder.py"), ("attribute assignment and message", "iso8583/encoder.py:EncodeError.__init__")], observe=["attributes of EncodeError raised by iso8583.encode"])
prop("C17", "Errors survive pickling and copying with all their attributes",
 "For every DecodeError and EncodeError, whatever its contents, pickling and unpickling (or copying) it gives an exception of the same class with the same attributes (msg, s, doc_dec, doc_enc, pos, field as applicable), args and text. Both are ValueError subclasses.",
 ["inputs"], "all attribute values, any transport between processes",
 "Tests pickle one instance of each class and compare some of the attributes; coinciding values hide swapped or dropped ones.",
 [D, E], [("__init__ and __reduce__ agree on the argument list", "iso8583/decoder.py:DecodeError; iso8583/encoder.py:EncodeError")], observe=["exception reconstructed from __reduce__"])
prop("C18", "pp prints each element of the document once, in wire order, to its stream only",
 "pp writes only to the given stream, or to the current sys.stdout when none is given, and writes h (only if the specification enables a header), t, p and then every numeric key in ascending numeric order, each exactly once and only when present in the document; other keys are not printed. Each line starts with the key, the description from that key's own specification entry (omitted when desc_width is not positive), and for encoded documents the non-empty length bytes before the data.",
 ["inputs", "configurations"], "all documents produced by encode or decode x all specifications, widths and streams",
 "Tests print a handful of documents; order and selection have to hold for every set of keys.",
 [T], [("selection and order of printed keys", "iso8583/tools.py:pp"), ("line layout", "iso8583/tools.py:_pp_field")], observe=["writes to the stream"])
prop("C19", "Folded pretty print output loses and duplicates nothing",
 "Whatever the value and the requested width (including zero and negative widths), the literals pp prints for a value, put together, are exactly that value: folding a str or bytes value over lines never drops, repeats or reorders any part of it, and folding always terminates.",
 ["inputs", "configurations"], "all values and all widths",
 "Tests fold a few values at selected widths; boundaries depend on value length, escapes and width.",
 [T], [("folding of str and bytes values", "iso8583/tools.py:_wrap_str_repr, _wrap_bytes_repr, _pprint_str, _pprint_bytes, _pp_field")], observe=["writes to the stream"])
prop("C20", "Shipped specifications are complete, consistent and independent",
 "iso8583.specs.default and default_ascii define h, t, p and 1-128 with every mandatory property of the right type and a description, with fixed/variable settings that fit (maximum representable in the length prefix, message type and bitmap sizes matching their encoding), and are plain JSON-compatible data. Both describe the same fields, with the same element sizes, counting binary fields as twice as many characters in default_ascii, and share no mutable object with each other or between entries.",
 ["configurations"], "every entry of both tables (262 entries, five properties each)",
 "Tests deep-copy the tables and overwrite the few entries that they use; most entries are never looked at.",
 [S], [("the two literal tables", "iso8583/specs.py:default, default_ascii")], observe=["iso8583.specs.default, iso8583.specs.default_ascii"])
prop("C21", "Decoding effort is bounded by the message, not by declared lengths",
 "decode terminates on every input, and no length declared in a message makes it allocate or iterate beyond the bytes actually received or the maximum configured in the specification: declared lengths are only compared, and used to delimit slices of the input, before they are validated.",
 ["inputs"], "all declared lengths, including huge ones, under every prefix width",
 "Tests use small messages and small declared lengths.",
 [D], [("lengths only used in comparisons and slice bounds; loops only over bitmap bits and announced fields", "iso8583/decoder.py")], observe=["loops and allocations in iso8583.decode"])
prop("C22", "Error texts never disclose field contents",
 "The text of every exception raised by decode and encode (message, args) is made only of fixed wording, element keys, counts, positions, offending keys, type names and encoding names: no decoded or raw data of any element (PAN, track, PIN block, ICC data) ever appears in it, so it is safe to log.",
 ["inputs", "fault_sequences"], "all failing messages and documents",
 "Tests check a sample of error texts; disclosure only shows for the failure that leaks.",
 [D, E], [("messages are formatted from lengths and configuration only", "iso8583/decoder.py, iso8583/encoder.py")], observe=["text of exceptions raised by iso8583.decode and iso8583.encode"])
prop("C23", "Message type and bitmaps have their fixed wire size",
 "The message type is always exactly 2 bytes on the wire when binary and 4 bytes otherwise, and each bitmap exactly 8 bytes when binary and 16 bytes otherwise, without length prefix, whatever max_len or len_type their entries say. decode consumes and encode emits exactly that many bytes for them, and both reject a message type or bitmap of any other size.",
 ["inputs", "configurations"], "all truncation points and values of t, p, 1 x all encodings of t, p, 1",
 "Tests try a few truncations with the starter specifications.",
 [D, E], [("message type and bitmap codecs", "iso8583/decoder.py:_decode_type, _decode_bitmap; iso8583/encoder.py:_encode_type, _encode_bitmap")], observe=["entries t, p, 1 of the dictionaries returned by encode and decode"])
prop("C24", "Each element is governed by its own specification entry only",
 "How an element is encoded or decoded depends only on the entry of the specification under that element's own key (p for the primary bitmap, 1 for the secondary bitmap and its extension, h, t, and the field number for others), so changing one entry never changes the treatment of another element. Descriptions play no role: they may be absent.",
 ["configurations"], "all specifications in which entries differ from one another",
 "Test specifications mostly use the same encoding for all elements, which hides a wrong entry being consulted.",
 [D, E], [("entry looked up with the element key", "iso8583/decoder.py:decode, _decode_header, _decode_type; iso8583/encoder.py:encode, _encode_header, _encode_type")], observe=["values returned by encode and decode under heterogeneous specifications"])
prop("C25", "A header is processed exactly when the specification enables it",
 "When the specification sets max_len of h to 0 (or less), decode reads no header and encode emits none even if the document has one; otherwise the header is the first element on the wire, processed as a regular field under its entry, and encode refuses a document without it. The document's own h entry is never changed by encode.",
 ["inputs", "configurations"], "all documents with and without h x all header settings",
 "Tests use a fixed 6-byte ASCII header or none.",
 [D, E], [("header condition", "iso8583/decoder.py:_decode_header; iso8583/encoder.py:_encode_header")], observe=["entry h of results, first bytes of the message"])
prop("C26", "Printed lines respect the requested width",
 "pp keeps every output line within line_width whenever the value can be split so that it fits.",
 ["inputs", "configurations"], "all values and widths",
 "Tests fold a few values at selected widths.",
 [T], [("width computation", "iso8583/tools.py:_pp_field, _wrap_str_repr, _wrap_bytes_repr")], observe=["writes to the stream"])
prop("C27", "Well-formed messages and encodable documents are never refused",
 "decode accepts every message that conforms to the specification: elements complete and within their maxima, text decodable by the configured codec, length prefixes and bitmaps well formed, announced fields defined in the specification, expected pads in place, nothing left over. encode accepts every document whose keys are h, t, p, 1, 65 or plain numbers 2-192 (other non-numeric keys are ignored), whose required elements are present, defined and of type str, and whose data is encodable and fits the configured sizes. In particular zero-length variable fields, elements exactly at their maximum, and lower case hex are accepted.",
 ["inputs", "configurations"], "all conforming messages and documents x all specification entries",
 "Tests accept a few dozen messages; a check that is too strict by one at some boundary or for one combination of settings is not exercised.",
 [D, E], [("checks that refuse an element", "iso8583/decoder.py:_decode_field, _decode_bitmap, _decode_type; iso8583/encoder.py:encode, _encode_field, _encode_bitmap, _encode_type")], observe=["exceptions raised by decode and encode"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
