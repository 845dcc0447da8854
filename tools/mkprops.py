#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only to keep the JSON lines readable)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": observe, "hook_needed": None,
        },
    })


p("C01", "Standard encoding is byte-for-byte the Solidity ABI encoding",
  "For every list of valid ABI types and every list of values in the domain of those types, encode() returns exactly the bytes the Solidity contract ABI specification prescribes: 32-byte words, big-endian and sign-extended integers, right-padded byte strings, length prefixes, and head/tail offsets relative to the start of the enclosing tuple or array. This holds for every elementary type and width, every accepted Python form of a value, every array length and every nesting of arrays and tuples.",
  ["inputs"], "all type lists (every elementary type, arrays, tuples, any nesting) x all values in their domain, including every accepted Python spelling of a value",
  "The tests compare a fixed table of fixtures and a few random scalar cases; they cannot visit the cross product of nesting, widths, lengths and boundary values where offset and padding arithmetic goes wrong.",
  ["eth_abi/codec.py", "eth_abi/encoding.py", "eth_abi/utils/padding.py", "eth_abi/utils/numeric.py", "eth_abi/registry.py"],
  [("head/tail layout", "encoding.py TupleEncoder.encode, BaseArrayEncoder.encode_elements"), ("word padding", "encoding.py FixedSizeEncoder.encode, utils/padding.py"), ("type to encoder dispatch", "registry.py registry")],
  ["eth_abi.encode", "eth_abi.codec.ABIEncoder.encode"])

p("C02", "Decoding inverts encoding",
  "For every list of valid types and every list of encodable values, decode(types, encode(types, values)) returns a tuple equal to the values in their canonical Python form (int, bool, Decimal, lower-case 0x address, bytes of full width, str, tuples for arrays and tuples). The result is the same with strict=True and strict=False and whether the data is given as bytes or bytearray, and encoding the decoded values again gives the same bytes.",
  ["inputs"], "all type lists x all encodable values x both strictness modes x both data representations",
  "Existing round-trip tests draw a few values per type from the library's own strategies and compare loosely; they do not reach the boundary widths, deep nestings or the canonical-form guarantee for every input spelling.",
  ["eth_abi/codec.py", "eth_abi/encoding.py", "eth_abi/decoding.py", "eth_abi/registry.py"],
  [("paired coders per type", "registry.py registry"), ("frame-relative pointer resolution", "decoding.py ContextFramesBytesIO, HeadTailDecoder")],
  ["eth_abi.encode", "eth_abi.decode"])

p("C03", "Encoding accepts exactly the values of the type and never alters them",
  "For every type and any Python value whatsoever, encode() and encode_packed() either produce an encoding that represents exactly that value or raise an EncodingError: EncodingTypeError for a value of an unsupported Python type, ValueOutOfBounds for integers, fixed-point numbers, byte strings or sequences of the wrong size, IllegalValue for NaN, infinities, excess fractional precision and text that is not encodable. No in-domain value is refused, no out-of-domain value is clipped, wrapped, rounded or truncated, and no other exception class escapes.",
  ["inputs"], "all types x all Python values: in-domain, one-off-boundary, wrong-typed, ill-formed, at any position of a nested value",
  "Tests probe a handful of out-of-range values per encoder class directly; they cannot cover every width's two boundaries, every wrong-typed object and faults buried inside nested containers.",
  ["eth_abi/encoding.py", "eth_abi/utils/numeric.py", "eth_abi/utils/string.py", "eth_abi/exceptions.py"],
  [("validate_value of each encoder", "encoding.py"), ("bounds computations", "utils/numeric.py compute_*_bounds"), ("error construction", "encoding.py BaseEncoder.invalidate_value, utils/string.py abbr")],
  ["eth_abi.encode", "eth_abi.packed.encode_packed"])

p("C04", "is_encodable answers exactly whether encoding succeeds",
  "For every type string and any Python value, is_encodable(type, value) returns True if and only if encode([type], [value]) succeeds, and returns False in every other case (including unknown or malformed types) without raising. The same holds for is_encodable_packed with encode_packed, and is_encodable_type(type) is True exactly when the codec has an encoder for the type.",
  ["inputs"], "all type strings (valid or not) x all Python values, for both codecs and codecs over customised registries",
  "Tests check a table of pairs; agreement between the predicate and the encoder has to hold for all values, including those whose rejection goes through unusual error paths.",
  ["eth_abi/codec.py", "eth_abi/encoding.py", "eth_abi/registry.py", "eth_abi/packed.py"],
  [("is_encodable via validate_value", "codec.py ABIEncoder.is_encodable"), ("has_encoder", "registry.py ABIRegistry.has_encoder")],
  ["eth_abi.is_encodable", "eth_abi.is_encodable_type", "eth_abi.packed.is_encodable_packed"])

p("C05", "Decoding arbitrary bytes gives the specified value or a DecodingError",
  "For every list of valid types and every byte string at all, decode() either returns exactly the values that the ABI specification reads from those bytes, or raises a DecodingError (a UnicodeDecodeError for string data that is not UTF-8); it never raises anything else and never invents, drops or truncates data. Data is rejected exactly when a word or byte string runs past the end of the data, a pointer leads into the head of its own container or past the end of the data, or (in strict mode, and for fixed-width values always) padding is not the canonical padding; any other layout, including tails that are reordered, shared or separated by unused bytes, is decoded.",
  ["inputs"], "all type lists x all byte strings: random, mutated valid encodings, hand-assembled non-canonical layouts, adversarial lengths and pointers",
  "The tests feed a few dozen crafted malformed payloads; the space of hostile payloads is what contract callers actually receive and cannot be sampled by hand.",
  ["eth_abi/codec.py", "eth_abi/decoding.py", "eth_abi/exceptions.py"],
  [("stream reads with length checks", "decoding.py FixedByteSizeDecoder.read_data_from_stream, ByteStringDecoder.read_data_from_stream"), ("pointer validation", "decoding.py TupleDecoder.validate_pointers, BaseArrayDecoder.validate_pointers"), ("padding validation", "decoding.py validate_padding_bytes")],
  ["eth_abi.decode"])

p("C06", "Every single corruption of a valid payload is detected and classified",
  "Taking any valid encoding and corrupting one thing, strict decode() raises the documented error class: NonEmptyPaddingBytes for any changed padding bit of a number (the sign bit of a signed number narrower than 256 bits counts as part of its sign extension), address, bool, bytes<M>, bytes or string and for a bool that is neither 0 nor 1; InvalidPointer for an offset that leads into the head of its container or beyond the data; InsufficientDataBytes for data that ends early or a byte-string length that exceeds the data (a cut that leaves a pointer dangling may be reported as InvalidPointer). Corruptions that only change value bits are never rejected for their padding: they decode to the correspondingly changed value.",
  ["inputs", "fault_sequences"], "all valid payloads x every padding byte, pointer, length word, bool byte and truncation point in them",
  "Tests corrupt a few payloads at one place each; the guarantee is about every byte of every layout.",
  ["eth_abi/decoding.py", "eth_abi/exceptions.py"],
  [("padding validation", "decoding.py validate_padding_bytes of each decoder"), ("pointer validation", "decoding.py validate_pointers"), ("short read detection", "decoding.py read_data_from_stream")],
  ["eth_abi.decode"])

p("C07", "strict=False relaxes byte-string padding and nothing else",
  "With strict=False, decode() accepts bytes and string values, at any nesting depth, whose padding is not zero or is missing at the end of the data, and returns exactly their data; it still rejects every other malformation that strict mode rejects, and never returns fewer bytes than the length prefix announces. Whatever strict mode accepts, non-strict mode accepts with the same result.",
  ["inputs"], "all type lists x all payloads with byte-string padding altered or cut, or with any other malformation",
  "The tests for non-strict mode use a few top-level payloads; nested positions and the 'nothing else' half need generation.",
  ["eth_abi/codec.py", "eth_abi/decoding.py", "eth_abi/registry.py"],
  [("strict flag propagation", "registry.py ABIRegistry._get_decoder_uncached"), ("strict branch", "decoding.py ByteStringDecoder.read_data_from_stream")],
  ["eth_abi.decode(..., strict=False)"],
  [{"name": "strict", "meaning": "per-decoder flag set at lookup", "where": "decoding.py BaseDecoder.strict"}])

p("C08", "Results do not depend on what was coded before, and inputs are not modified",
  "In every sequence of calls to encode, encode_packed, decode (strict or not), is_encodable and their type-level variants, including calls that fail, each call's result or error class depends only on its own arguments. No call modifies the types, values or data passed to it, and no result changes when the caller later modifies those arguments.",
  ["histories"], "all call histories over mixed types, modes, failures and repeated types on the shared default codecs and on codec copies",
  "Coders, parsed types and registrations are cached and shared for the life of the process; tests run each call once in isolation and cannot see state that leaks from one call to a later one.",
  ["eth_abi/codec.py", "eth_abi/registry.py", "eth_abi/grammar.py", "eth_abi/decoding.py", "eth_abi/encoding.py", "eth_abi/abi.py", "eth_abi/packed.py"],
  [("cached coders are stateless", "registry.py get_encoder/get_decoder"), ("strict/non-strict decoders are separate instances", "registry.py _get_decoder_uncached")],
  ["eth_abi.encode", "eth_abi.decode", "eth_abi.packed.encode_packed", "eth_abi.is_encodable"],
  [{"name": "coder caches", "meaning": "functools.cache over coder lookups", "where": "registry.py ABIRegistry.__init__"}, {"name": "parse cache", "meaning": "parsed types shared between calls", "where": "grammar.py NodeVisitor.__init__"}])

p("C09", "A registry behaves like its list of registrations at every moment",
  "After any history of registering and unregistering encoders and decoders (by type string, predicate, equal predicate or label), a registry resolves a type string exactly as the current registrations say: the single matching registration is used, no match is NoEntriesFound (or a parse error), several matches are MultipleEntriesFound, duplicate lookups or labels are refused with ValueError and unknown ones with KeyError, and a refused operation changes nothing on the side that refused it. Changes take effect immediately for every type that involves the changed registration, including arrays and tuples whose coders were already in use, in both strictness modes.",
  ["histories"], "all histories of registration operations interleaved with lookups, encodes and decodes",
  "Tests exercise single register/unregister steps on mocks; stale caches, leftover labels and half-removed entries only appear in longer histories.",
  ["eth_abi/registry.py", "eth_abi/codec.py"],
  [("predicate mapping", "registry.py PredicateMapping"), ("cache invalidation", "registry.py _clear_encoder_cache/_clear_decoder_cache"), ("predicate equality", "registry.py Predicate.__eq__")],
  ["ABIRegistry.register*", "ABIRegistry.unregister*", "ABIRegistry.get_encoder/get_decoder/has_encoder", "ABICodec over the registry"],
  [{"name": "registrations", "meaning": "predicate to coder mapping and labels", "where": "registry.py PredicateMapping._values/_labeled_predicates"}])

p("C10", "Custom coders compose with arrays and tuples like built-in types",
  "A type registered with user-supplied coders (plain callables or coder classes, of any non-zero static width, or dynamic) can be used alone, as an array item and as a tuple component at any depth, and encodes and decodes there according to the same head/tail rules as built-in types. Errors raised by custom coders propagate and leave later calls unaffected, is_encodable agrees with the custom encoder, and coder classes accept exactly the keyword arguments that exist on the class and reject inconsistent ones at construction.",
  ["configurations", "inputs"], "all registrations of custom coders (callable or class, static of any width or dynamic) x all container types around them x values",
  "Tests register one or two custom coders and use them at top level; composition with nesting and widths is a product space.",
  ["eth_abi/registry.py", "eth_abi/base.py", "eth_abi/encoding.py", "eth_abi/decoding.py", "eth_abi/codec.py"],
  [("getattr(is_dynamic) dispatch", "encoding.py TupleEncoder/SizedArrayEncoder, decoding.py TupleDecoder/SizedArrayDecoder"), ("callable fallback in validation", "encoding.py validate_value AttributeError branches"), ("kwargs validation", "base.py BaseCoder.__init__")],
  ["ABIRegistry.register", "ABICodec.encode/decode/is_encodable"])

p("C11", "Packed encoding is the concatenation of minimal-width encodings",
  "For every list of types and values in their domain, encode_packed() returns the concatenation, in order and without padding, lengths or offsets, of: integers and fixed-point values in exactly their width (two's complement), one byte for bool, 20 bytes for address, exactly M bytes for bytes<M>, and the raw bytes of bytes and string, with array items and tuple components packed the same way. Values outside the domain are refused as in the standard encoding and sized arrays require their exact length.",
  ["inputs"], "all type lists without restriction on nesting x all in-domain and near-domain values",
  "Fixture tests cover each packed encoder with a few values and shallow arrays.",
  ["eth_abi/packed.py", "eth_abi/encoding.py", "eth_abi/registry.py"],
  [("packed encoders", "encoding.py Packed* classes"), ("packed registry", "registry.py registry_packed")],
  ["eth_abi.packed.encode_packed", "eth_abi.packed.is_encodable_packed"])

p("C12", "Type strings parse to the structure they denote and print back identically",
  "parse() accepts exactly the strings of the ABI type grammar (letters, an optional size or size pair, array suffixes, nested non-empty tuples; no whitespace, leading zeros or trailing characters) and yields their base, sub, array dimensions and components; every other string raises ParseError, or ValueError when it contains an empty tuple, and non-strings raise TypeError. Converting any parsed type, item type or component back to a string gives exactly the text it was parsed from, and equality of parsed types is equality of those texts.",
  ["inputs"], "all strings: grammatical, nearly grammatical, and arbitrary text",
  "Tests list a few dozen strings; the accept/reject boundary is over all strings.",
  ["eth_abi/grammar.py", "eth_abi/exceptions.py"],
  [("PEG grammar", "grammar.py grammar"), ("node visitor", "grammar.py NodeVisitor"), ("to_type_str", "grammar.py TupleType/BasicType")],
  ["eth_abi.grammar.parse", "ABIType.to_type_str", "ABIType.__eq__"])

p("C13", "Exactly the valid ABI types are accepted",
  "A parsed type validates if and only if the ABI specification allows it: int/uint of 8..256 bits in steps of 8, fixed/ufixed of such bits with 1..80 decimals, bytes1..bytes32, and suffix-free address, bool, bytes and string, anywhere inside arrays and tuples; anything else of these bases raises ABITypeError. The codecs accept exactly these types (and their aliases) for encoding and decoding, refusing every other well-formed type string with a ValueError or ParseError, never silently treating it as another type.",
  ["inputs"], "all elementary type names with all numeric suffixes (exhaustive over a large grid) and containers around them",
  "Tests pick a few invalid suffixes; the boundary runs along every width and exponent.",
  ["eth_abi/grammar.py", "eth_abi/base.py", "eth_abi/registry.py"],
  [("validate", "grammar.py BasicType.validate, TupleType.validate"), ("registration predicates", "registry.py BaseEquals, has_arrlist, is_base_tuple"), ("validation before coder construction", "base.py parse_type_str, parse_tuple_type_str")],
  ["ABIType.validate", "eth_abi.encode", "eth_abi.decode", "eth_abi.is_encodable_type"])

p("C14", "Type aliases are interchangeable with their canonical types everywhere",
  "int, uint, fixed, ufixed, function and byte mean int256, uint256, fixed128x18, ufixed128x18, bytes24 and bytes1 wherever they occur in a type string, at top level and inside arrays and tuples: every operation (standard and packed encoding, decoding, encodability) gives identical results for the alias and the canonical spelling. normalize() rewrites exactly these names, leaves all other text and names containing them untouched, and is idempotent.",
  ["inputs"], "all type strings with aliases at any positions x values and payloads",
  "Tests check normalize on short lists and a few alias encodings.",
  ["eth_abi/grammar.py", "eth_abi/base.py", "eth_abi/registry.py"],
  [("alias table and regex", "grammar.py TYPE_ALIASES, normalize"), ("normalisation before parsing", "base.py parse_type_str, parse_tuple_type_str")],
  ["eth_abi.grammar.normalize", "eth_abi.encode", "eth_abi.decode", "eth_abi.packed.encode_packed"])

p("C15", "Fixed-point values are exact and independent of the decimal context",
  "For every fixed<M>x<N> and ufixed<M>x<N>, encoding maps a decimal value v to the integer v*10^N exactly, refusing values that are out of range or not a multiple of 10^-N, and decoding maps an integer k back to exactly k*10^-N. Neither result depends on the caller's ambient decimal context (precision, rounding, traps, exponent limits), and coding leaves that context unchanged.",
  ["inputs", "configurations"], "all M, N x all integers k in range, near-range and near-multiple values x all ambient decimal contexts",
  "Tests use a few values and the default context; rounding errors appear only at extreme widths, exponents or contexts.",
  ["eth_abi/encoding.py", "eth_abi/decoding.py", "eth_abi/utils/numeric.py"],
  [("wide local decimal context", "utils/numeric.py abi_decimal_context"), ("residue and bounds checks", "encoding.py BaseFixedEncoder.validate_value"), ("scaling", "encoding.py encode_fn, decoding.py decoder_fn of fixed coders")],
  ["eth_abi.encode", "eth_abi.packed.encode_packed", "eth_abi.decode"])

p("C16", "Encodings obey the ABI's composition laws",
  "For all types and values: a sized array T[k] encodes exactly like the tuple of k T's, a dynamic array like its length followed by the sized array, and encode([T1..Tn], v) like the payload of the single tuple (T1,..,Tn), which is itself prefixed by the word 0x20 exactly when the tuple is dynamic; encodings of static types simply concatenate. Every standard encoding is a whole number of 32-byte words, bytes following a valid encoding do not affect decoding, and packed encoding of a concatenation is the concatenation of packed encodings.",
  ["inputs"], "all types, splits and values",
  "Relations between encodings of different types are not expressed by any existing test.",
  ["eth_abi/encoding.py", "eth_abi/decoding.py", "eth_abi/codec.py"],
  [("shared head/tail algorithm for tuples and arrays", "encoding.py TupleEncoder.encode, BaseArrayEncoder.encode_elements"), ("frame-relative decoding", "decoding.py HeadTailDecoder, DynamicArrayDecoder")],
  ["eth_abi.encode", "eth_abi.decode", "eth_abi.packed.encode_packed"])

p("C17", "get_abi_strategy generates only and all kinds of valid values",
  "For every valid type string, aliases included, the strategy from tools.get_abi_strategy generates only values that are encodable as that type and survive an encode/decode round trip, with exact array lengths and tuple arities. It is not restricted below the type's range: minimum and maximum of numeric types, empty and non-empty dynamic values, and both booleans can be generated.",
  ["inputs"], "all valid type strings x all draws of the strategy",
  "Tests inspect arguments passed to mocked strategies for a few types, not the values drawn.",
  ["eth_abi/tools/_strategies.py", "eth_abi/utils/numeric.py"],
  [("strategy registry", "tools/_strategies.py strategy_registry"), ("decimal scaling", "utils/numeric.py scale_places")],
  ["eth_abi.tools.get_abi_strategy"])

p("C18", "Coding work is bounded by the size of the input",
  "The work done by encode and decode is bounded by a small polynomial: proportional to the number of words actually coded times the nesting depth of the type, whatever the type and whatever the payload. In particular nested tuples do not cause exponential work, and a length or offset word that announces more data than is present is rejected without work or memory proportional to the announced amount.",
  ["inputs"], "all types up to deep nesting x all payloads including adversarial lengths and offsets",
  "Tests use small types where exponential and linear behaviour look alike, and never measure work.",
  ["eth_abi/decoding.py", "eth_abi/encoding.py"],
  [("pointer validation without re-decoding static parts", "decoding.py TupleDecoder.validate_pointers"), ("reads fail before allocation", "decoding.py read_data_from_stream")],
  ["eth_abi.codec.ABIDecoder.decode with a counting stream_class", "function-call counts"])

p("C19", "Concurrent coding gives the same results as sequential coding",
  "Any number of threads may encode, encode_packed, decode (in either mode) and test encodability through the same codec at the same time: under every interleaving each call returns the result it would return alone. This includes first uses of a type, when coders are built and cached, and threads that fail while others succeed.",
  ["schedules"], "all interleavings (at source-line granularity) of small groups of coding calls on shared codecs, with cold and warm caches",
  "The existing thread test is a smoke test of one race under one operating-system schedule.",
  ["eth_abi/registry.py", "eth_abi/codec.py", "eth_abi/encoding.py", "eth_abi/decoding.py", "eth_abi/grammar.py"],
  [("stateless cached coders", "registry.py get_encoder/get_decoder"), ("stream state is per call", "codec.py ABIDecoder.decode"), ("thread-local decimal contexts", "encoding.py, decoding.py localcontext")],
  ["eth_abi.encode/decode/is_encodable under a controlled scheduler"])

p("C20", "Decoding streams keep a correct frame stack",
  "A decoding stream is a bytes stream with a stack of frames: after any sequence of pushes, pops, frame-relative seeks, reads and seeks, the position and content read are those of the model in which a push enters the frame starting at the current frame's start plus the given offset, a pop returns to the position held before the matching push, and popping an empty stack raises IndexError. Every successful decoder call consumes its head from the position where it started and leaves the frame stack as it found it, so decoders can be called repeatedly on one stream and a decoder subclass's own stream class is used.",
  ["histories", "inputs"], "all operation sequences on streams; all decoders x streams positioned inside nested frames",
  "Tests perform a couple of pushes and pops.",
  ["eth_abi/decoding.py", "eth_abi/codec.py"],
  [("frame stack", "decoding.py ContextFramesBytesIO"), ("push/pop pairing", "decoding.py HeadTailDecoder.decode, DynamicArrayDecoder.decode"), ("stream_class", "codec.py ABIDecoder.stream_class")],
  ["ContextFramesBytesIO", "registry.get_decoder(type)(stream)", "ABIDecoder.stream_class"],
  [{"name": "frames", "meaning": "stack of (offset, return position)", "where": "decoding.py ContextFramesBytesIO._frames"}])

p("C21", "Type introspection agrees with the wire layout",
  "For every parsed valid type, is_dynamic is True exactly when its encoding contains a dynamically sized part (bytes, string or a [] dimension anywhere inside it), which is exactly when its value is reached through an offset in an enclosing tuple; is_array is True exactly for types with array suffixes, and item_type is the type with the last suffix removed (ValueError for non-arrays). The coders the standard registry gives for a type report the same dynamic flag.",
  ["inputs"], "all valid types, and item types and components reached from them",
  "Tests check a list of strings.",
  ["eth_abi/grammar.py", "eth_abi/encoding.py", "eth_abi/decoding.py"],
  [("is_dynamic", "grammar.py BasicType.is_dynamic, TupleType.is_dynamic"), ("item_type", "grammar.py item_type"), ("coder is_dynamic", "encoding.py/decoding.py is_dynamic attributes")],
  ["eth_abi.grammar.parse(...).is_dynamic/is_array/item_type", "registry.get_encoder/get_decoder(...).is_dynamic"])

p("C22", "String decoding applies UTF-8 and the chosen error handler exactly",
  "For every byte string stored in a string value at any nesting, decode() returns exactly its UTF-8 decoding, or raises UnicodeDecodeError when it is not valid UTF-8; valid text of any code points round-trips unchanged. A registry whose string decoder is configured with another error handler returns exactly what bytes.decode('utf-8', handler) returns, in both strictness modes and inside arrays and tuples.",
  ["inputs", "configurations"], "all byte strings (valid and malformed UTF-8) x error handlers x nesting x strictness",
  "Tests use one malformed byte string at top level.",
  ["eth_abi/decoding.py", "eth_abi/encoding.py", "eth_abi/registry.py"],
  [("StringDecoder", "decoding.py StringDecoder"), ("TextStringEncoder", "encoding.py TextStringEncoder")],
  ["eth_abi.decode", "StringDecoder(handle_string_errors=...) registered in a registry copy"])

p("C23", "Registry copies are isolated from each other",
  "After a registry is copied (copy method, copy.copy or copy.deepcopy), both registries resolve every type identically, and from then on any registering or unregistering on one has no effect on what the other resolves, encodes or decodes, now or later, including for types looked up before. Codecs built on different copies can be used interleaved, and the default codecs are never affected.",
  ["histories"], "all histories of copying, registration changes and coding over a tree of copies",
  "Tests copy once and compare one lookup.",
  ["eth_abi/registry.py", "eth_abi/codec.py"],
  [("copy", "registry.py ABIRegistry.copy, PredicateMapping.copy, Copyable"), ("per-instance caches", "registry.py ABIRegistry.__init__")],
  ["ABIRegistry.copy", "copy.copy", "copy.deepcopy", "ABICodec over copies"])

p("C24", "Malformed calls are refused up front with TypeError or ValueError",
  "encode, encode_packed and decode require the types and values to be a list or tuple and the data to be bytes or bytearray, and raise TypeError for anything else; the numbers of types and values must agree, else ValueOutOfBounds is raised and nothing is encoded. Entries of the type list that are not valid type strings raise ValueError, ParseError or TypeError, wherever they occur in the list, and an empty type list encodes to empty bytes and decodes to an empty tuple.",
  ["inputs"], "all Python objects in each argument position x all lengths of types and values",
  "Tests try a few wrong objects per position.",
  ["eth_abi/codec.py", "eth_abi/utils/validation.py", "eth_abi/encoding.py", "eth_abi/registry.py"],
  [("validate_list_like_param / validate_bytes_param", "utils/validation.py"), ("arity check", "encoding.py TupleEncoder.validate_value")],
  ["eth_abi.encode", "eth_abi.decode", "eth_abi.packed.encode_packed"])

p("C25", "Coder objects and coder classes code exactly their own type",
  "For every valid type string, the coder objects that a registry's get_encoder and get_decoder return, and those built by the matching coder class's from_type_str (or by a subclass of it), work on their own: called directly they encode a value to exactly the bytes of that value without an enclosing offset (its packed bytes for the packed coders) and decode it back from a stream in the frame where it starts, and validate_value refuses exactly the values that encoding refuses, with an EncodingError of the same kind. A coder class's from_type_str refuses with ValueError or ParseError every type string with another base, with or without array dimensions where the opposite is required, or that is not a valid type.",
  ["inputs"], "all type strings x all coder classes and registries x all Python values",
  "Tests call a few encoder classes with hand-written arguments; that each class serves exactly its own types, and agrees with the codec on every value, is a statement about the product of classes, types and values.",
  ["eth_abi/base.py", "eth_abi/encoding.py", "eth_abi/decoding.py", "eth_abi/registry.py"],
  [("from_type_str and its decorators", "base.py parse_type_str, parse_tuple_type_str"), ("validate_value and encode of each encoder", "encoding.py"), ("coder lookup", "registry.py ABIRegistry.get_encoder, get_decoder")],
  ["ABIRegistry.get_encoder(t)(value)", "ABIRegistry.get_decoder(t)(stream)", "BaseCoder.from_type_str", "BaseEncoder.validate_value"])

p("C26", "Errors can be printed, stay short and name their cause",
  "Every error raised for bad input can be printed and its message stays short whatever the size of the input (apart from the type string itself). The message of an EncodingError shows a part of the value that is actually at fault (abbreviated) and its Python type, at whatever depth it sits; an ABITypeError shows the invalid component, its column and the whole type string; a ParseError carries the type string and a position before which the text could still be the beginning of a type; an InvalidPointer states the position in the data of the offset that is wrong; NoEntriesFound names the type, and MultipleEntriesFound the type and all matching lookups.",
  ["inputs"], "all refused values, type strings, payloads and lookups, with the fault at any place",
  "Tests compare a few messages for one-level values; whether the right part is named, wherever the fault sits and however large the input is, cannot be tabulated.",
  ["eth_abi/encoding.py", "eth_abi/decoding.py", "eth_abi/grammar.py", "eth_abi/exceptions.py", "eth_abi/registry.py", "eth_abi/utils/string.py"],
  [("invalidate_value, abbr", "encoding.py BaseEncoder.invalidate_value, utils/string.py"), ("invalidate", "grammar.py ABIType.invalidate"), ("pointer errors", "decoding.py validate_pointers"), ("lookup errors", "registry.py PredicateMapping.find")],
  ["str() of the exceptions raised by encode, encode_packed, decode, parse, validate and registry lookups"])

p("C27", "Registry predicates match exactly what they describe and compare by settings",
  "For every string, Equals(v) matches exactly v; BaseEquals(base, with_sub) matches exactly the well-formed non-array, non-tuple type strings with that base (aliases not resolved), with a size suffix if with_sub is True, without one if it is False and either way if it is None; has_arrlist matches exactly the well-formed type strings with an array suffix and is_base_tuple exactly the tuples without one. Malformed strings match none of the last three and never make a predicate raise. Two predicates of Equals, BaseEquals or another Predicate subclass are equal (with equal hashes) exactly when they are of the same class with the same settings, so that an equal predicate can be used to unregister and cannot be registered twice, while one with another setting is a separate registration.",
  ["inputs"], "all strings x all predicates and settings; all pairs of predicates",
  "The tests try a dozen strings; that every other string is told apart, and that equality ignores no setting, needs the whole grammar.",
  ["eth_abi/registry.py", "eth_abi/grammar.py"],
  [("Predicate equality", "registry.py Predicate.__eq__, __hash__, __iter__"), ("matching", "registry.py Equals, BaseEquals.__call__, has_arrlist, is_base_tuple")],
  ["eth_abi.registry predicates called directly and through ABIRegistry"])

p("C28", "Results are the same in every process and interpreter mode",
  "Every call of encode, encode_packed, decode, is_encodable, parse, normalize and type validation gives the same value or the same class of error in every process: for every hash seed, with optimisation (-O, -OO), in development mode, with warnings turned into errors, in every locale, with any limit on integer digits, whatever decimal.DefaultContext was when the library was imported, whatever the garbage collector does, with tracing on, in any thread, in a forked child, whichever modules of the package are imported first and in whatever order the calls are made.",
  ["inputs", "configurations"], "all calls x all interpreter modes",
  "The tests run in one mode of one interpreter process; asserts, set orders, inherited contexts and import-time state only show in others.",
  ["eth_abi/utils/numeric.py", "eth_abi/registry.py", "eth_abi/encoding.py", "eth_abi/decoding.py", "eth_abi/grammar.py", "eth_abi/codec.py"],
  [("import-time decimal context", "utils/numeric.py abi_decimal_context"), ("checks that must not be asserts", "encoding.py and decoding.py validate methods"), ("ordered lookups", "registry.py PredicateMapping.find")],
  ["outcomes of batches of calls run in child processes"])

p("C29", "Subclasses of the library's coders keep their overrides everywhere",
  "When a subclass of any of the library's coder classes is registered in place of the original and overrides the public methods encode and validate_value (for elementary types also validate_value alone), or decode, every value of its types goes through the overriding methods, wherever it occurs: alone, as an array item of arrays of any length, or as a tuple component at any depth, in standard and packed encoding, in is_encodable and in decoding in both modes. What such a subclass accepts, refuses, encodes and returns is exactly what is accepted, refused, encoded and returned there, and everything around it is coded as by the original classes.",
  ["inputs"], "all sets of replaced coder classes x all types, values and payloads",
  "The tests register custom coders for new type names only; that no position or shortcut bypasses an overriding method has to hold for every class in every position.",
  ["eth_abi/encoding.py", "eth_abi/decoding.py", "eth_abi/registry.py", "eth_abi/codec.py"],
  [("item and component coders", "encoding.py BaseArrayEncoder, TupleEncoder; decoding.py BaseArrayDecoder, TupleDecoder, HeadTailDecoder"), ("construction through cls", "from_type_str of each coder class")],
  ["eth_abi.codec.ABICodec over a registry copy"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
