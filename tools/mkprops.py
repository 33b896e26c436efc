"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PE, PEP, PEL = 'protos/src/encoder/mod.rs', 'protos/src/encoder/primitives.rs', 'protos/src/encoder/lit.rs'
PD, PDP, PDL = 'protos/src/decoder/mod.rs', 'protos/src/decoder/primitives.rs', 'protos/src/decoder/lit.rs'
HE, HEP, HD, HDP = 'hpack/src/encoder/mod.rs', 'hpack/src/encoder/primitives.rs', 'hpack/src/decoder/mod.rs', 'hpack/src/decoder/primitives.rs'
HT, HTD, HTS = 'hpack/src/table/mod.rs', 'hpack/src/table/dynamic.rs', 'hpack/src/table/static.rs'
UE, UET, UD, UDR = 'huffman/src/encoder/mod.rs', 'huffman/src/encoder/table.rs', 'huffman/src/decoder/mod.rs', 'huffman/src/decoder/reader.rs'
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': observe, 'hook_needed': None,
                          **({'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]} if state else {})}})
I = ['inputs']; HI = ['histories']; IH = ['inputs', 'histories']
# ------------------------------------------------------------------ HPACK
prop('H01', 'HPACK integers are canonical and bounded',
     'Every integer the HPACK encoder writes is the one canonical RFC 7541 form for its prefix size, keeps the flag bits above the prefix, and reads back as the same number when it takes at most five octets. The decoder returns the value of any complete integer of at most five octets together with the number of octets it took, reports missing input for an incomplete one, and refuses anything longer or larger than 32 bits without overflowing.',
     I, 'all 32-bit values, all prefix sizes used by the format, all octet sequences', 'the tests try a few dozen values per prefix size',
     [HEP, HDP], [('integer writer', HEP), ('integer reader with its octet limit', HDP)], ['octets written by the encoder', 'result of decoding'])
prop('H02', 'HPACK decoding of arbitrary octets is total',
     'For every octet sequence and every state of the connection, decoding returns after finitely many steps with headers or an error: it never panics, never reads outside its input, never overflows, and never consumes more than it was given.',
     IH, 'all octet sequences, in every reachable table state', 'the tests feed well-formed blocks and a handful of truncated ones',
     [HD, HDP, UD, UDR, HTD], [('representation dispatch', HD), ('length checks of strings', HDP), ('Huffman reader', UDR)], ['return of the decoding calls'])
prop('H03', 'HPACK string literals are framed exactly',
     'A header name or value written as a literal is its length as a 7-bit-prefix integer, with the top bit telling whether Huffman coding is used, followed by exactly that many octets. Reading takes exactly those octets, returns the text that was written, leaves what follows untouched, and reports missing input when fewer octets are there.',
     I, 'all octet strings, plain and Huffman coded, all truncations', 'the tests use a few dozen ASCII strings',
     [HEP, HDP], [('string writer', HEP), ('string reader', HDP)], ['octets written', 'headers decoded'])
prop('H04', 'Dynamic table: exact size accounting and oldest-first eviction',
     'At every moment the size of the dynamic table is the sum of name length, value length and 32 over its entries and does not exceed its maximum. Entries leave oldest first and only as many as the limit requires; an entry larger than the whole limit empties the table and is not added.',
     HI, 'all sequences of insertions and size changes', 'the tests follow a few short scripts',
     [HT, HTD], [('insertion with eviction', HTD), ('resizing', HTD)], ['size, length and entries of the table as seen through indexed decoding'],
     [('entries', 'newest first', HTD), ('size', 'octets accounted', HTD), ('max size', 'limit in force', HTD)])
prop('H05', 'HPACK index space',
     'Indices 1 to 61 name exactly the static entries of RFC 7541 Appendix A and the following ones name the dynamic entries, newest first. Index 0 and every index beyond the last dynamic entry are refused with an error. Iterating over the table visits exactly these entries in this order.',
     IH, 'all 32-bit indices, in every table state', 'the tests look up a handful of indices',
     [HT, HTS, HTD, HD], [('lookup over both tables', HT), ('static entries', HTS)], ['headers decoded from an indexed representation'])
prop('H06', 'HPACK table search returns a correct index',
     'Searching the table for a header returns an index exactly when an entry with that name exists, says whether the value matches too, and that index resolves to an entry with exactly that name (and value). A full match is preferred to a name-only match, and the lowest matching index is chosen.',
     IH, 'all headers, in every table state', 'the tests search for a few headers in one table',
     [HT], [('search over both tables', HT)], ['representation chosen by the encoder'])
prop('H07', 'HPACK encode then decode gives the same headers',
     'For every sequence of headers, flags and table-size changes, decoding the blocks an encoder produced, with a decoder of the same settings, yields exactly the headers that were encoded, in order, with the same never-indexed marking (integers up to 2^28, as H01 has it). Afterwards both sides hold the same dynamic table.',
     IH, 'all sequences of headers and size changes, over any number of blocks', 'the tests run fixed stories through the decoder and short scripts through both',
     [HE, HD, HT, HTD], [('encoder', HE), ('decoder', HD), ('shared table logic', HTD)], ['headers decoded', 'indices used afterwards'])
prop('H08', 'HPACK encoder emits the requested representation',
     'Each header is written as exactly one RFC 7541 representation. In the best format it is an index when name and value are both in the table (unless it is never-indexed), otherwise a literal whose name is an index when one is known; without it the form is the one the input has. Indexing mode and Huffman coding are exactly those requested by the flags, whose names stand for the documented bits, a size change is written as a size update, and the table changes only where the representation says so.',
     IH, 'all headers, all flag combinations, in every table state', 'the tests cover a few flag combinations in an almost empty table',
     [HE, HEP], [('choice of representation', HE)], ['octets written'])
prop('H09', 'HPACK decoder follows the RFC for every block',
     'Every octet is interpreted by the RFC 7541 representation patterns, and each complete representation yields precisely the header and the table change the RFC prescribes for the current table. The number of octets reported as consumed equals the number removed from the input.',
     IH, 'all octet sequences, in every table state', 'the tests decode blocks made by well-behaved encoders',
     [HD, HDP, HTD], [('representation dispatch', HD)], ['headers decoded', 'count returned'])
prop('H10', 'Non-indexed and sensitive headers never enter the table',
     'A header written without indexing or marked never-indexed leaves the dynamic table of encoder and decoder unchanged, whatever the name form or coding. A header marked never-indexed (and not for indexing as well) is always written with the never-indexed pattern, even when it is in the table, and is reported as such by the decoder.',
     IH, 'all headers, all table states', 'the tests check single examples',
     [HE, HD], [('literal without indexing', HE), ('never-indexed literal', HE)], ['octets written', 'flags of decoded headers', 'later indices'])
prop('H11', 'A failing HPACK decode leaves no half-applied representation',
     'When a block is incomplete or malformed, every representation before the failing one has been fully applied and delivered, the failing one has changed neither the table nor the output nor the input. Supplying the missing octets and calling again continues to the same result as if all had been there at once.',
     IH, 'all octet sequences and all ways of splitting them', 'the tests truncate a few examples',
     [HD], [('decoding into temporaries before the input is cut', HD)], ['input left, headers delivered, later decoding'])
prop('H12', 'HPACK table size updates respect the agreed limit',
     'A size update up to the limit set for the decoder takes effect at once, evicting what no longer fits; a larger one is refused with an error and changes nothing. The limit a decoder reports is the one it was given and is not moved by updates in the stream.',
     IH, 'all update values, limits and table states', 'the tests use two or three values',
     [HD, HTD], [('size update', HD)], ['result of decoding', 'reported limit', 'later indices'])
# ------------------------------------------------------------------ Huffman
prop('U01', 'Huffman encoding is the RFC 7541 code',
     'Encoding any octets appends exactly the concatenation of their RFC 7541 Appendix B codes, most significant bit first, filled up with one-bits to the next octet boundary by fewer than eight bits. What the destination held before is kept.',
     I, 'all octet strings', 'the tests encode some two hundred strings',
     [UE, UET], [('bit accumulator', UE), ('code table', UET)], ['octets appended'])
prop('U02', 'Huffman encode then decode is the identity',
     'For every octet string, decoding its encoding returns the string, at every decoding speed, appended to what the destination held.',
     I, 'all octet strings, all five speeds', 'the tests decode some two hundred strings',
     [UE, UD, UDR], [('bit accumulator', UE), ('table-driven reader', UDR)], ['octets decoded'])
prop('U03', 'Huffman decoding accepts exactly the canonical encodings',
     'Decoding succeeds exactly on the octet sequences that are the encoding of some string, padded with fewer than eight one-bits, and returns that string; every other sequence, in particular one with the end-of-string code, wrong or overlong padding, gives an error. The result is the same at every decoding speed, of which there are the five that DecoderSpeed::known lists, and decoding never panics.',
     I, 'all octet sequences, all five speeds', 'the tests try a handful of invalid sequences',
     [UD, UDR], [('table-driven reader', UDR), ('check of what remains at the end', UDR)], ['result of decoding'])
prop('U04', 'Generated Huffman tables decode like the code they were made from',
     'The decoding tables shipped for every speed lead, for every code of the RFC table followed by any bits, to its symbol after exactly its number of bits, and to an error for the end-of-string code. Every entry is filled, so no sequence of bits leaves a table.',
     I, 'all entries of the five tables', 'the tests exercise the entries that a few hundred strings reach',
     ['huffman/src/decoder/table1.rs', 'huffman/src/decoder/table2.rs', 'huffman/src/decoder/table3.rs', 'huffman/src/decoder/table4.rs', 'huffman/src/decoder/table5.rs', 'huffman/src/flattener/mod.rs'],
     [('decoding tables', 'huffman/src/decoder/table1.rs')], ['octets decoded'])
prop('U05', 'Huffman table generation is faithful for every code',
     'Flattening any prefix-free code of up to 65536 symbols, with codes of 1 to 30 bits, for any speed never panics, and unless it takes more than 256 rows the table decodes exactly that code: read that many bits at a time from its first row, every code, followed by any bits up to a whole step, ends at its own index with the right number of bits left over; every other sequence that ends in the table ends without a symbol; and reading goes on after a step exactly where a longer code does. Parsing the text of a code table, laid out as in RFC 7541 Appendix B, returns for every line, in order, the number of bits and the value it lists.',
     I, 'all prefix-free codes, all speeds, all texts in that layout', 'the tests flatten two small codes and parse one file',
     ['huffman/src/flattener/mod.rs', 'huffman/src/parser/mod.rs'], [('flattener', 'huffman/src/flattener/mod.rs'), ('parser', 'huffman/src/parser/mod.rs')], ['tables returned', 'codes returned'])
# ------------------------------------------------------------------ Protocol Buffers
prop('P01', 'Varints are minimal, exact and strictly read',
     'Every unsigned 64-bit number is written as the shortest base-128 varint, least significant group first. Any complete varint of at most ten octets reads back as its value with exactly its octets consumed whatever follows; an unfinished one waits for more input, and one that goes on beyond ten octets is an error, never an overflow.',
     I, 'all 64-bit values, all octet sequences', 'the tests try about twenty values',
     [PEP, PDP], [('varint writer', PEP), ('varint reader', PDP)], ['octets written', 'fields and values decoded'])
prop('P02', 'Protocol Buffers decoding of arbitrary bytes is total',
     'For every byte sequence, however it is split over calls, decoding a message and converting field contents to values return after finitely many steps: no panic, no overflow, no read outside the input, and never more bytes consumed than given.',
     IH, 'all byte sequences, all ways to feed them, all conversions', 'the tests feed well-formed messages and a few malformed fields',
     [PD, PDP, PDL], [('field loop', PD), ('bounds checks of the readers', PDP)], ['return of the decoding calls'])
prop('P03', 'Scalar fields survive encode and decode',
     'Every value of every scalar type, and every byte string, written under any valid tag and read back as the same type is identical, floating-point numbers bit for bit including NaN payloads and signed zeros.',
     I, 'all values of all fourteen scalar types, all valid tags, all ways to call the encoder', 'the tests try a few values per type',
     [PE, PEP, PD, PDP, PDL], [('writers', PEP), ('readers', PDP), ('conversions', PDL)], ['values decoded'])
prop('P04', 'Packed repeated fields survive encode and decode',
     'Every list of values of every packable type, of any length including zero, written under any valid tag and read back as the same type is identical in order and content.',
     I, 'all lists of all thirteen packable types', 'the tests use lists of a few elements',
     [PE, PEP, PD, PDP, PDL], [('packed writers', PE), ('packed readers', PDP)], ['lists decoded'])
prop('P05', 'A field is written with the exact wire bytes',
     'Encoding a field appends its key, for length-delimited content the length, and the content in the Protocol Buffers wire format of its type, changing nothing written before. The returned size is exactly the number of bytes appended.',
     I, 'all values of all types, all valid tags, all destinations', 'the tests compare a few values per type',
     [PE, PEP, PEL], [('field writers', PE), ('key and value writers', PEP)], ['bytes appended', 'size returned'])
prop('P06', 'Only valid tags and wire types pass',
     'A tag outside 1 to 2^29-1 is refused with an invalid-tag error and nothing is written, for every type of value. When decoding, a key with tag zero, a reserved or unknown wire type, or a value beyond 32 bits is an error and is left in the input.',
     I, 'all 32-bit tags with all values; all 64-bit keys', 'the tests try the two nearest invalid tags with one type',
     [PE, PEP, PDP, 'protos/src/typ.rs'], [('key writer', PEP), ('key reader', PDP)], ['result of encoding and decoding', 'destination and input afterwards'])
prop('P07', 'Messages survive encode and decode',
     'Every sequence of fields written one after another is delivered by a fresh decoder as the same sequence of tags, wire types and contents, with every byte consumed, including fields with empty content, and the decoder is then ready for the next message. Fields delivered before are kept.',
     IH, 'all sequences of fields of all types and lengths', 'the tests decode a few messages of a few fields',
     [PE, PD], [('field writers', PE), ('field loop', PD)], ['fields delivered'],
     [('key', 'field being read', PD), ('pending length', 'length of the content being read', PD)])
prop('P08', 'How input is split over decode calls does not matter',
     'Feeding a byte sequence to a decoder in any pieces delivers the same fields, leaves the same rest, and fails in the same cases as feeding it at once, and decoding goes on in the same way afterwards. Calls without new input deliver nothing.',
     HI, 'all byte sequences, all ways to split them', 'the tests split one message in one way',
     [PD, PDP], [('decoder state kept between calls', PD)], ['fields delivered', 'input left', 'results'],
     [('key', 'field being read', PD), ('pending length', 'length of the content being read', PD)])
prop('P09', 'Malformed messages stop cleanly at the malformed element',
     'On malformed input decoding fails only after delivering every complete field before it, delivers nothing of what is malformed, and leaves the input starting at the malformed key, length or number. Calling again fails again at the same place; input that is merely incomplete is no error and is kept.',
     IH, 'all byte sequences, after any earlier input', 'the tests try single malformed fields',
     [PD, PDP], [('error paths of the field loop', PD)], ['fields delivered', 'input left', 'result'])
prop('P10', 'Conversions of field contents follow the wire format or yield defaults',
     'Converting field contents to a value of the type they are marked with gives the value the wire format assigns to them; contents that are too short or malformed, and conversions to a type that does not match the marking, give the default value (zero, false, empty) and never a partial list.',
     I, 'all byte sequences, all pairs of marking and target type', 'the tests convert well-formed contents',
     [PDL, PDP], [('conversions', PDL), ('readers', PDP)], ['values converted'])
prop('P11', 'A failing destination is reported and never gets wrong bytes',
     'When the destination fails while a field is written, encoding reports an interruption, and what the destination received is a prefix of the bytes of that field. When it does not fail, encoding with a valid tag succeeds.',
     ['inputs', 'fault_sequences'], 'all values, and failures at every byte', 'the tests only write to memory',
     [PE, PEP, 'protos/src/encoder/error.rs'], [('error conversion', 'protos/src/encoder/error.rs'), ('field writers', PE)], ['bytes received', 'result'])

TECH = 'contract-based deductive verification (Verus) of the functions extracted from /repo on every run'
from props import PROPS
NA = {
}
def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as o:
        for p in P: o.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in P:
        i = p['id']
        if i in PROPS:
            s = PROPS[i]
            checks.append({'property': i, 'quick_cmd': 'python3 tools/check.py %s quick' % i, 'thorough_cmd': 'python3 tools/check.py %s thorough' % i,
                           'technique': TECH, 'level': 'proof',
                           'level_note': s.get('note', 'Every obligation of the functions it depends on and of the lemmas stating it is discharged for all inputs, on the code as extracted from the current tree. Assumed: the contracts of the standard library in contracts/lib/trust.rs, the extraction, 64-bit usize, Verus and Z3. When a change puts a function out of reach of the verifier, that run is a bounded search and says so in its evidence.'),
                           'theorems': s['theorems']})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'Check under construction.')})
    json.dump({'version': 1, 'setup_cmd': 'sh tools/setup.sh', 'checks': checks, 'not_applicable': na,
               'notes': 'No hooks: the checks read the sources of /repo and use its public interface.'}, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
main()
