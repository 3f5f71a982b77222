import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,**k):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    for x in ('state','observe_at'):
        if x in k: a[x]=k[x]
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':qt},'why_tests_cant':why,'anchors':a})
JP='lib/json/JSON_parser.c'
p('P01','Reading JSON is memory safe for any bytes in any chunking',
 'Whatever bytes are fed to the JSON reader, however they are cut into chunks, however deep the nesting and however long the strings and numbers, the reader never reads or writes outside its buffers, never uses freed memory and never stops on an assertion or arithmetic fault. It ends with a value or with an exception.',
 ['inputs'],'all byte strings of any length, all ways of delivering them in chunks, all nesting depths and token lengths',
 'Tests feed a few short documents; buffer growth, nesting growth and partial escapes at the edge of a buffer need inputs of particular lengths.',
 [JP,'src/JSONParser.cc'],[('growth of the text buffer and of the nesting stack',JP),('feeding bytes and delivering events','src/JSONParser.cc')])
p('P02','JSON documents are accepted exactly by the grammar and read as the right values',
 'The JSON reader accepts exactly the documents whose top level is an object or array in the standard JSON grammar, extended only by C comments wherever white space may stand, by numbers that have no digits after their decimal point, and by bytes before the document that cannot start one being passed over. For an accepted document the reported structure, literals, integers (within 64 bits) and floating point numbers are those written, in order, and the verdict does not depend on what follows the closing bracket. Any other input ends in an error.',
 ['inputs'],'all byte strings, all nestings, all token boundaries',
 'The grammar has hundreds of (context, byte) pairs and unbounded nesting; tests contain a few dozen documents.',
 [JP,'src/JSONParser.cc'],[('character transition table and actions',JP),('verdict and end of document','src/JSONParser.cc')])
p('P03','JSON strings decode to exactly the text they denote',
 'Every string or key in an accepted JSON document is delivered with exactly the bytes it denotes: plain bytes unchanged, each escape replaced by its character, each \\u escape (surrogate pairs included) by the UTF-8 encoding of its code point, embedded NULs kept, with the right length. Unpaired or misordered surrogates are rejected.',
 ['inputs'],'all string contents of any length, all escapes, all positions relative to buffer growth',
 'All 65536 code units, all pairs and all positions relative to the internal buffer boundary cannot be sampled by unit tests.',
 [JP,'src/JSONParser.cc'],[('escape decoding and UTF-8 encoding',JP),('string events','src/JSONParser.cc')])
JE='src/JSONEmitter.cc'
EO='src/EmitterOutput.cc'; PI='src/ParserInput.cc'
p('P04','JSON output is well-formed, stands for exactly the value, and arrives complete',
 'The text written for a value is well-formed JSON that stands for exactly that value: numbers are numbers of the asked-for precision with a point if they were floating point, every character of a string or key is kept or escaped, binary data is marked, and numbers that JSON cannot write become null or are refused, as asked for. Layout options change only white space between tokens, and indented output puts each element on its own line at its depth. Whatever portions the target takes, nothing is lost, repeated or reordered, closing or flushing delivers everything, and when the target fails it holds a beginning of the text and the failure is reported.',
 ['inputs','faults'],'all values, option settings and target behaviours',
 'Text sizes against buffer sizes, escapes at buffer ends, nesting and short or failing writes combine without bound.',
 [JE],[('writing of tokens, layout and buffering',JE)])

p('P05','Output targets receive exactly the bytes written, once and in order',
 'Bytes written through a file, stream or memory target arrive there unchanged, in order and exactly once; the count returned by each write and the running total equal what the target took, also when it takes only part. A memory target never changes a byte outside its block: a write that does not fit raises an exception and changes nothing, a write that fits is taken whole, whatever lengths are involved. Serialising the same value to a string, a file, a stream or a memory block gives the same bytes, and an exception if the block is too small.',
 ['inputs','histories'],'all sequences of writes and flushes, all lengths, all block sizes, all partial results of the target',
 'Overruns and miscounts show only for particular combinations of block size, earlier writes and lengths, and for targets that take part of a write.',
 [EO,'src/VariantEmitting.cc'],[('memory, file and stream targets',EO),('serialise functions','src/VariantEmitting.cc')])
p('P06','Input sources deliver exactly the source bytes, however they are requested',
 'For any source (memory, file, stream), any buffer size, any sizes of the individual reads and any sequence of requests and releases, the bytes offered are exactly the next unreleased bytes of the source: at least as many as requested unless the source ends first, none lost, repeated or changed, and the end is reported only when everything was released. Reading documents takes exactly the bytes of each document from the input, so documents that stand one behind the other in one input are all read.',
 ['inputs','histories'],'all source contents, buffer sizes, read sizes and request/release histories',
 'Losing or repeating bytes needs a particular alignment of request, release, buffer size and read size.',
 [PI,'src/JSONParser.cc'],[('buffered stream input, memory input, file and stream reads',PI),('consumption by the JSON reader','src/JSONParser.cc')])
B64='src/Base64.cc'; BL='src/Blob.cc'
p('P07','Binary data survives Base64, and Base64 text decodes to what it says',
 'Encoding any bytes, given as one block or scattered over any buffers (empty ones included), with or without line breaks, gives their standard padded Base64 text, and decoding that text gives back exactly the bytes. Decoding takes exactly the characters of the Base64 alphabet and passes over everything else. Neither encoding nor decoding ever writes more than the size announced for it, and a blob written into a JSON document is read back with the same bytes.',
 ['inputs'],'all data below 1 GiB, all scatterings over buffers, all line lengths of at least 4, all texts',
 'Lengths modulo three, line ends, empty buffers and foreign characters combine; tests encode a few strings.',
 [B64,'src/JSONParser.cc','src/JSONEmitter.cc'],[('encoder, decoder and sizes',B64),('blobs in JSON','src/JSONParser.cc')])
p('P08','Blobs are their bytes, however they are cut into buffers',
 'The length, order and equality of blobs depend only on the bytes they hold one behind the other, not on how these are cut into buffers; the order is that of the bytes as unsigned numbers with a prefix before the longer blob. A copy holds the same bytes in memory of its own. Every buffer handed over with a free function is freed exactly once, with its own address and context, when the last owner lets go, and referenced buffers never.',
 ['inputs','histories'],'all contents and all segmentations, all ways of creating, sharing and dropping a blob',
 'Boundaries of the two segmentations must fall in particular relations; tests use one buffer.',
 [BL,'include/Variant/Blob.h'],[('comparison, copy, creation and destruction',BL)])
VC='src/Variant.cc'; VD='include/Variant/VariantInternal.h'
p('P09','Numbers in dynamic values keep, convert, compare and compute as the numbers they are',
 'A number put into a dynamic value is read back as the same number, and converting it to another number type or to text and back gives what the corresponding C++ conversion gives; text that is not a number or is out of range is refused. Comparison orders any two numbers, of whatever types, by their mathematical value. Arithmetic gives the C++ result in the wider of the two types (integer, unsigned, floating point), leaves the right operand alone, and with anything that is not a number raises an exception and changes nothing.',
 ['inputs'],'all values of all number types and all pairs of them (no NaN, no signed overflow, no division by zero)',
 'Signed against unsigned against floating point at the limits of 64 bits is a large product; tests use small numbers.',
 [VC,'include/Variant/Variant.h'],[('number operations and conversions',VC),('choice of the wider type',VC)])
p('P10','Every operation on a value of the wrong type is refused and changes nothing',
 'The type of a dynamic value is exactly that of what was last put into it. An operation that the type does not support raises the documented exception and leaves the value as it was; one that it supports works the same on a variable, an element and through a reference. A value without content becomes a list or map when it is used as one, and values of different types, unless both are numbers, never compare equal.',
 ['inputs','histories'],'all nine types, all operations, all argument types',
 'Nine types times about a hundred operations times argument types; tests check a handful of pairs.',
 [VC,'include/Variant/Variant.h'],[('per type operation tables',VC)])
p('P11','References, copies and shared values: writes reach exactly what they should',
 'An operation through a reference does exactly what it does on the value referred to, and a reference to a place that does not exist yet creates it on the first write and nothing before. A reference whose value is gone raises an exception on every use and never touches released memory, and assigning containers, strings and blobs shares them while an explicit copy shares nothing. Content is released exactly when its last owner goes, also when a value is assigned to a part of itself or the other way round.',
 ['inputs','histories'],'all operations, all types, all histories of creating, assigning, referring to and dropping values',
 'Lifetime errors need a particular order of creation, assignment and destruction.',
 [VC,VD],[('references and proxies',VC),('sharing of content',VC)])
p('P12','Lists and maps behave as sequences and finite maps under every operation',
 'A list behaves as a sequence and a map as a finite map from text to values under every operation: reading, testing, setting, appending, erasing, finding, copying, comparing and merging give the result and leave the content that the sequence or map would have, for every index and key. Setting behind the end fills the gap with values without content, erasing inside a list leaves a value without content in the place, and reading what is not there gives the default or an exception and changes nothing; merging sets every member of the second map in the first.',
 ['inputs','histories'],'all contents, all indexes (up to the largest) and keys, all histories',
 'Indexes at and behind the end, the largest index, missing keys and default values combine with histories.',
 [VC],[('list and map operations',VC),('merge',VC)])
PC='src/Path.cc'
p('P13','Paths name what they say, as text and when used to get, set and erase',
 'A path written as text and read again is the same path, whatever its keys contain and however large its indexes are (a path that ends in an empty key excepted), and path text of the documented form is read as documented; an index that is no number or does not fit is refused. Getting and testing along a path give the value reached by taking its steps one after the other, or the default or an exception if a step is missing, and change nothing. Setting assigns there, making exactly the missing containers (a map for a key, a list for an index), and erasing removes exactly that element and, if asked, the containers on the way that are then empty; a refused operation changes nothing.',
 ['inputs'],'all paths, all keys and indexes, all values',
 'Escapes, empty keys, index limits and partially existing paths through mixed lists and maps combine without bound.',
 [PC,VC],[('path strings',PC),('getting, setting and erasing along a path',VC)])
EX='src/Extensions.cc'
p('P14','JSON pointers, patches and differences follow their standards, all or nothing',
 'Looking up, adding, removing, replacing, moving, copying and testing with a JSON pointer act on exactly the place that RFC 6901 and RFC 6902 name, tokens are unescaped, list indexes are plain decimal numbers in range or the end mark, and a pointer that leads nowhere is refused without a change. A patch applies all its operations in order, or, if one fails or a test does not hold, leaves the document as it was and says so. The difference of two documents, applied as a patch to the first, gives the second.',
 ['inputs','histories'],'all documents, pointers and patches',
 'Escapes, index forms, lists that shrink and grow under a patch and the place where a patch fails combine without bound.',
 [EX],[('pointer operations',EX),('patch and undo',EX),('difference',EX)])
p('P20','Flattening, recursive difference and recursive update lose nothing',
 'Flattening a value gives one entry per scalar, named by the path of keys and indexes written with the chosen delimiters (lists of scalars may be kept whole if asked), and expanding a flattened value without lists gives it back. Updating a value recursively with another leaves what the other does not mention and takes what it mentions, map into map, and the recursive difference of two values holds exactly what differs, so that updating the first with it gives every element of the second. Results share no containers with the arguments.',
 ['inputs'],'all values and delimiters',
 'Nesting, empty containers, equal and differing parts and delimiters combine without bound.',
 [EX],[('flattening and expanding',EX),('recursive difference and update',EX)])

p('P19','Truth of texts, types of plain scalars and input formats are guessed as told',
 'A text counts as false exactly if, apart from white space around it and letter case, it is a beginning of no or false of at least one letter, or consists of zeros; an empty or blank text counts as true. A plain scalar is null, a boolean, an integer (decimal, octal or hexadecimal; the nearest that fits), a floating point number, an infinity or not a number exactly if it has that form, and the same text otherwise. The format of an input is decided by its first character that is not white space, whatever the input is made of and however it is delivered, and nothing after the end of the input is looked at.',
 ['inputs'],'all texts and inputs, in all pieces',
 'The texts are unbounded, and prefixes, near misses, limits of integers and input ends are rarely the ones a test picks.',
 ['src/ParseBool.cc','src/GuessScalar.cc','src/GuessFormat.cc'],[('truth of a text','src/ParseBool.cc'),('plain scalars','src/GuessScalar.cc'),('formats','src/GuessFormat.cc')])

PL='src/Payload.cc'
p('P17','A payload travels behind its header unchanged, and both come back',
 'Writing a value with a payload gives one document of the chosen format in which the length stands at its path and the data is left out, then line feeds and one zero byte that end at a multiple of 32 bytes, then exactly the bytes of the payload, however they are segmented and however little an output takes at once; an output that takes no more is an error. Reading takes the header up to its zero byte and exactly the announced number of bytes after it, puts them at the path of the data, leaves the input right behind them, and refuses a payload that is cut short. Nothing behind the zero byte is ever shown to the reader of the header.',
 ['inputs','histories'],'all values, paths and payloads, all segmentations, outputs and inputs, records one after another',
 'Header length modulo the alignment, buffer segmentation, partial writes, delivery in pieces and path positions combine without bound.',
 [PL],[('writing header and payload',PL),('showing only the header',PL),('reading header and payload',PL)])
BE,BP='src/BundleHdrEmitter.cc','src/BundleHdrParser.cc'
p('P18','Bundle headers are written and read line by line as documented',
 'Writing a flat map of scalars and lists as a bundle header gives its version line and one line per entry with key, colon and value or the elements each followed or separated by bars, in the order of the calls; calls that do not fit are refused without output, and an output that fails is reported and never ends the program or hangs. Reading takes every line with a key, a colon and no comment sign before, ignores all others and the version, cuts comments and white space around values, and delivers a list exactly if the value has several fields or ends with a bar, each guessed as a plain scalar. The last line counts with or without a line feed, whatever pieces the input comes in.',
 ['inputs','histories'],'all texts of headers, all sequences of calls, all outputs and inputs',
 'Lines, comments, bars and blanks combine without bound, and line ends meet input ends only in some deliveries.',
 [BE,BP],[('writing entries',BE),('lines and entries',BP),('events of the reader',BP)])

SC='src/Schema.cc'
p('P15','Schema validation accepts exactly the data that satisfies every keyword',
 'Validating data against a schema reports no error exactly if the data satisfies every keyword of draft 4 in the schema and in every part of it that applies to a part of the data: types, limits, multiples, lengths, patterns, formats, items, properties, dependencies, enumerations and combinations. Every reported error names a place that exists in the data and a keyword that really fails there, or a keyword whose value is not allowed. Neither the data nor the schema is changed.',
 ['inputs'],'all schemas and all data',
 'Keywords combine, nest and interact without bound, and limits, types and positions meet only in some combinations.',
 [SC],[('one function per keyword',SC),('walk over the schema and the data',SC),('errors and their places',SC)])

SLO='src/SchemaLoader.cc'
p('P16','Schema references and URIs lead to the schema they name',
 'Resolving a reference against a base gives the URI of RFC 3986, for every reference that does not climb above the root, and a fragment leads to the value its pointer names after decoding its escapes. A reference finds the document among those added, with the names nested inside it, then those of the base loader, then by the handler for missing ones or the first file of that name in the order of the directories; one that leads nowhere is an error and never another schema. Adding a document completes every name and reference in it, replaces no other document and leaves its other parts alone.',
 ['inputs','histories'],'all URIs, references, documents and loaders',
 'Parts of URIs, dot segments, escapes, nesting of names and order of loaders combine without bound.',
 [SLO],[('resolution of references',SLO),('dot segments and escapes',SLO),('documents by name',SLO),('documents in files',SLO)])

p('P21','Schema defaults fill in what is missing and change nothing else',
 'Filling in the defaults of a schema puts, wherever something the schema describes is missing or null and the schema gives a default for it, a copy of that default there, also below objects and arrays that are missing themselves and through references and combinations of schemas. Everything else in the data stays as it was: no value that was there is replaced, removed or moved, and nothing is created where no default leads to it. Changing the data afterwards does not change the schema, and filling in ends for every schema, also a recursive one.',
 ['inputs'],'all schemas with lists and maps where the draft asks for them, all data, all loaders',
 'Missing places below missing places, references back to the schema and several alternatives for one place combine without bound.',
 [SC],[('recursive filling along properties, items, combinations and references',SC),('entry with its loader',SC)])
p('P22','A value handed on as events, or read from them, keeps every part of it',
 'Handing a value to a writer gives exactly the events of that value, each map entry as its key and then its value, every list element in order, and scalars with their type and full content, at any depth. Reading a document builds the value whose events arrive: every element and entry ends up in its place, whichever handlers finish together, and a stream of documents gives one value for each document. Writing, reading, loading and parsing functions for memory, files and streams pass on the same bytes, options and results, and an error on either side is reported, never a partial value as if it were whole.',
 ['inputs','histories'],'all values, all sequences of events of documents, all writers, readers, targets and sources',
 'Nesting, the moment at which handlers finish, and the combinations of target, source, format and options have no bound.',
 ['src/VariantEmitting.cc','src/VariantParsing.cc','src/Emitter.cc','src/Parser.cc'],[('recursive emission of a value','src/VariantEmitting.cc'),('handlers that build values, one for each open container','src/VariantParsing.cc'),('functions for users over targets and sources','src/Emitter.cc'),('reader interface','src/Parser.cc')])
p('P23','XML property lists: what is written is read as the same value',
 'Writing a value as an XML property list and reading it gives the same value with the same types: texts and keys character by character (blanks, and empty ones included), numbers exactly, blobs byte by byte, empty and nested lists and maps. Comments, CDATA sections and line breaks between elements do not change what is read, and text in any number of pieces is put together. Text that is no property list, a source that fails, or a target that refuses data is reported as an error, and at the end of a document the reader is done.',
 ['inputs','faults'],'all values with texts of characters XML can express (nesting below 256), all property lists, all splits of the input, all targets that refuse data at some point',
 'Which node follows which, where a text is split and where a target refuses data have no bound; each kind of element has rules of its own.',
 ['src/XMLPLISTEmitter.cc','src/XMLPLISTParser.cc'],[('elements and texts of each event, keys and values in turn','src/XMLPLISTEmitter.cc'),('dispatch of nodes, gathering of text, events of elements','src/XMLPLISTParser.cc')])
p('P24','YAML: what is written is read as the same value',
 'Writing a value as YAML and reading it gives the same value with the same types: a text that looks like a number, a truth value or nothing stays a text, numbers are exact (not a number and the infinities included), blobs keep every byte. Streams give one value for each document, an alias stands for the last value that was given its anchor, also one on the key of a map, and settings in use are the ones given. Broken text, a source that fails or a target that refuses data is reported as an error and everything is released exactly once.',
 ['inputs','faults'],'all values with texts of characters YAML can express, all styles and settings, all streams of documents with anchors and aliases, all splits of the input, all targets that refuse data at some point',
 'Texts that look like something else, nesting, styles and the places where a target refuses data have no bound.',
 ['src/YAMLEmitter.cc','src/YAMLParser.cc','src/VariantParsing.cc'],[('one event of the format for each event, documents, settings','src/YAMLEmitter.cc'),('dispatch of events, scalars by tag and style','src/YAMLParser.cc'),('anchors and aliases','src/VariantParsing.cc')])

# ------------------------------------------------------------------ output
TECH = 'contract-based deductive verification: VC generation from the LLVM IR of /repo\'s current source, contracts at calls, inductive loop invariants, z3/cvc5'
NOTE = {}
NA = []


def note(pid, text):
    NOTE[pid] = text


note('P01', 'JSON_parser_char proved for every state, byte and buffer layout (representation invariant, bounds, asserts); driver, callbacks and lifetime functions under contract. A bounded native comparison runs beside the proof.')
note('P02', 'Transition relation of the dialect proved for every lexical state and byte, any nesting; driver loop proved with invariants. sscanf/strtod are trusted for the value of a number text.')
note('P03', 'Decoded text proved byte for byte as a sequence for every state and byte, any length; delivery through the driver under contract.')
note('P05', 'Write of every target proved against the target as a byte sequence for any block, position and length (bounds, refusal without change, counts). Equality across targets is covered by the contracts of the targets plus a bounded native comparison.')
note('P06', 'GetPtr/Release/constructor of the buffered input proved with a representation invariant over the delivered and released source bytes for any buffer size and any partial reads; memory, file and stream sources and the JSON reader driver under contract.')
note('P07', 'Encoder text proved character by character for any data and scattering (no line length), decoder proved byte by byte for any text, sizes, and the round trip as a lemma over both contracts; the JSON string callback under contract. Texts broken into lines are covered by the bounded native comparison.')
note('P08', 'Compare, CreateCopy, GetTotalLength, the creation functions and the destructor proved for any number of buffers and any lengths, with the data as the concatenation of the buffers.')
note('P09', 'Assignment from every C++ number type, every conversion, copying, stepping, the five operators for each pair of types (also with itself) and comparison proved for all values; refusal of non-numbers proved. Conversions to and from text by the bounded comparison; fmodl is an unknown function.')
note('P10', 'Every virtual operation of every type proved: result or refusal with the right exception and unchanged value, for all contents; null becoming a container, type assignment and comparison across types proved.')
note('P11', 'Each operation of references and of proxies proved to forward to the value referred to or to refuse, life marks, destruction and release, sharing on assignment for each pair of types and copying proved with ownership counts.')
note('P12', 'List and map operations proved against a sequence and a finite map of any size with loop invariants, comparison and merge included.')
note('P13', 'Lookup, setting, erasing and references along a path proved for any value and any path by induction over the path (the recursive call is replaced by the contract); public functions under contract. Path text: reading proved against an automaton over any text, writing against a fold over any path, reading back by a lemma over both; the conversion of decimal numbers by streams is trusted.')

note('P04', 'Buffering, token writing, string escapes, separators and indentation proved for any text, state and target behaviour; the text of a number is taken from the standard library. Whole values by the bounded comparison.')
note('P14', 'Each pointer operation proved for any document and pointer by induction over the pointer, with the place, the path, the value afterwards and no change on refusal; tokens, indexes and the functions for users proved, moving with a restore lemma. Patch lists, undo and differences by the bounded comparison.')
note('P20', 'Recursive update, recursive difference and flattening proved for any values by recursion and loop invariants. Expansion and the map of strings by the bounded comparison.')

note('P19', 'Truth of a text proved with an automaton over any text, format proved for any input and any pieces, plain scalars proved for every outcome of the pattern match. That the pattern describes the forms is left to the bounded comparison; strtoll, strtoull and strtod are trusted.')
note('P17', 'Writing proved for any value, options, buffers and output behaviour, the header being what the emitter writes; the proxy that ends the header at its zero byte and reading proved for any input in any pieces. The parts of the header (place of the length, data left out) by the bounded comparison.')
note('P18', 'Each operation of the writer proved in every state; reading a line, its automaton of key, value and comment, and one step of the reader in every state proved for any input in any pieces; splitting at bars is trusted to strtok_r, scalars to their own contract (P19).')
note('P15', 'Each keyword proved for any schema and any data (an error afterwards exactly if there was one before or the keyword fails; the error names places that exist and a keyword that fails), the walk over all keywords and the entry proved with them by recursion. Patterns are trusted to regcomp and regexec; that format expressions describe their formats is left to the bounded comparison.')
note('P16', 'Resolution proved against RFC 3986 on the parts, removal of dot segments against a stack of segments, decoding, lookup, completion of names, collection of nested names and the search in files proved for any text, document and loader by recursion and loop invariants. That the expression splits a URI into its parts is left to the bounded comparison.')
note('P21', 'Filling proved for any schema, data (there or missing), original and references being followed: the result is the specified function of them by recursion, with loop invariants over properties, items and lists of schemas; that values are kept is proved for an arbitrary path into the data. That filling ends for recursive schemas, and schemas named by the data, by the bounded comparison.')
note('P22', 'Emission of any value proved by recursion over it, with loop invariants for lists and maps; each handler proved for every event in every state, with ownership of handlers that finish; functions for users and reader interface under contract. Values are compared natively through every format, target and source.')
note('P23', 'Each event of the writer proved in every state, with every failure of libxml2; each kind of element, text and end proved in every state of the reader, the dispatch loop with an invariant, numbers and blobs by the contracts of the C library and P07; reading back is a lemma over both. That libxml2 returns the nodes it was given is trusted and compared natively.')
note('P24', 'Each event of the writer proved in every state, with every failure of libyaml and the release of every event; scalars of every tag and style, the dispatch loop and the sources proved for the reader; settings proved. That libyaml returns the events it was given is trusted, guessing of plain scalars is the contract of P19; both are compared natively.')


def main():
    import os
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    na = {x['property'] for x in NA}
    m = {'version': 1, 'setup_cmd': './setup.sh',
         'checks': [{'property': x['id'], 'quick_cmd': './check.sh %s quick' % x['id'], 'thorough_cmd': './check.sh %s thorough' % x['id'],
                     'evidence_file': 'evidence/%s.json' % x['id'], 'technique': TECH, 'level': 'proof', 'level_note': NOTE[x['id']]}
                    for x in P if x['id'] not in na],
         'not_applicable': NA, 'notes': 'See DESIGN.md. Findings: known_findings.txt.'}
    json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
