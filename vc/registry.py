"""Which contract modules and native stand-in decide which property."""
from .run import Prop

PROPS = {}


def add(*a, **k):
    p = Prop(*a, **k)
    PROPS[p.pid] = p


JSON_BOUND = 'reference reader compared on all (context, byte, continuation) triples of a list of 80 contexts and 33 continuations, all 3-4 token ' \
    'sequences of a 20 token alphabet, all UTF-16 escapes of interest, text and nesting sizes around the capacities, random and damaged documents'
for _p in ('P01', 'P02', 'P03'):
    add(_p, ['json_parser', 'json_impl'], native='json', native_args={'quick': [], 'thorough': ['--scale', 20]}, bounded=JSON_BOUND,
        assumptions=['sscanf and strtod return the value of the number text (C library)', 'the locale does not change while a document is read'])

IO_BOUND = '6000 rounds of random operation histories on memory, FILE and streambuf targets and sources (short writes and reads, buffers of 1 byte and up, ' \
    'requests and lengths at the limits), documents in sequence, and serialisation to every target'
IO_ASSUME = ['fread, fwrite, fflush, ferror, feof and the streambuf virtual functions behave as documented (a read returns at most what was asked for)',
             'std::vector<char> and std::string behave as documented', 'memory allocation succeeds']
add('P05', ['io'], native='io', native_args={'quick': [], 'thorough': ['--scale', 100]}, bounded=IO_BOUND, assumptions=IO_ASSUME)
add('P06', ['io', 'json_impl'], native='io', native_args={'quick': [], 'thorough': ['--scale', 100]}, bounded=IO_BOUND, assumptions=IO_ASSUME)

BLOB_BOUND = 'encoding and decoding compared with a reference for all lengths up to 70 and line lengths, all single bytes and random data in random segmentations ' \
    '(empty buffers included), texts with foreign characters, blob comparison, copy and freeing in random segmentations, blobs through JSON'
add('P07', ['base64', 'json_impl'], native='blob', native_args={'quick': [], 'thorough': ['--scale', 30]}, bounded=BLOB_BOUND,
    assumptions=['data of less than 1 GiB (sizes are computed in 32 bits)', 'texts broken into lines: content by the bounded comparison only, the proof of the text is for no line length'])
add('P08', ['blob'], native='blob', native_args={'quick': [], 'thorough': ['--scale', 30]}, bounded=BLOB_BOUND,
    assumptions=['data of less than 4 GiB (lengths are 32 bit numbers)', 'std::vector copies the range it is made from', 'std::shared_ptr deletes its object once, when the last owner goes',
                 'memcmp compares as unsigned bytes up to the first difference', 'posix_memalign returns memory of the size asked for or fails'])

VAR_ASSUME = ['std::shared_ptr, std::vector, std::map and std::deque behave as documented', 'memory allocation succeeds']
add('P09', ['variant_num'], native='variant', native_args={'quick': ['--part', 'num'], 'thorough': ['--part', 'num', '--scale', 3]},
    bounded='all pairs of about 500 integers, unsigned integers and floating point numbers at the limits of the types, every operator, conversions to and from text',
    assumptions=VAR_ASSUME + ['no NaN, no integer overflow of signed numbers, no division by zero', 'fmodl is an unknown function of its arguments', 'numbers written as text: by the bounded comparison only'])
add('P10', ['variant_types'], native='variant', native_args={'quick': ['--part', 'types'], 'thorough': ['--part', 'types,hist', '--scale', 20]},
    bounded='every operation on samples of every type with arguments of every type, directly and through four kinds of reference', assumptions=VAR_ASSUME)
add('P11', ['variant_ref'], native='variant', native_args={'quick': ['--part', 'types,hist'], 'thorough': ['--part', 'types,hist', '--scale', 20]},
    bounded='every operation through references and proxies, random histories of values, references and proxies against a model of variables and shared containers', assumptions=VAR_ASSUME)
add('P12', ['variant_cont'], native='variant', native_args={'quick': ['--part', 'hist'], 'thorough': ['--part', 'hist', '--scale', 30]},
    bounded='random histories of list, map and path operations against a model', assumptions=VAR_ASSUME + ['fewer than 2^32 - 1 elements in a list'])
add('P13', ['variant_path', 'path_text'], native='path', native_args={'quick': [], 'thorough': ['--scale', 10]},
    bounded='all path strings of up to 6 characters of a 6 character alphabet and random paths against a reader of the documented syntax; random path operations on random trees against a model',
    assumptions=VAR_ASSUME + ['path strings: by the bounded comparison only'])

add('P04', ['json_emit'], native='emit', native_args={'quick': [], 'thorough': ['--scale', 30]},
    bounded='random values, event sequences, options and targets (short writes, refusing targets) against a strict reader of its own, every character, text sizes around the buffer size, precisions and nesting',
    assumptions=['the decimal text of integers and of floating point numbers written by the standard streams', 'std::vector<char>, std::deque and std::string behave as documented', 'fewer than 2^31 bytes in one string',
                 'emission of whole values: by the bounded comparison only'])

FACADE = ['operations of dynamic values as the contracts of P10 to P13 establish them; containers reachable from two places at once are outside the model', 'std::map, std::vector, std::deque, std::string and string streams behave as documented']
add('P14', ['ext_pointer'], native='patch', native_args={'quick': ['--part', 'patch'], 'thorough': ['--part', 'patch', '--scale', 12]},
    bounded='pointers, patches and differences on random documents against a reference of RFC 6901 and RFC 6902; all pairs of operations on a small document, undone by a failing test',
    assumptions=FACADE + ['patch lists, their undoing and differences: by the bounded comparison only'])
add('P20', ['ext_flat'], native='patch', native_args={'quick': ['--part', 'flat'], 'thorough': ['--part', 'flat', '--scale', 12]},
    bounded='flattening, expanding, recursive difference and update of random values against a model', assumptions=FACADE + ['expansion and the map of strings: by the bounded comparison only'])
add('P19', ['guess'], native='guess', native_args={'quick': [], 'thorough': ['--scale', 20]},
    bounded='all short texts over an alphabet of the forms, random texts near them, all inputs of few pieces, against a reference',
    assumptions=['regexec matches as documented (which forms the pattern has: by the bounded comparison)', 'strtoll, strtoull and strtod convert as documented', 'C locale for isspace and tolower'])
add('P17', ['payload'], native='bundle', native_args={'quick': ['--part', 'payload'], 'thorough': ['--part', 'payload', '--scale', 12]},
    bounded='records in JSON and bundle format with own paths, several after one another, cut short, on partial and full outputs, and arbitrary bytes, against a model',
    assumptions=FACADE + ['less than 1 GiB of header', 'the recursive writing of the header (place of the length, data left out): by the bounded comparison only', 'an input at its end sets the length to 0'])
add('P18', ['bundle'], native='bundle', native_args={'quick': ['--part', 'hdr'], 'thorough': ['--part', 'hdr', '--scale', 12]},
    bounded='all short headers over an alphabet of its signs, random headers in random pieces, written headers read again, all orders of calls, partial and full outputs, against a model',
    assumptions=['less than 1 GiB of header, no zero characters in it', 'strtok_r splits as documented', 'std::vector<char> and std::deque behave as documented', 'handlers do not call the reader back', 'the decimal text of numbers written by the standard streams'])

add('P15', ['schema'], native='schema', native_args={'quick': ['--part', 'validate'], 'thorough': ['--part', 'validate', '--scale', 10]},
    bounded='random schemas of every keyword, combined and nested, on random and matched data, against a validator of its own; formats on all short texts of an alphabet and random ones',
    assumptions=FACADE + ['regcomp and regexec compile and match as documented', 'the expressions behind the formats describe the formats (by the bounded comparison)', 'lengths of strings are counted in bytes, no zero bytes in strings matched with patterns',
                          'schemas nested and recursive to less than the limit of 100 levels', 'keyword values of the kinds the draft allows or of kinds that are reported as errors of the schema', 'remainders of floating point numbers are exact',
                          'a schema found through the data ("$schema"): by the bounded comparison only'])

add('P16', ['loader'], native='schema', native_args={'quick': ['--part', 'refs'], 'thorough': ['--part', 'refs', '--scale', 10]},
    bounded='random base URIs and references against a resolver of RFC 3986 of its own, pointers with escapes into random documents, nested names, loaders on top of loaders, handlers and directories of files',
    assumptions=FACADE + ['regexec matches as documented (that its groups are the parts of a URI: by the bounded comparison)', 'references that do not climb above the root, percent signs only as part of escapes', '"$ref" alone in its map; names only completed in documents that are not below the key enum',
                          'a document is registered under one name', 'lookup along a pointer as established for P14', 'iterators stay valid while values of a map are replaced', 'fetching over the network is not part of the check'])

add('P21', ['defaults'], native='schema', native_args={'quick': ['--part', 'defaults'], 'thorough': ['--part', 'defaults', '--scale', 10]},
    bounded='random schemas with defaults, properties, items, combinations and references (also recursive ones) on random data, against a model; the schema compared before and after, and after changing the data',
    assumptions=FACADE + ['references below a missing place: writing creates the maps and lists on the way, and a list is filled up with nulls (P12, P13)', 'a reference leads to one schema (P16), or the loader raises an exception', '"properties" is a map',
                          'that filling ends for recursive schemas, and a schema named by the data ("$schema"): by the bounded comparison only'])

VALUES = 'random values of every type, nested, through a recorder and a player of events and through every format, target, source and option, texts that look like something else, every size of a memory target around the one needed, ' \
    'comments, CDATA, damaged texts, streams of documents, anchors and aliases; compared with the value written'
add('P22', ['values'], native='values', native_args={'quick': ['--prop', 'P22', '--part', 'events,json'], 'thorough': ['--prop', 'P22', '--part', 'events,json', '--scale', 20]}, bounded=VALUES,
    assumptions=FACADE + ['no zero bytes in texts (texts are handed on as C strings)', 'handlers from outside may raise exceptions but do not take handlers from the stack that are not theirs'])
add('P23', ['xml'], native='values', native_args={'quick': ['--prop', 'P23', '--part', 'xml'], 'thorough': ['--prop', 'P23', '--part', 'xml', '--scale', 20]}, bounded=VALUES,
    assumptions=['libxml2 writes and reads XML as documented: elements and texts written are the nodes read, and text may come in pieces', 'strtoll, strtoull and strtod convert as documented and give back numbers written with enough digits',
                 'std::string, std::vector<char> and std::deque behave as documented', 'texts of characters XML can express, without zero bytes and carriage returns changed by XML itself', 'sizes and nesting below the limits of libxml2', 'constructors and parameters: by the bounded comparison only'])
add('P24', ['yaml'], native='values', native_args={'quick': ['--prop', 'P24', '--part', 'yaml'], 'thorough': ['--prop', 'P24', '--part', 'yaml', '--scale', 20]}, bounded=VALUES,
    assumptions=['libyaml writes and reads YAML as documented: events emitted are the events parsed, and an emitted event is released', 'guessing of plain scalars as established for P19', 'the decimal text of numbers written by the standard streams, with enough digits',
                 'std::string, std::vector<char> and std::deque behave as documented', 'texts of characters YAML can express, without zero bytes', 'the constructor and looking up settings by their names: by the bounded comparison only'])
