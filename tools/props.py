"""The properties, and how each is decided."""

TREE = 'bounded exhaustive history exploration of the real codec'
PROPS = []


def P(**kw):
    PROPS.append(kw)


P(id='C01', title='http2 codec is lossless over every history',
  statement='For every sequence of header messages compressed by one http2 '
  'codec instance and decompressed in the same order, each decompressed '
  'message carries exactly the original set of (name, value) pairs, up to the '
  'order of fields and of cookie pairs. This holds for both directions, for '
  'every configured table size, and whatever insertions, replacements and '
  'evictions earlier messages caused; compression of every message '
  'terminates. (White space around a value is not significant.)',
  over=['histories', 'configurations'],
  all='All message histories over the alphabets up to the stated depth, each '
  'from the initial state and inside long-running sessions, for table sizes '
  'from 0 to 8192 octets, with decoding interleaved or delayed.',
  why='There are no tests of this codec; one capture file exercises a few '
  'table states, while the loss depends on the eviction history.',
  files=['compressor/http2/http2Codec.py', 'compressor/http2/__init__.py'],
  mechanism=[('shared header table, reference set and literals',
              'compressor/http2/http2Codec.py'),
             ('processor wrapper', 'compressor/http2/__init__.py')],
  observe=['compress() output and decompress() output of the processor'],
  technique=TREE + ' (lockstep, delayed and split encoder/decoder)',
  note='Exhaustive up to the stated depth, message alphabet and table sizes; '
  'values outside the alphabet are not covered. Runs the real code under '
  'Jython 2.7.')

P(id='C02', title='http2 output decodes with bounded state by its spec',
  statement='A decoder written from the documented http2 wire format, which '
  'evicts the oldest table entries so that its table never exceeds the '
  'configured size (32 octets of overhead per entry), decodes every message '
  'of every history to the original header set. The encoder therefore never '
  'refers to an entry that such a bounded decoder has evicted, never leaves '
  'stray octets behind, and keeps its own table within the limit.',
  over=['histories', 'configurations'],
  all='All message histories over the alphabets up to the stated depth, for '
  'table sizes from 0 to 8192 octets and both directions.',
  why='The codec is only ever checked against its own decoder, which shares '
  'every misunderstanding; no test limits the decoder or reads the wire.',
  files=['compressor/http2/http2Codec.py', 'compressor/http2/__init__.py',
         'compressor/http2/README.md'],
  mechanism=[('incremental and substitution indexing, eviction',
              'compressor/http2/http2Codec.py')],
  observe=['the compressed octets of every message'],
  technique=TREE + ' with an independent bounded reference decoder in lockstep',
  note='States are the canonical states of the reference decoder. Trusts the '
  'reference decoder (jy/ref_http2.py) as the reading of the format.')

P(id='C03', title='headerdiff codec is lossless over every history',
  statement='For every sequence of header messages compressed by one '
  'headerdiff codec instance and decompressed in order, each decompressed '
  'message carries exactly the original set of (name, value) pairs, up to '
  'field order and cookie-pair order. This holds for both directions, for '
  'messages of up to 255 fields (what the format can count) and for '
  'every documented combination of options (buffer size, delta usage, '
  'deflate or Huffman payload coding and their limits).',
  over=['histories', 'configurations'],
  all='All message histories over the alphabets up to the stated depth, for '
  '19 option combinations and both directions.',
  why='There are no tests of this codec; whether a message survives depends '
  'on which deltas and substitutions earlier messages made possible.',
  files=['compressor/headerdiff/headerDiffCodec.py',
         'compressor/headerdiff/__init__.py',
         'compressor/headerdiff/Huffman.py'],
  mechanism=[('header table, delta coding and indexing modes',
              'compressor/headerdiff/headerDiffCodec.py')],
  observe=['compress() and decompress() of the processor'],
  technique=TREE,
  note='Exhaustive up to the stated depth, alphabet and configurations. Runs '
  'the real code under Jython 2.7.')

P(id='C04', title='headerdiff output decodes with bounded state by its spec',
  statement='A decoder written from the documented headerdiff representation '
  'whose table is limited to the configured buffer size decodes every '
  'message of every history to the original header set. The encoder never '
  'refers to an entry or a value prefix that such a bounded decoder no '
  'longer holds.',
  over=['histories', 'configurations'],
  all='All message histories over the alphabets up to the stated depth, for '
  '19 option combinations and both directions.',
  why='The codec is only checked against its own decoder; encoder and decoder '
  'drift together.',
  files=['compressor/headerdiff/headerDiffCodec.py',
         'compressor/headerdiff/README.md'],
  mechanism=[('table insertion with size limit, delta references',
              'compressor/headerdiff/headerDiffCodec.py')],
  observe=['the compressed octets of every message'],
  technique=TREE + ' with an independent bounded reference decoder in lockstep',
  note='Trusts jy/ref_headerdiff.py as the reading of the format.')

P(id='C05', title='delta2 codec is lossless over every history',
  statement='For every sequence of header messages, addressed to any hosts, '
  'compressed by one delta2 codec instance and decompressed in order, each '
  'decompressed message carries exactly the original set of (name, value) '
  'pairs, up to field order and cookie-pair order. This holds for both '
  'directions and for every documented option: entry and byte limits, index '
  'encodings, header-group adjustment, implicit group addition and '
  'toggle-only operation; and for messages so large that they take several '
  'frames.',
  over=['histories', 'configurations'],
  all='All message histories over the alphabets up to the stated depth, for '
  '21 option combinations and both directions, including tables that are '
  'full and whose numbering wraps.',
  why='Tests cover the bit buffer, the Huffman coder and the storage class in '
  'isolation; nothing exercises the codec, let alone toggles after eviction.',
  files=['compressor/delta2/spdy4_codec_impl.py',
         'compressor/delta2/lrustorage.py', 'compressor/delta2/__init__.py',
         'compressor/delta2/common_utils.py'],
  mechanism=[('toggles, clones and literals', 'compressor/delta2/'
              'spdy4_codec_impl.py'),
             ('entry table with eviction', 'compressor/delta2/lrustorage.py')],
  observe=['compress() and decompress() of the processor'],
  technique=TREE,
  note='Exhaustive up to the stated depth, alphabet and configurations. Runs '
  'the real code under Jython 2.7.')

P(id='C06', title='delta2 output decodes with bounded state by its spec',
  statement='A decoder written from the delta2 wire format that limits its '
  'table to the configured number of entries and bytes decodes every message '
  'of every history to the original header set, with frames whose lengths, '
  'operation counts and Huffman strings are all well formed. The encoder '
  'never refers to an entry that such a bounded decoder has evicted.',
  over=['histories', 'configurations'],
  all='All message histories over the alphabets up to the stated depth, for '
  '21 option combinations and both directions.',
  why='The codec is only checked against its own decoder, which shares table '
  'code with the encoder, so a table that outgrows its limit goes unseen.',
  files=['compressor/delta2/spdy4_codec_impl.py',
         'compressor/delta2/lrustorage.py', 'compressor/delta2/README.md'],
  mechanism=[('eviction by entries and bytes',
              'compressor/delta2/lrustorage.py'),
             ('frame serialisation', 'compressor/delta2/spdy4_codec_impl.py')],
  observe=['the compressed octets of every message'],
  technique=TREE + ' with an independent bounded reference decoder in lockstep',
  note='Trusts jy/ref_delta2.py as the reading of the format; byte limits '
  'are checked as the code accounts them, except for the listed known '
  'finding.')

P(id='C07', title='delta codec (Python) is lossless over every history',
  statement='For every sequence of header messages, addressed to any hosts, '
  'compressed by one delta codec instance and decompressed in order, each '
  'decompressed message carries exactly the original set of (name, value) '
  'pairs, up to field order and cookie-pair order. This holds for both '
  'directions, for every limit on entries and bytes, and for messages that '
  'need any number of operations.',
  over=['histories', 'configurations'],
  all='All message histories over the alphabets up to the stated depth, for '
  '10 limit combinations and both directions.',
  why='Tests cover the bit buffer and the Huffman coder only; the codec state '
  'machine, its eviction and its renumbering are untested.',
  files=['compressor/delta/spdy4_codec_impl.py',
         'compressor/delta/__init__.py', 'compressor/delta/common_utils.py'],
  mechanism=[('storage, header groups and operations',
              'compressor/delta/spdy4_codec_impl.py')],
  observe=['compress() and decompress() of the processor'],
  technique=TREE,
  note='Exhaustive up to the stated depth, alphabet and configurations. Runs '
  'the real code under Jython 2.7.')

OPS = 'exhaustive enumeration of operation sequences on the real classes'

P(id='C08', title='bit buffers are first-in first-out queues of bits',
  statement='In every codec that has a bit buffer (five in Python, two in '
  'C++), for every sequence of stores of any width, reads of any width, '
  'alignments and clears, the bits read are exactly the bits stored, in '
  'order, at whatever bit offset they fall; the buffer reports exactly how '
  'many bits it holds and whether all were consumed; and a read of more bits '
  'than are left is refused, never answered with invented bits or with '
  'memory beyond the buffer.',
  over=['inputs', 'histories'],
  all='All pairs of stores of every width at each of the 8 bit offsets, all '
  'pairs of reads at each offset, and all sequences of 4 or 5 mixed '
  'operations, on all seven implementations.',
  why='The tests try a few dozen widths and positions; every codec relies on '
  'all of them, since Huffman strings end at any bit.',
  files=['compressor/delta/bit_bucket.py', 'compressor/delta2/bit_bucket.py',
         'compressor/bohe/bit_bucket.py', 'compressor/delta_bohe/bit_bucket.py',
         'compressor/delta2_bohe/bit_bucket.py',
         'compressor/delta/bit_bucket.h',
         'compressor/delta_bohe/bit_bucket.h'],
  mechanism=[('StoreBits and GetBits', 'compressor/delta2/bit_bucket.py'),
             ('StoreBits and GetBits', 'compressor/delta/bit_bucket.h')],
  observe=['the values the buffer returns and the counts it reports'],
  technique=OPS + ' against a string of bits (explicit-state model in '
  'lockstep); C++ under the address and undefined-behaviour sanitizers',
  note='Exhaustive within the stated widths, offsets and depth. A state is a '
  'pair of contents and read position of the model.')

P(id='C09', title='Huffman coders are complete, minimal and invertible',
  statement='Every Huffman coder (Python and C++), for the shipped tables and '
  'for any table of frequencies, assigns a complete prefix code whose total '
  'length is the minimum for those frequencies (subject, where documented, '
  'to the 32-bit limit on code words), and decodes every text it encoded, '
  'with and without an end-of-text symbol, at every bit offset and with '
  'whatever bits follow.',
  over=['inputs', 'configurations'],
  all='All symbols at every bit offset, all texts of 2 to 4 symbols over 12, '
  'all frequency tables of 2 to 6 symbols over 5 weights, and families of '
  'skewed 257-symbol tables.',
  why='The tests encode a few strings with one table; ties, zero and skewed '
  'frequencies and code words longer than a machine word are untested.',
  files=['compressor/delta/huffman.py', 'compressor/delta2/huffman.py',
         'compressor/bohe/huffman.py', 'compressor/delta_bohe/huffman.py',
         'compressor/delta2_bohe/huffman.py',
         'compressor/headerdiff/Huffman.py', 'compressor/delta/huffman.h',
         'compressor/delta_bohe/huffman.h'],
  mechanism=[('tree construction and code assignment',
              'compressor/delta2/huffman.py'),
             ('branch tables', 'compressor/delta/huffman.h')],
  observe=['encoded bits and decoded text'],
  technique='bounded exhaustive enumeration of tables and texts on the real '
  'coders against the prefix-code axioms and an independent optimum; C++ '
  'under the address and undefined-behaviour sanitizers',
  note='Exhaustive within the stated bounds.')

P(id='C10', title='delta2 entry storage is a bounded queue with stable numbers',
  statement='For every sequence of reservations, stores, evictions and '
  'look-ups, and for any limits on octets and entries, the entry storage of '
  'delta2 holds exactly the newest entries that fit, in the order stored: it '
  'evicts only the oldest, only as many as needed, reporting each; it never '
  'exceeds a limit (a store that would is refused and changes nothing); a '
  'live number always finds its own entry, also after the numbering wrapped, '
  'and a number not in use finds none; and a search by name and value finds '
  'the newest entry that matches both, else the newest with that name.',
  over=['histories', 'configurations'],
  all='All operation sequences from the empty storage, to the fixed point of '
  'the reachable states where the numbering wraps.',
  why='The tests run one or two scripted sequences with fixed limits; wrapping '
  'together with eviction and refusal is not among them.',
  files=['compressor/delta2/lrustorage.py'],
  mechanism=[('Reserve, Store, PopOne, Lookup, FindKeyValEntries',
              'compressor/delta2/lrustorage.py')],
  observe=['return values, evicted entries, and what every number finds'],
  technique='explicit-state exploration of a queue model to its fixed point, '
  'every transition replayed on the real storage',
  oracle='a list with limits; states are its contents and next number',
  cost='15 s',
  note='States are merged by the state of the model; sequences of 3 (4) '
  'operations are also run unmerged. Entries do not share strings '
  '(refcnt_vals is covered by C05/C06).')

P(id='C11', title='a capture becomes exactly the header messages it recorded',
  statement='For every HAR capture, read_har_file yields one request and one '
  'response message per http or https entry, in order: names in lower case, '
  'repeated fields joined by NUL in order, the request method in lower case, '
  'the path with its query (/ when empty, never the fragment), the scheme, '
  'the host (the Host field if given, else the authority of the URL), the '
  'version, the numeric status, and the status phrase (the standard one when '
  'none was recorded). Entries of other schemes are left out of both lists. '
  'A file that is not a capture is reported by name and ends the run.',
  over=['inputs'],
  all='All URLs, field lists and statuses of a finite grammar.',
  why='There are no tests of the capture reader.',
  files=['lib/harfile.py'],
  mechanism=[('har2hdrs, process_headers', 'lib/harfile.py')],
  observe=['the dictionaries returned'],
  technique='exhaustive enumeration of a grammar of captures on the real '
  'reader, against an independent mapping',
  oracle='the mapping built from the parts the capture was composed of',
  cost='8 s', note='Exhaustive within the grammar.')

P(id='C12', title='streamifiers partition the messages',
  statement='For every list of messages, every streamifier puts each request '
  'into exactly one request stream and its response into the response stream '
  'of the same name, keeping capture order within a stream and listing '
  'streams by first appearance, requests before responses; the streams are '
  'one in all (all_one), one per host regardless of letter case (host), or '
  'one per registrable domain without port (public_suffix). Every message '
  'carries the host it was sent to, and running the same streamifier again '
  'starts afresh.',
  over=['inputs', 'histories'],
  all='All message lists up to the stated length over 9 hosts.',
  why='There are no tests of the streamifiers.',
  files=['lib/streamifiers/all_one.py', 'lib/streamifiers/host.py',
         'lib/streamifiers/public_suffix.py'],
  mechanism=[('streamify', 'lib/streamifiers/public_suffix.py')],
  observe=['the streams returned'],
  technique='exhaustive enumeration of message lists on the real streamifiers '
  'against a grouping model',
  oracle='grouping by a key table written by hand', cost='5 s',
  note='Exhaustive up to the stated length and hosts.')

P(id='C13', title='the comparison reports exactly the lost and added headers',
  statement='compare_headers returns an empty text exactly when both messages '
  'denote the same set of (name, value) pairs, apart from the version, the '
  'status phrase and Connection, and apart from the order of fields, of '
  'repeated values and of cookie pairs; otherwise the text names exactly the '
  'pairs found in only one of the two, under the right heading.',
  over=['inputs'],
  all='All pairs of messages of a small grammar.',
  why='The comparison is what would reveal a lossy codec; nothing tests it.',
  files=['lib/processors.py'],
  mechanism=[('compare_headers, compare_headers_impl', 'lib/processors.py')],
  observe=['the text returned'],
  technique='exhaustive enumeration of pairs of messages on the real function '
  'against a set model', oracle='set differences', cost='3 s',
  note='Exhaustive within the grammar.')

P(id='C14', title='every codec gets every message once and its loss is noticed',
  statement='For every line-up of codecs and every list of sessions, '
  'processing a session gives each codec, as fresh instances made for the '
  'direction of the session, every message once, in order, with its host, '
  'and without its version, status phrase, Keep-Alive, Connection and the '
  'fields that Connection names; what one codec does to its copy reaches no '
  'other; size, ratio to the baseline and time are recorded once per message '
  'and codec. A mismatch is reported for exactly the messages that a codec '
  'did not return intact (with -d the run ends there with status 1; with -v 2 '
  'or more the report says what differs), and a codec that cannot decompress '
  'is warned about once. At the end the codecs in use are told so, even when '
  'one of them fails; parameters reach the codec as given, and verbosity '
  'changes no result.',
  over=['inputs', 'histories', 'configurations'],
  all='All message sequences, codec line-ups, session lists and verbosities '
  'of the stated grammar, with codecs that misbehave at chosen messages.',
  why='There are no tests of the processing loop; a codec that is fed wrong '
  'headers or whose loss goes unnoticed still yields plausible numbers.',
  files=['lib/processors.py', 'compressor/__init__.py'],
  mechanism=[('process_session, process_message, filter_headers, '
              'get_processors', 'lib/processors.py')],
  observe=['calls that recording codecs receive', 'recorded results',
           'the report and the warnings'],
  technique='exhaustive enumeration of line-ups, sessions and codec faults '
  'under a recording environment', oracle='the calls, sizes and mismatches '
  'that the line-up implies', cost='4 s',
  note='Codecs are stand-ins that record; the real ones are run by C16. '
  'Whether a codec that changes its input mismatches is left open.')

P(id='C15', title='sums and tables of results are exact',
  statement='For every sequence of recorded results, the summary of a stream '
  'shows for each codec the total size, total time, ratio of totals to the '
  'baseline, and minimum, maximum and standard deviation of the ratios; '
  'adding streams, in any order, gives a stream of all their messages and '
  'results and changes none of them; and the TSV output has one row per '
  'message, numbered on from the given count, named after its stream, with '
  'the sizes in the order of the header row.',
  over=['inputs', 'histories'],
  all='All result sequences and stream lists up to the stated length.',
  why='There are no tests of the report.',
  files=['lib/stream.py'],
  mechanism=[('print_summary, __add__, print_tsv', 'lib/stream.py')],
  observe=['printed tables and rows'],
  technique='exhaustive enumeration of result sequences on the real class '
  'against independently computed statistics',
  oracle='statistics recomputed from the recorded results', cost='3 s',
  note='Exhaustive within the stated bounds; streams hold at least one '
  'message when summarised.')

P(id='C16', title='the tool reports the true totals for any command line',
  statement='For every set of capture files (also without messages, or the '
  'same file twice) and every combination of codecs '
  '(with parameters), baseline, streamifier, TSV output with prefix and '
  'verbosity, the tool ends normally and prints for requests and for '
  'responses the TOTAL count and, per codec, exactly the sizes and ratios '
  'that result from compressing every stream with a fresh codec; with '
  'verbosity also the table of every stream, in order; and with -t exactly '
  'one row per message in PREFIXreq.tsv and PREFIXres.tsv. The baseline '
  'defaults to http1 and is added to the codecs when not among them.',
  over=['inputs', 'configurations'],
  all='All combinations of the stated captures, line-ups and options.',
  why='There is no test of the tool as a whole; options interact (a baseline '
  'with parameters, a single stream, several files).',
  files=['compare_compressors.py', 'lib/processors.py', 'lib/stream.py',
         'lib/harfile.py'],
  mechanism=[('CompressionTester.run, parse_options',
              'compare_compressors.py')],
  observe=['standard output and the TSV files'],
  technique='exhaustive enumeration of command lines and captures through the '
  'real tool, against an independent pipeline',
  oracle='own grouping and filtering, fresh codec instances per stream, '
  'recomputed statistics', cost='12 s',
  note='Codecs: http1, http1_gzip, http1_huffman, spdy3, hyper_hpack (those '
  'that load under Python 3) and recording stand-ins. Captures hold at least '
  'one http entry.')

P(id='C17', title='http1 writes and reads back HTTP/1 header blocks',
  statement='For every message with a request line or a status, the http1 '
  'codec writes one HTTP/1 header block that an independent reader '
  'understands as exactly that message (one line per repeated value, Host '
  'for the host), and reads its own block back as the same message, version '
  'and status phrase included; earlier messages have no influence.',
  over=['inputs', 'histories'],
  all='All messages of a small grammar and all short histories, both '
  'directions and several field orders.',
  why='http1 is the default baseline of every ratio; nothing tests it.',
  files=['compressor/__init__.py', 'compressor/http1/__init__.py'],
  mechanism=[('format_http1, parse_http1', 'compressor/__init__.py')],
  observe=['the text written and the dictionary read back'],
  technique=TREE + ' with an independent reader of HTTP/1 blocks',
  oracle='hist.parse_text, an independent reader', cost='5 s',
  note='Values without line breaks, without blanks at their ends; paths '
  'without blanks.')

P(id='C18', title='deflate codecs emit streams that inflate message by message',
  statement='For every sequence of messages, what http1_gzip, http1_huffman '
  'and spdy3 (with and without its dictionary) emit can be inflated, in '
  'order and by a decoder that knows only the dictionary, and after each '
  'message yields exactly that message and nothing less: no octet of it is '
  'left behind in the compressor. Where there is a dictionary it is in use '
  'from the first message on; http1_huffman refers to no earlier text at all, '
  'so each of its messages inflates on its own.',
  over=['histories', 'configurations'],
  all='All histories up to the stated depth, both directions, 5 '
  'configurations.',
  why='These codecs cannot decompress, so the tool itself never checks them; '
  'their sizes are what others are compared with.',
  files=['compressor/http1_gzip/__init__.py',
         'compressor/http1_huffman/__init__.py',
         'compressor/spdy3/__init__.py', 'compressor/spdy_dictionary.py'],
  mechanism=[('compress', 'compressor/spdy3/__init__.py')],
  observe=['the octets emitted'],
  technique=TREE + ' with an inflating decoder in lockstep',
  oracle='zlib inflate primed with the dictionary, and independent readers of '
  'HTTP/1 blocks and SPDY/3 pairs', cost='8 s',
  note='ASCII headers. spdy3 leaves the first 12 octets of a block '
  'uncompressed; the check reads them so.')

P(id='C19', title='hyper_hpack is lossless over every history',
  statement='For every sequence of messages, hyper_hpack returns each message '
  'intact as a header dictionary, and an independent HPACK decoder decodes '
  'its output to the same fields.',
  over=['histories'],
  all='All histories up to the stated depth, both directions, 2 field orders.',
  why='There are no tests of this codec.',
  files=['compressor/hyper_hpack/__init__.py'],
  mechanism=[('compress, decompress', 'compressor/hyper_hpack/__init__.py')],
  observe=['the octets emitted and the dictionary returned'],
  technique=TREE + ' with a second decoder in lockstep',
  oracle='a fresh hpack.Decoder', cost='4 s',
  note='The hpack library itself is trusted.')

P(id='C20', title='fork exchanges whole messages with the child process',
  statement='For every sequence of messages and every way in which the child '
  'process splits its answers into writes, the fork codec hands the child '
  'exactly the HTTP/1 block of each message, and returns exactly the octets '
  'of its answer to that message: up to the blank line in text mode, as many '
  'as announced in binary mode. It never hangs, loses or repeats an octet, '
  'and two children never mix.',
  over=['schedules', 'histories', 'inputs'],
  all='All sequences of answers, all two-way splits, several granularities, '
  'all orders of messages over two children.',
  why='Nothing tests it; pipes deliver short reads only under particular '
  'timing.',
  files=['compressor/fork/__init__.py'],
  mechanism=[('compress', 'compressor/fork/__init__.py')],
  observe=['what the child receives and what compress returns'],
  technique='exhaustive enumeration of environment behaviour (answers and '
  'their splits) by a real child process',
  oracle='the answers scripted for the child; each echoes a digest of what '
  'it received', cost='8 s',
  note='The child pauses 1.5 ms between writes, so that the split normally '
  'reaches the codec; the verdict does not depend on it.')

P(id='C21', title='sessions do not influence each other',
  statement='For every codec (all that compressor/ has) and every interleaving '
  'of two sessions in one '
  'process, each session produces octet for octet, and decodes to (where the '
  'codec decompresses), what it '
  'does when run alone; equal sessions give equal output; and compressing '
  'does not change the message handed in, nor depend on it afterwards.',
  over=['schedules', 'histories', 'configurations'],
  all='All interleavings of the compress and decompress calls of two '
  'sessions, for 26 pairs of configurations and all directions.',
  why='State shared between instances (module globals, class attributes, '
  'default arguments) makes sizes depend on what ran before; no test runs '
  'two sessions.',
  files=['compressor/http2/http2Codec.py',
         'compressor/headerdiff/headerDiffCodec.py',
         'compressor/delta/spdy4_codec_impl.py',
         'compressor/delta2/spdy4_codec_impl.py',
         'compressor/simple/__init__.py', 'compressor/bohe/__init__.py',
         'compressor/delta_bohe/spdy4_codec_impl.py',
         'compressor/delta2_bohe/spdy4_codec_impl.py',
         'compressor/http1/__init__.py', 'compressor/http1_gzip/__init__.py',
         'compressor/http1_huffman/__init__.py',
         'compressor/spdy3/__init__.py', 'compressor/hyper_hpack/__init__.py',
         'compressor/fork/__init__.py'],
  mechanism=[('state of a session', 'compressor/delta2/spdy4_codec_impl.py')],
  observe=['outputs of both sessions'],
  technique='exhaustive exploration of all interleavings of two sessions of '
  'the real codecs', oracle='the same session run alone', cost='45 s',
  note='Exhaustive within two (thorough: three) messages per session.')

P(id='C22', title='decoders accept every valid encoding',
  statement='The http2, headerdiff, delta2 and delta decoders decode every sequence of '
  'valid encodings, whichever encoder might have chosen it: every '
  'representation of the wire format (indexed, literal without indexing, '
  'with incremental and with substitution indexing; in headerdiff also '
  'values relative to another entry; in delta2 all eight operations, in '
  'delta all five, repeated or not, in one frame or two) at every table position gives the '
  'headers, and leaves the table, which the format specifies, also where '
  'it evicts entries, the replaced one among them.',
  over=['inputs', 'histories', 'configurations'],
  all='All sequences of operations up to the stated number, over a '
  'repertoire with every representation, and value sizes chosen to evict '
  'none, some or all entries.',
  why='The encoders here never use some of the representations, so that '
  'round trips cannot reach the code which decodes them; the README says '
  'that the codec implements the draft.',
  files=['compressor/http2/http2Codec.py',
         'compressor/headerdiff/headerDiffCodec.py',
         'compressor/delta2/spdy4_codec_impl.py',
         'compressor/delta/spdy4_codec_impl.py'],
  mechanism=[('decode_headers, insert_decoded_header',
              'compressor/http2/http2Codec.py'),
             ('decodeHeaders', 'compressor/headerdiff/headerDiffCodec.py'),
             ('DecompressorExecuteOps',
              'compressor/delta2/spdy4_codec_impl.py')],
  observe=['the dictionaries decoded'],
  technique='explicit-state exploration of the reference decoder by wire '
  'operations, every transition replayed on the real decoder',
  oracle='independent reference decoders written from the format', cost='160 s',
  note='Encodings which the reference rejects (positions outside of the '
  'table, truncated data) are outside of the property.')

P(id='C23', title='encoders use what the receiver holds, as their options say',
  statement='In every message of every history, http2, headerdiff, delta2 and '
  'delta never spell out a field which the receiver\'s table holds at that '
  'point, nor a name which it holds (but :path and referer, which delta '
  'never stores); http2 and delta2 send no more operations than '
  'the message differs from the previous one (of its header group), plus, in '
  'http2, what was lost to evictions in the course. headerdiff gives a value '
  'relative to the entry of that name which shares the longest prefix '
  '(at least two octets) that the delta options admit: none with '
  'delta=false; in bounded mode prefixes that end in one of the given '
  'characters; in limit mode entries that were used fewer times than the '
  'limit. With only_etoggles, delta2 refers to everything explicitly.',
  over=['histories', 'configurations'],
  all='All histories up to the stated depth over the stated alphabets, all '
  'option sets listed.',
  why='Nothing but the reported sizes shows that an encoder stopped to use '
  'its table; the headers still arrive. No test looks at an encoding.',
  files=['compressor/http2/http2Codec.py',
         'compressor/headerdiff/headerDiffCodec.py',
         'compressor/delta2/spdy4_codec_impl.py',
         'compressor/delta2/lrustorage.py',
         'compressor/delta/spdy4_codec_impl.py'],
  mechanism=[('compute_diff, determine_representation',
              'compressor/http2/http2Codec.py'),
             ('determineRepresentation',
              'compressor/headerdiff/headerDiffCodec.py'),
             ('MakeOperations', 'compressor/delta2/spdy4_codec_impl.py')],
  observe=['the octets emitted'],
  technique=TREE + ' with an independent decoder in lockstep that knows what '
  'the receiver holds', oracle='the table of the independent decoder',
  cost='80 s',
  note='In http2 the number of operations is not judged for messages that '
  'repeat a field with the same value.')

P(id='C24', title='delta output decodes with bounded state by its spec',
  statement='A decoder written from the wire format of the Python delta codec, '
  'which keeps no more than max_entries entries and max_byte_size octets of '
  'names and values (or a single larger entry), decodes every message of '
  'every history to the original header set. Frames, lengths and Huffman '
  'strings are well formed; every entry and name that is referred to exists '
  'in such a table, predefined ones included, and is switched at most once; '
  'the entries in use stay in the header group of the message.',
  over=['histories', 'configurations'],
  all='All message histories over the alphabets up to the stated depth, for '
  '10 limit combinations and both directions, and the predefined names.',
  why='The codec is only ever run against its own decoder, which shares its '
  'table code with the encoder: limits that are not enforced, or predefined '
  'entries that are not there, go unseen.',
  files=['compressor/delta/spdy4_codec_impl.py',
         'compressor/delta/__init__.py', 'compressor/delta/common_utils.py',
         'compressor/delta/huffman.py', 'compressor/delta/bit_bucket.py'],
  mechanism=[('Storage: MakeSpace, InsertVal, RemoveVal',
              'compressor/delta/spdy4_codec_impl.py'),
             ('Spdy4SeDer', 'compressor/delta/spdy4_codec_impl.py')],
  observe=['the compressed octets of every message'],
  technique=TREE + ' with an independent bounded reference decoder in lockstep',
  note='Trusts jy/ref_delta.py as the reading of the format, which is '
  'documented by the code and the C++ implementation beside it only.')

P(id='C25', title='C++ header encoder is memory-safe, bounded and decodable',
  statement='For every history of header frames in any header groups, the C++ '
  'SPDY4 header encoder (compressor/delta and compressor/delta_bohe) does not '
  'access memory that it does not own, abort or run into undefined behaviour. '
  'A decoder written from its format that keeps the limits set by '
  'SetMaxStateSize and SetMaxVals decodes every frame to the original '
  'header set. CurrentStateSize() is the octets of the names and values held '
  'by such a decoder; after a frame the table exceeds its limits by no more '
  'than entries which that frame itself uses; no frame spells out a field or '
  'a name that the table holds.',
  over=['histories', 'configurations'],
  all='All frame histories over the alphabets up to the stated depth, for '
  '10 limit combinations, in two header groups, after every listed prelude.',
  why='The tests link the C++ bit buffer and Huffman coder only: the encoder '
  'with its reference-counted table of keys, values and entries, which '
  'are erased while others point to them, has no test at all.',
  files=['compressor/delta/spdy4_headers_codec.cc',
         'compressor/delta/spdy4_headers_codec.h',
         'compressor/delta_bohe/spdy4_headers_codec.cc',
         'compressor/delta_bohe/spdy4_headers_codec.h'],
  mechanism=[('SPDY4HeadersCodec::OutputCompleteHeaderFrame',
              'compressor/delta/spdy4_headers_codec.cc'),
             ('Storage (entries, groups, eviction)',
              'compressor/delta/spdy4_headers_codec.cc')],
  observe=['the octets of every frame', 'CurrentStateSize()',
           'AddressSanitizer and UBSan reports'],
  technique=TREE.replace('Python', 'C++') + ' with an independent bounded '
  'decoder in lockstep, under address and undefined-behaviour sanitizers',
  cost='45 s per copy',
  note='The encoder leaves the length field of a frame at 0 and does not '
  'serialize the header group; the decoder is given both. The Huffman '
  'code is taken from the tree (C09 checks it); the predefined entries are '
  'a list in the check.')

P(id='C26', title='simple codec is lossless with each of its parameters',
  statement='For every history of messages that have what a first line needs '
  '(:method and :path, or :status) and every set of the parameters seven '
  '(ASCII only), huffman, date and max_entries, what the simple codec '
  'decompresses is what it compressed, but for :version and the reason '
  'phrase, which it leaves out. Its messages are as its documentation says: '
  'a first line and field lines, short names for common fields and "!" before '
  'the others, dates as hexadecimal seconds, and a list "ref" of the fields '
  '(the host included) that are the same as in the previous message; no '
  'such field is spelled out unless the list holds max_entries names, and it '
  'never holds more.',
  over=['histories', 'configurations'],
  all='All message histories over the alphabets up to the stated depth, all '
  'combinations of parameters listed.',
  why='The codec has no test; fields that collide with its short names, '
  'values that look like its dates and the references to the previous message '
  'depend on the contents and the history.',
  files=['compressor/simple/__init__.py', 'compressor/simple/seven.py',
         'compressor/__init__.py'],
  mechanism=[('Processor.compress, decompress',
              'compressor/simple/__init__.py'),
             ('encode, decode', 'compressor/simple/seven.py'),
             ('format_http1, parse_http1', 'compressor/__init__.py')],
  observe=['the messages', 'the decompressed headers'],
  technique=TREE + ' with an independent decoder of the documented format in '
  'lockstep', oracle='the original headers; the documented format',
  cost='45 s',
  note='bitarray is not installed here: seven.py runs with a stand-in for the '
  'calls it makes (jy/stubs).')

P(id='C27', title='C++ benchmark reads captures and frames SPDY/3 faithfully',
  statement='The C++ benchmark (spdy4_headers_sample) sees the captures that it '
  'is given: a text of exchanges (request lines, an empty line, response '
  'lines, an empty line that may be missing at the end) is read as exactly '
  'those request and response frames with exactly those names and values '
  '(NULs included), whether from a stream, a file or the output of the '
  'translator, however it is divided into reads; a line without ": " is '
  'reported (0), lists that are not empty are refused (-1). Every SPDY/3 '
  'frame of every history has the right length and inflates, with the SPDY '
  'dictionary and the preceding frames, to the given headers.',
  over=['inputs', 'histories'],
  all='All texts over the line alphabet up to the stated size, all positions '
  'of a malformed line, of a NUL and of the end of a file listed, all '
  'histories of frames up to the stated depth.',
  why='Nothing tests the benchmark; a frame too many, a value cut at a NUL or '
  'a chunk boundary only changes the sizes that it reports.',
  files=['compressor/delta/trivial_http_parse.h',
         'compressor/delta/spdy4_headers_sample.cc',
         'compressor/delta_bohe/trivial_http_parse.h',
         'compressor/delta_bohe/spdy4_headers_sample.cc'],
  mechanism=[('TrivialHTTPParse', 'compressor/delta/trivial_http_parse.h'),
             ('ParseHarFiles, SPDY3Formatter',
              'compressor/delta/spdy4_headers_sample.cc')],
  observe=['the frames that were read', 'the return values',
           'the octets of the SPDY/3 frames'],
  technique='bounded exhaustive enumeration of inputs and histories on the '
  'real C++ code under address and undefined-behaviour sanitizers',
  oracle='the lines the text was composed of; zlib inflate', cost='20 s',
  note='The translator is a stand-in that prints the given files '
  '(harfile_translator.py itself is not covered). Frames have at least one '
  'line.')

P(id='C28', title='raw bohe messages can be read back',
  statement='The message that the raw bohe codec (compressor/bohe) makes of a '
  'header set reads as one record per field and nothing else but less than '
  'an octet of zeros: the number of the name in the table or its length and '
  'octets (names of 1 to 127 octets), the flag of a binary value, the flag '
  'that says whether there are several values (delimited by NUL), the length '
  'in octets and the value. A value without an encoding of its own is '
  'Huffman coded and decodes to itself, whatever its octets. One with an '
  'encoding of its own says what the field says: dates in GMT since 1990 to '
  'the second (otherwise delta-seconds, or 0), :status, content-length and '
  'age as their numbers, the seven methods by number, accept lists by '
  'descending quality without those of quality 0, tags by count and MD5 '
  'digest, a cookie\'s name and value (decoded if in hexadecimal or base64), '
  'set-cookie with path, domain and age or expiry, cache-control with the '
  'ages of its direction and, in responses, the names of private= and '
  'no-cache=, p3p with policy and tokens; messages do not depend on earlier '
  'ones.',
  over=['inputs', 'histories'],
  all='All values of the tables for the 20 fields, all pairs of fields, all '
  'lengths of names, all octets, both directions, as bounded.',
  why='There is no decompressor and no test: the codec could not even be '
  'constructed; a wrong bit only changes a size in a report.',
  files=['compressor/bohe/__init__.py', 'compressor/bohe/bohe.py',
         'compressor/bohe/bit_bucket.py', 'compressor/bohe/huffman.py'],
  mechanism=[('records', 'compressor/bohe/__init__.py'),
             ('value encodings', 'compressor/bohe/bohe.py')],
  observe=['the compressed octets of every message'],
  technique='exhaustive enumeration of bounded messages and short histories '
  'on the real codec, decoded by an independent reader of the format',
  oracle='an independent reader (jy/c28.py) and what each value says',
  cost='45 s',
  note='Values that the encodings do not provide for (numbers that are not '
  'numbers, names of over 127 octets, sets of cookies) are not claimed. The '
  'code words are read off the real Huffman coder, which C09 decides.')

P(id='C29', title='sample external codec answers each message and ends',
  statement='The external codec that the documentation points to '
  '(sample_exec_codec.py, run with -c fork=sample_exec_codec.py) answers '
  'every message of every history, before the next one is sent, with exactly '
  'its lines (each may end in LF instead of CRLF) and an empty line. When its '
  'input ends, wherever in a message that is, it ends too, having answered '
  'every whole message once, in order, and having written nothing else but '
  'at most the lines of the message that was cut short. It also ends when '
  'nobody reads its answers any more.',
  over=['histories', 'fault_sequences'],
  all='All message histories up to the stated depth, the end of the input at '
  'every octet of a message, the end of the reader after every listed number '
  'of answers.',
  why='No test runs it; that it writes for ever once its input has ended '
  'only shows outside of the tool (a process that stays, a full disk).',
  files=['sample_exec_codec.py', 'compressor/fork/__init__.py'],
  mechanism=[('answers', 'sample_exec_codec.py'),
             ('lines to and from the process', 'compressor/fork/__init__.py')],
  observe=['the octets it writes and whether it ends'],
  technique='exhaustive enumeration of bounded message histories and of every '
  'point where the input or the reader can end, on the real process',
  oracle='the lines of the messages sent; the end of the process within 20 s',
  cost='6 s',
  note='')

P(id='C30', title='TSV page draws what the tool wrote',
  statement='For all files req.tsv and res.tsv that the tool writes (one or '
  'more codecs and messages), display_tsv.html draws one chart for each, with '
  'its title, and in it for every codec one line of its own colour (up to ten '
  'codecs) with one point for every message, in order, all on one even scale: '
  'across by the number of the message, upwards by the size, all within the '
  'chart, as the axes say. Each line ends at a label with its codec\'s name '
  'and colour; the name of every stream stands where its first message is, '
  'once per run of messages, in order.',
  over=['inputs'],
  all='All tables of sizes and all divisions into streams within the bounds, '
  'all numbers of codecs from 1 to 10.',
  why='The page is never run by a test, and looks right for the file that one '
  'has at hand; with a single codec it drew nothing at all.',
  files=['display_tsv.html', 'lib/stream.py'],
  mechanism=[('the charts', 'display_tsv.html'),
             ('the rows', 'lib/stream.py')],
  observe=['the elements that the page adds to the document'],
  technique='exhaustive enumeration of bounded TSV files, written by the real '
  'Stream and drawn by the real script of the page',
  oracle='the sizes recorded (py3/p30.py)',
  cost='5 s',
  note='The script of the page runs in node with a stand-in (py3/page.js) for '
  'the parts of d3 version 3 that such a page uses, since d3 is fetched from '
  'the network; how a browser renders the elements is not examined.')
