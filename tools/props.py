"""The properties: one place from which properties.jsonl and MANIFEST.json are written (tools/mk.py)."""

COMMON = ('Assumes the compiler builds the MIR it dumps, that the dumper and the abstract interpreter in /verif/sa are '
          'correct (its models of standard library functions over-approximate them), and that the reader or writer '
          'given by the caller keeps its own contract.')

PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, tech=None, note=None, state=(), observe=(), level='proof'):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      tech=tech, note=note, state=state, observe=observe, level=level))


def N(id, reason):
    NA.append(dict(property=id, reason=reason))


P('C04', 'Call depth does not grow with the input',
  'Scanning, parsing, loading, emitting, and dropping, cloning or comparing any value of the library use a bounded '
  'number of nested calls: no input, however deeply nested, can exhaust the call stack.',
  ['inputs', 'histories'], 'every input and every sequence of calls of the public functions',
  'A test nests as deep as its author chose and passes as long as its own stack suffices; the bound is about the absence '
  'of any recursion reachable from the public functions.',
  ['src/parser.rs', 'src/scanner.rs', 'src/emitter.rs', 'src/document.rs', 'src/reader.rs'],
  [('explicit stacks of states, marks, indents and loader contexts instead of recursive descent', 'src/parser.rs'),
   ('node indices instead of owned child nodes', 'src/document.rs')],
  'call-graph strongly connected components and type-graph cycles over the monomorphised MIR',
  'Decides the absence of recursion for every function reachable from the public functions. Dumping a document is '
  'recursive (a known finding).')

P('C06', 'The emitter accepts well-formed event streams and writes what they stand for',
  'Up to the first error, the emitter accepts an event exactly where the grammar of event streams allows one (stream, '
  'documents, balanced collections whose mappings alternate keys and values) and refuses it otherwise. For each event it '
  'writes the indicators, anchor, tag and scalar that its position calls for, in order and separated by white space '
  'where YAML needs it: "[ ] { } , ? : -", "---", "...", "%YAML", "%TAG". Block collections are indented more than what '
  'they are in and never inside flow collections; a non-empty collection is never a key without "?"; the end of a '
  'collection restores the indentation and the flow level before it; explicit document ends and directives after open '
  'documents get "..."; tag directives hold for one document; all output is handed to the writer at the end of every '
  'document and of the stream.',
  ['inputs', 'histories'], 'every sequence of events up to the first error, every configuration of the emitter',
  'A test emits a handful of documents; the emitter has 18 states, ten kinds of event, and what it writes depends on '
  'half a dozen flags, so few combinations are ever seen.',
  ['src/emitter.rs'],
  [('the state machine of emit() and the functions it dispatches to', 'src/emitter.rs'),
   ('write_indicator and write_indent decide what separates two tokens', 'src/emitter.rs')],
  'abstract interpretation of emit() for one event from every state, the text written kept as a ghost value, compared '
  'with tables of the documented grammar',
  'Decides acceptance, the indicators written and their separation, stacks, indentation, flow level and flushing for '
  'all 180 pairs of state and event kind. What is written for the characters of a scalar, a tag or an anchor is not '
  'looked into here.')

P('C05', 'The parser accepts the documented grammar and reports well-nested events',
  'From any stream of tokens the parser produces exactly the event sequence the documented grammar assigns to it: the '
  'same tokens are accepted and rejected in each position, each step reports the documented kind of event, collections '
  'and documents open and close in matching order, every key has a value. After the first error, of the parser or of '
  'its input, it only ever reports the end of the stream.',
  ['inputs', 'fault_sequences'], 'every sequence of tokens, with a failed read possible before every token',
  'The tests parse some hundred documents; the pairs of parser state and next tokens they meet are a fraction of the '
  'table, and errors in the middle of a document are hardly reached at all.',
  ['src/parser.rs'],
  [('state machine with a stack of return states', 'src/parser.rs, Parser::state_machine'),
   ('grammar in the comments', 'src/parser.rs')],
  'abstract interpretation of the parser into a pushdown transition table, bisimulated with the documented grammar',
  'Every parser state is analysed with an unknown stack and unknown tokens; the table is compared with an independent '
  'transcription of the grammar, which is itself shown to nest properly.',
  state=[('state', 'current parser state', 'ParserInner::state'), ('states', 'return states', 'ParserInner::states')],
  observe=['Parser::parse'])

P('C07', 'reset() makes an object as good as new',
  'Resetting a scanner, parser or emitter, whatever it has been used for and however that ended, leaves it '
  'indistinguishable from a newly constructed one.',
  ['histories', 'fault_sequences'], 'every history of calls before the reset, including failed ones',
  'The tests never reset an object; a field left over only shows in a history that makes it matter.',
  ['src/scanner.rs', 'src/parser.rs', 'src/emitter.rs'],
  [('field-by-field reset that keeps allocations', 'src/scanner.rs, Scanner::reset; src/parser.rs, Parser::reset'),
   ('assignment of a new value', 'src/emitter.rs, Emitter::reset')],
  'abstract interpretation of the constructor and of reset() on an unknown object, compared field by field',
  'The fields are enumerated from the types; reset() is analysed on an object about which nothing is assumed.',
  observe=['Scanner::reset', 'Parser::reset', 'Emitter::reset'])

P('C14', 'Events carry exactly what their tokens carry',
  'The content of every event is what the tokens it is made from carry: the text and the style of a scalar, the names of '
  'anchors and aliases, the encoding of the stream, block or flow style, and whether a document marker was present or '
  'implied. Nothing is lost, invented or taken from another token; a missing anchor or tag stays missing, and a missing '
  'node becomes an empty plain scalar that may be implicit.',
  ['inputs'], 'every sequence of tokens in every parser state',
  'Tests compare whole documents for a few inputs; each combination of node properties and node kind in each parser state '
  'is a separate transfer.',
  ['src/parser.rs', 'src/token.rs', 'src/event.rs'],
  [('token data moved into the event', 'src/parser.rs, Parser::parse_node and its siblings')],
  'abstract interpretation with symbolic token payloads; provenance of every event field',
  'Token payloads are symbols, so equality of an event field with a payload is for all values. The text of resolved tags '
  'is not part of this property, only whether there is one.',
  observe=['Parser::parse'])

P('C15', 'Results depend on nothing but the input and the configuration',
  'The outcome of every operation is a function of the data read, the calls made and the answers of the reader and writer '
  'supplied by the caller: it depends on no global or thread-local state, clock, environment, hash order, memory address or '
  'buffer capacity, and separate objects cannot influence each other.',
  ['inputs', 'schedules', 'histories'], 'every call of every public function, in every process state',
  'A test that runs twice and compares sees one machine and one process; absence of hidden inputs is not observable by runs.',
  ['src/lib.rs', 'src/scanner.rs', 'src/parser.rs', 'src/emitter.rs', 'src/document.rs', 'src/reader.rs', 'src/error.rs'],
  [('all state is owned by the objects', 'src/scanner.rs, src/parser.rs, src/emitter.rs')],
  'effect analysis over the call graph: forbidden callees, statics, interior mutability, address-to-integer conversions',
  'Every call site reachable from the public functions is classified.')

P('C16', 'Unsafe code cannot be misused: bytes become text only after validation',
  'The library causes no undefined behaviour through its own code: unsafe operations occur only as unchecked conversion of '
  'bytes to text, and only on a prefix of bytes that was validated as UTF-8 up to that length just before.',
  ['inputs', 'fault_sequences'], 'every input, however it is split into reads',
  'Undefined behaviour need not show in a test run, and the unsafe path is only taken by input that is invalid or split in '
  'the middle of a character.',
  ['src/reader.rs', 'src/lib.rs'],
  [('the only unsafe block', 'src/reader.rs, read_utf8_buffered'), ('deny(unsafe_code)', 'src/lib.rs')],
  'enumeration of unsafe operations in the typed program; dataflow from validation to unchecked conversion',
  'Every body of the crate is searched for unsafe calls, raw dereferences and reinterpretations.')

P('C18', 'Positions of events and syntax errors are those of their tokens',
  'Every event starts at or after the start, and ends at or before the end, of tokens it is made from, and does not end '
  'before it starts; an event implied by the absence of a token is empty, and no event other than the start of a '
  'collection covers a token that belongs to a later event. A syntax error is reported with a description and at the '
  'start of a token the parser looked at.',
  ['inputs'], 'every sequence of tokens in every parser state',
  'The tests do not look at positions at all.',
  ['src/parser.rs'],
  [('marks copied from tokens', 'src/parser.rs'), ('empty scalars at the position of the next token', 'src/parser.rs')],
  'abstract interpretation with symbolic token positions; provenance and order of every event position',
  'Relates positions of events to positions of tokens; the positions of the tokens themselves are not covered.',
  observe=['Parser::parse', 'Error::problem_mark'])

P('C01', 'No input makes the reader, the scanner or the parser panic',
  'Whatever bytes a reader delivers, in whatever pieces, and wherever it fails, is interrupted or ends: scanning tokens and '
  'parsing events reports an error or goes on, and never panics, indexes out of bounds, overflows or hits an unreachable '
  'branch; a caller may go on asking after an error.',
  ['inputs', 'fault_sequences', 'histories'], 'every input of fewer than 2^31 characters, every way of delivering it',
  'The tests feed a few hundred documents; a panic needs one particular character in one particular state of the scanner, '
  'typically at the very end of the input or of a read.',
  ['src/reader.rs', 'src/scanner.rs', 'src/parser.rs', 'src/macros.rs'],
  [('look-ahead requested before it is inspected', 'src/scanner.rs, Scanner::cache and its callers'),
   ('invariants between token queue, key stack and indentation stack', 'src/scanner.rs'),
   ('explicit state stack', 'src/parser.rs')],
  'abstract interpretation of every step from every state its invariant allows; infeasibility of each panicking construct',
  'The invariant is shown to hold initially and after every operation; two abstractions of the scanner are combined.',
  state=[('tokens', 'queue of tokens', 'Scanner::tokens'), ('simple_keys', 'possible keys, one per flow level', 'Scanner::simple_keys'),
         ('indents', 'open indentation levels', 'Scanner::indents')],
  observe=['Scanner::next', 'Parser::parse'])

P('C02', 'How the input is delivered makes no difference',
  'The tokens and events produced from an input are the same however a BufRead splits it into pieces, however often it is '
  'interrupted, and wherever a character is cut in two. The bytes taken from the reader are exactly those of the '
  'characters produced; an interrupted read is retried, any other failure is reported and not read past; the end of the '
  'input is assumed only when the reader says so; well-formed input is never rejected as malformed.',
  ['inputs', 'fault_sequences', 'schedules'], 'every input, every way of splitting it into reads, every interruption or failure',
  'The tests read from slices, which deliver everything at once; a cut in the middle of a character, an interrupted read or '
  'a decision on the amount of buffered data needs a particular reader.',
  ['src/reader.rs', 'src/scanner.rs'],
  [('incomplete characters re-read unbuffered', 'src/reader.rs'), ('requested look-ahead', 'src/scanner.rs, Scanner::cache')],
  'abstract interpretation of the reader over an arbitrary byte stream with ghost accounting; look-ahead discipline of the scanner',
  'For malformed input only the fact of an error is covered: how many tokens precede it depends on the reader.',
  observe=['Scanner::next', 'Parser::parse'])

P('C10', 'Exactly the characters YAML allows are accepted from the input',
  'A character read from the input is accepted if and only if it is tab, line feed, carriage return, U+0020 to U+007E, '
  'U+0085, U+00A0 to U+D7FF, U+E000 to U+FFFD or U+10000 to U+10FFFF, in every encoding and on every path of the decoder.',
  ['inputs'], 'every character in every encoding, buffered or not',
  'The set has over a million members and four decoding paths.',
  ['src/reader.rs'],
  [('the check before a character is stored', 'src/reader.rs, push_char')],
  'interval analysis of the characters stored and of the characters rejected on every path of the reader',
  'Sets are computed exactly as unions of ranges; invalid UTF-8 or UTF-16 is not a character.')

P('C19', 'The encoding is recognised and its byte order respected',
  'Unless an encoding was set, the input is UTF-16 little endian if it begins with FF FE, UTF-16 big endian if it begins '
  'with FE FF, otherwise UTF-8; a byte order mark, EF BB BF included, is dropped completely and nothing else is. Every '
  '16-bit unit is read in the byte order of the encoding, and every decoded character is stored unchanged and in order.',
  ['inputs', 'fault_sequences'], 'every beginning of the input, every way of delivering it',
  'The tests contain hardly any UTF-16 and no input that starts like a byte order mark without being one.',
  ['src/reader.rs'],
  [('byte order mark detection', 'src/reader.rs, yaml_parser_determine_encoding'), ('16-bit units', 'src/reader.rs, read_utf16_buffered')],
  'abstract interpretation of the reader with provenance of every byte',
  'The detection table is computed from the code as sets of first bytes. Decoding within UTF-8 and of surrogate pairs is '
  'done by the standard library.')

P('C09', 'A scalar is written only in a style that can hold its characters',
  'The plain style is used only for text that reads back as the same plain scalar: not for text with a leading or '
  'trailing space or line break, a line break at all, a leading indicator, "---" or "..." at the start, ": " (or any of '
  '", ? : [ ] { }" in a flow collection), " #", or characters that are not printable, or not ASCII unless that is '
  'allowed; nor for empty text in a flow collection or as a key on one line. Single quotes are not used for text with '
  'spaces next to line breaks or such characters; block styles not for those with spaces before line breaks, trailing '
  'spaces or such characters, nor in flow collections or keys. Text of several lines as a key on one line, and '
  'everything in the canonical form, is double-quoted; keys on one line are never folded.',
  ['inputs', 'configurations'], 'every scalar text, style asked for, flags, context and configuration',
  'The conditions combine in hundreds of ways with the context and the style asked for; a wrong one shows only for texts '
  'with a particular feature in a particular place.',
  ['src/emitter.rs', 'src/macros.rs'],
  [('the analysis of a scalar collects flags while looping over its characters', 'src/emitter.rs'),
   ('the style is chosen from the flags, the context and the style asked for', 'src/emitter.rs')],
  'abstract interpretation of the analysis in product with an automaton over the text (one per feature); abstract '
  'interpretation of the choice for all combinations of flags and contexts',
  'Decides, for texts of any length, that each feature listed clears the flags of the styles that cannot hold it, and '
  'that the writer chosen is one the flags and the context allow. That what a style writes can be read back is not '
  'decided here.')

P('C11', 'A failure is reported, not swallowed',
  'When a step of the scanner, the parser, the loader, the dumper or the emitter fails, or the reader or writer given by '
  'the caller does, the public function that was called returns an error: no failure is dropped, turned into a value or '
  'into an early end of the input on its way up. (Only an interrupted read is tried again.)',
  ['inputs', 'fault_sequences'], 'every fallible call in the crate and every path on which it fails',
  'Tests hardly ever make a reader or writer fail, and there is one failing path for each of several hundred calls.',
  ['src/scanner.rs', 'src/parser.rs', 'src/reader.rs', 'src/emitter.rs', 'src/document.rs'],
  [('Result is passed up from every fallible call', 'src/lib.rs'),
   ('conversion of I/O errors', 'src/error.rs')],
  'path-sensitive dataflow of failed results over the control-flow graph of every caller',
  'Follows the failure from each of the fallible calls to the return of the calling function, through copies, '
  'conversions, aggregates and tests of the result. What a failure says is the business of C18 and C10.')

P('C13', 'A loaded or dumped document leaves nothing behind for the next one',
  'Whenever a public operation on a document returns - whether loading or dumping succeeded, found the end of the stream '
  'or failed half-way - the parser holds no anchors of that document and the emitter none of its anchor bookkeeping, so '
  'that the next document of the stream starts afresh: the same anchor can be defined again, an alias cannot reach into '
  'another document, generated anchors start over. The %TAG directives of a document are forgotten by the parser when it '
  'reports the end of the document.',
  ['histories', 'inputs'], 'every history of loading and dumping on one parser or emitter, failures included',
  'Left-over state shows only with the second document, and after particular failures of the first.',
  ['src/document.rs', 'src/parser.rs', 'src/emitter.rs'],
  [('Document::load and its helpers fill the aliases of the parser', 'src/document.rs'),
   ('Document::dump and its helpers fill the anchors of the emitter', 'src/document.rs'),
   ('parse_document_end', 'src/parser.rs')],
  'interprocedural typestate analysis (empty / in use) of the fields only document operations use, over all paths to '
  'returns',
  'Decides, for all paths of all public functions, that the fields are empty again at every return if they were at the '
  'call; panics are not returns (see C01).')

P('C21', 'Loading a document builds the tree its events describe',
  'Document::load turns the events of one document into a tree: every scalar, sequence and mapping event becomes exactly '
  'one node, with the value, style, tag and positions of the event (a missing tag, or the tag "!", becomes the default tag '
  'of its kind); the node is appended to the sequence it is in, or becomes the next key, or the value of the last key, of '
  'the mapping it is in; an alias stands for the node with that anchor and adds no node; the end event closes the innermost '
  'collection and gives it its end position. The document has the version, tag directives, implicit flags and positions of '
  'its start and end events. At the end of the stream the document has no nodes. A second node with the same anchor and an '
  'alias without an anchor are refused with an error that says where; errors of the parser are returned as they are; no '
  'document is returned before its end event.',
  ['inputs'], 'every event in every situation of a document being built, whatever its size, depth and number of anchors',
  'A wrong index or a lost key shows only for particular nestings, anchors and tags.',
  ['src/document.rs'],
  [('Document::load, load_document, load_nodes', 'src/document.rs'),
   ('load_node_add, register_anchor, load_alias', 'src/document.rs')],
  'abstract interpretation of Document::load for one event, from a summarised document of any size, with the parser '
  'replaced by unknown events of each kind; the resulting tree is compared with the tree the event describes',
  'Decides the step from every situation (kind of event x collection around it x tag x anchor) for trees of any size; '
  'together with C05 (well-nested events) the steps add up to the tree. When the table of anchors is searched by index '
  'rather than by iterator, tables of up to four anchors only.')

P('C22', 'Settings of the emitter are kept within their limits and used',
  'A setting is stored as it was given, and nothing else is changed by it: an indentation outside 2 to 9 counts as 2, a '
  'negative width as no limit. When a stream begins, the encoding is the one that was set, else the one of the event, else '
  'UTF-8; a width of at most two levels of indentation becomes 80, a negative one unlimited; the line break defaults to '
  'LF; and the output starts with a byte order mark exactly if it is not UTF-8.',
  ['inputs'], 'every value of every setting, and every combination of the encoding set and the encoding of the event',
  'Tests use the default settings and one or two others; the limits are at single values.',
  ['src/emitter.rs'],
  [('set_indent, set_width, set_break, set_unicode, set_canonical, set_encoding', 'src/emitter.rs'),
   ('what the first event of a stream does', 'src/emitter.rs')],
  'abstract interpretation of the setters and of the first event for symbolic settings, range by range',
  'That later events use the settings is decided by C06, C08 and C09.')

P('C25', 'Dumping a document reports the events its tree describes',
  'Document::dump reports to the emitter the start of the document with its version, tag directives and implicit flag, the '
  'events of its first node, and the end with its implicit flag; a document without nodes adds no document to the stream. '
  'A scalar node is one scalar event and a sequence or mapping node a start event, the events of its nodes in order (key '
  'before value), and an end event, with the value, style and tag of the node, the implicit flags set exactly if the tag is '
  'the default one of its kind. A node that occurs more than once gets an anchor of its own where it occurs first and is an '
  'alias of that anchor wherever it occurs again; a node that occurs once gets none. The first error of the emitter is '
  'returned at once and nothing is reported after it.',
  ['inputs'], 'every node in every situation of a document being dumped, whatever its size, depth and sharing',
  'A lost child or a wrong anchor shows only for particular shapes of the tree and particular sharing.',
  ['src/document.rs', 'src/emitter.rs'],
  [('Document::dump and its helpers', 'src/document.rs'), ('anchor_node, dump_node', 'src/document.rs')],
  'abstract interpretation of one step of the two recursions over the nodes (counting references, reporting), with the '
  'emitter and the recursive calls replaced by recorders; the recording is compared with what the node describes',
  'Induction over the tree: each step is decided for any bookkeeping of the other nodes and any number of children (the '
  'order among children for up to three of them, and that each is visited exactly once for any number).')

P('C08', 'What is written for a scalar or a tag reads back as that scalar or tag',
  'For every text, the characters that are written for it in the style chosen for it stand for that text and nothing '
  'else, by the rules of YAML for that style: nothing is lost, added or reordered; in double quotes every character that '
  'cannot stand for itself is escaped, with the digits of its own code point; in single quotes quotes are doubled; line '
  'folding (in plain, quoted and folded scalars) is done only where a reader undoes it; block scalars carry the '
  'indentation and chomping indicators that their first line and their end call for, and their lines are indented. The '
  'handle of a tag is written as it is, and every character of the rest that a tag cannot hold is written as the '
  'percent-escaped bytes of its UTF-8 encoding.',
  ['inputs'], 'every text, width, indentation, line break setting and the unicode setting, and every style fit for the text',
  'A round trip in a test shows one text in one style at one width; where lines are folded depends on the column and on '
  'the characters on both sides, and escapes on the code point.',
  ['src/emitter.rs'],
  [('the functions that write plain, quoted, literal and folded scalars, block scalar hints and tags', 'src/emitter.rs')],
  'abstract interpretation of the writing functions, the text followed character by character and the output run through '
  'a decoder written from the rules of the language',
  'Takes the style to be fit for the text (C09 decides that it is). What a decoder gives back is compared with the text '
  'character by character; digits of escapes are followed symbolically. A form of code that the analysis cannot follow '
  'is reported as undecided in the evidence.')

P('C17', 'All output reaches the writer once, in order, in the chosen encoding',
  'Text put into the emitter\'s output buffer only ever grows at its end until it is flushed. Flushing hands the whole '
  'buffer to the writer exactly once, by write_all: as it is for UTF-8, and for UTF-16 as the two bytes of every code '
  'unit, in the order the encoding calls for. After that nothing of it is left to be written again; when the write '
  'fails, the failure is reported and nothing more is written.',
  ['inputs', 'fault_sequences'], 'every text in the buffer, every encoding, a write that may fail',
  'Tests write a few ASCII documents in UTF-8 to a Vec, which never fails or fills the buffer.',
  ['src/emitter.rs'],
  [('flush() and the buffer it empties', 'src/emitter.rs'), ('the functions that append to the buffer', 'src/emitter.rs')],
  'abstract interpretation of the flushing function with symbolic code units; dataflow of every mutable borrow of the '
  'buffer',
  'Decides flushing for each of the three encodings and a buffer of any length. That every event gets flushed at the end '
  'of its document is part of C06.')

P('C03', 'A stream that is written reads back as the same events',
  'Whatever events are accepted by the emitter, reading its output gives the same events again, up to styles, implicit '
  'markers and resolved tags.',
  ['inputs'], 'every sequence of events the emitter accepts, every setting',
  'Tests write and read back a few documents.',
  ['src/emitter.rs', 'src/parser.rs', 'src/scanner.rs'],
  [('emitter and parser', 'src/lib.rs')])
N('C03', 'Equality of the results of two interpreters over whole streams, through indentation and look-ahead of unbounded '
  'depth: beyond the local rules (C05, C06, C08, C09 decide the parts that are local) no sound static argument is in reach.')

P('C12', 'The work done is proportional to the length of the input',
  'Reading or writing a stream takes time proportional to its length, except for the nesting of pending keys.',
  ['inputs'], 'every input',
  'Tests are short; what is quadratic shows on long inputs only.',
  ['src/scanner.rs', 'src/parser.rs', 'src/emitter.rs'],
  [('loops over pending keys, tokens and the look-ahead buffer', 'src/scanner.rs')])
N('C12', 'Needs amortised bounds relating loop counts over queues, pending keys and buffers to the bytes consumed so far; '
  'the domains used here bound no running time.')
