"""property id -> check"""
import cli
import rsflow
import ts
import wire

EDITS = 'two schemas of 70..80 characters in which any window of 0..2 (thorough 0..3) characters at any position is replaced by 0..2 arbitrary bytes'
SHAPES = 'schemas of two declarations with up to one member each (thorough: two nested levels), structs and enums of up to 3 (4) members, references into and out of nested groups, every primitive with every mark; all names are symbolic one-character names'

CHECKS = {
    'P01': lambda r: wire.check(r, r'rt_\w+', [wire.SHAPES, 'byte arrays and strings of 127, 128, 255, 256, 257, 300, 65535 and 65536 bytes with symbolic bytes at the ends and around multiples of 256', 'string arrays up to 304 elements, struct arrays up to 257 elements']),
    'P02': lambda r: wire.check(r, r'(tot|leaf|field|body|hostile)_\w+', ['every byte string of up to 12 (thorough 17) bytes as a struct, 4..8 as an enum', 'one field with any rank, any declared length and up to 2..3 (6) following bytes, for every field of 7 structs', 'one well-framed field with any body up to 9 (17) bytes, 3..6 bytes for text', 'packages with a fully symbolic header and up to 5 body bytes']),
    'P03': lambda r: wire.check(r, r'(lay|read)_\w+', [wire.SHAPES, 'byte arrays and strings up to 65536 bytes', 'length ranks 8/16/32/64 for integer and string fields']),
    'P04': lambda r: wire.check(r, r'(ord|unk|mis)_\w+', ['all permutations of the fields of structs with up to 4 fields, all rotations and reversals for structs with 6..12 fields', 'one unknown field of any id, any of the four ranks and up to 3 bytes at every position', 'each single field missing']),
    'P05': lambda r: wire.check(r, r'(pack|thr|head)_\w+', ['every message type of verif.prot, any sequence; raw packages with any id, signature, sequence and bodies up to 5 bytes, plus 244..65536 bytes', 'header bytes fully symbolic']),
    'P06': lambda r: wire.check(r, r'str_\w+', ['streams of 1..4 packages, every pair (one or four packages) or every single (two and three packages) split point, and byte by byte; contents and sequences symbolic']),
    'P07': lambda r: wire.check(r, r'bad_\w+', ['one malformed package (foreign signature, unknown id, foreign/truncated body, unknown enum option) between two good ones, split at every position; ids, signatures and bodies symbolic']),
    'P08': lambda r: ts.check(r, r'rt_\w+', [wire.SHAPES, 'a second schema with 240 fields before the messages, so that ids exceed 255', 'byte arrays and strings of 11 lengths up to 65536 bytes, string arrays up to 304 elements, struct arrays up to 257 elements', 'input given as ArrayBuffer, Uint8Array or a part of a Buffer; messages made from plain objects']),
    'P09': lambda r: ts.check(r, r'(lay|read|ord|unk|mis)_\w+', [wire.SHAPES, 'a second schema with 240 fields before the messages, so that ids exceed 255', 'every rank of a length; all orders of up to 4 fields, all rotations and reversals of larger structs; one unknown field of any id anywhere; each field missing', 'the layout is the documented one that P03 and P05 establish for the Rust code']),
    'P10': lambda r: ts.check(r, r'(tot|field|body|bad|hostile)_\w+', ['every byte string of up to 12 (thorough 17) bytes as a struct, up to 8 (10) as an enum', 'one field with any rank, any declared length and up to 2..3 (6) following bytes', 'one well-framed field with any body up to 9 (17) bytes', 'one malformed package of 7 kinds with symbolic ids, signatures and bodies between two good ones, the input split anywhere', 'termination: no path needs more than 5e6 operations']),
    'P11': lambda r: ts.check(r, r'(str|thr)_\w+', ['streams of 1..4 packages, every pair (one or four packages) or every single (two and three; thorough: every pair) split point, and byte by byte; contents and sequences symbolic; pieces as Buffer, ArrayBuffer or Uint8Array', 'every message type of verif.prot at three split points; two readers at once; packing middleware']),
    'P12': lambda r: cli.check(r, r'p12_\w+', [EDITS, SHAPES, 'two service messages added as the workflow does']),
    'P13': lambda r: cli.check(r, r'p13_\w+', [EDITS, SHAPES, 'up to 2 white space characters between any two tokens']),
    'P14': lambda r: cli.check(r, r'p14_\w+', [EDITS, 'every text of up to 5 (thorough 6) bytes', 'every prefix of two schemas followed by up to 3 (4) arbitrary bytes']),
    'P15': lambda r: cli.check(r, r'p15_\w+', [EDITS, SHAPES, 'schemas with missing tokens']),
    'P16': lambda r: cli.check(r, r'p16_\w+', ['pairs of schemas of 76 characters that differ in any window of 1 (thorough 2) characters, inserted, removed or replaced, with arbitrary bytes', 'schemas of 14 sizes from 0 to 10000 bytes around the sizes of the read buffers, one arbitrary byte changed at 9 positions, or extended by 1..1024 bytes', 'the generated Rust and TypeScript protocols, producers and consumers of one schema and workflow with symbolic names']),
    'P17': lambda r: cli.check(r, r'p17_\w+', ['outputs -rs, -ts and -d, each present or not, with arbitrary short contents or a long rest; overwrite option absent or in any spelling, before or after the outputs; a valid and an invalid schema', 'the projects generated for a workflow with a request of two outcomes, a broadcast, an event, a beacon and the default events: each single file the author fills in (and all of them) with arbitrary contents, with and without the overwrite option']),
    'P18': lambda r: cli.check(r, r'p18_\w+', ['a fixed schema with nested groups; workflows of one to three declarations in which any one reference is a path of 1..3 arbitrary names, or every reference is an arbitrary name', 'every presence and order of the settings (one possibly twice); requests of up to 2 (thorough 3) outcomes with up to 2 broadcasts, with missing or misplaced marks; sequences of up to 3 (4) of nine declarations', 'white space and comments (also with text that is not ASCII) between any two tokens', 'two workflows of 120 characters with any window of 0..1 characters replaced by 0..1 arbitrary bytes, or cut at any place']),
    'P19': lambda r: cli.check(r, r'p19_\w+', ['two workflows of 120 characters with any window of 0..1 (thorough 0..2) characters replaced by 0..1 (2) arbitrary bytes', 'every prefix followed by up to 1 (2) arbitrary bytes', 'every text of up to 3 (4) bytes', 'two to four byte characters of UTF-8 at any place, in and out of comments', 'termination: no path needs more than 4e8 instructions']),
    'P20': lambda r: ts.flow(r, r'gate_\w+', ['up to 3 (thorough 4) messages of 10 kinds, up to 4 (6) of the kinds of the handshake, each with symbolic content and sequence, as separate chunks, as one chunk, or three messages cut into two chunks anywhere', 'hashes of 0, 1, 63, 64 and 65 arbitrary ASCII characters', 'two clients with 4 (5) messages; all 5 strategies of the assigned key']),
    'P21': lambda r: ts.flow(r, r'(req|evt)_\w+', ['up to 3 (thorough 4) requests of two clients whose handlers finish in any order, with an answer, an error or a rejection; contents and sequences symbolic', 'chunks of three messages, cut anywhere', 'all 4 error strategies, failing transports, every set of given broadcasts, five sets of receivers']),
    'P22': lambda r: ts.flow(r, r'con_\w+', ['up to 4 (thorough 6) events of three clients', 'two packages of two clients, each cut anywhere, in four orders', 'every subset of three clients for the filters']),
    'P23': lambda r: ts.flow(r, r'(ans|bro)_\w+', ['up to 2 (thorough 3) requests at once, answered in any order by any of their answers, with broadcasts and foreign sequences in between; contents symbolic', 'every cut of the answer and its neighbours into two chunks', 'up to 3 (4) broadcasts; one unreadable message between good ones, every cut']),
    'P24': lambda r: ts.flow(r, r'hs_\w+', ['six kinds of answers to each step of the handshake', 'a disconnection at each step, with a rest of 0..26 bytes of a package', 'a transport that fails at each step']),
    'P25': lambda r: ts.flow(r, r'key_\w+', ['up to 2 (thorough 3) keys given by the client, 3 keys set by the server, each replacing or merging; ids symbolic, each optional field absent or one of two values']),
    'P26': lambda r: ts.flow(r, r'tot_\w+', ['up to 5 (thorough 7) arbitrary bytes in up to two chunks; one package with an arbitrary head and up to 2 (4) arbitrary bytes; a known message with up to 4 (6) arbitrary bytes; before, during and after the handshake', 'two messages of 7 kinds with failing handlers, sending, disconnecting or error handling', 'two (consumer: three) events of the transport of any kind']),
    'P27': lambda r: ts.flow(r, r'e2e_\w+', ['two consumers: 4 (thorough 6) pieces of 1, 20 or all bytes of any stream, then the rest', 'three requests of three kinds, handlers finishing in any order', 'three consumers and any set of receivers']),
    'P28': lambda r: rsflow.check(r, r'gate_\w+', ['up to 3 (thorough 4) messages of 10 kinds, each with symbolic content and sequence, as separate chunks or as one chunk; a handshake and a request cut into two chunks anywhere', 'hashes of 0, 1, 63, 64 and 65 arbitrary ASCII characters', 'two clients with 3 (4) messages; all strategies of the assigned key']),
    'P29': lambda r: rsflow.check(r, r'(req|evt)_\w+', ['one message of each kind, every way of answering it with every set of given broadcasts and six sets of receivers; three clients; contents and sequences symbolic', 'up to 2 (thorough 3) messages of two clients', 'an unreadable message before, between or after good ones', 'server events, also while messages are handled; messages sent past the handlers with failing transports']),
    'P30': lambda r: rsflow.check(r, r'con_\w+', ['up to 3 (thorough 4) events of three clients', 'two packages of two clients, cut at 11 (thorough: all) places', 'connections whose handler or transport fails, data of unknown clients']),
    'P31': lambda r: rsflow.check(r, r'key_\w+', ['up to 2 keys given by the client, 1 (thorough 2) set by the server from each handler, each replacing or merging; ids symbolic, each optional field absent or present']),
    'P32': lambda r: rsflow.check(r, r'life_\w+', ['up to 27 (thorough 29) arbitrary bytes in one chunk: less than a head, an arbitrary head, an arbitrary head with 1 (3) bytes', 'handlers which refuse and transports which fail at each step of the handshake, of a request and of an event']),
    'P33': lambda r: rsflow.check(r, r'down_\w+', ['a demand while the producer is idle or a handler is at work, with or without waiting for it', 'a message and an event before or after the demand', 'three ways in which the transport ends, with a shutdown handler that fails']),
    'P34': lambda r: rsflow.check(r, r'chs_\w+', ['a full handshake with broadcasts of any sequence before each step', 'every other message in the place of each step', 'uuids of 0, 1 and 36 arbitrary characters; up to 2 attempts']),
    'P35': lambda r: rsflow.check(r, r'creq_\w+', ['two requests or beacons at once, answered in any order by any of their answers, with broadcasts in between; contents symbolic', 'up to 2 (thorough 3) broadcasts in one or several chunks']),
    'P36': lambda r: rsflow.check(r, r'(clife|cdown)_\w*', ['up to 27 (thorough 29) arbitrary bytes', 'an unreadable message between good ones, cut at 7 (thorough: all) places', 'a request answered before, at or after its time limit, dropped by its caller, answered afterwards', 'three events of the transport of any kind; a disconnection with a rest of a package, then a second handshake; failing transports', 'shutdown at 3 moments']),
    'P37': lambda r: rsflow.check(r, r'e2e_\w+', ['each request and beacon with each answer, the streams delivered whole or cut; contents symbolic', 'server events and broadcasts to two consumers', 'a consumer that comes back']),
}

TS = 'bounded symbolic execution of the generated TypeScript (instrumented on every run), every branch decided by Z3'
RSF = 'bounded symbolic execution of the compiled generated producer and consumer (LLVM bitcode), every branch decided by Z3'
TECH = {**{'P%02d' % i: RSF for i in range(28, 38)}, **{'P%02d' % i: TS for i in [8, 9, 10, 11] + list(range(20, 28))}, '': 'bounded symbolic execution of the compiled code (LLVM bitcode), every branch decided by Z3'}
NOTE = {'': 'All values of the symbolic inputs within the stated shapes and lengths; paths are explored to their end, counterexamples and sampled paths are replayed against the natively compiled code. Nothing is claimed beyond the bounds listed in the evidence.'}
NOT_APPLICABLE = {}
HOOKS = None
