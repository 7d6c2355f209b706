#!/usr/bin/env python3
"""writes properties.jsonl (one place to edit the wording)"""
import json, os
P = []
R = 'cli/src/protocol/render/rust/'
T = 'cli/src/protocol/render/typescript/'
W = 'cli/src/workflow/'


def p(id, title, statement, over, quant, why, files, mech, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': quant}, 'why_tests_cant': why, 'anchors': a})


p('P01', 'Rust: decoding an encoded message gives back the same message',
  'For every message type a schema can describe, encoding any value with the generated Rust code and decoding the bytes yields an equal value, whatever the field contents, array lengths, present or absent optionals and enum variants. Encoding never fails for a value built from valid field values.',
  ['inputs', 'programs'], 'every value of every supported field kind (12 primitives, arrays, optionals, optional arrays, structs, enums, groups)',
  'The repository round-trips one fixed value per type; a codec bug that needs a particular length, bit pattern or variant is not sampled.',
  [R + 'static/protocol.encode.rs', R + 'static/protocol.decode.rs', R + 'static/protocol.storage.rs', R + 'mod.rs'],
  [('field encoders', R + 'static/protocol.encode.rs'), ('field decoders', R + 'static/protocol.decode.rs'), ('record table', R + 'static/protocol.storage.rs'), ('rendering of struct and enum codecs', R + 'mod.rs')])
p('P02', 'Rust: hostile bytes never crash or exhaust the decoder',
  'Given any byte string, the generated Rust decoders return a value or an error: they do not panic, loop forever, read outside the input or allocate memory out of proportion to the input. The same holds for a package whose header declares any length.',
  ['inputs', 'fault_sequences'], 'every byte string as a struct, enum, field body or package',
  'The tests only decode bytes produced by the encoder.',
  [R + 'static/protocol.decode.rs', R + 'static/protocol.storage.rs', R + 'static/protocol.packing.rs', R + 'static/protocol.buffer.rs', R + 'mod.rs'],
  [('record parsing', R + 'static/protocol.storage.rs'), ('length checks of fields', R + 'static/protocol.decode.rs'), ('header and body extraction', R + 'static/protocol.packing.rs')])
p('P03', 'Rust: messages have exactly the documented byte layout',
  'The encoded form of every value is the sequence of its fields, each as 16-bit field id, length rank, length and body, all little-endian, with the documented bodies for strings, arrays, nested values and enum options; bytes in that layout are read back as that value. Two builds made from the same schema can therefore talk to each other.',
  ['inputs', 'programs'], 'every value of every supported field kind against an independent encoder',
  'Writer and reader tests share one implementation, so a symmetric change of the format passes them.',
  [R + 'static/protocol.encode.rs', R + 'static/protocol.decode.rs', R + 'static/protocol.sizes.mod.rs', 'cli/src/protocol/store.rs'],
  [('record framing', R + 'static/protocol.encode.rs'), ('id assignment', 'cli/src/protocol/store.rs')])
p('P04', 'Rust: field order and unknown fields do not change a decoded message',
  'Fields may arrive in any order, and fields the receiver does not know are skipped, without changing the decoded value. A message that lacks one of its fields is rejected instead of being completed with a default.',
  ['inputs', 'histories'], 'every permutation, every unknown field id and body, every missing field',
  'The encoder always writes fields in declaration order and never writes unknown ones.',
  [R + 'static/protocol.storage.rs', R + 'static/protocol.decode.rs', R + 'mod.rs'],
  [('field lookup by id', R + 'static/protocol.storage.rs')])
p('P05', 'Rust: packages carry id, sequence and length that identify the message',
  'Packing any message with any sequence number produces a 26-byte header with the message id, signature, sequence, time and body length, followed by the encoded message; reading that package yields the same message type, value and sequence. Completeness of a package is decided exactly by the declared length.',
  ['inputs'], 'every message type, content and sequence; every header',
  'Tests use a few sequences and message types; mix-ups that need a certain id, length or sequence are not sampled.',
  [R + 'static/protocol.packing.rs', R + 'static/protocol.buffer.rs', R + 'mod.rs'],
  [('header write and read', R + 'static/protocol.packing.rs'), ('dispatch by message id', R + 'mod.rs')])
p('P06', 'Rust: stream reassembly does not depend on how bytes are chunked',
  'However a stream of packages is cut into pieces, the reader delivers exactly the sent messages, once each, in order, each as soon as its last byte has arrived, and keeps only the bytes of the incomplete package.',
  ['inputs', 'schedules', 'histories'], 'every split of streams of packages with any contents',
  'Tests feed whole packages; splits inside headers or bodies and several packages in one piece are schedules they do not produce.',
  [R + 'static/protocol.buffer.rs', R + 'static/protocol.packing.rs'],
  [('chunk and next', R + 'static/protocol.buffer.rs')])
p('P07', 'Rust: a malformed package is reported once and costs no other message',
  'A complete package with a foreign signature, an unknown message id or an undecodable body is reported as an error exactly once and dropped; messages before and after it in the stream are still delivered.',
  ['inputs', 'schedules', 'fault_sequences'], 'every malformed package between good ones, at every split point',
  'Tests contain no malformed packages.',
  [R + 'static/protocol.buffer.rs', R + 'static/protocol.packing.rs', R + 'mod.rs'],
  [('error paths of the reader', R + 'static/protocol.buffer.rs')])
p('P08', 'TypeScript: decoding an encoded message gives back the same message',
  'For every message type a schema can describe, encoding any valid value with the generated TypeScript code and decoding the bytes yields an equal value.',
  ['inputs', 'programs'], 'every value of every supported field kind',
  'The TypeScript tests are not run in the pinned baseline, and they round-trip one value per type.',
  [T + 'mod.rs', T + 'static/protocol.convertor.ts', T + 'static/protocol.convertor.storage.ts'],
  [('field codecs', T + 'static'), ('rendering of struct and enum codecs', T + 'mod.rs')])
p('P09', 'Rust and TypeScript produce and accept the same bytes',
  'For the same schema and value, the TypeScript code writes the documented layout that the Rust code writes, and reads every encoding in that layout as the same value.',
  ['inputs', 'programs'], 'every value of every supported field kind, both directions',
  'Cross-language tests exchange files of a handful of fixed values and need both tool chains.',
  [T + 'mod.rs', R + 'mod.rs', T + 'static/protocol.convertor.ts', R + 'static/protocol.encode.rs'],
  [('record framing', T + 'static/protocol.convertor.ts')])
p('P10', 'TypeScript: hostile bytes never hang or derail the decoder',
  'Given any byte string, the generated TypeScript decoders and the stream reader return a value or an error in bounded time; a malformed package is skipped without losing its neighbours.',
  ['inputs', 'fault_sequences'], 'every byte string as a message, field body or stream piece',
  'The tests only decode bytes produced by the encoder.',
  [T + 'static/protocol.buffer.ts', T + 'static/protocol.convertor.storage.ts', T + 'static/protocol.convertor.ts'],
  [('stream reader', T + 'static/protocol.buffer.ts')])
p('P11', 'TypeScript: stream reassembly does not depend on how bytes are chunked',
  'However a stream of packages is cut into pieces, the TypeScript reader delivers exactly the sent messages, once each, in order, with their sequence numbers.',
  ['inputs', 'schedules'], 'every split of streams of packages with any contents',
  'The tests feed whole packages.',
  [T + 'static/protocol.buffer.ts', T + 'static/protocol.packing.ts'],
  [('stream reader', T + 'static/protocol.buffer.ts')])
p('P12', 'Every message type and field of a schema has its own id',
  'For every accepted schema, all message types and fields get distinct ids, the same ones in every generation and in both languages, so that no package can be taken for a message of another type.',
  ['inputs', 'programs'], 'every schema: any mix of structs, enums and (nested) groups',
  'Tests use a few fixed schemas; collisions depend on the arrangement of declarations.',
  ['cli/src/protocol/store.rs', 'cli/src/protocol/parser.rs', 'cli/src/protocol/structs.rs', 'cli/src/protocol/enums.rs', 'cli/src/protocol/groups.rs'],
  [('id allocation', 'cli/src/protocol/store.rs')])
p('P13', 'The schema parser reads exactly what is written',
  'For every schema text in the grammar, the parsed model contains exactly the declared groups, structs, enums and fields with their names, types, optional and array marks in declaration order, and the amount of white space does not change it.',
  ['inputs', 'programs'], 'every schema text: names, kinds, marks and spacing',
  'Tests parse a few fixed files.',
  ['cli/src/protocol/parser.rs', 'cli/src/protocol/fields.rs', 'cli/src/protocol/structs.rs', 'cli/src/protocol/enums.rs', 'cli/src/protocol/groups.rs'],
  [('tokenizer and state machine', 'cli/src/protocol/parser.rs')])
p('P14', 'The schema parser ends with a model or an error on every text',
  'For every input text, valid or not, parsing a schema terminates with a model or an error message and never panics.',
  ['inputs'], 'every text', 'Tests contain only well-formed schemas.',
  ['cli/src/protocol/parser.rs', 'cli/src/protocol/store.rs'],
  [('tokenizer and state machine', 'cli/src/protocol/parser.rs')])
p('P15', 'Ill-formed schemas are rejected',
  'A schema that refers to an undefined type, repeats a name in one scope, or breaks the grammar is rejected with an error, and no code is generated from it.',
  ['inputs', 'programs'], 'every schema with one such defect', 'Tests have no rejected schemas except for workflow references.',
  ['cli/src/protocol/parser.rs', 'cli/src/protocol/store.rs'],
  [('reference resolution', 'cli/src/protocol/store.rs')])
p('P16', 'Client and server of different schemas recognise the mismatch',
  'The protocol fingerprint exchanged in the handshake is the same for the same schema and differs for schemas that differ in any name, type, mark, or order that affects the wire format.',
  ['programs', 'inputs'], 'pairs of schemas that differ in one place', 'Tests compare one schema with itself.',
  ['cli/src/helpers/hash.rs', 'cli/src/protocol/store.rs'],
  [('fingerprint', 'cli/src/helpers/hash.rs')])
p('P17', 'Existing files are never overwritten without permission',
  'Without the overwrite option the generator leaves an existing output file untouched and reports an error; with it, exactly the named output file is replaced. User-editable handlers that exist are kept when a project is regenerated.',
  ['configurations', 'histories'], 'every combination of options and pre-existing files', 'Tests always generate into a prepared tree.',
  ['cli/src/helpers/fs.rs', 'cli/src/protocol/render/mod.rs', 'cli/src/arguments/mod.rs'],
  [('overwrite guard', 'cli/src/helpers/fs.rs')])
p('P18', 'Workflows may only use messages that exist',
  'A workflow that names a request, response, error, broadcast, event or beacon message missing from the schema, or lacks a required setting, is rejected with an error naming it; a workflow whose references all exist is accepted with exactly the declared requests, actions, broadcasts, events and beacons. Duplicate, conflicting and unfinished declarations are rejected.',
  ['inputs', 'programs'], 'every workflow text over a schema: names, order and spacing', 'Tests cover a dozen fixed faulty workflows.',
  [W + 'parser.rs', W + 'store.rs', W + 'config.rs', W + 'request.rs', W + 'event.rs', W + 'beacon.rs'],
  [('reference check', W + 'store.rs')])
p('P19', 'The workflow parser ends with a model or an error on every text',
  'For every input text, valid or not, parsing a workflow terminates with a model or an error message and never panics or loops forever.',
  ['inputs'], 'every text', 'Tests contain a few fixed texts.',
  [W + 'parser.rs'], [('tokenizer', W + 'parser.rs')])
TP, TC = W + 'render/producer/typescript/', W + 'render/consumer/typescript/'
p('P20', 'TypeScript producer: nothing but the handshake works before the handshake',
  'A generated TypeScript producer acts on requests and beacons of a connection only after that connection gave its key and was confirmed to have the same protocol and workflow hashes, and, if the options demand it, was given the assigned key. Everything else before that reaches no handler, is reported as an error of its kind, and the client is told or dropped; the handshake of one client opens nothing for another.',
  ['histories', 'schedules', 'inputs'], 'every sequence of messages on a connection, in any chunks, for every strategy of the options', 'The existing tests never run a TypeScript producer; cooperative clients always shake hands first.',
  [TP + 'render_mod.rs', TP + 'render_identification.rs'], [('gating in the message loop', TP + 'render_mod.rs'), ('assigned key', TP + 'render_identification.rs'), ('accepted hash', TP + 'static/implementation/consumer/index.ts')])
p('P21', 'TypeScript producer: a request is answered once, to its sender',
  'Each request or beacon of an accepted client runs its handler once with its content; the answer the handler gives (or the confirmation of a beacon) goes to that client only, once, with the sequence of the request, whatever order the handlers finish in and whatever shares its chunk. Broadcasts of an answer or of a server event reach exactly the chosen clients, once, with sequence 0; an answer or event that lacks a required broadcast, or a handler that fails, sends nothing and is treated by the chosen strategy.',
  ['histories', 'schedules', 'inputs'], 'every sequence of requests from several clients, every order in which handlers finish, every transport failure', 'The existing tests never run a TypeScript producer.',
  [TP + 'render_request_handler.rs', TP + 'render_mod.rs'], [('requests', TP + 'render_request_handler.rs'), ('beacons', TP + 'render_beacon_impl.rs'), ('events', TP + 'render_event_impl.rs'), ('message loop', TP + 'render_mod.rs')])
p('P22', 'TypeScript producer: connections and filters are exact',
  'A client is known from its connection to its disconnection: the connected and disconnected handlers run once for each, contradictory events of the transport (a second connection, an unknown disconnection, data of an unknown client) are reported as such, and filters select exactly the connected clients. After a disconnection nothing of the client remains: no partial package, no key and no handshake; pieces of the packages of different clients never mix.',
  ['histories', 'schedules'], 'every sequence of connections, data and disconnections of several clients', 'The existing tests never run a TypeScript producer.',
  [TP + 'render_mod.rs', TP + 'static/implementation/consumer/index.ts'], [('consumer table', TP + 'render_mod.rs'), ('filter', TP + 'static/implementation/consumer/filter.ts')])
p('P23', 'TypeScript consumer: every response resolves the request it answers',
  'A request of a generated TypeScript consumer is sent once with a fresh sequence and settles once: with the answer that carries its sequence and calls the handler of that answer, or with an error if the answer has another kind, the request could not be sent, was destroyed or lost its connection. Messages that answer nothing are delivered once, in order, to the listeners of their broadcast, and to nobody else.',
  ['histories', 'schedules', 'inputs'], 'every interleaving of requests, responses, broadcasts and chunks', 'The existing tests never run a TypeScript consumer.',
  [TC + 'render_consumer.rs', TC + 'render_request.rs', TC + 'render_beacon.rs'], [('pending table', TC + 'render_consumer.rs'), ('request', TC + 'render_request.rs'), ('beacon', TC + 'render_beacon.rs')])
p('P24', 'TypeScript consumer: ready only after a confirmed handshake',
  'A generated TypeScript consumer starts the handshake with its key when it is connected, sends its hashes after the key is confirmed, and reports itself ready, with the uuid it was given, exactly when the hashes are accepted. A disconnection resets the uuid and the partial data, and the next connection starts the handshake anew.',
  ['histories', 'schedules'], 'every sequence of connection events and messages', 'The existing tests never run a TypeScript consumer.',
  [TC + 'render_consumer.rs'], [('connection state', TC + 'render_consumer.rs')])
p('P25', 'TypeScript producer: keys are kept and merged per client',
  'What a TypeScript producer tells handlers about a client is what that client gave: its last self key; keys set by the server replace the former ones or are merged with them field by field, as asked. A key of one client is never visible as the key of another.',
  ['histories', 'inputs'], 'every sequence of keys, given and assigned', 'The existing tests never run a TypeScript producer.',
  [TP + 'render_identification.rs'], [('keys', TP + 'render_identification.rs')])
p('P26', 'TypeScript producer and consumer survive whatever the other end sends',
  'No bytes, messages, transport events, failing handlers or failing transports make a generated TypeScript producer or consumer throw or leave a rejected promise unhandled. Whatever one client sends, the other clients are neither dropped nor sent anything for it, and are served afterwards.',
  ['inputs', 'histories'], 'every traffic and every failure of handlers and transport', 'The existing tests never run them, and never with hostile traffic.',
  [TP + 'render_mod.rs', TC + 'render_consumer.rs'], [('producer', TP + 'render_mod.rs'), ('consumer', TC + 'render_consumer.rs')])
p('P27', 'TypeScript producer and consumer understand each other',
  'A TypeScript consumer and producer generated from one protocol and workflow complete the handshake, and every request, beacon and broadcast one end sends arrives at the right handler or listener of the right peer with its content, however the streams are cut and whichever stream is delivered first.',
  ['histories', 'schedules', 'inputs'], 'every cut and order of delivery of the streams of several consumers', 'The existing tests never run both ends.',
  [TP + 'render_mod.rs', TC + 'render_consumer.rs'], [('producer', TP + 'render_mod.rs'), ('consumer', TC + 'render_consumer.rs')])

RP, RC = W + 'render/producer/rust/', W + 'render/consumer/rust/'
p('P28', 'Rust producer: nothing but the handshake works before the handshake',
  'A generated Rust producer acts on requests and beacons of a connection only after that connection gave its key and was confirmed to have the same protocol and workflow hashes, and, if the options demand it, was given the assigned key. Everything else before that reaches no handler and the client is dropped once; what follows in the same chunk is ignored, and the handshake of one client opens nothing for another.',
  ['histories', 'schedules', 'inputs'], 'every sequence of messages on a connection, in any chunks, for every strategy of the options', 'The existing tests never run a generated producer; cooperative clients always shake hands first.',
  [RP + 'render_mod.rs', RP + 'static/implementation/consumer/mod.rs'], [('gating in the message loop', RP + 'render_mod.rs'), ('keys and accepted hash', RP + 'render_identification.rs')])
p('P29', 'Rust producer: a request is answered once, to its sender',
  'Each request or beacon of an accepted client runs its handler once with its content; the answer the handler gives (or the confirmation of a beacon) goes to that client only, once, with the sequence of the request, whatever else shares its chunk. Broadcasts of an answer or of a server event reach exactly the chosen clients, once, with sequence 0, and a handler that fails sends nothing of its own to the wrong client.',
  ['histories', 'schedules', 'inputs'], 'every sequence of requests, beacons and server events of several clients', 'The existing tests never run a generated producer.',
  [RP + 'render_request_handler.rs', RP + 'render_mod.rs', RP + 'render_event_impl.rs'], [('requests', RP + 'render_request_handler.rs'), ('events', RP + 'render_event_impl.rs'), ('message loop', RP + 'render_mod.rs')])
p('P30', 'Rust producer: connections and filters are exact',
  'A client is known from its connection to its disconnection: the connected and disconnected handlers run once for each, data of an unknown client is reported and ignored, and filters select exactly the connected clients. After a disconnection nothing of the client remains: no partial package, no key and no handshake; pieces of the packages of different clients never mix.',
  ['histories', 'schedules'], 'every sequence of connections, data and disconnections of several clients', 'The existing tests never run a generated producer.',
  [RP + 'render_mod.rs'], [('consumer table and filter', RP + 'render_mod.rs')])
p('P31', 'Rust producer: keys are kept and merged per client',
  'What a Rust producer tells handlers about a client is what that client gave: its last self key; keys set by the server replace the former ones or are merged with them field by field, as asked. A key of one client is never visible as the key of another.',
  ['histories', 'inputs'], 'every sequence of keys, given and assigned', 'The existing tests never run a generated producer.',
  [RP + 'render_identification.rs'], [('keys', RP + 'render_identification.rs')])
p('P32', 'Rust producer survives whatever clients and their transport do',
  'No bytes, messages, refusing handlers or failing transport of one client make a generated Rust producer panic or stop. Whatever one client sends, the other clients are neither dropped nor sent anything for it, and are served afterwards.',
  ['inputs', 'histories'], 'every traffic and every failure of handlers and transport', 'The existing tests never run a generated producer, and never with hostile traffic.',
  [RP + 'render_mod.rs'], [('message loop', RP + 'render_mod.rs')])
p('P33', 'Rust producer shuts down when asked, once, and completely',
  'When it is asked to shut down, or its transport ends, a generated Rust producer runs its shutdown handlers once, closes the transport and its run ends; nothing is handled afterwards.',
  ['schedules', 'histories'], 'every moment of the demand and every order of the events around it', 'The existing tests never run a generated producer.',
  [RP + 'render_mod.rs'], [('shutdown', RP + 'render_mod.rs')])
p('P34', 'Rust consumer: connected only after a confirmed handshake',
  'A generated Rust consumer starts the handshake with its key when it is connected, sends its hashes after the key is confirmed, and reports itself connected, with the uuid it was given, exactly when its hashes are accepted. Messages that belong to something else, whatever their sequence, are not taken for a step of the handshake.',
  ['histories', 'schedules'], 'every sequence of messages of the other end during the handshake', 'The existing tests never run a generated consumer.',
  [RC + 'render_implementation.rs'], [('handshake', RC + 'render_implementation.rs')])
p('P35', 'Rust consumer: every response resolves the request it answers',
  'A request of a generated Rust consumer is sent once with a fresh sequence and settles once: with the answer that carries its sequence, or with an error if the answer has another kind. Messages that answer nothing are delivered once, in order, to the handler of their broadcast, and to nobody else.',
  ['histories', 'schedules', 'inputs'], 'every interleaving of requests, responses, broadcasts and chunks', 'The existing tests never run a generated consumer.',
  [RC + 'render_implementation.rs', RC + 'render_api.rs', RC + 'render_request.rs'], [('pending table', RC + 'render_implementation.rs'), ('requests', RC + 'render_request.rs')])
p('P36', 'Rust consumer survives bad traffic, late answers and lost connections',
  'Whatever arrives, a generated Rust consumer does not panic, reports what it cannot read and reads on; a request without an answer, or given up by its caller, ends with an error at its time and leaves the others alone. After a disconnection the consumer shakes hands again with nothing left of the partial data, or ends, as its options say, and a shutdown ends it.',
  ['inputs', 'histories', 'schedules'], 'every traffic, every order of answers and time limits, every disconnection', 'The existing tests never run a generated consumer.',
  [RC + 'render_implementation.rs'], [('event loop', RC + 'render_implementation.rs')])
p('P37', 'Rust producer and consumer understand each other',
  'A Rust consumer and producer generated from one protocol and workflow complete the handshake, and every request, beacon and broadcast one end sends arrives at the right handler of the right peer with its content, also after the consumer was disconnected and came back.',
  ['histories', 'schedules', 'inputs'], 'every content, order and cut of the traffic', 'The existing tests never run both ends.',
  [RP + 'render_mod.rs', RC + 'render_implementation.rs'], [('producer', RP + 'render_mod.rs'), ('consumer', RC + 'render_implementation.rs')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
for x in P:
    assert len(x['title']) <= 80, (x['id'], len(x['title']))
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
