"""TypeScript wire library: the generated code, instrumented and executed symbolically."""
import json, os, re
import vlib

ASSUME = [
    'Buffer, ArrayBuffer, Uint8Array, DataView, TextEncoder/TextDecoder, Map, Set, Number, BigInt and Date are models of the builtins of Node 22 (every sampled path is replayed on the real ones)',
    'texts are well-formed Unicode; the text of symbolic values inside error messages is not modelled',
    'numbers are exact integers up to 2^78, so lengths above 2^53 are not rounded as JavaScript would; floats are their bit patterns (NaN excluded)',
    'the generated code is transpiled by TypeScript 5.9 without type checking; the clock is a fixed value',
]
HARNESS = vlib.VERIF + '/harness/ts'


def build(d, modules, harness, **extra):
    """modules: [name, source file, tag]; compiles them for the symbolic engine and for the native replay"""
    for f in ('load.js', 'native.js'):
        vlib.put(os.path.join(d, f), open(vlib.VERIF + '/engine-ts/' + f).read())
    os.chmod(d + '/native.js', 0o755)
    cfg = {'modules': [[n, re.sub(r'\W', '_', n) + '.js', s, t] for n, s, t in modules], 'harness': harness}
    cfg.update(extra)
    vlib.put(d + '/cfg.json', json.dumps(cfg))
    vlib.sh(['node', vlib.VERIF + '/engine-ts/compile.js', d])
    return d


def prepare():
    d = vlib.workdir('ts-wire')
    with vlib.lock('ts-wire'):
        far = open(HARNESS + '/far.prot').read()
        verif = open(vlib.VERIF + '/harness/wire/verif.prot').read()
        vlib.generate(['--src', vlib.VERIF + '/harness/wire/verif.prot', '-ts', 'verif.ts', '-o', '--em'], d, ['verif.ts'])
        vlib.generate(['--src', HARNESS + '/far.prot', '-ts', 'far.ts', '-o', '--em'], d, ['far.ts'])
        vlib.put(d + '/schema.ts', 'export const verif = %s;\nexport const far = %s;\n' % (json.dumps(verif), json.dumps(far)))
        return build(d, [['protocol', d + '/verif.ts', 'protocol'], ['protocol-far', d + '/far.ts', 'protocol'], ['schema', d + '/schema.ts', None], ['model', HARNESS + '/model.js', None], ['wire', HARNESS + '/wire.js', None]], 'wire')


REACH = {'tot_': [1, 2], 'field_': [1, 2], 'body_': [1, 2], 'hostile_': [1, 2, 3]}


def entries(file, pattern, reach=REACH):
    src = open(os.path.join(HARNESS, file)).read()
    return [{'name': n, 'reach': next((v for k, v in reach.items() if n.startswith(k)), [1])} for n in re.findall(r'\bE\.(\w+) = ', src) if re.fullmatch(pattern, n)]


def check(run, pattern, bounds):
    d = prepare()
    run.assumptions += ASSUME
    run.bounds += bounds
    run.ts(d, entries('wire.js', pattern))
    return run.finish()


# ---------------------------------------------------------------- the producer and the consumer of a workflow
FLOW_ASSUME = ASSUME + [
    'the clibri library (transports, Subject, Logger, Options) is not in the repository: harness/ts/flow/clibri.js stands for it, by the interfaces the generated code uses',
    'promises: the model of engine-ts/promise.js runs one queue of jobs in the order of ECMAScript; it runs dry between two events of the transport, except where an entry delays an answer on purpose',
]


def user(name):
    """what stands in the place of a file the user of the generated code writes"""
    kind, n = name.split('/')[1:]
    if kind == 'responses':
        return "exports.response = (m, s) => require('users').U.call(%s, m, s);\n" % json.dumps(n)
    if kind == 'beacons':
        return "exports.emit = (m, s) => require('users').U.call(%s, m, s);\n" % json.dumps(n)
    return "exports.emit = (...a) => require('users').U.event(%s, ...a);\n" % json.dumps(n)


def prepare_flow():
    d = vlib.workdir('ts-flow')
    with vlib.lock('ts-flow'):
        f = HARNESS + '/flow'
        for s, t in (('p', 'package.json'), ('c', 'package.json')):
            for q in (s, s + '/src'):
                os.makedirs(os.path.join(d, q), exist_ok=True)
            vlib.put(os.path.join(d, s, t), '{}')
        vlib.generate(['-s', f + '/p.prot', '-wf', f + '/ts.workflow', '-cd', d + '/c/src', '-pd', d + '/p/src'], d, ['p/src/implementation/index.ts', 'c/src/index.ts'])
        mods = []
        for side in 'pc':
            top = os.path.join(d, side, 'src')
            for root, _, files in os.walk(top):
                for x in sorted(files):
                    p = os.path.join(root, x)
                    n = side + '/' + os.path.relpath(p, top)[:-3]
                    if re.fullmatch(r'p/(responses|beacons|events)/[^/]+', n):
                        p = os.path.join(d, 'user-' + n.replace('/', '-') + '.js')
                        vlib.put(p, user(n))
                    mods.append([n, p, None if '/user-' in p else side + '::' + n.split('/', 1)[1]])
        vlib.put(d + '/schema.ts', 'export const flow = %s;\n' % json.dumps(open(f + '/p.prot').read()))
        mods += [['clibri', f + '/clibri.js', None], ['users', f + '/users.js', None], ['schema', d + '/schema.ts', None], ['model', HARNESS + '/model.js', None], ['peer', f + '/peer.js', None], ['flow', f + '/flow.js', None]]
        return build(d, mods, 'flow', queue=True)


FLOW_REACH = {'gate_assigned': [1], 'gate_': [1, 2], 'req_order': [1, 2], 'req_mixed': [1, 2], 'req_strategy': [1, 2], 'req_chunk': [1, 2], 'req_action': [1, 2], 'hs_answers': [1, 2]}


def flow(run, pattern, bounds):
    d = prepare_flow()
    run.assumptions += FLOW_ASSUME
    run.bounds += ['one workflow with 3 requests (1 to 3 actions, with and without broadcasts), 2 beacons, 2 events and the connection events, over a protocol with nested groups'] + bounds
    run.ts(d, entries('flow/flow.js', pattern, FLOW_REACH) + entries('flow/peer.js', pattern, FLOW_REACH))
    return run.finish()
