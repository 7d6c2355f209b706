"""Generated Rust producer and consumer, executed symbolically."""
import os, re, shutil
import vlib

ASSUME = [
    'tokio is replaced by a single-threaded stand-in with its semantics (channels, select! with any start, join!, spawn, sleep on a virtual clock); tasks are polled in turn until nothing happens any more',
    'the transport is a stand-in with the interface of the crate clibri 0.1.7: it records what is sent and reports the events the entry chooses',
    'HashMap hashing is replaced by a constant hash, which only changes iteration order and cost; logging is compiled out',
    'the code is checked as rustc 1.75 compiles it (opt-level 1, overflow checks on, panic = abort) for x86_64',
]


def prepare():
    d = vlib.workdir('rsflow')
    g = vlib.workdir('gen-rsflow')
    flow = vlib.VERIF + '/harness/ts/flow'
    vlib.put(g + '/p.prot', open(flow + '/p.prot').read())
    vlib.put(g + '/w.workflow', open(flow + '/ts.workflow').read().replace('typescript', 'rust'))
    with vlib.lock('gen-rsflow'):
        for x in 'pc':
            shutil.rmtree('%s/%s' % (g, x), ignore_errors=True)
            os.makedirs('%s/%s/src' % (g, x))
            vlib.put('%s/%s/Cargo.toml' % (g, x), '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2018"\n[dependencies]\n' % x)
        vlib.generate(['-s', 'p.prot', '-wf', 'w.workflow', '-cd', 'c/src', '-pd', 'p/src'], g, [])
        for x in 'pc':
            if not os.path.exists('%s/%s/src/mod.rs' % (g, x)):
                raise vlib.Inconclusive('the generator wrote no Rust project')
        vlib.mirror(vlib.VERIF + '/harness/rsflow', d)
        keep = set()
        for x in 'pc':
            for root, _, files in os.walk('%s/%s/src' % (g, x)):
                for f in files:
                    src = os.path.join(root, f)
                    r = x + '/' + os.path.relpath(src, '%s/%s/src' % (g, x))
                    own = vlib.VERIF + '/harness/rsflow/src/users/' + r
                    text = open(own if os.path.exists(own) else src, encoding='utf-8').read()
                    vlib.put(d + '/src/' + r, ''.join(l for l in text.splitlines(True) if not l.startswith('#![')))
                    keep.add(d + '/src/' + r)
            for root, _, files in os.walk('%s/src/%s' % (d, x)):
                for f in files:
                    if os.path.join(root, f) not in keep:
                        os.remove(os.path.join(root, f))
    return d


def names(pattern):
    src = open(vlib.VERIF + '/harness/rsflow/src/entry.rs').read()
    return [n for n in re.findall(r'^    fn (\w+)\(\) \{', src, re.M) if re.fullmatch(pattern, n)]


REACH = {'gate_cut': [1], 'gate_': [1, 2], 'life_(handshake|request|event|refused)': [1, 2]}


def check(run, pattern, bounds):
    d = prepare()
    es = [{'name': n, 'reach': next((v for k, v in REACH.items() if re.match(k, n)), [1]), 'opts': ['--steps', '400000000']} for n in names(pattern)]
    run.assumptions += ASSUME
    run.bounds += ['one workflow with 3 requests (1 to 3 actions, with and without broadcasts), 2 beacons, 2 events and the connection events, over a protocol with nested groups'] + bounds
    run.rust(d, es)
    return run.finish()
