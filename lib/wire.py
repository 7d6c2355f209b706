"""Rust wire library: generated code of verif.prot, executed symbolically."""
import re
import vlib

ASSUME = [
    'HashMap hashing is replaced by a constant hash (every key collides), which only changes iteration order and cost',
    'the decimal text of symbolic numbers inside error messages is not modelled',
    'the clock is a fixed value; allocation never fails below the 1 MiB limit, which no decoder needs to exceed for these inputs',
    'the code is checked as rustc 1.75 compiles it (opt-level 1, overflow checks on, panic = abort) for x86_64',
]


def prepare():
    d = vlib.workdir('wire')
    g = vlib.workdir('gen-wire')
    vlib.generate(['--src', vlib.VERIF + '/harness/wire/verif.prot', '-rs', 'v.rs', '-o', '--em'], g, ['v.rs'])
    vlib.mirror(vlib.VERIF + '/harness/wire', d)
    src = ''.join(l for l in open(g + '/v.rs') if not l.startswith('#!['))
    vlib.put(d + '/src/gen.rs', src)
    return d


def names(pattern):
    src = open(vlib.VERIF + '/harness/wire/src/entry.rs').read()
    return [n for n in re.findall(r'^    fn (\w+)\(\) \{', src, re.M) if re.fullmatch(pattern, n)]


# labels other than 1 that have to be reached
REACH = {'tot_': [1, 2], 'leaf_': [1, 2], 'field_': [1, 2], 'body_': [1, 2], 'hostile_': [1, 2, 3], 'head_': [1, 2]}


def check(run, pattern, bounds):
    d = prepare()
    es = []
    for n in names(pattern):
        r = next((v for k, v in REACH.items() if n.startswith(k)), [1])
        es.append({'name': n, 'reach': r})
    run.assumptions += ASSUME
    run.bounds += bounds
    run.rust(d, es)
    return run.finish()


SHAPES = 'every field kind of verif.prot (12 primitives, their arrays, optionals, optional arrays, structs, enums, nested groups); contents fully symbolic; one field at a time takes each of 6 lengths (0..9 array elements, strings of 0..4 characters of 1..4 encoded bytes), presence or variant while the others keep a default shape'
