"""The code generator itself (/repo/cli/src), executed symbolically on symbolic schema, workflow and argument texts."""
import os, re
import vlib


def prepare():
    d = vlib.workdir('cli')
    src = vlib.REPO + '/cli/src'
    keep = set()
    for root, _, files in os.walk(src):
        for f in files:
            p = os.path.join(root, f)
            q = os.path.join(d, 'src', os.path.relpath(p, src))
            if os.path.relpath(p, src) == 'main.rs':
                continue
            keep.add(q)
            vlib.put(q, open(p, encoding='utf-8').read())
    vlib.mirror(vlib.VERIF + '/harness/cli', d)
    vlib.mirror_plain(vlib.VERIF + '/harness/ring', os.path.dirname(d) + '/ring')
    main = open(src + '/main.rs', encoding='utf-8').read()
    main, n = re.subn(r'\bfn\s+main\s*\(\s*\)', 'pub fn cli_main()', main)
    if n != 1:
        raise vlib.Inconclusive('cannot find main() of the generator')
    head = '#![allow(warnings)]\n#[macro_use]\npub mod sym;\n'
    tail = '\nmod model;\nmod files;\nmod wf;\nmod entry;\n'
    vlib.put(d + '/src/lib.rs', head + main + tail)
    vlib.put(d + '/src/replay.rs', head + main + tail + 'fn main() { if std::env::var("REPLAY_MAIN").is_ok() { cli_main() } else { entry::replay_main() } }\n')
    for root, _, files in os.walk(d + '/src'):
        for f in files:
            p = os.path.join(root, f)
            r = os.path.relpath(p, d + '/src')
            if p not in keep and r not in ('lib.rs', 'replay.rs', 'sym.rs') and not os.path.exists(vlib.VERIF + '/harness/cli/src/' + r):
                os.remove(p)
    return d


ASSUME = [
    'SHA-256 is replaced by an ideal hash (the digest is the hashed text itself), so collisions are out of scope',
    'files live in an in-memory file system with the semantics of open/read/write/stat/unlink/rename; the texts written to the terminal are not modelled',
    'the code is checked as rustc 1.75 compiles it (opt-level 1, overflow checks on, panic = abort) for x86_64',
]
# labels other than 1 that have to be reached
REACH = {'p16_pair': [1, 2], 'p17_outputs': [1, 2], 'p17_puml': [1, 2], 'p15_': [2], 'p14_': [1, 2], 'p19_': [1, 2], 'p18_(one|all.|settings|mix|edit.|cut)': [1, 2]}


def names(pattern):
    src = open(vlib.VERIF + '/harness/cli/src/entry.rs').read()
    return [n for n in re.findall(r'^    fn (\w+)\(\) \{', src, re.M) if re.fullmatch(pattern, n)]


def check(run, pattern, bounds):
    d = prepare()
    es = [{'name': n, 'reach': next((v for k, v in REACH.items() if re.match(k, n)), [1]), 'opts': ['--steps', '400000000']} for n in names(pattern)]
    run.assumptions += ASSUME
    run.bounds += bounds
    run.rust(d, es)
    return run.finish()
