"""Help lists exactly the enabled nodes of the requested part of the tree."""
import os
import random
import subprocess
import tempfile

from vt import build, engine, helpmodel, randtree, run, spec, trees

DIRECT = '''
#include "vt_main.hpp"
#include <iostream>
struct my_pre { template <typename H> void format(std::ostream& s) { s << "PRE\\n"; } };
struct my_add { template <typename H> void format(std::ostream& s) { s << "ADD\\n"; } };
int main(int argc, char** argv) {
    bool on = argv[1][0] == '1';
    const auto r = ar::root(arp::validation::default_validator,
        ar::help("help"_S, "h"_S, "Help text"_S, arp::program_name_t{"app"_S}, arp::program_version_t{"v9"_S}),
        ar::flag("info"_S, "Info text"_S, arp::runtime_enable{on}, arp::router{[](bool) { std::cout << "INFO"; }}),
        ar::mode("go"_S, "Go text"_S, ar::arg<int>("num"_S, "Number"_S), arp::router{[](int) { std::cout << "GO"; }}));
    const auto q = ar::root(arp::validation::default_validator,
        ar::help("help"_S, "h"_S, "Help text"_S,
            arp::default_help_formatter_t<ar::traits::integral_constant<std::size_t{2}>,
                ar::traits::integral_constant<std::size_t{10}>,
                arp::help_formatter_component::default_line_formatter<2>, my_pre, my_add>{}),
        ar::flag("info"_S, "Info text"_S, arp::router{[](bool) {}}));
    if (argv[1][1] == 'q') {
        std::cout << q.help();
        return 7;
    }
    if (argv[1][1] == 's') {
        r.help(std::cout);
        return 7;
    }
    try {
        r.parse(argc - 1, argv + 1);
    } catch (const parse_exception& e) {
        std::cout << "PE " << e.what();
        return 8;
    }
    return 7;
}
'''
ROOT_ON = 'app v9\n\n    --help,-h    Help text\n    --info       Info text\n    go           Go text\n'
ROOT_OFF = ROOT_ON.replace('    --info       Info text\n', '')
DIRECT_CASES = [
    (['1'], ['--help'], 0, ROOT_ON), (['0'], ['-h'], 0, ROOT_OFF),
    (['1'], ['--help', 'go'], 0, 'app v9\n\ngo                   Go text\n    --num <Value>    Number\n'),
    (['1'], ['--help', 'go', '--num'], 0, 'app v9\n\n--num <Value>    Number\n'),
    (['1'], ['--help', '--info'], 0, 'app v9\n\n--info    Info text\n'),
    (['0'], ['--help', '--info'], 8, 'PE Unknown argument: --info'),
    (['1'], ['--help', 'nope'], 8, 'PE Unknown argument: nope'),
    (['1'], ['--help', 'go', '--info'], 8, 'PE Unknown argument: --info'),
    (['1'], ['--info'], 7, 'INFO'), (['1'], ['go'], 7, 'GO'),
    (['1s'], [], 7, ROOT_ON), (['0s'], [], 7, ROOT_OFF),
    (['1q'], [], 7, 'PRE\n  --help,-h  Help text\n  --info     Info text\nADD\n'),
]


def check(rep):
    rep.rule = ('help text requested for every path of every tree under every toggle assignment, compared with a '
                'reference rendering of the tree; distinct = (tree, toggles, path)')
    more = {f'randhelp{i}': randtree.rand_help_tree(random.Random(f'{rep.seed}/help/{i}'))
            for i in range(rep.scale(6, 30))}
    direct = build.Unit('direct', DIRECT)
    b = engine.Bench(rep, ['help1', 'help2'], more=more)
    build.compile_all([direct])
    build.require([direct])
    for name, tree, _, exe in b.items():
        hm = helpmodel.HelpModel(tree)
        labels = [x.encode() for x in (['--' + hm.help.long] if hm.help.long else []) +
                  (['-' + hm.help.short] if hm.help.short else [])]
        rng = engine.rng_for(rep, name)
        cases = []
        paths = engine.help_paths(tree)
        junk = [p + [rng.choice([b'nope', b'--nope', b'', b'-', b'--', b'-\xff'])] for p in paths]
        junk += [p[:-1] + [p[-1] + b'x'] for p in paths if p] + [[p[-1], p[-1]] for p in paths if p]
        for e in range(1 << tree.nen):
            en = format(e, '0%db' % tree.nen) if tree.nen else '0'
            for p in paths + (junk if e in (0, (1 << tree.nen) - 1) else []):
                cases.append(run.Case([rng.choice(labels)] + p, en=en, root=rng.choice('kf')))
            cases.append(run.Case([], en=en, root='h'))
        engine.judge_help(rep, name, tree, hm, cases, run.run_cases(exe, cases), None, helpmodel.wrap_words)
    # help without a router prints to the standard output and ends the process
    for a, toks, rc, out in DIRECT_CASES:
        with tempfile.TemporaryDirectory(prefix='vt_') as d:
            p = subprocess.run([direct.exe] + a + toks, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, cwd=d,
                               stderr=subprocess.DEVNULL, timeout=60)
        got = p.stdout.decode('utf-8', 'replace')
        rep.count(('direct', tuple(a + toks)))
        if (p.returncode, got) != (rc, out):
            rep.violation('direct', f'{a} {toks}: expected exit {rc} and {out!r}\n   observed {p.returncode} {got!r}',
                          DIRECT)
    rep.need('help_texts', 200)
    rep.need('unknown_paths', 100)
