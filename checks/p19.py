"""Error messages: the user's translation for the error code, with its placeholders filled from the tokens."""
import random

from vt import build, engine, model, run, spec, trees
from vt.spec import cstr

WORDS = ['Unknown', 'argument', 'é', '強制', 'x', ':', ' ', ', ', '.', '(', '%s', 'Fehler bei', '\\', '"', '\t', '👍', '0', '']
SEPS = [', ', ' ', '/', ',', ' and ', '、', '|', '{', ' - ']
DEFAULTS = {model.NUMBERS[c]: t for c, t in model.MESSAGES.items()}


def template(rng, limit=90):
    while True:
        s = ''
        for _ in range(rng.randint(0, 3)):
            s += ''.join(rng.choice(WORDS) for _ in range(rng.randint(0, 3))) + '{}'
        if rng.random() < .3:
            s = ''
        s += ''.join(rng.choice(WORDS) for _ in range(rng.randint(0, 3)))
        if rng.random() < .5:
            s += '{' + rng.choice([x for x in SEPS if x != '{']) + '}' + rng.choice(['', '.', '?', ' fin', 'é'])
        if rng.random() < .25:     # unpaired brackets are text
            i = 0 if rng.random() < .5 else len(s)
            b = '}' if '}' in s or rng.random() < .5 else '{'
            s = s[:i] + rng.choice(['', 'é', ' ']) + b + rng.choice([' ', '', 'x']) + s[i:]
        if s and len(s.encode()) < limit:
            return s


def table_cpp(name, t, empty_type=False):
    if empty_type:
        return f'struct {name} {{}};\n'
    rows = ',\n'.join(f'std::pair<traits::integral_constant<static_cast<error_code>({k})>, decltype({cstr(v)}_S)>'
                      for k, v in t.items())
    return f'struct {name} {{ using error_code_translations = std::tuple<{rows}>; }};\n'


THROWER = r'''
inline std::int32_t throw_code(std::string_view s)
{
    // code|prefix token|prefix token...
    auto toks = ar::vector<parsing::token_type>{};
    auto bar = s.find('|');
    const auto ec = static_cast<error_code>(std::strtoull(std::string(s.substr(0, bar)).c_str(), nullptr, 10));
    while (bar != std::string_view::npos) {
        const auto next = s.find('|', bar + 1);
        auto t = s.substr(bar + 1, next == std::string_view::npos ? next : next - bar - 1);
        const auto p = t[0] == 'L' ? parsing::prefix_type::long_ : t[0] == 'S' ? parsing::prefix_type::short_ : parsing::prefix_type::none;
        toks.push_back(parsing::token_type{p, t.substr(1)});
        bar = next;
    }
    throw multi_lang_exception{ec, toks};
}
'''


def tables_for(rng, which):
    """(user table, fallback table or None for the default, C++ policy, C++ declarations)"""
    codes = list(DEFAULTS) + [1000, 1001, 65536]
    main = {c: template(rng) for c in codes if rng.random() < (.95 if which == 'full' else .5)}
    if which == 'empty':
        main = {}
    other = {c: template(rng) for c in codes if rng.random() < .6}
    decl = table_cpp('tr_main', main, which == 'empty') + table_cpp('tr_other', other)
    fb = rng.choice(['default', 'void', 'other']) if which != 'full' else 'default'
    tables = [main] + {'default': [DEFAULTS], 'void': [], 'other': [other]}[fb]
    pol = 'arp::exception_translator<tr_main' + {'default': '', 'void': ', void', 'other': ', tr_other'}[fb] + '>'
    return tables, pol, decl


TOKS = [b'', b'a', b'{}', b'{, }', b'}', b'\xc3\xa9', 'トークン'.encode(), b'long-token-' * 12, b'%s', b'--', b'a b']


def check(rep):
    rep.rule = ('error messages under random user translation tables (missing entries, fallback tables, extension codes, 0-3 '
                'single placeholders, greedy placeholder with arbitrary joining text) against a reference implementation of the '
                'documented rules; distinct = (table, error code, tokens) or (tree, tokens)')
    # every code, any tokens, thrown from a custom parser of the value
    units, info = [], []
    for i in range(rep.scale(8, 48)):
        rng = random.Random(f'{rep.seed}/tr/{i}')
        tables, pol, decl = tables_for(rng, 'empty' if i == 0 else rng.choice(['full', 'half', 'half']))
        src = f'''#include "vt_main.hpp"
{decl}{THROWER}
static auto make([[maybe_unused]] const bool* en) {{
    return ar::root(arp::validation::default_validator, {pol},
        ar::arg<std::int32_t>("throw"_S, "t"_S, arp::custom_parser<std::int32_t>{{throw_code}},
                              arp::router{{[](auto... a) {{ vt::route(0, std::move(a)...); }}}}));
}}
int main(int argc, char** argv) {{
    return vt::run(argc, argv, [](const bool* en) {{
        using root_t = decltype(make(en));
        return std::unique_ptr<root_t>(new root_t(make(en)));
    }});
}}
'''
        units.append(build.Unit(f'tr{i}', src, flags=build.SAN))
        info.append((tables, pol, decl))
    # the library's own failures, under translated trees
    named = ['counts', 'deps', 'nested', 'seps', 'bounds', 'aliases']
    tr_units, tr_trees = [], []
    for n in named:
        rng = random.Random(f'{rep.seed}/tree/{n}')
        tree = trees.TREES[n]()
        tables, pol, decl = tables_for(rng, rng.choice(['full', 'half']))
        tree.raw = list(tree.raw) + [pol]
        tree.tables = tables
        tr_trees.append((n, tree))
        tr_units.append(build.Unit(n, spec.emit_tu(tree, extra=decl)))
    build.compile_all(units + tr_units)
    build.require(units + tr_units)
    rep.tick('translation_tables', len(units) + len(tr_units))
    for u, (tables, pol, decl) in zip(units, info):
        rng = engine.rng_for(rep, u.name)
        known = sorted({k for t in tables for k in t} | {1, 104, 999, 2 ** 40})
        cases, want = [], []
        for _ in range(rep.scale(700, 6000)):
            code = rng.choice(known)
            toks = [(rng.choice('LSN'), rng.choice(TOKS) if rng.random() < .7 else bytes(rng.choices(b'abc{}-:, ', k=rng.randint(1, 9))))
                    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 9]))]
            arg = b'|'.join([b'%d' % code] + [p.encode() + t for p, t in toks])
            cases.append(run.Case([rng.choice([b'--throw', b'-t']), arg], api=rng.choice('rc')))
            want.append((code, model.translate(code, [{'L': b'--', 'S': b'-', 'N': b''}[p] + t for p, t in toks], tables)))
        for c, (code, w), o in zip(cases, want, run.run_cases(u.exe, cases)):
            if engine.watch(rep, o):
                continue
            rep.count((u.name, c.toks[1]))
            rep.tick('messages')
            if o.status != 'PE' or o.calls or o.msg != w:
                rep.violation(f'format:{code if code < 1000 else "ext"}', f'{pol} code {code} value {c.toks[1]!r}\n   expected error '
                              f'{w!r}\n   observed {o.status} {o.msg!r}', f'{decl}\n{pol}\n{c.line()}\n{w!r}')
            elif rng.random() < .002:
                rep.sample(f'{code} {c.toks[1]!r} => {w!r}'[:300])
    for u, (n, tree) in zip(tr_units, tr_trees):
        rng = engine.rng_for(rep, 'lines', n)
        m = model.Model(tree)
        cases = [run.Case(t, en=engine.rand_en(rng, tree)) for t in engine.gen.lines(rng, tree, rep.scale(2500, 20000), pmut=.7)]
        engine.judge(rep, n, tree, m, cases, run.run_cases(u.exe, cases), relevant=lambda e, o: not e.ok)
    rep.need('messages', 2000)
