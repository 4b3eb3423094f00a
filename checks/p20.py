"""Multi-language roots: the locale selects the tree of exactly its language, otherwise the default one."""
import copy
import os
import random
import re

from vt import build, engine, helpmodel, model, randtree, run, spec, trees
from vt.spec import cstr

NORM = r'''
#include <fstream>
static int norm(const char* in, const char* out)
{
    auto i = std::ifstream{in};
    auto o = std::ofstream{out};
    auto l = std::string{};
    while (std::getline(i, l)) {
        const auto s = vt::unhex(l);
        auto m = std::unique_ptr<char[]>(new char[s.size()]);
        std::memcpy(m.get(), s.data(), s.size());
        o << vt::hex(ar::multi_lang::iso_locale(std::string_view{m.get(), s.size()})) << '\n';
    }
    return 0;
}
'''

IDSETS = [['en_GB', 'fr', 'ja'], ['en', 'en_GB', 'en_US'], ['C', 'de_CH'], ['pt_BR', 'pt', 'zh_CN', 'zh'], ['日本', 'e', 'ee']]


def translate_tree(tree, f, k, tables=None):
    """The tree in language k: every user visible string passed through f."""
    t = copy.deepcopy(tree)
    for n, _ in t.walk():
        for a in ('long', 'none', 'disp', 'desc', 'ename', 'pintro', 'paddendum'):
            v = getattr(n, a)
            if v:
                setattr(n, a, f[v])
        n.alias = tuple(x if not x.startswith('--') else '--' + f[x[2:]] for x in n.alias)
        n.dep = tuple(x if not x.startswith('--') else '--' + f[x[2:]] for x in n.dep)
        if n.rid is not None:
            n.rid = 100 * k + n.rid
    if tables is not None:
        t.tables = tables
    return t


def strings(tree):
    r = set()
    for n, _ in tree.walk():
        r |= {getattr(n, a) for a in ('long', 'none', 'disp', 'desc', 'ename', 'pintro', 'paddendum') if getattr(n, a)}
    return sorted(r)


def maps(rng, strs, count):
    """One injective mapping per language; the first language is the text as written."""
    res = [{s: s for s in strs}]
    for k in range(1, count):
        while True:
            m = {}
            for s in strs:
                r = rng.random()
                m[s] = s if r < .3 else rng.choice(['é', '日', 'x', 'zz', 'ß']) + s if r < .8 else s + rng.choice(['o', 'é', '語'])
            if len(set(m.values())) == len(m):
                break
        res.append(m)
    return res


class TrEmit(spec.Emit):
    def __init__(self, idx, wrapper=None):
        super().__init__(cpp17=wrapper is not None)
        self.idx, self.wrapper = idx, wrapper

    def s(self, x):
        if self.wrapper is not None:
            vs = [m.get(x, x) for m in self.wrapper]
            if len(set(vs)) > 1:
                return 'SM_(I, ' + ', '.join(cstr(v) for v in vs) + '){}'
            return super().s(x)
        return f'typename tr::s{self.idx[x]}{{}}' if x in self.idx else super().s(x)


def emit(tree, ids, fs, rng, wrapper):
    strs = strings(tree)
    idx = {s: i for i, s in enumerate(strs)}
    t = copy.deepcopy(tree)
    tables = []
    for n, _ in t.walk():
        if n.rid is not None:
            n.rid = ('static_cast<int>(decltype(I)::value) * 100 + ' if wrapper else 'tr::language * 100 + ') + str(n.rid)
    decl = ''
    args = ', '.join((f'S_({cstr(x)})' if wrapper else f'ar::str<{cstr(x)}>') for x in ids)
    if wrapper:
        tables = [None] * len(ids)
        body = TrEmit(idx, fs).node(t)
        return f'''#include "vt_main.hpp"
{NORM}
template <typename W>
struct adapt {{
    W w;
    void parse(int c, char** v) const {{ w.parse(c, v); }}
    template <typename I, typename = std::enable_if_t<!std::is_same_v<std::decay_t<I>, int>>>
    void parse(I b, I e) const {{
        auto m = std::vector<std::string>(b, e);
        auto v = std::vector<char*>{{const_cast<char*>("prog")}};
        for (auto& x : m) {{ v.push_back(x.data()); }}
        v.push_back(nullptr);
        w.parse(static_cast<int>(m.size() + 1), v.data());
    }}
    template <typename C> void parse(const C&) const {{}}
    auto help() const {{ return w.help(); }}
    void help(std::ostream& s) const {{ w.help(s); }}
}};
static auto make([[maybe_unused]] const bool* en) {{
    auto w = ar::multi_lang::root_wrapper<{args}>(std::string_view{{std::getenv("VT_LANG")}}, [=](auto I) {{ return {body}; }});
    return adapt<decltype(w)>{{std::move(w)}};
}}
''' + MAIN, tables
    for k, i in enumerate(ids):
        kind = rng.choice(['none', 'table', 'table']) if k else 'none'
        rows = ''
        if kind == 'table':
            tab = {c: rng.choice(['FEHLER', 'エラー', 'Erreur']) + f' {c}' + rng.choice(['', ' {}', ' {, }', ' {} / {+}'])
                   for c in model.NUMBERS.values() if rng.random() < .7}
            tables.append([tab, {model.NUMBERS[c]: m for c, m in model.MESSAGES.items()}])
            rows = 'using error_code_translations = std::tuple<' + ',\n'.join(
                f'std::pair<traits::integral_constant<static_cast<error_code>({c})>, decltype({cstr(v)}_S)>' for c, v in tab.items()) + '>;\n'
        else:
            tables.append(None)
        # a dialect inherits what it does not change
        decl += f'template <> class ar::multi_lang::translation<ar::str<{cstr(i)}>> {{\npublic:\n constexpr static int language = {k};\n' + \
            ''.join(f' using s{idx[s]} = decltype({cstr(fs[k][s])}_S);\n' for s in strs) + rows + '};\n'
    t.raw = list(t.raw) + ['arp::exception_translator<tr>']
    body = TrEmit(idx).node(t)
    return f'''#include "vt_main.hpp"
{decl}{NORM}
static auto make([[maybe_unused]] const bool* en) {{
    return ar::multi_lang::root<{args}>(ar::multi_lang::iso_locale(std::getenv("VT_LANG")), [=](auto tr_) {{
        using tr = decltype(tr_);
        return {body};
    }});
}}
''' + MAIN, tables


MAIN = '''
int main(int argc, char** argv) {
    if (argc > 3) { return norm(argv[2], argv[3]); }
    return vt::run(argc, argv, [](const bool* en) {
        using root_t = decltype(make(en));
        return std::unique_ptr<root_t>(new root_t(make(en)));
    });
}
'''


def iso(name):
    """Documented: encoding stripped, hyphens to underscores."""
    return re.sub(rb'\..*', b'', name, flags=re.S).replace(b'-', b'_')


def locales(rng, ids):
    res = {'', 'C', 'POSIX', '.', '.UTF-8', 'xx', ids[0], ids[-1]}
    for i in ids:
        res |= {i, i + '.UTF-8', i.replace('_', '-'), i.replace('_', '-') + '.utf8', i + '@euro', i + '_X', i + ' ', ' ' + i, i.upper(),
                i.lower(), i[:-1], i[:2], i + '.a.b', '.' + i, i + 'x', i + i, i.split('_')[0], i + '-', i.replace('_', '')}
    return sorted(res)


def check(rep):
    rep.rule = ('locale names (every supported identifier, encodings, hyphens, prefixes, extensions, case changes, unknown) given to '
                'multi-language roots; parses, error texts and help compared with the reference model of the tree in the expected '
                'language; distinct = (tree, locale, tokens)')
    names = ['deps', 'lists', 'names', 'seps']
    jobs = []
    for i in range(rep.scale(5, 20)):
        rng = random.Random(f'{rep.seed}/ml/{i}')
        wrapper = i == 1 or (rep.thorough and i % 5 == 1)
        if i in (0, 1) or i % 4 == 3:
            tree, n = randtree.rand_help_tree(random.Random(f'{rep.seed}/mlh/{i}'), 3 if wrapper else 12, colour=False), f'help{i}'
        else:
            n = names[i % len(names)]
            tree = trees.TREES[n]()
        ids = IDSETS[i % len(IDSETS)] if not wrapper else rng.choice(IDSETS[:3])
        if len(ids) > 3 and n.startswith('help'):
            ids = ids[:3]
        fs = maps(rng, strings(tree), len(ids))
        if wrapper:
            fs = [{s: v for s, v in f.items()} for f in fs]
        src, tables = emit(tree, ids, fs, rng, wrapper)
        flags = build.PLAIN + (['-DAR_DISABLE_CPP20_STRINGS=true', '-DAR_MAX_CTS_SIZE=128'] if wrapper else [])
        u = build.Unit(f'ml{i}', src, flags=flags)
        per = [translate_tree(tree, f, k, tb) for k, (f, tb) in enumerate(zip(fs, tables))]
        jobs.append((n, u, ids, per, wrapper))
    build.compile_all([j[1] for j in jobs])
    build.require([j[1] for j in jobs])
    rep.tick('multi_language_roots', len(jobs))
    for n, u, ids, per, wrapper in jobs:
        rng = engine.rng_for(rep, 'loc', u.name)
        locs = locales(rng, ids)
        short = rng.sample(locs, min(len(locs), rep.scale(14, 60))) + [x for x in ids] + [ids[-1].replace('_', '-') + '.UTF-8']
        for loc in dict.fromkeys(short):
            want = loc if wrapper else iso(loc.encode()).decode()
            k = ids.index(want) if want in ids else 0
            rep.tick('matched' if want in ids else 'fallback')
            tree = per[k]
            exe = ['env', f'VT_LANG={loc}', u.exe]
            rng2 = engine.rng_for(rep, 'lines', u.name, loc)
            has_help = any(c.kind == 'help' for c in tree.children)
            if has_help:
                hm = helpmodel.HelpModel(tree)
                lab = ('--' + hm.help.long if hm.help.long else '-' + hm.help.short).encode()
                paths = engine.help_paths(tree)
                hcases = [run.Case([], root='h', en='1' * max(1, tree.nen))] + \
                    [run.Case([lab] + p, api='a' if wrapper else rng2.choice('rc'), en=engine.rand_en(rng2, tree))
                     for p in rng2.sample(paths, min(len(paths), 6))]
                obs = run.run_cases(exe, hcases, jobs=1)
                engine.judge_help(rep, f'{n}@{loc}', tree, hm, hcases, obs, None, helpmodel.wrap_words)
                continue
            cases = [run.Case(t, api='a' if wrapper else rng2.choice('rcta'), en=engine.rand_en(rng2, tree))
                     for t in engine.gen.lines(rng2, tree, rep.scale(60, 300))
                     if not any(b'\0' in x for x in t)]
            # lines in the other languages too
            for other in per:
                cases += [run.Case(t, api='a' if wrapper else 'r', en=engine.rand_en(rng2, tree))
                          for t in engine.gen.lines(rng2, other, rep.scale(12, 60)) if not any(b'\0' in x for x in t)]
            engine.judge(rep, f'{n}@{loc}', tree, model.Model(tree), cases, run.run_cases(exe, cases, jobs=2))
    # locale name normalisation over arbitrary bytes
    rng = engine.rng_for(rep, 'iso')
    ins = [b'', b'.', b'-', b'-.-', b'en-GB.UTF-8', b'a.b.c', b'\0.x', b'..'] + \
        [bytes(rng.choices(b'ab_-.-.@\0Z\xc3\xa9 1', k=rng.randint(0, 40))) for _ in range(4000)]
    import subprocess
    import tempfile
    with tempfile.TemporaryDirectory(prefix='vt_') as d:
        i, o = os.path.join(d, 'i'), os.path.join(d, 'o')
        open(i, 'w').write('\n'.join(x.hex() for x in ins) + '\n')
        r = subprocess.run([jobs[0][1].exe, 'norm', i, o, 'x'], timeout=60, stderr=subprocess.PIPE)
        got = open(o).read().split('\n')[:-1] if os.path.exists(o) else []
    if r.returncode != 0 or len(got) != len(ins):
        rep.violation('iso:crash', f'iso_locale died after {len(got)} inputs: {r.stderr[-300:]!r}', repr(ins[len(got):len(got) + 1]))
    for a, g in zip(ins, got):
        rep.count(('iso', a))
        rep.tick('locale_names')
        if bytes.fromhex(g) != iso(a):
            rep.violation('iso', f'iso_locale({a!r}) = {bytes.fromhex(g)!r}, expected {iso(a)!r}', a.hex())
    rep.need('matched', 10)
    rep.need('fallback', 10)
