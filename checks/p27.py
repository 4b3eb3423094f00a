"""Translation headers generated from TOML hold exactly the file's strings, for any content."""
import concurrent.futures as cf
import os
import re
import subprocess
import tempfile

from vt import build, engine

SCRIPT = 'cmake/translation_generator/translation_generator_script.cmake'
CODES = ['unknown_argument', 'unknown_argument_with_suggestion', 'unhandled_arguments', 'argument_has_already_been_set', 'failed_to_parse',
         'no_arguments_passed', 'minimum_value_not_reached', 'maximum_value_exceeded', 'minimum_count_not_reached', 'maximum_count_exceeded',
         'mode_requires_arguments', 'missing_required_argument', 'too_few_values_for_alias', 'dependent_argument_missing',
         'one_of_selected_type_mismatch', 'missing_value_separator']
NASTY = [';', ';;', '[', ']', '[[', '];[', '[error_code]', '#', '# x', ' = ', '=', ' =', '${x}', '$ENV{HOME}', '@x@', '$<1:x>', '"', '\\', '\\\\', '\\;', '\\"',
         '>', '<', '>>', ',', '(', ')', '{}', '{, }', "'", '`', '%d', '/*', '//', '*/', '??/', '\t', '\n', 'a;b', '日本語', 'é', '👩‍👩‍👧', '\u00a0', 'R"(x)"', '"_S', ' ', '  ',
         'str<"x">', 'S_("x")', 'ON', 'TRUE', '0', 'NOTFOUND', 'x-NOTFOUND', '~', '^', '|', '&', '*', '?', '!']
NAMES = ['help', 'copy', 'force', 'source', 'move_description', 'program_intro', 'x', 'y1', 'dst_', 'error_code_x', 'key', 'value', 'line', 'CPP17x', 'ARGS_x']


def text(rng):
    r = rng.random()
    if r < .05:
        return ''
    if r < .3:
        return rng.choice(NASTY)
    out = ''
    for _ in range(rng.randint(1, 8)):
        out += rng.choice(NASTY) if rng.random() < .55 else ''.join(rng.choice('abcXYZ 019') for _ in range(rng.randint(1, 5)))
    while len(out.encode()) > 60:
        out = out[:-1]
    return out


def quote(rng, s):
    """A TOML basic string (whose escapes are also C++ ones)."""
    out = ''
    for c in s:
        if c in '"\\':
            out += '\\' + c
        elif c == '\n':
            out += '\\n'
        elif c == '\t':
            out += '\\t'
        elif ord(c) >= 0xa0 and rng.random() < .15:
            out += f'\\u{ord(c):04X}' if ord(c) < 0x10000 else f'\\U{ord(c):08X}'
        else:
            out += c
    return '"' + out + '"'


def toml(rng):
    """Returns (file text, entries, error code entries)."""
    lines, ent, err = [], [], []

    def noise():
        while rng.random() < .35:
            lines.append(rng.choice(['', '# comment', '#', '# a = "b"', '# ; [ ] ' + rng.choice(NASTY).replace('\n', ' '), '#[error_code]']))
    names = rng.sample(NAMES, rng.randint(1, 7))
    noise()
    for n in names:
        v = text(rng)
        lines.append(f'{n} = {quote(rng, v)}')
        ent.append((n, v))
        noise()
    if rng.random() < .7:
        lines.append('[error_code]')
        noise()
        for n in rng.sample(CODES, rng.randint(1, 5)):
            v = text(rng)
            lines.append(f'{n} = {quote(rng, v)}')
            err.append((n, v))
            noise()
    body = '\n'.join(lines)
    if rng.random() < .8:
        body += '\n' * rng.randint(1, 3)
    return body, ent, err


def stale_forms(rng, b):
    """Ways in which an existing header can differ from the one that is due."""
    at = [i for i, c in enumerate(b) if chr(c).isalpha() and c < 128]
    i = rng.choice(at)
    sp = [i for i, c in enumerate(b) if c == 32]
    return [('longer', b + b'// stale\n'), ('shorter', b[:rng.randrange(len(b))]), ('empty', b''),
            ('letter', b[:i] + (b'q' if b[i:i + 1] != b'q' else b'r') + b[i + 1:]),
            ('case', b[:i] + b[i:i + 1].swapcase() + b[i + 1:]), ('tail', b[:-1]), ('blank', b + b'\n'),
            ('space', b.replace(b' ', b'  ', 1) if not sp else (lambda j: b[:j] + b'\t' + b[j + 1:])(rng.choice(sp)))]


def check(rep):
    rep.rule = 'translation files with hostile content through the generator script, compiled in both string modes and read back; distinct = strings'
    rng = engine.rng_for(rep, 'toml')
    script = os.path.join(build.REPO, SCRIPT)
    with tempfile.TemporaryDirectory(prefix='vt_') as d:
        os.mkdir(d + '/out')
        files = []
        for i in range(rep.scale(60, 1500)):
            lang = rng.choice(['en_GB', 'ja', 'fr', 'x', 'en.US', 'a-b', 'zh_Hant', 'l'])
            lang = f'{lang}{i}' if '.' not in lang else f'en.US{i}'
            body, ent, err = toml(rng)
            if i < 4:
                body, ent, err = ['', '# nothing\n# at all', '[error_code]\n', '\n\n'][i], [], []
            elif rng.random() < .15:
                body = body.replace('\n', '\r\n')
            with open(f'{d}/{lang}.toml', 'w', newline='') as f:
                f.write(body)
            files.append((lang, body, ent, err))

        def generate(part, out):
            return subprocess.run(['cmake', '-DSOURCES=' + ';'.join(f'{d}/{x[0]}.toml' for x in part), '-DOUTPUT_DIR=' + out, '-P', script],
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        chunks = [files[i:i + 10] for i in range(0, len(files), 10)]
        with cf.ThreadPoolExecutor(8) as ex:
            for part, p in zip(chunks, ex.map(lambda c: generate(c, d + '/out'), chunks)):
                if p.returncode != 0:
                    rep.violation('generator', 'generator failed: ' + p.stdout.decode('utf-8', 'replace')[-400:],
                                  '\n-----\n'.join(x[1] for x in part))
        # A second run leaves up to date files alone, and one file alone gives the same header as within a list
        os.mkdir(d + '/one')
        for x in files[:rep.scale(10, 100)]:
            h = f'{d}/out/{x[0]}.hpp'
            if not os.path.exists(h):
                continue
            before = (os.stat(h).st_mtime_ns, open(h, 'rb').read())
            p = generate([x], d + '/out')
            if (os.stat(h).st_mtime_ns, open(h, 'rb').read()) != before or b'Generated' in p.stdout:
                rep.violation('rewritten', f'{x[0]}: an up to date header is rewritten', x[1])
            generate([x], d + '/one')
            if open(f'{d}/one/{x[0]}.hpp', 'rb').read() != before[1]:
                rep.violation('alone', f'{x[0]}: another header when generated alone', x[1])
            # and a changed one is rewritten
            for how, stale in rng.sample(stale_forms(rng, before[1]), 2):
                with open(h, 'wb') as f:
                    f.write(stale)
                p = generate([x], d + '/out')
                if open(h, 'rb').read() != before[1]:
                    rep.violation('stale', f'{x[0]}: a stale header ({how}) is not rewritten', x[1])
                rep.tick('stale_' + how)
            rep.tick('regenerations')

        def compile_part(w):
            part, cpp17 = w
            name = f'{d}/t{abs(hash((part[0][0], cpp17)))}'
            s = ['#include "arg_router/multi_lang/translation.hpp"', '#include "arg_router/exception.hpp"', '#include "arg_router/utility/compile_time_string.hpp"',
                 '#include <cstdio>', '#include <tuple>', '#include <string_view>',
                 'static void put(const char* f, const char* k, std::string_view v) { std::printf("%s\\t%s\\t", f, k); for (unsigned char c : v) std::printf("%02x", c); std::puts(""); }',
                 'using namespace arg_router;',
                 'template <typename T, typename = void> struct errs { static void go(const char*) {} };',
                 'template <typename T> struct errs<T, std::void_t<typename T::error_code_translations>> { static void go(const char* f) {'
                 ' std::puts("ERR"); each(f, typename T::error_code_translations{}); }'
                 ' template <typename... P> static void each(const char* f, std::tuple<P...>) { (put(f, std::to_string(int(P::first_type::value)).c_str(), P::second_type::get()), ...); } };']
            main = ['int main() {']
            s.insert(0, '#include <string>')
            for lang, _, ent, err in part:
                s.append(f'#include "{d}/out/{lang}.hpp"')
                t = f'T{len(main)}'
                main.append(f'using {t} = multi_lang::translation<' + (f'S_("{lang}")' if cpp17 else f'str<"{lang}">') + '>;')
                for k, _v in ent:
                    main.append(f'put("{lang}", "{k}", {t}::{k}::get());')
                main.append(f'errs<{t}>::go("{lang}");')
            main.append('}')
            with open(name + '.cpp', 'w') as f:
                f.write('\n'.join(s + main))
            c = subprocess.run(['clang++', '-std=c++20', '-O0', '-w', '-fsyntax-only' if False else '-pipe', '-I' + build.REPO + '/include', '-DAR_MAX_CTS_SIZE=128',
                                '-DAR_LONG_PREFIX="--"', '-DAR_SHORT_PREFIX="-"', '-DAR_ALLOCATOR=std::allocator', '-DAR_UTF8_TRAILING_WINDOW_SIZE=16',
                                '-DAR_DISABLE_CPP20_STRINGS=' + ('true' if cpp17 else 'false'), name + '.cpp', '-o', name],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if c.returncode != 0:
                return None, c.stdout.decode('utf-8', 'replace')
            return subprocess.run([name], stdout=subprocess.PIPE).stdout.decode(), ''

        numbers = {}
        hdr = open(os.path.join(build.REPO, 'include/arg_router/exception.hpp')).read()
        n = -1
        m = re.search(r'enum class error_code[^{]*\{(.*?)\};', hdr, re.S)
        if m is None:
            raise SystemExit(2)
        for x in re.finditer(r'^\s*(\w+)\s*(?:=\s*(\d+))?\s*,', re.sub(r'/\*.*?\*/', '', m.group(1), flags=re.S), re.M):
            n = int(x.group(2)) if x.group(2) else n + 1
            numbers[x.group(1)] = n
        work = [(c, False) for c in chunks] + [(c, True) for c in chunks[:rep.scale(3, 60)]]

        def judge(part, cpp17, out, err):
            if out is None:
                if len(part) > 1:
                    for x in part:
                        judge([x], cpp17, *compile_part(([x], cpp17)))
                    return
                e = next((ln for ln in err.splitlines() if 'error:' in ln), err)[:300]
                rep.violation('compile', f'{part[0][0]}: the generated header does not compile: {e}', part[0][1])
                return
            want = []
            for lang, body_, ent, errs_ in part:
                want += [f'{lang}\t{k}\t{v.encode().hex()}' for k, v in ent]
                if errs_ or '[error_code]' in body_.splitlines():
                    want += ['ERR'] + [f'{lang}\t{numbers[k]}\t{v.encode().hex()}' for k, v in errs_]
            got = out.split('\n')[:-1]
            if got != want:
                a = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
                show = [(bytes.fromhex(w[a].split('\t')[2]) if a < len(w) and w[a].count('\t') == 2 else w[a:a + 1]) for w in (got, want)]
                rep.violation('value', f'{(want[a:a + 1] or got[a:a + 1])[0].split(chr(9))[:2]}: header holds {show[0]!r}, file holds {show[1]!r}',
                              '\n-----\n'.join(x[1] for x in part))
            for lang, _, ent, errs_ in part:
                for k, v in ent + errs_:
                    rep.count((v, bool(cpp17)))
                    rep.tick('strings_c++17' if cpp17 else 'strings_c++20')
                if len(rep.samples) < 8 and ent + errs_:
                    rep.sample(f'{lang}: {(ent + errs_)[-1]!r}')
        with cf.ThreadPoolExecutor(8) as ex:
            for (part, cpp17), (out, err) in zip(work, ex.map(compile_part, work)):
                judge(part, cpp17, out, err)
    rep.need('strings_c++20', 100)
    rep.need('strings_c++17', 40)
    rep.need('regenerations', 5)
