"""Compile-time strings and numbers hold exactly the text the expression that made them denotes, in both implementations."""
import subprocess

from vt import build, engine
from vt.spec import cstr

INTS = [('std::int8_t', -2**7, 2**7 - 1), ('std::uint8_t', 0, 2**8 - 1), ('std::int16_t', -2**15, 2**15 - 1),
        ('std::uint16_t', 0, 2**16 - 1), ('std::int32_t', -2**31, 2**31 - 1), ('std::uint32_t', 0, 2**32 - 1),
        ('std::int64_t', -2**63, 2**63 - 1), ('std::uint64_t', 0, 2**64 - 1), ('std::size_t', 0, 2**64 - 1)]
CHARS = ['a', 'Z', '0', '9', ' ', '-', '--', '=', '{}', '"', '\\', '?', '??/', '\n', '\t', '%s', '//', '/*', 'é', 'ß', '…', '日本', '🎈',
         'e\u0301', '👩\u200d👩', '\u202e', '\x01', '\x7f', ',', '(', ')', "'", '#', 'R"(', '\\0']


def text(r, hi):
    out = b''
    n = r.choice([0, 1, 1, 2, 3, 5, 8, 13, 30, hi])
    while True:
        c = bytes([r.randint(1, 255)]) if r.random() < .1 else r.choice(CHARS).encode()
        if len(out) + len(c) > n:
            break
        out += c
    return out


def lit(b):
    # octal escapes never run into the next character
    return cstr(b)


def number(r, t, lo, hi):
    k = r.random()
    if k < .3:
        v = r.choice([lo, lo + 1, hi, hi - 1, 0, 1, -1, 9, 10, -10, 99, 100, 101])
    elif k < .7:
        v = r.choice([-1, 1]) * (10 ** r.randint(0, 19) * r.randint(1, 9) + r.choice([0, 0, 1, -1, 10 ** r.randint(0, 9)]))
    else:
        v = r.randint(lo, hi)
    v = min(hi, max(lo, v))
    s = f'std::numeric_limits<{t}>::min()' if v == lo and lo < 0 else f'{v}{"ull" if lo == 0 else "ll"}'
    return v, f'static_cast<{t}>({s})'


class Gen:
    def __init__(self, r, cpp17, limit):
        self.r, self.cpp17, self.limit = r, cpp17, limit
        self.pre, self.n = [], 0
        self.kinds = []

    def ty(self, b):
        """A type naming the text."""
        r = self.r
        if len(b) == 1 and r.random() < .4:
            self.kinds.append('char')
            c = "static_cast<char>(%d)" % (b[0] if b[0] < 128 else b[0] - 256)
            return f'S_({c})' if self.cpp17 else f'ar::utility::str<{c}>'
        k = r.random()
        if k < .3 and (b or self.cpp17):
            self.n += 1
            v = f'v{self.n}'
            self.kinds.append('view')
            if self.cpp17:
                self.pre.append(f'constexpr auto {v} = std::string_view{{{lit(b)}, {len(b)}}};')
                return f'S_({v})'
            self.pre.append(f'constexpr auto {v} = std::array<char, {len(b)}>{{{", ".join("char(%d)" % x for x in b)}}};')
            return f'AR_STRING_SV({v})' if r.random() < .5 else f'ar::utility::str<{v}>'
        self.kinds.append('literal')
        if r.random() < .3:
            return f'AR_STRING({lit(b)})'
        return f'S_({lit(b)})' if self.cpp17 else f'decltype({lit(b)}_S)'

    def expr(self, d=0):
        """(C++ type expression, bytes)"""
        r = self.r
        k = r.random()
        if d > 2 or k < .3:
            b = text(r, self.limit if d == 0 else 20)
            return self.ty(b), b
        if k < .5:
            a, x = self.expr(d + 1)
            b, y = self.expr(d + 1)
            self.kinds.append('join')
            f = r.choice(['decltype(std::decay_t<{0}>{{}} + std::decay_t<{1}>{{}})', 'typename std::decay_t<{0}>::template append_t<{1}>'] +
                         ([] if self.cpp17 else ['ar::utility::str_concat<{0}, {1}>']))
            if r.random() < .5:   # the operator takes const lvalues too
                f = 'std::decay_t<decltype(std::declval<const {0}&>() + std::declval<const {1}&>())>'
            return f.format(a, b), x + y
        if k < .7:
            t, lo, hi = r.choice(INTS)
            v, s = number(r, t, lo, hi)
            self.kinds.append('number')
            return f'ar::utility::convert_integral_to_cts_t<{s}>', str(v).encode()
        if k < .85 or self.cpp17:
            n, c = r.choice([0, 1, 2, 7, 40, 100]), r.randint(1, 127)
            if n == 0 and not self.cpp17:
                n = 3
            self.kinds.append('repeat')
            return f'ar::utility::create_sequence_cts_t<{n}, static_cast<char>({c})>', bytes([c]) * n
        a, x = self.expr(d + 1)
        if len(x) < 2:
            return a, x
        p = r.randrange(len(x) - 1)
        n = r.randint(0, len(x) - 1 - p)
        self.kinds.append('cut')
        return f'std::decay_t<decltype(std::decay_t<{a}>::template substr<{p}, {n}>())>', x[p:p + n]


def tu(g, n):
    rows, want = [], []
    for i in range(n):
        t, b = g.expr()
        rows.append(f'    show<{t}>({i});')
        want.append(b)
    nums = []
    for i in range(n):
        t, lo, hi = g.r.choice(INTS)
        v, s = number(g.r, t, lo, hi)
        if v == lo and lo < 0:
            v, s = v + 1, f'static_cast<{t}>({v + 1}ll)'
        e = g.r.randint(0, len(str(hi)) - 1)
        rows.append(f'    {{ constexpr auto a = ar::math::abs({s}), d = ar::math::num_digits({s}), '
                    f'p = ar::math::pow<10>(static_cast<{t}>({e})); num({i}, a, d, p); }}')
        nums.append((abs(v), len(str(abs(v))), 10 ** e))
    out = '''#include "arg_router/arg_router.hpp"
#include <cstdio>
#include <span>
namespace ar = arg_router;
#ifdef AR_ENABLE_CPP20_STRINGS
using namespace ar::literals;
#endif
template <typename T> void show(int i)
{
    static_assert(ar::traits::is_compile_time_string_like_v<T>);
    static_assert(T::get().size() == T::size() && T::empty() == (T::size() == 0));
    const std::string_view s = T::get();
    std::printf("S %d %zu %d ", i, T::size(), static_cast<int>(T::empty()));
    for (auto c : s) { std::printf("%02x", static_cast<unsigned>(static_cast<unsigned char>(c))); }
    // evaluated by the compiler and by the program
    constexpr auto w = ar::utility::utf8::terminal_width(T::get());
    constexpr auto n = ar::utility::utf8::count(T::get());
    constexpr auto z = ar::utility::utf8::contains_whitespace(T::get());
    const auto m = std::string(s);
    std::printf(". %d\\n", static_cast<int>(w == ar::utility::utf8::terminal_width(m) && n == ar::utility::utf8::count(m) &&
        z == ar::utility::utf8::contains_whitespace(m)));
}
template <typename A, typename D, typename P> void num(int i, A a, D d, P p)
{
    std::printf("N %d %llu %d %llu\\n", i, static_cast<unsigned long long>(a), static_cast<int>(d), static_cast<unsigned long long>(p));
}
''' + '\n'.join(g.pre) + '\nint main()\n{\n' + '\n'.join(rows) + '\n}\n'
    return out, want, nums


def check(rep):
    rep.rule = ('random expressions over compile-time strings (literals, views, single characters, joins, cuts, repeats, integer texts) '
                'compiled with each implementation, their value printed and compared with the text the expression denotes; '
                'distinct = (implementation, expression text)')
    units = []
    for j in range(rep.scale(8, 64)):
        cpp17 = j % 2 == 1
        limit = [128, 128, 105, 250][j // 2 % 4]
        r = engine.rng_for(rep, 'cts', j)
        g = Gen(r, cpp17, limit - 2)
        src, want, nums = tu(g, rep.scale(70, 120))
        fl = ['-DAR_DISABLE_CPP20_STRINGS=true', f'-DAR_MAX_CTS_SIZE={limit}'] if cpp17 else []
        units.append((build.Unit(f'cts{j}', src, flags=build.PLAIN + fl + ['-fconstexpr-steps=100000000']), cpp17, want, nums, g))
    build.require(build.compile_all([u[0] for u in units]))
    for u, cpp17, want, nums, g in units:
        for k in g.kinds:
            rep.tick('expr_' + k)
        out = subprocess.run([u.exe], stdout=subprocess.PIPE, timeout=60).stdout.decode().split('\n')
        got = {}
        for l in out:
            f = l.split()
            if f:
                got[f[0], int(f[1])] = f[2:]
        name = 'integral sequence' if cpp17 else 'literal class'
        for i, b in enumerate(want):
            rep.count((cpp17, b))
            w = [str(len(b)), str(int(not b)), b.hex() + '.', '1']
            x = got.get(('S', i))
            rep.tick('strings_' + ('17' if cpp17 else '20'))
            if x != w:
                ex = [l for l in u.src.split('\n') if l.endswith(f'({i});')]
                rep.violation(f'text:{cpp17}', f'[{name}] the text {b!r} was expected, observed size/empty/hex {x}\n  {ex[:1]}', u.src)
            elif len(b) > 4 and i % 40 == 3:
                rep.sample(f'[{name}] {b!r}')
        for i, t in enumerate(nums):
            x = got.get(('N', i))
            rep.count(('n', cpp17, t))
            rep.tick('numbers')
            if x != [str(y) for y in t]:
                ex = [l for l in u.src.split('\n') if f'num({i}, a' in l]
                rep.violation(f'math:{cpp17}', f'abs, digits, power {t} expected, observed {x}\n  {ex[:1]}', u.src)
    for k in ('char', 'view', 'literal', 'join', 'number', 'repeat', 'cut'):
        rep.need('expr_' + k, 20)
    rep.need('numbers', 400)
