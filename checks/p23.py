"""Conversion of one value token into each supported value type."""
import concurrent.futures as cf
import ctypes
import os
import random
import re
import struct
import subprocess
import tempfile
from fractions import Fraction

from vt import build, engine, run

SRC = r'''#include "vt_main.hpp"
#include <filesystem>
#include <list>
#include <deque>
namespace vt {
struct made { explicit made(std::string_view s) : text(s) {} std::string text; };
template <typename T> std::string show(const T& v) {
    if constexpr (std::is_same_v<T, bool>) { return v ? "true" : "false"; }
    else if constexpr (std::is_same_v<T, char>) { return "c" + std::to_string(static_cast<int>(static_cast<unsigned char>(v))); }
    else if constexpr (std::is_integral_v<T>) { return std::to_string(v); }
    else if constexpr (std::is_floating_point_v<T>) { char b[80]; std::snprintf(b, sizeof b, "%La", static_cast<long double>(v)); return b; }
    else if constexpr (std::is_same_v<T, made>) { return "s" + hex(v.text); }
    else if constexpr (std::is_same_v<T, std::filesystem::path>) { return "s" + hex(v.native()); }
    else if constexpr (is_opt<T>::value) { return v ? "o" + show(*v) : "none"; }
    else if constexpr (std::is_same_v<T, theme>) { return std::to_string(static_cast<int>(v)); }
    else { return "s" + hex(std::string_view{v}); }
}
template <typename T> std::string conv(std::string_view t) {
    try { return "V\t" + show(parser<T>::parse(t)); }
    catch (const multi_lang_exception& e) {
        auto r = std::string{"E\t"} + (e.ec() == error_code::failed_to_parse ? "failed" : "other");
        for (const auto& x : e.tokens()) { r += std::string{","} + (x.prefix == parsing::prefix_type::none ? "n" : "p") + ":" + hex(x.name); }
        return r;
    }
    catch (const std::exception& e) { return std::string{"X\t"} + e.what(); }
}
}
int main(int, char** argv) {
    auto in = std::ifstream{argv[1]};
    auto* out = std::fopen(argv[2], "w");
    auto type = std::string{}, text = std::string{}, line = std::string{};
    while (std::getline(in, line)) {
        const auto p = line.find(' ');
        const auto type = line.substr(0, p);
        const auto text = vt::unhex(line.substr(p + 1));
        const auto st = vt::token_store{{text}, false};
        const auto v = st.views[0];
        auto r = std::string{"?"};
#define T(n, ...) if (type == n) { r = vt::conv<__VA_ARGS__>(v); }
        T("i8", std::int8_t) T("u8", std::uint8_t) T("i16", std::int16_t) T("u16", std::uint16_t)
        T("i32", std::int32_t) T("u32", std::uint32_t) T("i64", std::int64_t) T("u64", std::uint64_t)
        T("long", long) T("ulong", unsigned long) T("ll", long long) T("ull", unsigned long long)
        T("f32", float) T("f64", double) T("f80", long double) T("bool", bool) T("char", char)
        T("sv", std::string_view) T("str", std::string) T("made", vt::made) T("path", std::filesystem::path)
        T("oi32", std::optional<std::int32_t>) T("ou8", std::optional<std::uint8_t>) T("obool", std::optional<bool>)
        T("vi16", std::vector<std::int16_t>) T("vu8", std::vector<std::uint8_t>) T("vstr", std::vector<std::string>)
        T("li64", std::list<std::int64_t>) T("dbool", std::deque<bool>) T("vf64", std::vector<double>)
        T("theme", vt::theme) T("vtheme", std::vector<vt::theme>)
#undef T
        std::fprintf(out, "%s\n", r.c_str());
    }
    std::fclose(out);
}
'''
INTS = {}
for b in (8, 16, 32, 64):
    INTS[f'i{b}'] = (-(1 << b - 1), (1 << b - 1) - 1)
    INTS[f'u{b}'] = (0, (1 << b) - 1)
INTS.update(long=INTS['i64'], ulong=INTS['u64'], ll=INTS['i64'], ull=INTS['u64'], vi16=INTS['i16'], vu8=INTS['u8'],
            li64=INTS['i64'], oi32=INTS['i32'], ou8=INTS['u8'])
TRUE = {b'true', b'yes', b'y', b'on', b'1', b'enable'}
FALSE = {b'false', b'no', b'n', b'off', b'0', b'disable'}
FLT = re.compile(rb'^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?\Z')
FLOATS = {'f32': (24, -149, 128), 'f64': (53, -1074, 1024), 'vf64': (53, -1074, 1024), 'f80': (64, -16445, 16384)}


def nearest(frac, prec, emin, emax):
    """Round to nearest even; None on overflow."""
    if frac == 0:
        return Fraction(0)
    s, a = (-1 if frac < 0 else 1), abs(frac)
    e = a.numerator.bit_length() - a.denominator.bit_length()
    if Fraction(2) ** e > a:
        e -= 1
    q = max(e - prec + 1, emin)
    u = Fraction(2) ** q
    n = a / u
    k = n.numerator // n.denominator
    r = n - k
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and k % 2):
        k += 1
    v = k * u
    return None if v >= Fraction(2) ** emax else s * v


def from_hexfloat(t):
    m = re.match(r'^(-?)0x([0-9a-f]+)(?:\.([0-9a-f]+))?p([+-]\d+)\Z', t)
    if not m:
        return None
    f = m.group(3) or ''
    v = Fraction(int(m.group(2) + f, 16), 16 ** len(f)) * Fraction(2) ** int(m.group(4))
    return -v if m.group(1) else v


def expect(ty, t):
    """('V', text) or 'E', or None where the documentation does not say."""
    if ty in INTS:
        lo, hi = INTS[ty]
        if not re.match(rb'^[+-]?[0-9]+\Z', t) or not lo <= int(t) <= hi:
            return 'E'
        return 'V', ('o' if ty[0] == 'o' else '') + str(int(t))
    if ty in ('bool', 'obool', 'dbool'):
        o = 'o' if ty[0] == 'o' else ''
        return ('V', o + 'true') if t in TRUE else ('V', o + 'false') if t in FALSE else 'E'
    if ty in ('theme', 'vtheme'):
        return {b'NONE': ('V', '0'), b'DARK': ('V', '1'), b'LIGHT': ('V', '2')}.get(t, 'E')
    if ty == 'char':
        return ('V', f'c{t[0]}') if len(t) == 1 else 'E'
    if ty in ('sv', 'str', 'made', 'path', 'vstr'):
        return 'V', 's' + t.hex()
    raise AssertionError(ty)


def number_text(rng, lo, hi):
    r = rng.random()
    if r < .5:
        v = rng.choice([lo, hi, 0, 1, -1, lo - 1, hi + 1, lo + 1, hi - 1, hi * 2, -hi, hi + 2 ** rng.randint(0, 70), lo - 2 ** rng.randint(0, 70),
                        2 ** 32, 2 ** 31, -2 ** 31, 2 ** 64, 2 ** 63, -2 ** 63, 2 ** 64 + 5, 256, 255, -128, 128])
    else:
        v = rng.randint(lo - 3, hi + 3)
    s = str(v)
    if rng.random() < .15:
        s = ('-' if v < 0 else rng.choice(['', '+'])) + '0' * rng.randint(1, 30) + str(abs(v))
    if rng.random() < .12:
        i = rng.randint(0, len(s))
        s = s[:i] + rng.choice([' ', '-', '+', '.', 'e', 'x', ',', '\0', '٣', 'é', '0', '９', '\t', '\n', "'", '_', 'u', 'L']) + s[i:]
    return s.encode()


def float_text(rng):
    r = rng.random()
    if r < .25:
        s = repr(struct.unpack('<d', rng.randbytes(8))[0])
        if 'n' in s:
            s = '1.5'
    elif r < .4:
        s = repr(rng.uniform(-1e3, 1e3))
    elif r < .6:
        s = str(rng.randint(-10 ** rng.randint(1, 30), 10 ** 20)) + '.' + ''.join(rng.choice('0123456789') for _ in range(rng.randint(0, 25)))
    elif r < .8:
        s = rng.choice(['', '-', '+']) + ''.join(rng.choice('0123456789') for _ in range(rng.randint(0, 20))) + \
            rng.choice(['.', '', '.']) + ''.join(rng.choice('0123456789') for _ in range(rng.randint(0, 8))) + \
            rng.choice(['', '', 'e', 'E']) + rng.choice(['', '+', '-']) + str(rng.randint(0, 340))
    else:
        s = rng.choice(['', ' 1', '1 ', '1.5.2', '1e', 'e5', '.', '-', '+', '--1', '1,5', '0x10', '1f', '1e5e5', '+-1', '1_0', '5.', '.5', '-0', '0',
                        '3.4028235e38', '3.4028236e38', '1e-45', '7e-46', '1e400', '-1e400', '1e-400', '1.7976931348623157e308',
                        '179769313486231580793e289', '4.9e-324', '2.4e-324', '2.5e-324', '9007199254740993', '16777217', '0.1', '1e4932', '1e5000',
                        '1.0000000596046448', '1.00000005960464477539062500001'])
    return s.encode()


def check(rep):
    rep.rule = ('each text is converted by the parser of each value type, under ASan and UBSan, and compared with exact '
                'integer / rational arithmetic; all 8 and 16 bit values are enumerated; distinct = (type, text)')
    u = build.Unit('values', SRC, flags=build.SAN)
    build.require(build.compile_all([u]))
    work = []
    for ty in ('i8', 'u8', 'vu8', 'ou8'):
        work += [(ty, str(v).encode()) for v in range(-400, 700)]
    for ty in ('i16', 'u16', 'vi16'):
        work += [(ty, str(v).encode()) for v in (range(-33000, 66000) if rep.thorough else range(-33000, 66000, 7))]
        work += [(ty, str(v).encode()) for c in (-32768, 32767, 65535, 0) for v in range(c - 300, c + 300)]
    rng = engine.rng_for(rep, 'values')
    for ty in INTS:
        work += [(ty, number_text(rng, *INTS[ty])) for _ in range(rep.scale(3000, 60000))]
    words = list(TRUE | FALSE) + [b'', b'True', b'YES', b't', b'f', b'2', b'-1', b'00', b'01', b'enabled', b' yes', b'yes ', b'NONE', b'DARK',
                                  b'LIGHT', b'dark', b'DAR', b'DARKK', b'a', b'\0', b'\xff', b'ab', '\u00e9'.encode(), b'tru', b'on\0', b'o']
    for ty in ('bool', 'obool', 'dbool', 'theme', 'vtheme', 'char', 'sv', 'str', 'made', 'path', 'vstr'):
        work += [(ty, w) for w in words]
        for _ in range(rep.scale(300, 5000)):
            work.append((ty, bytes(rng.randrange(256) for _ in range(rng.randint(0, 30)))))
            work.append((ty, rng.choice(words) + rng.choice([b'', b'', b'a', b' '])))
    work += [('char', bytes([i])) for i in range(256)]
    for ty in FLOATS:
        work += [(ty, float_text(rng)) for _ in range(rep.scale(5000, 60000))]
    rng.shuffle(work)

    def go(chunk):
        with tempfile.TemporaryDirectory(prefix='vt_') as d:
            with open(os.path.join(d, 'in'), 'w') as f:
                f.write(''.join(f'{ty} {t.hex()}\n' for ty, t in chunk))
            p = subprocess.run([u.exe, 'in', 'out'], cwd=d, stderr=subprocess.PIPE, timeout=600, env={**os.environ, **run.SAN_ENV})
            lines = open(os.path.join(d, 'out')).read().split('\n')[:-1]
            return lines, p.returncode, p.stderr.decode('utf-8', 'replace')
    n = (len(work) + 7) // 8
    chunks = [work[i:i + n] for i in range(0, len(work), n)]
    with cf.ThreadPoolExecutor(8) as ex:
        for chunk, (lines, rc, err) in zip(chunks, ex.map(go, chunks)):
            if rc != 0:
                ty, t = chunk[min(len(lines), len(chunk) - 1)]
                rep.violation(f'{ty}:crash', f'parser<{ty}> near {t!r}: ' + run._summary(err), f'{ty} {t.hex()}\n{err[:3000]}')
            for (ty, t), got in zip(chunk, lines):
                rep.count((ty, t))
                if ty in FLOATS:
                    ok, want = judge_float(ty, t, got)
                else:
                    want = expect(ty, t)
                    ok = got == 'V\t' + want[1] if want != 'E' else is_error(got, t)
                rep.tick('accepted' if got.startswith('V') else 'rejected')
                if not ok:
                    rep.violation(f'{ty}:{got[0]}', f'parser<{ty}>({t!r}) gave {got!r}, expected {want!r}', f'{ty} {t.hex()}\n')
                elif len(rep.samples) < 12 and rng.random() < .0005:
                    rep.sample(f'parser<{ty}>({t!r}) => {got!r}')
    rep.need('accepted', 10000)
    rep.need('rejected', 3000)


def is_error(got, t):
    """failed_to_parse carrying exactly the offending token."""
    return got == f'E\tfailed,n:{t.hex()}'


def judge_float(ty, t, got):
    prec, emin, emax = FLOATS[ty]
    if not FLT.match(t):
        if re.match(rb'^[+-]?(inf|nan|infinity)', t, re.I):
            return True, None
        return is_error(got, t), 'E'
    m = re.match(rb'^([+-]?)([0-9]*)\.?([0-9]*)(?:[eE]([+-]?[0-9]+))?\Z', t)
    ex = int(m.group(4) or 0)
    if abs(ex) > 20000:
        return True, None
    v = Fraction(int((m.group(2) + m.group(3)) or b'0')) * Fraction(10) ** (ex - len(m.group(3)))
    if m.group(1) == b'-':
        v = -v
    want = nearest(v, prec, emin, emax)
    if want is None:
        return is_error(got, t), 'E'
    if got.startswith('V\t'):
        return from_hexfloat(got[2:]) == want, str(float(want)) if prec < 60 else 'nearest'
    # a non zero number that underflows to zero may be refused
    return want == 0 and v != 0 and is_error(got, t), str(want)
