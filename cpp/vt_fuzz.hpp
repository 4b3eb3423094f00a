// Coverage guided byte level inputs (libFuzzer): bytes are cut into tokens, parsed through one of the
// parse overloads, and the observation is checked on line.
#pragma once
#include "vt_main.hpp"

namespace vt
{
inline const char* const dictionary[] = {"main",  "sub",     "--xx", "-x",      "--",        "-a",  "--aa", "-v",
                                         "-vv",   "-av",    "-n=",  "--num=5", "--num",     "--pi", "1.5",  "--li",
                                         ";",     "-l",     "--al", "-A",      "--dd",      "--ints", "7",  "--colour",
                                         "--color→q", "--info", "-i",   "-vvvv",   "--nmu", "-",    "",     "\xc3"};

[[noreturn]] inline void fail(const char* what)
{
    std::fprintf(stderr, "MONITOR: %s\n", what);
    std::abort();
}

template <typename Root>
int fuzz_one(const Root& root, const std::uint8_t* data, std::size_t size)
{
    if (size < 1) {
        return 0;
    }
    auto k = kase{"0", "0", "rcat"[data[0] & 3], 'k', 'n', {}};
    auto cur = std::string{};
    auto open = false;
    for (std::size_t i = 1; i < size; ++i) {
        const auto c = data[i];
        if (c == 0xF8 || c == '\n') {
            k.toks.push_back(cur);
            cur.clear();
            open = false;
        } else if (c == 0xF9 && i + 1 < size) {
            ++i;
            cur += dictionary[data[i] % (sizeof dictionary / sizeof *dictionary)];
            open = true;
        } else {
            cur += static_cast<char>(c);
            open = true;
        }
    }
    if (open) {
        k.toks.push_back(cur);
    }
    if (k.api == 'a') {
        for (auto& t : k.toks) {
            t = t.substr(0, t.find('\0'));
        }
    }
    const auto a = observe(root, k);
    const auto calls = route_calls;
    if (a.find("\tSE\t") != std::string::npos || a.find("\tUE\t") != std::string::npos) {
        fail("an exception other than parse_exception left parse");
    }
    if ((a.find("\tOK\t") != std::string::npos) != (calls == 1)) {
        fail("router calls do not match the outcome");
    }
    k.api = k.api == 'r' ? 'c' : 'r';
    if (observe(root, k) != a) {
        fail("repeating the parse through another overload differs");
    }
    return 0;
}
}  // namespace vt
