// Text monitor: reports what the library's UTF-8 functions say about each input string.
#pragma once
#include "vt_main.hpp"

namespace vt
{
template <typename It, typename F>
void pieces(std::string& o, It it, It end, std::string_view base, std::size_t limit, F f)
{
    // Offsets and lengths relative to the input; bounded, so that a stuck iterator is seen
    auto n = std::size_t{0};
    for (; it != end; ++it) {
        if (++n > limit) {
            o += "!stuck";
            return;
        }
        const auto v = *it;
        if (n != 1) {
            o += ",";
        }
        o += std::to_string(v.data() - base.data()) + "+" + std::to_string(v.size());
        o += f(v);
    }
}

inline std::string text_report(std::string_view s, const std::vector<std::size_t>& widths)
{
    namespace u = utility::utf8;
    const auto none = [](std::string_view) { return std::string{}; };
    auto o = std::string{};
    const auto limit = s.size() + 2;
    pieces(o, u::code_point::iterator{s}, u::code_point::iterator{}, s, limit, [](std::string_view v) {
        const auto d = u::code_point::decode(v);
        return d ? ":" + std::to_string(*d) + (u::is_whitespace(v) ? "w" : "") : std::string{"?"};
    });
    o += "\t";
    pieces(o, u::iterator{s}, u::iterator{}, s, limit, none);
    o += "\t" + std::to_string(u::code_point::count(s)) + "," + std::to_string(u::count(s)) + "," +
         std::to_string(u::terminal_width(s)) + "," + std::to_string(u::contains_whitespace(s) ? 1 : 0) + "," +
         std::to_string(u::code_point::size(s));
    for (const auto w : widths) {
        o += "\t" + std::to_string(w) + "=";
        pieces(o, u::line_iterator{s, w}, u::line_iterator{}, s, limit, none);
    }
    // Post increment and copies walk the same way
    {
        auto a = u::iterator{s};
        auto b = u::line_iterator{s, 7};
        auto n = std::size_t{0};
        auto ok = true;
        while (a != u::iterator{} && n++ < limit) {
            const auto c = a;
            const auto d = a++;
            ok = ok && (c == d) && (*c == *d) && (c != a);
        }
        n = 0;
        while (b != u::line_iterator{} && n++ < limit) {
            const auto c = b;
            const auto d = b++;
            ok = ok && (c == d) && (*c == *d) && (c != b);
        }
        o += ok ? "\tok" : "\tITER";
    }
    return o;
}

inline int run_text(int argc, char** argv)
{
    if (argc < 3) {
        return 3;
    }
    auto in = std::ifstream{argv[1]};
    auto* out = std::fopen(argv[2], "w");
    auto line = std::string{};
    while (std::getline(in, line)) {
        // "t <hex> <width>..."  or "d <hex> <hex>" (edit distance) or "a <hex> <hex>" (code point range)
        auto k = std::vector<std::string>{};
        auto p = std::size_t{0};
        while (true) {
            const auto q = line.find(' ', p);
            k.push_back(line.substr(p, q == std::string::npos ? q : q - p));
            if (q == std::string::npos) {
                break;
            }
            p = q + 1;
        }
        if (k[0] == "t") {
            const auto st = token_store{{k[1] == "_" ? std::string{} : unhex(k[1])}, false};
            auto w = std::vector<std::size_t>{};
            for (std::size_t i = 2; i < k.size(); ++i) {
                w.push_back(std::stoull(k[i]));
            }
            std::fprintf(out, "%s\n", text_report(st.views[0], w).c_str());
        } else if (k[0] == "d") {
            const auto st = token_store{{k[1] == "_" ? "" : unhex(k[1]), k[2] == "_" ? "" : unhex(k[2])}, false};
            std::fprintf(out, "%zu\n", utility::utf8::levenshtein_distance(st.views[0], st.views[1]));
        } else {
            const auto last = static_cast<std::uint32_t>(std::stoul(k.at(2), nullptr, 16));
            for (auto c = static_cast<std::uint32_t>(std::stoul(k.at(1), nullptr, 16)); c < last; ++c) {
                auto s = std::string{};
                if (c < 0x80) {
                    s += static_cast<char>(c);
                } else if (c < 0x800) {
                    s += static_cast<char>(0xC0 | (c >> 6));
                    s += static_cast<char>(0x80 | (c & 63));
                } else if (c < 0x10000) {
                    s += static_cast<char>(0xE0 | (c >> 12));
                    s += static_cast<char>(0x80 | ((c >> 6) & 63));
                    s += static_cast<char>(0x80 | (c & 63));
                } else {
                    s += static_cast<char>(0xF0 | (c >> 18));
                    s += static_cast<char>(0x80 | ((c >> 12) & 63));
                    s += static_cast<char>(0x80 | ((c >> 6) & 63));
                    s += static_cast<char>(0x80 | (c & 63));
                }
                namespace u = utility::utf8;
                const auto d = u::code_point::decode(s);
                const auto ok = d && *d == c && u::code_point::size(s) == s.size() && u::code_point::count(s) == 1 &&
                                *u::iterator{s} == s && u::count(s) == 1;
                std::fprintf(out, "%x %d %zu %d\n", c, ok ? 1 : 0, u::terminal_width(s), u::is_whitespace(s) ? 1 : 0);
            }
        }
    }
    std::fclose(out);
    return 0;
}
}  // namespace vt
