// Probe runtime: replays recorded command lines against a real arg_router tree and logs what was
// observed at the library's boundary (router calls with their arguments, or the exception thrown).
#pragma once
#include "arg_router/arg_router.hpp"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iterator>
#include <list>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <typeinfo>
#include <variant>
#include <vector>

#if defined(__has_feature)
#    if __has_feature(address_sanitizer)
#        define VT_ASAN 1
#        include <sanitizer/allocator_interface.h>
#    endif
#endif

using namespace arg_router;
#ifdef AR_ENABLE_CPP20_STRINGS
using namespace arg_router::literals;
#endif
namespace ar = arg_router;
namespace arp = arg_router::policy;
namespace ard = arg_router::dependency;

#ifndef VT_JITTER
#    define VT_JITTER() static_cast<void>(0)
#endif

namespace vt
{
enum class theme { NONE, DARK, LIGHT };
enum class level { L0, L1, L2, L3, L4, L5 };

inline std::int32_t parse_hex(std::string_view s)
{
    VT_JITTER();
    if (s.empty() || s.size() > 6) {
        throw multi_lang_exception{error_code::failed_to_parse,
                                   parsing::token_type{parsing::prefix_type::none, s}};
    }
    auto r = std::int32_t{0};
    for (auto c : s) {
        if (c >= '0' && c <= '9') {
            r = r * 16 + (c - '0');
        } else if (c >= 'a' && c <= 'f') {
            r = r * 16 + (c - 'a' + 10);
        } else {
            throw multi_lang_exception{error_code::failed_to_parse,
                                       parsing::token_type{parsing::prefix_type::none, s}};
        }
    }
    return r;
}

inline std::string hex(std::string_view s)
{
    static const char* d = "0123456789abcdef";
    auto r = std::string{};
    for (unsigned char c : s) {
        r += d[c >> 4];
        r += d[c & 15];
    }
    return r;
}

template <typename T>
struct is_vec : std::false_type {};
template <typename T, typename A>
struct is_vec<std::vector<T, A>> : std::true_type {};
template <typename T>
struct is_var : std::false_type {};
template <typename... T>
struct is_var<std::variant<T...>> : std::true_type {};
template <typename T>
struct is_opt : std::false_type {};
template <typename T>
struct is_opt<std::optional<T>> : std::true_type {};

template <typename T>
void put(std::string& o, const T& v)
{
    if constexpr (std::is_same_v<T, bool>) {
        o += v ? "b1" : "b0";
    } else if constexpr (std::is_integral_v<T>) {
        o += (std::is_signed_v<T> ? "i" : "u") + std::to_string(sizeof(T) * 8) + ":" +
             std::to_string(v);
    } else if constexpr (std::is_same_v<T, double>) {
        auto u = std::uint64_t{};
        std::memcpy(&u, &v, 8);
        char b[32];
        std::snprintf(b, sizeof b, "f64:%016llx", static_cast<unsigned long long>(u));
        o += b;
    } else if constexpr (std::is_same_v<T, std::string_view>) {
        o += "s:" + hex(v);
    } else if constexpr (std::is_same_v<T, std::string>) {
        o += "S:" + hex(v);
    } else if constexpr (std::is_same_v<T, theme>) {
        o += "t:" + std::to_string(static_cast<int>(v));
    } else if constexpr (std::is_same_v<T, level>) {
        o += "l:" + std::to_string(static_cast<int>(v));
    } else if constexpr (is_vec<T>::value) {
        o += "[";
        auto first = true;
        for (const auto& e : v) {
            if (!first) {
                o += ",";
            }
            first = false;
            put(o, e);
        }
        o += "]";
    } else if constexpr (is_var<T>::value) {
        o += "v" + std::to_string(v.index()) + "(";
        std::visit([&](const auto& e) { put(o, e); }, v);
        o += ")";
    } else if constexpr (is_opt<T>::value) {
        if (v) {
            o += "o(";
            put(o, *v);
            o += ")";
        } else {
            o += "o-";
        }
    } else {
        o += "?";
    }
}

struct router_boom {};

inline thread_local std::string routes;
inline thread_local int route_calls = 0;
inline thread_local char throw_in_router = 'n';

template <typename... A>
void route(int id, A... a)
{
    VT_JITTER();
    ++route_calls;
#ifdef VT_TRACE
    trace += "r" + std::to_string(id) + " ";
#endif
    routes += "r" + std::to_string(id) + "(";
    auto first = true;
    ((routes += (first ? "" : ";"), first = false, put(routes, a)), ...);
    routes += ")";
    switch (throw_in_router) {
    case 'b': throw router_boom{};
    case 's': throw std::logic_error{"router boom"};
    case 'p': throw parse_exception{"router boom"};
    default: break;
    }
}

inline void route_help(int id, std::string_view text)
{
    ++route_calls;
    routes += "r" + std::to_string(id) + "(h:" + hex(text) + ")";
}

struct kase {
    std::string id;
    std::string en;
    char api;    // r: range, c: container, a: argc/argv, t: token_type vector
    char root;   // k: keep (shared root), f: fresh root
    char boom;   // b: router throws, n: not
    std::vector<std::string> toks;
};

inline std::string unhex(std::string_view h)
{
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    auto r = std::string{};
    for (std::size_t i = 0; i + 1 < h.size(); i += 2) {
        r += static_cast<char>(v(h[i]) * 16 + v(h[i + 1]));
    }
    return r;
}

inline kase read_case(const std::string& line)
{
    auto k = kase{};
    auto parts = std::vector<std::string>{};
    std::size_t p = 0;
    while (true) {
        auto q = line.find(' ', p);
        parts.push_back(line.substr(p, q == std::string::npos ? q : q - p));
        if (q == std::string::npos) {
            break;
        }
        p = q + 1;
    }
    k.id = parts.at(0);
    k.en = parts.at(1);
    k.api = parts.at(2).at(0);
    k.root = parts.at(2).at(1);
    k.boom = parts.at(2).at(2);
    for (std::size_t i = 3; i < parts.size(); ++i) {
        k.toks.push_back(parts[i] == "_" ? std::string{} : unhex(parts[i]));
    }
    return k;
}

// Exact sized heap copies without a terminator, so that any over-read is seen by the sanitizer
struct token_store {
    std::vector<std::unique_ptr<char[]>> mem;
    std::vector<std::string_view> views;
    std::vector<char*> argv;

    explicit token_store(const std::vector<std::string>& toks, bool c_str)
    {
        if (c_str) {
            add("prog", true);
        }
        for (const auto& t : toks) {
            add(t, c_str);
        }
        argv.push_back(nullptr);
    }
    void add(const std::string& t, bool c_str)
    {
        auto m = std::unique_ptr<char[]>(new char[t.size() + (c_str ? 1 : 0)]);
        std::memcpy(m.get(), t.data(), t.size());
        if (c_str) {
            m[t.size()] = 0;
        }
        views.emplace_back(m.get(), t.size());
        argv.push_back(m.get());
        mem.push_back(std::move(m));
    }
};

#ifdef VT_APIS
// The least a range of tokens can be: single pass, elements by value
struct once_iter {
    using iterator_category = std::input_iterator_tag;
    using value_type = std::string_view;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = std::string_view;
    const std::vector<std::string_view>* v;
    std::size_t* at;
    bool stop;
    std::string_view operator*() const { return v->at(*at); }
    once_iter& operator++()
    {
        ++*at;
        return *this;
    }
    void operator++(int) { ++*at; }
    friend bool operator==(const once_iter& a, const once_iter& b) { return a.done() == b.done(); }
    friend bool operator!=(const once_iter& a, const once_iter& b) { return !(a == b); }
    bool done() const { return stop || *at == v->size(); }
};

// A user's own string type
struct own_string {
    std::string_view s;
    operator std::string_view() const { return s; }
};
#endif

template <typename Root>
std::string observe(const Root& root, const kase& k)
{
    routes.clear();
    route_calls = 0;
#ifdef VT_TRACE
    trace.clear();
#endif
    throw_in_router = k.boom;
    auto status = std::string{};
    try {
        auto store = token_store{k.toks, k.api == 'a'};
        switch (k.api) {
        case 'z': root.parse(0, store.argv.data()); break;
        case 'a': root.parse(static_cast<int>(k.toks.size() + 1), store.argv.data()); break;
        case 'c': root.parse(store.views); break;
        case 't': {
            auto v = ar::vector<parsing::token_type>{};
            for (auto s : store.views) {
                v.emplace_back(parsing::prefix_type::none, s);
            }
            root.parse(std::move(v));
            break;
        }
#ifdef VT_APIS
        case 's': root.parse(k.toks); break;
        case 'l': root.parse(std::list<std::string_view>(store.views.begin(), store.views.end())); break;
        case 'd': {
            const auto d = std::deque<std::string>(k.toks.begin(), k.toks.end());
            root.parse(d.cbegin(), d.cend());
            break;
        }
        case 'i': {
            auto at = std::size_t{0};
            root.parse(once_iter{&store.views, &at, false}, once_iter{&store.views, &at, true});
            break;
        }
        case 'm': {
            auto p = std::vector<const char*>{};
            for (const auto& t : k.toks) {
                p.push_back(t.c_str());
            }
            root.parse(p.data(), p.data() + p.size());
            break;
        }
        case 'o': {
            auto o = std::vector<own_string>{};
            for (auto v : store.views) {
                o.push_back({v});
            }
            root.parse(o);
            break;
        }
        case 'e': {
            // Views into one buffer, directly behind each other
            auto all = std::string{};
            for (const auto& t : k.toks) {
                all += t;
            }
            auto v = std::vector<std::string_view>{};
            auto p = std::size_t{0};
            for (const auto& t : k.toks) {
                v.push_back(std::string_view{all}.substr(p, t.size()));
                p += t.size();
            }
            root.parse(v);
            break;
        }
#endif
        default: root.parse(store.views.begin(), store.views.end());
        }
        status = "OK\t";
    } catch (const parse_exception& e) {
        status = "PE\t" + hex(e.what());
    } catch (const router_boom&) {
        status = "RB\t";
    } catch (const std::exception& e) {
        status = std::string{"SE\t"} + hex(std::string{typeid(e).name()} + ": " + e.what());
    } catch (...) {
        status = "UE\t";
    }
    return std::to_string(route_calls) + "\t" + (routes.empty() ? "-" : routes) + "\t" + status
#ifdef VT_TRACE
           + "\tTRACE " + trace
#endif
        ;
}

template <typename Make>
int run(int argc, char** argv, Make make)
{
    if (argc < 3) {
        return 3;
    }
    using ptr = decltype(make(static_cast<const bool*>(nullptr)));
    auto in = std::ifstream{argv[1]};
    auto* out = std::fopen(argv[2], "w");
    if (!in || (out == nullptr)) {
        return 3;
    }
    auto roots = std::vector<std::pair<std::string, ptr>>{};
    auto build = [&](const std::string& en) {
        bool e[16] = {};
        for (std::size_t i = 0; i < en.size() && i < 16; ++i) {
            e[i] = en[i] == '1';
        }
        return make(e);
    };
    auto line = std::string{};
    while (std::getline(in, line)) {
        if (line.empty()) {
            continue;
        }
        const auto k = read_case(line);
        auto text = std::string{};
        if (k.root == 'h') {
            // Root level help text
            auto r = build(k.en);
            auto status = std::string{};
            try {
                const auto plain = r->help();
                status = hex(plain);
                // Nor does it depend on what the program did with the stream before
                auto used = std::ostringstream{};
                used << std::setfill('*') << std::left << std::hex << std::showpos << std::uppercase;
                r->help(used);
                const auto styled = used.str();
                if (std::string_view{styled} != std::string_view{plain}) {
                    status = hex(styled);
                }
                text = "0\t-\tHELP\t" + status;
            } catch (const std::exception& e) {
                text = "0\t-\tSE\t" + hex(e.what());
            }
        } else if (k.root == 'f') {
            auto r = build(k.en);
            text = observe(*r, k);
        } else {
            const ptr* found = nullptr;
            for (const auto& r : roots) {
                if (r.first == k.en) {
                    found = &r.second;
                }
            }
            if (found == nullptr) {
                roots.emplace_back(k.en, build(k.en));
                found = &roots.back().second;
            }
#ifdef VT_COPY
            using root_type = std::decay_t<decltype(**found)>;
            if (k.root == 'y') {
                // A copy taken from the used root
                const auto copy = root_type{**found};
                text = observe(copy, k);
            } else if (k.root == 'v') {
                // The used root is moved to a new place and used there from now on
                const_cast<ptr&>(*found) = std::make_unique<root_type>(std::move(const_cast<root_type&>(**found)));
                text = observe(**found, k);
            } else
#endif
            text = observe(**found, k);
        }
#ifdef VT_ASAN
        // Bytes still allocated after a second, identical parse: everything lazily initialised exists
        auto leaked = 0ll;
        if (k.root == 'k') {
            const ptr* r = nullptr;
            for (const auto& x : roots) {
                if (x.first == k.en) {
                    r = &x.second;
                }
            }
            const auto before = static_cast<long long>(__sanitizer_get_current_allocated_bytes());
            {
                const auto again = observe(**r, k);
                if (again != text) {
                    text += "\tDIFFERS";
                }
            }
            leaked = static_cast<long long>(__sanitizer_get_current_allocated_bytes()) - before;
        }
        if (leaked != 0) {
            text += "\tLEAK" + std::to_string(leaked);
        }
#endif
        std::fprintf(out, "%s\t%s\n", k.id.c_str(), text.c_str());
        std::fflush(out);
    }
    std::fclose(out);
    return 0;
}
}  // namespace vt

template <>
struct arg_router::parser<vt::theme> {
    [[nodiscard]] static vt::theme parse(std::string_view t)
    {
        VT_JITTER();
        if (t == "NONE") {
            return vt::theme::NONE;
        }
        if (t == "DARK") {
            return vt::theme::DARK;
        }
        if (t == "LIGHT") {
            return vt::theme::LIGHT;
        }
        throw multi_lang_exception{error_code::failed_to_parse,
                                   parsing::token_type{parsing::prefix_type::none, t}};
    }
};
