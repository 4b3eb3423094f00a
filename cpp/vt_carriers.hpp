// Monitors of the carriers tokens and values travel in (token adapter, type erased value, dynamic
// string view, parse target): random operation histories compared, after every operation, with
// plain standard containers.
#pragma once
#include "vt_main.hpp"

#include <array>
#include <list>
#include <random>
#include <set>

namespace vt
{
struct machine {
    std::mt19937_64 rng;
    std::string trace;
    std::set<std::size_t> states;
    std::size_t ops = 0;
    const char* name;

    machine(const char* n, std::uint64_t seed) : rng{seed}, name{n} {}

    std::size_t pick(std::size_t n) { return n == 0 ? 0 : rng() % n; }
    void op(std::string text)
    {
        ++ops;
        trace += text + "; ";
        if (trace.size() > 1500) {
            trace.erase(0, 500);
        }
    }
    void state(const std::string& s) { states.insert(std::hash<std::string>{}(s)); }
    void fail(const std::string& what) const
    {
        std::printf("BAD\t%s\t%s\t%s\n", name, hex(what).c_str(), hex(trace).c_str());
        std::fflush(stdout);
        std::exit(0);
    }
    void expect(bool ok, const char* what) const
    {
        if (!ok) {
            fail(what);
        }
    }
    void report() const { std::printf("OK\t%s\t%zu\t%zu\n", name, ops, states.size()); }
};

// ---------------------------------------------------------------- token adapter
inline void tokens_machine(std::uint64_t seed, int rounds)
{
    using parsing::dynamic_token_adapter;
    using parsing::prefix_type;
    using parsing::token_type;
    auto m = machine{"tokens", seed};
    static const char* names[] = {"", "a", "b", "long", "x=y", "\xc3\xa9"};
    auto value = [&] {
        return token_type{static_cast<prefix_type>(m.pick(3)), names[m.pick(6)]};
    };
    for (auto round = 0; round < rounds; ++round) {
        m.trace.clear();
        auto p = ar::vector<token_type>{};
        auto u = ar::vector<token_type>{};
        auto model = std::vector<token_type>{};
        for (auto n = m.pick(4); n > 0; --n) {
            p.push_back(value());
        }
        for (auto n = m.pick(5); n > 0; --n) {
            u.push_back(value());
        }
        for (auto& x : p) model.push_back(x);
        for (auto& x : u) model.push_back(x);
        auto split = p.size();
        m.op("processed " + std::to_string(p.size()) + " unprocessed " + std::to_string(u.size()));
        auto a = dynamic_token_adapter{p, u};
        {
            auto q = p;
            auto w = u;
            auto same = a;
            auto other = dynamic_token_adapter{q, w};
            auto mixed = dynamic_token_adapter{p, w};
            m.expect(same == a && !(same != a) && other != a && !(other == a) && mixed != a && mixed != other,
                     "adapters are equal exactly if they share both containers");
            m.expect(model.empty() || (a.begin() != other.begin() && *a.begin() == *other.begin()),
                     "iterators of different adapters differ");
        }
        for (auto step = 0; step < 14; ++step) {
            const auto n = model.size();
            auto k = m.pick(n + 1);
            const auto sentinel = (k == n) && m.pick(2) == 0;
            auto at = [&](std::size_t i) { return a.begin() + static_cast<std::ptrdiff_t>(i); };
            auto it = sentinel ? a.end() : at(k);
            const auto where = sentinel ? std::string{"end"} : std::to_string(k);
            switch (m.pick(7)) {
            case 0:
            case 1: {
                const auto v = value();
                m.op("insert " + where);
                const auto r = a.insert(it, v);
                model.insert(model.begin() + k, v);
                split = std::max(split, k) + 1;
                m.expect(r == at(k) && *r == v, "insert does not return the inserted token's position");
                break;
            }
            case 2: {
                auto vs = std::vector<token_type>{};
                for (auto c = m.pick(4); c > 0; --c) {
                    vs.push_back(value());
                }
                m.op("insert " + where + " x" + std::to_string(vs.size()));
                const auto r = a.insert(it, vs.begin(), vs.end());
                model.insert(model.begin() + k, vs.begin(), vs.end());
                split = std::max(split, k) + vs.size();
                m.expect(r == at(k) && (vs.empty() || *r == vs.front()),
                         "range insert does not return the first inserted token's position");
                break;
            }
            case 3: {
                m.op("erase " + where);
                const auto r = a.erase(it);
                if (k < n) {
                    model.erase(model.begin() + k);
                    split -= k < split ? 1 : 0;
                    m.expect(r == at(k), "erase does not return the following token's position");
                }
                break;
            }
            case 4:
                m.op("transfer " + where);
                a.transfer(it);
                split = std::max(split, std::min(k + 1, n));
                break;
            case 5:
                if (k < n) {
                    const auto v = value();
                    m.op("set " + where);
                    it.set(v);
                    model[k] = v;
                    split = std::max(split, k + 1);
                }
                break;
            default: {
                m.op("iterate");
                auto i = std::size_t{0};
                for (auto j = a.begin(); j != a.end(); ++j, ++i) {
                    m.expect(i < n && *j == model[i] && j->name == model[i].name && a.begin()[i] == model[i],
                             "iteration does not visit the tokens in order");
                    auto c = j;
                    m.expect(c++ == j && c-- == j + 1 && c == j, "postfix operators");
                    m.expect(++c == j + 1 && --c == j, "prefix operators");
                    m.expect((a.begin() < j + 1) && (j + 1 > a.begin()) && j <= j && j >= j, "comparison");
                    m.expect((1 + j) - 1 == j, "offsets");
                    m.expect(!(j < j) && !(j > j) && !(j + 1 <= j) && !(j >= j + 1) && !(j + 1 < j) && !(j > j + 1),
                             "comparison is strict");
                    const auto d = static_cast<std::ptrdiff_t>(i);
                    m.expect(j - d == a.begin() && *(j - a.begin()) == model[i] && *(j - d) == model[0], "difference");
                    auto e = j;
                    m.expect(*(e -= d) == model[0] && *(e += d) == model[i] && j[-d] == model[0], "compound offsets");
                    m.expect(!(j != j) && !(j == a.end()) && j != a.end() && (i == 0 || j != a.begin()) && !(j == j + 1),
                             "equality");
                }
                m.expect(i == n, "iteration does not visit every token");
            }
            }
            m.expect(a.size() == model.size() && a.empty() == model.empty(), "size");
            m.expect(p.size() == split && p.size() + u.size() == model.size(),
                     "tokens are on the wrong side of the processed boundary");
            auto all = std::vector<token_type>(p.begin(), p.end());
            all.insert(all.end(), u.begin(), u.end());
            m.expect(all == model, "token lost, duplicated, altered or out of order");
            m.expect((a.begin() + static_cast<std::ptrdiff_t>(model.size())) == a.end(), "end");
            m.state(std::to_string(split) + "/" + std::to_string(model.size()) + m.trace.substr(m.trace.size() > 24 ? m.trace.size() - 24 : 0));
        }
    }
    m.report();
}

// ---------------------------------------------------------------- type erased value
template <std::size_t Size>
struct counted {
    // Knows its own address, so that any bytewise relocation shows
    inline static long live = 0;
    const counted* me = this;
    std::array<char, Size> pad{};
    int v = 0;
    counted() { ++live; }
    explicit counted(int x) : v{x} { ++live; }
    counted(const counted& o) : v{o.get()} { ++live; }
    counted(counted&& o) noexcept : v{o.get()} { ++live; }
    counted& operator=(const counted& o)
    {
        v = o.get();
        return *this;
    }
    ~counted()
    {
        if (me != this) {
            std::abort();
        }
        --live;
        v = -77;
        me = nullptr;
    }
    [[nodiscard]] int get() const { return me == this ? v : -1; }
};
struct counted_small {
    inline static long live = 0;
    int v = 0;
    counted_small() { ++live; }
    explicit counted_small(int x) : v{x} { ++live; }
    counted_small(const counted_small& o) : v{o.v} { ++live; }
    ~counted_small() { --live; v = -5; }
    [[nodiscard]] int get() const { return v; }
};

template <std::size_t Storage>
void any_machine(std::uint64_t seed, int rounds)
{
    using any = utility::unsafe_any_t<Storage>;
    auto m = machine{Storage == 8 ? "any8" : Storage == 16 ? "any16" : "any48", seed + Storage};
    constexpr auto slots = 6;
    constexpr auto kinds = 12;
    auto text = [](int v) { return std::string(static_cast<std::size_t>(v % 40), 'a' + static_cast<char>(v % 26)); };
    static const char* literals[] = {"", "x", "a literal that is longer than sixteen characters"};
    for (auto round = 0; round < rounds; ++round) {
        m.trace.clear();
        const auto live0 = counted<1>::live + counted<60>::live + counted_small::live;
        auto shared = std::make_shared<int>(7);
        {
            auto model = std::array<std::pair<int, int>, slots>{};
            model.fill({-1, 0});
            auto values = std::make_unique<std::array<any, slots>>();
            auto make = [&](int kind, int v) -> any {
                switch (kind) {
                case 0: return any{v};
                case 1: return any{static_cast<char>(v)};
                case 2: return any{v * .5};
                case 3: return any{std::string_view{literals[v % 3]}};
                case 4: return any{text(v)};
                case 5: return any{std::vector<int>(static_cast<std::size_t>(v % 9), v)};
                case 6: return any{counted<1>{v}};
                case 7: return any{counted<60>{v}};
                case 8: return any{counted_small{v}};
                case 9: return any{shared};
                case 10: return any{std::list<int>(static_cast<std::size_t>(v % 5), v)};
                default: return any{std::array<int, 9>{v, v, v, v, v, v, v, v, v}};
                }
            };
            auto same = [&](any& x, int kind, int v) -> bool {
                const auto& c = x;
                if (x.has_value() != (kind >= 0)) {
                    return false;
                }
                switch (kind) {
                case -1: return true;
                case 0: return x.template get<int>() == v && c.template get<int>() == v;
                case 1: return x.template get<char>() == static_cast<char>(v);
                case 2: return c.template get<double>() == v * .5;
                case 3: return c.template get<std::string_view>() == literals[v % 3];
                case 4: return x.template get<std::string>() == text(v) && c.template get<std::string>() == text(v);
                case 5: return c.template get<std::vector<int>>() == std::vector<int>(static_cast<std::size_t>(v % 9), v);
                case 6: return x.template get<counted<1>>().get() == v;
                case 7: return x.template get<counted<60>>().get() == v;
                case 8: return x.template get<counted_small>().get() == v;
                case 9: return x.template get<std::shared_ptr<int>>() == shared;
                case 10: return c.template get<std::list<int>>() == std::list<int>(static_cast<std::size_t>(v % 5), v);
                default: return (x.template get<std::array<int, 9>>()[8] == v);
                }
            };
            for (auto step = 0; step < 24; ++step) {
                const auto i = m.pick(slots);
                const auto j = m.pick(slots);
                const auto si = std::to_string(i);
                const auto sj = std::to_string(j);
                auto& x = (*values)[i];
                auto& y = (*values)[j];
                switch (m.pick(8)) {
                case 0:
                case 1:
                case 2: {
                    const auto kind = static_cast<int>(m.pick(kinds));
                    const auto v = static_cast<int>(m.pick(90));
                    m.op(si + " = value of kind " + std::to_string(kind));
                    x = make(kind, v);
                    model[i] = {kind, v};
                    break;
                }
                case 3:
                    m.op(si + " = copy of " + sj);
                    x = y;
                    model[i] = model[j];
                    break;
                case 4:
                    if (i != j) {
                        m.op(si + " = moved " + sj);
                        auto t = any{std::move(y)};
                        m.expect(!y.has_value(), "moved from instance is not empty");
                        x = std::move(t);
                        model[i] = model[j];
                        model[j] = {-1, 0};
                    }
                    break;
                case 5: {
                    m.op("swap " + si + " " + sj);
                    using std::swap;
                    swap(x, y);
                    swap(model[i], model[j]);
                    break;
                }
                case 6: {
                    m.op("temporary copy of " + si);
                    auto c = x;
                    m.expect(same(c, model[i].first, model[i].second), "copy differs from the original");
                    break;
                }
                default:
                    m.op("clear " + si);
                    x = any{};
                    model[i] = {-1, 0};
                }
                auto wanted = long{0};
                auto st = std::string{};
                for (std::size_t s = 0; s < slots; ++s) {
                    m.expect(same((*values)[s], model[s].first, model[s].second), "held value differs from the one stored");
                    wanted += model[s].first >= 6 && model[s].first <= 8 ? 1 : 0;
                    st += std::to_string(model[s].first) + ",";
                }
                m.expect(counted<1>::live + counted<60>::live + counted_small::live - live0 == wanted,
                         "values are not destroyed exactly once");
                m.state(st);
            }
        }
        m.expect(counted<1>::live + counted<60>::live + counted_small::live == live0, "value leaked");
        m.expect(shared.use_count() == 1, "shared value leaked");
    }
    m.report();
}

// ---------------------------------------------------------------- dynamic string view
inline void view_machine(std::uint64_t seed, int rounds)
{
    using dsv = utility::dynamic_string_view;
    auto m = machine{"view", seed};
    constexpr auto slots = 5;
    auto text = [&] { return std::string(m.pick(3) == 0 ? 0 : m.pick(40), static_cast<char>('a' + m.pick(26))); };
    for (auto round = 0; round < rounds; ++round) {
        m.trace.clear();
        auto model = std::array<std::string, slots>{};
        auto owned = std::array<bool, slots>{};
        owned.fill(true);
        auto values = std::make_unique<std::array<dsv, slots>>();
        // External buffers that views refer to; released as soon as nothing unowned is left
        auto ext = std::vector<std::unique_ptr<char[]>>{};
        for (auto step = 0; step < 24; ++step) {
            const auto i = m.pick(slots);
            const auto j = m.pick(slots);
            const auto si = std::to_string(i);
            const auto sj = std::to_string(j);
            auto& x = (*values)[i];
            auto& y = (*values)[j];
            switch (m.pick(11)) {
            case 0: {
                const auto t = text();
                ext.emplace_back(new char[t.size()]);
                std::memcpy(ext.back().get(), t.data(), t.size());
                m.op(si + " = view of " + std::to_string(t.size()));
                x = dsv{std::string_view{ext.back().get(), t.size()}};
                model[i] = t;
                owned[i] = t.empty();
                break;
            }
            case 1: {
                auto t = text();
                m.op(si + " = string of " + std::to_string(t.size()));
                model[i] = t;
                x = dsv{ar::string{t.begin(), t.end()}};
                owned[i] = true;
                break;
            }
            case 2:
                m.op(si + " = copy " + sj);
                x = y;
                model[i] = model[j];
                owned[i] = owned[j];
                break;
            case 3:
                if (i != j) {
                    m.op(si + " = move " + sj);
                    x = std::move(y);
                    model[i] = model[j];
                    owned[i] = owned[j];
                    y = dsv{};
                    model[j].clear();
                    owned[j] = true;
                }
                break;
            case 4: {
                m.op("swap " + si + " " + sj);
                swap(x, y);
                std::swap(model[i], model[j]);
                std::swap(owned[i], owned[j]);
                break;
            }
            case 5: {
                const auto t = text();
                m.op(si + " += " + std::to_string(t.size()));
                x += std::string_view{t};
                model[i] += t;
                owned[i] = true;
                break;
            }
            case 6: {
                m.op(si + " += " + sj);
                const auto t = model[j];
                x += y;
                model[i] += t;
                owned[i] = true;
                break;
            }
            case 7:
                m.op(si + " internal");
                x.convert_to_internal_storage();
                owned[i] = true;
                m.expect(x.internal_storage_size() == model[i].size(), "not in internal storage");
                break;
            case 8: {
                m.op(si + " + char");
                x += 'z';
                model[i] += 'z';
                owned[i] = true;
                break;
            }
            case 9: {
                m.op(si + " = " + sj + " + literal");
                x = y + "lit";
                model[i] = model[j] + "lit";
                owned[i] = true;
                break;
            }
            default: {
                auto any_unowned = false;
                for (auto o : owned) any_unowned = any_unowned || !o;
                if (!any_unowned) {
                    m.op("release buffers");
                    for (auto& e : ext) {
                        e.reset();
                    }
                    ext.clear();
                }
            }
            }
            for (std::size_t s = 0; s < slots; ++s) {
                const auto& v = (*values)[s];
                m.expect(static_cast<std::string_view>(v) == model[s] && v.size() == model[s].size() && v.empty() == model[s].empty() &&
                             std::string(v.begin(), v.end()) == model[s],
                         "view differs from the text stored");
                m.expect(v == dsv{std::string_view{model[s]}} && !(v != dsv{std::string_view{model[s]}}), "comparison");
            }
            m.state(std::to_string(model[i].size() > 15) + std::to_string(owned[i]) + m.trace.substr(m.trace.size() > 30 ? m.trace.size() - 30 : 0));
        }
    }
    m.report();
}

// ---------------------------------------------------------------- parse targets
inline void target_machine(std::uint64_t seed, int rounds)
{
    auto m = machine{"target", seed};
    const auto num = ar::arg<int>("num"_S, "n"_S);
    const auto txt = ar::multi_arg<std::vector<std::string>>("txt"_S);
    for (auto round = 0; round < rounds; ++round) {
        m.trace.clear();
        auto live = std::vector<std::tuple<parsing::parse_target, bool, bool, std::vector<std::string>>>{};
        auto store = std::list<std::string>{};
        for (auto step = 0; step < 12; ++step) {
            const auto k = m.pick(live.size());
            switch (live.empty() ? 0 : m.pick(5)) {
            case 0: {
                const auto is_num = m.pick(2) == 0;
                auto want = std::vector<std::string>{};
                auto toks = ar::vector<parsing::token_type>{};
                for (auto n = is_num ? 1 : m.pick(4); n > 0; --n) {
                    store.push_back(std::to_string(m.pick(100000)));
                    want.push_back(store.back());
                    toks.push_back({parsing::prefix_type::none, store.back()});
                }
                m.op(is_num ? "new num" : "new txt " + std::to_string(want.size()));
                if (is_num) {
                    live.emplace_back(parsing::parse_target{std::move(toks), num}, true, is_num, want);
                } else {
                    live.emplace_back(parsing::parse_target{std::move(toks), txt}, true, is_num, want);
                }
                break;
            }
            case 1: {
                m.op("copy " + std::to_string(k));
                auto c = live[k];
                live.push_back(std::move(c));
                break;
            }
            case 2: {
                m.op("move " + std::to_string(k));
                auto t = std::move(live[k]);
                live.erase(live.begin() + static_cast<std::ptrdiff_t>(k));
                live.insert(live.begin(), std::move(t));
                break;
            }
            default: {
                auto& [t, armed, is_num, want] = live[k];
                m.op("parse " + std::to_string(k));
                m.expect(static_cast<bool>(t) == armed, "armed state");
                auto r = t();
                m.expect(r.has_value() == armed, "a target parses exactly once");
                if (armed && is_num) {
                    m.expect(r.get<int>() == std::stoi(want[0]), "number");
                } else if (armed) {
                    m.expect(r.get<std::vector<std::string>>() == want, "texts");
                }
                armed = false;
            }
            }
            auto st = std::string{};
            for (auto& [t, armed, is_num, want] : live) {
                m.expect(static_cast<bool>(t) == armed, "armed state of a bystander");
                st += std::to_string(armed) + std::to_string(is_num) + std::to_string(want.size());
                if (armed) {
                    auto same = t.tokens().size() == want.size();
                    for (std::size_t i = 0; same && i < want.size(); ++i) {
                        same = t.tokens()[i].name == want[i];
                    }
                    m.expect(same, "tokens of a target altered");
                }
            }
            m.state(st);
        }
    }
    m.report();
}

inline int carriers(int argc, char** argv)
{
    if (argc < 4) {
        return 3;
    }
    const auto what = std::string{argv[1]};
    const auto seed = std::strtoull(argv[2], nullptr, 10);
    const auto rounds = std::atoi(argv[3]);
    if (what == "tokens") tokens_machine(seed, rounds);
    if (what == "any8") any_machine<8>(seed, rounds);
    if (what == "any16") any_machine<16>(seed, rounds);
    if (what == "any48") any_machine<48>(seed, rounds);
    if (what == "view") view_machine(seed, rounds);
    if (what == "target") target_machine(seed, rounds);
    return 0;
}
}  // namespace vt
