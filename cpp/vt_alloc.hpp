// Replays lines with the library's memory coming from a monitored allocator (AR_ALLOCATOR) that
// records every block, and can refuse the n-th request.
#pragma once
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <new>
#include <set>
#include <string>

namespace vt_al
{
struct ledger {
    std::map<void*, std::pair<std::size_t, std::size_t>> blocks;  // address -> count, element size
    long total = 0;
    long fail_at = -1;
    std::string bad;
    std::set<std::string> sites;
};
inline ledger& book()
{
    static auto& b = *new ledger{};
    return b;
}

template <typename T>
struct monitored {
    using value_type = T;
    monitored() noexcept = default;
    template <typename U>
    monitored(const monitored<U>&) noexcept
    {
    }
    T* allocate(std::size_t n)
    {
        auto& b = book();
        ++b.total;
        if (b.total == b.fail_at) {
            throw std::bad_alloc{};
        }
        if (n > (std::size_t{1} << 40) / sizeof(T)) {
            b.bad = "absurd request";
            throw std::bad_alloc{};
        }
        auto* p = static_cast<T*>(std::malloc(n * sizeof(T) + 1));
        b.blocks[p] = {n, sizeof(T)};
        return p;
    }
    void deallocate(T* p, std::size_t n) noexcept
    {
        auto& b = book();
        const auto it = b.blocks.find(p);
        if (it == b.blocks.end()) {
            b.bad = "released a block that was not allocated";
            return;
        }
        if (it->second != std::pair{n, sizeof(T)}) {
            b.bad = "released with another size than allocated";
        }
        b.blocks.erase(it);
        std::free(p);
    }
    template <typename U>
    friend bool operator==(const monitored&, const monitored<U>&) noexcept
    {
        return true;
    }
    template <typename U>
    friend bool operator!=(const monitored&, const monitored<U>&) noexcept
    {
        return false;
    }
};
}  // namespace vt_al
#define AR_ALLOCATOR vt_al::monitored
#include "vt_main.hpp"

#include <sys/resource.h>

namespace vt
{
// For each case: outcome, requests, blocks left over; then one line per refused request
template <typename Make>
int run_alloc(int argc, char** argv, Make make)
{
    if (argc < 3) {
        return 3;
    }
    auto in = std::ifstream{argv[1]};
    auto* out = std::fopen(argv[2], "w");
    if (!in || (out == nullptr)) {
        return 3;
    }
    auto& b = vt_al::book();
    auto line = std::string{};
    bool en[16];
    for (auto& e : en) {
        e = true;
    }
    {
        const auto root = make(en);
        auto obs = [&](const kase& k) {
            if (k.root != 'h') {
                return observe(*root, k);
            }
            try {
                return std::string{"0\t-\tHELP\t"} + hex(root->help());
            } catch (const std::exception& e) {
                return std::string{"0\t-\tSE\t"} + hex(std::string{typeid(e).name()} + ": " + e.what());
            }
        };
        while (std::getline(in, line)) {
            if (line.empty()) {
                continue;
            }
            const auto k = read_case(line);
            const auto at = b.blocks.size();
            const auto n0 = b.total;
            const auto text = obs(k);
            const auto requests = b.total - n0;
            auto extra = std::string{};
            if (b.blocks.size() != at) {
                extra += "\tLEFT" + std::to_string(b.blocks.size() - at);
            }
            auto refused = 0l;
            auto survived = 0l;
            // Refuse each request in turn (a sample if there are many)
            const auto step = requests > 60 ? requests / 60 + 1 : 1;
            for (auto i = 1l; i <= requests && k.boom == 'n'; i += step) {
                b.fail_at = b.total + i;
                const auto t = obs(k);
                b.fail_at = -1;
                ++refused;
                if (t == text) {
                    ++survived;
                } else if (t.find("\tSE\t" + hex("St9bad_alloc")) == std::string::npos) {
                    auto c = t.substr(0, 300);
                    for (auto& x : c) {
                        x = x == '\t' ? ' ' : x;
                    }
                    extra += "\tREFUSED" + std::to_string(i) + ":" + c;
                }
                if (t.find("\tSE\t") != std::string::npos && t[0] != '0') {
                    extra += "\tROUTED" + std::to_string(i);
                }
                if (b.blocks.size() != at) {
                    extra += "\tLEAK" + std::to_string(i) + ":" + std::to_string(b.blocks.size() - at);
                }
            }
            if (refused > 0 && obs(k) != text) {
                extra += "\tAFTER";
            }
            if (!b.bad.empty()) {
                extra += "\tBLOCK " + b.bad;
                b.bad.clear();
            }
            std::fprintf(out, "%s\t%s\tN%ld\tF%ld\tS%ld%s\n", k.id.c_str(), text.c_str(), requests, refused, survived, extra.c_str());
            std::fflush(out);
        }
    }
    std::fprintf(out, "END\t%zu\t%ld\n", b.blocks.size(), b.total);
    std::fclose(out);
    return 0;
}
}  // namespace vt
