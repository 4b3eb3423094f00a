// Concurrent parses of one shared, const root.  Every thread replays the same recorded lines in its own
// order; what each parse produced is compared with what it produces alone.
#pragma once
#include <atomic>
#include <chrono>
#include <thread>

namespace vt
{
inline std::atomic<unsigned> yield_seed{0};

// Called from custom parsers, policies and routers, i.e. in the middle of a parse
inline void jitter()
{
    thread_local auto s = yield_seed.fetch_add(0x9E3779B9u) | 1u;
    s = s * 1664525u + 1013904223u;
    switch ((s >> 24) & 7) {
    case 0: std::this_thread::yield(); break;
    case 1: std::this_thread::sleep_for(std::chrono::microseconds{(s >> 16) & 31}); break;
    default: break;
    }
}
}  // namespace vt

#define VT_JITTER() ::vt::jitter()
#include "vt_main.hpp"

namespace vt
{
template <typename Make>
int run_threads(int argc, char** argv, Make make)
{
    if (argc < 5) {
        return 3;
    }
    const auto threads = static_cast<unsigned>(std::atoi(argv[3]));
    const auto rounds = static_cast<unsigned>(std::atoi(argv[4]));
    auto in = std::ifstream{argv[1]};
    auto* out = std::fopen(argv[2], "w");
    if (!in || (out == nullptr)) {
        return 3;
    }
    auto cases = std::vector<kase>{};
    auto line = std::string{};
    while (std::getline(in, line)) {
        if (!line.empty()) {
            cases.push_back(read_case(line));
        }
    }
    bool en[16];
    std::fill(std::begin(en), std::end(en), true);
    const auto root = make(en);
    // The reference runs last, on the main thread, so that nothing is warmed up for the threads
    struct result {
        std::size_t index;
        std::string text;
    };
    auto per_thread = std::vector<std::vector<result>>(threads);
    auto inside = std::atomic<int>{0};
    auto overlaps = std::atomic<unsigned long>{0};
    auto go = std::atomic<bool>{false};
    {
        auto ts = std::vector<std::thread>{};
        for (unsigned t = 0; t < threads; ++t) {
            ts.emplace_back([&, t] {
                while (!go.load()) {
                    std::this_thread::yield();
                }
                auto s = (t + 1) * 2654435761u;
                for (unsigned r = 0; r < rounds; ++r) {
                    for (std::size_t n = 0; n < cases.size(); ++n) {
                        s = s * 1664525u + 1013904223u;
                        const auto i = (r & 1) ? n : (s >> 8) % cases.size();
                        if (inside.fetch_add(1, std::memory_order_relaxed) > 0) {
                            overlaps.fetch_add(1, std::memory_order_relaxed);
                        }
                        auto text = observe(*root, cases[i]);
                        inside.fetch_sub(1, std::memory_order_relaxed);
                        per_thread[t].push_back({i, std::move(text)});
                    }
                }
            });
        }
        go = true;
        for (auto& t : ts) {
            t.join();
        }
    }
    auto ref = std::vector<std::string>{};
    for (const auto& k : cases) {
        ref.push_back(observe(*root, k));
    }
    auto total = std::size_t{0};
    auto pairs = std::vector<std::pair<std::size_t, std::size_t>>{};
    for (unsigned t = 0; t < threads; ++t) {
        for (const auto& r : per_thread[t]) {
            ++total;
            if (r.text != ref[r.index]) {
                std::fprintf(out, "BAD\t%s\t%s\t|\t%s\n", cases[r.index].id.c_str(), ref[r.index].c_str(),
                             r.text.c_str());
            }
        }
    }
    std::fprintf(out, "DONE\t%zu\t%lu\n", total, overlaps.load());
    std::fclose(out);
    return 0;
}
}  // namespace vt
