#ifndef VP_PERTURB_HPP
#define VP_PERTURB_HPP
#include <cstdint>
namespace vp
{
    struct perturb_config
    {
        bool on = true;
        std::uint64_t seed = 1;
        std::uint32_t mean_gap = 20000;   // mean instrumented events between delays
        std::uint32_t sleep_pct = 20;     // how many of the delays are sleeps
        std::uint32_t max_sleep_us = 200;
        std::uint32_t n_targets = 0;      // 0..4 randomly chosen code points always delayed at
        std::uint32_t target_us = 300;
    };
    void perturb_set(const perturb_config&);
    void perturb_off();
    void perturb_thread_off(bool);
    void crash_after(long long n_edges); // SIGKILL the process at the n-th edge from now
    std::uint64_t perturb_delays();
    std::uint64_t perturb_target_delays();
    std::uint32_t edges_total();
    std::uint32_t edges_hit();
}
#endif
