// Glue of the analysed probe programs.  Only the documented API of the library is used here.
#ifndef GATLCHECK_PROBE_HPP
#define GATLCHECK_PROBE_HPP
#include <cstddef>
#define PROBE(NAME) extern "C" __attribute__((flatten)) void NAME(double const *a, double const *b, double *out)
namespace gatlcheck {
    // Writes the coefficient of every basis blade of r to out[bitset].
    template<int ND, typename C, typename E>
    static inline void dump(ga::clifford_expression<C, E> const &r, double *out) {
        double o[std::size_t(1) << ND] = {};
        ga::for_each_component(r, [&](ga::bitset_t const bs, auto const &v, ga::entry_source_t, ga::entry_source_t, bool &) { o[bs] += v; });
        for (std::size_t i = 0; i < (std::size_t(1) << ND); i++) out[i] = o[i];
    }
    template<int ND, typename T, std::enable_if_t<!ga::is_clifford_expression_v<T>, int> = 0>
    static inline void dump(T const &r, double *out) {
        out[0] = r;
        for (std::size_t i = 1; i < (std::size_t(1) << ND); i++) out[i] = 0;
    }
    // Sets every stored coefficient of m to src[bitset of its basis blade].
    template<typename C, typename E>
    static inline ga::clifford_expression<C, E> fill(ga::clifford_expression<C, E> m, double const *src) {
        auto it = m.values().begin();
        ga::for_each_component(m, [&](ga::bitset_t const bs, auto const &, ga::entry_source_t, ga::entry_source_t, bool &) { *it = src[bs]; ++it; });
        return m;
    }
}
#endif
