// Exhaustive sweep over pairs of basis blades, for one metric space, one product and one pair of representations.
#ifndef TABLE_RT_HPP
#define TABLE_RT_HPP
#include "gatl_rt.hpp"
#include <utility>
namespace rt {
    template<int Op, typename A, typename B, typename Mtr>
    auto product(A const &a, B const &b, Mtr const &mtr) {
        if constexpr (Op == 0) return gp(a, b, mtr);
        else if constexpr (Op == 1) return op(a, b, mtr);
        else if constexpr (Op == 2) return rp(a, b, mtr);
        else if constexpr (Op == 3) return dot(a, b, mtr);
        else if constexpr (Op == 4) return hip(a, b, mtr);
        else if constexpr (Op == 5) return lcont(a, b, mtr);
        else if constexpr (Op == 6) return rcont(a, b, mtr);
        else return sp(a, b, mtr);
    }
    constexpr int pop(unsigned b) { int k = 0; for (; b; b &= b - 1) ++k; return k; }
    template<typename E>
    void row(int op, char const *mode, unsigned a, unsigned b, E const &x) {
        char t[96]; std::snprintf(t, sizeof t, "P %d %s %u %u", op, mode, a, b); buffer() += t; observe(x); buffer() += "\n";
        if (buffer().size() > 60000) flush();
    }
    // representations: 0 = V (constant blade, run-time coefficient), 1 = K (all constant)
    template<int Rep, unsigned B, int N> auto make(double v) { if constexpr (Rep == 0) return V<B>(v); else return K<B, N>(); }

    template<int Op, int RA, int RB, unsigned A, typename Mtr, unsigned... B>
    void const_row(char const *mode, Mtr const &mtr, double va, double vb, std::integer_sequence<unsigned, B...>) {
        (row(Op, mode, A, B, product<Op>(make<RA, A, 2>(va), make<RB, B, 3>(vb), mtr)), ...);
    }
    template<int Op, int RA, int RB, typename Mtr, unsigned... A>
    void const_const(char const *mode, Mtr const &mtr, double va, double vb, std::integer_sequence<unsigned, A...> s) {
        (const_row<Op, RA, RB, A>(mode, mtr, va, vb, s), ...);
    }
    template<int Op, int N, typename Mtr>
    void dyn_dyn(char const *mode, Mtr const &mtr, double va, double vb) {
        for (unsigned a = 0; a < (1u << N); ++a)
            for (unsigned b = 0; b < (1u << N); ++b)
                row(Op, mode, a, b, product<Op>(D<0, N>(va, a), D<0, N>(vb, b), mtr));
    }
    template<int Op, int GA, int GB, int N, typename Mtr>
    void dyn_grade(char const *mode, Mtr const &mtr, double va, double vb) {
        for (unsigned a = 0; a < (1u << N); ++a) if (pop(a) == GA)
            for (unsigned b = 0; b < (1u << N); ++b) if (pop(b) == GB)
                row(Op, mode, a, b, product<Op>(D<GA, GA>(va, a), D<GB, GB>(vb, b), mtr));
    }
    template<int Op, int N, typename Mtr, int... G>
    void dyn_grades(char const *mode, Mtr const &mtr, double va, double vb, std::integer_sequence<int, G...>) {
        (dyn_grade<Op, G / (N + 1), G % (N + 1), N>(mode, mtr, va, vb), ...);
    }
    template<int Op, int N, int RA, typename Mtr, unsigned... A>
    void const_dyn(char const *mode, Mtr const &mtr, double va, double vb, std::integer_sequence<unsigned, A...>) {
        for (unsigned b = 0; b < (1u << N); ++b)
            (row(Op, mode, A, b, product<Op>(make<RA, A, 2>(va), D<0, N>(vb, b), mtr)), ...);
    }
    template<int Op, int N, int RB, typename Mtr, unsigned... B>
    void dyn_const(char const *mode, Mtr const &mtr, double va, double vb, std::integer_sequence<unsigned, B...>) {
        for (unsigned a = 0; a < (1u << N); ++a)
            (row(Op, mode, a, B, product<Op>(D<0, N>(va, a), make<RB, B, 3>(vb), mtr)), ...);
    }
    template<int Op, int N, int G0, int G1, int H0, int H1, typename Mtr>
    void dyn_range(char const *mode, Mtr const &mtr, double va, double vb) {
        for (unsigned a = 0; a < (1u << N); ++a) if (G0 <= pop(a) && pop(a) <= G1)
            for (unsigned b = 0; b < (1u << N); ++b) if (H0 <= pop(b) && pop(b) <= H1)
                row(Op, mode, a, b, product<Op>(D<G0, G1>(va, a), D<H0, H1>(vb, b), mtr));
    }
    // sign changes
    template<int Op, typename A>
    auto change(A const &a) {
        if constexpr (Op == 0) return ga::reverse(a);
        else if constexpr (Op == 1) return ga::involute(a);
        else return ga::conjugate(a);
    }
    template<int Op, unsigned... A>
    void change_const(double va, std::integer_sequence<unsigned, A...>) {
        (row(Op, "V", A, 0, change<Op>(V<A>(va))), ...);
        (row(Op, "K", A, 0, change<Op>(K<A, 2>())), ...);
    }
    template<int Op, int N, int G0, int G1>
    void change_range(double va) {
        for (unsigned a = 0; a < (1u << N); ++a) if (G0 <= pop(a) && pop(a) <= G1) row(Op, "D", a, 0, change<Op>(D<G0, G1>(va, a)));
    }
}
#endif
