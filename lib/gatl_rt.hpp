// Runtime support shared by all generated conformance harnesses: how the inputs of a behaviour are turned into
// multivectors of a given representation, and how the multivector a call returned is observed (through the public
// component visitor) and written to the trace.
#ifndef GATL_RT_HPP
#define GATL_RT_HPP
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <iterator>
#include <map>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>
#include <list>

namespace rt {

    // One scaled basis blade, both coefficient and basis blade known at run time only; its grade is in [G0, G1].
    template<int G0, int G1>
    auto D(double v, unsigned long long b) {
        using T = ga::scaled_basis_blade_t<double, G0, G1>;
        return T(ga::make_sequential_storage(v), ga::make_sequential_storage(ga::bitset_t(b)));
    }

    // Coefficient known at run time, basis blade B known at compile time.
    template<unsigned long long B, typename T = double>
    auto V(double x) {
        T v = T(x);
        return ga::clifford_expression<T, ga::detail::component_t<ga::detail::stored_value, ga::detail::constant_basis_blade<B> > >(ga::make_sequential_storage(v));
    }

    // Everything known at compile time.
    template<unsigned long long B, int N>
    auto K() {
        return ga::clifford_expression<ga::default_integral_t, ga::detail::component_t<ga::detail::constant_value<N>, ga::detail::constant_basis_blade<B> > >();
    }

    // Unit basis blade known at run time only.
    template<int G0, int G1>
    auto U(unsigned long long b) {
        using T = ga::unit_basis_blade_t<G0, G1>;
        return T(ga::make_sequential_storage(ga::bitset_t(b)));
    }

    // Multivector type with one stored coefficient per basis blade of the listed ones.
    template<typename F, typename... X>
    void fill(F &r, X... bv) {
        double const t[] = { double(bv)..., 0.0 };
        auto it = r.values().begin();
        ga::for_each_component(r, [&](ga::bitset_t b, auto const &, ga::entry_source_t, ga::entry_source_t src, bool &) {
            if (src != ga::STORED_RUNTIME_DEFINED_ENTRY) return;
            *it = 0;
            for (unsigned i = 0; i < sizeof...(X); i += 2) if (ga::bitset_t(t[i]) == b) *it = t[i + 1];
            ++it;
        });
    }
    template<int N, int G0, int G1, typename... X>
    auto F(X... bv) {
        ga::full_multivector_t<double, N, G0, G1> r;
        fill(r, bv...);
        return r;
    }

    inline std::string &buffer() { static std::string b; return b; }
    inline void flush() { auto &b = buffer(); std::fwrite(b.data(), 1, b.size(), stdout); std::fflush(stdout); b.clear(); }
    inline void put(char const *fmt, double v) { char t[64]; std::snprintf(t, sizeof t, fmt, v); buffer() += t; }

    // Observation of a value: components (visited through the public interface), number, or flag.
    template<typename E>
    void observe(E const &x) {
        if constexpr (ga::is_clifford_expression_v<E>) {
            std::map<unsigned long long, double> m;
            ga::for_each_component(x, [&](ga::bitset_t b, auto const &v, ga::entry_source_t, ga::entry_source_t, bool &) { m[b] += double(v); });
            for (auto &e : m) { char t[64]; std::snprintf(t, sizeof t, " %llu:%.17g", e.first, e.second); buffer() += t; }
        }
        else if constexpr (std::is_convertible_v<E, ga::grade_t> && !std::is_arithmetic_v<E>) put(" 0:%.17g", double(static_cast<ga::grade_t>(x)));
        else if constexpr (std::is_convertible_v<E, double>) put(" 0:%.17g", double(x));
        else buffer() += " ?";
    }

    template<typename E>
    void out(int prog, int val, int reg, E const &x) {
        char t[96]; std::snprintf(t, sizeof t, "R %d %d %d", prog, val, reg); buffer() += t;
        observe(x);
        buffer() += "\n"; flush();
    }
    inline void text(int prog, int val, int reg, std::string const &s) {
        char t[96]; std::snprintf(t, sizeof t, "T %d %d %d ", prog, val, reg); buffer() += t;
        for (char ch : s) buffer() += ch == '\n' ? ' ' : ch;
        buffer() += "\n"; flush();
    }

    // Copies into containers. MODE: the way the copy is asked for.
    template<typename Space, int G0, int G1>
    using full = ga::full_multivector_t<double, Space::vector_space_dimensions, G0, G1>;
    template<typename E>
    using derived = ga::full_derived_multivector_t<double, typename E::expression_type>;
    template<typename T>
    void junk(T &y) {                       // what the container held before must not survive
        double k = 1e3;
        for (auto it = y.values().begin(); it != y.values().end(); ++it) *it = (k += 7);
    }
    template<typename T, int MODE, typename X>
    T copied(X const &x) {
        if constexpr (MODE == 0) { T y = x; return y; }
        else if constexpr (MODE == 1) { X t(x); T y(std::move(t)); return y; }
        else if constexpr (MODE == 2) { T y; junk(y); y = x; return y; }
        else if constexpr (MODE == 3) { T y; junk(y); ga::checked_trivial_copy(x, y); return y; }
        else if constexpr (MODE == 4) { T y; ga::checked_trivial_copy(x, y, 1e-8); return y; }
        else if constexpr (MODE == 5) { T y; junk(y); ga::checked_trivial_copy(x, y, ga::c<0>); return y; }
        else if constexpr (MODE == 6) { T y; junk(y); ga::trivial_copy(x, y); return y; }
        else { T y; ga::trivial_copy(x, y); T z(y); T w; w = std::move(z); return w; }
    }
    template<typename T, int MODE, typename X>
    double refused(X const &x, double tol) {
        try {
            T y;
            if constexpr (MODE == 0) { T t = x; y = t; }
            else if constexpr (MODE == 1) { y = X(x); }
            else if (tol > 0) ga::checked_trivial_copy(x, y, tol);
            else ga::checked_trivial_copy(x, y);
        }
        catch (ga::bad_checked_copy_exception const &) { return 1; }
        return 0;
    }
    // How many components the visitor saw; it stops after `stop` of them (if any). -1: the answer of the visit is wrong.
    template<typename X>
    double visits(X const &x, int stop = 0) {
        int seen = 0;
        bool const r = ga::for_each_component(x, [&](ga::bitset_t, auto const &, ga::entry_source_t, ga::entry_source_t, bool &keep_going) { ++seen; if (seen == stop) keep_going = false; });
        return r == (stop == 0) ? seen : -1;
    }
    template<typename X>
    double eachvec(X const &x, int stop) {
        int seen = 0; double v = 0;
        bool const r = ga::for_each_basis_vector(x, [&](ga::index_t i, bool &keep_going) { v = v * 8 + double(i); if (++seen == stop) keep_going = false; });
        return r == (stop == 0 || seen < stop) ? v : -1;
    }
    template<typename X>
    double native(X const &x) { double d = x; return d; }

    // The inputs of one execution of one program.
    struct In {
        int prog, val;
        std::vector<double> x;
        double v(int k) const { return x.at(k); }
        unsigned b(int k) const { return unsigned(x.at(k)); }
    };
    using prog_fn = void (*)(In const &);

    inline int run(int argc, char **argv, std::map<int, prog_fn> const &progs) {
        std::FILE *f = argc > 1 ? std::fopen(argv[1], "r") : stdin;
        if (!f) return 3;
        int p, v, n;
        while (std::fscanf(f, "%d %d %d", &p, &v, &n) == 3) {
            In in{ p, v, {} };
            for (int i = 0; i < n; ++i) { double d = 0; if (std::fscanf(f, "%lf", &d) != 1) return 3; in.x.push_back(d); }
            auto it = progs.find(p);
            if (it == progs.end()) continue;
            std::printf("B %d %d\n", p, v); std::fflush(stdout);
            try { it->second(in); }
            catch (std::exception const &e) { std::string w = e.what(); for (auto &ch : w) if (ch == '\n') ch = ' '; flush(); std::printf("X %d %d %s\n", p, v, w.c_str()); }
            catch (...) { flush(); std::printf("X %d %d unknown exception\n", p, v); }
            std::fflush(stdout);
        }
        std::printf("END\n");
        return 0;
    }
}
#endif
