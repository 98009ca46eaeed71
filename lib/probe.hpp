// User-defined expression types, written against the documented interface of an expression (ExprBase, feval, get, beval,
// bind_cache, bind_cache_size, single_bind_cache_size): identities that record when they are visited and with what.
#pragma once
#include <fastad>
#include <cstring>
#include <type_traits>
#include <vector>

namespace vf {
struct Visit { int id; char what; int r, c; bool scalar, fits; std::vector<double> x; };      // 'f' with the value, 'b' with the seed, '!' a complaint
struct Trace { std::vector<Visit> v; bool on = false; };
Trace& trace();                                                // of this process (probes run in one thread)
template <class T> std::vector<double> flat(const T& x) {
    if constexpr (std::is_arithmetic_v<T>) return {double(x)};
    else { auto y = x.eval(); std::vector<double> o; for (int j = 0; j < int(y.cols()); ++j) for (int i = 0; i < int(y.rows()); ++i) o.push_back(double(y(i, j))); return o; }
}
inline bool bits(const std::vector<double>& a, const std::vector<double>& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (std::memcmp(&a[i], &b[i], 8) && a[i] != b[i] && !(a[i] != a[i] && b[i] != b[i])) return false;
    return true;
}
template <class S> Visit seed_visit(int id, const S& seed, int r, int c) {
    Visit v{id, 'b', r, c, std::is_arithmetic_v<S>, true, {}};
    if constexpr (std::is_arithmetic_v<S>) v.x.assign(size_t(r) * c, double(seed));
    else { v.r = int(seed.rows()); v.c = int(seed.cols()); v.fits = v.r == r && v.c == c; v.x = flat(seed); }
    return v;
}
// K 0: value and adjoint cache;  1: value cache only, hands the seed on as it is;  2: value and adjoint cache and temporaries in front
template <int K, class Ex>
struct Probe : ad::core::ValueAdjView<typename ad::util::expr_traits<Ex>::value_t, typename ad::util::shape_traits<Ex>::shape_t>, ad::core::ExprBase<Probe<K, Ex>> {
    using value_adj_view_t = ad::core::ValueAdjView<typename ad::util::expr_traits<Ex>::value_t, typename ad::util::shape_traits<Ex>::shape_t>;
    using typename value_adj_view_t::value_t; using typename value_adj_view_t::shape_t; using typename value_adj_view_t::var_t; using typename value_adj_view_t::ptr_pack_t;
    Probe(int id, const Ex& e) : value_adj_view_t(nullptr, nullptr, e.rows(), e.cols()), id_(id), e_(e), tmp_(nullptr, nullptr, e.rows(), e.cols()) {}
    const var_t& feval() {
        auto r = flat(e_.feval());
        ad::util::to_array(this->get()) = ad::util::to_array(e_.get());
        if (K == 2) ad::util::to_array(tmp_.get()) = ad::util::to_array(e_.get());
        if (trace().on) { trace().v.push_back({id_, 'f', int(this->rows()), int(this->cols()), false, true, flat(this->get())}); if (!bits(r, flat(this->get()))) trace().v.push_back({id_, '!', 0, 0, false, false, {}}); }
        return this->get();
    }
    template <class T> void beval(const T& seed) {
        if (trace().on) {
            trace().v.push_back(seed_visit(id_, seed, int(this->rows()), int(this->cols())));
            // what was computed forward is still there: the own value, the argument's, the temporaries
            auto own = flat(this->get());
            if (!bits(own, flat(e_.get())) || (K == 2 && !bits(own, flat(tmp_.get())))) trace().v.push_back({id_, '!', 1, 0, false, false, {}});
        }
        if (K == 1) { e_.beval(seed); return; }
        auto&& a = ad::util::to_array(this->get_adj());
        a = seed;
        e_.beval(a);
    }
    ptr_pack_t bind_cache(ptr_pack_t begin) {
        begin = e_.bind_cache(begin);
        if (K == 1) { begin.val = static_cast<typename value_adj_view_t::base_t&>(*this).bind(begin.val); return begin; }
        if (K == 2) begin = tmp_.bind(begin);
        return value_adj_view_t::bind(begin);
    }
    ad::util::SizePack bind_cache_size() const {
        ad::util::SizePack t(K == 2 ? this->size() : 0, K == 2 ? this->size() : 0);
        return single_bind_cache_size() + t + e_.bind_cache_size();
    }
    ad::util::SizePack single_bind_cache_size() const { return {this->size(), K == 1 ? 0 : this->size()}; }
private:
    int id_; Ex e_; value_adj_view_t tmp_;
};
// a leaf over foreign memory
template <class Shape>
struct Leaf : ad::core::ValueAdjView<double, Shape>, ad::core::ExprBase<Leaf<Shape>> {
    using value_adj_view_t = ad::core::ValueAdjView<double, Shape>;
    using typename value_adj_view_t::value_t; using typename value_adj_view_t::shape_t; using typename value_adj_view_t::var_t; using typename value_adj_view_t::ptr_pack_t;
    Leaf(int id, double* v, double* a, size_t r, size_t c) : value_adj_view_t(v, a, r, c), id_(id) {}
    const var_t& feval() { if (trace().on) trace().v.push_back({id_, 'f', int(this->rows()), int(this->cols()), false, true, flat(this->get())}); return this->get(); }
    template <class T> void beval(const T& seed) { if (trace().on) trace().v.push_back(seed_visit(id_, seed, int(this->rows()), int(this->cols()))); ad::util::to_array(this->get_adj()) += seed; }
    ptr_pack_t bind_cache(ptr_pack_t begin) { return begin; }
    ad::util::SizePack bind_cache_size() const { return {0, 0}; }
    ad::util::SizePack single_bind_cache_size() const { return {0, 0}; }
private:
    int id_;
};
template <int K = 0, class D> auto probe(int id, const D& x) { using E = ad::util::convert_to_ad_t<D>; E e = x; return Probe<K, E>(id, e); }
template <class D> auto leaf(int id, D& x) { return Leaf<typename ad::util::shape_traits<std::decay_t<D>>::shape_t>(id, x.data(), x.data_adj(), x.rows(), x.cols()); }
} // namespace vf
