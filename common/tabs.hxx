// Function types Tab<0>, Tab<1>, ...: tables that answer the yes-no questions a factor forwards to its function as they are
// told to, so that a factor that asks another function is found out; as many types as one likes in one model.
#pragma once
#include <opengm/opengm.hxx>
#include <opengm/functions/function_registration.hxx>
#include <opengm/functions/function_properties_base.hxx>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <vector>
namespace tabs {
template<int N>
class Tab : public opengm::FunctionBase<Tab<N>, double, size_t, size_t> {
public:
   typedef double ValueType; typedef size_t IndexType; typedef size_t LabelType;
   std::vector<size_t> shape_; std::vector<double> v_; unsigned bits_; double answer_;
   Tab() : v_(1, 0.0), bits_(0), answer_(0) {}
   Tab(const std::vector<size_t>& s, const std::vector<double>& v, unsigned bits, double answer) : shape_(s), v_(v), bits_(bits), answer_(answer) {}
   size_t shape(size_t i) const { return shape_[i]; }
   size_t size() const { return v_.size(); }
   size_t dimension() const { return shape_.size(); }
   template<class IT> double operator()(IT it) const { size_t k = 0, m = 1; for (size_t i = 0; i < shape_.size(); ++i, ++it) { k += m * size_t(*it); m *= shape_[i]; } return v_[k]; }
   bool isPotts() const { return bits_ & 1; }
   bool isGeneralizedPotts() const { return bits_ & 2; }
   bool isSubmodular() const { return bits_ & 4; }
   bool isSquaredDifference() const { return bits_ & 8; }
   bool isTruncatedSquaredDifference() const { return bits_ & 16; }
   bool isAbsoluteDifference() const { return bits_ & 32; }
   bool isTruncatedAbsoluteDifference() const { return bits_ & 64; }
   bool isLinearConstraint() const { return bits_ & 128; }
};
template<int K, int N = 0> struct List { typedef opengm::meta::TypeList<Tab<N>, typename List<K, N + 1>::type> type; };
template<int K> struct List<K, K> { typedef opengm::meta::ListEnd type; };
template<int K> struct GM { typedef opengm::GraphicalModel<double, opengm::Adder, typename List<K>::type, opengm::DiscreteSpace<size_t, size_t> > type; };
// call f<N>() for the run time number n < K
template<int K, int N = 0> struct At { template<class F> static void call(size_t n, F& f) { if (n == size_t(N)) f.template run<N>(); else At<K, N + 1>::call(n, f); } };
template<int K> struct At<K, K> { template<class F> static void call(size_t, F&) {} };
}
namespace opengm {
template<int N> struct FunctionRegistration<tabs::Tab<N> > { enum ID { Id = 100 + 7 * N }; };
template<int N> class FunctionSerialization<tabs::Tab<N> > {
public:
   typedef double ValueType;
   static size_t indexSequenceSize(const tabs::Tab<N>& s) { return s.dimension() + 2; }
   static size_t valueSequenceSize(const tabs::Tab<N>& s) { return s.size() + 1; }
   template<class I, class V> static void serialize(const tabs::Tab<N>& s, I i, V v) { *i = s.dimension(); ++i; for (size_t k : s.shape_) { *i = k; ++i; } *i = s.bits_; for (double x : s.v_) { *v = x; ++v; } *v = s.answer_; }
   template<class I, class V> static void deserialize(I i, V v, tabs::Tab<N>& s) { s.shape_.resize(*i); ++i; size_t n = 1; for (size_t& k : s.shape_) { k = *i; ++i; n *= k; } s.bits_ = *i; s.v_.resize(n); for (double& x : s.v_) { x = *v; ++v; } s.answer_ = *v; }
};
}
