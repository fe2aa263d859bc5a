// Isolation monitor: objects driven from several threads, interleaved in one thread, and alone must give bitwise the same results.
#ifndef THR_HPP
#define THR_HPP
#include "vt.hpp"
#include <memory>
#include <type_traits>
namespace thr {
struct Stepper // data are generated by the constructor (main thread); begin() builds the objects of the library and step() uses them
{
    std::vector<double> out;
    virtual ~Stepper() {}
    virtual void begin() = 0;
    virtual void step(int k) = 0;
    template <class M> typename std::enable_if<std::is_class<M>::value>::type put(const M& m) { for (long j = 0; j < (long)m.cols(); ++j) for (long i = 0; i < (long)m.rows(); ++i) out.push_back((double)m(i, j)); }
    template <class M> typename std::enable_if<!std::is_class<M>::value>::type put(M v) { out.push_back((double)v); }
};
struct Kind { std::string name; std::unique_ptr<Stepper> (*make)(vt::Rng& r); };
inline std::vector<Kind>& kinds() { static std::vector<Kind> k; return k; }
struct Add { Add(const std::string& n, std::unique_ptr<Stepper> (*m)(vt::Rng&)) { kinds().push_back({n, m}); } };
template <class T> std::unique_ptr<Stepper> mk(vt::Rng& r) { return std::unique_ptr<Stepper>(new T(r)); }
enum { STEPS = 4 };
}
#endif
