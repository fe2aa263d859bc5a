// Stand-in for Ipopt's public interface (Ipopt is not installed): the declarations the adapter uses; the "solver" is a script of the harness.
#ifndef VT_MOCK_IPTNLP_HPP
#define VT_MOCK_IPTNLP_HPP
#include <functional>
#include <map>
#include <string>
#include <cstddef>
namespace Ipopt {
typedef double Number; typedef int Index;
template <class T> class SmartPtr
{
    T* p = nullptr;
    void set(T* q) { if (q) ++q->vt_refs; if (p && --p->vt_refs == 0) delete p; p = q; }
public:
    SmartPtr() {} SmartPtr(T* q) { set(q); } SmartPtr(const SmartPtr& o) { set(o.p); } template <class U> SmartPtr(const SmartPtr<U>& o) { set(GetRawPtr(o)); }
    ~SmartPtr() { set(nullptr); }
    SmartPtr& operator=(T* q) { set(q); return *this; } SmartPtr& operator=(const SmartPtr& o) { set(o.p); return *this; }
    T* operator->() const { return p; } T& operator*() const { return *p; }
    template <class U> friend U* GetRawPtr(const SmartPtr<U>&);
};
template <class U> U* GetRawPtr(const SmartPtr<U>& s) { return s.p; }
class ReferencedObject { public: mutable int vt_refs = 0; virtual ~ReferencedObject() {} };
class IpoptData; class IpoptCalculatedQuantities;
enum SolverReturn { SUCCESS, MAXITER_EXCEEDED, LOCAL_INFEASIBILITY };
enum ApplicationReturnStatus { Solve_Succeeded = 0, Solved_To_Acceptable_Level = 1, Infeasible_Problem_Detected = 2, Maximum_Iterations_Exceeded = -1, Internal_Error = -199 };
class TNLP : public ReferencedObject
{
public:
    enum IndexStyleEnum { C_STYLE = 0, FORTRAN_STYLE = 1 };
    virtual bool get_nlp_info(Index&, Index&, Index&, Index&, IndexStyleEnum&) = 0;
    virtual bool get_bounds_info(Index, Number*, Number*, Index, Number*, Number*) = 0;
    virtual bool get_starting_point(Index, bool, Number*, bool, Number*, Number*, Index, bool, Number*) = 0;
    virtual bool eval_f(Index, const Number*, bool, Number&) = 0;
    virtual bool eval_grad_f(Index, const Number*, bool, Number*) = 0;
    virtual bool eval_g(Index, const Number*, bool, Index, Number*) = 0;
    virtual bool eval_jac_g(Index, const Number*, bool, Index, Index, Index*, Index*, Number*) = 0;
    virtual bool eval_h(Index, const Number*, bool, Number, Index, const Number*, bool, Index, Index*, Index*, Number*) { return false; }
    virtual void finalize_solution(SolverReturn, Index, const Number*, const Number*, const Number*, Index, const Number*, const Number*, Number, const IpoptData*, IpoptCalculatedQuantities*) = 0;
};
}
#endif
