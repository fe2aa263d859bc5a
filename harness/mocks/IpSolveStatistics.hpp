#ifndef VT_MOCK_IPSTAT_HPP
#define VT_MOCK_IPSTAT_HPP
#include "IpTNLP.hpp"
namespace Ipopt {
class SolveStatistics : public ReferencedObject
{
public:
    Index iter = 0; Number inf[5] = {0, 0, 0, 0, 0}, obj = 0;
    Index IterationCount() const { return iter; }
    Number FinalObjective() const { return obj; }
    void Infeasibilities(Number& dual_inf, Number& constr_viol, Number& varbounds_viol, Number& complementarity, Number& kkt_error) const
    { dual_inf = inf[0]; constr_viol = inf[1]; varbounds_viol = inf[2]; complementarity = inf[3]; kkt_error = inf[4]; }
};
}
#endif
