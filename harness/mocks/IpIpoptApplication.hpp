#ifndef VT_MOCK_IPAPP_HPP
#define VT_MOCK_IPAPP_HPP
#include "IpSolveStatistics.hpp"
namespace Ipopt {
class OptionsList : public ReferencedObject
{
public:
    std::map<std::string, Number> num; std::map<std::string, Index> in; std::map<std::string, std::string> str;
    bool SetNumericValue(const std::string& k, Number v, bool = true, bool = false) { num[k] = v; return true; }
    bool SetIntegerValue(const std::string& k, Index v, bool = true, bool = false) { in[k] = v; return true; }
    bool SetStringValue(const std::string& k, const std::string& v, bool = true, bool = false) { str[k] = v; return true; }
};
class IpoptApplication : public ReferencedObject
{
public:
    SmartPtr<OptionsList> options = new OptionsList; SmartPtr<SolveStatistics> stats = new SolveStatistics;
    static std::function<ApplicationReturnStatus(TNLP&, OptionsList&, SolveStatistics&)>& script() { static std::function<ApplicationReturnStatus(TNLP&, OptionsList&, SolveStatistics&)> f; return f; }
    SmartPtr<OptionsList> Options() { return options; }
    SmartPtr<SolveStatistics> Statistics() { return stats; }
    ApplicationReturnStatus Initialize() { return Solve_Succeeded; }
    ApplicationReturnStatus OptimizeTNLP(const SmartPtr<TNLP>& t) { return script()(*t, *options, *stats); }
};
}
inline Ipopt::IpoptApplication* IpoptApplicationFactory() { return new Ipopt::IpoptApplication; }
#endif
