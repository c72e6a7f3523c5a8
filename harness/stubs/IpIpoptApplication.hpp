// Stands in for the Ipopt library: the callbacks are called by what the harness puts into ipopt_stand_in().
#pragma once
#include <IpReferenced.hpp>
#include <IpReturnCodes.hpp>
#include <IpSmartPtr.hpp>
#include <IpTNLP.hpp>
#include <functional>
#include <map>
#include <string>
namespace Ipopt {
  struct OptionsStandIn : public ReferencedObject {
    std::map<std::string, std::string> set;
    bool SetStringValue(std::string const &t, std::string const &v, bool = true, bool = false) { set[t] = v; return true; }
    bool SetIntegerValue(std::string const &t, int v, bool = true, bool = false) { set[t] = std::to_string(v); return true; }
    bool SetNumericValue(std::string const &t, double, bool = true, bool = false) { set[t] = "number"; return true; }
    bool SetBoolValue(std::string const &t, bool v, bool = true, bool = false) { set[t] = v ? "yes" : "no"; return true; }
    bool SetStringValueIfUnset(std::string const &t, std::string const &v, bool = true, bool = false) { set.emplace(t, v); return true; }
    bool SetIntegerValueIfUnset(std::string const &t, int v, bool = true, bool = false) { set.emplace(t, std::to_string(v)); return true; }
    bool SetNumericValueIfUnset(std::string const &t, double, bool = true, bool = false) { set.emplace(t, "number"); return true; }
  };
  class IpoptApplication;
  struct StandIn {
    std::function<ApplicationReturnStatus(IpoptApplication &)> initialize;
    std::function<ApplicationReturnStatus(IpoptApplication &, TNLP &)> optimize;
  };
  inline StandIn &ipopt_stand_in() { static StandIn s; return s; }
  class IpoptApplication : public ReferencedObject {
    SmartPtr<OptionsStandIn> options = new OptionsStandIn();
  public:
    IpoptApplication(bool = true, bool = false) {}
    SmartPtr<OptionsStandIn> Options() { return options; }
    ApplicationReturnStatus Initialize(bool = false) { return ipopt_stand_in().initialize ? ipopt_stand_in().initialize(*this) : Solve_Succeeded; }
    ApplicationReturnStatus Initialize(std::string, bool = false) { return Initialize(); }
    ApplicationReturnStatus OptimizeTNLP(SmartPtr<TNLP> const &p) { return ipopt_stand_in().optimize(*this, *p); }
    ApplicationReturnStatus ReOptimizeTNLP(SmartPtr<TNLP> const &p) { return OptimizeTNLP(p); }
    bool RethrowNonIpoptException(bool) { return true; }
    void PrintCopyrightMessage() {}
  };
}
inline Ipopt::IpoptApplication *IpoptApplicationFactory() { return new Ipopt::IpoptApplication(); }
