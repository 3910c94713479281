// Simulated Ipopt (only what src/solvers/ipopt_interface.hpp uses): the optimiser is scripted by the simulator (g_ip).
#ifndef STUB_IPTNLP_HPP
#define STUB_IPTNLP_HPP
#include <cstddef>
#include <functional>
#include <map>
#include <string>
namespace Ipopt {
typedef double Number; typedef int Index;
enum ApplicationReturnStatus { Solve_Succeeded = 0, Solved_To_Acceptable_Level = 1, Infeasible_Problem_Detected = 2, Search_Direction_Becomes_Too_Small = 3, Diverging_Iterates = 4, User_Requested_Stop = 5, Feasible_Point_Found = 6, Maximum_Iterations_Exceeded = -1, Restoration_Failed = -2, Error_In_Step_Computation = -3, Not_Enough_Degrees_Of_Freedom = -10, Invalid_Problem_Definition = -11, Invalid_Option = -12, Invalid_Number_Detected = -13, Unrecoverable_Exception = -100, Internal_Error = -199 };
enum SolverReturn { SUCCESS, MAXITER_EXCEEDED, STOP_AT_TINY_STEP, STOP_AT_ACCEPTABLE_POINT, LOCAL_INFEASIBILITY, USER_REQUESTED_STOP, DIVERGING_ITERATES, RESTORATION_FAILURE, ERROR_IN_STEP_COMPUTATION, INVALID_NUMBER_DETECTED, INTERNAL_ERROR };
class IpoptData; class IpoptCalculatedQuantities;
class ReferencedObject { public: mutable int refs = 0; virtual ~ReferencedObject() {} };
template<class T> class SmartPtr { T* p = nullptr; void set(T* q) { if (q) ++q->refs; if (p && --p->refs == 0) delete p; p = q; } template<class U> friend class SmartPtr;
public: SmartPtr() {} SmartPtr(T* q) { set(q); } SmartPtr(const SmartPtr& o) { set(o.p); } template<class U> SmartPtr(const SmartPtr<U>& o) { set(o.p); } ~SmartPtr() { set(nullptr); } SmartPtr& operator=(T* q) { set(q); return *this; } SmartPtr& operator=(const SmartPtr& o) { set(o.p); return *this; } T* operator->() const { return p; } T& operator*() const { return *p; } T* raw() const { return p; } };
template<class U> U* GetRawPtr(const SmartPtr<U>& s) { return s.raw(); } template<class U> bool IsValid(const SmartPtr<U>& s) { return s.raw() != nullptr; } template<class U> bool IsNull(const SmartPtr<U>& s) { return s.raw() == nullptr; }
class TNLP : public ReferencedObject { public: enum IndexStyleEnum { C_STYLE = 0, FORTRAN_STYLE = 1 };
    virtual bool get_nlp_info(Index&, Index&, Index&, Index&, IndexStyleEnum&) = 0;
    virtual bool get_bounds_info(Index, Number*, Number*, Index, Number*, Number*) = 0;
    virtual bool get_starting_point(Index, bool, Number*, bool, Number*, Number*, Index, bool, Number*) = 0;
    virtual bool eval_f(Index, const Number*, bool, Number&) = 0;
    virtual bool eval_grad_f(Index, const Number*, bool, Number*) = 0;
    virtual bool eval_g(Index, const Number*, bool, Index, Number*) = 0;
    virtual bool eval_jac_g(Index, const Number*, bool, Index, Index, Index*, Index*, Number*) = 0;
    virtual bool eval_h(Index, const Number*, bool, Number, Index, const Number*, bool, Index, Index*, Index*, Number*) = 0;
    virtual void finalize_solution(SolverReturn, Index, const Number*, const Number*, const Number*, Index, const Number*, const Number*, Number, const IpoptData*, IpoptCalculatedQuantities*) = 0; };
class OptionsList : public ReferencedObject { public: std::map<std::string, double> num; std::map<std::string, std::string> str; bool SetNumericValue(const std::string& k, Number v, bool = true, bool = false) { num[k] = v; return true; } bool SetIntegerValue(const std::string& k, Index v, bool = true, bool = false) { num[k] = v; return true; } bool SetStringValue(const std::string& k, const std::string& v, bool = true, bool = false) { str[k] = v; return true; } };
class SolveStatistics : public ReferencedObject { public: Index it = 0; Number di = 0, cv = 0, bv = 0, co = 0, kkt = 0, obj = 0; Index IterationCount() const { return it; } void Infeasibilities(Number& a, Number& b, Number& c, Number& d, Number& e) const { a = di; b = cv; c = bv; d = co; e = kkt; } Number FinalObjective() const { return obj; } };
struct Script { std::function<ApplicationReturnStatus(TNLP*, SmartPtr<SolveStatistics>&)> run; ApplicationReturnStatus init = Solve_Succeeded; OptionsList* options = nullptr; };
Script& script();
class IpoptApplication : public ReferencedObject { SmartPtr<OptionsList> o{new OptionsList}; SmartPtr<SolveStatistics> s; public: SmartPtr<OptionsList> Options() { return o; } SmartPtr<const OptionsList> Options() const { return o; } ApplicationReturnStatus Initialize() { return script().init; } SmartPtr<SolveStatistics> Statistics() { return s; }
    ApplicationReturnStatus OptimizeTNLP(const SmartPtr<TNLP>& t) { s = SmartPtr<SolveStatistics>(); script().options = GetRawPtr(o); return script().run(GetRawPtr(t), s); } };
}
inline Ipopt::IpoptApplication* IpoptApplicationFactory() { return new Ipopt::IpoptApplication; }
#endif
