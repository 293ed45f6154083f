#ifndef DRV_H
#define DRV_H
#include <string>
#include <vector>
#include <map>
#include <cstring>
#include <cstdlib>
#include <functional>
#include "config.h"
#include "tools/Exception.h"
#include "tools/ParamContainer.h"
#include "qdlib/WaveFunction.h"
#include "qdlib/Operator.h"
struct DrvError { std::string msg; DrvError(const std::string& m) : msg(m) {} };
extern std::vector<std::string> A, R;
std::map<std::string, std::function<void()> >& cmds();
struct Reg { Reg(const char* n, std::function<void()> f) { cmds()[n] = f; } };
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
#define CMD(name) static void CAT(cmd_,__LINE__)(); static Reg CAT(reg_,__LINE__)(name, CAT(cmd_,__LINE__)); static void CAT(cmd_,__LINE__)()
inline size_t N() { return A.size(); }
inline const std::string& S(size_t i) { if (i >= A.size()) throw DrvError("missing arg"); return A[i]; }
inline int Int(size_t i) { return atoi(S(i).c_str()); }
inline long Lng(size_t i) { return atol(S(i).c_str()); }
inline double Dbl(size_t i) { const std::string& s = S(i); if (s.size() != 8) throw DrvError("double arg"); double d; memcpy(&d, s.data(), 8); return d; }
inline std::vector<double> Dvec(size_t i) { const std::string& s = S(i); std::vector<double> v(s.size()/8); memcpy(v.data(), s.data(), v.size()*8); return v; }
inline std::vector<int> Ivec(size_t i) { std::vector<double> v = Dvec(i); return std::vector<int>(v.begin(), v.end()); }
inline void out(const std::string& s) { R.push_back(s); }
inline void outi(long v) { R.push_back(std::to_string(v)); }
inline void outd(double d) { R.push_back(std::string((char*) &d, 8)); }
inline void outv(const std::vector<double>& v) { R.push_back(std::string((const char*) v.data(), v.size()*8)); }
inline void outraw(const void* p, size_t n) { R.push_back(std::string((const char*) p, n)); }
inline void outc(QDLIB::dcomplex c) { std::vector<double> v{c.real(), c.imag()}; outv(v); }
/* key/value pairs from argument i on */
inline QDLIB::ParamContainer PM(size_t i) {
   QDLIB::ParamContainer p;
   for (; i + 1 < A.size(); i += 2) p.SetValue(A[i], A[i+1]);
   return p;
}
QDLIB::WaveFunction* WF(const std::string& id);
QDLIB::Operator* OP(const std::string& id);
void setWF(const std::string& id, QDLIB::WaveFunction* p);
void setOP(const std::string& id, QDLIB::Operator* p);
QDLIB::dMat* mkMat(size_t argM, int r, int c);
/* amplitudes of a wave function, states in order */
std::string getData(QDLIB::WaveFunction* w);
void setData(QDLIB::WaveFunction* w, const std::string& d);
#endif
