#include <sstream>
#include "drv.h"
#include "tools/XmlParser.h"
#include "tools/QDGlobalClock.h"
#include "tools/GlobalParams.h"
#include "tools/Logger.h"
#include "qdlib/WFGridCartesian.h"
#include "qdlib/WFLevel.h"
#include "qdlib/WFMultistate.h"
#include "qdlib/OPropagator.h"
#include "qdlib/OLaser.h"
#include "qdlib/OMultistate.h"
#include "ChainLoader.h"
#include "GlobalOpList.h"
#include "GlobalWFList.h"
#ifdef _OPENMP
#include <omp.h>
#endif

using namespace QDLIB;
static std::map<std::string, WaveFunction*> wfs;
static std::map<std::string, Operator*> ops;

WaveFunction* WF(const std::string& id) {
   if (!wfs.count(id)) throw DrvError("no wf " + id);
   return wfs[id];
}
Operator* OP(const std::string& id) {
   if (!ops.count(id)) throw DrvError("no op " + id);
   return ops[id];
}
void setWF(const std::string& id, WaveFunction* p) { wfs[id] = p; }
void setOP(const std::string& id, Operator* p) { ops[id] = p; }

std::string getData(WaveFunction* w) {
   std::string o;
   for (int s = 0; s < w->strides(); s++)
      o.append((const char*) w->begin(s), w->lsize() * sizeof(dcomplex));
   return o;
}
void setData(WaveFunction* w, const std::string& d) {
   size_t per = w->lsize() * sizeof(dcomplex);
   if (d.size() != per * w->strides()) throw DrvError("wf data size mismatch");
   for (int s = 0; s < w->strides(); s++) memcpy((void*) w->begin(s), d.data() + s * per, per);
}

/* global parameters (key/value) */
CMD("gp") { ParamContainer& gp = GlobalParams::Instance(); ParamContainer p = PM(1); gp += p; }

CMD("wf.new") {   /* id class k v ... */
   WaveFunction* w;
   if (S(2) == "WFGridCartesian") w = new WFGridCartesian();
   else if (S(2) == "WFLevel") w = new WFLevel();
   else throw DrvError("class");
   ParamContainer p = PM(3);
   w->Init(p);
   setWF(S(1), w);
}
CMD("wf.multi") {   /* id reqsize  idx sub  idx sub ... ; consumes the subs */
   WFMultistate* m = new WFMultistate();
   for (size_t i = 3; i + 1 < N(); i += 2) { m->Add(WF(S(i+1)), Int(i)); wfs.erase(S(i+1)); }
   ParamContainer p;
   if (Int(2) > 0) p.SetValue("states", Int(2));
   m->Init(p);
   setWF(S(1), m);
}
CMD("wf.empty") { if (S(2) == "WFMultistate") setWF(S(1), new WFMultistate()); else if (S(2) == "WFLevel") setWF(S(1), new WFLevel()); else setWF(S(1), new WFGridCartesian()); }
CMD("wf.set") { setData(WF(S(1)), S(2)); }
CMD("wf.get") { out(getData(WF(S(1)))); }
CMD("wf.setel") { (*(cVec*) WF(S(1)))[Int(2)] = dcomplex(Dbl(3), Dbl(4)); }
CMD("wf.getel") { outc((*(cVec*) WF(S(1)))[Int(2)]); }
CMD("wf.meta") {
   WaveFunction* w = WF(S(1));
   out(w->Name()); outi(w->size()); outi(w->strides()); outi(w->IsKspace()); outi(w->size_bytes());
   string s; w->Params().Write(s); out(s);
   GridSystem* g = dynamic_cast<GridSystem*>(w);
   if (g == NULL && dynamic_cast<WFMultistate*>(w)) g = dynamic_cast<GridSystem*>(dynamic_cast<WFMultistate*>(w)->State(0));
   std::vector<double> v;
   if (g) for (int i = 0; i < g->Dim(); i++) { v.push_back(g->DimSize(i)); v.push_back(g->Xmin(i)); v.push_back(g->Xmax(i)); }
   outv(v);
}
CMD("wf.state") { WFMultistate* m = dynamic_cast<WFMultistate*>(WF(S(2))); if (!m) throw DrvError("not multi"); setWF(S(1), m->State(Int(3))); }
CMD("wf.states") { WFMultistate* m = dynamic_cast<WFMultistate*>(WF(S(1))); outi(m ? m->States() : 0); }
CMD("wf.newinst") { setWF(S(1), WF(S(2))->NewInstance()); }
CMD("wf.assign") { *WF(S(1)) = WF(S(2)); }
CMD("wf.copy") { WaveFunction* n = WF(S(2))->NewInstance(); *n = WF(S(2)); setWF(S(1), n); }
CMD("wf.del") { DELETE_WF(WF(S(1))); wfs.erase(S(1)); }
CMD("wf.norm") { outd(WF(S(1))->Norm()); }
CMD("wf.normalize") { WF(S(1))->Normalize(); }
CMD("wf.dot") { outc(*WF(S(1)) * WF(S(2))); }
CMD("wf.plus") { setWF(S(1), *WF(S(2)) + WF(S(3))); }
CMD("wf.addeq") { *WF(S(1)) += WF(S(2)); }
CMD("wf.subeq") { *WF(S(1)) -= WF(S(2)); }
CMD("wf.muld") { WaveFunction* w = WF(S(1)); *w *= Dbl(2); }
CMD("wf.mulc") { WaveFunction* w = WF(S(1)); *w *= dcomplex(Dbl(2), Dbl(3)); }
CMD("wf.setc") { WaveFunction* w = WF(S(1)); *((cVec*) w) = dcomplex(Dbl(2), Dbl(3)); }
CMD("wf.dp") { WF(S(1))->DirectProduct(WF(S(2))); }
CMD("wf.dpc") { WF(S(1))->DirectProductConjugate(WF(S(2))); }
CMD("wf.dp2") { setWF(S(1), DirectProduct(WF(S(2)), WF(S(3)))); }
CMD("wf.dpc2") { setWF(S(1), DirectProductConjugate(WF(S(2)), WF(S(3)))); }
CMD("wf.imag") { WF(S(1))->Imag(); }
CMD("wf.real") { WF(S(1))->Real(); }
CMD("wf.kspace") { if (WFMultistate* m = dynamic_cast<WFMultistate*>(WF(S(1)))) m->IsKspace(Int(2) != 0); else WF(S(1))->IsKspace(Int(2) != 0); }
CMD("wf.retire") { WF(S(1))->Retire(); }
CMD("wf.reaq") { WF(S(1))->Reaquire(); }
CMD("wf.reduce") { setWF(S(1), WF(S(2))->Reduce(Dbl(3))); }
CMD("wf.restore") { WF(S(1))->Restore(WF(S(2))); }
CMD("wf.integral") { outc(dynamic_cast<WFGridCartesian*>(WF(S(1)))->Integral()); }
CMD("wf.load") {   /* id xml [seqnum] */
   XmlParser* p = new XmlParser; p->Parse(S(2).c_str(), S(2).size());
   setWF(S(1), ChainLoader::LoadWaveFunctionChain(&p->Root(), N() > 3 ? Int(3) : -1));
}

/* operators */
CMD("clock") { QDClock* c = QDGlobalClock::Instance(); c->Dt(Dbl(1)); c->Steps(Int(2)); c->TimeStep(Int(3)); }
CMD("threads") {
#ifdef _OPENMP
   omp_set_num_threads(Int(1));
#endif
}
CMD("clock.step") { QDGlobalClock::Instance()->TimeStep(Int(1)); }
CMD("clock.inc") { ++(*QDGlobalClock::Instance()); }
CMD("clock.dec") { --(*QDGlobalClock::Instance()); }
CMD("clock.get") { QDClock* c = QDGlobalClock::Instance(); outd(c->Dt()); outi(c->Steps()); outi(c->TimeStep()); outd(c->Time()); }
CMD("op.load") {   /* id xml */
   XmlParser* p = new XmlParser; p->Parse(S(2).c_str(), S(2).size());
   setOP(S(1), ChainLoader::LoadOperatorChain(&p->Root(), true));
}
CMD("op.clock") { OP(S(1))->Clock(QDGlobalClock::Instance()); }
CMD("op.init") { OP(S(1))->Init(WF(S(2))); }
CMD("op.ginit") { GlobalOpList::Instance().Init(OP(S(1)), WF(S(2))); }
CMD("op.update") { OP(S(1))->UpdateTime(); }
CMD("op.recalc") { OP(S(1))->RecalcInternals(Int(2) != 0); }
CMD("op.apply") { OP(S(1))->Apply(WF(S(2)), WF(S(3))); }
CMD("op.applyparent") { OP(S(1))->ApplyParent(WF(S(2)), WF(S(3))); }
CMD("op.inplace") { OP(S(1))->Apply(WF(S(2))); }
CMD("op.applyadd") { OP(S(1))->ApplyAdd(WF(S(2)), WF(S(3))); }
CMD("op.matel") { outc(OP(S(1))->MatrixElement(WF(S(2)), WF(S(3)))); }
CMD("op.expec") { outd(OP(S(1))->Expec(WF(S(2)))); }
CMD("op.emax") { outc(OP(S(1))->Emax()); }
CMD("op.emin") { outc(OP(S(1))->Emin()); }
CMD("op.flags") { Operator* o = OP(S(1)); outi(o->Hermitian()); outi(o->isTimeDep()); outi(o->Conj()); out(o->Name()); }
CMD("op.conj") { OP(S(1))->Conj(Int(2) != 0); }
CMD("op.valid") { outi(OP(S(1))->Valid(WF(S(2)))); }
CMD("op.copy") { Operator* o = OP(S(2)); Operator* n = o->NewInstance(); n->Copy(o); setOP(S(1), n); }
CMD("op.assign") { Operator* o = OP(S(2)); Operator* n = o->NewInstance(); *n = o; setOP(S(1), n); }
CMD("op.copyinto") { OP(S(1))->Copy(OP(S(2))); }
CMD("op.params") { string s; OP(S(1))->Params().Write(s); out(s); }
CMD("op.del") { DELETE_OP(OP(S(1))); ops.erase(S(1)); }
CMD("op.member") { OList* l = dynamic_cast<OList*>(OP(S(2))); if (!l) throw DrvError("no list"); setOP(S(1), l->Get(Int(3))); }
CMD("op.state") { OMultistate* l = dynamic_cast<OMultistate*>(OP(S(2))); if (!l) throw DrvError("no multi"); setOP(S(1), l->State(Int(3), Int(4))); }
static OPropagator* U(size_t i) { OPropagator* u = dynamic_cast<OPropagator*>(OP(S(i))); if (!u) throw DrvError("no propagator"); return u; }
CMD("u.forward") { U(1)->Forward(); }
CMD("u.backward") { U(1)->Backward(); }
CMD("u.imag") { U(1)->ImaginaryTime(); }
CMD("u.realtime") { U(1)->RealTime(); }
CMD("u.exponent") { outc(U(1)->Exponent()); }
CMD("u.setexp") { U(1)->Exponent(dcomplex(Dbl(2), Dbl(3))); }
CMD("u.ham") { setOP(S(2), U(1)->Hamiltonian()); }
CMD("op.laser") {   /* op n -> field samples, scale */
   OLaser* l = dynamic_cast<OLaser*>(OP(S(1))); if (!l) throw DrvError("no laser op");
   Laser* L = l->GetLaser(Int(2));
   outi(l->NumLasers()); outi(L->Nt()); outd(L->Dt());
   std::vector<double> v; for (int i = 0; i < L->Nt(); i++) v.push_back((*L)[i]);
   outv(v); outd(L->PulseEnergy()); outd(L->Scale());
}
CMD("op.lget") { outd(dynamic_cast<OLaser*>(OP(S(1)))->GetLaser(Int(2))->Get()); }
CMD("op.lset") { dynamic_cast<OLaser*>(OP(S(1)))->GetLaser(Int(2))->Set(Dbl(3)); }
CMD("globals.clear") { GlobalOpList::Instance().Clear(); ops.clear(); }
CMD("cwd") { if (chdir(S(1).c_str())) throw DrvError("chdir"); }
CMD("env") { setenv(S(1).c_str(), S(2).c_str(), 1); }
