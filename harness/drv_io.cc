#include <sstream>
#include <fstream>
#include "drv.h"
#include "tools/XmlParser.h"
#include "tools/GlobalParams.h"
#include "tools/Memory.h"
#include "tools/QDClock.h"
#include "qdlib/FileWF.h"
#include "qdlib/WFBuffer.h"
#include "qdlib/WFMultistate.h"
#include "qdlib/OGridPotential.h"
#include "qdlib/OHermitianMatrix.h"
#include "qdlib/Laser.h"
#include "simpleXml/Simple2Xml.h"

using namespace QDLIB;

/* ---- wave function files ---- */
static std::map<std::string, FileWF*> files;
static FileWF* F(size_t i) { if (!files.count(S(i))) throw DrvError("no file " + S(i)); return files[S(i)]; }
CMD("fw.new") {   /* id basename */
   FileWF* f = new FileWF(); f->Name(S(2)); f->Suffix(BINARY_WF_SUFFIX); files[S(1)] = f;
}
CMD("fw.del") { delete F(1); files.erase(S(1)); }
CMD("fw.name") { F(1)->Name(S(2)); }
CMD("fw.format") { F(1)->FormatOut(S(2) == "binary" ? FileWF::binary : FileWF::stream); }
CMD("fw.compress") {
   if (S(2) == "none") F(1)->Compress(false);
   else { F(1)->Compress(true); F(1)->CompressMethod(S(2) == "BZIP" ? FileWF::BZIP : FileWF::ZLIB); }
   F(1)->CompressionTolerance(Dbl(3));
}
CMD("fw.seq") { F(1)->ActivateSequence(Int(2)); }
CMD("fw.stopseq") { F(1)->StopSequence(); }
CMD("fw.dropmeta") { F(1)->DropMeta(Int(2) != 0); }
CMD("fw.counter") { F(1)->Counter(Int(2)); }
CMD("fw.getcounter") { outi(F(1)->Counter()); }
CMD("fw.write") { *F(1) << WF(S(2)); }
CMD("fw.read") { *F(1) >> WF(S(2)); }
CMD("fw.readnew") { WaveFunction* w = NULL; *F(1) >> &w; setWF(S(2), w); }

/* serialisation interface used by the memory buffer and the interactive mode */
CMD("wf.ser") { std::stringstream ss; WF(S(1))->Serialize(ss); out(ss.str()); }
CMD("wf.deser") { std::stringstream ss; ss << S(2); WF(S(1))->DeSerialize(ss); }

/* ---- operator and laser files (through the objects' own FileSingle interface) ---- */
template<class T> static void rw(FileSingle<T>& f, T* o, bool write, const std::string& name, const std::string& fmt, const std::string& comp) {
   f.Suffix(BINARY_O_SUFFIX); f.Name(name);
   if (write) {
      f.FormatOut(fmt == "binary" ? FileSingle<T>::binary : FileSingle<T>::stream);
      f.Compression(comp == "ZLIB" ? FileSingle<T>::ZLIB : comp == "BZIP" ? FileSingle<T>::BZIP : FileSingle<T>::UNCOMPRESSED);
      f << o;
   } else f >> o;
}
/* grid: name fmt comp  vector{n,xmin,xmax per dim} data */
CMD("fo.writegrid") {
   OGridPotential* p = new OGridPotential();
   std::vector<double> g = Dvec(4);
   ParamContainer pm; pm.SetValue("dims", (int) (g.size() / 3));
   for (size_t i = 0; i < g.size() / 3; i++) {
      char n[40], a[40], b[40]; sprintf(n, "%d", (int) g[3*i]); sprintf(a, "%.17g", g[3*i+1]); sprintf(b, "%.17g", g[3*i+2]);
      pm.SetValue("N" + std::to_string(i), n); pm.SetValue("xmin" + std::to_string(i), a); pm.SetValue("xmax" + std::to_string(i), b);
   }
   p->Init(pm);
   if (S(5).size() != p->sizeBytes()) throw DrvError("size");
   memcpy(p->begin(0), S(5).data(), S(5).size());
   FileSingle<OGridPotential> f; rw(f, p, true, S(1), S(2), S(3));
   DELETE_OP(p);
}
CMD("fo.readgrid") {
   OGridPotential* p = new OGridPotential();
   OGridSystem::FileOGrid f; f.Suffix(BINARY_O_SUFFIX); f.Name(S(1)); f >> (OGridSystem*) p;
   outraw(p->begin(0), p->sizeBytes());
   std::vector<double> v;
   for (int i = 0; i < p->Dim(); i++) { v.push_back(p->DimSize(i)); v.push_back(p->Xmin(i)); v.push_back(p->Xmax(i)); }
   outv(v);
   DELETE_OP(p);
}
CMD("fo.writemat") {   /* name fmt comp n data(row major) */
   OHermitianMatrix* p = new OHermitianMatrix(); int n = Int(4);
   ParamContainer pm; pm.SetValue("size", n); p->Init(pm);
   std::vector<double> d = Dvec(5);
   for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) (*(dMat*) p)(i, j) = d.at(i*n + j);
   rw(*p->File(), p, true, S(1), S(2), S(3));
   DELETE_OP(p);
}
CMD("fo.readmat") {
   OHermitianMatrix* p = new OHermitianMatrix();
   rw(*p->File(), p, false, S(1), "", "");
   int n = p->rows(); std::vector<double> v;
   for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) v.push_back((*(dMat*) p)(i, j));
   outi(n); outv(v);
   DELETE_OP(p);
}
CMD("fo.writelaser") {   /* name fmt comp dt data */
   Laser* p = new Laser(); char dt[40]; sprintf(dt, "%.17g", Dbl(4));
   ParamContainer pm; pm.SetValue("dt", dt); pm.SetValue("Nt", (int) (S(5).size() / 8)); p->Init(pm);
   memcpy(p->begin(0), S(5).data(), S(5).size());
   rw(p->File(), p, true, S(1), S(2), S(3));
   delete p;
}
CMD("fo.readlaser") {
   Laser* p = new Laser();
   rw(p->File(), p, false, S(1), "", "");
   outi(p->Nt()); outd(p->Dt()); outraw(p->begin(0), p->sizeBytes());
   delete p;
}
/* laser object methods: dt data steps -> spectrum, energy, vector potential, get at step */
CMD("laser") {
   Laser* p = new Laser(); char dt[40]; sprintf(dt, "%.17g", Dbl(1));
   ParamContainer pm; pm.SetValue("dt", dt); pm.SetValue("Nt", (int) (S(2).size() / 8)); p->Init(pm);
   memcpy(p->begin(0), S(2).data(), S(2).size());
   QDClock* c = new QDClock(Int(3), Dbl(1));
   p->Clock(c);
   p->Scale(Dbl(4));
   c->TimeStep(Int(5));
   outd(p->Get()); outd(p->GetVectorPot()); outd(p->PulseEnergy());
   Laser q(*p); outd(q.Scale());
   cVec* s = p->Spectrum(); outraw(s->begin(0), s->sizeBytes());
   p->ToTimeDomain(); outraw(p->begin(0), p->sizeBytes());
}

/* ---- wave function buffer ---- */
static std::map<std::string, WFBuffer*> bufs;
static WFBuffer* B(size_t i) { if (!bufs.count(S(i))) throw DrvError("no buffer"); return bufs[S(i)]; }
CMD("buf.new") { bufs[S(1)] = new WFBuffer(); if (N() > 2) bufs[S(1)]->AutoLock(Int(2)); }
CMD("buf.init") { B(1)->Init(WF(S(2))); }
CMD("buf.set") { B(1)->Set(Lng(2), WF(S(3))); }
CMD("buf.add") { B(1)->Add(WF(S(2))); }
CMD("buf.get") { out(getData(B(1)->Get(Lng(2)))); }
CMD("buf.getref") { setWF(S(3), B(1)->Get(Lng(2))); }   /* pointer handed to the caller */
CMD("buf.resize") { B(1)->ResizeBuffer(Lng(2)); }
CMD("buf.size") { outi(B(1)->Size()); }
CMD("buf.clear") { B(1)->Clear(); }
CMD("buf.lock") { B(1)->Lock(Lng(2)); }
CMD("buf.unlock") { B(1)->UnLock(Lng(2)); }
CMD("buf.autolock") { B(1)->AutoLock(Lng(2)); }
CMD("buf.save") { B(1)->SaveToFiles(S(2)); }
CMD("buf.read") { B(1)->ReadFromFiles(S(2), Int(3), Int(4), Int(5)); }
CMD("buf.del") { delete B(1); bufs.erase(S(1)); }

/* ---- memory manager ---- */
static std::map<std::string, void*> blocks;
CMD("mem.max") { ParamContainer& gp = GlobalParams::Instance(); gp.SetValue("MaxMem", S(1)); Memory::Instance().Reconfigure(); }
CMD("mem.align") {   /* id size: allocate, fill with a pattern */
   void* p = NULL; size_t n = strtoull(S(2).c_str(), NULL, 10);
   Memory::Instance().Align(&p, n);
   if (p && n) memset(p, (int) (S(1)[0] + n), n);
   blocks[S(1)] = p; outi(((uintptr_t) p) % QDLIB_DATA_ALIGNMENT); outi(p != NULL);
}
CMD("mem.free") { Memory::Instance().Free(blocks[S(1)]); blocks.erase(S(1)); }
CMD("mem.freeforeign") { static char c[64]; Memory::Instance().Free(c); }
CMD("mem.check") { size_t n = strtoull(S(2).c_str(), NULL, 10); char* p = (char*) blocks[S(1)]; long bad = 0; for (size_t i = 0; i < n; i++) bad += p[i] != (char) (S(1)[0] + n); outi(bad); }
CMD("mem.cleanup") { Memory::Instance().Cleanup(); }
CMD("mem.stat") { Memory& m = Memory::Instance(); out(std::to_string(m.MaximumSize())); out(std::to_string(m.CurrentSizeUsed())); out(std::to_string(m.CurrentSizeAvail())); out(std::to_string(m.MaximumSizeUsed())); outi(QDMEM_BLOCK_SIZE); }
CMD("mem.parse") { out(std::to_string(Memory::ReadFromString(S(1)))); }
CMD("mem.format") { out(Memory::Format(strtoull(S(1).c_str(), NULL, 10))); }
CMD("mem.copy") { std::string d(S(1).size(), 0); std::string s = S(1); Memory::Copy(&d[0], &s[0], s.size()); out(d); }
/* vectors as memory users */
static std::map<std::string, dVec*> vecs;
CMD("mem.vec") { vecs[S(1)] = new dVec((lint) Int(2), (lint) Int(3)); }
CMD("mem.vecresize") { vecs[S(1)]->newsize(Int(2)); outi(vecs[S(1)]->size()); }
CMD("mem.vecassign") { *vecs[S(1)] = *vecs[S(2)]; }
CMD("mem.vecdel") { delete vecs[S(1)]; vecs.erase(S(1)); }

/* ---- temporary files ---- */
static TmpFile<double>* tmpf = NULL;
static double* tmpp = NULL;
CMD("tmp.open") { if (!tmpf) tmpf = new TmpFile<double>(); tmpp = tmpf->Open(Lng(1), Int(2) != 0); outi(tmpp != NULL); }
CMD("tmp.resize") { tmpp = tmpf->Resize(Lng(1)); outi(tmpf->Size()); }
CMD("tmp.seek") { tmpf->Seek(Lng(1)); }
CMD("tmp.write") { std::vector<double> v = Dvec(1); tmpf->Write(v.data(), v.size()); }
CMD("tmp.read") { std::vector<double> v(Lng(1)); tmpf->Read(v.data(), v.size()); outv(v); }
CMD("tmp.put") { if (!tmpp) throw DrvError("no map"); std::vector<double> v = Dvec(2); memcpy(tmpp + Lng(1), v.data(), v.size()*8); }
CMD("tmp.fetch") { if (!tmpp) throw DrvError("no map"); std::vector<double> v(tmpp + Lng(1), tmpp + Lng(1) + Lng(2)); outv(v); }
CMD("tmp.flush") { tmpf->Flush(); }
CMD("tmp.close") { tmpf->Close(); tmpp = NULL; }
CMD("tmp.size") { outi(tmpf->Size()); outi(tmpf->isOpen()); }

/* ---- parameter containers ---- */
static std::map<std::string, ParamContainer> pcs;
static ParamContainer& P(size_t i) { return pcs[S(i)]; }
CMD("pc.set") {   /* id type name value */
   const std::string& t = S(2);
   if (t == "str") P(1).SetValue(S(3), S(4));
   else if (t == "cstr") P(1).SetValue(S(3), S(4).c_str());
   else if (t == "int") P(1).SetValue(S(3), Int(4));
   else if (t == "long") P(1).SetValue(S(3), (long) Lng(4));
   else if (t == "sizet") P(1).SetValue(S(3), (size_t) strtoull(S(4).c_str(), NULL, 10));
   else if (t == "double") P(1).SetValue(S(3), Dbl(4));
   else if (t == "bool") P(1).SetValue(S(3), (bool) (S(4) == "1"));
   else if (t.substr(0, 2) == "s:") P(1).SetValue(S(3), S(4), ParamContainer::String2Type(t.substr(2)));
   else throw DrvError("type");
}
CMD("pc.seta") {   /* id type name values(double bytes) */
   std::vector<double> v = Dvec(4); const std::string& t = S(2);
   if (t == "double") P(1).SetArray(S(3), v.data(), v.size());
   else if (t == "int") { std::vector<int> w(v.begin(), v.end()); P(1).SetArray(S(3), w.data(), w.size()); }
   else if (t == "sizet") { std::vector<size_t> w(v.begin(), v.end()); P(1).SetArray(S(3), w.data(), w.size()); }
   else if (t == "bool") { bool* w = new bool[v.size() + 1]; for (size_t i = 0; i < v.size(); i++) w[i] = v[i] != 0; P(1).SetArray(S(3), w, v.size()); delete[] w; }
   else throw DrvError("type");
}
CMD("pc.get") {   /* id type name -> present, value as string / raw double */
   const std::string& t = S(2); bool r;
   if (t == "str") { std::string v = "zz"; r = P(1).GetValue(S(3), v); outi(r); out(v); }
   else if (t == "int") { int v = 77; r = P(1).GetValue(S(3), v); outi(r); outi(v); }
   else if (t == "uint") { unsigned v = 77; r = P(1).GetValue(S(3), v); outi(r); outi(v); }
   else if (t == "long") { long v = 77; r = P(1).GetValue(S(3), v); outi(r); outi(v); }
   else if (t == "sizet") { size_t v = 77; r = P(1).GetValue(S(3), v); outi(r); out(std::to_string(v)); }
   else if (t == "double") { double v = 77; r = P(1).GetValue(S(3), v); outi(r); outd(v); }
   else if (t == "bool") { bool v = true; r = P(1).GetValue(S(3), v, S(4) == "1"); outi(r); outi(v); }
   else throw DrvError("type");
}
CMD("pc.geta") {
   const std::string& t = S(2); bool r; std::vector<double> o;
   if (t == "str") { std::vector<std::string> v; r = P(1).GetArray(S(3), v); outi(r); for (auto& s : v) out(s); return; }
   else if (t == "double") { std::vector<double> v; r = P(1).GetArray(S(3), v); o = v; }
   else if (t == "int") { std::vector<int> v; r = P(1).GetArray(S(3), v); o.assign(v.begin(), v.end()); }
   else if (t == "uint") { std::vector<unsigned> v; r = P(1).GetArray(S(3), v); o.assign(v.begin(), v.end()); }
   else if (t == "char") { std::vector<char> v; r = P(1).GetArray(S(3), v); o.assign(v.begin(), v.end()); }
   else if (t == "bool") { std::vector<bool> v; r = P(1).GetArray(S(3), v); o.assign(v.begin(), v.end()); }
   else throw DrvError("type");
   outi(r); outv(o);
}
CMD("pc.present") { outi(P(1).isPresent(S(2))); outi(P(1).isPresent(S(2).c_str())); outi(P(1).GetType(S(2))); outi(P(1).Size()); }
CMD("pc.istype") { outi(P(1).isType(S(2), S(3))); }
CMD("pc.clear") { P(1).clear(); }
CMD("pc.merge") { P(1) += P(2); }
CMD("pc.assign") { P(1) = P(2); }
CMD("pc.list") { std::string k, v; P(1).ResetPosition(); while (P(1).GetNextValue(k, v)) { out(k); out(v); } }
CMD("pc.write") { std::string s; P(1).Write(s, Int(2) != 0); out(s); }
CMD("pc.parse") { P(1).Parse(S(2)); }
CMD("pc.parseeof") { std::stringstream ss; ss << S(2); P(1).Parse(ss, S(3).c_str()); std::string rest((std::istreambuf_iterator<char>(ss)), std::istreambuf_iterator<char>()); out(rest); }
CMD("pc.tofile") { outi(P(1).WriteToFile(S(2), Int(3) != 0)); }
CMD("pc.fromfile") { outi(P(1).ReadFromFile(S(2))); }

/* ---- input language ---- */
extern std::map<std::string, std::string> varlist;
CMD("sx.var") { varlist[S(1)] = S(2); }
CMD("sx.type") { outi(QDSXML::CheckType(S(1))); }
CMD("sx.parse") { std::string b; QDSXML::Parse(S(1), b); out(b); }
CMD("sx.convert") { QDSXML::Convert(S(1), S(2)); }
static void dump(XmlNode* n, std::string& o, int depth) {
   if (depth > 50) { o += "<deep>"; return; }
   while (n->EndNode()) {
      o += n->Name() + "("; std::string s; n->Attributes().Write(s); o += s + ")[";
      XmlNode* c = n->NextChild();
      if (c && c->EndNode()) dump(c, o, depth + 1);
      o += "]";
      n->NextNode();
   }
}
CMD("xml.dump") { XmlParser* p = new XmlParser; p->Parse(S(1).c_str(), S(1).size()); std::string o; dump(&p->Root(), o, 0); out(o); }
CMD("xml.file") { XmlParser* p = new XmlParser; p->Parse(S(1)); std::string o; dump(&p->Root(), o, 0); out(o); }
#include <sys/stat.h>
CMD("mkdir") { mkdir(S(1).c_str(), 0777); }
CMD("unlink") { outi(unlink(S(1).c_str())); }
/* read a data file and store the object again */
CMD("fo.copy") {   /* kind src dst fmt comp */
   if (S(1) == "grid") {
      OGridPotential* p = new OGridPotential();
      OGridSystem::FileOGrid f; f.Suffix(BINARY_O_SUFFIX); f.Name(S(2)); f >> (OGridSystem*) p;
      FileSingle<OGridPotential> g; rw(g, p, true, S(3), S(4), S(5));
      DELETE_OP(p);
   } else if (S(1) == "mat") {
      OHermitianMatrix* p = new OHermitianMatrix();
      rw(*p->File(), p, false, S(2), "", "");
      rw(*p->File(), p, true, S(3), S(4), S(5));
      DELETE_OP(p);
   } else {
      Laser* p = new Laser();
      rw(p->File(), p, false, S(2), "", "");
      rw(p->File(), p, true, S(3), S(4), S(5));
      delete p;
   }
}
