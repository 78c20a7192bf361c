// Generic tree: the exchange format between the harness and the independent oracle (Python).
// One line per node: "<depth> <tag> k=v k=v", values %XX-escaped.
#pragma once
#include "node.h"
#include <memory>
#include <type_traits>
#include "Include/VectorworksMVR.h"

using namespace VectorworksMVR;
using namespace VectorworksMVR::GdtfDefines;
// owning pointer that takes over the reference of an out parameter
template <class T> struct P {
  T* p = nullptr; P() {} P(const P&) = delete; P(P&& o) : p(o.p) { o.p = nullptr; } ~P() { if (p) p->Release(); }
  T** operator&() { return &p; } T* operator->() const { return p; } explicit operator bool() const { return p != nullptr; }
};

// --- value codec -------------------------------------------------------------------------------------
inline std::string S(MvrString s) { return s ? s : "(null)"; }
template <class A, class En = void> struct Val;
template <> struct Val<double> { static std::string out(double v) { return H::D(v); } static double in(const std::string& s) { return H::ToD(s.c_str()); } };
template <> struct Val<bool> { static std::string out(bool v) { unsigned char c; memcpy(&c, &v, 1); return std::to_string((int)c); } static bool in(const std::string& s) { return s == "1"; } };
template <class A> struct Val<A, typename std::enable_if<std::is_integral<A>::value && !std::is_same<A, bool>::value>::type> {
  static std::string out(A v) { return std::is_signed<A>::value ? std::to_string((long long)v) : std::to_string((unsigned long long)v); }
  static A in(const std::string& s) { return std::is_signed<A>::value ? (A)strtoll(s.c_str(), 0, 10) : (A)strtoull(s.c_str(), 0, 10); } };
template <class A> struct Val<A, typename std::enable_if<std::is_enum<A>::value>::type> {
  static std::string out(A v) { typename std::underlying_type<A>::type u; memcpy(&u, &v, sizeof u); return std::to_string((long long)u); }
  static A in(const std::string& s) { return (A)strtoll(s.c_str(), 0, 10); } };
template <> struct Val<CieColor> {
  static std::string out(const CieColor& v) { return H::D(v.fx) + "," + H::D(v.fy) + "," + H::D(v.f_Y); }
  static CieColor in(const std::string& s) { auto f = H::Split(s, ','); CieColor c; c.fx = H::ToD(f[0].c_str()); c.fy = H::ToD(f[1].c_str()); c.f_Y = H::ToD(f[2].c_str()); return c; } };
template <> struct Val<STransformMatrix> {
  static std::string out(const STransformMatrix& m) { const double* d = &m.ux; std::string o; for (int i = 0; i < 12; i++) o += (i ? "," : "") + H::D(d[i]); return o; }
  static STransformMatrix in(const std::string& s) { STransformMatrix m; double* d = &m.ux; auto f = H::Split(s, ','); for (size_t i = 0; i < 12; i++) d[i] = i < f.size() ? H::ToD(f[i].c_str()) : 0; return m; } };
template <> struct Val<SVector3> {
  static std::string out(const SVector3& m) { return H::D(m.x) + "," + H::D(m.y) + "," + H::D(m.z); }
  static SVector3 in(const std::string& s) { auto f = H::Split(s, ','); SVector3 m; m.x = H::ToD(f[0].c_str()); m.y = H::ToD(f[1].c_str()); m.z = H::ToD(f[2].c_str()); return m; } };
template <> struct Val<MvrUUID> { // the text form has the bytes of each word in memory (little-endian) order
  static std::string out(const MvrUUID& m) { unsigned w[4] = {(unsigned)m.a, (unsigned)m.b, (unsigned)m.c, (unsigned)m.d}; std::string o; for (int i = 0; i < 16; i++) { char b[4]; snprintf(b, 4, "%02X", (w[i / 4] >> (8 * (i % 4))) & 255); o += b; if (i == 3 || i == 5 || i == 7 || i == 9) o += '-'; } return o; }
  static MvrUUID in(const std::string& s) { std::string h; for (char c : s) if (isxdigit((unsigned char)c)) h += c; h.resize(32, '0'); unsigned w[4] = {0, 0, 0, 0}; for (int i = 0; i < 16; i++) w[i / 4] |= (unsigned)strtoul(h.substr(i * 2, 2).c_str(), 0, 16) << (8 * (i % 4)); return MvrUUID(w[0], w[1], w[2], w[3]); } };
template <> struct Val<STime> {
  static std::string out(const STime& t) { return H::Fmt("%04d-%02d-%02dT%02d:%02d:%02d", t.fYear, t.fMonth, t.fDay, t.fHour, t.fMinute, t.fSecond); }
  static STime in(const std::string& s) { STime t; int y = 0, m = 0, d = 0, h = 0, mi = 0, se = 0; sscanf(s.c_str(), "%d-%d-%dT%d:%d:%d", &y, &m, &d, &h, &mi, &se); t.fYear = y; t.fMonth = m; t.fDay = d; t.fHour = h; t.fMinute = mi; t.fSecond = se; return t; } };
// Values that a getter leaves alone are recognisable: out parameters are preset to a pattern (in raw storage,
// so that an enum never holds the pattern while the harness itself looks at it).
template <class A> struct Out_ { alignas(A) unsigned char b[sizeof(A)]; Out_() { memset(b, 0x5A, sizeof b); if (std::is_same<A, bool>::value) b[0] = 0; } A* p() { return (A*)b; } std::string text() { return Val<A>::out(*p()); } };
template <class A> struct OutEnum { typename std::underlying_type<A>::type u; OutEnum() { memset(&u, 0x5A, sizeof u); } A* p() { return (A*)&u; } std::string text() { return std::to_string((long long)u); } };
template <> struct Out_<EGdtfModel_PrimitiveType> : OutEnum<EGdtfModel_PrimitiveType> {};
template <> struct Out_<EGdtfColorSample> : OutEnum<EGdtfColorSample> {};
template <> struct Out_<EGdtfLampType> : OutEnum<EGdtfLampType> {};
template <> struct Out_<EGdtfBeamType> : OutEnum<EGdtfBeamType> {};
template <> struct Out_<EGdtfDmxMaster> : OutEnum<EGdtfDmxMaster> {};
template <> struct Out_<EGdtfDmxSnap> : OutEnum<EGdtfDmxSnap> {};
template <> struct Out_<EGdtfDmxRelationType> : OutEnum<EGdtfDmxRelationType> {};
template <> struct Out_<EGdtfObjectType> : OutEnum<EGdtfObjectType> {};
template <> struct Out_<EGdtfChannelBitResolution> : OutEnum<EGdtfChannelBitResolution> {};
template <> struct Out_<ETransmissionType> : OutEnum<ETransmissionType> {};
template <class A> struct Preset { static A v() { A a; memset((void*)&a, 0x5A, sizeof a); return a; } };

// Another value of the type: what an object held before, when everything is set twice.
template <class A, class E = void> struct Junk { static A v(const A&) { return A(); } };
template <> struct Junk<double> { static double v(double x) { return x == 12.5 ? 3 : 12.5; } };
template <> struct Junk<bool> { static bool v(bool x) { return !x; } };
template <class A> struct Junk<A, typename std::enable_if<(std::is_integral<A>::value && !std::is_same<A, bool>::value) || std::is_enum<A>::value>::type> { static A v(A x) { return (A)((long long)x == 1 ? 2 : 1); } };
template <> struct Junk<CieColor> { static CieColor v(const CieColor&) { CieColor c; c.fx = 0.2; c.fy = 0.4; c.f_Y = 33; return c; } };
template <> struct Junk<STransformMatrix> { static STransformMatrix v(const STransformMatrix&) { STransformMatrix m; double* d = &m.ux; for (int i = 0; i < 12; i++) d[i] = i + 1.5; return m; } };
template <> struct Junk<SVector3> { static SVector3 v(const SVector3&) { SVector3 m; m.x = 1.5; m.y = 2.5; m.z = 3.5; return m; } };
template <> struct Junk<MvrUUID> { static MvrUUID v(const MvrUUID&) { return MvrUUID(9, 8, 7, 6); } };
template <> struct Junk<STime> { static STime v(const STime&) { STime t; t.fYear = 2001; t.fMonth = 2; t.fDay = 3; t.fHour = 4; t.fMinute = 5; t.fSecond = 6; return t; } };

// One visitor, two directions: set (from node n to the object) and get (from the object to node n).
struct Vis {
  bool setting; Node* n;
  static bool& Twice() { static thread_local bool t = false; return t; }   // set another value first
  std::vector<std::function<void()>>* deferred = nullptr;            // reference setters, run when everything exists
  std::map<std::string, void*>* objs = nullptr;                      // token -> interface pointer (build)
  std::vector<std::string>* problems = nullptr;
  void fail(const std::string& k, VCOMError e) { if (problems) problems->push_back(n->tag + "." + k + " err=" + std::to_string((unsigned)e)); }
  template <class I, class A, class B> void f(const char* k, I* o, VCOMError (I::*g)(A&), VCOMError (I::*s)(B)) {
    typedef typename std::decay<B>::type BB;
    if (setting) { auto v = n->get(k); if (!v) return; BB x = Val<BB>::in(*v); if (Twice()) { BB y = Junk<BB>::v(x); (o->*s)(y); H::Count("values set twice"); } VCOMError e = (o->*s)(x); if (e) fail(k, e); }
    else g_(k, o, g);
  }
  template <class I, class A, class B> void f(const char* k, I* o, VCOMError (I::*g)(A&) const, VCOMError (I::*s)(B)) { f(k, o, (VCOMError (I::*)(A&))g, s); }
  template <class I, class A> void f(const char* k, I* o, VCOMError (I::*g)(A&)) { if (!setting) g_(k, o, g); }
  template <class I, class A> void g_(const char* k, I* o, VCOMError (I::*g)(A&)) { Out_<A> x; VCOMError e = (o->*g)(*x.p()); if (!e) n->set(k, x.text()); else n->set(std::string("!") + k, std::to_string((unsigned)e)); }
  template <class I> void f(const char* k, I* o, MvrString (I::*g)(), VCOMError (I::*s)(MvrString)) {
    if (setting) { auto v = n->get(k); if (!v) return; if (Twice()) { (o->*s)("Before"); H::Count("values set twice"); } VCOMError e = (o->*s)(v->c_str()); if (e) fail(k, e); }
    else n->set(k, S((o->*g)()));
  }
  template <class I> void f(const char* k, I* o, MvrString (I::*g)()) { if (!setting) n->set(k, S((o->*g)())); }
  // references
  template <class I, class T> void r(const char* k, I* o, VCOMError (I::*g)(T**), VCOMError (I::*s)(T*)) {
    if (!setting) { r(k, o, g); return; }
    auto v = n->get(k); if (!v || v->empty()) return; std::string tok = *v, where = n->tag; auto* ob = objs; auto* pr = problems; std::string kk = k; bool tw = Twice();
    deferred->push_back([=] { auto it = ob->find(tok); if (it == ob->end()) { if (pr) pr->push_back("token " + tok); return; } if (tw) { auto o2 = ob->lower_bound(tok.substr(0, tok.find(':') + 1)); if (o2 != ob->end() && o2->first.compare(0, tok.find(':') + 1, tok, 0, tok.find(':') + 1) == 0) (o->*s)(static_cast<T*>(o2->second)); H::Count("references set twice"); } VCOMError e = (o->*s)(static_cast<T*>(it->second)); if (e && pr) pr->push_back(where + "." + kk + " err=" + std::to_string((unsigned)e)); });
  }
  template <class I, class T> void r(const char* k, I* o, VCOMError (I::*g)(T**)) {
    if (setting) return;
    P<T> t; VCOMError e = (o->*g)(&t); if (e) { n->set(std::string("!") + k, std::to_string((unsigned)e)); return; }
    n->set(k, tok(t.p));
  }
  template <class T> static std::string tok(T* t) { if (!t) return "(null)"; const char* b = (const char*)t->GetBoundObject(); return b ? b : "?"; }
};
