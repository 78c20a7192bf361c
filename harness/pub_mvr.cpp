// The MVR part through the public interface: builds a scene from a tree, dumps a scene into one. Oracle in lib/mvr.py.
#include "tree.h"
#include <unistd.h>
#include <set>
using H::Fmt;
template <> struct Out_<ESourceType> : OutEnum<ESourceType> {};
template <> struct Out_<EScaleHandlingType> : OutEnum<EScaleHandlingType> {};
template <> struct Out_<ESceneObjType> : OutEnum<ESceneObjType> {};
typedef IMediaRessourceVectorInterface M;
static std::string At(const char* pre, uint64_t i, const char* suf) { return H::Scratch() + "/" + pre + std::to_string(i) + suf; }
static const char* kTypes[] = {"Layer", "Group", "SceneObj", "FocusPoint", "Truss", "VideoScreen", "Fixture", "Projector", "Support"};
static const size_t kCap = 200000;

// ---- dump ---------------------------------------------------------------------------------------------
template <class T> static std::string GuidOf(T* o) { MvrUUID u; VCOMError e = o->GetGuid(u); return e ? "!" + std::to_string((unsigned)e) : Val<MvrUUID>::out(u); }
struct Dump {
  M* m; bool build;                                         // build: before writing (no extracted files)
  std::string base;                                         // directory part of extracted files, must be the same for all
  template <class I, class C> size_t cnt(Node* n, const char* k, I* o, VCOMError (I::*g)(C&), bool quiet = false) { C c = (C)0x5A5A; VCOMError e = (o->*g)(c); if (e) { if (!quiet) n->set(std::string("!") + k, std::to_string((unsigned)e)); return 0; } if ((size_t)c > kCap) { n->set(std::string("!") + k, "huge"); return 0; } return (size_t)c; }
  void file(Node* n, const char* k, MvrString p) {
    std::string s = S(p); auto sl = s.rfind('/'); std::string dir = sl == std::string::npos ? "" : s.substr(0, sl), name = sl == std::string::npos ? s : s.substr(sl + 1);
    n->set(k, name); if (!s.empty() && dir.find("MVR_Export") == std::string::npos) n->set(std::string("~dir") + k, dir);
    if (!build && !s.empty()) n->set(std::string("~") + k + "Exists", access(s.c_str(), R_OK) == 0 ? "1" : "0");
  }
  template <class I> void geos(Node* n, I* o) {
    size_t c = cnt(n, "Geo", o, &I::GetGeometryCount);
    for (size_t i = 0; i < c; i++) { P<IGeometryReference> g; VCOMError e = o->GetGeometryAt(i, &g); Node* x = n->add("Geo"); if (e || !g) { x->set("!", std::to_string((unsigned)e)); continue; }
      bool sym = false; g->GetIsSymbol(sym); x->set("Kind", sym ? "sym" : "geo"); Vis v{false, x}; v.f("Matrix", g.p, &IGeometryReference::GetTransfromMatrix);
      file(x, "File", g->GetFileForGeometry());
      P<ISymDef> sd; VCOMError se = g->GetSymDef(&sd); if (!se && sd) x->set("SymDef", GuidOf(sd.p)); }
  }
  void source(Node* n, ISource* s) { Node* x = n->add("Source"); Vis v{false, x}; v.f("Value", s, &ISource::GetValue); v.f("LinkedGeometry", s, &ISource::GetLinkedGeometry); v.f("Type", s, &ISource::GetType); }
  void obj(Node* parent, ISceneObj* o, int depth = 0) {
    Out_<ESceneObjType> t; VCOMError e = o->GetType(*t.p()); size_t ti = e ? 99 : (size_t)strtoll(t.text().c_str(), 0, 10);
    Node* n = parent->add(ti < 9 ? kTypes[ti] : "Unknown"); Vis v{false, n}; std::string ty = n->tag;
    n->set("Guid", GuidOf(o)); v.f("Name", o, &ISceneObj::GetName); v.f("Matrix", o, &ISceneObj::GetTransfromMatrix);
    bool fx = ty == "Fixture", cont = ty == "Layer" || ty == "Group";
    geos(n, o);
    if (!cont) {
      P<ISceneObj> mp; e = o->GetMultipatchParent(&mp); if (!e && mp) n->set("Multipatch", GuidOf(mp.p)); else if (e != kVCOMError_NotSet) n->set("!Multipatch", std::to_string((unsigned)e));
      P<IClass> cl; e = o->GetClass(&cl); if (!e && cl) { n->set("Class", GuidOf(cl.p)); n->set("ClassName", S(cl->GetName())); } else if (e != kVCOMError_NotSet) n->set("!Class", std::to_string((unsigned)e));
      if (ty != "FocusPoint") { v.f("GdtfName", o, &ISceneObj::GetGdtfName); v.f("GdtfMode", o, &ISceneObj::GetGdtfMode); }
    }
    { size_t c = cnt(n, "CustomCommand", o, &ISceneObj::GetCustomCommandCount); for (size_t i = 0; i < c; i++) { P<ICustomCommand> q; e = o->GetCustomCommandAt(i, &q); Node* x = n->add("CustomCommand"); if (e || !q) { x->set("!", std::to_string((unsigned)e)); continue; } Vis w{false, x}; w.f("Function", q.p, &ICustomCommand::GetChannelFunction); w.f("Percent", q.p, &ICustomCommand::IsPercentage); w.f("Value", q.p, &ICustomCommand::GetValue); } }
    { size_t c = cnt(n, "Alignment", o, &ISceneObj::GetAlignmentCount); for (size_t i = 0; i < c; i++) { P<IAlignment> q; e = o->GetAlignmentAt(i, &q); Node* x = n->add("Alignment"); if (e || !q) { x->set("!", std::to_string((unsigned)e)); continue; } Vis w{false, x}; w.f("Geometry", q.p, &IAlignment::GetBeamGeometry); w.f("Up", q.p, &IAlignment::GetUpVector); w.f("Direction", q.p, &IAlignment::GetDirection); } }
    { size_t c = cnt(n, "Overwrite", o, &ISceneObj::GetOverwriteCount); for (size_t i = 0; i < c; i++) { P<IOverwrite> q; e = o->GetOverwriteAt(i, &q); Node* x = n->add("Overwrite"); if (e || !q) { x->set("!", std::to_string((unsigned)e)); continue; } Vis w{false, x}; w.f("Universal", q.p, &IOverwrite::GetUniversal); w.f("Target", q.p, &IOverwrite::GetTarget); } }
    if (fx) {
      v.f("Function", o, &ISceneObj::GetFunction); v.f("UnitNumber", o, &ISceneObj::GetUnitNumber); v.f("FixtureId", o, &ISceneObj::GetFixtureId);
      { size_t id = 0x5A5A5A5A; e = o->GetFixtureIdNumeric(id); if (!e) n->set("FixtureIdNumeric", std::to_string(id)); else if (e == kVCOMError_NotSet) n->set("FixtureIdNumeric", "0"); else n->set("!FixtureIdNumeric", std::to_string((unsigned)e)); }
      v.f("Color", o, &ISceneObj::GetColor); v.f("FixtureTypeId", o, &ISceneObj::GetFixtureTypeId); v.f("CustomId", o, &ISceneObj::GetCustomId); v.f("Gobo", o, &ISceneObj::GetGobo); v.f("GoboRotation", o, &ISceneObj::GetGoboRotation);
      v.f("CastShadow", o, &ISceneObj::GetCastShadow); v.f("InvertPan", o, &ISceneObj::GetDMXInvertPan); v.f("InvertTilt", o, &ISceneObj::GetDMXInvertTilt);
      if (!build) file(n, "~GoboPath", o->GetGoboFullPath());
      P<ISceneObj> fp; e = o->GetFocusPoint(&fp); if (!e && fp) n->set("Focus", GuidOf(fp.p)); else if (e != kVCOMError_NotSet) n->set("!Focus", std::to_string((unsigned)e));
      P<IPosition> po; e = o->GetPosition(&po); if (!e && po) { std::string g = GuidOf(po.p); if (g[0] != '!') { n->set("Position", g); n->set("PositionName", S(po->GetName())); } } else n->set("!Position", std::to_string((unsigned)e));
      { size_t c = cnt(n, "Address", o, &ISceneObj::GetAdressCount); for (size_t i = 0; i < c; i++) { SDmxAdress a; a.fAbsuluteAdress = a.fBreakId = 0x5A5A; e = o->GetAdressAt(i, a); Node* x = n->add("Address"); if (e) { x->set("!", std::to_string((unsigned)e)); continue; } x->set("Absolute", std::to_string(a.fAbsuluteAdress)); x->set("Break", std::to_string(a.fBreakId)); } }
      { size_t c = cnt(n, "Mapping", o, &ISceneObj::GetMappingCount); for (size_t i = 0; i < c; i++) { P<IMapping> q; e = o->GetMappingAt(i, &q); Node* x = n->add("Mapping"); if (e || !q) { x->set("!", std::to_string((unsigned)e)); continue; } Vis w{false, x}; w.f("LinkedDef", q.p, &IMapping::GetLinkedDefUuid); w.f("Ux", q.p, &IMapping::GetUx); w.f("Uy", q.p, &IMapping::GetUy); w.f("Ox", q.p, &IMapping::GetOx); w.f("Oy", q.p, &IMapping::GetOy); w.f("Rz", q.p, &IMapping::GetRz); } }
      { size_t c = cnt(n, "Connection", o, &ISceneObj::GetConnectionCount); for (size_t i = 0; i < c; i++) { P<IConnection> q; e = o->GetConnectionAt(i, &q); Node* x = n->add("Connection"); if (e || !q) { x->set("!", std::to_string((unsigned)e)); continue; } Vis w{false, x}; w.f("Own", q.p, &IConnection::GetOwn); w.f("Other", q.p, &IConnection::GetOther); w.f("ToObject", q.p, &IConnection::GetToObject); } }
      { size_t c = cnt(n, "Protocol", o, &ISceneObj::GetProtocolsCount); for (size_t i = 0; i < c; i++) { SProtocol* q = nullptr; e = o->GetProtocolAt(i, &q); Node* x = n->add("Protocol"); if (e || !q) { x->set("!", std::to_string((unsigned)e)); continue; } x->set("Geometry", S(q->fGeometry)); x->set("Name", S(q->fName)); x->set("Type", S(q->fType)); x->set("Version", S(q->fVersion)); int tr = 0; memcpy(&tr, &q->fTransmision, sizeof tr); x->set("Transmission", std::to_string(tr)); delete q; } }
    }
    if (ty == "VideoScreen" || ty == "Projector") { P<ISource> s; e = ty == "VideoScreen" ? o->GetVideoScreenSource(&s) : o->GetProjectorSource(&s); if (e) n->set("!Source", std::to_string((unsigned)e)); else if (s && !e) { Out_<ESourceType> st; VCOMError te = s->GetType(*st.p()); if (!te) source(n, s.p); } }
    if (ty == "Projector") v.f("ScaleHandling", o, &ISceneObj::GetScaleHandling);
    // children
    if (depth > 400) { n->set("!depth", "too deep"); return; }
    P<ISceneObj> c; e = m->GetFirstChild(o, &c); size_t guard = 0;
    while (!e && c && guard++ < kCap) { obj(n, c.p, depth + 1); P<ISceneObj> nx; e = m->GetNextObject(c.p, &nx); std::swap(c.p, nx.p); }
    if (guard == 0 && e != kVCOMError_NoObj) n->set("!FirstChild", std::to_string((unsigned)e));
    if (guard && e != kVCOMError_NotSet) n->set("!Next", std::to_string((unsigned)e));
  }
  std::unique_ptr<Node> all() {
    std::unique_ptr<Node> root(new Node("MVR")); Node* n = root.get(); VCOMError e;
    Sint32 a = -7, b = -7; e = m->GetMVRVersion(a, b); if (!build) n->set("~Version", Fmt("%d:%d.%d", (int)e, a, b));
    { size_t c = cnt(n, "SceneObjectCount", m, &M::GetSceneObjectCount); if (!build) n->set("~SceneObjectCount", std::to_string(c)); bool d = false; e = m->GetDuplicatedUuids(d); if (!build) n->set("~Duplicated", e ? "!" : d ? "1" : "0"); }
    { size_t c = cnt(n, "Provider", m, &M::GetDataProviderObjectCount); for (size_t i = 0; i < c; i++) { P<ISceneDataProvider> q; e = m->GetDataProviderObjectAt(i, &q); Node* x = n->add("Provider"); if (e || !q) { x->set("!", std::to_string((unsigned)e)); continue; } x->set("Provider", S(q->GetProviderName())); x->set("Version", S(q->GetVersion())); size_t k = cnt(x, "Entry", q.p, &ISceneDataProvider::GetKeyValueCount); for (size_t j = 0; j < k; j++) { Node* y = x->add("Entry"); y->set("Key", S(q->GetKeyAt(j))); y->set("Value", S(q->GetValueAt(j))); } } }
    { size_t c = cnt(n, "Position", m, &M::GetPositionObjectCount); for (size_t i = 0; i < c; i++) { P<IPosition> q; e = m->GetPositionObjectAt(i, &q); Node* x = n->add("Position"); if (e || !q) { x->set("!", std::to_string((unsigned)e)); continue; } x->set("Guid", GuidOf(q.p)); x->set("Name", S(q->GetName())); } }
    { size_t c = cnt(n, "Class", m, &M::GetClassCount); for (size_t i = 0; i < c; i++) { P<IClass> q; e = m->GetClassAt(i, &q); Node* x = n->add("Class"); if (e || !q) { x->set("!", std::to_string((unsigned)e)); continue; } x->set("Guid", GuidOf(q.p)); x->set("Name", S(q->GetName())); } }
    { size_t c = cnt(n, "SymDef", m, &M::GetSymDefCount); for (size_t i = 0; i < c; i++) { P<ISymDef> q; e = m->GetSymDefAt(i, &q); Node* x = n->add("SymDef"); if (e || !q) { x->set("!", std::to_string((unsigned)e)); continue; } x->set("Guid", GuidOf(q.p)); x->set("Name", S(q->GetName())); geos(x, q.p); bool cs = false; e = q->GetIsContaingSymbolGeomtery(cs); if (!build) x->set("~ContainsSymbol", e ? "!" : cs ? "1" : "0"); } }
    { size_t c = cnt(n, "MappingDefinition", m, &M::GetMappingDefinitionCount); for (size_t i = 0; i < c; i++) { P<IMappingDefinition> q; e = m->GetMappingDefinitionAt(i, &q); Node* x = n->add("MappingDefinition"); if (e || !q) { x->set("!", std::to_string((unsigned)e)); continue; } x->set("Guid", GuidOf(q.p)); Vis w{false, x}; w.f("Name", q.p, &IMappingDefinition::GetName); w.f("SizeX", q.p, &IMappingDefinition::GetSizeX); w.f("SizeY", q.p, &IMappingDefinition::GetSizeY); w.f("ScaleHandling", q.p, &IMappingDefinition::GetScaleHandling); P<ISource> s; e = q->GetSource(&s); if (!e && s) { Out_<ESourceType> st; if (!s->GetType(*st.p())) source(x, s.p); } } }
    if (!build) { size_t c = cnt(n, "File", m, &M::GetAttachedFileCount); for (size_t i = 0; i < c; i++) { Node* x = n->add("~File"); MvrString p = m->GetAttachedFileCountAt(i); file(x, "Name", p); std::string bytes = H::ReadAll(S(p)); x->set("Size", std::to_string(bytes.size())); x->set("Data", H::Hex(bytes.data(), std::min<size_t>(bytes.size(), 4096))); unsigned long long h = 1469598103934665603ull; for (unsigned char ch : bytes) h = (h ^ ch) * 1099511628211ull; x->set("Fnv", Fmt("%016llx", h)); } }
    P<ISceneObj> l; e = m->GetFirstLayer(&l); size_t guard = 0;
    while (!e && l && guard++ < kCap) { obj(n, l.p); P<ISceneObj> nx; e = m->GetNextObject(l.p, &nx); std::swap(l.p, nx.p); }
    if (guard == 0 && e != kVCOMError_NoLayerObj) n->set("!FirstLayer", std::to_string((unsigned)e));
    if (guard && e != kVCOMError_NotSet) n->set("!NextLayer", std::to_string((unsigned)e));
    return root;
  }
};

// ---- build --------------------------------------------------------------------------------------------
struct Build {
  M* m; std::string& log; std::map<std::string, ISceneObj*> objs; std::map<std::string, ISymDef*> syms; std::map<std::string, IClass*> classes; std::map<std::string, IPosition*> positions;
  std::vector<std::function<void()>> deferred; std::vector<IVWUnknown*> keep;
  ~Build() { for (auto* k : keep) k->Release(); }
  void bad(const std::string& w, VCOMError e) { if (e) log += "problem:" + H::Esc(w + " err=" + std::to_string((unsigned)e)) + " "; }
  template <class I> void geos(Node* n, I* o) { for (auto& c : n->c) if (c->tag == "Geo") { STransformMatrix ma = Val<STransformMatrix>::in(c->str("Matrix")); if (c->str("Kind") == "geo") bad("AddGeometry", o->AddGeometry(ma, c->str("File").c_str())); else { auto it = syms.find(c->str("SymDef")); bad("AddSymbol", o->AddSymbol(Val<MvrUUID>::in(c->str("InstGuid")), ma, it == syms.end() ? nullptr : it->second)); } } }
  ESourceType st(Node* n) { return Val<ESourceType>::in(n->str("Type")); }
  void obj(Node* n, ISceneObj* parent) {
    MvrUUID g = Val<MvrUUID>::in(n->str("Guid")); STransformMatrix ma = Val<STransformMatrix>::in(n->str("Matrix")); std::string nm = n->str("Name"), ty = n->tag; ISceneObj* o = nullptr; VCOMError e = 0;
    const char* nc = nm.c_str();
    if (ty == "Layer") e = m->CreateLayerObject(g, nc, &o);
    else if (ty == "Group") e = nm.empty() && n->str("_Ctor") != "named" ? m->CreateGroupObject(g, ma, parent, &o) : m->CreateGroupObject(g, ma, nc, parent, &o);
    else if (ty == "Fixture") e = m->CreateFixture(g, ma, nc, parent, &o); else if (ty == "SceneObj") e = m->CreateSceneObject(g, ma, nc, parent, &o); else if (ty == "FocusPoint") e = m->CreateFocusPoint(g, ma, nc, parent, &o);
    else if (ty == "VideoScreen") e = m->CreateVideoScreen(g, ma, nc, parent, &o); else if (ty == "Truss") e = m->CreateTruss(g, ma, nc, parent, &o); else if (ty == "Support") e = m->CreateSupport(g, ma, nc, parent, &o); else if (ty == "Projector") e = m->CreateProjector(g, ma, nc, parent, &o); else return;
    bad("Create" + ty, e); if (e || !o) return; keep.push_back(o); objs[n->str("Guid")] = o;
    geos(n, o); Vis v{true, n}; std::vector<std::string> pr; v.problems = &pr;
    std::string mp = n->str("Multipatch"), cl = n->str("Class"), fp = n->str("Focus"), po = n->str("Position");
    if (!mp.empty()) deferred.push_back([=] { bad("SetMultipatchParent", o->SetMultipatchParent(objs[mp])); });
    if (!cl.empty()) bad("SetClass", o->SetClass(classes[cl]));
    if (!fp.empty()) deferred.push_back([=] { bad("SetFocusPoint", o->SetFocusPoint(objs[fp])); });
    if (!po.empty()) bad("SetPosition", o->SetPosition(positions[po]));
    v.f("GdtfName", o, &ISceneObj::GetGdtfName, &ISceneObj::SetGdtfName); v.f("GdtfMode", o, &ISceneObj::GetGdtfMode, &ISceneObj::SetGdtfMode);
    if (ty == "Fixture") {
      v.f("Function", o, &ISceneObj::GetFunction, &ISceneObj::SetFunction); v.f("UnitNumber", o, &ISceneObj::GetUnitNumber, &ISceneObj::SetUnitNumber); v.f("FixtureId", o, &ISceneObj::GetFixtureId, &ISceneObj::SetFixtureId); v.f("FixtureIdNumeric", o, &ISceneObj::GetFixtureIdNumeric, &ISceneObj::SetFixtureIdNumeric);
      v.f("Color", o, &ISceneObj::GetColor, &ISceneObj::SetColor); v.f("FixtureTypeId", o, &ISceneObj::GetFixtureTypeId, &ISceneObj::SetFixtureTypeId); v.f("CustomId", o, &ISceneObj::GetCustomId, &ISceneObj::SetCustomId); v.f("Gobo", o, &ISceneObj::GetGobo, &ISceneObj::SetGobo); v.f("GoboRotation", o, &ISceneObj::GetGoboRotation, &ISceneObj::SetGoboRotation);
      v.f("CastShadow", o, &ISceneObj::GetCastShadow, &ISceneObj::SetCastShadow); v.f("InvertPan", o, &ISceneObj::GetDMXInvertPan, &ISceneObj::SetDMXInvertPan); v.f("InvertTilt", o, &ISceneObj::GetDMXInvertTilt, &ISceneObj::SetDMXInvertTilt);
    }
    v.f("ScaleHandling", o, &ISceneObj::GetScaleHandling, &ISceneObj::SetScaleHandling);
    for (auto& p : pr) log += "problem:" + H::Esc(p) + " ";
    size_t mapAt = 0;
    for (auto& cp : n->c) { Node* c = cp.get(); Vis w{true, c}; std::vector<std::string> pr2; w.problems = &pr2;
      if (c->tag == "Address") bad("AddAdress", o->AddAdress(Val<size_t>::in(c->str("Absolute")), Val<size_t>::in(c->str("Break"))));
      else if (c->tag == "Mapping") { bad("AddMapping", o->AddMapping(Val<MvrUUID>::in(c->str("LinkedDef")))); P<IMapping> q; bad("GetMappingAt", o->GetMappingAt(mapAt++, &q)); if (q) { w.f("Ux", q.p, &IMapping::GetUx, &IMapping::SetUx); w.f("Uy", q.p, &IMapping::GetUy, &IMapping::SetUy); w.f("Ox", q.p, &IMapping::GetOx, &IMapping::SetOx); w.f("Oy", q.p, &IMapping::GetOy, &IMapping::SetOy); w.f("Rz", q.p, &IMapping::GetRz, &IMapping::SetRz); } }
      else if (c->tag == "Connection") { P<IConnection> q; bool late = c->str("_Late") == "1"; bad("CreateConnection", late ? o->CreateConnection("x", "y", MvrUUID(9, 9, 9, 9), &q) : o->CreateConnection(c->str("Own").c_str(), c->str("Other").c_str(), Val<MvrUUID>::in(c->str("ToObject")), &q)); if (q && late) { w.f("Own", q.p, &IConnection::GetOwn, &IConnection::SetOwn); w.f("Other", q.p, &IConnection::GetOther, &IConnection::SetOther); w.f("ToObject", q.p, &IConnection::GetToObject, &IConnection::SetToObject); } }
      else if (c->tag == "CustomCommand") { P<ICustomCommand> q; bool late = c->str("_Late") == "1"; std::string fn = c->str("Function"); MvrString fs = fn.c_str(); bool pc = c->str("Percent") == "1"; double val = Val<double>::in(c->str("Value")); if (late) { bad("CreateCustomCommand", o->CreateCustomCommand("x", !pc, 1, &q)); if (q) { bad("cc", q->SetChannelFunction(fs)); bad("cc", q->SetIsPercentage(pc)); bad("cc", q->SetValue(val)); } } else bad("CreateCustomCommand", o->CreateCustomCommand(fs, pc, val, &q)); }
      else if (c->tag == "Alignment") { P<IAlignment> q; bool late = c->str("_Late") == "1"; std::string ge = c->str("Geometry"); MvrString gs = ge.c_str(); SVector3 u = Val<SVector3>::in(c->str("Up")), d = Val<SVector3>::in(c->str("Direction")); if (late) { SVector3 z; z.x = z.y = z.z = 9; bad("CreateAlignment", o->CreateAlignment("x", z, z, &q)); if (q) { bad("al", q->SetBeamGeometry(gs)); bad("al", q->SetUpVector(u.x, u.y, u.z)); bad("al", q->SetDirection(d.x, d.y, d.z)); } } else bad("CreateAlignment", o->CreateAlignment(gs, u, d, &q)); }
      else if (c->tag == "Overwrite") { P<IOverwrite> q; bool late = c->str("_Late") == "1"; std::string a = c->str("Universal"), b = c->str("Target"); MvrString as = a.c_str(), bs = b.c_str(); if (late) { bad("CreateOverwrite", o->CreateOverwrite("x", "y", &q)); if (q) { bad("ov", q->SetUniversal(as)); bad("ov", q->SetTarget(bs)); } } else bad("CreateOverwrite", o->CreateOverwrite(as, bs, &q)); }
      else if (c->tag == "Protocol") { std::string f[4] = {c->str("Geometry"), c->str("Name"), c->str("Type"), c->str("Version")}; SProtocol p; p.fGeometry = f[0].c_str(); p.fName = f[1].c_str(); p.fType = f[2].c_str(); p.fVersion = f[3].c_str(); p.fTransmision = Val<ETransmissionType>::in(c->str("Transmission")); bad("AddProtocol", o->AddProtocol(p)); }
      else if (c->tag == "Source") { std::string a = c->str("Value"), b = c->str("LinkedGeometry"); auto set = [&](MvrString x, MvrString y, ESourceType t) { return ty == "VideoScreen" ? o->SetVideoScreenSource(x, y, t) : o->SetProjectorSource(x, y, t); }; auto get = [&](ISource** s) { return ty == "VideoScreen" ? o->GetVideoScreenSource(s) : o->GetProjectorSource(s); };
        if (c->str("_Late") == "1") { bad("SetSource", set("x", "y", ESourceType::CITP)); P<ISource> s; bad("GetSource", get(&s)); if (s) { bad("src", s->SetValue(a.c_str())); bad("src", s->SetLinkedGeometry(b.c_str())); bad("src", s->SetType(st(c))); } } else bad("SetSource", set(a.c_str(), b.c_str(), st(c))); }
      for (auto& p : pr2) log += "problem:" + H::Esc(p) + " ";
    }
    for (auto& c : n->c) obj(c.get(), o);
  }
  void all(Node* n) {
    for (auto& cp : n->c) { Node* c = cp.get(); MvrUUID g = Val<MvrUUID>::in(c->str("Guid"));
      if (c->tag == "Provider") { P<ISceneDataProvider> q; bad("CreateDataProvider", m->CreateDataProviderObject(c->str("Provider").c_str(), c->str("Version").c_str(), &q)); if (q) for (auto& e : c->c) bad("AddKeyValue", q->AddKeyValue(e->str("Key").c_str(), e->str("Value").c_str())); }
      else if (c->tag == "Position") { IPosition* q = nullptr; bad("CreatePosition", m->CreatePositionObject(g, c->str("Name").c_str(), &q)); if (q) { keep.push_back(q); positions[c->str("Guid")] = q; } }
      else if (c->tag == "Class") { IClass* q = nullptr; bad("CreateClass", m->CreateClassObject(g, c->str("Name").c_str(), &q)); if (q) { keep.push_back(q); classes[c->str("Guid")] = q; } }
      else if (c->tag == "SymDef") { ISymDef* q = nullptr; bad("CreateSymDef", m->CreateSymDefObject(g, c->str("Name").c_str(), &q)); if (q) { keep.push_back(q); syms[c->str("Guid")] = q; } }
      else if (c->tag == "MappingDefinition") { P<IMappingDefinition> q; bad("CreateMappingDefinition", m->CreateMappingDefinitionObject(g, c->str("Name").c_str(), &q)); if (q) { Vis w{true, c}; std::vector<std::string> pr; w.problems = &pr; w.f("SizeX", q.p, &IMappingDefinition::GetSizeX, &IMappingDefinition::SetSizeX); w.f("SizeY", q.p, &IMappingDefinition::GetSizeY, &IMappingDefinition::SetSizeY); w.f("ScaleHandling", q.p, &IMappingDefinition::GetScaleHandling, &IMappingDefinition::SetScaleHandling); for (auto& s : c->c) if (s->tag == "Source") bad("SetSource", q->SetSource(s->str("Value").c_str(), s->str("LinkedGeometry").c_str(), st(s.get()))); for (auto& p : pr) log += "problem:" + H::Esc(p) + " "; } }
    }
    for (auto& c : n->c) if (c->tag == "SymDef") geos(c.get(), syms[c->str("Guid")]);
    for (auto& c : n->c) obj(c.get(), nullptr);
    for (auto& d : deferred) d();
  }
};
static void DumpTo(M* m, const std::string& path, bool build) { Dump d{m, build}; auto n = d.all(); std::string o; n->print(o); H::WriteAll(path, o); }

static VCOMError WriteScene(Node* root, uint64_t i, std::string& log, std::string file = "", std::function<void(bool)> around = [](bool) {}) {
  IMediaRessourceVectorInterfacePtr m(IID_MediaRessourceVectorInterface); if (file.empty()) file = At("m", i, ".mvr"); VCOMError e = m->OpenForWrite(file.c_str()); log += Fmt("open=%u ", (unsigned)e);
  if (!root->str("AppName").empty() || !root->str("AppVersion").empty()) log += Fmt("app=%u ", (unsigned)m->AddProviderAndProviderVersion(root->str("AppName").c_str(), root->str("AppVersion").c_str()));
  auto files = [&](bool late) { for (auto& c : root->c) if (c->tag == "File" && (c->str("Late") == "1") == late) {
    std::string data = c->str("Data"), nm = c->str("Name"), via = c->str("Via");
    if (via == "buffer") { e = m->AddBufferToMvrFile(nm.c_str(), &data[0], data.size()); data.assign(data.size(), '#'); }
    else { std::string dir = H::Scratch() + "/" + (via == "gdtf" ? Fmt("lib%d", (int)(Val<int>::in(c->str("Dir")))) : Fmt("src%llu", (unsigned long long)i)); (void)!system(("mkdir -p '" + dir + "'").c_str()); H::WriteAll(dir + "/" + nm, data); e = via == "gdtf" ? 0 : m->AddFileToMvrFile((dir + "/" + nm).c_str()); }
    log += Fmt("res=%u ", (unsigned)e); } };
  files(false);
  for (auto& c : root->c) if (c->tag == "Lib") log += Fmt("lib=%u ", (unsigned)m->AddGdtfFolderLocation((H::Scratch() + "/" + c->str("Name")).c_str()));
  { Build b{m, log}; Vis::Twice() = root->str("_Twice") == "1"; b.all(root); Vis::Twice() = false; DumpTo(m, At("c", i, ".pre"), true); if (root->str("_Drop") != "1") { files(true); around(true); e = m->Close(); around(false); log += Fmt("close=%u ", (unsigned)e); return e; } }
  files(true); around(true); e = m->Close(); around(false); log += Fmt("close=%u ", (unsigned)e); return e;     // (with every reference of ours released)
}
static int RoundTrip(const H::Args& a) {
  bool readBack = a.size() <= 3 || a[3] != "write";
  return H::ForCases(a, [&](uint64_t i) {
    std::string log; auto root = Node::parse(H::ReadAll(At("c", i, ".tree")));
    WriteScene(root.get(), i, log);
    if (readBack) { IMediaRessourceVectorInterfacePtr m(IID_MediaRessourceVectorInterface); VCOMError e = m->OpenForRead(At("m", i, ".mvr").c_str()); log += Fmt("read=%u ", (unsigned)e); if (!e) DumpTo(m, At("c", i, ".rd"), false); }
    H::WriteAll(At("c", i, ".log"), log);
  });
}
static H::Reg rt("mvr_rt", RoundTrip);
static int ReadDoc(const H::Args& a) {
  
  return H::ForCases(a, [&](uint64_t i) {
    std::string log; IMediaRessourceVectorInterfacePtr m(IID_MediaRessourceVectorInterface); VCOMError e = m->OpenForRead(At("r", i, ".mvr").c_str()); log += Fmt("read=%u ", (unsigned)e); if (!e) { DumpTo(m, At("r", i, ".rd"), false); DumpTo(m, At("r", i, ".rd2"), false); }
    H::WriteAll(At("r", i, ".log"), log);
  });
}
static H::Reg rdoc("mvr_read", ReadDoc);

// Reads k<i>.mvr (or writes c<i>.tree) in a home of its own, walks it twice and lets it go; every change on disk has to be in the allowed places.
#include "contain.h"
static int ContainCmd(const H::Args& a) {
  return H::ForCases(a, [&](uint64_t i) {
    std::string tree = H::ReadAll(At("c", i, ".tree")), rd, file = At("k", i, ".mvr"); Contain c(i); c.allowed.push_back(At("m", i, ".mvr"));
    if (!tree.empty()) { std::string log; auto root = Node::parse(tree); WriteScene(root.get(), i, log); file = At("m", i, ".mvr"); H::Count("scenes written"); }
    { IMediaRessourceVectorInterfacePtr m(IID_MediaRessourceVectorInterface); VCOMError e = m->OpenForRead(file.c_str());
      if (!e) { for (int k = 0; k < 2; k++) { Dump d{m, false}; auto n = d.all(); rd.clear(); n->print(rd); } H::Count("scenes read"); H::Count("values read", std::count(rd.begin(), rd.end(), '=')); }
      if (i % 3 == 0) { IMediaRessourceVectorInterfacePtr m2(IID_MediaRessourceVectorInterface); e = m2->OpenForRead(file.c_str()); Dump d{m2, false}; auto n = d.all(); } }
    c.Verdict();
  });
}
static H::Reg contain("mvr_contain", ContainCmd);

// Scenes are written and read while calls fail.
#include "fault.h"
static int FaultCmd(const H::Args& a) {
  return H::ForCases(a, [&](uint64_t i) {
    H::Rng r(strtoull(a[0].c_str(), 0, 10) * 1000003 + i); H::Clock(1700000000); auto root = Node::parse(H::ReadAll(At("c", i, ".tree"))); std::string dir = At("d", i, ""); mkdir(dir.c_str(), 0755); H::Home(dir + "/home"); mkdir((dir + "/home").c_str(), 0755);
    Fault::Writing(dir, ".mvr", r, [&](const std::string& p, const std::function<void(bool)>& around) { std::string log; return (unsigned)WriteScene(root.get(), i, log, p, around); });
    Fault::Reading(dir + "/whole.mvr", r, [&](const std::string& p, const std::function<void(bool)>& around, std::string& out) { IMediaRessourceVectorInterfacePtr m(IID_MediaRessourceVectorInterface); around(true); VCOMError e = m->OpenForRead(p.c_str()); around(false); Dump d{m, false}; auto n = d.all(); if (!e) n->print(out); return (unsigned)e; });
    H::Home(""); H::Clock(0);
  });
}
static H::Reg fault("mvr_fault", FaultCmd);

#include "abort.h"
static int AbortCmd(const H::Args& a) {
  return H::ForCases(a, [&](uint64_t i) {
    H::Rng r(strtoull(a[0].c_str(), 0, 10) * 1000003 + i); std::string file = At("r", i, ".mvr"); Abort::Callback now = [](bool&) {};
    Abort::Run(r, "mvr", [&](const Abort::Callback& c) { now = c; }, [&](unsigned& st) { IMediaRessourceVectorInterfacePtr m(IID_MediaRessourceVectorInterface); m->SetAbortCallback([&](bool& x) { now(x); }); st = m->OpenForRead(file.c_str()); Dump d{m, false}; return d.all(); }, 5, {{"Provider"}, {"SymDef", "Position", "Class", "MappingDefinition"}, {"Obj"}});
    VCOMPtr<IGdtfFixture> f(IID_IGdtfFixture); f->SetAbortCallback([](bool&) {});
  });
}
static H::Reg abrt("mvr_abort", AbortCmd);
