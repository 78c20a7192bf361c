#include "pub_gdtf.h"
using H::Fmt;
static const char* Intern(const std::string& s) { static thread_local std::set<std::string> t; return t.insert(s).first->c_str(); }

GdtfIO::~GdtfIO() { for (size_t i = keep.size(); i--;) keep[i]->Release(); }

namespace {
struct Walk {
  GdtfIO& io;
  Vis vis(Node* n) { Vis v; v.setting = io.setting; v.n = n; v.deferred = &io.deferred; v.objs = &io.objs; v.problems = &io.problems; return v; }
  template <class T> void name(T* o, const std::string& tok) {
    if (io.setting) io.objs[tok] = o;
    else if (io.binding) o->BindToObject((void*)Intern(tok));
    else { auto b = (const char*)o->GetBoundObject(); if (!b || tok != b) io.problems.push_back("identity of " + tok + " is " + (b ? b : "(null)")); }
  }
  // Children of one tag. create(child node, out) in set mode; count/at in get mode; then(fn) on each.
  template <class T, class Cr, class Fn> void kids(Node* n, const char* tag, std::function<VCOMError(size_t&)> cnt, std::function<VCOMError(size_t, T**)> at, Cr create, Fn fn) {
    if (io.setting) {
      size_t i = 0;
      for (auto& c : n->c) if (c->tag == tag) { T* t = nullptr; VCOMError e = io.editing ? at(i, &t) : create(c.get(), &t); if (e || !t) { io.problems.push_back(std::string("create ") + tag + " err=" + std::to_string((unsigned)e)); i++; if (t) t->Release(); continue; } io.keep.push_back(t); fn(t, c.get(), i++); }
    } else {
      size_t k = 0x5a5a; VCOMError e = cnt(k); if (e) { n->set(std::string("!#") + tag, std::to_string((unsigned)e)); return; }
      if (k > 100000) { io.problems.push_back(std::string("count of ") + tag); return; }
      for (size_t i = 0; i < k; i++) { P<T> t; e = at(i, &t); if (e || !t) { io.problems.push_back(std::string("at ") + tag + " err=" + std::to_string((unsigned)e)); continue; } Node* c = n->add(tag); fn(t.p, c, i); }
      P<T> t; e = at(k, &t); if (!e) io.problems.push_back(std::string("no error beyond the last ") + tag);
    }
  }
  // Optional single child.
  template <class T, class Cr, class Fn> void one(Node* n, const char* tag, std::function<VCOMError(T**)> get, Cr create, Fn fn) {
    if (io.setting) { for (auto& c : n->c) if (c->tag == tag) { T* t = nullptr; VCOMError e = io.editing ? get(&t) : create(c.get(), &t); if (e || !t) { io.problems.push_back(std::string("create ") + tag + " err=" + std::to_string((unsigned)e)); continue; } io.keep.push_back(t); fn(t, c.get()); } }
    else { P<T> t; VCOMError e = get(&t); if (!e && t) { Node* c = n->add(tag); fn(t.p, c); bool empty = c->c.empty() && !c->a.empty(); for (auto& k : c->a) if (k.first[0] != '!') empty = false; if (empty) n->c.pop_back(); } }  // (an object without content: every getter fails)
  }
#define CNT(o_, m_) [=](size_t& c_) { return o_->m_(c_); }
#define AT(T_, o_, m_) [=](size_t i_, T_** q_) { return o_->m_(i_, q_); }

  void Points(IGdtfMeasurement* o, Node* n) {
    kids<IGdtfMeasurementPoint>(n, "MeasurementPoint", CNT(o, GetMeasurementPointCount), AT(IGdtfMeasurementPoint, o, GetMeasurementPointAt),
      [=](Node*, IGdtfMeasurementPoint** p) { return o->CreateMeasurementPoint(p); },
      [&](IGdtfMeasurementPoint* p, Node* c, size_t) { Vis v = vis(c); typedef IGdtfMeasurementPoint I; v.f("WaveLength", p, &I::GetWaveLength, &I::SetWaveLength); v.f("Energy", p, &I::GetEnergy, &I::SetEnergy); });
  }
  template <class O> void Measurements(O* o, Node* n, bool filter) {
    kids<IGdtfMeasurement>(n, "Measurement", CNT(o, GetMeasurementCount), AT(IGdtfMeasurement, o, GetMeasurementAt),
      [=](Node*, IGdtfMeasurement** p) { return o->CreateMeasurement(p); },
      [&](IGdtfMeasurement* p, Node* c, size_t) {
        Vis v = vis(c); typedef IGdtfMeasurement I; v.f("Physical", p, &I::GetPhysical, &I::SetPhysical); v.f("InterpolationTo", p, &I::GetInterpolationTo, &I::SetInterpolationTo);
        if (filter) v.f("Transmission", p, &I::GetTransmission, &I::SetTransmission); else v.f("LuminousIntensity", p, &I::GetLuminousIntensity, &I::SetLuminousIntensity);
        Points(p, c); });
  }
  void Attribute(IGdtfAttribute* o, Node* n, size_t i) {
    typedef IGdtfAttribute I; Vis v = vis(n); std::string t = Fmt("attr:%zu", i); name(o, t);
    v.f("Name", o, &I::GetName); v.f("Pretty", o, &I::GetPrettyName);
    if (!io.editing) { v.r("ActivationGroup", o, &I::GetActivationGroup, &I::SetActivationGroup); v.r("Feature", o, &I::GetFeature, &I::SetFeature); } v.r("MainAttribute", o, &I::GetMainAttribute, &I::SetMainAttribute);
    v.f("PhysicalUnit", o, &I::GetPhysicalUnit, &I::SetPhysicalUnit); v.f("Color", o, &I::GetColor, &I::SetColor);
    kids<IGdtfSubPhysicalUnit>(n, "SubPhysicalUnit", CNT(o, GetSubPhysicalUnitCount), AT(IGdtfSubPhysicalUnit, o, GetSubPhysicalUnitAt),
      [=](Node* c, IGdtfSubPhysicalUnit** p) { return o->CreateSubPhysicalUnit(Val<EGdtfSubPhysicalUnitType>::in(c->str("Type")), p); },
      [&](IGdtfSubPhysicalUnit* p, Node* c, size_t j) { typedef IGdtfSubPhysicalUnit U; Vis w = vis(c); name(p, Fmt("spu:%zu.%zu", i, j));
        w.f("Type", p, &U::GetType, &U::SetType); w.f("PhysicalUnit", p, &U::GetPhysicalUnit, &U::SetPhysicalUnit); w.f("PhysicalFrom", p, &U::GetPhysicalFrom, &U::SetPhysicalFrom); w.f("PhysicalTo", p, &U::GetPhysicalTo, &U::SetPhysicalTo); });
  }
  void Slot(IGdtfWheelSlot* o, Node* n, size_t i, size_t j) {
    typedef IGdtfWheelSlot I; Vis v = vis(n); name(o, Fmt("slot:%zu.%zu", i, j));
    v.f("Name", o, &I::GetName, &I::SetName); v.f("Color", o, &I::GetColor, &I::SetColor); v.f("MediaFileName", o, &I::GetGobo, &I::SetGobo);
    v.r("Filter", o, &I::GetFilter, &I::SetFilter); v.f("Duration", o, &I::GetDuration, &I::SetDuration); v.f("Width", o, &I::GetWidth, &I::SetWidth); v.f("Height", o, &I::GetHeight, &I::SetHeight); v.f("FPS", o, &I::GetFPS, &I::SetFPS);
    kids<IGdtfWheelSlotPrismFacet>(n, "Facet", CNT(o, GetPrismFacetCount), [=](size_t k, IGdtfWheelSlotPrismFacet** p) { return o->GetPrismFacetAt(k, p); },
      [=](Node* c, IGdtfWheelSlotPrismFacet** p) { return o->CreatePrismFacet(Val<STransformMatrix>::in(c->str("Rotation")), p); },
      [&](IGdtfWheelSlotPrismFacet* p, Node* c, size_t) { typedef IGdtfWheelSlotPrismFacet F; Vis w = vis(c); w.f("Color", p, &F::GetColor, &F::SetColor); w.f("Rotation", p, &F::GetTransformMatrix, &F::SetTransformMatrix); });
    one<IGdtfWheelSlotAnimationSystem>(n, "AnimationSystem", [=](IGdtfWheelSlotAnimationSystem** p) { return o->GetAnimationSystem(p); },
      [=](Node* c, IGdtfWheelSlotAnimationSystem** p) { auto d = [&](const char* k) { return Val<double>::in(c->str(k)); }; return o->CreateAnimationSystem(d("P1X"), d("P1Y"), d("P2X"), d("P2Y"), d("P3X"), d("P3Y"), d("Radius"), p); },
      [&](IGdtfWheelSlotAnimationSystem* p, Node* c) { typedef IGdtfWheelSlotAnimationSystem A; Vis w = vis(c);
        w.f("P1X", p, &A::GetP1_X, &A::SetP1_X); w.f("P1Y", p, &A::GetP1_Y, &A::SetP1_Y); w.f("P2X", p, &A::GetP2_X, &A::SetP2_X); w.f("P2Y", p, &A::GetP2_Y, &A::SetP2_Y); w.f("P3X", p, &A::GetP3_X, &A::SetP3_X); w.f("P3Y", p, &A::GetP3_Y, &A::SetP3_Y); w.f("Radius", p, &A::GetRadius, &A::SetRadius); });
  }
  void Geometry(IGdtfGeometry* o, Node* n, const std::string& tok) {
    typedef IGdtfGeometry I; Vis v = vis(n); name(o, tok);
    EGdtfObjectType ty = eGdtfGeometry;
    if (io.setting) ty = Val<EGdtfObjectType>::in(n->str("Type")); else { VCOMError e = o->GetGeometryType(ty); if (e) io.problems.push_back("geometry type of " + tok); n->set("Type", Val<EGdtfObjectType>::out(ty)); }
    v.f("Name", o, &I::GetName, &I::SetName);
    v.f("Position", o, &I::GetTransformMatrix, &I::SetTransformMatrix);
    if (!io.setting) v.r("Model", o, &I::GetModel);   // set by the creating call
    else if (io.editing) { auto s = n->get("Model"); if (s && !s->empty()) { auto it = io.objs.find(*s); IGdtfModel* m = it == io.objs.end() ? nullptr : static_cast<IGdtfModel*>(it->second); if (!m) io.problems.push_back("token " + *s); else { IGdtfModel* given = m; VCOMError e = o->SetModel(&m); if (e || m != given) io.problems.push_back("SetModel err=" + std::to_string((unsigned)e)); } } }
    switch (ty) {
    case eGdtfGeometryDisplay: v.f("Texture", o, &I::GetTexture, &I::SetTexture); v.f("Width", o, &I::GetWidth, &I::SetWidth); v.f("Height", o, &I::GetHeight, &I::SetHeight); v.f("IsCurved", o, &I::GetIsCurved, &I::SetIsCurved); break;
    case eGdtfGeometryLaser:
      v.f("ColorType", o, &I::GetColorType, &I::SetColorType); v.f("Color", o, &I::GetLaserColor, &I::SetLaserColor); v.f("OutputStrength", o, &I::GetOutputStrength, &I::SetOutputStrength); v.r("Emitter", o, &I::GetEmitter, &I::SetEmitter);
      v.f("BeamDiameter", o, &I::GetBeamDiameter, &I::SetBeamDiameter); v.f("BeamDivergenceMin", o, &I::GetBeamDivergenceMin, &I::SetBeamDivergenceMin); v.f("BeamDivergenceMax", o, &I::GetBeamDivergenceMax, &I::SetBeamDivergenceMax);
      v.f("ScanAnglePan", o, &I::GetScanAnglePan, &I::SetScanAnglePan); v.f("ScanAngleTilt", o, &I::GetScanAngleTilt, &I::SetScanAngleTilt); v.f("ScanSpeed", o, &I::GetScanSpeed, &I::SetScanSpeed);
      kids<IGdtfLaserProtocol>(n, "Protocol", CNT(o, GetLaserProtocolCount), AT(IGdtfLaserProtocol, o, GetLaserProtocolAt), [=](Node* c, IGdtfLaserProtocol** p) { return o->CreateLaserProtocol(c->str("Name").c_str(), p); },
        [&](IGdtfLaserProtocol* p, Node* c, size_t) { Vis w = vis(c); w.f("Name", p, &IGdtfLaserProtocol::GetName, &IGdtfLaserProtocol::SetName); });
      break;
    case eGdtfGeometryWiringObject:
      v.f("ConnectorType", o, &I::GetConnectorType, &I::SetConnectorType); v.f("ComponentType", o, &I::GetComponentType, &I::SetComponentType); v.f("SignalType", o, &I::GetSignalType, &I::SetSignalType); v.f("PinCount", o, &I::GetPinCount, &I::SetPinCount);
      v.f("SignalLayer", o, &I::GetSignalLayer, &I::SetSignalLayer); v.f("Orientation", o, &I::GetOrientation, &I::SetOrientation); v.f("WireGroup", o, &I::GetWireGroup, &I::SetWireGroup); v.f("ElectricalPayLoad", o, &I::GetElectricalPayLoad, &I::SetElectricalPayLoad);
      v.f("VoltageRangeMin", o, &I::GetVoltageRangeMin, &I::SetVoltageRangeMin); v.f("VoltageRangeMax", o, &I::GetVoltageRangeMax, &I::SetVoltageRangeMax); v.f("FrequencyRangeMin", o, &I::GetFrequencyRangeMin, &I::SetFrequencyRangeMin); v.f("FrequencyRangeMax", o, &I::GetFrequencyRangeMax, &I::SetFrequencyRangeMax);
      v.f("CosPhi", o, &I::GetCosPhi, &I::SetCosPhi); v.f("MaxPayLoad", o, &I::GetMaxPayLoad, &I::SetMaxPayLoad); v.f("Voltage", o, &I::GetVoltage, &I::SetVoltage); v.f("FuseCurrent", o, &I::GetFuseCurrent, &I::SetFuseCurrent); v.f("FuseRating", o, &I::GetFuseRating, &I::SetFuseRating);
      if (io.setting && io.editing) {}
      else if (io.setting) { // pin patches need the other wiring object: deferred
        for (auto& c : n->c) if (c->tag == "PinPatch") { Node* cn = c.get(); GdtfIO* g = &io;
          io.deferred.push_back([=] { auto it = g->objs.find(cn->str("ToWiringObject")); IGdtfGeometry* to = it == g->objs.end() ? nullptr : static_cast<IGdtfGeometry*>(it->second); P<IGdtfPinPatch> p;
            bool tw = Vis::Twice(); VCOMError e = o->CreatePinPatch(tw ? o : to, tw ? 77 : Val<size_t>::in(cn->str("FromPin")), tw ? 78 : Val<size_t>::in(cn->str("ToPin")), &p); if (tw && !e && p) { e = p->SetLinkedWiringObject(to); if (!e) e = p->SetFromPin(Val<size_t>::in(cn->str("FromPin"))); if (!e) e = p->SetToPin(Val<size_t>::in(cn->str("ToPin"))); } if (e) g->problems.push_back("CreatePinPatch err=" + std::to_string((unsigned)e)); }); }
      } else kids<IGdtfPinPatch>(n, "PinPatch", CNT(o, GetPinPatchCount), AT(IGdtfPinPatch, o, GetPinPatchAt), [](Node*, IGdtfPinPatch**) { return kVCOMError_Failed; },
        [&](IGdtfPinPatch* p, Node* c, size_t) { typedef IGdtfPinPatch Q; Vis w = vis(c); w.r("ToWiringObject", p, &Q::GetLinkedWiringObject, &Q::SetLinkedWiringObject); w.f("FromPin", p, &Q::GetFromPin, &Q::SetFromPin); w.f("ToPin", p, &Q::GetToPin, &Q::SetToPin); });
      break;
    case eGdtfGeometryInventory: v.f("Count", o, &I::GetInventoryCount, &I::SetInventoryCount); break;
    case eGdtfGeometryStructure:
      v.r("LinkedGeometry", o, &I::GetStructureLinkedGeometry, &I::SetStructureLinkedGeometry); v.f("StructureType", o, &I::GetStructureType, &I::SetStructureType); v.f("CrossSectionType", o, &I::GetCrossSectionType, &I::SetCrossSectionType);
      v.f("CrossSectionHeight", o, &I::GetCrossSectionHeight, &I::SetCrossSectionHeight); v.f("CrossSectionWallThickness", o, &I::GetCrossSectionWallThickness, &I::SetCrossSectionWallThickness); v.f("TrussCrossSection", o, &I::GetTrussCrossSection, &I::SetTrussCrossSection); break;
    case eGdtfGeometrySupport:
      v.f("SupportType", o, &I::GetSupportType, &I::SetSupportType); v.f("CapacityX", o, &I::GetCapacityX, &I::SetCapacityX); v.f("CapacityY", o, &I::GetCapacityY, &I::SetCapacityY); v.f("CapacityZ", o, &I::GetCapacityZ, &I::SetCapacityZ);
      v.f("CapacityXX", o, &I::GetCapacityXX, &I::SetCapacityXX); v.f("CapacityYY", o, &I::GetCapacityYY, &I::SetCapacityYY); v.f("CapacityZZ", o, &I::GetCapacityZZ, &I::SetCapacityZZ); v.f("RopeCrossSection", o, &I::GetRopeCrossSection, &I::SetRopeCrossSection);
      if (io.setting) { auto s = n->get("RopeOffset"); if (s) { SVector3 x = Val<SVector3>::in(*s); VCOMError e = o->SetRopeOffset(x.x, x.y, x.z); if (e) v.fail("RopeOffset", e); } } else v.f("RopeOffset", o, &I::GetRopeOffset);
      v.f("ResistanceX", o, &I::GetResistanceX, &I::SetResistanceX); v.f("ResistanceY", o, &I::GetResistanceY, &I::SetResistanceY); v.f("ResistanceZ", o, &I::GetResistanceZ, &I::SetResistanceZ);
      v.f("ResistanceXX", o, &I::GetResistanceXX, &I::SetResistanceXX); v.f("ResistanceYY", o, &I::GetResistanceYY, &I::SetResistanceYY); v.f("ResistanceZZ", o, &I::GetResistanceZZ, &I::SetResistanceZZ); break;
    case eGdtfGeometryLamp:
      v.f("LampType", o, &I::GetLampType, &I::SetLampType); v.f("PowerConsumption", o, &I::GetPowerConsumption, &I::SetPowerConsumption); v.f("LuminousFlux", o, &I::GetLuminousIntensity, &I::SetLuminousIntensity); v.f("ColorTemperature", o, &I::GetColorTemperature, &I::SetColorTemperature);
      v.f("BeamAngle", o, &I::GetBeamAngle, &I::SetBeamAngle); v.f("BeamRadius", o, &I::GetBeamRadius, &I::SetBeamRadius); v.f("FieldAngle", o, &I::GetFieldAngle, &I::SetFieldAngle); v.f("ThrowRatio", o, &I::GetThrowRatio, &I::SetThrowRatio); v.f("RectangleRatio", o, &I::GetRectangleRatio, &I::SetRectangleRatio);
      v.f("BeamType", o, &I::GetBeamType, &I::SetBeamType); v.f("ColorRenderingIndex", o, &I::GetColorIndex, &I::SetColorIndex); v.r("EmitterSpectrum", o, &I::GetEmitterSpectrum, &I::SetEmitterSpectrum); break;
    case eGdtfGeometryReference:
      v.r("Geometry", o, &I::GetGeometryReference, &I::SetGeometryReference);
      kids<IGdtfBreak>(n, "Break", CNT(o, GetBreakCount), AT(IGdtfBreak, o, GetBreakAt), [=](Node* c, IGdtfBreak** p) { return o->CreateBreak(Val<Sint32>::in(c->str("DMXBreak")), Val<DMXAddress>::in(c->str("DMXOffset")), p); },
        [&](IGdtfBreak* p, Node* c, size_t) { Vis w = vis(c); w.f("DMXBreak", p, &IGdtfBreak::GetDmxBreak, &IGdtfBreak::SetDmxBreak); w.f("DMXOffset", p, &IGdtfBreak::GetDmxAddress, &IGdtfBreak::SetDmxAddress); });
      break;
    default: break;
    }
    if (!io.setting && !io.binding && io.derived) {
      P<IGdtfGeometry> par; VCOMError e = o->GetParent(&par); n->set("~Parent", e || !par ? "" : Vis::tok(par.p));
      size_t mc = 0; io.fx->GetDmxModeCount(mc); std::string lk;
      for (size_t m = 0; m < mc; m++) { P<IGdtfDmxMode> md; if (io.fx->GetDmxModeAt(m, &md) || !md) continue; size_t k = 0; VCOMError e1 = o->GetCountLinkedDmxChannel(k, md.p); if (e1) { lk += Fmt("!%u;", (unsigned)e1); continue; }
        for (size_t q = 0; q < k && q < 100000; q++) { P<IGdtfDmxChannel> ch; VCOMError e2 = o->GetLinkedDmxChannelAt(q, &ch, md.p); lk += e2 ? Fmt("!%u", (unsigned)e2) : Vis::tok(ch.p); lk += ";"; } }
      n->set("~Channels", lk);
    }
    Geos(o, n, tok);
  }
  template <class O> VCOMError geoCount(O* o, size_t& c);
  void Geos(IGdtfGeometry* o, Node* n, const std::string& tok) {
    kids<IGdtfGeometry>(n, "Geometry", CNT(o, GetInternalGeometryCount), AT(IGdtfGeometry, o, GetInternalGeometryAt), [=](Node* c, IGdtfGeometry** p) { return MakeGeo(o, c, p); },
      [&](IGdtfGeometry* p, Node* c, size_t i) { Geometry(p, c, tok + Fmt(".%zu", i)); });
  }
  template <class O> VCOMError MakeGeo(O* o, Node* c, IGdtfGeometry** p) {
    IGdtfModel* m = nullptr; auto s = c->get("Model"); if (s && !s->empty()) { auto it = io.objs.find(*s); if (it != io.objs.end()) m = static_cast<IGdtfModel*>(it->second); }
    return o->CreateGeometry(Val<EGdtfObjectType>::in(c->str("Type")), c->str("Name").c_str(), m, Val<STransformMatrix>::in(c->str("Position")), p);
  }
  void Function(IGdtfDmxChannelFunction* o, Node* n, const std::string& tok, size_t mode) {
    typedef IGdtfDmxChannelFunction I; Vis v = vis(n); name(o, tok);
    v.f("Name", o, &I::GetName); v.r("Attribute", o, &I::GetAttribute, &I::SetAttribute); v.f("OriginalAttribute", o, &I::GetOriginalAttribute, &I::SetOriginalAttribute);
    v.f("DMXFrom", o, &I::GetStartAddress, &I::SetStartAddress); v.f("Default", o, &I::GetDefaultValue, &I::SetDefaultValue); v.f("PhysicalFrom", o, &I::GetPhysicalStart, &I::SetPhysicalStart); v.f("PhysicalTo", o, &I::GetPhysicalEnd, &I::SetPhysicalEnd);
    v.f("RealFade", o, &I::GetRealFade, &I::SetRealFade); v.f("RealAcceleration", o, &I::GetRealAcceleration, &I::SetRealAcceleration); v.f("Min", o, &I::GetMin, &I::SetMin); v.f("Max", o, &I::GetMax, &I::SetMax); v.f("CustomName", o, &I::GetCustomName, &I::SetCustomName);
    v.r("Wheel", o, &I::GetOnWheel, &I::SetOnWheel); v.r("Emitter", o, &I::GetEmitter, &I::SetEmitter); v.r("Filter", o, &I::GetFilter, &I::SetFilter); v.r("ColorSpace", o, &I::GetColorSpace, &I::SetColorSpace); v.r("Gamut", o, &I::GetGamut, &I::SetGamut); v.r("DMXProfile", o, &I::GetDMXProfile, &I::SetDMXProfile);
    if (io.setting) {
      auto s = n->get("ModeMaster");
      if (s) { std::string t = *s; DmxValue a = Val<DmxValue>::in(n->str("ModeFrom")), b = Val<DmxValue>::in(n->str("ModeTo")); GdtfIO* g = &io;
        io.deferred.push_back([=] { auto it = g->objs.find(t); if (it == g->objs.end()) return; VCOMError e = t.compare(0, 2, "ch") == 0 ? o->SetModeMasterChannel(static_cast<IGdtfDmxChannel*>(it->second), a, b) : o->SetModeMasterFunction(static_cast<IGdtfDmxChannelFunction*>(it->second), a, b); if (e) g->problems.push_back("SetModeMaster err=" + std::to_string((unsigned)e)); }); }
    } else {
      P<IGdtfDmxChannel> ch; P<IGdtfDmxChannelFunction> fn; DmxValue a = 0, b = 0; std::string mm;
      if (!o->GetModeMasterChannel(&ch, a, b) && ch) { n->set("ModeMaster", Vis::tok(ch.p)); n->set("ModeFrom", Val<DmxValue>::out(a)); n->set("ModeTo", Val<DmxValue>::out(b)); }
      if (!o->GetModeMasterFunction(&fn, a, b) && fn) { n->set("ModeMaster", Vis::tok(fn.p)); n->set("ModeFrom", Val<DmxValue>::out(a)); n->set("ModeTo", Val<DmxValue>::out(b)); }
      if (io.derived && !io.binding) { v.f("~End", o, &I::GetEndAddress); v.f("~Resolution", o, &I::GetResolution); v.r("~Parent", o, &I::GetParentLogicalChannel); }
    }
    if (!io.editing) kids<IGdtfDmxChannelSet>(n, "ChannelSet", CNT(o, GetDmxChannelSetCount), AT(IGdtfDmxChannelSet, o, GetDmxChannelSetAt), [=](Node* c, IGdtfDmxChannelSet** p) { return o->CreateDmxChannelSet(c->str("Name").c_str(), Val<DmxValue>::in(c->str("DMXFrom")), Val<DmxValue>::in(c->str("DMXTo")), p); },
      [&](IGdtfDmxChannelSet* p, Node* c, size_t) { typedef IGdtfDmxChannelSet Q; Vis w = vis(c); w.f("Name", p, &Q::GetName); w.f("DMXFrom", p, &Q::GetDmxStartAddress); w.f("DMXTo", p, &Q::GetDmxEndAddress); w.f("PhysicalFrom", p, &Q::GetPhysicalStart, &Q::SetPhysicalStart); w.f("PhysicalTo", p, &Q::GetPhysicalEnd, &Q::SetPhysicalEnd); w.f("WheelSlotIndex", p, &Q::GetWheelSlot, &Q::SetWheelSlot); w.f("~UseParent", p, &Q::GetUsePhysicalFromParent); });
    kids<IGdtfDmxSubChannelSet>(n, "SubChannelSet", CNT(o, GetDmxSubChannelSetCount), AT(IGdtfDmxSubChannelSet, o, GetDmxSubChannelSetAt),
      [=](Node* c, IGdtfDmxSubChannelSet** p) { IGdtfSubPhysicalUnit* u = nullptr; auto it = io.objs.find(c->str("SubPhysicalUnit")); if (it != io.objs.end()) u = static_cast<IGdtfSubPhysicalUnit*>(it->second); return o->CreateDmxSubChannelSet(c->str("Name").c_str(), u, p); },
      [&](IGdtfDmxSubChannelSet* p, Node* c, size_t) { typedef IGdtfDmxSubChannelSet Q; Vis w = vis(c); w.f("Name", p, &Q::GetName, &Q::SetName); w.f("PhysicalFrom", p, &Q::GetPhysicalFrom, &Q::SetPhysicalFrom); w.f("PhysicalTo", p, &Q::GetPhysicalTo, &Q::SetPhysicalTo); w.r("SubPhysicalUnit", p, &Q::GetSubPhysicalUnit, &Q::SetSubPhysicalUnit); w.r("DMXProfile", p, &Q::GetDMXProfile, &Q::SetDMXProfile); });
  }
  void Mode(IGdtfDmxMode* o, Node* n, size_t m) {
    typedef IGdtfDmxMode I; Vis v = vis(n); name(o, Fmt("mode:%zu", m));
    v.f("Name", o, &I::GetName); v.f("Description", o, &I::GetDescription, &I::SetDescription); 
    if (io.setting) { auto s = n->get("Geometry"); auto it = s ? io.objs.find(*s) : io.objs.end(); if (it != io.objs.end()) { VCOMError e = o->SetGeometry(static_cast<IGdtfGeometry*>(it->second)); if (e) v.fail("Geometry", e); } } else v.r("Geometry", o, &I::GetGeometry);
    kids<IGdtfDmxChannel>(n, "DMXChannel", CNT(o, GetDmxChannelCount), AT(IGdtfDmxChannel, o, GetDmxChannelAt),
      [=](Node* c, IGdtfDmxChannel** p) { IGdtfGeometry* g = nullptr; auto it = io.objs.find(c->str("Geometry")); if (it != io.objs.end()) g = static_cast<IGdtfGeometry*>(it->second); if (!Vis::Twice()) return o->CreateDmxChannel(g, p);
        VCOMError e = o->CreateDmxChannel(static_cast<IGdtfGeometry*>(io.objs.lower_bound("geo:")->second), p); if (!e) e = (*p)->SetGeometry(g); return e; },
      [&](IGdtfDmxChannel* p, Node* c, size_t i) {
        typedef IGdtfDmxChannel C; Vis w = vis(c); std::string ct = Fmt("ch:%zu.%zu", m, i); name(p, ct);
        w.f("DMXBreak", p, &C::GetDmxBreak, &C::SetDmxBreak); w.f("Coarse", p, &C::GetCoarse, &C::SetCoarse); w.f("Fine", p, &C::GetFine, &C::SetFine); w.f("Ultra", p, &C::GetUltra, &C::SetUltra); w.f("Uber", p, &C::GetUber, &C::SetUber);
        if (io.setting) w.f("Highlight", p, &C::GetHighlight, &C::SetHighlight); else { bool has = false; VCOMError e = p->HasHighlight(has); if (e) io.problems.push_back("HasHighlight"); if (has) w.f("Highlight", p, &C::GetHighlight); }
        w.r("Geometry", p, &C::GetGeometry);
        if (!io.setting && !io.binding && io.derived) { w.f("~Name", p, &C::GetName); w.f("~Resolution", p, &C::GetResolution); }
        kids<IGdtfDmxLogicalChannel>(c, "LogicalChannel", CNT(p, GetLogicalChannelCount), AT(IGdtfDmxLogicalChannel, p, GetLogicalChannelAt),
          [=](Node* l, IGdtfDmxLogicalChannel** q) { IGdtfAttribute* a = nullptr; auto it = io.objs.find(l->str("Attribute")); if (it != io.objs.end()) a = static_cast<IGdtfAttribute*>(it->second); if (!Vis::Twice()) return p->CreateLogicalChannel(a, q);
            VCOMError e = p->CreateLogicalChannel(static_cast<IGdtfAttribute*>(io.objs.lower_bound("attr:")->second), q); if (!e) e = (*q)->SetAttribute(a); return e; },
          [&](IGdtfDmxLogicalChannel* q, Node* l, size_t j) {
            typedef IGdtfDmxLogicalChannel L; Vis x = vis(l); std::string lt = Fmt("lc:%zu.%zu.%zu", m, i, j); name(q, lt);
            x.r("Attribute", q, &L::GetAttribute); x.f("Snap", q, &L::GetDmxSnap, &L::SetDmxSnap); x.f("Master", q, &L::GetDmxMaster, &L::SetDmxMaster); x.f("MibFade", q, &L::GetMoveInBlackFrames, &L::SetMoveInBlackFrames); x.f("DMXChangeTimeLimit", q, &L::GetDmxChangeTimeLimit, &L::SetDmxChangeTimeLimit);
            if (!io.setting && !io.binding && io.derived) { x.f("~Name", q, &L::GetName); x.r("~Parent", q, &L::GetParentDmxChannel); }
            kids<IGdtfDmxChannelFunction>(l, "ChannelFunction", CNT(q, GetDmxFunctionCount), AT(IGdtfDmxChannelFunction, q, GetDmxFunctionAt), [=](Node* f, IGdtfDmxChannelFunction** r) { return q->CreateDmxFunction(f->str("Name").c_str(), r); },
              [&](IGdtfDmxChannelFunction* r, Node* f, size_t k) { Function(r, f, Fmt("fn:%zu.%zu.%zu.%zu", m, i, j, k), m); });
          });
        w.r("InitialFunction", p, &C::GetInitialFunction, &C::SetInitialFunction);
      });
    if (io.setting && io.editing) {}
    else if (io.setting) { // relations need channels: build deferred
      for (auto& c : n->c) if (c->tag == "Relation") { Node* cn = c.get(); GdtfIO* g = &io; io.deferred.push_back([=] { auto a = g->objs.find(cn->str("Master")), b = g->objs.find(cn->str("Follower")); P<IGdtfDmxRelation> r;
          VCOMError e = o->CreateDmxRelation(cn->str("Name").c_str(), Val<EGdtfDmxRelationType>::in(cn->str("Type")), a == g->objs.end() ? nullptr : static_cast<IGdtfDmxChannel*>(a->second), b == g->objs.end() ? nullptr : static_cast<IGdtfDmxChannelFunction*>(b->second), &r); if (e) g->problems.push_back("CreateDmxRelation err=" + std::to_string((unsigned)e)); }); }
    } else kids<IGdtfDmxRelation>(n, "Relation", CNT(o, GetDmxRelationCount), AT(IGdtfDmxRelation, o, GetDmxRelationAt), [](Node*, IGdtfDmxRelation**) { return kVCOMError_Failed; },
        [&](IGdtfDmxRelation* p, Node* c, size_t) { typedef IGdtfDmxRelation R; Vis w = vis(c); w.f("Name", p, &R::GetName); w.r("Master", p, &R::GetMasterChannel); w.r("Follower", p, &R::GetSlaveChannel); w.f("Type", p, &R::GetRelationType); });
    kids<IGdtfMacro>(n, "FTMacro", CNT(o, GetDmxMacroCount), AT(IGdtfMacro, o, GetDmxMacroAt), [=](Node* c, IGdtfMacro** p) { return o->CreateDmxMacro(c->str("Name").c_str(), p); },
      [&](IGdtfMacro* p, Node* c, size_t) {
        typedef IGdtfMacro M; Vis w = vis(c); w.f("Name", p, &M::GetName, &M::SetName); w.r("ChannelFunction", p, &M::GetChannelFunction, &M::SetChannelFunction);
        one<IGdtfMacroDMX>(c, "MacroDMX", [=](IGdtfMacroDMX** q) { return p->GetMacroDMX(q); }, [=](Node*, IGdtfMacroDMX** q) { return p->CreateMacroDMX(q); }, [&](IGdtfMacroDMX* q, Node* d) {
          kids<IGdtfMacroDMXStep>(d, "MacroDMXStep", CNT(q, GetStepCount), AT(IGdtfMacroDMXStep, q, GetStepAt), [=](Node* s, IGdtfMacroDMXStep** r) { double x = Val<double>::in(s->str("Duration")); return q->CreateStep(x, r); },
            [&](IGdtfMacroDMXStep* r, Node* s, size_t) { Vis x = vis(s); x.f("Duration", r, &IGdtfMacroDMXStep::GetDuration);
              if (io.setting && io.editing) {} else if (io.setting) { for (auto& y : s->c) if (y->tag == "MacroDMXValue") { Node* yn = y.get(); GdtfIO* g = &io; io.deferred.push_back([=] { auto a = g->objs.find(yn->str("DMXChannel")); P<IGdtfMacroDMXValue> z; VCOMError e = r->CreateDMXValue(Val<DmxValue>::in(yn->str("Value")), a == g->objs.end() ? nullptr : static_cast<IGdtfDmxChannel*>(a->second), &z); if (e) g->problems.push_back("CreateDMXValue err=" + std::to_string((unsigned)e)); }); } }
              else kids<IGdtfMacroDMXValue>(s, "MacroDMXValue", CNT(r, GetDMXValueCount), AT(IGdtfMacroDMXValue, r, GetDMXValueAt), [](Node*, IGdtfMacroDMXValue**) { return kVCOMError_Failed; }, [&](IGdtfMacroDMXValue* z, Node* y, size_t) { Vis u = vis(y); u.f("Value", z, &IGdtfMacroDMXValue::GetDmxValue); u.r("DMXChannel", z, &IGdtfMacroDMXValue::GetDmxChannel); }); }); });
        one<IGdtfMacroVisual>(c, "MacroVisual", [=](IGdtfMacroVisual** q) { return p->GetMacroVisual(q); }, [=](Node*, IGdtfMacroVisual** q) { return p->CreateMacroVisual(q); }, [&](IGdtfMacroVisual* q, Node* d) {
          kids<IGdtfMacroVisualStep>(d, "MacroVisualStep", CNT(q, GetVisualStepCount), AT(IGdtfMacroVisualStep, q, GetVisualStepAt), [=](Node*, IGdtfMacroVisualStep** r) { return q->CreateVisualStep(r); },
            [&](IGdtfMacroVisualStep* r, Node* s, size_t) { typedef IGdtfMacroVisualStep Z; Vis x = vis(s); x.f("Duration", r, &Z::GetDuration, &Z::SetDuration); x.f("Fade", r, &Z::GetFade, &Z::SetFade); x.f("Delay", r, &Z::GetDelay, &Z::SetDelay);
              if (io.setting && io.editing) {} else if (io.setting) { for (auto& y : s->c) if (y->tag == "MacroVisualValue") { Node* yn = y.get(); GdtfIO* g = &io; io.deferred.push_back([=] { auto a = g->objs.find(yn->str("ChannelFunction")); P<IGdtfMacroVisualValue> z; bool tw = Vis::Twice(); VCOMError e = r->CreateVisualValue(tw ? 7 : Val<DmxValue>::in(yn->str("Value")), tw ? static_cast<IGdtfDmxChannelFunction*>(g->objs.lower_bound("fn:")->second) : a == g->objs.end() ? nullptr : static_cast<IGdtfDmxChannelFunction*>(a->second), &z); if (tw && !e && z && a != g->objs.end()) { e = z->SetDmxChannel(static_cast<IGdtfDmxChannelFunction*>(a->second)); if (!e) e = z->SetDmxValue(Val<DmxValue>::in(yn->str("Value"))); H::Count("references set twice"); } if (e) g->problems.push_back("CreateVisualValue err=" + std::to_string((unsigned)e)); }); } }
              else kids<IGdtfMacroVisualValue>(s, "MacroVisualValue", CNT(r, GetVisualValueCount), AT(IGdtfMacroVisualValue, r, GetVisualValueAt), [](Node*, IGdtfMacroVisualValue**) { return kVCOMError_Failed; }, [&](IGdtfMacroVisualValue* z, Node* y, size_t) { Vis u = vis(y); u.f("Value", z, &IGdtfMacroVisualValue::GetDmxValue); u.r("ChannelFunction", z, &IGdtfMacroVisualValue::GetDmxChannel); }); }); });
      });
    if (!io.setting && !io.binding && io.derived) {
      size_t bc = 0; VCOMError e = o->GetBreakCount(bc); std::string s = e ? Fmt("!%u", (unsigned)e) : "";
      for (size_t b = 0; !e && b < bc && b < 10000; b++) { size_t id = 0x5a5a, fp = 0x5a5a; VCOMError e1 = o->GetBreakAt(b, id), e2 = o->GetFootprintForBreak(id, fp); s += Fmt("%zu:%zu%s;", id, fp, e1 || e2 ? "!" : ""); }
      n->set("~Breaks", s);
    }
  }
};
}

void GdtfIO::Fixture(IGdtfFixture* o, Node* n) {
  Walk w{*this}; typedef IGdtfFixture I; Vis v = w.vis(n);
  v.f("Name", o, &I::GetName); v.f("Manufacturer", o, &I::GetManufacturer); v.f("FixtureTypeID", o, &I::GetFixtureGUID);
  v.f("ShortName", o, &I::GetShortName, &I::SetShortName); v.f("LongName", o, &I::GetLongName, &I::SetLongName); v.f("Description", o, &I::GetFixtureTypeDescription, &I::SetFixtureTypeDescription); v.f("Thumbnail", o, &I::GetFixtureThumbnail, &I::SetFixtureThumbnail);
  v.f("ThumbnailOffsetX", o, &I::GetThumbnailOffsetX, &I::SetThumbnailOffsetX); v.f("ThumbnailOffsetY", o, &I::GetThumbnailOffsetY, &I::SetThumbnailOffsetY); v.f("CanHaveChildren", o, &I::GetCanHaveChildren, &I::SetCanHaveChildren);
  if (setting) { auto s = n->get("RefFT"); if (s) { VCOMError e = o->SetLinkedFixtureGUID(Val<MvrUUID>::in(*s)); if (e) v.fail("RefFT", e); } }
  else { bool has = false; VCOMError e = o->HasLinkedFixtureGUID(has); if (e) problems.push_back("HasLinkedFixtureGUID"); if (has) v.f("RefFT", o, &I::GetLinkedFixtureGUID); Sint32 a = -9, b = -9; e = o->GetGDTFVersion(a, b); n->set("~Version", Fmt("%d.%d", (int)a, (int)b)); }
  v.f("OperatingTemperatureLow", o, &I::GetOperatingTemperatureLow, &I::SetOperatingTemperatureLow); v.f("OperatingTemperatureHigh", o, &I::GetOperatingTemperatureHigh, &I::SetOperatingTemperatureHigh); v.f("Weight", o, &I::GetWeight, &I::SetWeight); v.f("LegHeight", o, &I::GetLegHeight, &I::SetLegHeight);

  w.kids<IGdtfActivationGroup>(n, "ActivationGroup", CNT(o, GetActivationGroupCount), AT(IGdtfActivationGroup, o, GetActivationGroupAt), [=](Node* c, IGdtfActivationGroup** p) { return o->CreateActivationGroup(c->str("Name").c_str(), p); },
    [&](IGdtfActivationGroup* p, Node* c, size_t i) { Vis x = w.vis(c); w.name(p, Fmt("act:%zu", i)); x.f("Name", p, &IGdtfActivationGroup::GetName);
      if (!setting && !binding && derived) { size_t k = 0; VCOMError e = p->GetAttributeCount(k); std::string s = e ? "!" : ""; for (size_t q = 0; q < k && q < 100000; q++) { P<IGdtfAttribute> a; e = p->GetAttributeAt(q, &a); s += (e ? "!" : Vis::tok(a.p)) + ";"; } c->set("~Attributes", s); } });
  w.kids<IGdtfFeatureGroup>(n, "FeatureGroup", CNT(o, GetFeatureGroupCount), AT(IGdtfFeatureGroup, o, GetFeatureGroupAt), [=](Node* c, IGdtfFeatureGroup** p) { return o->CreateFeatureGroup(c->str("Name").c_str(), c->str("Pretty").c_str(), p); },
    [&](IGdtfFeatureGroup* p, Node* c, size_t i) { Vis x = w.vis(c); w.name(p, Fmt("fg:%zu", i)); x.f("Name", p, &IGdtfFeatureGroup::GetName); x.f("Pretty", p, &IGdtfFeatureGroup::GetPrettyName, &IGdtfFeatureGroup::SetPrettyName);
      w.kids<IGdtfFeature>(c, "Feature", CNT(p, GetFeatureCount), AT(IGdtfFeature, p, GetFeatureAt), [=](Node* f, IGdtfFeature** q) { return p->CreateFeature(f->str("Name").c_str(), q); },
        [&](IGdtfFeature* q, Node* f, size_t j) { Vis y = w.vis(f); w.name(q, Fmt("feat:%zu.%zu", i, j)); y.f("Name", q, &IGdtfFeature::GetName, &IGdtfFeature::SetName);
          if (!setting && !binding && derived) { y.r("~Group", q, &IGdtfFeature::GetFeatureGroup); size_t k = 0; VCOMError e = q->GetAttributeCount(k); std::string s = e ? "!" : ""; for (size_t z = 0; z < k && z < 100000; z++) { P<IGdtfAttribute> a; e = q->GetAttributeAt(z, &a); s += (e ? "!" : Vis::tok(a.p)) + ";"; } f->set("~Attributes", s); } }); });
  w.kids<IGdtfAttribute>(n, "Attribute", CNT(o, GetAttributeCount), AT(IGdtfAttribute, o, GetAttributeAt), [=](Node* c, IGdtfAttribute** p) { return o->CreateAttribute(c->str("Name").c_str(), c->str("Pretty").c_str(), p); }, [&](IGdtfAttribute* p, Node* c, size_t i) { w.Attribute(p, c, i); });
  w.kids<IGdtfFilter>(n, "Filter", CNT(o, GetFilterCount), AT(IGdtfFilter, o, GetFilterAt), [=](Node* c, IGdtfFilter** p) { return o->CreateFilter(c->str("Name").c_str(), Val<CieColor>::in(c->str("Color")), p); },
    [&](IGdtfFilter* p, Node* c, size_t i) { Vis x = w.vis(c); w.name(p, Fmt("filter:%zu", i)); x.f("Name", p, &IGdtfFilter::GetName, &IGdtfFilter::SetName); x.f("Color", p, &IGdtfFilter::GetColor, &IGdtfFilter::SetColor); w.Measurements(p, c, true); });
  w.kids<IGdtfPhysicalEmitter>(n, "Emitter", CNT(o, GetEmitterCount), AT(IGdtfPhysicalEmitter, o, GetEmitterAt), [=](Node* c, IGdtfPhysicalEmitter** p) { return o->CreateEmitter(c->str("Name").c_str(), Val<CieColor>::in(c->str("Color")), p); },
    [&](IGdtfPhysicalEmitter* p, Node* c, size_t i) { typedef IGdtfPhysicalEmitter E; Vis x = w.vis(c); w.name(p, Fmt("emit:%zu", i)); x.f("Name", p, &E::GetName, &E::SetName); x.f("Color", p, &E::GetColor, &E::SetColor); x.f("DominantWaveLength", p, &E::GetDominantWaveLength, &E::SetDominantWaveLength); x.f("DiodePart", p, &E::GetDiodePart, &E::SetDiodePart); w.Measurements(p, c, false); });
  auto space = [this](IGdtfColorSpace* p, Node* c, Vis x) { typedef IGdtfColorSpace E; x.f("Name", p, &E::GetName, &E::SetName); x.f("Mode", p, &E::GetColorSpace, &E::SetColorSpace); std::string mode = c->str("Mode");
    if (mode == "1") { x.f("Red", p, &E::GetRed, &E::SetRed); x.f("Green", p, &E::GetGreen, &E::SetGreen); x.f("Blue", p, &E::GetBlue, &E::SetBlue); x.f("WhitePoint", p, &E::GetWhite, &E::SetWhite); }
    else if (!setting) { static const double pro[] = {0.7347, 0.2653, 0.1596, 0.8404, 0.0366, 0.0001, 0.3457, 0.3585}, ansi[] = {0.7347, 0.2653, 0.1596, 0.8404, 0.0366, 0.001, 0.4254, 0.4044}, srgb[] = {0.64, 0.33, 0.3, 0.6, 0.15, 0.06, 0.3127, 0.329}; const double* d = mode == "2" ? pro : mode == "3" ? ansi : srgb;
      VCOMError (E::*get[])(CieColor&) = {&E::GetRed, &E::GetGreen, &E::GetBlue, &E::GetWhite}; for (int k = 0; k < 4; k++) { CieColor q{-1, -1, -1}; VCOMError e = (p->*get[k])(q); if (e || std::abs(q.fx - d[2 * k]) > 1e-9 || std::abs(q.fy - d[2 * k + 1]) > 1e-9 || q.f_Y <= 0) problems.push_back(Fmt("colour %d of the colour space of mode %s is %g,%g,%g (%u)", k, mode.c_str(), q.fx, q.fy, q.f_Y, (unsigned)e)); } } };
  if (setting) { for (auto& c : n->c) if (c->tag == "MainColorSpace") { P<IGdtfColorSpace> p; if (o->GetColorSpace(&p) || !p) problems.push_back("colour space of the fixture"); else space(p.p, c.get(), w.vis(c.get())); } }
  else { P<IGdtfColorSpace> p; if (o->GetColorSpace(&p) || !p) problems.push_back("colour space of the fixture"); else { Node* c = n->add("MainColorSpace"); space(p.p, c, w.vis(c)); } }
  w.kids<IGdtfColorSpace>(n, "ColorSpace", CNT(o, GetAdditionalColorSpaceCount), AT(IGdtfColorSpace, o, GetAdditionalColorSpaceAt), [=](Node* c, IGdtfColorSpace** p) { return o->CreateAdditionalColorSpace(c->str("Name").c_str(), Val<EGdtfColorSpace>::in(c->str("Mode")), p); },
    [&](IGdtfColorSpace* p, Node* c, size_t i) { w.name(p, Fmt("cs:%zu", i)); space(p, c, w.vis(c)); });
  // gamuts: points are values, not objects
  w.kids<IGdtfGamut>(n, "Gamut", CNT(o, GetGamutCount), AT(IGdtfGamut, o, GetGamutAt), [=](Node* c, IGdtfGamut** p) { return o->CreateGamut(c->str("Name").c_str(), Val<CieColor>::in(c->c.empty() ? "0,0,0" : c->c[0]->str("Color")), p); },
    [&](IGdtfGamut* p, Node* c, size_t i) { Vis x = w.vis(c); w.name(p, Fmt("gam:%zu", i)); x.f("Name", p, &IGdtfGamut::GetName, &IGdtfGamut::SetName);
      if (setting && editing) {}
      else if (setting) { for (size_t q = 1; q < c->c.size(); q++) { CieColor col = Val<CieColor>::in(c->c[q]->str("Color")); p->CreatePoint(col); } }
      else { size_t k = 0; p->GetPointCount(k); for (size_t q = 0; q < k && q < 100000; q++) { CieColor col = Preset<CieColor>::v(); VCOMError e = p->GetPointAt(q, col); c->add("GamutPoint")->set(e ? "!Color" : "Color", Val<CieColor>::out(col)); } } });
  w.kids<IGdtfDMXProfile>(n, "DMXProfile", CNT(o, GetDMXProfileCount), AT(IGdtfDMXProfile, o, GetDMXProfileAt), [=](Node*, IGdtfDMXProfile** p) { return o->CreateDMXProfile(p); },
    [&](IGdtfDMXProfile* p, Node* c, size_t i) { Vis x = w.vis(c); w.name(p, Fmt("prof:%zu", i)); x.f("Name", p, &IGdtfDMXProfile::GetName, &IGdtfDMXProfile::SetName);
      w.kids<IGdtfPoint>(c, "Point", CNT(p, GetPointCount), AT(IGdtfPoint, p, GetPointAt), [=](Node* d, IGdtfPoint** q) { auto g = [&](const char* k) { return Val<double>::in(d->str(k)); }; return p->CreatePoint(g("DMXPercentage"), g("CFC3"), g("CFC2"), g("CFC1"), g("CFC0"), q); },
        [&](IGdtfPoint* q, Node* d, size_t) { typedef IGdtfPoint E; Vis y = w.vis(d); y.f("DMXPercentage", q, &E::GetDMXPercentage, &E::SetDMXPercentage); y.f("CFC3", q, &E::GetCFC3, &E::SetCFC3); y.f("CFC2", q, &E::GetCFC2, &E::SetCFC2); y.f("CFC1", q, &E::GetCFC1, &E::SetCFC1); y.f("CFC0", q, &E::GetCFC0, &E::SetCFC0); }); });
  w.kids<IGdtfCRIGroup>(n, "CRIGroup", CNT(o, GetCRIGroupCount), AT(IGdtfCRIGroup, o, GetCRIGroupAt), [=](Node* c, IGdtfCRIGroup** p) { return o->CreateCRIGroup(Val<double>::in(c->str("ColorTemperature")), p); },
    [&](IGdtfCRIGroup* p, Node* c, size_t) { Vis x = w.vis(c); x.f("ColorTemperature", p, &IGdtfCRIGroup::GetColorTemperature, &IGdtfCRIGroup::SetColorTemperature);
      w.kids<IGdtfCRI>(c, "CRI", CNT(p, GetCRICount), AT(IGdtfCRI, p, GetCRIAt), [=](Node* d, IGdtfCRI** q) { return p->CreateCRI(Val<EGdtfColorSample>::in(d->str("CES")), Val<Sint32>::in(d->str("ColorRenderingIndex")), q); },
        [&](IGdtfCRI* q, Node* d, size_t) { Vis y = w.vis(d); y.f("CES", q, &IGdtfCRI::GetColorSample, &IGdtfCRI::SetColorSample); y.f("ColorRenderingIndex", q, &IGdtfCRI::GetColorRenderingIndex, &IGdtfCRI::SetColorRenderingIndex); }); });
  w.kids<IGdtfConnector>(n, "Connector", CNT(o, GetConnectorCount), AT(IGdtfConnector, o, GetConnectorAt), [=](Node* c, IGdtfConnector** p) { return o->CreateConnector(c->str("Name").c_str(), c->str("Type").c_str(), p); },
    [&](IGdtfConnector* p, Node* c, size_t) { typedef IGdtfConnector E; Vis x = w.vis(c); x.f("Name", p, &E::GetName, &E::SetName); x.f("Type", p, &E::GetType, &E::SetType); x.f("DMXBreak", p, &E::GetDmxBreak, &E::SetDmxBreak); x.f("Gender", p, &E::GetGender, &E::SetGender); x.f("Length", p, &E::GetLength, &E::SetLength); });
  w.kids<IGdtfWheel>(n, "Wheel", CNT(o, GetWheelCount), AT(IGdtfWheel, o, GetWheelAt), [=](Node* c, IGdtfWheel** p) { return o->CreateWheel(c->str("Name").c_str(), p); },
    [&](IGdtfWheel* p, Node* c, size_t i) { Vis x = w.vis(c); w.name(p, Fmt("wheel:%zu", i)); x.f("Name", p, &IGdtfWheel::GetName);
      w.kids<IGdtfWheelSlot>(c, "Slot", CNT(p, GetWheelSlotCount), AT(IGdtfWheelSlot, p, GetWheelSlotAt), [=](Node* d, IGdtfWheelSlot** q) { return p->CreateWheelSlot(d->str("Name").c_str(), q); }, [&](IGdtfWheelSlot* q, Node* d, size_t j) { w.Slot(q, d, i, j); }); });
  w.kids<IGdtfModel>(n, "Model", CNT(o, GetModelCount), AT(IGdtfModel, o, GetModelAt), [=](Node* c, IGdtfModel** p) { return o->CreateModel(c->str("Name").c_str(), p); },
    [&](IGdtfModel* p, Node* c, size_t i) { typedef IGdtfModel E; Vis x = w.vis(c); w.name(p, Fmt("model:%zu", i)); x.f("Name", p, &E::GetName, &E::SetName); x.f("Length", p, &E::GetLength, &E::SetLength); x.f("Width", p, &E::GetWidth, &E::SetWidth); x.f("Height", p, &E::GetHeight, &E::SetHeight); x.f("PrimitiveType", p, &E::GetPrimitiveType, &E::SetPrimitiveType); x.f("File", p, &E::GetGeometryFileName, &E::SetGeometryFile);
      x.f("SVGOffsetX", p, &E::GetSVGOffsetX, &E::SetSVGOffsetX); x.f("SVGOffsetY", p, &E::GetSVGOffsetY, &E::SetSVGOffsetY); x.f("SVGSideOffsetX", p, &E::GetSVGSideOffsetX, &E::SetSVGSideOffsetX); x.f("SVGSideOffsetY", p, &E::GetSVGSideOffsetY, &E::SetSVGSideOffsetY); x.f("SVGFrontOffsetX", p, &E::GetSVGFrontOffsetX, &E::SetSVGFrontOffsetX); x.f("SVGFrontOffsetY", p, &E::GetSVGFrontOffsetY, &E::SetSVGFrontOffsetY); });
  w.kids<IGdtfGeometry>(n, "Geometry", CNT(o, GetGeometryCount), AT(IGdtfGeometry, o, GetGeometryAt), [&](Node* c, IGdtfGeometry** p) { return w.MakeGeo(o, c, p); }, [&](IGdtfGeometry* p, Node* c, size_t i) { w.Geometry(p, c, Fmt("geo:%zu", i)); });
  w.kids<IGdtfDmxMode>(n, "DMXMode", CNT(o, GetDmxModeCount), AT(IGdtfDmxMode, o, GetDmxModeAt), [=](Node* c, IGdtfDmxMode** p) { return o->CreateDmxMode(c->str("Name").c_str(), p); }, [&](IGdtfDmxMode* p, Node* c, size_t i) { w.Mode(p, c, i); });
  w.kids<IGdtfRevision>(n, "Revision", CNT(o, GetRevisionCount), AT(IGdtfRevision, o, GetRevisionAt), [=](Node* c, IGdtfRevision** p) { return o->CreateRevision(c->str("Text").c_str(), Val<STime>::in(c->str("Date")), p); },
    [&](IGdtfRevision* p, Node* c, size_t) { typedef IGdtfRevision E; Vis x = w.vis(c); x.f("Text", p, &E::GetText, &E::SetText); x.f("Date", p, &E::GetDate, &E::SetDate); x.f("UserID", p, &E::GetUserId, &E::SetUserId); x.f("ModifiedBy", p, &E::GetModifiedBy, &E::SetModifiedBy); });
  w.one<IGdtf_FTRDM>(n, "FTRDM", [=](IGdtf_FTRDM** p) { return o->GetRDM(p); }, [=](Node*, IGdtf_FTRDM** p) { return o->CreateRDM(p); },
    [&](IGdtf_FTRDM* p, Node* c) { typedef IGdtf_FTRDM E; Vis x = w.vis(c); x.f("ManufacturerID", p, &E::GetManufacturerID, &E::SetManufacturerID); x.f("DeviceModelID", p, &E::GetDeviceModelID, &E::SetDeviceModelID);
      w.kids<IGdtfSoftwareVersionID>(c, "SoftwareVersionID", CNT(p, GetSoftwareVersionIDCount), AT(IGdtfSoftwareVersionID, p, GetSoftwareVersionIDAt), [=](Node* d, IGdtfSoftwareVersionID** q) { return p->CreateSoftwareVersionID(Val<size_t>::in(d->str("Value")), q); },
        [&](IGdtfSoftwareVersionID* q, Node* d, size_t) { Vis y = w.vis(d); y.f("Value", q, &IGdtfSoftwareVersionID::GetValue, &IGdtfSoftwareVersionID::SetValue);
          w.kids<IGdtfDMXPersonality>(d, "DMXPersonality", CNT(q, GetDMXPersonalityCount), AT(IGdtfDMXPersonality, q, GetDMXPersonalityAt), [=](Node* f, IGdtfDMXPersonality** r) { auto it = objs.find(f->str("DMXMode")); return q->CreateDMXPersonality(Val<size_t>::in(f->str("Value")), it == objs.end() ? nullptr : static_cast<IGdtfDmxMode*>(it->second), r); },
            [&](IGdtfDMXPersonality* r, Node* f, size_t) { Vis z = w.vis(f); z.f("Value", r, &IGdtfDMXPersonality::GetValue, &IGdtfDMXPersonality::SetValue); z.r("DMXMode", r, &IGdtfDMXPersonality::GetDmxMode, &IGdtfDMXPersonality::SetDmxMode); }); }); });
  w.one<IGdtfArtNet>(n, "Art-Net", [=](IGdtfArtNet** p) { return o->GetArtNet(p); }, [=](Node*, IGdtfArtNet** p) { return o->CreateArtNet(p); },
    [&](IGdtfArtNet* p, Node* c) { w.kids<IGdtfMap>(c, "Map", CNT(p, GetMapCount), AT(IGdtfMap, p, GetMapAt), [=](Node* d, IGdtfMap** q) { return p->CreateMap(Val<Uint32>::in(d->str("Key")), Val<Uint32>::in(d->str("Value")), q); }, [&](IGdtfMap* q, Node* d, size_t) { Vis y = w.vis(d); y.f("Key", q, &IGdtfMap::GetKey, &IGdtfMap::SetKey); y.f("Value", q, &IGdtfMap::GetValue, &IGdtfMap::SetValue); }); });
  w.one<IGdtfSACN>(n, "sACN", [=](IGdtfSACN** p) { return o->GetSACN(p); }, [=](Node*, IGdtfSACN** p) { return o->CreateSACN(p); },
    [&](IGdtfSACN* p, Node* c) { w.kids<IGdtfMap>(c, "Map", CNT(p, GetMapCount), AT(IGdtfMap, p, GetMapAt), [=](Node* d, IGdtfMap** q) { return p->CreateMap(Val<Uint32>::in(d->str("Key")), Val<Uint32>::in(d->str("Value")), q); }, [&](IGdtfMap* q, Node* d, size_t) { Vis y = w.vis(d); y.f("Key", q, &IGdtfMap::GetKey, &IGdtfMap::SetKey); y.f("Value", q, &IGdtfMap::GetValue, &IGdtfMap::SetValue); }); });
}

bool GdtfIO::Build(IGdtfFixture* f, Node* root) {
  setting = true; fx = f; Fixture(f, root); for (size_t i = 0; i < deferred.size(); i++) deferred[i](); deferred.clear(); return problems.empty();
}
// What the extracted files and buffers hold, as length and FNV-1a hash.
static std::string Sum(const std::string& b) { uint64_t h = 1469598103934665603ull; for (unsigned char c : b) { h ^= c; h *= 1099511628211ull; } return Fmt("%zu:%016llx", b.size(), (unsigned long long)h); }
static std::string SumFile(MvrString p) { std::string q = S(p); if (q.empty()) return "-"; bool ok; std::string b = H::ReadAll(q, &ok); return ok ? Sum(b) : "unreadable"; }
template <class F> static std::string SumBuf(F get) { void* b = nullptr; size_t len = 0; VCOMError e = get(&b, len); if (e) return "-"; std::string s((const char*)b, len); delete[] (char*)b; return Sum(s); }
void GdtfIO::Files(IGdtfFixture* f, Node* n) {
  auto kids = [&](Node* p, const char* tag) { std::vector<Node*> v; for (auto& c : p->c) if (c->tag == tag) v.push_back(c.get()); return v; };
  n->set("~ThumbPNG", SumFile(f->GetFixtureThumbnail_PNG_FullPath())); n->set("~ThumbSVG", SumFile(f->GetFixtureThumbnail_SVG_FullPath()));
  auto ms = kids(n, "Model");
  for (size_t i = 0; i < ms.size(); i++) { P<IGdtfModel> m; if (f->GetModelAt(i, &m) || !m) continue; Node* c = ms[i];
    c->set("~3DS", SumFile(m->GetGeometryFile_3DS_FullPath())); c->set("~3DSLow", SumFile(m->GetGeometryFile_3DSLow_FullPath())); c->set("~3DSHigh", SumFile(m->GetGeometryFile_3DSHigh_FullPath()));
    c->set("~SVG", SumFile(m->GetGeometryFile_SVG_FullPath())); c->set("~SVGSide", SumFile(m->GetGeometryFile_SVGSide_FullPath())); c->set("~SVGFront", SumFile(m->GetGeometryFile_SVGFront_FullPath()));
    c->set("~GLTF", SumFile(m->GetGeometryFile_GLTF_FullPath())); c->set("~GLTFLow", SumFile(m->GetGeometryFile_GLTFLow_FullPath())); c->set("~GLTFHigh", SumFile(m->GetGeometryFile_GLTFHigh_FullPath()));
    c->set("~Buf3DS", SumBuf([&](void** b, size_t& l) { return m->GetBuffer3DS(b, l); })); c->set("~BufSVG", SumBuf([&](void** b, size_t& l) { return m->GetBufferSVG(b, l); })); c->set("~BufGLTF", SumBuf([&](void** b, size_t& l) { return m->GetBufferGLTF(b, l); })); }
  auto ws = kids(n, "Wheel");
  for (size_t i = 0; i < ws.size(); i++) { P<IGdtfWheel> w; if (f->GetWheelAt(i, &w) || !w) continue; auto ss = kids(ws[i], "Slot");
    for (size_t j = 0; j < ss.size(); j++) { P<IGdtfWheelSlot> q; if (w->GetWheelSlotAt(j, &q) || !q) continue; ss[j]->set("~Image", SumFile(q->GetGoboFileFullPath())); } }
}
std::unique_ptr<Node> GdtfIO::Dump(IGdtfFixture* f) {
  setting = false; fx = f; binding = true; { Node tmp("x"); auto keepProblems = problems; Fixture(f, &tmp); problems = keepProblems; }
  binding = false; std::unique_ptr<Node> n(new Node("FixtureType")); Fixture(f, n.get());
  if (files) Files(f, n.get());
  // parsing errors and image resources
  size_t k = 0; if (!f->GetParsingErrorCount(k)) for (size_t i = 0; i < k && i < 100000; i++) { P<IGdtfXmlParsingError> e; if (f->GetParsingErrorAt(i, &e) || !e) { problems.push_back("GetParsingErrorAt"); continue; }
    Node* c = n->add("~Error"); EGdtfParsingError t; memset(&t, 0x5a, sizeof t); e->GetErrorType(t); c->set("Type", Val<EGdtfParsingError>::out(t)); c->set("Message", S(e->GetErrorMessage())); c->set("Node", S(e->GetNodeName())); size_t l = 0x5a, col = 0x5a; VCOMError er = e->GetLineAndColumnNumber(l, col); c->set("Line", er ? "!" : std::to_string(l)); c->set("Column", std::to_string(col)); c->set("Object", S(e->GetObjectName())); }
  k = 0; if (!f->GetImageRessourcesCount(k)) for (size_t i = 0; i < k && i < 100000; i++) n->add("~Image")->set("Path", S(f->GetImageRessourcesPathAt(i)));
  for (auto& p : problems) n->add("~Problem")->set("Text", p);
  return n;
}
