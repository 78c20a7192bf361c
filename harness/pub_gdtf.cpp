// Commands that drive the GDTF part through the public interface; the oracle is in lib/gdtf.py.
#include "pub_gdtf.h"
#include <unistd.h>
using H::Fmt;


static std::string At(const char* pre, uint64_t i, const char* suf) { return H::Scratch() + "/" + pre + std::to_string(i) + suf; }
static bool withFiles = false;
static void DumpTo(IGdtfFixture* f, const std::string& path) { GdtfIO io; io.files = withFiles; auto n = io.Dump(f); std::string o; n->print(o); H::WriteAll(path, o); }
static std::string BufferOf(IGdtfFixture* f, std::string& log, const char* what) {
  size_t len = 0; VCOMError e = f->GetBufferLength(len); log += Fmt("%s.len=%u:%zu ", what, (unsigned)e, len); if (e || len == 0 || len > (1u << 28)) return "";
  std::string b(len, 0); e = f->ToBuffer(&b[0]); log += Fmt("%s.to=%u ", what, (unsigned)e); return b;
}
// Writes what c<i>.tree says, and reads it again in every way.
static int RoundTrip(const H::Args& a) {
  std::string what = a.size() > 3 ? a[3] : "all"; withFiles = what == "files";
  return H::ForCases(a, [&](uint64_t i) {
    std::string log, buf; auto root = Node::parse(H::ReadAll(At("c", i, ".tree"))); std::string file = At("g", i, ".gdtf");
    bool toBuf = root->str("_Mode") == "buffer";
    {
      VCOMPtr<IGdtfFixture> f(IID_IGdtfFixture); MvrUUID id = Val<MvrUUID>::in(root->str("FixtureTypeID"));
      VCOMError e = toBuf ? f->OpenForWrite(root->str("Name").c_str(), root->str("Manufacturer").c_str(), id) : f->OpenForWrite(file.c_str(), root->str("Name").c_str(), root->str("Manufacturer").c_str(), id);
      log += Fmt("open=%u ", (unsigned)e);
      auto resources = [&](bool late) { for (auto& c : root->c) if (c->tag == "Resource" && (c->str("Late") == "1") == late) {
        ERessourceType ty = Val<ERessourceType>::in(c->str("Type")); std::string data = c->str("Data"), nm = c->str("Name");
        if (c->str("Via") == "buffer") e = f->AddBufferToGdtfFile(nm.c_str(), data.data(), data.size(), ty);
        else { std::string src = H::Scratch() + "/" + c->str("Source"); H::WriteAll(src, data); e = c->str("Rename") == "1" ? f->AddFileToGdtfFile(src.c_str(), ty, nm.c_str()) : f->AddFileToGdtfFile(src.c_str(), ty); if (c->str("Unlink") == "1") unlink(src.c_str()); }
        if (e) log += Fmt("res=%u ", (unsigned)e);
      } };
      resources(false);
      GdtfIO io; Vis::Twice() = root->str("_Twice") == "1"; io.Build(f, root.get()); Vis::Twice() = false; for (auto& p : io.problems) log += "problem:" + H::Esc(p) + " ";
      DumpTo(f, At("c", i, ".pre"));
      for (char h : root->str("_Hist")) { if (h == 'R') { e = f->RefreshBuffer(); if (e) log += Fmt("early=%u ", (unsigned)e); } else resources(true); }   // (late resources, refreshes in between)
      if (toBuf) { e = f->RefreshBuffer(); log += Fmt("refresh=%u ", (unsigned)e); buf = BufferOf(f, log, "buf"); H::WriteAll(file, buf); e = f->Close(); log += Fmt("close=%u ", (unsigned)e); std::string b2 = BufferOf(f, log, "buf2"); H::WriteAll(At("c", i, ".gdtf2"), b2); }
      else { e = f->Close(); log += Fmt("close=%u ", (unsigned)e); buf = BufferOf(f, log, "buf"); H::WriteAll(At("c", i, ".gdtf2"), buf); }
    }
    if (what != "write") {
      VCOMPtr<IGdtfFixture> f(IID_IGdtfFixture); VCOMError e = f->ReadFromFile(file.c_str()); log += Fmt("read=%u ", (unsigned)e); if (!e) DumpTo(f, At("c", i, ".rd"));
      VCOMPtr<IGdtfFixture> g(IID_IGdtfFixture); std::string b = H::ReadAll(file); std::string copy = b; e = g->FromBuffer(copy.data(), copy.size()); copy.assign(copy.size(), 'x'); log += Fmt("frombuf=%u ", (unsigned)e); if (!e) DumpTo(g, At("c", i, ".buf"));
      if (!e) { VCOMError r = g->RefreshBuffer(); log += Fmt("refresh=%u ", (unsigned)r); std::string re = BufferOf(g, log, "re"); H::WriteAll(At("c", i, ".re"), re);
        if (withFiles && !re.empty()) {  // again, from the same object and from an object that read the refreshed buffer
          r = g->RefreshBuffer(); log += Fmt("refresh2=%u ", (unsigned)r); H::WriteAll(At("c", i, ".re2"), BufferOf(g, log, "re2"));
          VCOMPtr<IGdtfFixture> k(IID_IGdtfFixture); r = k->FromBuffer(re.data(), re.size()); log += Fmt("frombuf3=%u ", (unsigned)r); if (!r) { DumpTo(k, At("c", i, ".third")); r = k->RefreshBuffer(); H::WriteAll(At("c", i, ".re3"), BufferOf(k, log, "re3")); } } }
    }
    H::WriteAll(At("c", i, ".log"), log);
  });
}
static H::Reg rt("gdtf_rt", RoundTrip);

// Buffers handed to the models of a document are the ones it gives back.
static void Finish(IGdtfFixture* x, std::string& log, uint64_t i) {
  size_t n = 0; x->GetModelCount(n); std::vector<char> d(5000); for (size_t k = 0; k < d.size(); k++) d[k] = (char)(k * 31 + i);
  for (size_t m = 0; m < n; m++) {
    VCOMPtr<IGdtfModel> o; if (x->GetModelAt(m, &o) || !o) { log += "problem:GetModelAt "; return; }
    auto all = [&](const size_t* z) {
      VCOMError (VCOM_CALLTYPE IGdtfModel::*set[])(void*, size_t) = {&IGdtfModel::SetBuffer3DS, &IGdtfModel::SetBufferSVG, &IGdtfModel::SetBufferGLTF}; VCOMError (VCOM_CALLTYPE IGdtfModel::*get[])(void**, size_t&) = {&IGdtfModel::GetBuffer3DS, &IGdtfModel::GetBufferSVG, &IGdtfModel::GetBufferGLTF};
      for (int k = 0; k < 3; k++) if ((o->*set[k])(d.data() + k, z[k])) log += Fmt("problem:SetBuffer%d ", k);
      for (int k = 0; k < 3; k++) { void* b = nullptr; size_t l = 77; VCOMError e = (o->*get[k])(&b, l); if (e || l != z[k] || !b || memcmp(b, d.data() + k, l)) log += Fmt("problem:GetBuffer%d ", k); delete[] (char*)b; H::Count("buffers of models compared"); }
    };
    size_t z[3] = {1 + (size_t)(i % 7), 100, 4000 - (size_t)(i % 90)}; all(z); std::swap(z[0], z[2]); all(z);
  }
}
// A document that was built from e<i>.tree is changed to what c<i>.tree says: the object itself, or one that read it.
static int Edit(const H::Args& a) {
  return H::ForCases(a, [&](uint64_t i) {
    std::string log, how; auto from = Node::parse(H::ReadAll(At("e", i, ".tree"))), to = Node::parse(H::ReadAll(At("c", i, ".tree"))); how = to->str("_How");
    VCOMPtr<IGdtfFixture> f(IID_IGdtfFixture), g(IID_IGdtfFixture); VCOMError e = f->OpenForWrite(from->str("Name").c_str(), from->str("Manufacturer").c_str(), Val<MvrUUID>::in(from->str("FixtureTypeID"))); log += Fmt("open=%u ", (unsigned)e);
    { GdtfIO io; io.Build(f, from.get()); for (auto& p : io.problems) log += "problem:" + H::Esc(p) + " "; }
    e = f->RefreshBuffer(); log += Fmt("refresh=%u ", (unsigned)e); std::string b = BufferOf(f, log, "buf"); IGdtfFixture* x = f;
    if (how != "same") { x = g; if (how == "file") { H::WriteAll(At("e", i, ".gdtf"), b); e = g->ReadFromFile(At("e", i, ".gdtf").c_str()); } else e = g->FromBuffer(b.data(), b.size()); log += Fmt("read=%u ", (unsigned)e); }
    { GdtfIO io; io.editing = true; io.Build(x, to.get()); for (auto& p : io.problems) log += "problem:edit_" + H::Esc(p) + " "; }
    DumpTo(x, At("c", i, ".pre"));
    e = x->RefreshBuffer(); log += Fmt("again=%u ", (unsigned)e); std::string c = BufferOf(x, log, "buf2"); H::WriteAll(At("g", i, ".gdtf"), c);
    VCOMPtr<IGdtfFixture> k(IID_IGdtfFixture); e = k->FromBuffer(c.data(), c.size()); log += Fmt("last=%u ", (unsigned)e); if (!e) DumpTo(k, At("c", i, ".rd")); H::Count("documents edited");
    Finish(x, log, i);
    H::WriteAll(At("c", i, ".log"), log);
  });
}
static H::Reg ed("gdtf_edit", Edit);
// Reads r<i>.gdtf as file and as buffer.
static int ReadDoc(const H::Args& a) {
  
  return H::ForCases(a, [&](uint64_t i) {
    std::string log, file = At("r", i, ".gdtf");
    VCOMPtr<IGdtfFixture> f(IID_IGdtfFixture); VCOMError e = f->ReadFromFile(file.c_str()); log += Fmt("read=%u ", (unsigned)e); if (!e) DumpTo(f, At("r", i, ".rd"));
    VCOMPtr<IGdtfFixture> g(IID_IGdtfFixture); std::string b = H::ReadAll(file); e = g->FromBuffer(b.data(), b.size()); log += Fmt("frombuf=%u ", (unsigned)e); if (!e) DumpTo(g, At("r", i, ".buf"));
    if (!e) { log += Fmt("refresh=%u ", (unsigned)g->RefreshBuffer()); H::WriteAll(At("r", i, ".re"), BufferOf(g, log, "re")); }
    H::WriteAll(At("r", i, ".log"), log);
  });
}
static H::Reg rd("gdtf_read", ReadDoc);

// Two fixtures with a thumbnail each: both keep theirs while they live.
static int Two(const H::Args& a) {
  H::Rng r(strtoull(a[0].c_str(), 0, 10) + strtoull(a[1].c_str(), 0, 10));
  return H::ForCases(a, [&](uint64_t i) {
    std::string data[2], file[2];
    for (int k = 0; k < 2; k++) { file[k] = At("two", i * 2 + k, ".gdtf"); data[k] = std::string(1 + r.below(5000), (char)('a' + k));
      VCOMPtr<IGdtfFixture> f(IID_IGdtfFixture); f->OpenForWrite(file[k].c_str(), "A", "B", MvrUUID(1, 2, 3, 4 + k)); f->SetFixtureThumbnail(k && i % 2 ? "other" : "thumb"); f->AddBufferToGdtfFile(k && i % 2 ? "other.png" : "thumb.png", data[k].data(), data[k].size(), ERessourceType::RessoureFixture); f->Close(); }
    VCOMPtr<IGdtfFixture> x(IID_IGdtfFixture); x->ReadFromFile(file[0].c_str());
    std::string before = H::ReadAll(S(x->GetFixtureThumbnail_PNG_FullPath())); if (before != data[0]) H::Fail("two:first", "the thumbnail of the only fixture read is not there");
    { VCOMPtr<IGdtfFixture> y(IID_IGdtfFixture); y->ReadFromFile(file[1].c_str()); if (H::ReadAll(S(y->GetFixtureThumbnail_PNG_FullPath())) != data[1]) H::Fail("two:second", "the thumbnail of the fixture read second is not there"); }
    std::string p = S(x->GetFixtureThumbnail_PNG_FullPath()); if (p.empty() || H::ReadAll(p) != data[0]) H::Fail("two:files-of-first-gone", "after another fixture was read (and released), the thumbnail of the first is " + (p.empty() ? std::string("not available") : std::string("another file")));
    H::Count("pairs of fixtures read");
  });
}
static H::Reg two("gdtf_two", Two);

// Reads k<i>.gdtf, or writes one with the names in k<i>.names, in a home of its own; every change on disk has to be in the allowed places.
#include "contain.h"
static int ContainCmd(const H::Args& a) {
  return H::ForCases(a, [&](uint64_t i) {
    std::string file = At("k", i, ".gdtf"), rd, log; auto names = H::Split(H::ReadAll(At("k", i, ".names")), '\n'); Contain c(i); c.allowed.push_back(At("g", i, ".gdtf"));
    if (names.size() > 1) {
      file = At("g", i, ".gdtf"); VCOMPtr<IGdtfFixture> f(IID_IGdtfFixture); f->OpenForWrite(file.c_str(), names[0].c_str(), names[0].c_str(), MvrUUID(1, 2, 3, 4)); f->SetFixtureThumbnail(names[1].c_str()); int k = 0;
      for (auto& n : names) f->AddBufferToGdtfFile(n.c_str(), "data", 4, k++ % 2 ? ERessourceType::RessoureFixture : ERessourceType::Model3DS); if (i % 2) f->RefreshBuffer(); f->Close(); H::Count("fixtures written");
    }
    { VCOMPtr<IGdtfFixture> f(IID_IGdtfFixture); VCOMError e = f->ReadFromFile(file.c_str()); auto walk = [&](IGdtfFixture* g) { GdtfIO io; io.files = true; auto n = io.Dump(g); rd.clear(); n->print(rd); H::Count("fixtures read"); H::Count("values read", std::count(rd.begin(), rd.end(), '=')); };
      if (!e) { walk(f); walk(f); if (i % 4 == 0) { f->RefreshBuffer(); walk(f); } }
      VCOMPtr<IGdtfFixture> g(IID_IGdtfFixture); std::string b = H::ReadAll(file); e = g->FromBuffer(b.data(), b.size()); if (!e) walk(g); }
    c.Verdict();
  });
}
static H::Reg contain("gdtf_contain", ContainCmd);

// Fixtures are written and read while calls fail.
#include "fault.h"
static int FaultCmd(const H::Args& a) {
  return H::ForCases(a, [&](uint64_t i) {
    H::Rng r(strtoull(a[0].c_str(), 0, 10) * 1000003 + i); H::Clock(1700000000); auto root = Node::parse(H::ReadAll(At("c", i, ".tree"))); std::string dir = At("d", i, ""); mkdir(dir.c_str(), 0755); H::Home(dir + "/home"); mkdir((dir + "/home").c_str(), 0755);
    Fault::Writing(dir, ".gdtf", r, [&](const std::string& p, const std::function<void(bool)>& around) {
      VCOMPtr<IGdtfFixture> f(IID_IGdtfFixture); VCOMError e = f->OpenForWrite(p.c_str(), root->str("Name").c_str(), root->str("Manufacturer").c_str(), Val<MvrUUID>::in(root->str("FixtureTypeID"))); if (e) return (unsigned)e;
      for (auto& c : root->c) if (c->tag == "Resource") { std::string d = c->str("Data"); f->AddBufferToGdtfFile(c->str("Name").c_str(), d.data(), d.size(), Val<ERessourceType>::in(c->str("Type"))); }
      GdtfIO io; io.Build(f, root.get()); around(true); e = f->Close(); around(false); return (unsigned)e; });
    Fault::Reading(dir + "/whole.gdtf", r, [&](const std::string& p, const std::function<void(bool)>& around, std::string& out) { VCOMPtr<IGdtfFixture> f(IID_IGdtfFixture); around(true); VCOMError e = f->ReadFromFile(p.c_str()); around(false); GdtfIO io; io.files = false; auto n = io.Dump(f); if (!e) n->print(out); return (unsigned)e; });
    H::Home(""); H::Clock(0);
  });
}
static H::Reg fault("gdtf_fault", FaultCmd);

// Readings are given up at chosen moments, and tell how far they are.
#include "abort.h"
static int AbortCmd(const H::Args& a) {
  return H::ForCases(a, [&](uint64_t i) {
    H::Rng r(strtoull(a[0].c_str(), 0, 10) * 1000003 + i); std::string file = At("r", i, ".gdtf"), b = H::ReadAll(file); VCOMPtr<IGdtfFixture> same(IID_IGdtfFixture), cb(IID_IGdtfFixture);
    std::vector<FixtureFeedback> fb; std::vector<std::string> names; bool aborting = false; long before = 0;
    cb->SetFeedbackCallback([&](const FixtureFeedback& f) { fb.push_back(f); names.push_back(S(f.fFileName)); }, nullptr);
    auto read = [&](unsigned& st) {
      fb.clear(); names.clear(); VCOMPtr<IGdtfFixture> own(IID_IGdtfFixture); IGdtfFixture* f = r.below(3) ? (IGdtfFixture*)own : (IGdtfFixture*)same; st = r.below(2) ? f->ReadFromFile(file.c_str()) : f->FromBuffer(b.data(), b.size());
      for (size_t k = 0; k < fb.size(); k++) {
        if (fb[k].fTotalCompletedNodes != k) H::Fail("progress", H::Fmt("step %zu of the progress says that %zu parts are done", k, fb[k].fTotalCompletedNodes));
        if (fb[k].fTotalCompletedNodes > fb[k].fTotalNumberOfNodes) H::Fail("progress-beyond", H::Fmt("%zu of %zu parts are said to be done", fb[k].fTotalCompletedNodes, fb[k].fTotalNumberOfNodes));
        if (fb[k].fTotalNumberOfNodes != fb[0].fTotalNumberOfNodes || names[k] != S(f->GetName())) H::Fail("progress-name", "the progress names " + names[k] + ", the fixture is " + S(f->GetName()));
      }
      if (!st && !aborting && (fb.empty() || fb.back().fTotalCompletedNodes != fb.back().fTotalNumberOfNodes)) H::Fail("progress-end", fb.empty() ? "no progress told" : H::Fmt("the whole document was read, the progress ends with %zu of %zu", fb.back().fTotalCompletedNodes, fb.back().fTotalNumberOfNodes));
      H::Count("steps of progress", fb.size()); before = fb.size();
      if (st) return std::unique_ptr<Node>(); GdtfIO io; return io.Dump(f); };
    Abort::Run(r, "gdtf", [&](const Abort::Callback& c) { aborting = false; cb->SetAbortCallback([&, c](bool& x) { c(x); if (x) aborting = true; }); }, read, 5, {{"ActivationGroup"}, {"FeatureGroup"}, {"Attribute"}, {"Wheel"}, {"Model"}, {"Geometry"}, {"DMXMode"}, {"Revision"}});
    cb->SetFeedbackCallback([](const FixtureFeedback&) {}, nullptr); cb->SetAbortCallback([](bool&) {});
  });
}
static H::Reg abrt("gdtf_abort", AbortCmd);
