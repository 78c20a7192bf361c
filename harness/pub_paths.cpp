// Documents and resources under paths of every kind; what is where afterwards is looked at in lib (checks/P35.py).
#include "pub_gdtf.h"
#include <sys/stat.h>
#include <unistd.h>
using H::Fmt;
namespace {
int Paths(const H::Args& a) {
  return H::ForCases(a, [&](uint64_t i) {
    auto t = Node::parse(H::ReadAll(H::Scratch() + Fmt("/p%llu.tree", (unsigned long long)i))); std::string base = H::Scratch() + Fmt("/p%llu", (unsigned long long)i), log; H::Home(base + "/" + t->str("Home")); if (chdir((base + "/" + t->str("Cwd")).c_str())) H::Fail("harness", "chdir");
    std::string doc = t->str("Doc"); auto e = [&](const char* k, VCOMError x) { if (x) log += Fmt("%s=%u ", k, (unsigned)x); };
    if (t->str("Kind") == "gdtf") {
      { VCOMPtr<IGdtfFixture> f(IID_IGdtfFixture); e("open", f->OpenForWrite(doc.c_str(), "A", "B", MvrUUID(1, 2, 3, 4))); for (auto& c : t->c) { if (c->tag == "Src") e("add", f->AddFileToGdtfFile(c->str("Path").c_str(), ERessourceType::RessoureFixture)); } if (t->get("Thumb")) f->SetFixtureThumbnail(t->str("Thumb").c_str()); e("close", f->Close()); }
      VCOMPtr<IGdtfFixture> f(IID_IGdtfFixture); VCOMError x = f->ReadFromFile(doc.c_str()); e("read", x);
      if (!x) { if (S(f->GetName()) != "A") log += "name=" + S(f->GetName()) + " "; if (t->get("Thumb")) { std::string p = S(f->GetFixtureThumbnail_PNG_FullPath()); bool ok = false; std::string d = H::ReadAll(p, &ok); if (!ok || d != t->str("ThumbData")) log += "thumb=" + H::Esc(p) + " "; } }
    } else {
      { IMediaRessourceVectorInterfacePtr m(IID_MediaRessourceVectorInterface); e("open", m->OpenForWrite(doc.c_str())); for (auto& c : t->c) { if (c->tag == "Src") e("add", m->AddFileToMvrFile(c->str("Path").c_str())); if (c->tag == "Lib") e("lib", m->AddGdtfFolderLocation(c->str("Path").c_str())); }
        ISceneObj* l = 0; e("layer", m->CreateLayerObject(MvrUUID(1, 2, 3, 4), "L", &l)); int k = 5; for (auto& c : t->c) if (c->tag == "Fx") { ISceneObj* o = 0; STransformMatrix id{}; id.ux = id.vy = id.wz = 1; e("fx", m->CreateFixture(MvrUUID(1, 2, 3, k++), id, "F", l, &o)); if (o) { o->SetGdtfName(c->str("Name").c_str()); o->SetGdtfMode("M"); } }
        e("close", m->Close()); }
      IMediaRessourceVectorInterfacePtr m(IID_MediaRessourceVectorInterface); VCOMError x = m->OpenForRead(doc.c_str()); e("read", x);
      if (!x) { size_t n = 0; e("resources", m->GetAttachedFileCount(n)); for (size_t k = 0; k < n; k++) { MvrString p = m->GetAttachedFileCountAt(k); bool ok = false; std::string d = H::ReadAll(S(p), &ok); log += "file=" + H::Esc(S(p)) + "|" + (ok ? H::Esc(d) : "?") + " "; } }
    }
    if (chdir("/")) {}
    H::Home(""); H::WriteAll(H::Scratch() + Fmt("/p%llu.log", (unsigned long long)i), log); H::Count("documents written and read"); });
}
H::Reg r("paths", Paths);
}
