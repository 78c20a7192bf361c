// SHA-256 streams and the hash files.
#include "Prefix/StdAfx.h"
#include "script.h"
#include "sha256/sha256.h"
#include "HashManager.h"
#include <unistd.h>
using namespace VectorworksMVR::Filing;
namespace {
struct Sha : Script::Handler {
  SHA256 s;
  void op(const Node& o, Node& r) override {
    std::string d = o.str("Data"); size_t off = Script::I(o, "Off"); std::vector<char> mem(d.size() + off); if (!d.empty()) memcpy(mem.data() + off, d.data(), d.size());
    if (o.tag == "add") s.add(mem.data() + off, d.size());
    else if (o.tag == "many") { for (long long k = Script::I(o, "N"); k > 0; k--) s.add(mem.data() + off, d.size()); }
    else if (o.tag == "reset") s.reset();
    else if (o.tag == "get") r.set("V", s.getHash());
    else if (o.tag == "raw") { unsigned char b[32]; s.getHash(b); r.set("V", std::string((char*)b, 32)); }
    else if (o.tag == "one") r.set("V", s(mem.data() + off, d.size()));
    else if (o.tag == "text") r.set("V", s(d));
    else if (o.tag == "file" || o.tag == "buffer") {
      std::string h = o.str("Hash"); SceneData::ISceneDataZipBuffer data, sum, out; data.SetData((void*)d.data(), d.size()); if (!h.empty()) sum.SetData((void*)h.data(), h.size());
      void* p = nullptr; size_t n = 0;
      if (o.tag == "buffer") {
        r.set("Ok", HashManager::CreateHashForBuffer(data, out) ? "1" : "0"); out.GetData(p); out.GetDataSize(n); r.set("V", std::string((char*)p, n));
        r.set("Check", HashManager::CheckHashForBuffer(data, sum) ? "1" : "0");
      } else {
        IFileIdentifierPtr f(IID_FileIdentifier), g(IID_FileIdentifier); H::WriteAll(Script::Path("hd"), d); H::WriteAll(Script::Path("hs"), h); f->Set(TXString(Script::Path("hd").c_str())); g->Set(TXString(Script::Path("hs").c_str()));
        r.set("Ok", HashManager::CreateHashForFile(f, out) ? "1" : "0"); out.GetData(p); out.GetDataSize(n); r.set("V", std::string((char*)p, n));
        r.set("Check", HashManager::CheckHashForFile(f, g) ? "1" : "0");
        unlink(Script::Path("hd").c_str()); unlink(Script::Path("hs").c_str());
      }
    }
  }
};
Script::RegT<Sha> r("sha");
}
