// Runs scripts of operations on archives through IZIPFile; the oracle (model of the archive, independent reader) is in Python.
#include "Prefix/StdAfx.h"
#include "node.h"
#include <unistd.h>
using namespace VectorworksMVR::Filing;
using H::Fmt;

namespace {
struct Buf : IZIPFileIOBuffer {
  std::string d; bool set = false; int sets = 0;
  VCOMError VCOM_CALLTYPE GetDataSize(size_t& o) override { o = d.size(); return kVCOMError_NoError; }
  VCOMError VCOM_CALLTYPE CopyDataInto(void* p, size_t n) override { if (n && !d.empty()) memcpy(p, d.data(), n < d.size() ? n : d.size()); return kVCOMError_NoError; }
  VCOMError VCOM_CALLTYPE SetData(void* p, size_t n) override { d.assign((const char*)p, n); set = true; sets++; return kVCOMError_NoError; }
};
std::string Path(const std::string& n) { return H::Scratch() + "/" + n; }
std::string Fnv(const std::string& d) { uint64_t h = 1469598103934665603ull; for (unsigned char c : d) h = (h ^ c) * 1099511628211ull; return Fmt("%016llx", (unsigned long long)h); }
void Ident(IFileIdentifierPtr& f, const std::string& n) { f->Set(TXString(Path(n).c_str())); }
void List(IZIPFile* z, Node* o) {
  std::string in, out; int i = 0; VCOMError e;
  while (!(e = z->GetNextFile(in, out))) {
    auto n = o->add("E"); n->set("Name", out);
    if (++i > 5000) { o->set("Endless", "1"); break; }
    in = out;
  }
}
void Entry(IZIPFile* z, const std::string& name, Node* n) {
  Buf b; VCOMError e = z->GetFile(name, &b); n->set("Err", std::to_string((unsigned)e)); n->set("Set", b.set ? "1" : "0");
  n->set("Size", std::to_string(b.d.size())); n->set("Fnv", Fnv(b.d));
  SZIPFileInfo fi; fi.dwCRC = 0; fi.dwCompressedSize = fi.dwUncompressedSize = 0; fi.dwCompressionMethod = 0; e = z->GetFileInfo(name, fi); n->set("InfoErr", std::to_string((unsigned)e));
  if (!e) { n->set("Crc", std::to_string(fi.dwCRC)); n->set("USize", std::to_string(fi.dwUncompressedSize)); n->set("CSize", std::to_string(fi.dwCompressedSize)); n->set("Method", std::to_string(fi.dwCompressionMethod)); n->set("InfoName", fi.fFileName.GetStdString()); }
}
int Ops(const H::Args& a) {
  uint64_t st = strtoull(a[1].c_str(), 0, 10), n = strtoull(a[2].c_str(), 0, 10);
  for (uint64_t i = st; i < st + n; i++) {
    H::CaseBegin(i); auto root = Node::parse(H::ReadAll(Path(Fmt("z%llu.ops", (unsigned long long)i)))); Node res("Results"); std::vector<std::string> keep;
    {
      IZIPFilePtr z(IID_ZIPFile);
      std::vector<std::unique_ptr<IFileIdentifierPtr>> ids;
      for (auto& op : root->c) {
        auto o = res.add("R"); const std::string k = op->str("K"); o->set("K", k); VCOMError e = 0; std::string nm = op->str("Name");
        auto ident = [&](const std::string& f) -> IFileIdentifierPtr& { ids.emplace_back(new IFileIdentifierPtr(IID_FileIdentifier)); Ident(*ids.back(), f); return *ids.back(); };
        if (k == "clock") H::Clock(strtoll(op->str("T").c_str(), 0, 10));
        else if (k == "fresh") { z = IZIPFilePtr(IID_ZIPFile); }
        else if (k == "new") e = z->OpenNewWrite(ident(nm), op->str("Compress") == "1");
        else if (k == "write") e = z->OpenWrite(ident(nm));
        else if (k == "readf") e = z->OpenRead(ident(nm));
        else if (k == "readb") { std::string b = H::ReadAll(Path(nm)); e = z->OpenRead(b.data(), b.size()); b.assign(b.size(), 'x'); }
        else if (k == "addb") { Buf b; b.d = op->str("Data"); e = z->AddFile(TXString(nm.c_str()), &b); }
        else if (k == "addf") { std::string src = "src" + std::to_string(ids.size()); H::WriteAll(Path(src), op->str("Data")); e = z->AddFile(TXString(nm.c_str()), ident(src)); unlink(Path(src).c_str()); }
        else if (k == "rm") e = z->RemoveFile(TXString(nm.c_str()));
        else if (k == "close") e = z->Close();
        else if (k == "tobuf") { char* p = nullptr; size_t len = 0; e = z->ToBuffer(p, len); if (!e) H::WriteAll(Path(nm), std::string(p, len)); delete[] p; Uint64 sz = 0; z->GetSize(sz); o->set("Size", std::to_string(sz)); }
        else if (k == "list") List(z, o);
        else if (k == "ext") { std::string in, out; int c = 0; while (c++ < 5000 && !z->GetNextFile(in, op->str("Name"), out)) { o->add("E")->set("Name", out); in = out; } if (c >= 5000) o->set("Endless", "1"); }
        else if (k == "get") Entry(z, nm, o);
        else if (k == "all") { List(z, o); for (auto& c : o->c) Entry(z, c->str("Name"), c.get()); }
        o->set("E", std::to_string((unsigned)e));
      }
    }
    std::string o; res.print(o); H::WriteAll(Path(Fmt("z%llu.res", (unsigned long long)i)), o); H::CaseEnd(i);
  }
  return 0;
}
H::Reg r("zip_ops", Ops);
}
