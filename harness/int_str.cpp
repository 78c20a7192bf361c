// Operations on TXString; text goes in and out as UTF-16 units in hex.
#include "Prefix/StdAfx.h"
#include "script.h"
namespace {
using VectorworksMVR::TXString;
std::u16string U(const std::string& s) { std::u16string r; for (auto& f : H::Split(s, ',')) if (!f.empty()) r.push_back((char16_t)strtoul(f.c_str(), 0, 16)); return r; }
std::string X(const TXString& t) { std::string r; const char16_t* p = (const char16_t*)t.GetData(); for (size_t i = 0; i < t.GetLength(); i++) r += H::Fmt(i ? ",%x" : "%x", (unsigned)p[i]); return r; }
std::string W(const std::wstring& w) { std::string r; for (size_t i = 0; i < w.size(); i++) r += H::Fmt(i ? ",%x" : "%x", (unsigned)w[i]); return r; }
std::string N(long long v) { return std::to_string(v); }
struct Str : Script::Handler {
  TXString v[4];
  void op(const Node& o, Node& r) override {
    const std::string& k = o.tag; TXString& s = v[Script::I(o, "R")]; const TXString& cs = s; TXString& t = v[Script::I(o, "Q")];
    std::u16string u = U(o.str("U")), u2 = U(o.str("U2")); size_t p = strtoull(o.str("P").c_str(), 0, 10), n = strtoull(o.str("N").c_str(), 0, 10); bool ic = o.str("IC") == "1"; int how = Script::I(o, "How"); std::string b = o.str("B");
    auto arg = [&] { return o.get("Q") ? t : TXString(u); };
    TXString* self = nullptr; 
    if (k == "set") s = TXString(u);
    else if (k == "utf8") { if (how == 0) s = TXString(b.c_str()); else if (how == 1) s = TXString(b.data(), b.size()); else if (how == 2) s = b; else if (how == 3) s = b.c_str(); else if (how == 4) s = TXString(b); else { std::vector<char> m(b.begin(), b.end()); s = TXString(m.data(), m.size()); } }
    else if (k == "wide") { std::wstring w; for (auto& f : H::Split(o.str("U"), ',')) if (!f.empty()) w.push_back((wchar_t)strtoul(f.c_str(), 0, 16)); if (how == 0) s = TXString(w.c_str()); else if (how == 1) s = w; else if (how == 2) s = w.c_str(); else s = TXString(w.data(), how == 3 ? w.size() : w.size() + 7); }
    else if (k == "copy") { if (how == 0) s = t; else if (how == 1) { TXString c(t); s = c; } else if (how == 2) { TXString c(t); s = std::move(c); } else { TXString c(t); TXString d(std::move(c)); swap(s, d); } }
    else if (k == "fill") { if (how == 0) s = TXString((char)p, n); else if (how == 1) s = TXString((unsigned char)p, n); else s = TXString((UCChar)p, n); }
    else if (k == "setlen") self = &s.SetLength(n);
    else if (k == "setlench") self = &s.SetLength(n, (TXChar)p);
    else if (k == "trunc") self = &s.Truncate(n);
    else if (k == "clear") self = &s.Clear();
    else if (k == "at") { ptrdiff_t q = (ptrdiff_t)Script::I(o, "P"); r.set("A", N(cs[q])); r.set("B", N(s[q])); r.set("C", N(cs.GetAt((size_t)q))); r.set("D", N(s.GetAt((size_t)q))); r.set("L", N(cs.GetLast())); r.set("M", N(s.GetLast())); }
    else if (k == "write") { ptrdiff_t q = (ptrdiff_t)Script::I(o, "P"); if (how == 0) s[q] = (TXChar)n; else if (how == 1) s.GetAt((size_t)q) = (TXChar)n; else self = &s.SetAt((size_t)q, (TXChar)n); }
    else if (k == "add") { if (how == 0) self = &(s += arg()); else if (how == 1) self = &(s << arg()); else if (how == 2) s = s + arg(); else if (how == 3) self = &(s += (const UCChar*)u.c_str()); else self = &(s += b.c_str()); }
    else if (k == "addch") { if (how == 0) self = &(s += (char)p); else if (how == 1) self = &(s += (unsigned char)p); else if (how == 2) self = &(s += (UCChar)p); else if (how == 3) s = s + (TXChar)p; else s = (TXChar)p + s; }
    else if (k == "addnum") { if (how == 0) self = &(s << (Sint32)Script::I(o, "V")); else if (how == 1) self = &(s << (Sint64)Script::I(o, "V")); else if (how == 2) self = &(s << (Uint32)strtoull(o.str("V").c_str(), 0, 10)); else if (how == 3) self = &(s << (Uint64)strtoull(o.str("V").c_str(), 0, 10)); else self = &(s << Script::D(o, "V")); }
    else if (k == "insert") { if (how == 0) self = &s.Insert(p, arg()); else if (how == 1) self = &s.Insert(p, b.c_str()); else if (how == 2) self = &s.Insert(p, (const UCChar*)u.c_str()); else if (how == 3) self = &s.Insert(p, (char)n); else if (how == 4) self = &s.Insert(p, (unsigned char)n); else self = &s.Insert(p, (UCChar)n); }
    else if (k == "del") self = o.get("N") ? &s.Delete(p, n) : &s.Delete(p);
    else if (k == "dellast") self = &s.DeleteLast();
    else if (k == "trim") { if (how == 0) self = &s.TrimLeft(); else if (how == 1) self = &s.TrimRight(); else if (how == 2) self = &s.Trim(); else if (how == 3) self = &s.TrimLeftInvalidCharacter(); else if (how == 4) self = &s.TrimRightInvalidCharacter(); else self = &s.TrimInvalidCharacters(); }
    else if (k == "replace") self = &s.Replace(arg(), TXString(u2), ic);
    else if (k == "case") self = how == 0 ? &s.MakeUpper() : how == 1 ? &s.MakeLower() : &s.MakeReverse();
    else if (k == "get") { r.set("Std", s.GetStdString()); r.set("Chr", (const char*)cs); r.set("Chr2", cs.GetCharPtr()); r.set("Wide", W(s.GetStdWString())); r.set("WPtr", W((const wchar_t*)cs)); r.set("Uc", X(TXString((const UCChar*)cs))); r.set("Enc", N(s.GetEncodingLength(ETXEncoding::eUTF8))); r.set("Enc16", N(s.GetEncodingLength(ETXEncoding::eUTF16))); r.set("Bytes", N(s.GetByteSize())); const unsigned char* pas = cs.GetUCharPtr(); r.set("Pas", std::string((const char*)pas + 1, pas[0])); }
    else if (k == "into") {
      if (how == 0) { std::vector<char> m(n, 'x'); s.CopyInto(m.data(), n); r.set("V", n ? std::string(m.data()) : ""); }
      else if (how == 1) { std::vector<unsigned char> m(n, 'x'); s.CopyInto(m.data(), n); r.set("V", n ? std::string((char*)m.data() + 1, m[0]) : ""); }
      else if (how == 2) { std::vector<UCChar> m(n, 'x'); s.CopyInto(m.data(), n); r.set("V", n ? X(TXString(m.data())) : ""); }
      else { std::vector<wchar_t> m(n, 'x'); s.CopyInto(m.data(), n); r.set("V", n ? W(m.data()) : ""); }
    }
    else if (k == "find") { ptrdiff_t f = -9; bool d = !o.get("P");
      if (how == 0) f = d ? s.Find(arg()) : s.Find(arg(), p, ic); else if (how == 1) f = d ? s.Find((int)n) : s.Find((int)n, p, ic); else if (how == 2) f = d ? s.Find((char)n) : s.Find((char)n, p, ic);
      else if (how == 3) f = d ? s.ReverseFind(arg()) : s.ReverseFind(arg(), p, ic); else if (how == 4) f = d ? s.ReverseFind((int)n) : s.ReverseFind((int)n, p, ic); else if (how == 5) f = d ? s.ReverseFind((char)n) : s.ReverseFind((char)n, p, ic);
      else if (how == 6) f = d ? s.FindOneOf(arg()) : s.FindOneOf(arg(), p); else if (how == 7) f = d ? s.ReverseFindOneOf(arg()) : s.ReverseFindOneOf(arg(), p); else if (how == 8) f = d ? s.FindNotOneOf(arg()) : s.FindNotOneOf(arg(), p); else f = d ? s.ReverseFindNotOneOf(arg()) : s.ReverseFindNotOneOf(arg(), p);
      r.set("V", N(f)); }
    else if (k == "sub") { TXString x = how == 0 ? s.Mid(p, n) : how == 1 ? s.Left(n) : how == 2 ? s.Right(n) : s.Mid(p); r.set("V", X(x)); if (o.get("Q")) t = x; }
    else if (k == "split") { auto x = how == 0 ? s.Split((char)n) : s.Split(arg()); std::string a; for (auto& y : x) a += "[" + X(y) + "]"; r.set("V", a); }
    else if (k == "class") { std::string a, b2; for (char16_t c : u) { a += TXString::IsPunctuation(c) ? "1" : "0"; b2 += TXString::IsWhitespace(c) ? "1" : "0"; } r.set("P", a); r.set("W", b2); }
    else if (k == "num") { r.set("I", N(s.atoi())); r.set("L", N(s.atoi64())); r.set("F", Script::F(s.atof())); r.set("C", s.IsCompleteNumber() ? "1" : "0"); }
    else if (k == "fromnum") { if (how == 0) self = &s.itoa(Script::I(o, "V")); else if (how == 1) self = &s.ftoa(Script::D(o, "V")); else if (how == 2) self = &s.ftoa(Script::D(o, "V"), (Sint32)p); else if (how == 3) s = TXString::ToStringInt(Script::I(o, "V")); else if (how == 4) s = TXString::ToStringInt(Script::I(o, "V"), (Sint32)p, (wchar_t)n); else if (how == 5) s = TXString::ToStringReal(Script::D(o, "V")); else s = TXString::ToStringReal(Script::D(o, "V"), (Sint32)p, true); }
    else if (k == "cmp") {
      TXString x = arg(); auto sg = [](Sint32 v) { return N((v > 0) - (v < 0)); };
      r.set("Eq", s.Equal(x) ? "1" : "0"); r.set("EqN", s.EqualNoCase(x) ? "1" : "0"); r.set("Cmp", sg(s.Compare(x))); r.set("CmpN", sg(s.CompareNoCase(x))); r.set("Ends", s.EndsWith(x) ? "1" : "0");
      std::string ops; ops += s == x ? "1" : "0"; ops += s != x ? "1" : "0"; ops += s < x ? "1" : "0"; ops += s <= x ? "1" : "0"; ops += s > x ? "1" : "0"; ops += s >= x ? "1" : "0"; r.set("Ops", ops);
      std::string o2; const char* c = x.GetCharPtr(); o2 += s == c ? "1" : "0"; o2 += c == s ? "1" : "0"; o2 += s != c ? "1" : "0"; o2 += c != s ? "1" : "0"; o2 += s == x.GetTXCharPtr() ? "1" : "0"; o2 += x.GetTXCharPtr() == s ? "1" : "0"; r.set("Ops2", o2);
      if (s.Equal(x) && s.hash() != x.hash()) r.set("Hash", "0");
    }
    if (self && self != &s) r.set("Other", "1");
    r.set("S", X(s)); r.set("Len", N(s.GetLength())); r.set("E", s.IsEmpty() ? "1" : "0"); r.set("U8", s.GetStdString());
  }
};
Script::RegT<Str> r("str");
}
