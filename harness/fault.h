// Work done while calls of the file system fail: what is reported as done has to be done.
#pragma once
#include "h.h"
#include <functional>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <csignal>
namespace Fault {
static const char* kOut = ",openw,fwrite,fclose,fflush,";                                // what writing the archive needs
static const char* kIn = ",openr,fread,";                                                // what reading it needs
static const char* kSide = ",openw,fwrite,fclose,fflush,mkdir,remove,unlink,rmdir,rename,";  // what taking it apart needs
inline std::vector<long> choose(long n, H::Rng& r, size_t most) { std::vector<long> v; for (long k = 1; k <= n; k++) { v.push_back(k); v.push_back(-k); } while (v.size() > most) v.erase(v.begin() + r.below(v.size())); return v; }
// write(path, around) writes the archive; around(true) is called right before its Close, around(false) after. It returns the status.
typedef std::function<unsigned(const std::string&, const std::function<void(bool)>&)> Write;
inline void Writing(const std::string& dir, const std::string& ext, H::Rng& r, const Write& write) {
  std::string f = dir + "/whole" + ext; long n = 0;
  unsigned e = write(f, [&](bool on) { if (on) H::Io::FailAt(0, kOut); else { n = H::Io::Ops(); H::Io::Reset(); } });
  std::string whole = H::ReadAll(f); if (e) { H::Fail("refused", "writing without any failure gives the status " + std::to_string(e)); return; }
  if (n < 3) H::Fail("harness", "only " + std::to_string(n) + " calls seen");
  auto judge = [&](const std::string& how, const std::string& p, unsigned st, bool happened) {
    H::Count("writes with a failing call", happened); bool same = H::ReadAll(p) == whole;
    if (!happened) { if (st || !same) H::Fail("no-fault:" + how, "nothing failed, but the status is " + std::to_string(st)); return; }
    if (st) H::Count("failures reported"); else if (same) H::Count("failures without effect"); else H::Fail("unreported:" + how, "Close reports success, but the file has " + std::to_string(H::ReadAll(p).size()) + " bytes of " + std::to_string(whole.size()) + " (" + how + ")");
  };
  for (long k : choose(n, r, 8)) {
    std::string p = dir + "/part" + ext; unlink(p.c_str()); if (r.below(3) == 0) H::WriteAll(p, "what was there before"); long fired = 0; std::string op;
    unsigned st = write(p, [&](bool on) { if (on) { H::Io::record = true; H::Io::FailAt(k, kOut); } else { fired = H::Io::Fired(); H::Io::record = false; long seen = 0; for (auto& ev : H::Io::Log()) if (std::string(kOut).find("," + ev.op + ",") != std::string::npos && ++seen == labs(k)) op = ev.op; H::Io::FailAt(0, ""); H::Io::Reset(); } });
    judge(op + (k < 0 ? "-on" : ""), p, st, fired > 0); H::Distinct("failing calls", op + std::to_string(k));
  }
  { std::string p = dir + "/none/x" + ext; judge("no-folder", p, write(p, [](bool) {}), true); }
  { std::string p = dir + "/isdir" + ext; mkdir(p.c_str(), 0755); judge("is-folder", p, write(p, [](bool) {}), true); rmdir(p.c_str()); }
  { std::string d = dir + "/ro", p = d + "/x" + ext; mkdir(d.c_str(), 0555); judge("no-permission", p, write(p, [](bool) {}), true); rmdir(d.c_str()); }
  if (getenv("VR_FSIZE")) { std::string p = dir + "/full" + ext; signal(SIGXFSZ, SIG_IGN); struct rlimit o, l; getrlimit(RLIMIT_FSIZE, &o); l = o; l.rlim_cur = r.below(whole.size());   // (a disk that really is full)
    unsigned st = write(p, [&](bool on) { setrlimit(RLIMIT_FSIZE, on ? &l : &o); }); judge("full", p, st, true); }
  { std::string p = dir + "/after" + ext; unsigned st = write(p, [](bool) {}); if (st || H::ReadAll(p) != whole) H::Fail("afterwards", "after failures, writing the same gives another file (status " + std::to_string(st) + ")"); H::Count("writes after failures"); }
}
// read(path, around, dump) opens the archive (around as above) and, when that is reported as done, fills dump.
typedef std::function<unsigned(const std::string&, const std::function<void(bool)>&, std::string&)> Read;
inline std::string strip(const std::string& d) { std::string o; for (auto& l : H::Split(d, '\n')) { if (l.find(" ~File") != std::string::npos && l.find(" ~File") < 4) continue; for (auto& t : H::Split(l, ' ')) if (t.empty() || t[0] != '~') o += t + " "; o += "\n"; } return o; }
inline void Reading(const std::string& f, H::Rng& r, const Read& read) {
  std::string whole, d; long n = 0, m = 0;
  unsigned e = read(f, [&](bool on) { if (on) H::Io::FailAt(0, kIn); else { n = H::Io::Ops(); H::Io::Reset(); } }, whole); if (e) { H::Fail("refused-read", "reading without any failure gives the status " + std::to_string(e)); return; }
  read(f, [&](bool on) { if (on) H::Io::FailAt(0, kSide); else { m = H::Io::Ops(); H::Io::Reset(); } }, d); if (d != whole) { H::Fail("twice", "reading twice differs"); return; }
  for (int side = 0; side < 2; side++) for (long k : choose(side ? m : n, r, side ? 10 : 6)) {
    d.clear(); long fired = 0; unsigned st = read(f, [&](bool on) { if (on) H::Io::FailAt(k, side ? kSide : kIn); else { fired = H::Io::Fired(); H::Io::FailAt(0, ""); H::Io::Reset(); } }, d); H::Count("reads with a failing call", fired > 0);
    std::string how = side ? "side" : labs(k) == 1 ? "open" : "read"; H::Distinct("failing calls", how + std::to_string(k));
    if (st) { H::Count("failures reported"); if (!fired) H::Fail("no-fault:" + how, "nothing failed"); else if (side) H::Count("reads refused because files could not be taken out"); }
    else if (side ? strip(d) != strip(whole) : d != whole) H::Fail("unreported:" + how, "the call reports success, but what was read is not what the file holds:\n" + d.substr(0, 600) + "\n--- instead of\n" + whole.substr(0, 600));
  }
  std::string b = H::ReadAll(f);
  for (int j = 0; j < 3; j++) { size_t cut = r.below(b.size()); std::string p = f + ".cut"; H::WriteAll(p, b.substr(0, cut)); d.clear(); unsigned st = read(p, [](bool) {}, d); H::Count("cut files read"); if (st) H::Count("failures reported"); else if (strip(d) != strip(whole)) H::Fail("unreported:cut", "a file cut after " + std::to_string(cut) + " of " + std::to_string(b.size()) + " bytes is read with success as\n" + d.substr(0, 600)); unlink(p.c_str()); }
  for (auto p : {f + ".none", H::Scratch()}) { d.clear(); if (!read(p, [](bool) {}, d)) H::Fail("unreported:none", "reading " + p + " reports success"); else H::Count("failures reported"); }
  d.clear(); if (read(f, [](bool) {}, d) || d != whole) H::Fail("afterwards-read", "after failures the file is not read as before"); H::Count("reads after failures");
}
}
