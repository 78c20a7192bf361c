// Keeps everything the library writes inside the scratch directory of the demonstration.
#pragma once
#include <pwd.h>
#include <unistd.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iterator>
#include <string>
#include <vector>
#include "Include/VectorworksMVR.h"
using namespace VectorworksMVR;
using namespace VectorworksMVR::GdtfDefines;
static std::string Scratch() { return getenv("DEMO_SCRATCH"); }
extern "C" struct passwd* getpwuid(uid_t u) { static struct passwd pw; static std::string h = Scratch(); memset(&pw, 0, sizeof pw); pw.pw_dir = (char*)h.c_str(); pw.pw_name = (char*)"demo"; return &pw; }
static void put(const std::string& p, const std::string& d) { std::ofstream(p, std::ios::binary) << d; }
static std::string get(const std::string& p) { std::ifstream f(p, std::ios::binary); return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }
static int bad = 0;
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); bad = 1; } } while (0)
// An archive with its entries stored; comment is put into every central entry
static std::string Zip(const std::vector<std::pair<std::string, std::string>>& files, const std::string& comment = "") {
  auto le = [](unsigned long v, int n) { std::string s; while (n--) { s += char(v & 255); v >>= 8; } return s; };
  std::string out, dir;
  for (auto& f : files) {
    unsigned c = ~0u; for (unsigned char b : f.second) { c ^= b; for (int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1; } c = ~c;
    std::string h = le(20, 2) + le(0, 2) + le(0, 2) + le(0, 2) + le(0x21, 2) + le(c, 4) + le(f.second.size(), 4) + le(f.second.size(), 4) + le(f.first.size(), 2) + le(0, 2);
    dir += le(0x02014b50, 4) + le(20, 2) + h + le(comment.size(), 2) + le(0, 2) + le(0, 2) + le(0, 4) + le(out.size(), 4) + f.first + comment;
    out += le(0x04034b50, 4) + h + f.first + f.second;
  }
  return out + dir + le(0x06054b50, 4) + le(0, 4) + le(files.size(), 2) + le(files.size(), 2) + le(dir.size(), 4) + le(out.size(), 4) + le(0, 2);
}
