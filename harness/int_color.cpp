// Colour conversion through IUtility.
#include "Prefix/StdAfx.h"
#include "script.h"
namespace {
using namespace VectorworksMVR;
struct Color : Script::Handler {
  IIUtilityPtr u{IID_IUtility};
  void op(const Node& o, Node& r) override {
    if (o.tag == "cie") { CieColor c; c.fx = Script::D(o, "X"); c.fy = Script::D(o, "Y"); c.f_Y = Script::D(o, "L"); RGBColor d; d.r = d.g = d.b = -1; r.set("E", std::to_string((unsigned)u->CieToRgb(c, d))); r.set("V", H::Fmt("%d %d %d", (int)d.r, (int)d.g, (int)d.b)); return; }
    int R = Script::I(o, "R"), G = Script::I(o, "G"); std::string f; int bad = 0;      // a line of the colour cube: all blues of this red and green
    for (int b = 0; b < 256; b++) {
      RGBColor c, d; c.r = R; c.g = G; c.b = b; d.r = d.g = d.b = -1; CieColor e; e.fx = e.fy = e.f_Y = -1; VCOMError x = u->RgBToCie(c, e), y = u->CieToRgb(e, d);
      if (x || y || d.r != R || d.g != G || d.b != b) { if (!bad++) r.set("Bad", H::Fmt("%d %d %d came back as %d %d %d", R, G, b, (int)d.r, (int)d.g, (int)d.b)); }
      if (b % 15 == Script::I(o, "K")) r.add("P")->set("V", H::Fmt("%d %.17g %.17g %.17g", b, e.fx, e.fy, e.f_Y));
    }
    r.set("N", std::to_string(bad));
  }
};
Script::RegT<Color> r("color");
}
