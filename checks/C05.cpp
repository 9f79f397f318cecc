//@ sources: src/tools/BoxLookUpTable.cpp src/tools/RadialLookUpTable.cpp
//@ quick: 40000
//@ thorough: 600000
// Distance look-up tables against closed forms.
#include "pbt.hpp"
#include <iostream>
#include <envire/tools/BoxLookUpTable.hpp>
#include <envire/tools/RadialLookUpTable.hpp>
using namespace pbt;
namespace pbt { const char* RULE = "Histories of 1-4 reconfigurations (scale, box size, border / radius; grid-aligned and arbitrary values, enlarged, shrunk and repeated) of a table, each followed by 40 look-ups spread over the inside of the box, the border, its outer edges and corners, and outside. Oracle: the exact distance to the box, with the discretisation allowed to be at most one cell diagonal too high and a tenth of a cell too low; an exception beyond the table; exact distance and angle for the radial table at every offset below its radius. Non-trivial: a look-up in the border region (box), at an off-axis offset (radial)."; }

PROP(box, 3) {
    envire::BoxLookUpTable t; bool nt = false;
    CHECK_THROWS(t.getDistanceToBox(0, 0), "a table that was never computed");
    size_t n = c.range(1, 4); double scale = 0, sx = 0, sy = 0, md = 0, reach = 0;
    for(size_t r = 0; r < n; r++) {
        int what = r == 0 ? 0 : c.draw(6); double os = scale, ox_ = sx, oy_ = sy;
        if(what == 0) { scale = c.pick<double>({0.1, 0.05, 0.25, 1.0, 0.03}); bool al = c.boolean(); sx = al ? scale*c.range(1, 20) : c.real(scale, 20*scale); sy = al ? scale*c.range(1, 20) : c.real(scale, 20*scale); md = al ? scale*c.range(1, 12) : c.real(scale*0.5, 12*scale); }
        else if(what == 1) md = md*c.pick<double>({0.5, 1.5, 2.0});
        else if(what == 2) sx *= c.pick<double>({0.75, 1.0, 1.5});
        else if(what == 4) sy *= c.pick<double>({0.75, 1.5, 1.01});
        else if(what == 5) scale *= c.pick<double>({0.5, 0.9, 1.2});
        // what == 3: the same parameters again
        if(std::fabs(os - scale) > 1e-3 || std::fabs(ox_ - sx) > 1e-3 || std::fabs(oy_ - sy) > 1e-3) reach = 0; // a table for the same box may stay larger than asked for
        c.note(fmt("recompute scale %.17g box %.17g x %.17g border %.17g", scale, sx, sy, md));
        t.recompute(scale, sx, sy, md); reach = std::max(reach, md);
        double hx = sx/2, hy = sy/2;
        for(int q = 0; q < 40; q++) {
            double x, y; auto coord = [&](double h) -> double { double H = h + md, v; switch(c.draw(6)) { case 0: v = c.real(0, h); break; case 1: v = h + c.unit()*md; break; case 2: v = H - c.unit()*scale*0.2; break; case 3: v = H*(1 - 1e-9); break; case 4: v = h + c.range(0, 12)*scale; if(v >= H) v = H*(1 - 1e-9); break; default: v = c.unit()*H; } return c.boolean() ? -v : v; };
            x = coord(hx); y = coord(hy); if(std::fabs(x) > (hx + md)*(1 - 0.9e-9) || std::fabs(y) > (hy + md)*(1 - 0.9e-9)) continue;
            if(c.isRendering()) c.note(fmt("look-up (%.17g, %.17g)", x, y)); double dx = std::max(0.0, std::fabs(x) - hx), dy = std::max(0.0, std::fabs(y) - hy), d = std::sqrt(dx*dx + dy*dy), v = t.getDistanceToBox(x, y);
            if(d > 0) nt = true;
            // the value of a cell is the largest distance found in it on a raster of a tenth of a cell
            if(!(v <= d + scale*std::sqrt(2.0)*1.0001 + 1e-9)) FAIL(fmt("distance at (%.17g, %.17g) is %.9g, more than a cell above the true %.9g", x, y, v, d));
            if(!(v >= d - scale*0.15*std::sqrt(2.0) - 1e-9)) FAIL(fmt("distance at (%.17g, %.17g) is %.9g, below the true %.9g", x, y, v, d));
        }
        for(int q = 0; q < 6; q++) { double ox = hx + reach + scale*(1.01 + c.real(0, 5)), oy = c.real(0, hy + md + 3*scale); if(c.boolean()) ox = -ox; if(c.boolean()) oy = -oy; bool sw = c.boolean(); double px = ox, py = oy; if(sw) { px = c.real(0, hx + md); py = hy + reach + scale*(1.01 + c.real(0, 5)); if(c.boolean()) py = -py; }
            bool threw = false; try { t.getDistanceToBox(px, py); } catch(const std::exception&) { threw = true; } CHECK(threw, fmt("look-up at (%.9g, %.9g), outside the table, was answered", px, py)); }
    }
    if(nt) c.nontrivial();
}

PROP(radial, 1) {
    envire::RadialLookUpTable t; size_t n = c.range(1, 4); double scale = 0, rad = 0; bool nt = false;
    for(size_t r = 0; r < n; r++) {
        int what = r == 0 ? 0 : c.draw(4); if(what == 0) { scale = c.pick<double>({0.1, 0.05, 0.25, 1.0, 0.3}); rad = c.boolean() ? scale*c.range(1, 25) : scale*c.real(1.0, 25.0); } else if(what == 1) rad *= c.pick<double>({0.5, 1.3, 2}); else if(what == 2) { double s2 = scale*c.pick<double>({0.5, 2.0}); if(rad >= s2) scale = s2; }
        c.note(fmt("recompute scale %.17g radius %.17g", scale, rad)); t.recompute(scale, rad);
        int lim = (int)std::ceil(rad/scale - 1e-6) - 1; if(lim < 0) continue; // offsets strictly inside the radius
        for(int q = 0; q < 40; q++) { int x = c.rangeC(-lim, lim), y = c.rangeC(-lim, lim); if(c.chance(1, 4)) x = c.boolean() ? lim : -lim; if(c.chance(1, 4)) y = c.boolean() ? lim : -lim;
            if(x && y && x != y) nt = true;
            CHECK_CLOSE(t.getDistance(x, y), scale*std::hypot((double)x, (double)y), 1e-9, 1e-12, fmt("distance at offset (%d,%d)", x, y));
            double a = t.getAngle(x, y); if(x || y) { double e = std::atan2(y*scale, x*scale); double df = std::remainder(a - e, 2*M_PI); CHECK(std::fabs(df) < 1e-9, fmt("angle at offset (%d,%d) is %.12g, expected %.12g", x, y, a, e)); } }
    }
    if(nt) c.nontrivial();
}
