//@ sources: src/core/*.cpp src/maps/GridBase.cpp src/maps/Grids.cpp src/maps/ElevationGrid.cpp src/maps/TraversabilityGrid.cpp src/tools/BresenhamLine.cpp
//@ libs: -lyaml -lboost_thread -lboost_filesystem -lboost_system -lboost_serialization -lpthread
//@ quick: 40000
//@ thorough: 1500000
// Grid data: bands, no-data values, extrema, copies, elevations, images.
#include "envutil.hpp"
#include <envire/maps/Grids.hpp>
#include <envire/maps/ElevationGrid.hpp>
#include <memory>
using namespace pbt; using namespace envire;
namespace pbt { const char* RULE = "Histories of up to 40 operations on grids of every cell type (8 to 32 bit integers, float, double) with up to six bands: writing cells by index and by position, creating, copying (within a grid, between grids, with and without a new name) and removing bands, no-data values, extrema, cloning and assigning grids and then changing either side, conversion to and from images; compared against a plain map of arrays. Elevation grids of planes and of arbitrary heights are compared with the surface model of the documentation at positions inside cells, also in border cells and in grids of one row or column. Non-trivial: at least two bands were written, a copy was changed independently, or a surface was evaluated away from a cell center."; }
namespace {
template<class T> T value(Ctx& c) { if(std::numeric_limits<T>::is_integer) { switch(c.draw(4)) { case 0: return (T)c.draw(10); case 1: return std::numeric_limits<T>::min(); case 2: return std::numeric_limits<T>::max(); default: return (T)c.draw(0xffffffff); } } switch(c.draw(5)) { case 0: return (T)c.draw(10); case 1: return (T)-c.unit()*100; case 2: return std::numeric_limits<T>::lowest(); case 3: return (T)c.pick(std::vector<double>{1e-30, -1e-30, 1e30, -0.0, INFINITY, -INFINITY}); default: return (T)c.signedReal(1000); } }
template<class T> struct Model { size_t nx, ny; std::map<std::string, std::vector<T>> b; std::map<std::string, T> nd; };
template<class T> void compare(const Grid<T>& g, const Model<T>& m, const std::string& what) {
    for(auto& k : m.b) { CHECK(g.hasBand(k.first), what + " has lost band " + k.first); const typename Grid<T>::ArrayType& a = g.getGridData(k.first); CHECK(a.shape()[0] == m.ny && a.shape()[1] == m.nx, what + " band " + k.first + " has another size"); for(size_t y = 0; y < m.ny; y++) for(size_t x = 0; x < m.nx; x++) { T e = k.second[y*m.nx + x], r = a[y][x]; CHECK(memcmp(&e, &r, sizeof(T)) == 0, what + fmt(" band %s cell %zu %zu: ", k.first.c_str(), x, y) + str(+r) + ", expected " + str(+e)); CHECK(a.data()[y*m.nx + x] == r && g.getFromRaster(k.first, x, y) == r, what + ": the accessors of a cell disagree"); } }
    for(const char* n : {"a", "b", "c", "d", "e", "grid_data"}) { if(!m.b.count(n)) CHECK(!g.hasBand(n), what + " has band " + n + ", which it should not have"); auto r = g.getNoData(n); auto it = m.nd.find(n); CHECK_EQ(r.second, it != m.nd.end(), what + " no-data of band " + n); if(r.second) CHECK(memcmp(&r.first, &it->second, sizeof(T)) == 0, what + " no-data value of band " + n); } }
template<class T> void history(Ctx& c, const char* tn) {
    eu::Quiet q; struct E { std::unique_ptr<Grid<T>> g; Model<T> m; }; std::vector<E> gs; size_t nx = c.range(1, 6), ny = c.range(1, 6); double sx = c.pick(std::vector<double>{1, 0.5, 0.1, 3}), sy = c.pick(std::vector<double>{1, 0.5, 0.1, 3}), ox = c.signedReal(5), oy = c.signedReal(5); c.note(fmt("Grid<%s> %zux%zu", tn, nx, ny)); c.label(tn);
    gs.push_back(E{std::unique_ptr<Grid<T>>(new Grid<T>(nx, ny, sx, sy, ox, oy)), Model<T>{nx, ny, {}, {}}}); const std::vector<std::string> names = {"a", "b", "c", "d", "e", "grid_data"}; size_t n = c.size(1, 40); int copies = 0;
    for(size_t i = 0; i < n; i++) {
        E& e = gs[c.draw(gs.size())]; Model<T>& m = e.m; Grid<T>& g = *e.g; const std::string b = c.pick(names); size_t x = c.draw(nx), y = c.draw(ny); T v = value<T>(c); auto ensure = [&](Model<T>& mm, const std::string& k) { if(!mm.b.count(k)) mm.b[k].assign(nx*ny, T()); };
        switch(c.weighted({8, 4, 2, 2, 2, 3, 3, 1, 2, 2, 2, 1, 2})) {
        case 0: g.getFromRaster(b, x, y) = v; ensure(m, b); m.b[b][y*nx + x] = v; c.note(fmt("set %s %zu %zu", b.c_str(), x, y)); break;
        case 1: { double px = ox + (x + c.real(0.05, 0.95))*sx, py = oy + (y + c.real(0.05, 0.95))*sy; g.get(b, px, py) = v; ensure(m, b); m.b[b][y*nx + x] = v; const Grid<T>& k = g; CHECK(memcmp(&v, &static_cast<const T&>(k.get(b, px, py)), sizeof(T)) == 0, "a value written at a position is not read there"); c.note(fmt("set %s at position in %zu %zu", b.c_str(), x, y)); break; }
        case 2: CHECK_THROWS(g.get(b, ox + (c.boolean() ? -0.5 : nx + 0.5)*sx, oy + 0.5*sy), "a value outside of the grid was accessed"); CHECK_THROWS(g.get(b, ox + 0.5*sx, oy + (c.boolean() ? -0.5 : ny + 0.5)*sy), "a value outside of the grid was accessed"); break;
        case 3: c.note("create " + b); g.createBand(b); ensure(m, b); break;
        case 4: if(m.b.count(b)) { g.removeData(b); m.b.erase(b); c.note("remove " + b); } break;
        case 5: c.note("no-data " + b); g.setNoData(b, v); m.nd[b] = v; break;
        case 6: if(m.b.count(b)) { T lo, hi; g.getMinMaxValues(b, lo, hi); T el = m.b[b][0], eh = el; for(T k : m.b[b]) { if(k < el) el = k; if(k > eh) eh = k; } c.note("extrema " + b); CHECK(lo == el && hi == eh, "extrema " + str(+lo) + " " + str(+hi) + ", expected " + str(+el) + " " + str(+eh)); } break;
        case 7: c.note("no-data of all bands"); g.setNoData(v); for(auto& k : m.b) m.nd[k.first] = v; break;
        case 8: { E& s = gs[c.draw(gs.size())]; std::string t = c.chance(1, 4) ? "" : c.pick(names); std::string tt = t.empty() ? b : t; if(!s.m.b.count(b)) { const GridBase& gb = *s.g; CHECK_THROWS(e.g->copyBandFrom(gb, b, "zz"), "a band which does not exist was copied"); g.removeData("zz"); } else if(s.m.nd.count(b) || !m.nd.count(tt)) { c.note("copy band " + b + " to " + t); g.copyBandFrom(*s.g, b, t); std::vector<T> cp = s.m.b[b]; bool has = s.m.nd.count(b); T ndv = has ? s.m.nd[b] : T(); m.b[tt] = cp; if(has) m.nd[tt] = ndv; } break; }
        case 9: if(gs.size() < 4) { c.note("clone"); EnvironmentItem* k = g.clone(); Grid<T>* kg = dynamic_cast<Grid<T>*>(k); CHECK(kg, "a clone is of another type"); Model<T> mc = m; gs.push_back(E{std::unique_ptr<Grid<T>>(kg), mc}); copies++; } break;
        case 10: if(gs.size() > 1) { E& s = gs[c.draw(gs.size())]; c.note("assign"); if(c.boolean()) *e.g = *s.g; else e.g->set(s.g.get()); Model<T> mc = s.m; e.m = mc; copies++; } break;
        case 11: { std::unique_ptr<Grid<T>> other(new Grid<T>(nx, ny, 1, 1)); GridBase* wrong = sizeof(T) == 8 ? (GridBase*)new Grid<float>(nx, ny, 1, 1) : new Grid<double>(nx, ny, 1, 1); std::unique_ptr<GridBase> w(wrong); bool threw = false; try { g.copyBandFrom(*w, b); } catch(const std::bad_cast&) { threw = true; } CHECK(threw, "a band was copied from a grid of another cell type"); break; }
        case 12: if(m.b.count(b)) { base::samples::frame::Frame f; g.convertToFrame(b, f); c.note("frame " + b); CHECK_EQ(f.size.width, nx, "width of the image"); CHECK_EQ(f.size.height, ny, "height of the image"); CHECK_EQ(f.image.size(), nx*ny*sizeof(T), "bytes of the image"); CHECK_EQ((size_t)f.pixel_size, sizeof(T), "pixel size"); CHECK(memcmp(f.image.data(), m.b[b].data(), f.image.size()) == 0, "the image differs from the band"); CHECK(f.frame_status == base::samples::frame::STATUS_VALID, "the image is not valid"); } break;
        }
        for(size_t k = 0; k < gs.size(); k++) compare<T>(*gs[k].g, gs[k].m, fmt("grid %zu", k));
    }
    if(gs[0].m.b.size() > 1 || copies) c.nontrivial();
}
}
PROP(bands, 4) { switch(c.draw(7)) { case 0: history<double>(c, "double"); break; case 1: history<uint8_t>(c, "uint8"); break; case 2: history<float>(c, "float"); break; case 3: history<int16_t>(c, "int16"); break; case 4: history<uint16_t>(c, "uint16"); break; case 5: history<int32_t>(c, "int32"); break; default: history<uint32_t>(c, "uint32"); } }
PROP(elevation, 3) {
    size_t nx = c.range(1, 7), ny = c.range(1, 7); double sx = c.real(0.05, 3), sy = c.boolean() ? sx : c.real(0.05, 3), ox = c.signedReal(20), oy = c.signedReal(20); ElevationGrid g(nx, ny, sx, sy, ox, oy); bool plane = c.boolean(); double a = c.signedReal(3), b = c.signedReal(3), d = c.signedReal(100); std::vector<double> h(nx*ny);
    c.note(fmt("%zux%zu scale %g %g offset %g %g", nx, ny, sx, sy, ox, oy) + (plane ? fmt(" plane %g x + %g y + %g", a, b, d) : ""));
    for(size_t y = 0; y < ny; y++) for(size_t x = 0; x < nx; x++) { double v = h[y*nx + x] = plane ? a*(ox + (x + 0.5)*sx) + b*(oy + (y + 0.5)*sy) + d : c.signedReal(10); switch(c.draw(3)) { case 0: g.get(GridBase::Position(x, y)) = v; break; case 1: g.get(ox + (x + 0.5)*sx, oy + (y + 0.5)*sy) = v; break; default: g.getGridData(ElevationGrid::ELEVATION)[y][x] = v; } }
    const ElevationGrid& k = g; auto H = [&](size_t x, size_t y) { return h[y*nx + x]; };
    for(size_t y = 0; y < ny; y++) for(size_t x = 0; x < nx; x++) { CHECK_EQ(k.get(GridBase::Position(x, y)), H(x, y), fmt("elevation of cell %zu %zu", x, y)); CHECK_EQ(k.get(ox + (x + 0.5)*sx, oy + (y + 0.5)*sy), H(x, y), fmt("elevation at the center of cell %zu %zu", x, y));
        // the surface of the documentation: height at the center, slope from the neighbours
        size_t x0 = x ? x - 1 : x, x1 = x + 1 < nx ? x + 1 : x, y0 = y ? y - 1 : y, y1 = y + 1 < ny ? y + 1 : y; double gx = x1 > x0 ? (H(x1, y) - H(x0, y))/((x1 - x0)*sx) : 0, gy = y1 > y0 ? (H(x, y1) - H(x, y0))/((y1 - y0)*sy) : 0;
        bool border = x == 0 || y == 0 || x + 1 == nx || y + 1 == ny; Eigen::Vector3d n = Eigen::Vector3d(-gx, -gy, 1).normalized(), r = k.getNormal(GridBase::Position(x, y)); CHECK_CLOSE(r.norm(), 1, 0, 1e-12, "length of a normal"); CHECK(r.z() > 0, "normal does not point up");
        if(!border || plane) CHECK((r - n).norm() < 1e-8*(1 + fabs(d) + fabs(ox) + fabs(oy))/std::min(sx, sy), fmt("normal of cell %zu %zu: ", x, y) + vec(r) + ", expected " + vec(n));
        Eigen::Vector2d p(ox + (x + c.real(0.01, 0.99))*sx, oy + (y + c.real(0.01, 0.99))*sy); Eigen::Vector3d r2 = k.getNormal(p); CHECK((r2 - r).norm() < 1e-12, "the normal at a position is not the one of its cell");
        double e = H(x, y) + gx*(p.x() - ox - (x + 0.5)*sx) + gy*(p.y() - oy - (y + 0.5)*sy), z = k.getElevation(p); if(!border || plane) CHECK_CLOSE(z, e, 1e-9, 1e-7, "elevation at a position"); if(plane && nx > 1 && ny > 1) { CHECK_CLOSE(z, a*p.x() + b*p.y() + d, 1e-9, 1e-7, "elevation of a plane"); c.label("plane"); }
        double zc = k.getElevation(Eigen::Vector2d(ox + (x + 0.5)*sx, oy + (y + 0.5)*sy)); CHECK_CLOSE(zc, H(x, y), 1e-9, 1e-7, "elevation at the cell center"); }
    CHECK_THROWS(k.getElevation(Eigen::Vector2d(ox - 0.01*sx, oy + 0.5*sy)), "elevation outside of the grid"); CHECK_THROWS(k.getNormal(Eigen::Vector2d(ox + 0.5*sx, oy + (ny + 0.01)*sy)), "normal outside of the grid"); CHECK_THROWS(k.get(ox + (nx + 0.01)*sx, oy + 0.5*sy), "elevation outside of the grid"); c.nontrivial();
    base::samples::frame::Frame f; g.convertToFrame(f); CHECK(f.image.size() == 8*h.size() && memcmp(f.image.data(), h.data(), f.image.size()) == 0, "the image of an elevation grid differs from its elevations");
}
PROP(images, 1) {
    eu::Quiet q; Environment env; size_t nx = c.range(1, 12), ny = c.range(1, 12);
    base::samples::frame::Frame f; f.init(nx, ny, 8, base::samples::frame::MODE_RGB); for(auto& b : f.image) b = c.draw(256); ImageRGB24* im = new ImageRGB24(nx, ny, 1, 1); env.setFrameNode(im, env.getRootNode()); im->copyFromFrame(f); const ImageRGB24& ci = *im;
    for(size_t y = 0; y < ny; y++) for(size_t x = 0; x < nx; x++) { const uint8_t* p = &f.image[3*(y*nx + x)]; CHECK(ci.getFromRaster(ImageRGB24::R, x, y) == p[0] && ci.getFromRaster(ImageRGB24::G, x, y) == p[1] && ci.getFromRaster(ImageRGB24::B, x, y) == p[2], fmt("color of pixel %zu %zu", x, y)); }
    base::samples::DistanceImage d; d.width = nx; d.height = ny; d.scale_x = c.real(0.001, 0.1); d.scale_y = c.real(0.001, 0.1); d.center_x = c.signedReal(1); d.center_y = c.signedReal(1); for(size_t i = 0; i < nx*ny; i++) d.data.push_back(c.chance(1, 8) ? NAN : (float)c.real(0, 30));
    DistanceGrid g(d); CHECK(g.getCellSizeX() == nx && g.getCellSizeY() == ny && g.getScaleX() == d.scale_x && g.getScaleY() == d.scale_y && g.getOffsetX() == d.center_x && g.getOffsetY() == d.center_y, "a distance grid has other parameters than its image"); g.copyFromDistanceImage(d); const DistanceGrid& cg = g;
    for(size_t y = 0; y < ny; y++) for(size_t x = 0; x < nx; x++) { float v = cg.getFromRaster(DistanceGrid::DISTANCE, x, y); CHECK(memcmp(&v, &d.data[y*nx + x], 4) == 0, fmt("distance of pixel %zu %zu", x, y)); } if(nx > 1 && ny > 1 && nx != ny) c.nontrivial();
}
