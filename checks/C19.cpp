//@ sources: src/core/*.cpp src/maps/GridBase.cpp src/maps/Grids.cpp src/maps/ElevationGrid.cpp src/maps/TraversabilityGrid.cpp src/tools/BresenhamLine.cpp
//@ libs: -lyaml -lboost_thread -lboost_filesystem -lboost_system -lboost_serialization -lpthread
//@ quick: 12000
//@ thorough: 300000
// Persistence of grids: scenes, binary events and raster files.
#include "envutil.hpp"
#include <envire/maps/Grids.hpp>
#include <envire/maps/ElevationGrid.hpp>
#include <boost/filesystem.hpp>
#include <memory>
using namespace pbt; using namespace envire;
namespace pbt { const char* RULE = "Environments with one to four grids of 13 classes and all cell types, each with 0 to 5 bands of arbitrary content (extreme values, infinities and NaN bit patterns included), no-data values, arbitrary scales and offsets and frames, are saved to a scratch directory and loaded, sent as binary events into an empty environment or as an update of an older copy. Raster files are written through a stand-in for GDAL that implements its documented raster access (a real file with several bands, a geotransform and per-band no-data values) and read back with both axis directions; positions in the world must have the same values. Files of another size, type, band count or a rotated raster must be refused. Non-trivial: at least one grid with a band of more than one cell."; }
namespace {
struct Any { std::string cls; std::map<std::string, std::vector<unsigned char>> bands; std::map<std::string, std::vector<unsigned char>> nd; size_t nx, ny; double sx, sy, ox, oy; };
template<class T> T value(Ctx& c) { if(std::numeric_limits<T>::is_integer) { switch(c.draw(4)) { case 0: return (T)c.draw(10); case 1: return std::numeric_limits<T>::min(); case 2: return std::numeric_limits<T>::max(); default: return (T)c.draw(0xffffffff); } } switch(c.draw(5)) { case 0: return (T)c.draw(10); case 1: return (T)-c.unit(); case 2: return std::numeric_limits<T>::lowest(); case 3: return (T)c.pick(std::vector<double>{1e-30, -1e-30, 1e30, -0.0, INFINITY, -INFINITY, NAN}); default: return (T)c.signedReal(1000); } }
template<class T> std::vector<unsigned char> bytes(const T* p, size_t n) { return std::vector<unsigned char>((const unsigned char*)p, (const unsigned char*)(p + n)); }
const std::vector<std::string> extra = {"a", "height map", "c.d", "x-1"};
template<class T> bool fillT(Ctx& c, GridBase* b, Any& m) { Grid<T>* g = dynamic_cast<Grid<T>*>(b); if(!g) return false; std::vector<std::string> names = g->getBands(); names.insert(names.end(), extra.begin(), extra.end());
    for(auto& n : names) { if(!c.chance(2, 5) && !(m.bands.empty() && n == extra.back())) continue; auto& a = g->getGridData(n); bool simple = c.boolean(); for(size_t i = 0; i < a.num_elements(); i++) a.data()[i] = simple ? (T)(i + 1) : value<T>(c); m.bands[n] = bytes(a.data(), a.num_elements()); m.nd.erase(n); if(g->getNoData(n).second || c.chance(1, 3)) { T v = value<T>(c); if(v != v) v = 0; g->setNoData(n, v); m.nd[n] = bytes(&v, 1); } } return true; }
bool fill(Ctx& c, GridBase* b, Any& m) { return fillT<double>(c, b, m) || fillT<float>(c, b, m) || fillT<uint8_t>(c, b, m) || fillT<int16_t>(c, b, m) || fillT<uint16_t>(c, b, m) || fillT<int32_t>(c, b, m) || fillT<uint32_t>(c, b, m); }
template<class T> bool cmpT(const GridBase* b, const Any& m, const std::string& w) { const Grid<T>* g = dynamic_cast<const Grid<T>*>(b); if(!g) return false; std::vector<std::string> names = g->getBands(); names.insert(names.end(), extra.begin(), extra.end());
    for(auto& n : names) { auto it = m.bands.find(n); CHECK_EQ(g->hasBand(n), it != m.bands.end(), w + ": band " + n); if(it == m.bands.end()) continue; auto& a = g->getGridData(n); CHECK(a.shape()[0] == m.ny && a.shape()[1] == m.nx, w + ": size of band " + n); auto by = bytes(a.data(), a.num_elements()); if(by != it->second) { size_t i = 0; while(by[i] == it->second[i]) i++; FAIL(w + fmt(": band %s differs at cell %zu %zu", n.c_str(), i/sizeof(T)%m.nx, i/sizeof(T)/m.nx)); } auto r = g->getNoData(n); auto nd = m.nd.find(n); CHECK_EQ(r.second, nd != m.nd.end(), w + ": presence of a no-data value of band " + n); if(r.second) { T e; memcpy(&e, nd->second.data(), sizeof(T)); CHECK(r.first == e, w + ": no-data value of band " + n + " is " + str(+r.first) + " instead of " + str(+e)); } } return true; }
void cmp(const GridBase* b, const Any& m, const std::string& w) { CHECK(b, w + " is missing"); CHECK_EQ(b->getClassName(), m.cls, w + ": class"); CHECK_EQ(b->getCellSizeX(), m.nx, w + ": cells"); CHECK_EQ(b->getCellSizeY(), m.ny, w + ": cells"); CHECK_EQ(b->getScaleX(), m.sx, w + ": scale"); CHECK_EQ(b->getScaleY(), m.sy, w + ": scale"); CHECK_EQ(b->getOffsetX(), m.ox, w + ": offset"); CHECK_EQ(b->getOffsetY(), m.oy, w + ": offset");
    CHECK(cmpT<double>(b, m, w) || cmpT<float>(b, m, w) || cmpT<uint8_t>(b, m, w) || cmpT<int16_t>(b, m, w) || cmpT<uint16_t>(b, m, w) || cmpT<int32_t>(b, m, w) || cmpT<uint32_t>(b, m, w), w + ": unknown cell type"); }
const char* names[] = {"envire::Grid_d", "envire::Grid_f", "envire::Grid_h", "envire::Grid_s", "envire::Grid_t", "envire::Grid_i", "envire::Grid_j", "envire::ElevationGrid", "envire::OccupancyGrid", "envire::ConfidenceGrid", "envire::DistanceGrid", "envire::ImageRGB24"};
GridBase* make(Ctx& c, Any& m) { m.cls = names[c.draw(12)]; m.nx = c.range(1, 7); m.ny = c.range(1, 7); m.sx = c.boolean() ? 1 : c.real(0.01, 3); m.sy = c.boolean() ? m.sx : c.real(0.01, 3); m.ox = c.signedReal(20); m.oy = c.signedReal(20);
    GridBase* g; if(m.cls == "envire::Grid_d") g = new Grid<double>(m.nx, m.ny, m.sx, m.sy, m.ox, m.oy); else { GridBase::Ptr p = GridBase::create(m.cls, m.nx, m.ny, m.sx, m.sy, m.ox, m.oy); g = p.get(); intrusive_ptr_add_ref(g); p.reset(); }
    return g; }
}
PROP(scene, 3) {
    eu::Quiet q; std::string dir = scratchDir() + "/scene"; boost::filesystem::remove_all(dir); std::vector<Any> ms; std::vector<Eigen::Affine3d> ts; std::vector<bool> lone; { Environment env; size_t n = c.range(1, 4);
        for(size_t i = 0; i < n; i++) { Any m; GridBase* g = make(c, m); fill(c, g, m); c.note(fmt("%s %zux%zu, %zu bands", m.cls.c_str(), m.nx, m.ny, m.bands.size())); c.label(m.cls); FrameNode* f = new FrameNode(eu::randomPose(c)); g->setUniqueId(fmt("/g%zu", i)); int tree = c.draw(6); if(tree == 5) { c.note("without frame"); c.label("without frame"); delete f; f = 0; env.attachItem((EnvironmentItem*)g); } else { if(tree == 4) { c.note("outside of the tree of the root"); c.label("other tree"); env.attachItem(f); } else env.addChild(env.getRootNode(), f); env.setFrameNode(g, f); } if(m.bands.size() && m.nx*m.ny > 1) c.nontrivial(); ms.push_back(m); ts.push_back(f ? f->getTransform() : Eigen::Affine3d::Identity()); lone.push_back(!f); }
        env.serialize(dir); for(size_t i = 0; i < n; i++) cmp(env.getItem<GridBase>(fmt("/g%zu", i)).get(), ms[i], "after saving, the grid"); }
    std::unique_ptr<Environment> l(Environment::unserialize(dir)); for(size_t i = 0; i < ms.size(); i++) { GridBase* g = l->getItem<GridBase>(fmt("/g%zu", i)).get(); cmp(g, ms[i], "the loaded grid"); CHECK_EQ(!g->getFrameNode(), lone[i], "the loaded grid has no frame"); if(!lone[i]) CHECK((g->getFrameNode()->getTransform().matrix() - ts[i].matrix()).norm() < 1e-9, "frame of the loaded grid"); }
    if(c.chance(1, 3)) { c.note("save and load again"); l->serialize(dir + "2"); std::unique_ptr<Environment> k(Environment::unserialize(dir + "2")); for(size_t i = 0; i < ms.size(); i++) cmp(k->getItem<GridBase>(fmt("/g%zu", i)).get(), ms[i], "the grid loaded from the second scene"); boost::filesystem::remove_all(dir + "2"); }
    boost::filesystem::remove_all(dir);
}
PROP(events, 2) {
    eu::Quiet q; Environment a, b; Any m; GridBase* g = make(c, m); fill(c, g, m); c.label(m.cls); g->setUniqueId("/g"); a.setFrameNode(g, a.getRootNode()); if(m.bands.size() && m.nx*m.ny > 1) c.nontrivial(); std::vector<BinaryEvent> ev; a.pullEvents(ev, true); b.applyEvents(ev); c.note(fmt("%s %zux%zu, %zu bands", m.cls.c_str(), m.nx, m.ny, m.bands.size())); cmp(b.getItem<GridBase>("/g").get(), m, "the transferred grid"); size_t n = c.draw(3);
    for(size_t i = 0; i < n; i++) { c.note("change and transfer"); fill(c, g, m); g->itemModified(); ev.clear(); a.pullEvents(ev); b.applyEvents(ev); cmp(b.getItem<GridBase>("/g").get(), m, "the updated grid"); }
}
namespace {
template<class T> void raster(Ctx& c, const char* tn, GDALDataType gt, const std::string& path) {
    int nx = c.range(1, 7), ny = c.range(1, 7), nb = c.range(1, 3); bool fx = c.boolean(), fy = c.boolean(); double sx = c.real(0.05, 3), sy = c.boolean() ? sx : c.real(0.05, 3), ox = c.signedReal(50), oy = c.signedReal(50); c.note(fmt("raster of %s %dx%d, %d bands, pixel %g %g, origin %g %g", tn, nx, ny, nb, fx ? -sx : sx, fy ? -sy : sy, ox, oy)); c.label(tn); std::vector<std::vector<T>> data(nb); std::vector<int> nd(nb); std::vector<T> ndv(nb);
    GDALDataset* d = GetGDALDriverManager()->GetDriverByName("GTiff")->Create(path.c_str(), nx, ny, nb, gt, 0); double t[6] = {ox, fx ? -sx : sx, 0, oy, 0, fy ? -sy : sy}; bool rot = c.chance(1, 8); if(rot) { t[2] = 0.5*sx; t[4] = -0.5*sy; } d->SetGeoTransform(t);
    for(int b = 0; b < nb; b++) { for(int i = 0; i < nx*ny; i++) data[b].push_back(c.boolean() ? (T)(i + b) : value<T>(c)); d->GetRasterBand(b + 1)->RasterIO(GF_Write, 0, 0, nx, ny, data[b].data(), nx, ny, gt, 0, 0); if((nd[b] = c.boolean())) { T v = value<T>(c); if(v != v) v = 1; ndv[b] = v; d->GetRasterBand(b + 1)->SetNoDataValue(v); } } GDALClose(d);
    int k = c.range(1, nb); if(nx*ny > 1) c.nontrivial();
    if(rot) { CHECK_THROWS(GridBase::readGridFromGdal(path, "v", k), "a rotated raster was read"); c.label("rotated"); return; }
    std::pair<GridBase::Ptr, Transform> r = GridBase::readGridFromGdal(path, "v", k); Grid<T>* g = dynamic_cast<Grid<T>*>(r.first.get()); CHECK(g, "the grid has another cell type than the raster"); CHECK(g->getCellSizeX() == (size_t)nx && g->getCellSizeY() == (size_t)ny, "size of the grid"); CHECK_CLOSE(g->getScaleX(), sx, 1e-12, 0, "scale of the grid"); CHECK_CLOSE(g->getScaleY(), sy, 1e-12, 0, "scale of the grid"); Eigen::Affine3d inv = Eigen::Affine3d(r.second).inverse(); const Grid<T>& cg = *g;
    for(int y = 0; y < ny; y++) for(int x = 0; x < nx; x++) { Eigen::Vector3d p = inv*Eigen::Vector3d(t[0] + (x + 0.5)*t[1], t[3] + (y + 0.5)*t[5], 0); T v; try { v = cg.get("v", p.x(), p.y()); } catch(const std::runtime_error&) { FAIL(fmt("the center of pixel %d %d is outside of the grid", x, y)); } T e = data[k - 1][y*nx + x]; CHECK(memcmp(&v, &e, sizeof(T)) == 0, fmt("the value at the center of pixel %d %d is ", x, y) + str(+v) + ", expected " + str(+e)); }
    auto n = g->getNoData("v"); CHECK_EQ(n.second, nd[k - 1] != 0, "presence of a no-data value"); if(n.second) CHECK(n.first == ndv[k - 1], "no-data value " + str(+n.first) + ", expected " + str(+ndv[k - 1]));
    // several bands at once, into a grid that knows its scale: pixels are taken in file order
    { Grid<T> h(nx, ny, sx, sy); std::vector<std::string> keys; for(int b = k; b <= nb; b++) keys.push_back("b" + str(b)); h.readGridData(keys, path, k); for(int b = k; b <= nb; b++) CHECK(memcmp(h.getGridData("b" + str(b)).data(), data[b - 1].data(), sizeof(T)*nx*ny) == 0, "band " + str(b)); keys.push_back("more"); CHECK_THROWS(h.readGridData(keys, path, k), "more bands than the file has were read"); }
    CHECK_THROWS(GridBase::readGridFromGdal(path, "v", nb + 1), "a band which is not in the file was read"); { Grid<T> h(nx + 1, ny, sx, sy); CHECK_THROWS(h.readGridData("v", path), "a raster of another width was read"); } { Grid<T> h(nx, ny + 1, sx, sy); CHECK_THROWS(h.readGridData("v", path), "a raster of another height was read"); }
    if(sizeof(T) != 8) { Grid<double> h(nx, ny, sx, sy); CHECK_THROWS(h.readGridData("v", path), "a raster of another type was read"); } else { Grid<float> h(nx, ny, sx, sy); CHECK_THROWS(h.readGridData("v", path), "a raster of another type was read"); }
}
// a grid is written and read again
template<class T> void write(Ctx& c, const char* tn, const std::string& path) {
    size_t nx = c.range(1, 7), ny = c.range(1, 7); double sx = c.real(0.05, 3), sy = c.boolean() ? sx : c.real(0.05, 3), ox = c.signedReal(50), oy = c.signedReal(50); c.label(tn); Environment env; Grid<T>* g = new Grid<T>(nx, ny, sx, sy, ox, oy); bool at = c.boolean(); Eigen::Vector3d tr(0, 0, 0); if(at) { tr = Eigen::Vector3d(c.signedReal(10), c.signedReal(10), c.signedReal(2)); FrameNode* f = new FrameNode(Eigen::Affine3d(Eigen::Translation3d(tr))); env.addChild(env.getRootNode(), f); env.setFrameNode(g, f); } GridBase::Ptr keep(g);
    c.note(fmt("grid of %s %zux%zu scale %g %g offset %g %g%s", tn, nx, ny, sx, sy, ox, oy, at ? " in a frame" : "")); size_t nb = c.range(1, 3); std::vector<std::string> keys; for(size_t b = 0; b < nb; b++) { keys.push_back("k" + str(b)); auto& a = g->getGridData(keys[b]); for(size_t i = 0; i < nx*ny; i++) a.data()[i] = value<T>(c); if(c.boolean()) { T v = value<T>(c); if(v != v) v = 1; g->setNoData(keys[b], v); } }
    bool one = c.boolean(); size_t k = c.draw(nb); if(one) g->writeGridData(keys[k], path); else g->writeGridData(keys, path); std::pair<GridBase::Ptr, Transform> r = GridBase::readGridFromGdal(path, "v", one ? 1 : k + 1); Grid<T>* h = dynamic_cast<Grid<T>*>(r.first.get()); CHECK(h, "the grid read has another cell type"); const Grid<T>&ch = *h, &cg = *g; if(nx*ny > 1) c.nontrivial();
    CHECK(h->getCellSizeX() == nx && h->getCellSizeY() == ny, "size"); Eigen::Affine3d inv = Eigen::Affine3d(r.second).inverse(); for(size_t y = 0; y < ny; y++) for(size_t x = 0; x < nx; x++) { Eigen::Vector3d p = inv*(g->fromGrid(x, y) + tr); T v = ch.get("v", p.x(), p.y()), e = cg.getFromRaster(keys[k], x, y); CHECK(memcmp(&v, &e, sizeof(T)) == 0, fmt("the value at the center of cell %zu %zu is ", x, y) + str(+v) + ", expected " + str(+e)); }
    auto n = h->getNoData("v"), m = g->getNoData(keys[k]); CHECK_EQ(n.second, m.second, "presence of a no-data value"); if(n.second) CHECK(n.first == m.first, "no-data value");
    std::stringstream ss; g->writeGridData(keys[k], ss); Grid<T> s(nx, ny, sx, sy); s.readGridData("s", ss); CHECK(memcmp(s.getGridData("s").data(), g->getGridData(keys[k]).data(), sizeof(T)*nx*ny) == 0, "a band written to a stream is read differently");
}
}
PROP(rasters, 3) { eu::Quiet q; std::string p = scratchDir() + "/r.tiff"; bool w = c.boolean(); switch(c.draw(7)) { case 0: w ? write<double>(c, "double", p) : raster<double>(c, "double", GDT_Float64, p); break; case 1: w ? write<float>(c, "float", p) : raster<float>(c, "float", GDT_Float32, p); break; case 2: w ? write<uint8_t>(c, "uint8", p) : raster<uint8_t>(c, "uint8", GDT_Byte, p); break; case 3: w ? write<int16_t>(c, "int16", p) : raster<int16_t>(c, "int16", GDT_Int16, p); break; case 4: w ? write<uint16_t>(c, "uint16", p) : raster<uint16_t>(c, "uint16", GDT_UInt16, p); break; case 5: w ? write<int32_t>(c, "int32", p) : raster<int32_t>(c, "int32", GDT_Int32, p); break; default: w ? write<uint32_t>(c, "uint32", p) : raster<uint32_t>(c, "uint32", GDT_UInt32, p); } }
