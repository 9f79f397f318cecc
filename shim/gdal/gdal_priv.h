// Stand-in for the part of GDAL used by envire: an in-file multi-band raster with
// geotransform, per-band no-data value and RasterIO with GDAL's documented meaning of
// the pixel/line spacing arguments (0 = packed) and of data type conversion.
#ifndef VP_SHIM_GDAL_PRIV_H
#define VP_SHIM_GDAL_PRIV_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <fstream>
#include <limits>
#include <cmath>
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
typedef enum { GDT_Unknown = 0, GDT_Byte = 1, GDT_UInt16 = 2, GDT_Int16 = 3, GDT_UInt32 = 4, GDT_Int32 = 5, GDT_Float32 = 6, GDT_Float64 = 7 } GDALDataType;
typedef enum { GA_ReadOnly = 0, GA_Update = 1 } GDALAccess;
typedef enum { GF_Read = 0, GF_Write = 1 } GDALRWFlag;
typedef enum { CE_None = 0, CE_Debug = 1, CE_Warning = 2, CE_Failure = 3, CE_Fatal = 4 } CPLErr;
typedef void* GDALDatasetH;
inline void CPLFree(void* p) { free(p); }
inline int GDALGetDataTypeSize(GDALDataType t) { switch(t) { case GDT_Byte: return 8; case GDT_UInt16: case GDT_Int16: return 16; case GDT_UInt32: case GDT_Int32: case GDT_Float32: return 32; case GDT_Float64: return 64; default: return 0; } }
namespace vpgdal {
template<class T> inline T clampTo(double v) { if(std::isnan(v)) return 0; if(v < (double)std::numeric_limits<T>::min()) return std::numeric_limits<T>::min(); if(v > (double)std::numeric_limits<T>::max()) return std::numeric_limits<T>::max(); return (T)std::floor(v + 0.5); }
inline double load(const void* p, GDALDataType t) { switch(t) {
 case GDT_Byte: { uint8_t v; memcpy(&v,p,sizeof v); return v; } case GDT_UInt16: { uint16_t v; memcpy(&v,p,sizeof v); return v; }
 case GDT_Int16: { int16_t v; memcpy(&v,p,sizeof v); return v; } case GDT_UInt32: { uint32_t v; memcpy(&v,p,sizeof v); return v; }
 case GDT_Int32: { int32_t v; memcpy(&v,p,sizeof v); return v; } case GDT_Float32: { float v; memcpy(&v,p,sizeof v); return v; }
 case GDT_Float64: { double v; memcpy(&v,p,sizeof v); return v; } default: return 0; } }
inline void store(void* p, GDALDataType t, double d) { switch(t) {
 case GDT_Byte: { uint8_t v = clampTo<uint8_t>(d); memcpy(p,&v,sizeof v); break; } case GDT_UInt16: { uint16_t v = clampTo<uint16_t>(d); memcpy(p,&v,sizeof v); break; }
 case GDT_Int16: { int16_t v = clampTo<int16_t>(d); memcpy(p,&v,sizeof v); break; } case GDT_UInt32: { uint32_t v = clampTo<uint32_t>(d); memcpy(p,&v,sizeof v); break; }
 case GDT_Int32: { int32_t v = clampTo<int32_t>(d); memcpy(p,&v,sizeof v); break; } case GDT_Float32: { float v = (float)d; memcpy(p,&v,sizeof v); break; }
 case GDT_Float64: { memcpy(p,&d,sizeof d); break; } default: break; } }
}
class GDALDataset;
class GDALRasterBand {
public:
    GDALDataType type; int nx, ny; int hasNoData; double noData; std::vector<unsigned char> buf; std::string description;
    GDALRasterBand(GDALDataType t, int x, int y) : type(t), nx(x), ny(y), hasNoData(0), noData(0), buf(size_t(x)*y*(GDALGetDataTypeSize(t)/8), 0) {}
    GDALDataType GetRasterDataType() const { return type; }
    int GetXSize() const { return nx; } int GetYSize() const { return ny; }
    CPLErr SetNoDataValue(double v) { hasNoData = 1; noData = v; return CE_None; }
    double GetNoDataValue(int* ok = NULL) const { if(ok) *ok = hasNoData; return hasNoData ? noData : -1e10; }
    void SetDescription(const char* s) { description = s; } const char* GetDescription() const { return description.c_str(); }
    CPLErr RasterIO(GDALRWFlag rw, int xo, int yo, int xs, int ys, void* data, int bxs, int bys, GDALDataType bt, int64_t pixelSpace, int64_t lineSpace) {
        if(bxs != xs || bys != ys || xo < 0 || yo < 0 || xo + xs > nx || yo + ys > ny) return CE_Failure;
        if(pixelSpace == 0) pixelSpace = GDALGetDataTypeSize(bt)/8;
        if(lineSpace == 0) lineSpace = pixelSpace*bxs;
        int es = GDALGetDataTypeSize(type)/8;
        for(int y = 0; y < ys; y++) for(int x = 0; x < xs; x++) {
            unsigned char* p = &buf[(size_t(yo+y)*nx + (xo+x))*es]; char* q = (char*)data + y*lineSpace + x*pixelSpace;
            if(rw == GF_Write) { if(bt == type) memcpy(p, q, es); else vpgdal::store(p, type, vpgdal::load(q, bt)); }
            else { if(bt == type) memcpy(q, p, es); else vpgdal::store(q, bt, vpgdal::load(p, type)); }
        }
        return CE_None;
    }
};
class GDALDataset {
public:
    std::string path; bool write; int nx, ny; bool hasGT; double gt[6]; std::vector<GDALRasterBand*> bands; std::string proj;
    GDALDataset() : write(false), nx(0), ny(0), hasGT(false) { double d[6] = {0,1,0,0,0,1}; memcpy(gt, d, sizeof gt); }
    ~GDALDataset() { for(size_t i = 0; i < bands.size(); i++) delete bands[i]; }
    int GetRasterXSize() const { return nx; } int GetRasterYSize() const { return ny; } int GetRasterCount() const { return (int)bands.size(); }
    GDALRasterBand* GetRasterBand(int i) { return (i >= 1 && i <= (int)bands.size()) ? bands[i-1] : NULL; }
    CPLErr GetGeoTransform(double* g) { memcpy(g, gt, sizeof gt); return hasGT ? CE_None : CE_Failure; }
    CPLErr SetGeoTransform(double* g) { memcpy(gt, g, sizeof gt); hasGT = true; return CE_None; }
    CPLErr SetProjection(const char* p) { proj = p ? p : ""; return CE_None; }
    void FlushCache() { if(write) save(); }
    void save() {
        std::ofstream os(path.c_str(), std::ios::binary); int n = bands.size(), h = hasGT; os.write("VPGDAL1\n", 8);
        os.write((char*)&nx, 4); os.write((char*)&ny, 4); os.write((char*)&n, 4); os.write((char*)&h, 4); os.write((char*)gt, sizeof gt);
        for(int i = 0; i < n; i++) { GDALRasterBand& b = *bands[i]; int t = b.type; os.write((char*)&t, 4); os.write((char*)&b.hasNoData, 4); os.write((char*)&b.noData, 8); os.write((char*)b.buf.data(), b.buf.size()); } }
    bool load() {
        std::ifstream is(path.c_str(), std::ios::binary); char magic[8]; if(!is.read(magic, 8) || memcmp(magic, "VPGDAL1\n", 8)) return false; int n, h;
        is.read((char*)&nx, 4); is.read((char*)&ny, 4); is.read((char*)&n, 4); is.read((char*)&h, 4); is.read((char*)gt, sizeof gt); hasGT = h; if(!is) return false;
        for(int i = 0; i < n; i++) { int t; is.read((char*)&t, 4); GDALRasterBand* b = new GDALRasterBand((GDALDataType)t, nx, ny); is.read((char*)&b->hasNoData, 4); is.read((char*)&b->noData, 8); is.read((char*)b->buf.data(), b->buf.size()); bands.push_back(b); if(!is) return false; }
        return true; }
};
class GDALDriver { public: GDALDataset* Create(const char* p, int x, int y, int n, GDALDataType t, char**) {
    std::ofstream os(p, std::ios::binary); if(!os) return NULL; GDALDataset* d = new GDALDataset; d->path = p; d->write = true; d->nx = x; d->ny = y; for(int i = 0; i < n; i++) d->bands.push_back(new GDALRasterBand(t, x, y)); return d; } };
class GDALDriverManager { public: GDALDriver drv; GDALDriver* GetDriverByName(const char* n) { return std::string(n) == "GTiff" ? &drv : NULL; } };
inline GDALDriverManager* GetGDALDriverManager() { static GDALDriverManager m; return &m; }
inline void GDALAllRegister() {}
inline GDALDatasetH GDALOpen(const char* p, GDALAccess) { GDALDataset* d = new GDALDataset; d->path = p; if(!d->load()) { delete d; return NULL; } return d; }
inline void GDALClose(GDALDatasetH h) { GDALDataset* d = (GDALDataset*)h; if(d->write) d->save(); delete d; }
#endif
