#ifndef VP_SHIM_OGR_H
#define VP_SHIM_OGR_H
#include <cstring>
#include <cstdlib>
class OGRSpatialReference { public: int SetUTM(int, int = 1) { return 0; } int SetWellKnownGeogCS(const char*) { return 0; } int exportToWkt(char** s) const { *s = strdup("WKT"); return 0; } };
#endif
