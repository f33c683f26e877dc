#ifndef VH_SAN
#define VH_SAN 0
#endif
#ifndef VH_DBG
#define VH_DBG 0
#endif
#ifndef VH_NAME
#define VH_NAME "rel"
#endif
extern bool g_san, g_dbg;
extern const char *g_variant;
bool g_san = VH_SAN, g_dbg = VH_DBG;
const char *g_variant = VH_NAME;
