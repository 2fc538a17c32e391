#ifndef GPKG_STUB_H
#define GPKG_STUB_H
#include "sqlite3.h"
#ifdef __cplusplus
extern "C" {
#endif
int sqlite3_gpkg_auto_init( sqlite3 *db, const char **pzErrMsg, const void *pThunk );
#ifdef __cplusplus
}
#endif
#endif
