#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <sqlite3.h>
#include "geodiff.h"
#include "changeset.h"
#include "changesetreader.h"
#include "changesetwriter.h"
#include "changesetutils.h"
#include "geodiffutils.hpp"
#ifndef NO_GPKG_STUB
extern "C" int sqlite3_gpkg_auto_init( sqlite3 *, const char **, const void * ) { return 0; }
#endif
#define CHECK( c ) do { if ( !( c ) ) { fprintf( stderr, "FAILED line %d: %s\n", __LINE__, #c ); exit( 1 ); } } while ( 0 )
inline void put( const std::string &f, const std::string &d ) { std::ofstream o( f, std::ios::binary ); o << d; }
inline std::string get( const std::string &f ) { std::ifstream i( f, std::ios::binary ); std::stringstream s; s << i.rdbuf(); return s.str(); }
inline Value vi( int64_t n ) { Value v; v.setInt( n ); return v; }
inline Value vd( double n ) { Value v; v.setDouble( n ); return v; }
inline Value vt( const std::string &s ) { Value v; v.setString( Value::TypeText, s.data(), ( int ) s.size() ); return v; }
inline Value vb( const std::string &s ) { Value v; v.setString( Value::TypeBlob, s.data(), ( int ) s.size() ); return v; }
inline Value vn() { Value v; v.setNull(); return v; }
inline Value vu() { return Value(); }
inline ChangesetTable tab( const std::string &n, std::vector<bool> pk ) { ChangesetTable t; t.name = n; t.primaryKeys = pk; return t; }
inline ChangesetEntry ins( std::vector<Value> n ) { ChangesetEntry e; e.op = ChangesetEntry::OpInsert; e.newValues = n; return e; }
inline ChangesetEntry del( std::vector<Value> o ) { ChangesetEntry e; e.op = ChangesetEntry::OpDelete; e.oldValues = o; return e; }
inline ChangesetEntry upd( std::vector<Value> o, std::vector<Value> n ) { ChangesetEntry e; e.op = ChangesetEntry::OpUpdate; e.oldValues = o; e.newValues = n; return e; }
inline void exec( const std::string &db, const std::string &sql )
{
  sqlite3 *d = nullptr;
  CHECK( sqlite3_open( db.c_str(), &d ) == SQLITE_OK );
  char *m = nullptr;
  if ( sqlite3_exec( d, sql.c_str(), nullptr, nullptr, &m ) != SQLITE_OK ) { fprintf( stderr, "sql: %s\n", m ); exit( 3 ); }
  sqlite3_close( d );
}
//! all rows of a query as one text
inline std::string query( const std::string &db, const std::string &sql )
{
  sqlite3 *d = nullptr;
  CHECK( sqlite3_open( db.c_str(), &d ) == SQLITE_OK );
  std::string r;
  char *m = nullptr;
  if ( sqlite3_exec( d, sql.c_str(), []( void *p, int n, char **v, char ** ) { std::string &r = *( std::string * )p; for ( int i = 0; i < n; ++i ) { r += v[i] ? v[i] : "NULL"; r += i + 1 < n ? "," : ";"; } return 0; }, &r, &m ) != SQLITE_OK ) { fprintf( stderr, "sql: %s\n", m ); exit( 3 ); }
  sqlite3_close( d );
  return r;
}
