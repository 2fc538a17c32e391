#pragma once
#include "hn.h"
#include "changeset.h"
#include <limits>
// u | n | i<dec> | d<16 hex digits> | t<hex> | b<hex>
inline Value parseVal( const std::string &s )
{
  Value v;
  if ( s[0] == 'n' ) v.setNull();
  else if ( s[0] == 'i' ) v.setInt( ( int64_t ) std::stoll( s.substr( 1 ) ) );
  else if ( s[0] == 'd' ) { uint64_t b = std::stoull( s.substr( 1 ), nullptr, 16 ); double d; memcpy( &d, &b, 8 ); v.setDouble( d ); }
  else if ( s[0] == 't' || s[0] == 'b' ) { std::string x = unhex( s.substr( 1 ) ); v.setString( s[0] == 't' ? Value::TypeText : Value::TypeBlob, x.data(), ( int ) x.size() ); }
  return v;
}
inline std::string showVal( const Value &v )
{
  switch ( v.type() )
  {
    case Value::TypeUndefined: return "u";
    case Value::TypeNull: return "n";
    case Value::TypeInt: return "i" + std::to_string( ( long long ) v.getInt() );
    case Value::TypeDouble: { double d = v.getDouble(); uint64_t b; memcpy( &b, &d, 8 ); char x[40]; snprintf( x, sizeof x, "d%016llx", ( unsigned long long ) b ); return x; }
    case Value::TypeText: return "t" + hex( v.getString() );
    case Value::TypeBlob: return "b" + hex( v.getString() );
  }
  return "?";
}
inline ChangesetEntry parseEntry( const Args &a, size_t &i )
{
  ChangesetEntry e;
  e.op = ( ChangesetEntry::OperationType ) std::stoi( a[i++] );
  int n = std::stoi( a[i++] );
  while ( n-- > 0 ) e.oldValues.push_back( parseVal( a[i++] ) );
  n = std::stoi( a[i++] );
  while ( n-- > 0 ) e.newValues.push_back( parseVal( a[i++] ) );
  return e;
}
inline std::string showEntry( const ChangesetEntry &e )
{
  std::string r = "E " + std::to_string( ( int ) e.op );
  std::string pk;
  for ( bool b : e.table->primaryKeys ) pk += b ? '1' : '0';
  r += " " + hx( e.table->name ) + " p" + pk;
  if ( e.op != ChangesetEntry::OpInsert ) { r += " " + std::to_string( e.oldValues.size() ); for ( const Value &v : e.oldValues ) r += " " + showVal( v ); }
  else r += " -";
  if ( e.op != ChangesetEntry::OpDelete ) { r += " " + std::to_string( e.newValues.size() ); for ( const Value &v : e.newValues ) r += " " + showVal( v ); }
  else r += " -";
  return r;
}
