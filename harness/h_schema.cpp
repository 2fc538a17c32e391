#include "hn.h"
#include "tableschema.h"
#include "changeset.h"
#include "changesetutils.h"
// conv <src> <dst> table crs(4) ncols (name type pk nn ai geom gtype srs z m)*
static TableSchema parse( const Args &a, size_t i )
{
  TableSchema t;
  t.name = ux( a[i++] );
  t.crs.srsId = std::stoi( a[i++] ); t.crs.authName = ux( a[i++] ); t.crs.authCode = std::stoi( a[i++] ); t.crs.wkt = ux( a[i++] );
  int n = std::stoi( a[i++] );
  while ( n-- > 0 )
  {
    TableColumnInfo c;
    c.name = ux( a[i++] ); c.type = ux( a[i++] );
    c.isPrimaryKey = a[i++] == "1"; c.isNotNull = a[i++] == "1"; c.isAutoIncrement = a[i++] == "1"; c.isGeometry = a[i++] == "1";
    c.geomType = ux( a[i++] ); c.geomSrsId = std::stoi( a[i++] ); c.geomHasZ = a[i++] == "1"; c.geomHasM = a[i++] == "1";
    t.columns.push_back( c );
  }
  return t;
}
static std::string show( const TableSchema &t )
{
  std::string r = hx( t.name ) + " " + std::to_string( t.crs.srsId ) + " " + hx( t.crs.authName ) + " " + std::to_string( t.crs.authCode ) + " " + hx( t.crs.wkt ) + " " + std::to_string( t.columns.size() );
  for ( const TableColumnInfo &c : t.columns )
    r += " " + hx( c.name ) + " " + hx( c.type ) + ( c.isPrimaryKey ? " 1" : " 0" ) + ( c.isNotNull ? " 1" : " 0" ) + ( c.isAutoIncrement ? " 1" : " 0" ) + ( c.isGeometry ? " 1" : " 0" )
         + " " + hx( c.geomType ) + " " + std::to_string( c.geomSrsId ) + ( c.geomHasZ ? " 1" : " 0" ) + ( c.geomHasM ? " 1" : " 0" );
  return r;
}
static Reg s1( "conv", []( const Args &a ) { TableSchema t = parse( a, 2 ); tableSchemaConvert( ux( a[0] ), ux( a[1] ), t ); return show( t ); } );
static Reg s2( "cteq", []( const Args &a ) -> std::string      // two schemas separated by |
{
  size_t k = 0;
  while ( a[k] != "|" ) ++k;
  TableSchema x = parse( a, 0 ), y = parse( a, k + 1 );
  bool e = x == y, n = x != y, c = x.columns == y.columns;
  return std::string( e ? "1" : "0" ) + ( n ? "1" : "0" ) + ( c ? "1" : "0" ) + ( x.crs == y.crs ? "1" : "0" ) + ( x.crs != y.crs ? "1" : "0" );
} );
static Reg s3( "schtab", []( const Args &a ) -> std::string
{
  TableSchema t = parse( a, 1 );
  ChangesetTable c = schemaToChangesetTable( ux( a[0] ), t );
  std::string r = hx( c.name ) + " p";
  for ( bool b : c.primaryKeys ) r += b ? '1' : '0';
  return r + ( t.hasPrimaryKey() ? " 1" : " 0" ) + " " + std::to_string( ( long long ) t.geometryColumn() );
} );
static Reg s4( "colfromname", []( const Args &a ) { TableSchema t = parse( a, 1 ); return std::to_string( ( long long ) t.columnFromName( ux( a[0] ) ) ); } );
