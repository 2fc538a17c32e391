#include "hn.h"
#include "drivers/postgresutils.h"
static Reg g1( "pgident", []( const Args &a ) -> std::string { return hx( quotedIdentifier( ux( a[0] ) ) ); } );
static Reg g2( "pgstring", []( const Args &a ) -> std::string { return hx( quotedString( ux( a[0] ) ) ); } );
