#include "hn.h"
#include <exception>
#include <unistd.h>
std::map<std::string, Cmd> &registry() { static std::map<std::string, Cmd> r; return r; }

extern "C" int sqlite3_gpkg_auto_init( void *, void *, void * ) { return 0; }

int main( int, char ** )
{
  FILE *o = fdopen( dup( 1 ), "w" );      // the code under test may print to stdout
  if ( !freopen( "/dev/null", "w", stdout ) ) return 9;
  std::string line;
  while ( std::getline( std::cin, line ) )
  {
    std::istringstream is( line );
    std::string name, t;
    is >> name;
    Args a;
    while ( is >> t ) a.push_back( t );
    std::string out;
    auto it = registry().find( name );
    if ( it == registry().end() ) out = "nocmd";
    else
    {
      try { out = "ok " + it->second( a ); }
      catch ( const std::exception &e ) { out = "exc " + hx( e.what() ); }
      catch ( ... ) { out = "excother"; }
    }
    for ( char &c : out ) if ( c == '\n' ) c = ' ';
    fprintf( o, "%s\n", out.c_str() );
    fflush( o );
  }
  return 0;
}
