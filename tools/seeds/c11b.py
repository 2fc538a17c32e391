PROPERTY = 'C11'
NEEDS = 'our changeset is empty while the output file exists from an earlier run, or the other side has no changes: the copy is taken from the wrong changeset'
BREAKS = 'rebasing when we have no changes gives their changeset instead of an empty one'
EDITS = [('geodiffrebase.cpp', '    Logger::instance().info( " -- no rebase needed! (empty base2modified) --\\n" );\n    filecopy( changeset_THEIRS_MODIFIED, changeset_BASE_MODIFIED );', '    Logger::instance().info( " -- no rebase needed! (empty base2modified) --\\n" );\n    filecopy( changeset_THEIRS_MODIFIED, changeset_BASE_THEIRS );')]
DEMO = r'''
#include "demo_common.h"
#include "geodiffrebase.hpp"
typedef std::vector<ChangesetEntry> Es;
static void mk( const std::string &f, const std::string &t, std::vector<bool> pk, const Es &es )
{
  ChangesetWriter w;
  CHECK( w.open( f ) );
  ChangesetTable tb = tab( t, pk );
  w.beginTable( tb );
  for ( const ChangesetEntry &e : es ) w.writeEntry( e );
}
static Es rd( const std::string &f )
{
  Es out;
  ChangesetReader r;
  CHECK( r.open( f ) );
  ChangesetEntry e;
  while ( r.nextEntry( e ) ) out.push_back( e );
  return out;
}

int main()
{
  mk( "theirs", "t", { true, false }, { del( { vi( 1 ), vt( "a" ) } ) } );
  put( "ours", "" );
  std::vector<ConflictFeature> cs;
  CHECK( rebase( "theirs", "out", "ours", cs ) == GEODIFF_SUCCESS );
  CHECK( fileexists( "out" ) && get( "out" ).empty() );
  return 0;
}
'''
