// stand-in for libpq: records every statement, answers from a script
#include "hn.h"
#include <libpq-fe.h>
#include <deque>
struct MockRes { ExecStatusType st; std::vector<std::vector<std::pair<bool, std::string>>> rows; std::string affected; std::string err; };
std::vector<std::string> pqLog;
int pqOpenConns = 0, pqOpenResults = 0;
bool pqConnOk = true;
// rules: the first rule whose text occurs in the statement (and whose skip count is used up) answers
struct Rule { std::vector<std::string> pats; int skip; MockRes res; int left; bool dropConn, nullRes; };
std::vector<Rule> pqRules;

extern "C" {
PGconn *PQconnectdb( const char * ) { ++pqOpenConns; return ( PGconn * ) new int( 1 ); }
void PQfinish( PGconn *c ) { --pqOpenConns; delete ( int * ) c; }
ConnStatusType PQstatus( const PGconn * ) { return pqConnOk ? CONNECTION_OK : CONNECTION_BAD; }
char *PQerrorMessage( const PGconn * ) { return ( char * ) "mock connection error"; }
PGresult *PQexec( PGconn *, const char *q )
{
  pqLog.push_back( q );
  ++pqOpenResults;
  MockRes *r = new MockRes;
  r->st = PGRES_COMMAND_OK;
  r->affected = "1";
  std::string s( q );
  for ( Rule &u : pqRules )
  {
    bool all = true;
    for ( const std::string &p : u.pats ) if ( s.find( p ) == std::string::npos ) all = false;
    if ( !all ) continue;
    if ( u.skip > 0 ) { --u.skip; continue; }
    if ( u.left == 0 ) continue;
    if ( u.left > 0 ) --u.left;
    *r = u.res;
    if ( u.dropConn ) pqConnOk = false;
    if ( u.nullRes ) { delete r; --pqOpenResults; return nullptr; }
    break;
  }
  if ( r->st == PGRES_COMMAND_OK && ( s.compare( 0, 6, "SELECT" ) == 0 || s.compare( 0, 6, "select" ) == 0 ) ) r->st = PGRES_TUPLES_OK;
  return ( PGresult * ) r;
}
void PQclear( PGresult *r ) { if ( r ) { --pqOpenResults; delete ( MockRes * ) r; } }
ExecStatusType PQresultStatus( const PGresult *r ) { return r ? ( ( MockRes * ) r )->st : PGRES_FATAL_ERROR; }
char *PQresultErrorMessage( const PGresult *r ) { return r ? ( char * )( ( MockRes * ) r )->err.c_str() : ( char * ) ""; }
char *PQresultErrorField( const PGresult *r, int ) { return r ? ( char * )( ( MockRes * ) r )->err.c_str() : ( char * ) ""; }
int PQntuples( const PGresult *r ) { return r ? ( int )( ( MockRes * ) r )->rows.size() : 0; }
int PQnfields( const PGresult *r ) { return r && ( ( MockRes * ) r )->rows.size() ? ( int )( ( MockRes * ) r )->rows[0].size() : 0; }
char *PQcmdTuples( PGresult *r ) { return r ? ( char * )( ( MockRes * ) r )->affected.c_str() : ( char * ) ""; }
char *PQgetvalue( const PGresult *r, int i, int j ) { return ( char * )( ( MockRes * ) r )->rows.at( i ).at( j ).second.c_str(); }
int PQgetisnull( const PGresult *r, int i, int j ) { return ( ( MockRes * ) r )->rows.at( i ).at( j ).first ? 1 : 0; }
int PQgetlength( const PGresult *r, int i, int j ) { return ( int )( ( MockRes * ) r )->rows.at( i ).at( j ).second.size(); }
int PQserverVersion( const PGconn * ) { return 120000; }
}

// rules come from a file: one per line: <skip> <left> <status O|T|F|D|N> <affected> <npats> pats.. <nrows> <ncols> cells ("-" = NULL), texts as x<hex>
#include <fstream>
void pqLoad( const std::string &file )
{
  pqRules.clear(); pqLog.clear(); pqConnOk = true;
  std::ifstream f( file );
  std::string line;
  while ( std::getline( f, line ) )
  {
    std::istringstream is( line );
    Rule u; std::string st, t; size_t n, rows, cols;
    is >> u.skip >> u.left >> st >> t >> n;
    u.dropConn = st == "D"; u.nullRes = st == "N";
    u.res.affected = ux( t );
    u.res.st = st == "O" ? PGRES_COMMAND_OK : st == "T" ? PGRES_TUPLES_OK : PGRES_FATAL_ERROR;
    u.res.err = "mock failure";
    for ( size_t i = 0; i < n; ++i ) { is >> t; u.pats.push_back( ux( t ) ); }
    is >> rows >> cols;
    for ( size_t i = 0; i < rows; ++i )
    {
      std::vector<std::pair<bool, std::string>> r;
      for ( size_t j = 0; j < cols; ++j ) { is >> t; r.push_back( t == "-" ? std::make_pair( true, std::string() ) : std::make_pair( false, ux( t ) ) ); }
      u.res.rows.push_back( r );
    }
    pqRules.push_back( u );
  }
}
