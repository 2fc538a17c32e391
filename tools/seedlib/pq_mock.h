// stand-in for libpq: records every statement, answers from a script
#pragma once
#include <libpq-fe.h>
#include <functional>
struct MockRes { ExecStatusType st = PGRES_COMMAND_OK; std::vector<std::vector<std::string>> rows; std::string affected = "1"; };
static std::vector<std::string> pqLog;
static std::function<void( const std::string &, MockRes & )> pqAnswer;
extern "C" {
PGconn *PQconnectdb( const char * ) { return ( PGconn * ) new int( 1 ); }
void PQfinish( PGconn *c ) { delete ( int * ) c; }
ConnStatusType PQstatus( const PGconn * ) { return CONNECTION_OK; }
char *PQerrorMessage( const PGconn * ) { return ( char * ) ""; }
PGresult *PQexec( PGconn *, const char *q )
{
  pqLog.push_back( q );
  MockRes *r = new MockRes;
  std::string s( q );
  if ( s.compare( 0, 6, "SELECT" ) == 0 || s.compare( 0, 6, "select" ) == 0 ) r->st = PGRES_TUPLES_OK;
  if ( pqAnswer ) pqAnswer( s, *r );
  return ( PGresult * ) r;
}
void PQclear( PGresult *r ) { delete ( MockRes * ) r; }
ExecStatusType PQresultStatus( const PGresult *r ) { return r ? ( ( MockRes * ) r )->st : PGRES_FATAL_ERROR; }
char *PQresultErrorMessage( const PGresult * ) { return ( char * ) "failed"; }
char *PQresultErrorField( const PGresult *, int ) { return ( char * ) "failed"; }
int PQntuples( const PGresult *r ) { return r ? ( int )( ( MockRes * ) r )->rows.size() : 0; }
int PQnfields( const PGresult *r ) { return r && ( ( MockRes * ) r )->rows.size() ? ( int )( ( MockRes * ) r )->rows[0].size() : 0; }
char *PQcmdTuples( PGresult *r ) { return ( char * )( ( MockRes * ) r )->affected.c_str(); }
char *PQgetvalue( const PGresult *r, int i, int j ) { return ( char * )( ( MockRes * ) r )->rows.at( i ).at( j ).c_str(); }
int PQgetisnull( const PGresult *r, int i, int j ) { return ( ( MockRes * ) r )->rows.at( i ).at( j ) == "<NULL>"; }
int PQgetlength( const PGresult *r, int i, int j ) { return ( int )( ( MockRes * ) r )->rows.at( i ).at( j ).size(); }
int PQserverVersion( const PGconn * ) { return 120000; }
}
static bool has( const std::string &s, const char *t ) { return s.find( t ) != std::string::npos; }
static int logged( const char *t ) { int n = 0; for ( auto &s : pqLog ) if ( s.compare( 0, strlen( t ), t ) == 0 ) ++n; return n; }
