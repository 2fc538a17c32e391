From 4f9ab83f4de01578414c1656e22b8d2edd1aa7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:35 +0000
Subject: [PATCH 01/48] fix: changeset reader must not decode varints past the
 end of the buffer

---
 geodiff/src/changesetreader.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/changesetreader.cpp b/geodiff/src/changesetreader.cpp
index 27ca43c..4ca874f 100644
--- a/geodiff/src/changesetreader.cpp
+++ b/geodiff/src/changesetreader.cpp
@@ -86,8 +86,17 @@ char ChangesetReader::readByte()
 
 int ChangesetReader::readVarint()
 {
-  u32 value;
+  // a varint has up to 9 bytes and each of the first 8 bytes tells whether another byte follows:
+  // make sure that the whole varint is within the buffer before decoding it
   const unsigned char *ptr = ( const unsigned char * )mBuffer->c_buf() + mOffset;
+  int count = 0;
+  while ( count < 8 && mOffset + count < mBuffer->size() && ( ptr[count] & 0x80 ) )
+    ++count;
+
+  if ( mOffset + count >= mBuffer->size() )
+    throwReaderError( "readVarint: at the end of buffer" );
+
+  u32 value;
   int nBytes = getVarint32( ptr, value );
   mOffset += nBytes;
   return value;
-- 
2.43.0


From 4662a49becccfef52f64648f586e3f2990bf12ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:35 +0000
Subject: [PATCH 02/48] fix: changeset reader must not read numbers past the
 end of the buffer

---
 geodiff/src/changesetreader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geodiff/src/changesetreader.cpp b/geodiff/src/changesetreader.cpp
index 4ca874f..82ebcd1 100644
--- a/geodiff/src/changesetreader.cpp
+++ b/geodiff/src/changesetreader.cpp
@@ -132,6 +132,8 @@ void ChangesetReader::readRowValues( std::vector<Value> &values )
       // 64-bit int (big endian)
       int64_t v;
       uint64_t x;
+      if ( mBuffer->size() - mOffset < 8 )
+        throwReaderError( "readRowValues: number: at the end of buffer" );
       memcpy( &x, mBuffer->c_buf() + mOffset, 8 );
       mOffset += 8;
       x = be64toh( x ); // convert big endian to host
@@ -143,6 +145,8 @@ void ChangesetReader::readRowValues( std::vector<Value> &values )
       // 64-bit double (big endian)
       double v;
       uint64_t x;
+      if ( mBuffer->size() - mOffset < 8 )
+        throwReaderError( "readRowValues: number: at the end of buffer" );
       memcpy( &x, mBuffer->c_buf() + mOffset, 8 );
       mOffset += 8;
       x = be64toh( x ); // convert big endian to host
-- 
2.43.0


From e76c6512759998206b04e454e85f5ce64e8d3ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:35 +0000
Subject: [PATCH 03/48] fix: changeset reader must reject negative and
 overflowing lengths of text/blob values

---
 geodiff/src/changesetreader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/changesetreader.cpp b/geodiff/src/changesetreader.cpp
index 82ebcd1..403a62b 100644
--- a/geodiff/src/changesetreader.cpp
+++ b/geodiff/src/changesetreader.cpp
@@ -156,7 +156,7 @@ void ChangesetReader::readRowValues( std::vector<Value> &values )
     else if ( type == Value::TypeText || type == Value::TypeBlob ) // 0x03 or 0x04
     {
       int len = readVarint();
-      if ( mOffset + len > mBuffer->size() )
+      if ( len < 0 || len > mBuffer->size() - mOffset )
         throwReaderError( "readRowValues: text/blob: at the end of buffer" );
       values[i].setString( type == Value::TypeText ? Value::TypeText : Value::TypeBlob, mBuffer->c_buf() + mOffset, len );
       mOffset += len;
-- 
2.43.0


From ee73f5c6b875f9c0de0fc4a46995700558d4d4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:35 +0000
Subject: [PATCH 04/48] fix: changeset reader must report unknown record types
 instead of skipping bytes

---
 geodiff/src/changesetreader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geodiff/src/changesetreader.cpp b/geodiff/src/changesetreader.cpp
index 403a62b..e465385 100644
--- a/geodiff/src/changesetreader.cpp
+++ b/geodiff/src/changesetreader.cpp
@@ -60,6 +60,10 @@ bool ChangesetReader::nextEntry( ChangesetEntry &entry )
       entry.table = &mCurrentTable;
       return true;  // we're done!
     }
+    else
+    {
+      throwReaderError( "nextEntry: unknown type of record" );
+    }
   }
   return false;
 }
-- 
2.43.0


From 3c9f0588899c110484afd7fc968b1fcefa7872e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:06 +0000
Subject: [PATCH 05/48] fix: refuse changeset files whose size does not fit
 into the buffer size

---
 geodiff/src/geodiffutils.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 15368b9..0152401 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -12,6 +12,7 @@
 #include <stdlib.h>
 #include <stdarg.h>
 #include <ctype.h>
+#include <limits.h>
 #include <string.h>
 #include <sqlite3.h>
 #include <exception>
@@ -108,6 +109,11 @@ void Buffer::read( const std::string &filename )
     fclose( fp );
     throw GeoDiffException( "Unable to read file size of " + filename );
   }
+  if ( off_end > INT_MAX )
+  {
+    fclose( fp );
+    throw GeoDiffException( "File is too big: " + filename );
+  }
   mAlloc = ( size_t )off_end;
   mUsed = mAlloc;
 
-- 
2.43.0


From 404e9e0414d303b59aa56ea6ea5a8c5e49c672bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:52 +0000
Subject: [PATCH 06/48] fix: comparison of two NULL values must not hit the
 assertion

---
 geodiff/src/changeset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/changeset.h b/geodiff/src/changeset.h
index 89ee970..533f69a 100644
--- a/geodiff/src/changeset.h
+++ b/geodiff/src/changeset.h
@@ -52,7 +52,7 @@ struct Value
     {
       if ( mType != other.mType )
         return false;
-      if ( mType == TypeUndefined || mType == TypeUndefined )
+      if ( mType == TypeUndefined || mType == TypeNull )
         return true;
       if ( mType == TypeInt )
         return getInt() == other.getInt();
-- 
2.43.0


From b53becd37f976d06a926cca85d08bcb4e691d102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:52 +0000
Subject: [PATCH 07/48] fix: assignment of a value to itself must not lose it

---
 geodiff/src/changeset.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geodiff/src/changeset.h b/geodiff/src/changeset.h
index 533f69a..80dc4e7 100644
--- a/geodiff/src/changeset.h
+++ b/geodiff/src/changeset.h
@@ -38,6 +38,8 @@ struct Value
 
     Value &operator=( const Value &other )
     {
+      if ( this == &other )
+        return *this;
       reset();
       mType = other.mType;
       mVal = other.mVal;
-- 
2.43.0


From 3e20bcbe41635d3eab8e79fb39c0e5831eda5c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:52 +0000
Subject: [PATCH 08/48] fix: rebase with one empty changeset must write the
 output and not destroy its inputs

---
 geodiff/src/geodiffrebase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 1bc459b..6332042 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -579,7 +579,7 @@ int rebase( const std::string &changeset_BASE_THEIRS,
   if ( reader_BASE_THEIRS.isEmpty() )
   {
     Logger::instance().info( " -- no rebase needed! (empty base2theirs) --\n" );
-    filecopy( changeset_BASE_MODIFIED, changeset_THEIRS_MODIFIED );
+    filecopy( changeset_THEIRS_MODIFIED, changeset_BASE_MODIFIED );
     return GEODIFF_SUCCESS;
   }
 
@@ -592,7 +592,7 @@ int rebase( const std::string &changeset_BASE_THEIRS,
   if ( reader_BASE_MODIFIED.isEmpty() )
   {
     Logger::instance().info( " -- no rebase needed! (empty base2modified) --\n" );
-    filecopy( changeset_BASE_THEIRS, changeset_THEIRS_MODIFIED );
+    filecopy( changeset_THEIRS_MODIFIED, changeset_BASE_MODIFIED );  // no changes of ours to be rebased
     return GEODIFF_SUCCESS;
   }
 
-- 
2.43.0


From 1a16a7465458677b323194d7366bedf2ca44d622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:52 +0000
Subject: [PATCH 09/48] fix: filecopy must report failures

---
 geodiff/src/geodiffutils.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 0152401..d7c1849 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -293,8 +293,14 @@ void filecopy( const std::string &to, const std::string &from )
 
   std::ifstream  src( from, std::ios::binary );
   std::ofstream  dst( to,   std::ios::binary );
-
-  dst << src.rdbuf();
+  if ( !src.is_open() || !dst.is_open() )
+    throw GeoDiffException( "Unable to copy " + from + " to " + to );
+
+  if ( src.peek() != std::ifstream::traits_type::eof() )  // copying of nothing would be reported as a failure
+    dst << src.rdbuf();
+  dst.close();
+  if ( src.bad() || dst.fail() )
+    throw GeoDiffException( "Unable to copy " + from + " to " + to );
 #endif
 }
 
-- 
2.43.0


From c760ea7fea55d61c0a9fcb5d38b38a7ea8375ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:52 +0000
Subject: [PATCH 10/48] fix: failure to write a JSON output file must not be
 reported as success

---
 geodiff/src/geodiff.cpp      | 2 +-
 geodiff/src/geodiffutils.cpp | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index ff4da8d..5ab39c7 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -298,13 +298,13 @@ static int listChangesJSON( const char *changeset, const char *jsonfile, bool on
       res = changesetToJSONSummary( reader );
     else
       res = changesetToJSON( reader );
+    flushString( jsonfile, res );
   }
   catch ( GeoDiffException exc )
   {
     Logger::instance().error( exc );
     return GEODIFF_ERROR;
   }
-  flushString( jsonfile, res );
   return GEODIFF_SUCCESS;
 }
 
diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index d7c1849..6e5b8ca 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -456,6 +456,8 @@ void flushString( const std::string &filename, const std::string &str )
   std::ofstream out( filename );
   out << str;
   out.close();
+  if ( out.fail() )
+    throw GeoDiffException( "Unable to write " + filename );
 }
 
 std::string getEnvVar( std::string const &key, const std::string &defaultVal )
-- 
2.43.0


From 475d743fbcbd11f4f37d3ff2a4695e217a42077c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:52 +0000
Subject: [PATCH 11/48] fix: C API must check all required pointer arguments

---
 geodiff/src/geodiff.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 5ab39c7..814dbdc 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -154,7 +154,7 @@ int GEODIFF_createRebasedChangeset( const char *base,
                                     const char *conflictfile
                                   )
 {
-  if ( !conflictfile )
+  if ( !base || !modified || !changeset_their || !changeset || !conflictfile )
   {
     Logger::instance().error( "NULL arguments to GEODIFF_createRebasedChangeset" );
     return GEODIFF_ERROR;
@@ -320,7 +320,7 @@ int GEODIFF_listChangesSummary( const char *changeset, const char *jsonfile )
 
 int GEODIFF_invertChangeset( const char *changeset, const char *changeset_inv )
 {
-  if ( !changeset )
+  if ( !changeset || !changeset_inv )
   {
     Logger::instance().error( "NULL arguments to GEODIFF_invertChangeset" );
     return GEODIFF_ERROR;
@@ -398,7 +398,7 @@ int GEODIFF_rebaseEx( const char *driverName,
                       const char *base2their,
                       const char *conflictfile )
 {
-  if ( !base || !modified || !modified || !conflictfile )
+  if ( !driverName || !base || !modified || !base2their || !conflictfile )
   {
     Logger::instance().error( "NULL arguments to GEODIFF_rebase" );
     return GEODIFF_ERROR;
-- 
2.43.0


From cc2e8145b9b7b97f49d1ee43e4933552f30e153d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:52 +0000
Subject: [PATCH 12/48] fix: GEODIFF_changesCount must not let exceptions out

---
 geodiff/src/geodiff.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 814dbdc..e6c7088 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -268,12 +268,20 @@ int GEODIFF_changesCount( const char *changeset )
     return -1;
   }
 
-  int changesCount = 0;
-  ChangesetEntry entry;
-  while ( reader.nextEntry( entry ) )
-    ++changesCount;
+  try
+  {
+    int changesCount = 0;
+    ChangesetEntry entry;
+    while ( reader.nextEntry( entry ) )
+      ++changesCount;
 
-  return changesCount;
+    return changesCount;
+  }
+  catch ( GeoDiffException exc )
+  {
+    Logger::instance().error( exc );
+    return -1;
+  }
 }
 
 static int listChangesJSON( const char *changeset, const char *jsonfile, bool onlySummary )
-- 
2.43.0


From 1030c32bdf11d77c2c1cd0981cbde4d8aeeba8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:52 +0000
Subject: [PATCH 13/48] fix: makeCopy and dumpData must report that a changeset
 file cannot be opened

---
 geodiff/src/geodiff.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index e6c7088..66ddd14 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -533,7 +533,8 @@ int GEODIFF_makeCopy( const char *driverSrcName, const char *driverSrcExtraInfo,
     // get source data
     {
       ChangesetWriter writer;
-      writer.open( tmpFileChangeset.c_path() );
+      if ( !writer.open( tmpFileChangeset.c_path() ) )
+        throw GeoDiffException( "Unable to open changeset file for writing: " + tmpFileChangeset.path() );
       driverSrc->dumpData( writer );
     }
 
@@ -550,7 +551,8 @@ int GEODIFF_makeCopy( const char *driverSrcName, const char *driverSrcExtraInfo,
     // insert data to destination
     {
       ChangesetReader reader;
-      reader.open( tmpFileChangeset.c_path() );
+      if ( !reader.open( tmpFileChangeset.c_path() ) )
+        throw GeoDiffException( "Unable to open changeset file for reading: " + tmpFileChangeset.path() );
       driverDst->applyChangeset( reader );
     }
   }
@@ -592,7 +594,8 @@ int GEODIFF_dumpData( const char *driverName, const char *driverExtraInfo, const
 
     // get source data
     ChangesetWriter writer;
-    writer.open( changeset );
+    if ( !writer.open( changeset ) )
+      throw GeoDiffException( "Unable to open changeset file for writing: " + std::string( changeset ) );
     driver->dumpData( writer );
   }
   catch ( GeoDiffException exc )
-- 
2.43.0


From c3be2a748ca6dcdd4d037dcac34e0a9689abe082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:52 +0000
Subject: [PATCH 14/48] fix: concatChangesets must report failure to add a
 changeset

---
 geodiff/src/geodiffrebase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 6332042..65f9034 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -658,6 +658,6 @@ bool concatChangesets( const std::string &A, const std::string &B, const std::st
   if ( pGrp )
     sqlite3changegroup_delete( pGrp );
 
-  return false;
+  return rc != SQLITE_OK;
 }
 
-- 
2.43.0


From 1259cd1a594a3fd18acf6811edbb951f1898f390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:14 +0000
Subject: [PATCH 15/48] fix: rebase without conflicts must not leave a conflict
 file of an earlier rebase

---
 geodiff/src/geodiff.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 66ddd14..85fe8de 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -203,6 +203,8 @@ int GEODIFF_createRebasedChangesetEx( const char *driverName,
     return GEODIFF_ERROR;
   }
 
+  fileremove( conflictfile );  // do not leave there conflicts from some earlier rebase
+
   // TODO: use driverName + driverExtraInfo + base when creating rebased
   // changeset (e.g. to check whether a newly created ID is actually free)
 
-- 
2.43.0


From cf9c890c61722e9be1cf3f357238bcab5ee6fd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:14 +0000
Subject: [PATCH 16/48] fix: rebase must report conflicts only for columns
 changed on both sides

---
 geodiff/src/geodiffrebase.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 65f9034..8d88c74 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -471,8 +471,9 @@ bool _handle_update( const ChangesetEntry &entry, const RebaseMapping &mapping,
     if ( patchedVal.type() != Value::TypeUndefined )
     {
       outEntry.oldValues[i] = patchedVal;
-      // conflict for this value
-      _addConflictItem( conflictFeature, i, entry.oldValues[i], patchedVal, entry.newValues[i] );
+      // conflict for this value - but only if the column has been changed also in this changeset
+      if ( entry.newValues[i].type() != Value::TypeUndefined )
+        _addConflictItem( conflictFeature, i, entry.oldValues[i], patchedVal, entry.newValues[i] );
     }
     else
     {
-- 
2.43.0


From b2ae5b10dfad7f52c4957fdabdb03f4b2d9faf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:14 +0000
Subject: [PATCH 17/48] fix: rebase must keep primary key values that are not
 remapped (e.g. text keys)

---
 geodiff/src/geodiffrebase.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 8d88c74..072cc6c 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -354,7 +354,7 @@ bool _handle_insert( const ChangesetEntry &entry, const RebaseMapping &mapping,
 
   for ( size_t i = 0; i < numColumns; i++ )
   {
-    if ( entry.table->primaryKeys[i] )
+    if ( entry.table->primaryKeys[i] && newPk != pk )
     {
       outEntry.newValues[i].setInt( newPk );
     }
@@ -376,12 +376,11 @@ bool _handle_delete( const ChangesetEntry &entry, const RebaseMapping &mapping,
 
   // resolve primary key and patched primary key
   int pk = _get_primary_key( entry );
-  int newPk = pk;
 
   if ( mapping.hasOldPkey( entry.table->name, pk ) )
   {
     // conflict 2 concurrent updates...
-    newPk = mapping.getNewPkey( entry.table->name, pk );
+    int newPk = mapping.getNewPkey( entry.table->name, pk );
 
     // conflict 2 concurrent deletes...
     if ( newPk == RebaseMapping::INVALID_FID )
@@ -400,7 +399,7 @@ bool _handle_delete( const ChangesetEntry &entry, const RebaseMapping &mapping,
   {
     if ( entry.table->primaryKeys[i] )
     {
-      outEntry.oldValues[i].setInt( newPk );
+      outEntry.oldValues[i] = entry.oldValues[i];
     }
     else
     {
-- 
2.43.0


From dfff932f28a5a62ef580fc5be7e1561645e015e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:14 +0000
Subject: [PATCH 18/48] fix: rebase must not access columns that the other
 changeset does not have

---
 geodiff/src/geodiffrebase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 072cc6c..6b8b2ee 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -394,6 +394,8 @@ bool _handle_delete( const ChangesetEntry &entry, const RebaseMapping &mapping,
     patchedVals.resize( static_cast<size_t>( numColumns ) );
   else
     patchedVals = a->second;
+  if ( patchedVals.size() != numColumns )
+    throw GeoDiffException( "rebase: number of columns does not match in table " + entry.table->name );
 
   for ( size_t i = 0; i < numColumns; i++ )
   {
@@ -460,6 +462,8 @@ bool _handle_update( const ChangesetEntry &entry, const RebaseMapping &mapping,
     patchedVals.resize( static_cast<size_t>( numColumns ) );
   else
     patchedVals = a->second;
+  if ( patchedVals.size() != numColumns )
+    throw GeoDiffException( "rebase: number of columns does not match in table " + entry.table->name );
 
   ConflictFeature conflictFeature( pk, entry.table->name );
 
-- 
2.43.0


From c90efd3b155004a4cf53c935d517422d7823fc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:40 +0000
Subject: [PATCH 19/48] fix: rebase must not confuse primary key -1 with the
 mark of deleted rows

---
 geodiff/src/geodiffrebase.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 6b8b2ee..6d83caa 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -241,7 +241,8 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
     if ( oldSet.empty() )
       continue;  // TODO: or set 0 to free indices??
 
-    freeIndices[mapId.first] = *std::max_element( oldSet.begin(), oldSet.end() ) + 1;
+    // never lower than 1, so that a new key cannot be mistaken for INVALID_FID
+    freeIndices[mapId.first] = std::max( *std::max_element( oldSet.begin(), oldSet.end() ), 0 ) + 1;
   }
 
   ChangesetEntry entry;
@@ -307,7 +308,10 @@ int _find_mapping_for_new_changeset( ChangesetReader &reader, const DatabaseReba
     // make a set of all new pkeys
     std::set<int> usedNewPkeys;
     for ( auto oldNewPair : mapping.mapIds[tableName] )
-      usedNewPkeys.insert( oldNewPair.second );
+    {
+      if ( oldNewPair.second != RebaseMapping::INVALID_FID )
+        usedNewPkeys.insert( oldNewPair.second );
+    }
 
     std::set<int> pkeys = pair.second;
     for ( int pk : pkeys )
-- 
2.43.0


From 309f674b908513dc48fe79d787351bc31d108da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:40 +0000
Subject: [PATCH 20/48] fix: avoid signed integer overflow in the hash of text
 primary keys

---
 geodiff/src/geodiffutils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 6e5b8ca..3948183 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -436,7 +436,7 @@ void get_primary_key( const ChangesetEntry &entry, int &fid, int &nColumn )
   {
     std::string str = pkeyValue.getString();
     const char *strData = str.data();
-    int hash = 0;
+    uint32_t hash = 0;
     int len = str.size();
     for ( int i = 0; i < len; i++ )
     {
-- 
2.43.0


From ed591600cc2c23bdecd8c5757e8c60f8ff2caba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 21/48] fix: escape backslashes and control characters in JSON
 strings

---
 geodiff/src/changesetutils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index 2d9b5dd..6d7bffa 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -78,11 +78,15 @@ void invertChangeset( ChangesetReader &reader, ChangesetWriter &writer )
 
 std::string escapeJSONString( std::string val )
 {
-  //val = replace( val, "\\", "\\\\" );  // TODO: escaping of backslashes?
+  val = replace( val, "\\", "\\\\" );  // needs to be first - other replacements add backslashes
   val = replace( val, "\n", "\\n" );
   val = replace( val, "\r", "\\r" );
   val = replace( val, "\t", "\\t" );
   val = replace( val, "\"", "\\\"" );
+  // other control characters must not be in JSON strings either
+  const char *hexDigits = "0123456789abcdef";
+  for ( int c = 0; c < 32; ++c )
+    val = replace( val, std::string( 1, ( char ) c ), std::string( "\\u00" ) + hexDigits[c / 16] + hexDigits[c % 16] );
   return "\"" + val + "\"";
 }
 
-- 
2.43.0


From 1cdf763cb5552689fbccbd1478a4ce4c4976a951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 22/48] fix: escape table names in JSON output

---
 geodiff/src/changesetutils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index 6d7bffa..d9bde85 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -126,7 +126,7 @@ std::string changesetEntryToJSON( const ChangesetEntry &entry )
     status = "delete";
 
   std::string res = "      {\n";
-  res += "        \"table\": \"" + entry.table->name + "\",\n";
+  res += "        \"table\": " + escapeJSONString( entry.table->name ) + ",\n";
   res += "        \"type\": \"" + status + "\",\n";
   res += "        \"changes\": [";
   bool first = true;
@@ -228,7 +228,7 @@ std::string changesetToJSONSummary( ChangesetReader &reader )
   {
     std::string tableJson;
     tableJson += "      {\n";
-    tableJson += "         \"table\": \"" + kv.first + "\",\n";
+    tableJson += "         \"table\": " + escapeJSONString( kv.first ) + ",\n";
     tableJson += "         \"insert\": " + std::to_string( kv.second.inserts ) + ",\n";
     tableJson += "         \"update\": " + std::to_string( kv.second.updates ) + ",\n";
     tableJson += "         \"delete\": " + std::to_string( kv.second.deletes ) + "\n";
@@ -256,7 +256,7 @@ std::string conflictToJSON( const ConflictFeature &conflict )
   std::string status = "conflict";
 
   std::string res = "      {\n";
-  res += "        \"table\": \"" + std::string( conflict.tableName() ) + "\",\n";
+  res += "        \"table\": " + escapeJSONString( conflict.tableName() ) + ",\n";
   res += "        \"type\": \"" + status + "\",\n";
   res += "        \"fid\": \"" + std::to_string( conflict.pk() ) + "\",\n";
   res += "        \"changes\": [";
-- 
2.43.0


From 384e3a579d25e0a82c8ab4bc4dba1d5e09febe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 23/48] fix: JSON output must not contain inf and nan

---
 geodiff/src/changesetutils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index d9bde85..b6b6d84 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -11,6 +11,8 @@
 #include "changesetwriter.h"
 #include "tableschema.h"
 
+#include <cmath>
+
 
 ChangesetTable schemaToChangesetTable( const std::string &tableName, const TableSchema &tbl )
 {
@@ -99,6 +101,8 @@ std::string valueToJSON( const Value &value )
     case Value::TypeInt:
       return std::to_string( value.getInt() );
     case Value::TypeDouble:
+      if ( !std::isfinite( value.getDouble() ) )
+        return "null";  // JSON does not have any representation of infinity and NaN
       return std::to_string( value.getDouble() );
     case Value::TypeText:
       return escapeJSONString( value.getString() );
-- 
2.43.0


From 7e7be10f2b0196ebfd2b4d467414747c6f5061d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 24/48] fix: invertChangeset must start a new table also when
 only its definition changes

---
 geodiff/src/changesetutils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/changesetutils.cpp b/geodiff/src/changesetutils.cpp
index b6b6d84..8bf0f56 100644
--- a/geodiff/src/changesetutils.cpp
+++ b/geodiff/src/changesetutils.cpp
@@ -27,12 +27,14 @@ void invertChangeset( ChangesetReader &reader, ChangesetWriter &writer )
 {
   std::string currentTableName;
   std::vector<bool> currentPkeys;
+  bool firstTable = true;
   ChangesetEntry entry;
   while ( reader.nextEntry( entry ) )
   {
     assert( entry.table );
-    if ( entry.table->name != currentTableName )
+    if ( firstTable || entry.table->name != currentTableName || entry.table->primaryKeys != currentPkeys )
     {
+      firstTable = false;
       writer.beginTable( *entry.table );
       currentTableName = entry.table->name;
       currentPkeys = entry.table->primaryKeys;
-- 
2.43.0


From e808a3726ce7925f872e1dec42e1ef1c2eda465e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 25/48] fix: diff of a table having only primary key columns
 must not fail

---
 geodiff/src/drivers/sqlitedriver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index fd237ab..10ca92d 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -388,7 +388,8 @@ static std::string sqlFindModified( const std::string &tableName, const TableSch
   }
 
   std::string sql = sqlitePrintf( "SELECT * FROM \"%w\".\"%w\", \"%w\".\"%w\" WHERE %s AND (%s)",
-                                  "main", tableName.c_str(), "aux", tableName.c_str(), exprPk.c_str(), exprOther.c_str() );
+                                  "main", tableName.c_str(), "aux", tableName.c_str(), exprPk.c_str(),
+                                  exprOther.empty() ? "0" : exprOther.c_str() );  // no other columns -> nothing to be updated
   return sql;
 }
 
-- 
2.43.0


From 65a12b33a797316bc20dbfd9e9066b11e8cbd9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 26/48] fix: applying of a changeset must not truncate text at
 NUL character

---
 geodiff/src/drivers/sqlitedriver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 10ca92d..db7fc33 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -656,7 +656,7 @@ static void bindValue( sqlite3_stmt *stmt, int index, const Value &v )
   else if ( v.type() == Value::TypeNull )
     rc = sqlite3_bind_null( stmt, index );
   else if ( v.type() == Value::TypeText )
-    rc = sqlite3_bind_text( stmt, index, v.getString().c_str(), -1, SQLITE_TRANSIENT );
+    rc = sqlite3_bind_text( stmt, index, v.getString().c_str(), v.getString().size(), SQLITE_TRANSIENT );
   else if ( v.type() == Value::TypeBlob )
     rc = sqlite3_bind_blob( stmt, index, v.getString().c_str(), v.getString().size(), SQLITE_TRANSIENT );
   else
-- 
2.43.0


From 0e25d185eb863537be8dc2bbc53c964a0c28de59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 27/48] fix: diff must not ignore differences in text after NUL
 character

---
 geodiff/src/drivers/sqlitedriver.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index db7fc33..5090870 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -409,7 +409,11 @@ static bool valuesEqual( sqlite3_value *v1, sqlite3_value *v2 )
     return sqlite3_value_double( v1 ) == sqlite3_value_double( v2 );
   else if ( type1 == SQLITE_TEXT )
   {
-    return strcmp( ( const char * ) sqlite3_value_text( v1 ), ( const char * ) sqlite3_value_text( v2 ) ) == 0;
+    const unsigned char *text1 = sqlite3_value_text( v1 );
+    const unsigned char *text2 = sqlite3_value_text( v2 );
+    int len1 = sqlite3_value_bytes( v1 );
+    int len2 = sqlite3_value_bytes( v2 );
+    return len1 == len2 && memcmp( text1, text2, len1 ) == 0;
   }
   else if ( type1 == SQLITE_BLOB )
   {
-- 
2.43.0


From 5ac7579626b311711da174f0eb23b32a7ae94dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 28/48] fix: compare exact values also in columns with NOCASE
 and similar collations

---
 geodiff/src/drivers/sqlitedriver.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 5090870..87b37e6 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -382,7 +382,7 @@ static std::string sqlFindModified( const std::string &tableName, const TableSch
     {
       if ( !exprOther.empty() )
         exprOther += " OR ";
-      exprOther += sqlitePrintf( "\"%w\".\"%w\".\"%w\" IS NOT \"%w\".\"%w\".\"%w\"",
+      exprOther += sqlitePrintf( "\"%w\".\"%w\".\"%w\" COLLATE BINARY IS NOT \"%w\".\"%w\".\"%w\"",
                                  "main", tableName.c_str(), c.name.c_str(), "aux", tableName.c_str(), c.name.c_str() );
     }
   }
@@ -622,7 +622,7 @@ static std::string sqlForUpdate( const std::string &tableName, const TableSchema
     if ( tbl.columns[i].isPrimaryKey )
       sql += sqlitePrintf( " \"%w\" = ?%d ", tbl.columns[i].name.c_str(), i * 3 + 1 );
     else
-      sql += sqlitePrintf( " ( ?%d = 0 OR \"%w\" IS ?%d ) ", i * 3 + 2, tbl.columns[i].name.c_str(), i * 3 + 1 );
+      sql += sqlitePrintf( " ( ?%d = 0 OR \"%w\" COLLATE BINARY IS ?%d ) ", i * 3 + 2, tbl.columns[i].name.c_str(), i * 3 + 1 );
   }
 
   return sql;
@@ -645,7 +645,7 @@ static std::string sqlForDelete( const std::string &tableName, const TableSchema
     if ( tbl.columns[i].isPrimaryKey )
       sql += sqlitePrintf( "\"%w\" = ?", tbl.columns[i].name.c_str() );
     else
-      sql += sqlitePrintf( "\"%w\" IS ?", tbl.columns[i].name.c_str() );
+      sql += sqlitePrintf( "\"%w\" COLLATE BINARY IS ?", tbl.columns[i].name.c_str() );
   }
   return sql;
 }
-- 
2.43.0


From 53aafcf0547ab188717882d6642aed714eabec4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 29/48] fix: failure to read rows from SQLite must not be taken
 as the end of data

---
 geodiff/src/drivers/sqlitedriver.cpp | 25 ++++++++++++++++++++-----
 geodiff/src/drivers/sqliteutils.cpp  |  5 ++++-
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 87b37e6..cad827b 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -178,7 +178,8 @@ std::vector<std::string> SqliteDriver::listTables( bool useModified )
                                " ORDER BY name";
   Sqlite3Stmt statement;
   statement.prepare( mDb, "%s", all_tables_sql.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statement.get() ) )
+  int rc;
+  while ( SQLITE_ROW == ( rc = sqlite3_step( statement.get() ) ) )
   {
     const char *name = ( const char * )sqlite3_column_text( statement.get(), 0 );
     if ( !name )
@@ -212,6 +213,8 @@ std::vector<std::string> SqliteDriver::listTables( bool useModified )
 
     tableNames.push_back( tableName );
   }
+  if ( rc != SQLITE_DONE )
+    throw GeoDiffException( "Failed to list tables" );
 
   // result is ordered by name
   return tableNames;
@@ -237,7 +240,8 @@ TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useMod
 
   Sqlite3Stmt statement;
   statement.prepare( mDb, "PRAGMA '%q'.table_info('%q')", dbName.c_str(), tableName.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statement.get() ) )
+  int rc;
+  while ( SQLITE_ROW == ( rc = sqlite3_step( statement.get() ) ) )
   {
     const unsigned char *zName = sqlite3_column_text( statement.get(), 1 );
     if ( zName == nullptr )
@@ -257,6 +261,8 @@ TableSchema SqliteDriver::tableSchema( const std::string &tableName, bool useMod
 
     tbl.columns.push_back( columnInfo );
   }
+  if ( rc != SQLITE_DONE )
+    throw GeoDiffException( "Failed to read columns of table: " + tableName );
 
   // check if the geometry columns table is present (it may not be if this is a "pure" sqlite file)
   if ( !tableExists( mDb, "gpkg_geometry_columns", dbName ) )
@@ -454,7 +460,8 @@ static void handleInserted( const std::string &tableName, const TableSchema &tbl
   std::string sqlInserted = sqlFindInserted( tableName, tbl, reverse );
   Sqlite3Stmt statementI;
   statementI.prepare( db, "%s", sqlInserted.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statementI.get() ) )
+  int rc;
+  while ( SQLITE_ROW == ( rc = sqlite3_step( statementI.get() ) ) )
   {
     if ( first )
     {
@@ -478,6 +485,8 @@ static void handleInserted( const std::string &tableName, const TableSchema &tbl
 
     writer.writeEntry( e );
   }
+  if ( rc != SQLITE_DONE )
+    throw GeoDiffException( "Failed to compare rows of table: " + tableName );
 }
 
 static void handleUpdated( const std::string &tableName, const TableSchema &tbl, std::shared_ptr<Sqlite3Db> db, ChangesetWriter &writer, bool &first )
@@ -486,7 +495,8 @@ static void handleUpdated( const std::string &tableName, const TableSchema &tbl,
 
   Sqlite3Stmt statement;
   statement.prepare( db, "%s", sqlModified.c_str() );
-  while ( SQLITE_ROW == sqlite3_step( statement.get() ) )
+  int rc;
+  while ( SQLITE_ROW == ( rc = sqlite3_step( statement.get() ) ) )
   {
     if ( first )
     {
@@ -522,6 +532,8 @@ static void handleUpdated( const std::string &tableName, const TableSchema &tbl,
 
     writer.writeEntry( e );
   }
+  if ( rc != SQLITE_DONE )
+    throw GeoDiffException( "Failed to compare rows of table: " + tableName );
 }
 
 void SqliteDriver::createChangeset( ChangesetWriter &writer )
@@ -952,7 +964,8 @@ void SqliteDriver::dumpData( ChangesetWriter &writer, bool useModified )
     bool first = true;
     Sqlite3Stmt statementI;
     statementI.prepare( mDb, "SELECT * FROM \"%w\".\"%w\"", dbName.c_str(), tableName.c_str() );
-    while ( SQLITE_ROW == sqlite3_step( statementI.get() ) )
+    int rc;
+    while ( SQLITE_ROW == ( rc = sqlite3_step( statementI.get() ) ) )
     {
       if ( first )
       {
@@ -970,6 +983,8 @@ void SqliteDriver::dumpData( ChangesetWriter &writer, bool useModified )
       }
       writer.writeEntry( e );
     }
+    if ( rc != SQLITE_DONE )
+      throw GeoDiffException( "Failed to read rows of table: " + tableName );
   }
 }
 
diff --git a/geodiff/src/drivers/sqliteutils.cpp b/geodiff/src/drivers/sqliteutils.cpp
index b6c1ba6..d33a90e 100644
--- a/geodiff/src/drivers/sqliteutils.cpp
+++ b/geodiff/src/drivers/sqliteutils.cpp
@@ -233,7 +233,8 @@ void sqliteTriggers( std::shared_ptr<Sqlite3Db> db, std::vector<std::string> &tr
 
   Sqlite3Stmt statament;
   statament.prepare( db, "%s", "select name, sql from sqlite_master where type = 'trigger'" );
-  while ( SQLITE_ROW == sqlite3_step( statament.get() ) )
+  int rc;
+  while ( SQLITE_ROW == ( rc = sqlite3_step( statament.get() ) ) )
   {
     const char *name = ( char * ) sqlite3_column_text( statament.get(), 0 );
     const char *sql = ( char * ) sqlite3_column_text( statament.get(), 1 );
@@ -284,6 +285,8 @@ void sqliteTriggers( std::shared_ptr<Sqlite3Db> db, std::vector<std::string> &tr
     triggerCmds.push_back( sql );
   }
   statament.close();
+  if ( rc != SQLITE_DONE )
+    throw GeoDiffException( "Failed to list triggers" );
 }
 
 
-- 
2.43.0


From d2ae2255cc4a85189156397e6096042eff8f654f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 30/48] fix: quote names of dropped triggers and report
 failures to drop or create them again

---
 geodiff/src/drivers/sqlitedriver.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index cad827b..0291a58 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -708,8 +708,9 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
   Sqlite3Stmt statament;
   for ( std::string name : triggerNames )
   {
-    statament.prepare( mDb, "drop trigger %s", name.c_str() );
-    sqlite3_step( statament.get() );
+    statament.prepare( mDb, "drop trigger \"%w\"", name.c_str() );
+    if ( sqlite3_step( statament.get() ) != SQLITE_DONE )
+      throw GeoDiffException( "Unable to drop trigger " + name );
     statament.close();
   }
 
@@ -817,7 +818,8 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
   for ( std::string cmd : triggerCmds )
   {
     statament.prepare( mDb, "%s", cmd.c_str() );
-    sqlite3_step( statament.get() );
+    if ( sqlite3_step( statament.get() ) != SQLITE_DONE )
+      throw GeoDiffException( "Unable to create again trigger " + cmd );
     statament.close();
   }
 
-- 
2.43.0


From 6d9b59f249b6c43ef3ec463c01f1637b71a1160e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 31/48] fix: conflict clauses of tables must not delete other
 rows or end the transaction when applying changes

---
 geodiff/src/drivers/sqlitedriver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 0291a58..8f1f66d 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -578,7 +578,7 @@ static std::string sqlForInsert( const std::string &tableName, const TableSchema
    */
 
   std::string sql;
-  sql += sqlitePrintf( "INSERT INTO \"%w\" (", tableName.c_str() );
+  sql += sqlitePrintf( "INSERT OR ABORT INTO \"%w\" (", tableName.c_str() );
   for ( size_t i = 0; i < tbl.columns.size(); ++i )
   {
     if ( i > 0 )
@@ -618,7 +618,7 @@ static std::string sqlForUpdate( const std::string &tableName, const TableSchema
   */
 
   std::string sql;
-  sql += sqlitePrintf( "UPDATE \"%w\" SET ", tableName.c_str() );
+  sql += sqlitePrintf( "UPDATE OR ABORT \"%w\" SET ", tableName.c_str() );
 
   for ( size_t i = 0; i < tbl.columns.size(); ++i )
   {
-- 
2.43.0


From 10c678965276b3a357c84d92a56141ec19e105a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 32/48] fix: update must not use values bound for the previous
 change

---
 geodiff/src/drivers/sqlitedriver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 8f1f66d..f1c2952 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -788,6 +788,7 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
         ++conflictCount;
       }
       sqlite3_reset( stmtUpdate->get() );
+      sqlite3_clear_bindings( stmtUpdate->get() );  // undefined values of the next entry must not be taken from this one
     }
     else if ( entry.op == SQLITE_DELETE )
     {
-- 
2.43.0


From 28afde5487a3c3f0317875b9b7abc069e2431244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 33/48] fix: applying of a changeset must check every table
 definition it contains

---
 geodiff/src/drivers/sqlitedriver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index f1c2952..2faacc9 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -686,6 +686,7 @@ static void bindValue( sqlite3_stmt *stmt, int index, const Value &v )
 void SqliteDriver::applyChangeset( ChangesetReader &reader )
 {
   std::string lastTableName;
+  std::vector<bool> lastPrimaryKeys;
   std::unique_ptr<Sqlite3Stmt> stmtInsert, stmtUpdate, stmtDelete;
   TableSchema tbl;
 
@@ -718,10 +719,11 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
   ChangesetEntry entry;
   while ( reader.nextEntry( entry ) )
   {
-    if ( entry.table->name != lastTableName )
+    if ( !stmtInsert || entry.table->name != lastTableName || entry.table->primaryKeys != lastPrimaryKeys )
     {
       std::string tableName = entry.table->name;
       lastTableName = tableName;
+      lastPrimaryKeys = entry.table->primaryKeys;
       tbl = tableSchema( tableName );
 
       if ( tbl.columns.size() == 0 )
-- 
2.43.0


From dc6d67ee0e6b05a37478a4aaf4ee43b1db7c71e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:23 +0000
Subject: [PATCH 34/48] fix: concatNames keeps separators after empty leading
 names

---
 geodiff/src/geodiffutils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index 3948183..e09f3f0 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -617,11 +617,11 @@ int indexOf( const std::vector<std::string> &arr, const std::string &val )
 std::string concatNames( const std::vector<std::string> &names )
 {
   std::string output;
-  for ( const std::string &name : names )
+  for ( size_t i = 0; i < names.size(); ++i )
   {
-    if ( !output.empty() )
+    if ( i != 0 )
       output += ", ";
-    output += name;
+    output += names[i];
   }
   return output;
 }
-- 
2.43.0


From c5c3db58cb7a7355546aefb8b3f4127eadc8104f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 35/48] fix: stop applying changes to SQLite when the
 transaction was rolled back by a failure

---
 geodiff/src/drivers/sqlitedriver.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 2faacc9..1773657 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -683,6 +683,16 @@ static void bindValue( sqlite3_stmt *stmt, int index, const Value &v )
 }
 
 
+/**
+ * Some failures (e.g. disk full or RAISE(ROLLBACK) in a trigger) make sqlite roll back the whole transaction.
+ * Then we must not go on - following changes would get committed straight away, outside of any transaction.
+ */
+static void checkTransactionActive( std::shared_ptr<Sqlite3Db> db )
+{
+  if ( sqlite3_get_autocommit( db->get() ) )
+    throw GeoDiffException( "Transaction was rolled back while applying changes" );
+}
+
 void SqliteDriver::applyChangeset( ChangesetReader &reader )
 {
   std::string lastTableName;
@@ -760,6 +770,7 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
         // it could be that the primary key already exists or some constraint violation (e.g. not null, unique)
         logApplyConflict( "insert_failed", entry );
         ++conflictCount;
+        checkTransactionActive( mDb );
       }
       if ( sqlite3_changes( mDb->get() ) != 1 )
         throw GeoDiffException( "Nothing inserted (this should never happen)" );
@@ -782,6 +793,7 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
         // a constraint must have been violated (e.g. foreign key, not null, unique)
         logApplyConflict( "update_failed", entry );
         ++conflictCount;
+        checkTransactionActive( mDb );
       }
       if ( sqlite3_changes( mDb->get() ) == 0 )
       {
@@ -804,6 +816,7 @@ void SqliteDriver::applyChangeset( ChangesetReader &reader )
         // a foreign key constraint must have been violated
         logApplyConflict( "delete_failed", entry );
         ++conflictCount;
+        checkTransactionActive( mDb );
       }
       if ( sqlite3_changes( mDb->get() ) == 0 )
       {
-- 
2.43.0


From db303a5dccd00a997df1ee67ca8b0335ab39818d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 36/48] fix: do not compare empty blobs through null pointers

---
 geodiff/src/drivers/sqlitedriver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/sqlitedriver.cpp b/geodiff/src/drivers/sqlitedriver.cpp
index 1773657..08fc73e 100644
--- a/geodiff/src/drivers/sqlitedriver.cpp
+++ b/geodiff/src/drivers/sqlitedriver.cpp
@@ -427,7 +427,7 @@ static bool valuesEqual( sqlite3_value *v1, sqlite3_value *v2 )
     int len2 = sqlite3_value_bytes( v2 );
     if ( len1 != len2 )
       return false;
-    return memcmp( sqlite3_value_blob( v1 ), sqlite3_value_blob( v2 ), len1 ) == 0;
+    return len1 == 0 || memcmp( sqlite3_value_blob( v1 ), sqlite3_value_blob( v2 ), len1 ) == 0;  // blob of zero length is a null pointer
   }
   else
   {
-- 
2.43.0


From cac1eb8d023eec9085c3fbbbc105610485d2b62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 37/48] fix: quote table names in PostgreSQL queries

---
 geodiff/src/drivers/postgresdriver.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index b078586..1bd794c 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -360,9 +360,9 @@ static std::string sqlFindInserted( const std::string &schemaNameBase, const std
   }
 
   std::string sql = "SELECT " + allColumnNames( tbl ) + " FROM " +
-                    quotedIdentifier( reverse ? schemaNameBase : schemaNameModified ) + "." + tableName +
+                    quotedIdentifier( reverse ? schemaNameBase : schemaNameModified ) + "." + quotedIdentifier( tableName ) +
                     " WHERE NOT EXISTS ( SELECT 1 FROM " +
-                    quotedIdentifier( reverse ? schemaNameModified : schemaNameBase ) + "." + tableName +
+                    quotedIdentifier( reverse ? schemaNameModified : schemaNameBase ) + "." + quotedIdentifier( tableName ) +
                     " WHERE " + exprPk + ")";
   return sql;
 }
@@ -920,7 +920,7 @@ void PostgresDriver::createTables( const std::vector<TableSchema> &tables )
       }
     }
 
-    sql = "CREATE TABLE " + quotedIdentifier( mBaseSchema ) + "." + tbl.name + " (";
+    sql = "CREATE TABLE " + quotedIdentifier( mBaseSchema ) + "." + quotedIdentifier( tbl.name ) + " (";
     sql += columns;
     sql += ", PRIMARY KEY (" + pkeyCols + ")";
     sql += ");";
@@ -945,7 +945,7 @@ void PostgresDriver::dumpData( ChangesetWriter &writer, bool useModified )
       continue;  // ignore tables without primary key - they can't be compared properly
 
     std::string sql = "SELECT " + allColumnNames( tbl ) + " FROM " +
-                      quotedIdentifier( useModified ? mModifiedSchema : mBaseSchema ) + "." + tableName;
+                      quotedIdentifier( useModified ? mModifiedSchema : mBaseSchema ) + "." + quotedIdentifier( tableName );
 
     PostgresResult res( execSql( mConn, sql ) );
     int rows = res.rowCount();
-- 
2.43.0


From d6deded84b9ebe969fdc679a3f1c3249cf775019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 38/48] fix: PostgreSQL query for modified rows of tables that
 have only primary key columns

---
 geodiff/src/drivers/postgresdriver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 1bd794c..4f6ffb7 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -395,7 +395,7 @@ static std::string sqlFindModified( const std::string &schemaNameBase, const std
   std::string sql = "SELECT " + allColumnNames( tbl, "a" ) + ", " + allColumnNames( tbl, "b" ) + " FROM " +
                     quotedIdentifier( schemaNameModified ) + "." + quotedIdentifier( tableName ) + " a, " +
                     quotedIdentifier( schemaNameBase ) + "." + quotedIdentifier( tableName ) + " b" +
-                    " WHERE " + exprPk + " AND (" + exprOther + ")";
+                    " WHERE " + exprPk + " AND (" + ( exprOther.empty() ? "FALSE" : exprOther ) + ")";  // no other columns -> nothing to be updated
   return sql;
 }
 
-- 
2.43.0


From e7257853038bcbd147593757bb90e53b0a38460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 39/48] fix: a delete that did not affect one row is a conflict
 when applying changes to PostgreSQL

---
 geodiff/src/drivers/postgresdriver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 4f6ffb7..45e4c20 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -827,6 +827,7 @@ void PostgresDriver::applyChangeset( ChangesetReader &reader )
       if ( res.affectedRows() != "1" )
       {
         logApplyConflict( "delete_nothing", entry );
+        ++conflictCount;
         Logger::instance().warn( "Wrong number of affected rows! Expected 1, got: " + res.affectedRows() );
       }
     }
-- 
2.43.0


From c0f63733d0519b090b99bcff7633f201f0ec3eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 40/48] fix: rollback of a PostgreSQL transaction must not
 throw from destructor

---
 geodiff/src/drivers/postgresdriver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 45e4c20..023f24d 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -41,7 +41,8 @@ class PostgresTransaction
       if ( mConn )
       {
         // we had some problems - roll back any pending changes
-        PostgresResult res( execSql( mConn, "ROLLBACK" ) );
+        // (not using execSql() as destructor must not throw)
+        PostgresResult res( ::PQexec( mConn, "ROLLBACK" ) );
       }
     }
 
-- 
2.43.0


From fe237f535d90b8de179bd01f04fe6ffcb7926fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 41/48] fix: write doubles to PostgreSQL without loss of
 precision

---
 geodiff/src/drivers/postgresdriver.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 023f24d..5abf6a3 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -14,6 +14,8 @@
 #include "postgresutils.h"
 
 #include <algorithm>
+#include <cmath>
+#include <cstdio>
 #include <iostream>
 #include <memory.h>
 
@@ -503,7 +505,15 @@ static std::string valueToSql( const Value &v, const TableColumnInfo &col )
   }
   else if ( v.type() == Value::TypeDouble )
   {
-    return std::to_string( v.getDouble() );
+    double d = v.getDouble();
+    if ( std::isnan( d ) )
+      return "'NaN'";
+    if ( std::isinf( d ) )
+      return d > 0 ? "'Infinity'" : "'-Infinity'";
+    // 17 significant digits are enough to get back exactly the same number
+    char buf[64];
+    snprintf( buf, sizeof( buf ), "%.17g", d );
+    return buf;
   }
   else if ( v.type() == Value::TypeText || v.type() == Value::TypeBlob )
   {
-- 
2.43.0


From f4145866e6c8ff102595846385bbab1c6c1a1c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 42/48] fix: refuse geometry values without a header when
 applying to PostgreSQL

---
 geodiff/src/drivers/postgresdriver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 5abf6a3..c6ec50b 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -521,6 +521,8 @@ static std::string valueToSql( const Value &v, const TableColumnInfo &col )
     {
       // handling of geometries - they are encoded with GPKG header
       std::string gpkgWkb = v.getString();
+      if ( gpkgWkb.size() < 8 )
+        throw GeoDiffException( "valueToSql: geometry without header (malformed changeset?)" );
       std::string wkb( gpkgWkb.size() - 8, 0 );
       memcpy( &wkb[0], &gpkgWkb[8], gpkgWkb.size() - 8 );
       return "ST_GeomFromWKB('\\x" + bin2hex( wkb ) + "', " + std::to_string( col.geomSrsId ) + ")";
-- 
2.43.0


From b2b4c77b779be92b55caaabcf1e75ae648c570c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 43/48] fix: write bytea values to PostgreSQL in hex format

---
 geodiff/src/drivers/postgresdriver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index c6ec50b..255d4ab 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -527,6 +527,8 @@ static std::string valueToSql( const Value &v, const TableColumnInfo &col )
       memcpy( &wkb[0], &gpkgWkb[8], gpkgWkb.size() - 8 );
       return "ST_GeomFromWKB('\\x" + bin2hex( wkb ) + "', " + std::to_string( col.geomSrsId ) + ")";
     }
+    if ( col.type == "bytea" )
+      return "'\\x" + bin2hex( v.getString() ) + "'";
     return quotedString( v.getString() );
   }
   else
-- 
2.43.0


From 50be7257a9cc3ddc335c8fd456244bdd243081dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 44/48] fix: sequence values over 32 bits in PostgreSQL

---
 geodiff/src/drivers/postgresdriver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index 255d4ab..ab21b94 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -894,7 +894,7 @@ void PostgresDriver::updateSequenceObject( const std::string &seqName, int64_t m
 {
   PostgresResult resCurrVal( execSql( mConn, "SELECT last_value FROM " + seqName ) );
   std::string currValueStr = resCurrVal.value( 0, 0 );
-  int currValue = std::stoi( currValueStr );
+  int64_t currValue = std::atoll( currValueStr.c_str() );
 
   if ( currValue < maxValue )
   {
-- 
2.43.0


From cab4801f3253866495a3f9e6b4b7339aa7055d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 45/48] fix: do not assume an integer in auto-increment primary
 key when applying to PostgreSQL

---
 geodiff/src/drivers/postgresdriver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index ab21b94..d8b4b74 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -803,7 +803,7 @@ void PostgresDriver::applyChangeset( ChangesetReader &reader )
         throw GeoDiffException( "Wrong number of affected rows! Expected 1, got: " + res.affectedRows() );
       }
 
-      if ( autoIncrementPkeyIndex != -1 )
+      if ( autoIncrementPkeyIndex != -1 && entry.newValues[autoIncrementPkeyIndex].type() == Value::TypeInt )
       {
         int64_t pkey = entry.newValues[autoIncrementPkeyIndex].getInt();
         if ( autoIncrementTablesToFix.find( tableName ) == autoIncrementTablesToFix.end() )
-- 
2.43.0


From 53b3bf753ab02aa9290734903e51a760ca328d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 46/48] fix: validate every table definition of a changeset
 applied to PostgreSQL

---
 geodiff/src/drivers/postgresdriver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geodiff/src/drivers/postgresdriver.cpp b/geodiff/src/drivers/postgresdriver.cpp
index d8b4b74..7d6fb3d 100644
--- a/geodiff/src/drivers/postgresdriver.cpp
+++ b/geodiff/src/drivers/postgresdriver.cpp
@@ -745,6 +745,7 @@ void PostgresDriver::applyChangeset( ChangesetReader &reader )
     throw GeoDiffException( "Not connected to a database" );
 
   std::string lastTableName;
+  std::vector<bool> lastPrimaryKeys;
   TableSchema tbl;
 
   int autoIncrementPkeyIndex = -1;
@@ -764,9 +765,10 @@ void PostgresDriver::applyChangeset( ChangesetReader &reader )
     if ( tableName.rfind( "gpkg_", 0 ) == 0 )
       continue;   // skip any changes to GPKG meta tables
 
-    if ( tableName != lastTableName )
+    if ( tbl.columns.empty() || tableName != lastTableName || entry.table->primaryKeys != lastPrimaryKeys )
     {
       lastTableName = tableName;
+      lastPrimaryKeys = entry.table->primaryKeys;
       tbl = tableSchema( tableName );
 
       if ( tbl.columns.size() == 0 )
-- 
2.43.0


From 4e46f62eefea47ab7516cc3e5c2bce12d465e19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 47/48] fix: report failure when a changeset file could not be
 written completely

---
 geodiff/src/changesetwriter.cpp | 7 +++++++
 geodiff/src/changesetwriter.h   | 3 +++
 geodiff/src/geodiff.cpp         | 4 ++++
 geodiff/src/geodiffrebase.cpp   | 1 +
 4 files changed, 15 insertions(+)

diff --git a/geodiff/src/changesetwriter.cpp b/geodiff/src/changesetwriter.cpp
index 3b7b6fe..c353561 100644
--- a/geodiff/src/changesetwriter.cpp
+++ b/geodiff/src/changesetwriter.cpp
@@ -28,6 +28,13 @@ bool ChangesetWriter::open( const std::string &filename )
   return true;
 }
 
+void ChangesetWriter::close()
+{
+  mFile.close();
+  if ( mFile.fail() )
+    throw GeoDiffException( "Unable to write changeset file" );
+}
+
 void ChangesetWriter::beginTable( const ChangesetTable &table )
 {
   mCurrentTable = table;
diff --git a/geodiff/src/changesetwriter.h b/geodiff/src/changesetwriter.h
index 81a40b8..de398cb 100644
--- a/geodiff/src/changesetwriter.h
+++ b/geodiff/src/changesetwriter.h
@@ -33,6 +33,9 @@ class ChangesetWriter
     //! writes table change entry
     void writeEntry( const ChangesetEntry &entry );
 
+    //! finishes writing and closes the file - throws GeoDiffException if something could not be written
+    void close();
+
   private:
 
     void writeByte( char c );
diff --git a/geodiff/src/geodiff.cpp b/geodiff/src/geodiff.cpp
index 85fe8de..e0a52f7 100644
--- a/geodiff/src/geodiff.cpp
+++ b/geodiff/src/geodiff.cpp
@@ -95,6 +95,7 @@ int GEODIFF_createChangesetEx( const char *driverName, const char *driverExtraIn
     if ( !writer.open( changeset ) )
       throw GeoDiffException( "Unable to open changeset file for writing: " + std::string( changeset ) );
     driver->createChangeset( writer );
+    writer.close();
   }
   catch ( GeoDiffException exc )
   {
@@ -359,6 +360,7 @@ int GEODIFF_invertChangeset( const char *changeset, const char *changeset_inv )
   try
   {
     invertChangeset( reader, writer );
+    writer.close();
   }
   catch ( GeoDiffException exc )
   {
@@ -538,6 +540,7 @@ int GEODIFF_makeCopy( const char *driverSrcName, const char *driverSrcExtraInfo,
       if ( !writer.open( tmpFileChangeset.c_path() ) )
         throw GeoDiffException( "Unable to open changeset file for writing: " + tmpFileChangeset.path() );
       driverSrc->dumpData( writer );
+      writer.close();
     }
 
     // create destination
@@ -599,6 +602,7 @@ int GEODIFF_dumpData( const char *driverName, const char *driverExtraInfo, const
     if ( !writer.open( changeset ) )
       throw GeoDiffException( "Unable to open changeset file for writing: " + std::string( changeset ) );
     driver->dumpData( writer );
+    writer.close();
   }
   catch ( GeoDiffException exc )
   {
diff --git a/geodiff/src/geodiffrebase.cpp b/geodiff/src/geodiffrebase.cpp
index 6d83caa..bdac799 100644
--- a/geodiff/src/geodiffrebase.cpp
+++ b/geodiff/src/geodiffrebase.cpp
@@ -566,6 +566,7 @@ int _prepare_new_changeset( ChangesetReader &reader, const std::string &changese
       }
     }
   }
+  writer.close();
 
   return GEODIFF_SUCCESS;
 }
-- 
2.43.0


From 2130bb63f4a6ad0f2b9806209d3ff751a316744c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 48/48] fix: report failure when a buffer could not be written
 completely

---
 geodiff/src/geodiffutils.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/geodiff/src/geodiffutils.cpp b/geodiff/src/geodiffutils.cpp
index e09f3f0..417c4ac 100644
--- a/geodiff/src/geodiffutils.cpp
+++ b/geodiff/src/geodiffutils.cpp
@@ -194,8 +194,11 @@ void Buffer::write( const std::string &filename )
   {
     throw GeoDiffException( "Unable to open " + filename + " for writing" );
   }
-  fwrite( mZ, mAlloc, 1, f );
-  fclose( f );
+  bool ok = mAlloc == 0 || fwrite( mZ, mAlloc, 1, f ) == 1;
+  if ( fclose( f ) != 0 )
+    ok = false;
+  if ( !ok )
+    throw GeoDiffException( "Unable to write " + filename );
 }
 
 const char *Buffer::c_buf() const
-- 
2.43.0

