CON = ''
DMG = dict(schema=True, files={
 'g.joedbi': '''
create_table person
add_field person name string
add_field person age int32
''', 'g.joedbc': '''
namespace g
create_index person_by_name person name
'''})
BUGS = [
dict(id='P23-vector-range', property='P23',
 edits=[('journal/Readonly_Journal.cpp', '''   else if (to_underlying(record_of_last_operation) < 0 || to_underlying(record_of_last_operation) + size > capacity)\\''',
 '''   else if (to_underlying(record_of_last_operation) < 0 || size > capacity)\\''')],
 needs='a damaged record number in an operation that updates a vector of numbers',
 breaks='the values are written outside of the column: the reader is killed, or its memory corrupted',
 demo='''
#include "joedb/interpreted/Database.h"
#include "joedb/error/Out_Of_Date.h"
int main()
{
 joedb::Memory_File f;
 {
  joedb::Writable_Journal j(f);
  j.create_table("t");
  j.add_field(joedb::Table_Id(1), "x", joedb::Type::int32());
  j.insert_vector(joedb::Table_Id(1), joedb::Record_Id(0), 10);
  const int32_t v[3] = {1, 2, 3};
  j.update_vector_int32(joedb::Table_Id(1), joedb::Record_Id(int64_t(1) << 40), joedb::Field_Id(1), 3, v);
  j.soft_checkpoint();
 }
 bool reported = false;
 try
 {
  joedb::Readonly_Journal j(f);
  joedb::Database db(joedb::Record_Id(1000));
  j.replay_log(db);
 }
 catch (const joedb::Exception &) {reported = true;}
 CHECK(reported);
}
''' .replace('#include "joedb/error/Out_Of_Date.h"\n', '')),
dict(DMG, id='P23-delete-order', property='P23',
 edits=[('compiler/generator/Database_h.cpp', '''   out << "    JOEDB_RELEASE_ASSERT(is_valid_record_id_for_" << tname << "(record_id));\\n";

   for (const auto &index: options.get_indices())
    if (index.table_id == tid)
     out << "    remove_index_of_" << index.name << "(record_id);\\n";
''', '''   // what depends on the values of the record must be done first
   for (const auto &index: options.get_indices())
    if (index.table_id == tid)
     out << "    remove_index_of_" << index.name << "(record_id);\\n";

   out << "    JOEDB_RELEASE_ASSERT(is_valid_record_id_for_" << tname << "(record_id));\\n";
''')],
 needs='a file that deletes a record that does not exist, in a table that has an index',
 breaks='the compiled reader uses an iterator outside of the column before it checks the record: it is killed',
 demo='''
#include "g/Readonly_Database.h"
#include "g/readonly.cpp"
int main()
{
 joedb::Memory_File f;
 {
  joedb::Writable_Journal j(f);
  j.create_table("person");
  j.add_field(joedb::Table_Id(1), "name", joedb::Type::string());
  j.add_field(joedb::Table_Id(1), "age", joedb::Type::int32());
  j.insert_into(joedb::Table_Id(1), joedb::Record_Id(0));
  j.delete_from(joedb::Table_Id(1), joedb::Record_Id(int64_t(1) << 40));
  j.soft_checkpoint();
 }
 bool reported = false;
 try {g::Readonly_Database db(f);} catch (const joedb::Exception &) {reported = true;}
 CHECK(reported);
}
'''),
]
