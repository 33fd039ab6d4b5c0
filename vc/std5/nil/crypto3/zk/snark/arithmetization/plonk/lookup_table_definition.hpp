// Table definitions as in crypto3: a table fills itself when asked for its rows; a filled definition keeps a copy of them.
#pragma once
#include <map>
#include <set>
#include <string>
#include <memory>
#include <vector>
namespace nil { namespace crypto3 { namespace zk { namespace snark {
template<typename Field> class plonk_lookup_table { };
template<typename Field> class lookup_table_definition {
public:
    struct lookup_subtable { std::vector<std::size_t> column_indices; std::size_t begin, end; };
    std::vector<std::vector<typename Field::value_type>> _table;
    std::string table_name;
    std::map<std::string, lookup_subtable> subtables;
    lookup_table_definition(const std::string &name) : table_name(name) { }
    virtual void generate() = 0;
    virtual std::size_t get_columns_number() = 0;
    virtual std::size_t get_rows_number() = 0;
    const std::vector<std::vector<typename Field::value_type>> &get_table() { if (_table.size() == 0) generate(); return _table; }
    virtual ~lookup_table_definition() { }
};
template<typename Field> class filled_lookup_table_definition : public lookup_table_definition<Field> {
public:
    filled_lookup_table_definition(lookup_table_definition<Field> &o) : lookup_table_definition<Field>(o.table_name) { this->_table = o.get_table(); }
    void generate() override { }
    std::size_t get_columns_number() override { return this->_table.size(); }
    std::size_t get_rows_number() override { return this->_table[0].size(); }
};
template<typename Field> class dynamic_table_definition {
    bool defined = false;
public:
    std::string table_name;
    plonk_lookup_table<Field> lookup_table;
    dynamic_table_definition(const std::string &n) : table_name(n) { }
    void define(const plonk_lookup_table<Field> &t) { lookup_table = t; defined = true; }
    bool is_defined() const { return defined; }
};
}}}}
