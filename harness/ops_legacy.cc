// The old C interface (odccapi.h): scripts of calls on named iterators.
#include "driver.h"

#include <cstdlib>
#include <cstring>
#include <map>

#include "odc/odccapi.h"

namespace {

const unsigned char FILL = 0xA5;

struct Obj {
    oda_ptr owner = nullptr;
    void* it      = nullptr;
};

struct Kind {
    int (*ncols)(void*, int*);
    int (*size)(void*, int, int*);
    int (*offset)(void*, int, int*);
    int (*type)(void*, int, int*);
    int (*name)(void*, int, char**, int*);
    int (*bits)(void*, int, char**, char**, int*, int*);
    int (*row)(void*, int, double*, int*);
    int (*width)(void*, int*);
    int (*missing)(void*, int, double*);
};

const Kind READ   = {odb_read_iterator_get_no_of_columns, odb_read_iterator_get_column_size_doubles, odb_read_iterator_get_column_offset,
                     odb_read_iterator_get_column_type,   odb_read_iterator_get_column_name,         odb_read_iterator_get_bitfield,
                     odb_read_iterator_get_next_row,      odb_read_iterator_get_row_buffer_size_doubles, odb_read_iterator_get_missing_value};
const Kind SELECT = {odb_select_iterator_get_no_of_columns, odb_select_iterator_get_column_size_doubles, odb_select_iterator_get_column_offset,
                     odb_select_iterator_get_column_type,   odb_select_iterator_get_column_name,         odb_select_iterator_get_bitfield,
                     odb_select_iterator_get_next_row,      odb_select_iterator_get_row_buffer_size_doubles, odb_select_iterator_get_missing_value};

json columns(const Kind& k, void* it) {
    json a = json::array();
    int n = -1, w = -1;
    int rc = k.ncols(it, &n);
    rc |= k.width(it, &w);
    for (int i = 0; i < n; ++i) {
        int size = -1, off = -1, type = -1, len = -1;
        char* name = nullptr;
        double mv  = 0;
        rc |= k.size(it, i, &size) | k.offset(it, i, &off) | k.type(it, i, &type) | k.name(it, i, &name, &len) | k.missing(it, i, &mv);
        json c = {{"size", size}, {"offset", off}, {"type", type}, {"name", std::string(name, len)}, {"missing", toHex(&mv, 8)}};
        if (type == 4) {
            char *bn = nullptr, *bs = nullptr;
            int nn = -1, ns = -1;
            rc |= k.bits(it, i, &bn, &bs, &nn, &ns);
            c["names"] = std::string(bn, nn);
            c["sizes"] = std::string(bs, ns);
            c["ended"] = bn[nn] == 0 && bs[ns] == 0;
            free(bn);
            free(bs);
        }
        a.push_back(c);
    }
    return {{"rc", rc}, {"n", n}, {"width", w}, {"cols", a}};
}

json row(const Kind& k, void* it, const json& s) {
    size_t cap = s["cap"];
    std::vector<double> data(cap + 2);
    memset(data.data(), FILL, 8 * data.size());
    int newds = -7;
    int rc    = k.row(it, s["count"], data.data(), &newds);
    return {{"rc", rc}, {"newds", newds}, {"data", toHex(data.data(), 8 * data.size())}};
}

}  // namespace

OP(legacy) {
    std::map<std::string, Obj> objs;
    json out = json::array();
    for (auto& s : rq["script"]) {
        std::string fn = s["fn"], id = s.value("it", "");
        json o;
        try {
            int err = -7;
            const Kind& k = fn[0] == 's' ? SELECT : READ;
            if (fn == "ropen") {
                Obj x;
                x.owner = s.value("old", false) ? odb_create("", &err) : odb_read_create("", &err);
                o["made"] = err;
                err       = -7;
                x.it      = odb_create_read_iterator(x.owner, s["path"].get<std::string>().c_str(), &err);
                o["err"]  = err;
                o["null"] = x.it == nullptr;
                if (x.it)
                    objs[id] = x;
                else
                    odb_destroy(x.owner);
            }
            else if (fn == "sopen") {
                Obj x;
                x.owner   = odb_select_create("", &err);
                o["made"] = err;
                err       = -7;
                std::string sql = s["sql"];
                objs[id]        = x;
                if (s.contains("path"))
                    x.it = odb_create_select_iterator_from_file(x.owner, sql.c_str(), s["path"].get<std::string>().c_str(), &err);
                else
                    x.it = odb_create_select_iterator(x.owner, sql.c_str(), &err);
                o["err"]  = err;
                o["null"] = x.it == nullptr;
                objs[id]  = x;
                if (!x.it) {
                    odb_select_destroy(x.owner);
                    objs.erase(id);
                }
            }
            else if (fn == "wopen") {
                Obj x;
                x.owner   = odb_writer_create("", &err);
                o["made"] = err;
                err       = -7;
                std::string p = s["path"];
                x.it      = s["append"].get<bool>() ? odb_create_append_iterator(x.owner, p.c_str(), &err) : odb_create_write_iterator(x.owner, p.c_str(), &err);
                o["err"]  = err;
                o["null"] = x.it == nullptr;
                objs[id]  = x;
            }
            else if (fn == "rnext" || fn == "snext")
                o = row(k, objs.at(id).it, s);
            else if (fn == "rcols" || fn == "scols")
                o = columns(k, objs.at(id).it);
            else if (fn == "rmissing" || fn == "smissing") {
                double v;
                o["rc"] = k.missing(objs.at(id).it, s["i"], &v);
                o["v"]  = toHex(&v, 8);
            }
            else if (fn == "rclose") {
                o["rc"] = odb_read_iterator_destroy(objs.at(id).it) | odb_read_destroy(objs.at(id).owner);
                objs.erase(id);
            }
            else if (fn == "sclose") {
                o["rc"] = odb_select_iterator_destroy(objs.at(id).it) | odb_select_destroy(objs.at(id).owner);
                objs.erase(id);
            }
            else if (fn == "wclose") {
                o["rc"] = odb_write_iterator_destroy(objs.at(id).it) | odb_writer_destroy(objs.at(id).owner);
                objs.erase(id);
            }
            else if (fn == "wcolumns")
                o["rc"] = odb_write_iterator_set_no_of_columns(objs.at(id).it, s["n"]);
            else if (fn == "wcolumn") {
                std::string name = s["name"];
                if (s.contains("names"))
                    o["rc"] = odb_write_iterator_set_bitfield(objs.at(id).it, s["i"], s["type"], name.c_str(), s["names"].get<std::string>().c_str(),
                                                              s["sizes"].get<std::string>().c_str());
                else
                    o["rc"] = odb_write_iterator_set_column(objs.at(id).it, s["i"], s["type"], name.c_str());
            }
            else if (fn == "wsize")
                o["rc"] = odb_write_iterator_set_column_size_doubles(objs.at(id).it, s["i"], s["size"]);
            else if (fn == "wmissing") {
                auto b = fromHex(s["hex"]);
                double v;
                memcpy(&v, b.data(), 8);
                o["rc"] = odb_write_iterator_set_missing_value(objs.at(id).it, s["i"], v);
            }
            else if (fn == "wheader")
                o["rc"] = odb_write_iterator_write_header(objs.at(id).it);
            else if (fn == "winfo") {
                int w = -1, rc = odb_write_iterator_get_row_buffer_size_doubles(objs.at(id).it, &w);
                json offs = json::array();
                for (int i = 0; i < s["n"].get<int>(); ++i) {
                    int off = -1;
                    rc |= odb_write_iterator_get_column_offset(objs.at(id).it, i, &off);
                    offs.push_back(off);
                }
                o = {{"rc", rc}, {"width", w}, {"offsets", offs}};
            }
            else if (fn == "wrow") {
                auto b = fromHex(s["hex"]);
                std::vector<double> data(b.size() / 8);
                memcpy(data.data(), b.data(), b.size());
                o["rc"]   = odb_write_iterator_set_next_row(objs.at(id).it, data.data(), s["count"]);
                o["kept"] = b.empty() || memcmp(data.data(), b.data(), b.size()) == 0;
            }
            else if (fn == "count")
                o["n"] = odb_count(s["path"].get<std::string>().c_str());
            else if (fn == "blocks") {
                size_t n = 0;
                off_t* offs;
                size_t* sizes;
                o["rc"] = get_blocks_offsets(s["path"].get<std::string>().c_str(), &n, &offs, &sizes);
                json a  = json::array();
                for (size_t i = 0; i < n; ++i)
                    a.push_back({offs[i], sizes[i]});
                o["blocks"] = a;
                o["rc"]     = o["rc"].get<int>() | release_blocks_offsets(&offs) | release_blocks_sizes(&sizes);
                o["null"]   = offs == nullptr && sizes == nullptr;
            }
            else
                o["unknown"] = fn;
        }
        catch (std::exception& e) {
            o["exc"] = e.what();
        }
        out.push_back(o);
    }
    return {{"out", out}};
}
