// The row-writer interface: odc::Writer and odc::DispatchingWriter, driven operation by operation.
#include "driver.h"

#include <cstring>
#include <memory>

#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/FileHandle.h"
#include "odc/DispatchingWriter.h"
#include "odc/Reader.h"
#include "odc/Select.h"
#include "odc/Writer.h"
#include "odc/core/MetaData.h"

#include "iohandles.h"

namespace {

template <typename IT>
void setColumn(IT& it, size_t i, const json& c) {
    auto type = odc::api::ColumnType(c["type"].get<int>());
    if (c.contains("bits")) {
        eckit::sql::BitfieldDef bf;
        for (auto& b : c["bits"]) {
            bf.first.push_back(b[0].get<std::string>());
            bf.second.push_back(b[1].get<int>());
        }
        it->setBitfieldColumn(i, c["name"].get<std::string>(), type, bf);
    }
    else
        it->setColumn(i, c["name"].get<std::string>(), type);
}

template <typename IT>
void setColumns(IT& it, const json& cols, const json& order = json::array()) {
    it->setNumberOfColumns(cols.size());
    for (size_t k = 0; k < cols.size(); ++k) {
        const size_t i = order.empty() ? k : order[k].get<size_t>();
        const json& c  = cols[i];
        setColumn(it, i, c);
        if (c.contains("doubles"))
            it->columns()[i]->dataSizeDoubles(c["doubles"].get<int>());
        if (c.contains("missing")) {
            auto b = fromHex(c["missing"].get<std::string>());
            double d;
            memcpy(&d, b.data(), 8);
            it->missingValue(i, d);
        }
    }
}

template <typename IT>
void setRow(IT& it, const json& cells) {
    for (size_t i = 0; i < cells.size(); ++i) {
        if (cells[i].is_null())
            continue;
        auto b = fromHex(cells[i].get<std::string>());
        memcpy(&it->data(i), b.data(), b.size());
    }
}

}  // namespace

// script: list of {act: columns|prop|header|row|flush|resize|close|bufsize|pass1}
OP(writer) {
    json r;
    json rcs = json::array();
    MemSink sink(rq.value("limit", -1L), rq.value("chunk", -1L), rq.value("fmode", "short"));
    SinkHandle sh(sink);
    try {
        std::unique_ptr<odc::Writer<>> w;
        if (rq.contains("path"))
            w.reset(new odc::Writer<>(eckit::PathName(rq["path"].get<std::string>())));
        else
            w.reset(new odc::Writer<>(sh));
        if (rq.contains("rows_buffer"))
            w->rowsBufferSize(rq["rows_buffer"].get<long>());
        // n.b. "append": whether to append; if absent, the usual begin()
        std::unique_ptr<odc::Writer<>::iterator> pit(
            rq.contains("append") ? new odc::Writer<>::iterator(w->createWriteIterator(
                                        eckit::PathName(rq["path"].get<std::string>()), rq["append"].get<bool>()))
                                  : new odc::Writer<>::iterator(w->begin()));
        for (auto& a : rq["script"]) {
            std::string act = a["act"];
            int rc          = 0;
            try {
                auto& it = *pit;
                if (act == "columns")
                    setColumns(it, a["cols"], a.value("order", json::array()));
                else if (act == "prop")
                    (**it).property(a["key"].get<std::string>(), a["value"].get<std::string>());
                else if (act == "header")
                    it->writeHeader();
                else if (act == "row") {
                    setRow(it, a["cells"]);
                    ++it;
                }
                else if (act == "rawrow") {  // all cells at once
                    size_t width = 0;
                    for (size_t i = 0; i < it->columns().size(); ++i)
                        width += it->dataSizeDoubles(i);
                    std::vector<double> row(width);
                    for (size_t i = 0; i < a["cells"].size(); ++i) {
                        auto b = fromHex(a["cells"][i].get<std::string>());
                        memcpy(&row[it->dataOffset(i)], b.data(), b.size());
                    }
                    (**it).writeRow(row.data(), it->columns().size());
                }
                else if (act == "bufsize")
                    (**it).rowsBufferSize(a["n"].get<size_t>());
                else if (act == "column")
                    setColumn(it, a["index"].get<size_t>(), a);
                else if (act == "flush")
                    (**it).flush();
                else if (act == "resize") {
                    std::map<std::string, size_t> m;
                    for (auto& kv : a["sizes"].items())
                        m[kv.key()] = kv.value().get<int>();
                    it->flushAndResetColumnSizes(m);
                }
                else if (act == "pass1") {
                    if (a.contains("sql")) {
                        odc::Select in(a["sql"].get<std::string>(), eckit::PathName(a["path"].get<std::string>()));
                        auto b = in.begin();
                        auto e = in.end();
                        it->pass1(b, e);
                    }
                    else {
                        odc::Reader in(eckit::PathName(a["path"].get<std::string>()));
                        auto b = in.begin();
                        auto e = in.end();
                        it->pass1(b, e);
                    }
                }
                else if (act == "close")
                    it->close();
                else if (act == "sink") {  // what the sink accepts from now on
                    sink.limit = a["limit"].get<long>() < 0 ? -1 : long(sink.data.size()) + a["limit"].get<long>();
                    sink.chunk = a.value("chunk", -1L);
                }
            }
            catch (std::exception& e) {
                rc       = 2;
                r["err"] = e.what();
            }
            rcs.push_back(rc);
            if (rc && !r.contains("failed_data"))
                r["failed_data"] = toHex(sink.data.data(), sink.data.size());
            if (rc && rq.value("stop_on_error", true))
                break;
        }
        try {
            // n.b. the destructor closes, and may throw out of a destructor; close first where the script did not
            if (rq.value("final_close", true)) {
                try {
                    (*pit)->close();
                }
                catch (std::exception& e) {
                    r["close_rc"] = 2;
                    r["err"]      = e.what();
                    sink.limit    = -1;
                    sink.chunk    = -1;
                }
            }
            if (rq.contains("path") && rq.value("at_close", false)) {
                auto d        = readFile(rq["path"]);
                r["at_close"] = toHex(d.data(), d.size());
            }
            pit.reset();
        }
        catch (std::exception& e) {
            r["close_rc"] = 2;
            r["err"]      = e.what();
        }
        r["rc"] = 0;
    }
    catch (std::exception& e) {
        r["rc"]  = 2;
        r["err"] = e.what();
    }
    r["rcs"] = rcs;
    if (rq.contains("path")) {
        if (rq.value("want_data", true)) {
            auto d    = readFile(rq["path"]);
            r["data"] = toHex(d.data(), d.size());
        }
    }
    else
        r["data"] = toHex(sink.data.data(), sink.data.size());
    return r;
}

// script as above, over a DispatchingWriter {tmpl, max_open, append}
OP(dispatch) {
    json r;
    try {
        odc::DispatchingWriter w(rq["tmpl"].get<std::string>(), rq["max_open"].get<int>(), rq.value("append", false));
        {
            auto it = w.begin();
            for (auto& a : rq["script"]) {
                std::string act = a["act"];
                if (act == "columns")
                    setColumns(it, a["cols"]);
                else if (act == "header")
                    it->writeHeader();
                else if (act == "row") {
                    setRow(it, a["cells"]);
                    ++it;
                }
                else if (act == "resize") {
                    std::map<std::string, size_t> m;
                    for (auto& kv : a["sizes"].items())
                        m[kv.key()] = kv.value();
                    (**it).flushAndResetColumnSizes(m);
                }
                else if (act == "pass1") {
                    odc::Reader in(eckit::PathName(a["path"].get<std::string>()));
                    auto b = in.begin();
                    auto e = in.end();
                    it->pass1(b, e);
                }
            }
            json files = json::array();
            for (auto& p : (**it).outputFiles())
                files.push_back(std::string(p));
            r["files"] = files;
            if (rq.value("final_close", true))
                it->close();
        }
        r["rc"] = 0;
    }
    catch (std::exception& e) {
        r["rc"]  = 2;
        r["err"] = e.what();
    }
    return r;
}
