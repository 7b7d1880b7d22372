// Row iterators (Reader, Select), frame filtering, spans, and table navigation.
#include "driver.h"

#include <cstring>
#include <memory>

#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "odc/Comparator.h"
#include "odc/RowsCounter.h"
#include "odc/Reader.h"
#include "odc/Select.h"
#include "odc/api/ColumnInfo.h"
#include "odc/api/Odb.h"
#include "odc/core/MetaData.h"
#include "odc/core/TablesReader.h"

#include "iohandles.h"

namespace {

json mdJson(const odc::core::MetaData& md) {
    json a = json::array();
    for (auto* c : md) {
        double mv = c->missingValue();
        json bits = json::array();
        if (c->type() == odc::api::BITFIELD) {
            auto& b = c->bitfieldDef();
            for (size_t i = 0; i < b.first.size(); ++i)
                bits.push_back({b.first[i], b.second[i]});
        }
        a.push_back({{"name", c->name()},
                     {"type", int(c->type())},
                     {"doubles", c->dataSizeDoubles()},
                     {"missing", toHex(&mv, 8)},
                     {"bits", bits}});
    }
    return a;
}

template <typename ROW>
json rowJson(ROW& row, json* miss) {
    json a = json::array();
    for (size_t i = 0; i < row.columns().size(); ++i) {
        a.push_back(toHex(&row.data(i), 8 * row.dataSizeDoubles(i)));
        if (miss)
            miss->push_back(row.isMissing(i));
    }
    return a;
}

std::unique_ptr<eckit::DataHandle> source(const json& rq, std::vector<char>& bytes) {
    std::string how = rq.value("open", "path");
    if (how == "mem") {
        bytes = fromHex(rq["hex"]);
        return std::unique_ptr<eckit::DataHandle>(new eckit::MemoryHandle(bytes.data(), bytes.size()));
    }
    return std::unique_ptr<eckit::DataHandle>(new eckit::FileHandle(rq["path"].get<std::string>()));
}

}  // namespace

OP(iter) {
    json r;
    json ds  = json::array();
    long max = rq.value("max_rows", 1L << 40);
    try {
        odc::Reader reader(eckit::PathName(rq["path"].get<std::string>()));
        auto it  = reader.begin();
        auto end = reader.end();
        long n   = 0;
        for (; it != end && n < max; ++it, ++n) {
            if (it->isNewDataset() || ds.empty()) {
                json props = json::array();
                for (auto& kv : it->properties())
                    props.push_back({kv.first, kv.second});
                ds.push_back({{"cols", mdJson(it->columns())},
                              {"newds", it->isNewDataset()},
                              {"props", props},
                              {"rows", json::array()},
                              {"miss", json::array()}});
            }
            json m = json::array();
            ds.back()["rows"].push_back(rowJson(*it, &m));
            ds.back()["miss"].push_back(m);
        }
        r["rc"] = 0;
    }
    catch (std::exception& e) {
        r["rc"]  = 2;
        r["err"] = e.what();
    }
    r["datasets"] = ds;
    return r;
}

// Several iterators over the same Reader (or over several Readers of the same file), stepped in a given order
OP(iters) {
    json r;
    json out = json::array();
    try {
        std::vector<std::unique_ptr<odc::Reader>> readers;
        std::map<int, std::unique_ptr<odc::Reader::iterator>> its;
        std::map<int, std::unique_ptr<odc::Reader::iterator>> ends;
        for (auto& a : rq["script"]) {
            std::string act = a["act"];
            json o          = {{"act", act}};
            try {
                if (act == "open") {
                    readers.emplace_back(new odc::Reader(eckit::PathName(a["path"].get<std::string>())));
                }
                else if (act == "begin") {
                    auto& rd = *readers.at(a["reader"].get<int>());
                    int id   = a["it"];
                    its[id].reset(new odc::Reader::iterator(rd.begin()));
                    ends[id].reset(new odc::Reader::iterator(rd.end()));
                }
                else if (act == "next") {
                    ++*its.at(a["it"].get<int>());
                }
                else if (act == "copy") {
                    its[a["it"].get<int>()].reset(new odc::Reader::iterator(*its.at(a["from"].get<int>())));
                    ends[a["it"].get<int>()].reset(new odc::Reader::iterator(*ends.at(a["from"].get<int>())));
                }
                else if (act == "drop") {
                    its.erase(a["it"].get<int>());
                    ends.erase(a["it"].get<int>());
                }
                if (a.contains("it") && act != "drop") {
                    int id    = a["it"];
                    auto& it  = *its.at(id);
                    bool more = it != *ends.at(id);
                    o["more"] = more;
                    if (more) {
                        o["row"]   = rowJson(*it, nullptr);
                        o["newds"] = it->isNewDataset();
                        json names = json::array();
                        for (auto* c : it->columns())
                            names.push_back(c->name());
                        o["cols"] = names;
                    }
                }
            }
            catch (std::exception& e) {
                o["err"] = e.what();
            }
            out.push_back(o);
        }
        r["rc"] = 0;
    }
    catch (std::exception& e) {
        r["rc"]  = 2;
        r["err"] = e.what();
    }
    r["out"] = out;
    return r;
}

OP(select) {
    json r;
    json rows = json::array(), miss = json::array(), nds = json::array();
    try {
        std::string sql = rq["sql"];
        bool own        = rq.value("own", true);
        std::unique_ptr<odc::Select> sel;
        std::vector<char> bytes;
        std::unique_ptr<eckit::DataHandle> dh;
        if (rq.contains("path") && rq.value("open", "path") == "path")
            sel.reset(new odc::Select(sql, eckit::PathName(rq["path"].get<std::string>()), own));
        else if (rq.contains("hex") || rq.value("open", "") == "dh") {
            dh = source(rq, bytes);
            dh->openForRead();
            sel.reset(new odc::Select(sql, *dh, own));
        }
        else
            sel.reset(new odc::Select(sql, own));
        auto it    = sel->begin();
        auto end   = sel->end();
        json sizes = json::array();
        for (; it != end; ++it) {
            if (rows.empty()) {
                r["cols"] = mdJson(it->columns());
            }
            json m = json::array();
            json a = json::array();
            for (size_t i = 0; i < it->columns().size(); ++i) {
                a.push_back(toHex(&it->data(i), 8 * it->dataSizeDoubles(i)));
                m.push_back(it->isMissing(i));
            }
            rows.push_back(a);
            miss.push_back(m);
            nds.push_back(it->isNewDataset());
        }
        r["rc"] = 0;
    }
    catch (std::exception& e) {
        r["rc"]  = 2;
        r["err"] = e.what();
    }
    r["rows"]  = rows;
    r["miss"]  = miss;
    r["newds"] = nds;
    return r;
}

OP(apifilter) {
    json r;
    try {
        std::vector<char> bytes;
        auto in = source(rq, bytes);
        eckit::FileHandle out(rq["out"].get<std::string>(), true);
        std::string sql = rq["sql"];
        if (!rq.value("out_open", false)) {
            r["n"] = odc::api::filter(sql, *in, out);
        }
        else {
            out.openForWrite(0);
            r["n"] = odc::api::filter(sql, *in, out);
            out.close();
        }
        r["rc"] = 0;
    }
    catch (std::exception& e) {
        r["rc"]  = 2;
        r["err"] = e.what();
    }
    return r;
}

OP(framefilter) {
    json r;
    json frames = json::array();
    try {
        std::vector<char> bytes;
        auto dh = source(rq, bytes);
        dh->openForRead();
        odc::api::Reader reader(*dh, rq.value("agg", false), rq.value("max", -1L));
        std::string sql = rq["sql"];
        while (true) {
            odc::api::Frame f = reader.next();
            if (!f)
                break;
            json j;
            try {
                odc::api::Frame g = f.filter(sql);
                j["ok"]           = bool(g);
                if (g) {
                    j["rows"]   = g.rowCount();
                    json cols   = json::array();
                    json data   = json::array();
                    std::vector<std::string> names;
                    std::vector<odc::api::StridedData> fac;
                    std::vector<std::vector<char>> st;
                    for (auto& c : g.columnInfo()) {
                        json bits = json::array();
                        for (auto& b : c.bitfield)
                            bits.push_back({b.name, b.offset, b.size});
                        cols.push_back({{"name", c.name}, {"type", int(c.type)}, {"size", c.decodedSize}, {"bits", bits}});
                        names.push_back(c.name);
                        st.emplace_back(c.decodedSize * (g.rowCount() + 1));
                    }
                    size_t i = 0;
                    for (auto& c : g.columnInfo()) {
                        fac.emplace_back(st[i].data(), g.rowCount(), c.decodedSize, c.decodedSize);
                        ++i;
                    }
                    odc::api::Decoder d(names, fac);
                    d.decode(g, 1);
                    i = 0;
                    for (auto& c : g.columnInfo()) {
                        data.push_back(toHex(st[i].data(), c.decodedSize * g.rowCount()));
                        ++i;
                    }
                    j["cols"] = cols;
                    j["data"] = data;
                }
            }
            catch (std::exception& e) {
                j["err"] = e.what();
            }
            frames.push_back(j);
        }
        r["rc"] = 0;
    }
    catch (std::exception& e) {
        r["rc"]  = 2;
        r["err"] = e.what();
    }
    r["frames"] = frames;
    return r;
}

namespace {
struct Visit : odc::api::SpanVisitor {
    json out = json::object();
    void operator()(const std::string& c, const std::set<long>& v) override {
        json a = json::array();
        for (long x : v)
            a.push_back(x);
        out[c] = {{"t", "int"}, {"v", a}};
    }
    void operator()(const std::string& c, const std::set<double>& v) override {
        json a = json::array();
        for (double x : v)
            a.push_back(toHex(&x, 8));
        out[c] = {{"t", "dbl"}, {"v", a}};
    }
    void operator()(const std::string& c, const std::set<std::string>& v) override {
        json a = json::array();
        for (auto& x : v)
            a.push_back(toHex(x.data(), x.size()));
        out[c] = {{"t", "str"}, {"v", a}};
    }
};
}  // namespace

OP(span) {
    json r;
    json frames = json::array();
    try {
        std::vector<char> bytes;
        auto dh = source(rq, bytes);
        dh->openForRead();
        odc::api::Reader reader(*dh, rq.value("agg", false), rq.value("max", -1L));
        std::vector<std::string> cols = rq["cols"];
        while (true) {
            odc::api::Frame f = reader.next();
            if (!f)
                break;
            json j;
            try {
                auto s = f.span(cols, rq.value("only_constant", false));
                Visit v;
                s.visit(v);
                j["values"] = v.out;
                j["offset"] = long(s.offset());
                j["length"] = (long long)(s.length());
            }
            catch (std::exception& e) {
                j["err"] = e.what();
            }
            frames.push_back(j);
        }
        r["rc"] = 0;
    }
    catch (std::exception& e) {
        r["rc"]  = 2;
        r["err"] = e.what();
    }
    r["frames"] = frames;
    return r;
}

// Independent navigators over one TablesReader
OP(tables) {
    json r;
    json out = json::array();
    try {
        std::vector<char> bytes;
        auto dh = source(rq, bytes);
        dh->openForRead();
        odc::core::TablesReader reader(*dh);
        std::map<int, std::unique_ptr<odc::core::TablesReader::iterator>> its;
        auto end = reader.end();
        for (auto& a : rq["script"]) {
            std::string act = a["act"];
            int id          = a["it"];
            json o;
            try {
                if (act == "begin")
                    its[id].reset(new odc::core::TablesReader::iterator(reader.begin()));
                else if (act == "next")
                    ++*its.at(id);
                else if (act == "copy")
                    its[id].reset(new odc::core::TablesReader::iterator(*its.at(a["from"].get<int>())));
                auto& it   = *its.at(id);
                o["at_end"] = (it == end);
                if (it != end) {
                    o["offset"] = (long long)(it->startPosition());
                    o["next"]   = (long long)(it->nextPosition());
                    o["rows"]   = it->rowCount();
                    o["ncols"]  = it->columnCount();
                    auto b      = it->readEncodedData(true);
                    o["bytes"]  = b.size();
                    o["same"]   = bytes.size() >= size_t(long(it->nextPosition()))
                                      ? memcmp(b.data(), bytes.data() + long(it->startPosition()), b.size()) == 0
                                      : false;
                }
            }
            catch (std::exception& e) {
                o["err"] = e.what();
            }
            out.push_back(o);
        }
        r["rc"] = 0;
    }
    catch (std::exception& e) {
        r["rc"]  = 2;
        r["err"] = e.what();
    }
    r["out"] = out;
    return r;
}

OP(rowcount) {
    json r;
    try {
        eckit::PathName p(rq["path"].get<std::string>());
        r["n"]      = (long long)odc::RowsCounter::fastRowCount(p);
    }
    catch (std::exception& e) {
        r["err"] = e.what();
    }
    return r;
}

// Comparisons by one object: pairs of paths; how path | dh | iter
OP(compare) {
    json r;
    bool nanok = rq.value("nanok", false);
    if (nanok)
        setenv("odc_NAN_IS_OK", "1", 1);
    odc::Comparator c(true);
    unsetenv("odc_NAN_IS_OK");
    std::vector<std::string> exct = rq["exct"], exc = rq["exc"];
    r["out"]          = json::array();
    std::string how   = rq["how"];
    for (const auto& pr : rq["pairs"]) {
        eckit::PathName p(pr[0].get<std::string>()), q(pr[1].get<std::string>());
        try {
            if (how == "path") {
                if (exct.empty() && exc.empty())
                    c.compare(p, q);
                else
                    c.compare(p, q, exct, exc);
            }
            else if (how == "dh") {
                eckit::FileHandle a{std::string(p)}, b{std::string(q)};
                a.openForRead();
                b.openForRead();
                c.compare(a, b);
            }
            else {
                odc::Reader a{std::string(p)}, b{std::string(q)};
                odc::Reader::iterator i = a.begin(), ie = a.end(), j = b.begin(), je = b.end();
                c.compare(i, ie, j, je, "a", "b", exct, exc);
            }
            r["out"].push_back("");
        }
        catch (std::exception& e) {
            r["out"].push_back(std::string("x") + e.what());
        }
    }
    return r;
}

// Import of a text: via string | handle | stream; from a source of short reads which may throw after some bytes
struct TextHandle : public SourceHandle {
    long throwAt;
    TextHandle(MemSource& k, long t) : SourceHandle(k, false), throwAt(t) {}
    long read(void* p, long n) override {
        if (throwAt >= 0) {
            if (long(s.pos) >= throwAt)
                throw eckit::ReadError("source failed", Here());
            n = std::min(n, throwAt - long(s.pos));
        }
        return SourceHandle::read(p, n);
    }
};

OP(import) {
    json r;
    std::vector<char> bytes = fromHex(rq["hex"]);
    MemSink sink(rq.value("limit", -1L), rq.value("sink_chunk", -1L), rq.value("fmode", std::string("short")));
    try {
        SinkHandle out(sink);
        std::string via = rq["via"];
        std::string d   = rq["delimiter"];
        std::string text(bytes.begin(), bytes.end());
        if (via == "string") {
            r["n"] = odc::api::odbFromCSV(text, out, d);
        }
        else if (via == "stream") {
            std::istringstream is(text);
            r["n"] = odc::api::odbFromCSV(is, out, d);
        }
        else {
            MemSource src(bytes, rq.value("chunk", -1L));
            TextHandle in(src, rq.value("throw_at", -1L));
            in.openForRead();
            r["n"] = odc::api::odbFromCSV(in, out, d);
        }
        r["rc"] = 0;
    }
    catch (std::exception& e) {
        r["rc"]  = 2;
        r["err"] = e.what();
    }
    r["data"] = toHex(sink.data.data(), sink.data.size());
    return r;
}
