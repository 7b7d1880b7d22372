// Scripts of calls on the objects of the C++ interface (CppApi.tla).
#include "driver.h"

#include <cstring>
#include <memory>
#include <set>

#include "eckit/exception/Exceptions.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "odc/api/ColumnInfo.h"
#include "odc/api/Odb.h"

using namespace odc::api;

namespace {

struct Collect : SpanVisitor {
    json out = json::object();
    template <typename T, typename F>
    void put(const char* kind, const std::string& c, const std::set<T>& v, F f) {
        json a = json::array();
        for (const auto& x : v)
            a.push_back(f(x));
        out[c] = {kind, a};
    }
    void operator()(const std::string& c, const std::set<long>& v) override {
        put("int", c, v, [](long x) { return json(x); });
    }
    void operator()(const std::string& c, const std::set<double>& v) override {
        put("dbl", c, v, [](double x) { return json(toHex(&x, 8)); });
    }
    void operator()(const std::string& c, const std::set<std::string>& v) override {
        put("str", c, v, [](const std::string& x) { return json(toHex(x.data(), x.size())); });
    }
};

json spanJson(const Span& s) {
    Collect c;
    s.visit(c);
    return {{"vals", c.out}, {"offset", (long long)(s.offset())}, {"length", (long long)(s.length())}};
}

struct World {
    std::map<std::string, std::vector<char>> bufs;
    std::map<std::string, std::unique_ptr<Reader>> readers;
    std::map<std::string, std::unique_ptr<Frame>> frames;
    std::map<std::string, std::unique_ptr<Span>> spans;
    // What is given by reference must outlive the frames
    std::vector<std::unique_ptr<eckit::DataHandle>> handles;

    Frame& frame(const std::string& f) {
        auto& p = frames[f];
        if (!p)
            p.reset(new Frame());
        return *p;
    }
};

json info(const Frame& f, const json& names) {
    json r;
    int threw = 0, of = 0;
    auto ask  = [&](const char* what, std::function<json()> fn) {
        ++of;
        try {
            r[what] = fn();
        }
        catch (std::exception&) {
            ++threw;
        }
    };
    r["is"] = bool(f);
    ask("rows", [&] { return json(f.rowCount()); });
    ask("ncols", [&] { return json(f.columnCount()); });
    ask("offset", [&] { return json((long long)(f.offset())); });
    ask("length", [&] { return json((long long)(f.length())); });
    ask("cols", [&] {
        json a = json::array();
        for (const auto& c : f.columnInfo())
            a.push_back({c.name, int(c.type), c.decodedSize});
        return a;
    });
    ask("has", [&] {
        json a = json::array();
        for (const auto& n : names)
            if (f.hasColumn(n.get<std::string>()))
                a.push_back(n);
        return a;
    });
    ask("props", [&] { return json(f.properties()); });
    r["threw"] = threw;
    r["of"]    = of;
    return r;
}

json decode(const Frame& f, const json& st) {
    json r;
    std::vector<std::string> cols = st[2];
    size_t n = st[3], off = st[4], m = st[5];
    long pre   = st[6];
    size_t nth = st[7], pad = st[8];
    std::vector<size_t> size(cols.size(), 8);
    if (f) {
        for (size_t i = 0; i < cols.size(); ++i)
            for (const auto& c : f.columnInfo())
                if (c.name == cols[i])
                    size[i] = c.decodedSize;
    }
    std::vector<std::vector<char>> mem;
    std::vector<StridedData> facades;
    for (size_t i = 0; i < cols.size(); ++i) {
        mem.emplace_back((size[i] + pad) * (n + 2), char(0x5a));
        facades.emplace_back(&mem.back()[size[i] + pad], n, size[i], size[i] + pad);
    }
    try {
        Decoder whole(cols, facades);
        if (pre < 0)
            whole.slice(off, m).decode(f, nth);
        else
            whole.slice(pre, n - pre).slice(off - pre, m).decode(f, nth);
        r["rc"] = 0;
    }
    catch (std::exception& e) {
        r["rc"]  = 2;
        r["err"] = e.what();
    }
    r["size"] = size;
    r["mem"]  = json::array();
    for (auto& v : mem)
        r["mem"].push_back(toHex(v.data(), v.size()));
    return r;
}

json step(World& w, const json& st) {
    const std::string op = st[0];
    json r               = {{"rc", 0}};
    if (op == "open") {
        bool agg        = st[3];
        long lim        = st[4];
        std::string how = st[5];
        std::unique_ptr<Reader> rd;
        if (how == "path") {
            rd.reset(new Reader(st[2].get<std::string>(), agg, lim));
        }
        else if (how == "own") {
            rd.reset(new Reader(new eckit::FileHandle(st[2].get<std::string>()), agg, lim));
        }
        else {
            auto& b = w.bufs[st[2].get<std::string>()];
            if (b.empty())
                b = readFile(st[2].get<std::string>());
            w.handles.emplace_back(new eckit::MemoryHandle(b.data(), b.size()));
            w.handles.back()->openForRead();
            rd.reset(new Reader(*w.handles.back(), agg, lim));
        }
        w.readers[st[1]] = std::move(rd);
    }
    else if (op == "drop") {
        w.readers.erase(st[1].get<std::string>());
    }
    else if (op == "next") {
        auto& rd = w.readers.at(st[1]);
        Frame f  = rd->next();
        if (!f)
            r["rc"] = 1;
        w.frame(st[2]) = std::move(f);
    }
    else if (op == "copy" || op == "move") {
        Frame& from = w.frame(st[2]);
        if (st[1] == "new") {
            auto& to = w.frames[st[3]];
            std::unique_ptr<Frame> made(op == "copy" ? new Frame(from) : new Frame(std::move(from)));
            to = std::move(made);
        }
        else if (op == "copy") {
            w.frame(st[3]) = from;
        }
        else {
            w.frame(st[3]) = std::move(from);
        }
    }
    else if (op == "clear") {
        w.frame(st[1]) = Frame();
    }
    else if (op == "info") {
        r["v"] = info(w.frame(st[1]), st[2]);
    }
    else if (op == "bytes") {
        eckit::Buffer b = w.frame(st[1]).encodedData();
        r["v"]          = toHex(b.data(), b.size());
    }
    else if (op == "filter") {
        Frame& from = w.frame(st[1]);
        Frame g     = from.filter(st[3].get<std::string>());
        r["v"]      = bool(g);
        w.frame(st[2]) = std::move(g);
    }
    else if (op == "span") {
        Span s          = w.frame(st[1]).span(st[3].get<std::vector<std::string>>(), st[4].get<bool>());
        r["v"]          = spanJson(s);
        auto& to        = w.spans[st[2]];
        if (to)
            *to = std::move(s);
        else
            to.reset(new Span(std::move(s)));
    }
    else if (op == "movespan") {
        auto& from = w.spans.at(st[2]);
        auto& to   = w.spans[st[3]];
        if (st[1] == "new" || !to) {
            std::unique_ptr<Span> made(new Span(std::move(*from)));
            to = std::move(made);
        }
        else {
            *to = std::move(*from);
        }
        from.reset();
        r["v"] = spanJson(*to);
    }
    else if (op == "same") {
        r["v"] = (*w.spans.at(st[1]) == *w.spans.at(st[2]));
    }
    else if (op == "values") {
        const Span& s       = *w.spans.at(st[1]);
        const std::string c = st[2];
        Collect o;
        if (st[3] == "int")
            o(c, s.getIntegerValues(c));
        else if (st[3] == "dbl")
            o(c, s.getRealValues(c));
        else
            o(c, s.getStringValues(c));
        r["v"] = o.out[c];
    }
    else if (op == "decode") {
        r = decode(w.frame(st[1]), st);
    }
    else if (op == "ints") {
        Settings::treatIntegersAsDoubles(!st[1].get<bool>());
    }
    else {
        throw std::runtime_error("unknown step " + op);
    }
    return r;
}

}  // namespace

OP(cppapi) {
    World w;
    json out = json::array();
    for (const auto& st : rq["script"]) {
        json r;
        try {
            r = step(w, st);
        }
        catch (std::exception& e) {
            r = {{"rc", 2}, {"err", e.what()}};
        }
        out.push_back(r);
    }
    // frames outlive their readers
    w.readers.clear();
    w.frames.clear();
    return {{"out", out}};
}
