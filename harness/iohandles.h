#pragma once
#include <cstring>
#include <string>
#include <vector>
#include "eckit/io/DataHandle.h"
#include "eckit/exception/Exceptions.h"

// Where encoded bytes go: optionally capacity-limited (a full disk) and chunked (short writes reported by return
// value). fmode: "short" = accept what fits and return that count; "err" = return -1; "zero" = return 0;
// "throw" = throw from the handle; "once" = as "short", but for one write only.
struct MemSink {
    std::vector<char> data;
    long limit;
    long chunk;
    std::string fmode;
    long nwrites = 0;
    MemSink(long l = -1, long c = -1, const std::string& m = "short") : limit(l), chunk(c), fmode(m) {}
    long write(const void* p, long n) {
        ++nwrites;
        long room = limit < 0 ? n : std::max(0L, limit - long(data.size()));
        long k    = n;
        if (chunk > 0)
            k = std::min(k, chunk);
        if (fmode == "once" && std::min(k, room) < n) {  // this write only
            k     = std::min(k, room);
            limit = -1;
            chunk = -1;
        }
        else if (k > room) {
            if (fmode != "short")
                limit = data.size();  // a smaller write does not fit either
            if (fmode == "err")
                return -1;
            if (fmode == "zero")
                return 0;
            if (fmode == "throw")
                throw eckit::WriteError("sink full", Here());
            k = room;
        }
        data.insert(data.end(), static_cast<const char*>(p), static_cast<const char*>(p) + k);
        return k;
    }
    static long cwrite(void* ctx, const void* p, long n) { return static_cast<MemSink*>(ctx)->write(p, n); }
};

struct SinkHandle : public eckit::DataHandle {
    MemSink& s;
    explicit SinkHandle(MemSink& k) : s(k) {}
    void print(std::ostream& o) const override { o << "SinkHandle"; }
    eckit::Length openForRead() override { NOTIMP; }
    void openForWrite(const eckit::Length&) override {}
    void openForAppend(const eckit::Length&) override {}
    long read(void*, long) override { NOTIMP; }
    long write(const void* p, long n) override { return s.write(p, n); }
    eckit::Offset position() override { return s.data.size(); }
    void close() override {}
};

struct MemSource {
    const std::vector<char>& data;
    long chunk;
    size_t pos = 0;
    MemSource(const std::vector<char>& d, long c) : data(d), chunk(c) {}
    long read(void* p, long n) {
        long k = std::min(n, long(data.size() - pos));
        if (chunk > 0)
            k = std::min(k, chunk);
        memcpy(p, data.data() + pos, k);
        pos += k;
        return k;
    }
    static long cread(void* ctx, void* p, long n) { return static_cast<MemSource*>(ctx)->read(p, n); }
};

struct SourceHandle : public eckit::DataHandle {
    MemSource& s;
    bool seekable;
    SourceHandle(MemSource& k, bool sk) : s(k), seekable(sk) {}
    void print(std::ostream& o) const override { o << "SourceHandle"; }
    eckit::Length openForRead() override {
        s.pos = 0;
        return seekable ? long(s.data.size()) : 0;
    }
    void openForWrite(const eckit::Length&) override { NOTIMP; }
    void openForAppend(const eckit::Length&) override { NOTIMP; }
    long read(void* p, long n) override { return s.read(p, n); }
    long write(const void*, long) override { NOTIMP; }
    eckit::Offset position() override { return s.pos; }
    eckit::Offset seek(const eckit::Offset& o) override {
        if (!seekable)
            NOTIMP;
        s.pos = std::min<size_t>(size_t((long long)o), s.data.size());
        return s.pos;
    }
    bool canSeek() const override { return seekable; }
    eckit::Length estimate() override { return seekable ? long(s.data.size()) : 0; }
    eckit::Length size() override { return long(s.data.size()); }
    void close() override {}
};
