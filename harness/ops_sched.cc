// Threads on a shared data handle. Every operation on the underlying handle can be held until a scheduler grants it, so
// that a schedule (which of the waiting threads goes next) can be imposed on the real code.
#include "driver.h"

#include <algorithm>
#include <array>
#include <atomic>
#include <condition_variable>
#include <cstring>
#include <memory>
#include <mutex>
#include <thread>

#include "eckit/exception/Exceptions.h"
#include "odc/api/ColumnInfo.h"
#include "odc/api/Odb.h"
#include "odc/core/ThreadSharedDataHandle.h"

using namespace odc::api;

namespace {

thread_local int tidTls = -1;

class Gate {
public:

    std::mutex m;
    std::condition_variable cv;
    bool on = false, stop = false;
    std::vector<int> waiting;
    int granted = -1, last = -1;
    size_t inside = 0, overlaps = 0, ops = 0, switches = 0;
    std::vector<long> choices;
    size_t ci = 0;
    long settle = 200;
    int nextTid = 0;
    std::thread sched;

    void start(const json& rq) {
        if (rq.contains("choices"))
            choices = rq["choices"].get<std::vector<long>>();
        settle = rq.value("settle", 200L);
        stop   = false;
        on     = true;
        sched  = std::thread([this] { loop(); });
    }
    void finish() {
        if (!on)
            return;
        {
            std::lock_guard<std::mutex> l(m);
            stop = true;
            on   = false;
            cv.notify_all();
        }
        sched.join();
    }
    void loop() {
        std::unique_lock<std::mutex> l(m);
        while (true) {
            cv.wait(l, [this] { return stop || (!waiting.empty() && inside == 0 && granted == -1); });
            if (stop)
                return;
            // Others may be about to arrive
            size_t n = 0;
            while (n != waiting.size() && !stop) {
                n = waiting.size();
                cv.wait_for(l, std::chrono::microseconds(settle));
            }
            if (stop)
                return;
            if (waiting.size() > 1)
                ++overlaps;
            std::vector<int> w(waiting);
            std::sort(w.begin(), w.end());
            long c  = choices.empty() ? 0 : choices[ci++ % choices.size()];
            granted = w[size_t(c) % w.size()];
            cv.notify_all();
        }
    }
    void enter() {
        std::unique_lock<std::mutex> l(m);
        if (!on)
            return;
        if (tidTls < 0)
            tidTls = nextTid++;
        int t = tidTls;
        waiting.push_back(t);
        cv.notify_all();
        cv.wait(l, [&] { return granted == t || stop; });
        for (size_t i = 0; i < waiting.size(); ++i)
            if (waiting[i] == t) {
                waiting.erase(waiting.begin() + i);
                break;
            }
        granted = -1;
        ++inside;
        ++ops;
        if (last != t)
            ++switches;
        last = t;
    }
    void leave() {
        std::lock_guard<std::mutex> l(m);
        if (inside)
            --inside;
        cv.notify_all();
    }
};

struct Pass {
    Gate& g;
    bool on;
    explicit Pass(Gate& k) : g(k), on(k.on) {
        if (on)
            g.enter();
    }
    ~Pass() {
        if (on)
            g.leave();
    }
};

struct GatedHandle : public eckit::DataHandle {
    const std::vector<char>& data;
    Gate& gate;
    mutable long pos = 0;
    long reads      = 0;
    std::vector<long> failAt;  // numbers (from 1) of the reads, while gated, that fail
    std::string fmode = "throw";
    std::mutex lm;
    json log = json::array();
    GatedHandle(const std::vector<char>& d, Gate& g) : data(d), gate(g) {}
    void note(const char* op, long a, long b) {
        if (!gate.on)
            return;
        std::lock_guard<std::mutex> l(lm);
        log.push_back({tidTls, op, a, b});
    }
    void print(std::ostream& o) const override { o << "GatedHandle"; }
    eckit::Length openForRead() override {
        pos = 0;
        return long(data.size());
    }
    void openForWrite(const eckit::Length&) override { NOTIMP; }
    void openForAppend(const eckit::Length&) override { NOTIMP; }
    long read(void* p, long n) override {
        Pass k(gate);
        bool fail = false;
        if (gate.on) {
            ++reads;
            for (long f : failAt)
                fail = fail || f == reads;
        }
        if (fail) {
            note("fail", pos, n);
            if (fmode == "throw")
                throw eckit::ReadError("injected", Here());
            n = n / 2;
        }
        long m = std::max(0L, std::min(n, long(data.size()) - pos));
        memcpy(p, data.data() + pos, m);
        note("read", pos, m);
        pos += m;
        return m;
    }
    long write(const void*, long) override { NOTIMP; }
    eckit::Offset position() override {
        Pass k(gate);
        return pos;
    }
    eckit::Offset seek(const eckit::Offset& o) override {
        Pass k(gate);
        pos = std::min<long>((long long)o, data.size());
        note("seek", pos, 0);
        return pos;
    }
    bool canSeek() const override { return true; }
    eckit::Length estimate() override { return long(data.size()); }
    eckit::Length size() override { return long(data.size()); }
    void close() override {}
};

struct Target {
    std::vector<std::string> names;
    std::vector<std::vector<char>> mem;
    std::vector<StridedData> sd;
    size_t nrows = 0;
    explicit Target(const Frame& f) {
        nrows = f.rowCount();
        for (const auto& c : f.columnInfo()) {
            names.push_back(c.name);
            mem.emplace_back(c.decodedSize * nrows + 8, char(0xa5));
        }
        size_t i = 0;
        for (const auto& c : f.columnInfo()) {
            sd.emplace_back(mem[i].data(), nrows, c.decodedSize, c.decodedSize);
            ++i;
        }
    }
    json out(const Frame& f) {
        json d   = json::array();
        size_t i = 0;
        for (const auto& c : f.columnInfo()) {
            d.push_back(toHex(mem[i].data(), c.decodedSize * nrows));
            ++i;
        }
        return d;
    }
};

}  // namespace

// Copies of one ThreadSharedDataHandle, each with a script of [position or -1, length] reads
OP(shared) {
    auto data = fromHex(rq["hex"].get<std::string>());
    Gate gate;
    auto* gh = new GatedHandle(data, gate);
    if (rq.contains("fail"))
        gh->failAt = rq["fail"].get<std::vector<long>>();
    gh->fmode = rq.value("fmode", "throw");
    std::unique_ptr<GatedHandle> own;
    json r;
    {
        std::unique_ptr<odc::core::ThreadSharedDataHandle> first;
        if (rq.value("owned", true)) {
            first.reset(new odc::core::ThreadSharedDataHandle(gh));
        }
        else {
            own.reset(gh);
            gh->openForRead();
            first.reset(new odc::core::ThreadSharedDataHandle(*gh));
        }
        std::vector<std::vector<std::pair<long, long>>> scripts;
        for (const auto& w : rq["workers"]) {
            scripts.emplace_back();
            for (const auto& s : w)
                scripts.back().emplace_back(s[0].get<long>(), s[1].get<long>());
        }
        size_t n = scripts.size();
        std::vector<odc::core::ThreadSharedDataHandle> h(n, *first);
        if (rq.value("drop_first", false))
            first.reset();
        // only plain memory is written by the threads; results are put together afterwards
        struct Res {
            std::vector<char> b;
            long n, p;
            std::string exc;
        };
        std::vector<std::vector<Res>> res(n);
        auto step = [&](size_t w, size_t i) {
            auto s = scripts[w][i];
            Res k;
            k.n = k.p = -2;
            try {
                if (s.first >= 0)
                    h[w].seek(s.first);
                k.b.assign(s.second, char(0xa5));
                k.n = h[w].read(k.b.data(), s.second);
                k.p = (long long)h[w].position();
            }
            catch (std::exception& e) {
                k.exc = e.what();
            }
            res[w].push_back(std::move(k));
        };
        if (rq.contains("turns")) {
            gate.settle = 0;
            std::vector<size_t> at(n, 0);
            for (long w : rq["turns"].get<std::vector<long>>())
                step(w, at[w]++);
        }
        else {
            gate.start(rq);
            std::vector<std::thread> t;
            for (size_t w = 0; w < n; ++w)
                t.emplace_back([&, w] {
                    tidTls = int(w);
                    for (size_t i = 0; i < scripts[w].size(); ++i)
                        step(w, i);
                });
            for (auto& x : t)
                x.join();
            gate.finish();
        }
        r["workers"] = json::array();
        for (auto& w : res) {
            json o = json::array();
            for (auto& k : w) {
                if (!k.exc.empty())
                    o.push_back({{"exc", k.exc}});
                else
                    o.push_back({{"n", k.n}, {"p", k.p}, {"hex", toHex(k.b.data(), k.n > 0 ? k.n : 0)}});
            }
            r["workers"].push_back(o);
        }
        r["log"]      = gh->log;
        r["overlaps"] = gate.overlaps;
        r["ops"]      = gate.ops;
        r["switches"] = gate.switches;
    }
    return r;
}

// mode "threads": every frame is decoded with nthreads; mode "pipeline": every frame is decoded in its own thread while the
// reader moves on to the next ones (in flight at once: nthreads), and so are "copies" copies of it
OP(schedframe) {
    auto data = rq.contains("hex") ? fromHex(rq["hex"].get<std::string>()) : readFile(rq["path"].get<std::string>());
    Gate gate;
    GatedHandle gh(data, gate);
    gh.openForRead();
    gh.fmode         = rq.value("fmode", "throw");
    size_t nthreads  = rq.value("nthreads", 2);
    std::string mode = rq.value("mode", "threads");
    bool gated       = rq.value("gated", true);
    json r;
    r["frames"] = json::array();
    Reader reader(gh, rq.value("agg", true), rq.value("max", -1L));
    if (rq.contains("fail"))
        gh.failAt = rq["fail"].get<std::vector<long>>();
    if (mode == "threads") {
        int guard = 0;
        while (Frame f = reader.next()) {
            if (++guard > 1000)
                break;
            json o;
            o["rows"] = f.rowCount();
            Target t(f);
            gate.nextTid = 0;
            if (gated)
                gate.start(rq);
            std::string err;
            try {
                Decoder d(t.names, t.sd);
                d.decode(f, nthreads);
            }
            catch (std::exception& e) {
                err = e.what()[0] ? e.what() : "error";
            }
            if (gated)
                gate.finish();
            if (!err.empty())
                o["err"] = err;
            o["data"] = t.out(f);
            r["frames"].push_back(o);
        }
    }
    else {
        std::vector<std::unique_ptr<Frame>> frames;
        std::vector<std::unique_ptr<Target>> targets;
        std::vector<std::string> errs(1000);
        const size_t copies = rq.value("copies", size_t(0));
        std::vector<std::thread> ts;
        std::string rerr;
        if (gated)
            gate.start(rq);
        tidTls = 1000;
        try {
            while (Frame f = reader.next()) {
                if (frames.size() >= 190)
                    break;
                frames.emplace_back(new Frame(f));
                targets.emplace_back(new Target(*frames.back()));
                size_t i = frames.size() - 1;
                if (ts.size() >= nthreads)
                    ts[ts.size() - nthreads].join();
                Frame* fp = frames[i].get();
                Target* tp = targets[i].get();
                std::string* ep = &errs[i];
                ts.emplace_back([=] {
                    tidTls = int(i);
                    std::vector<std::unique_ptr<Frame>> cf;
                    std::vector<std::unique_ptr<Target>> ct;
                    std::vector<std::string> ce(copies);
                    std::vector<std::thread> cts;
                    for (size_t k = 0; k < copies; ++k) {
                        cf.emplace_back(new Frame(*fp));
                        ct.emplace_back(new Target(*cf.back()));
                    }
                    for (size_t k = 0; k < copies; ++k) {
                        cts.emplace_back([&, k] {
                            tidTls = int(i + 200 * (k + 1));
                            try {
                                Decoder d(ct[k]->names, ct[k]->sd);
                                if (k % 2)
                                    cf[k]->span(ct[k]->names, false);
                                d.decode(*cf[k], 1);
                            }
                            catch (std::exception& e) {
                                ce[k] = std::string("copy: ") + e.what();
                            }
                        });
                    }
                    try {
                        Decoder d(tp->names, tp->sd);
                        d.decode(*fp, 1);
                    }
                    catch (std::exception& e) {
                        *ep = e.what()[0] ? e.what() : "error";
                    }
                    for (auto& t : cts)
                        t.join();
                    for (size_t k = 0; k < copies && ep->empty(); ++k) {
                        *ep = ce[k];
                        if (ep->empty() && ct[k]->out(*cf[k]) != tp->out(*fp))
                            *ep = "copy: other values " + ct[k]->out(*cf[k]).dump() + " " + tp->out(*fp).dump();
                    }
                });
            }
        }
        catch (std::exception& e) {
            rerr = e.what();
        }
        for (auto& t : ts)
            if (t.joinable())
                t.join();
        tidTls = -1;
        gate.finish();
        if (!rerr.empty())
            r["err"] = rerr;
        for (size_t i = 0; i < frames.size(); ++i) {
            json o;
            o["rows"] = frames[i]->rowCount();
            if (!errs[i].empty())
                o["err"] = errs[i];
            o["data"] = targets[i]->out(*frames[i]);
            r["frames"].push_back(o);
        }
    }
    r["log"]      = gh.log;
    r["overlaps"] = gate.overlaps;
    r["ops"]      = gate.ops;
    r["switches"] = gate.switches;
    return r;
}

#include "odc/core/TablesReader.h"

// Threads that iterate over the tables of one reader, which reads tables on demand
OP(schedtables) {
    auto once = readFile(rq["path"].get<std::string>());
    std::vector<char> data;
    for (int i = 0; i < rq.value("times", 1); ++i)
        data.insert(data.end(), once.begin(), once.end());
    Gate gate;
    GatedHandle gh(data, gate);
    gh.openForRead();
    size_t n = rq.value("nthreads", 2);
    odc::core::TablesReader reader(gh);
    auto first = reader.begin();
    std::vector<std::vector<std::array<long, 3>>> res(n);
    std::vector<std::string> errs(n);
    if (rq.value("gated", true))
        gate.start(rq);
    std::vector<std::thread> ts;
    std::atomic<size_t> here{0};
    for (size_t w = 0; w < n; ++w)
        ts.emplace_back([&, w] {
            tidTls = int(w);
            ++here;
            while (here < n) {}
            try {
                auto it  = reader.begin();
                auto end = reader.end();
                for (int guard = 0; it != end && guard < 1000; ++it, ++guard)
                    res[w].push_back({long(it->rowCount()), long((long long)it->startPosition()),
                                      long((long long)it->nextPosition())});
            }
            catch (std::exception& e) {
                errs[w] = e.what()[0] ? e.what() : "error";
            }
        });
    for (auto& t : ts)
        t.join();
    gate.finish();
    json r;
    r["threads"] = json::array();
    for (size_t w = 0; w < n; ++w) {
        json o = {{"tables", res[w]}};
        if (!errs[w].empty())
            o["err"] = errs[w];
        r["threads"].push_back(o);
    }
    r["ops"] = gate.ops;
    return r;
}
