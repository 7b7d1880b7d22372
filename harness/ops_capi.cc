// An interpreter of C API call sequences: every step calls one odc_* function and records its return code and outputs.
#include "driver.h"

#include <fcntl.h>
#include <unistd.h>
#include <sys/resource.h>
#include <csignal>
#include <cstring>
#include <thread>
#include <memory>

#include "odc/api/odc.h"

#include "iohandles.h"

namespace {

struct Memory {
    std::vector<char> v;
    long width = 0, height = 0;
};

struct World {
    std::map<std::string, odc_reader_t*> r;
    std::map<std::string, odc_frame_t*> f;
    std::map<std::string, odc_decoder_t*> d;
    std::map<std::string, odc_encoder_t*> e;
    std::map<std::string, std::unique_ptr<std::vector<char>>> bufs;
    std::map<std::string, std::unique_ptr<Memory>> mem;
    std::vector<std::unique_ptr<MemSource>> sources;
    int failures = 0;
};

int g_failures = 0;
void onFailure(void* ctx, int) {
    ++*static_cast<int*>(ctx);
}

}  // namespace

OP(capi) {
    World w;
    // "null": there is no object
    w.r["null"] = nullptr;
    w.f["null"] = nullptr;
    w.d["null"] = nullptr;
    w.e["null"] = nullptr;
    g_failures  = 0;
    odc_set_failure_handler(onFailure, &g_failures);
    if (rq.contains("bufs"))
        for (auto& kv : rq["bufs"].items())
            w.bufs[kv.key()] = std::make_unique<std::vector<char>>(fromHex(kv.value().get<std::string>()));
    json out = json::array();
    bool bail = false;
    for (auto& step : rq["script"]) {
        json s = step, opt = json::object();
        if (s.back().is_object()) {
            opt = s.back();
            s.erase(s.size() - 1);
        }
        std::string fn = s[0];
        json o         = json::object();
        auto S         = [&](int i) { return s[i].get<std::string>(); };
        auto L         = [&](int i) { return s[i].get<long>(); };
        int before     = g_failures;
        int rc         = 0;
        auto F         = [&](int i) { return w.f.at(S(i)); };
        auto D         = [&](int i) { return w.d.at(S(i)); };
        auto E         = [&](int i) { return w.e.at(S(i)); };
        if (fn == "open_buffer") {
            auto& b = *w.bufs.at(S(2));
            rc      = odc_open_buffer(&w.r[S(1)], b.data(), b.size());
        }
        else if (fn == "open_path")
            rc = odc_open_path(&w.r[S(1)], S(2).c_str());
        else if (fn == "open_fd") {
            int fd = open(S(2).c_str(), O_RDONLY);
            rc     = odc_open_file_descriptor(&w.r[S(1)], fd);
            if (fd >= 0)
                close(fd);
        }
        else if (fn == "open_stream") {
            w.sources.push_back(std::make_unique<MemSource>(*w.bufs.at(S(2)), s.size() > 3 ? L(3) : -1));
            rc = odc_open_stream(&w.r[S(1)], w.sources.back().get(), MemSource::cread);
        }
        else if (fn == "close") {
            rc = odc_close(w.r.at(S(1)));
            if (rc == 0)
                w.r.erase(S(1));
        }
        else if (fn == "new_frame")
            rc = odc_new_frame(&w.f[S(1)], w.r.at(S(2)));
        else if (fn == "free_frame") {
            rc = odc_free_frame(F(1));
            if (rc == 0)
                w.f.erase(S(1));
        }
        else if (fn == "next")
            rc = odc_next_frame(F(1));
        else if (fn == "next_agg")
            rc = odc_next_frame_aggregated(F(1), L(2));
        else if (fn == "copy")
            rc = odc_copy_frame(F(1), &w.f[S(2)]);
        else if (fn == "row_count") {
            long n = -77;
            rc     = odc_frame_row_count(F(1), &n);
            o["v"] = n;
        }
        else if (fn == "col_count") {
            int n  = -77;
            rc     = odc_frame_column_count(F(1), &n);
            o["v"] = n;
        }
        else if (fn == "col_attr") {
            const char* nm = nullptr;
            int ty = -77, sz = -77, nb = -77;
            rc = odc_frame_column_attributes(F(1), L(2), &nm, &ty, &sz, &nb);
            if (!rc)
                o["v"] = {nm, ty, sz, nb};
            int rc2 = odc_frame_column_attributes(F(1), L(2), nullptr, nullptr, nullptr, nullptr);
            if (rc2 != rc)
                o["inconsistent"] = rc2;
        }
        else if (fn == "bit_attr") {
            const char* nm = nullptr;
            int of = -77, sz = -77;
            rc = odc_frame_bitfield_attributes(F(1), L(2), L(3), &nm, &of, &sz);
            if (!rc)
                o["v"] = {nm, of, sz};
        }
        else if (fn == "props_count") {
            int n  = -77;
            rc     = odc_frame_properties_count(F(1), &n);
            o["v"] = n;
        }
        else if (fn == "prop_idx") {
            const char *k = nullptr, *v = nullptr;
            rc = odc_frame_property_idx(F(1), L(2), &k, &v);
            if (!rc)
                o["v"] = {k ? k : "(null)", v ? v : "(null)"};
        }
        else if (fn == "prop") {
            const char* v = nullptr;
            rc            = odc_frame_property(F(1), S(2).c_str(), &v);
            if (v)
                o["v"] = v;
            else
                o["v"] = nullptr;
        }
        else if (fn == "new_decoder")
            rc = odc_new_decoder(&w.d[S(1)]);
        else if (fn == "free_decoder") {
            rc = odc_free_decoder(D(1));
            w.d.erase(S(1));
        }
        else if (fn == "defaults")
            rc = odc_decoder_defaults_from_frame(D(1), F(2));
        else if (fn == "set_rows")
            rc = odc_decoder_set_row_count(D(1), L(2));
        else if (fn == "rows") {
            long n = -77;
            rc     = odc_decoder_row_count(D(1), &n);
            o["v"] = n;
        }
        else if (fn == "add_column")
            rc = odc_decoder_add_column(D(1), S(2).c_str());
        else if (fn == "dcol_count") {
            int n  = -77;
            rc     = odc_decoder_column_count(D(1), &n);
            o["v"] = n;
        }
        else if (fn == "dcol_size")
            rc = odc_decoder_column_set_data_size(D(1), L(2), L(3));
        else if (fn == "set_colmajor")
            rc = odc_decoder_set_column_major(D(1), L(2) != 0);
        else if (fn == "ext_array") {  // decoder, mem, width, height, colmajor
            auto m = std::make_unique<Memory>();
            m->v.assign(L(3) * L(4) + 128, char(0xA5));
            m->width  = L(3);
            m->height = L(4);
            rc        = odc_decoder_set_data_array(D(1), m->v.data() + 64, L(3), L(4), L(5) != 0);
            if (w.mem.count(S(2)))
                w.mem[S(2) + "'" + std::to_string(w.mem.size())] = std::move(w.mem[S(2)]);
            w.mem[S(2)] = std::move(m);
        }
        else if (fn == "mem") {
            auto& m = *w.mem.at(S(1));
            o["v"]  = toHex(m.v.data() + 64, m.v.size() - 128);
            bool g  = true;
            for (size_t i = 0; i < 64; ++i)
                g = g && m.v[i] == char(0xA5) && m.v[m.v.size() - 1 - i] == char(0xA5);
            o["guard"] = g;
        }
        else if (fn == "region") {  // name, bytes[, contents]: memory of the caller between guards
            auto m = std::make_unique<Memory>();
            m->v.assign(L(2) + 128, char(0xA5));
            if (s.size() > 3) {
                auto b = fromHex(S(3));
                memcpy(m->v.data() + 64, b.data(), std::min<size_t>(b.size(), L(2)));
            }
            w.mem[S(1)] = std::move(m);
        }
        else if (fn == "fill") {
            auto& m = *w.mem.at(S(1));
            std::fill(m.v.begin(), m.v.end(), char(0xA5));
        }
        else if (fn == "d_own")  // decoder, col, region, offset, size, stride
            rc = odc_decoder_column_set_data_array(D(1), L(2), L(5), L(6), w.mem.at(S(3))->v.data() + 64 + L(4));
        else if (fn == "d_arr")  // decoder, region, width, height, column major
            rc = odc_decoder_set_data_array(D(1), w.mem.at(S(2))->v.data() + 64, L(3), L(4), L(5) != 0);
        else if (fn == "e_own")
            rc = odc_encoder_column_set_data_array(E(1), L(2), L(5), L(6), w.mem.at(S(3))->v.data() + 64 + L(4));
        else if (fn == "e_arr")
            rc = odc_encoder_set_data_array(E(1), w.mem.at(S(2))->v.data() + 64, L(3), L(4), L(5));
        else if (fn == "d_layout") {
            const void* ap = nullptr;
            long aw = -77, ah = -77;
            bool cm      = false;
            int arc      = odc_decoder_data_array(D(1), &ap, &aw, &ah, &cm);
            auto locate  = [&](const void* p) -> json {
                const char* c = static_cast<const char*>(p);
                for (auto& kv : w.mem)
                    if (c >= kv.second->v.data() && c < kv.second->v.data() + kv.second->v.size())
                        return json::array({kv.first, long(c - (kv.second->v.data() + 64))});
                if (!arc && c >= static_cast<const char*>(ap) && c < static_cast<const char*>(ap) + aw * ah)
                    return json::array({"owned", long(c - static_cast<const char*>(ap))});
                return json::array({"?", 0});
            };
            o["arr"] = {arc, aw, ah, cm, arc ? json() : locate(ap)};
            if (!arc && locate(ap)[0] == "owned")
                o["owned"] = toHex(static_cast<const char*>(ap), aw * ah);
            json cs = json::array();
            int cnt = 0;
            odc_decoder_column_count(D(1), &cnt);
            for (int c = 0; c < cnt; ++c) {
                int es = -77, st = -77;
                const void* p = nullptr;
                odc_decoder_column_data_array(D(1), c, &es, &st, &p);
                auto at = locate(p);
                cs.push_back({es, st, at[0], at[1]});
            }
            o["cols"] = cs;
        }
        else if (fn == "dcol_array") {  // decoder, col, mem, size, stride, rows
            long st = L(5) ? L(5) : L(4);
            auto m  = std::make_unique<Memory>();
            m->v.assign(st * L(6) + 128, char(0xA5));
            rc = odc_decoder_column_set_data_array(D(1), L(2), L(4), L(5), m->v.data() + 64);
            if (w.mem.count(S(3)))
                w.mem[S(3) + "'" + std::to_string(w.mem.size())] = std::move(w.mem[S(3)]);
            w.mem[S(3)] = std::move(m);
        }
        else if (fn == "decode") {  // decoder, frame, nthreads, element sizes (to interpret the result)
            long n = -77;
            rc     = L(3) != 1 ? odc_decode_threaded(D(1), F(2), &n, L(3)) : odc_decode(D(1), F(2), &n);
            o["v"] = n;
            o["notified"] = g_failures - before;
            if (!rc && s.size() > 4) {
                json data = json::array();
                int cnt   = 0;
                odc_decoder_column_count(D(1), &cnt);
                const void* ap = nullptr;
                long aw = 0, ah = 0;
                bool cm   = false;
                int arc   = odc_decoder_data_array(D(1), &ap, &aw, &ah, &cm);
                o["shape"] = {arc, aw, ah, cm};
                for (int c = 0; c < cnt; ++c) {
                    int es = 0, st = 0;
                    const void* p = nullptr;
                    odc_decoder_column_data_array(D(1), c, &es, &st, &p);
                    std::string col;
                    for (long i = 0; i < n; ++i) {
                        const char* b = static_cast<const char*>(p);
                        if (arc == 0 && cm && es > 8 && st == es) {
                            for (int k = 0; k < es / 8; ++k)
                                col += toHex(b + (i + k * ah) * 8, 8);
                        }
                        else
                            col += toHex(b + i * st, es);
                    }
                    data.push_back({es, st, col});
                }
                o["data"] = data;
            }
        }
        else if (fn == "new_encoder")
            rc = odc_new_encoder(&w.e[S(1)]);
        else if (fn == "free_encoder") {
            rc = odc_free_encoder(E(1));
            w.e.erase(S(1));
        }
        else if (fn == "add_property")
            rc = odc_encoder_add_property(E(1), S(2).c_str(), S(3).c_str());
        else if (fn == "eset_rows")
            rc = odc_encoder_set_row_count(E(1), L(2));
        else if (fn == "rows_per_frame")
            rc = odc_encoder_set_rows_per_frame(E(1), L(2));
        else if (fn == "eadd_column")
            rc = odc_encoder_add_column(E(1), S(2).c_str(), L(3));
        else if (fn == "ecol_size")
            rc = odc_encoder_column_set_data_size(E(1), L(2), L(3));
        else if (fn == "ecol_array") {  // encoder, col, size, stride, buffer
            rc = odc_encoder_column_set_data_array(E(1), L(2), L(3), L(4), w.bufs.at(S(5))->data());
        }
        else if (fn == "earray") {  // encoder, buffer, width, height, column major width
            rc = odc_encoder_set_data_array(E(1), w.bufs.at(S(2))->data(), L(3), L(4), L(5));
        }
        else if (fn == "add_bitfield")
            rc = odc_encoder_column_add_bitfield(E(1), L(2), S(3).c_str(), L(4));
        else if (fn == "encode_buffer") {  // encoder, size; "data" is the whole buffer on failure
            std::vector<char> b(L(2) + 64, char(0xA5));
            long n = -77;
            rc     = odc_encode_to_buffer(E(1), b.data(), L(2), &n);
            bool g = true;
            for (size_t i = L(2); i < b.size(); ++i)
                g = g && b[i] == char(0xA5);
            o["guard"] = g;
            o["v"]     = n;
            o["data"]  = toHex(b.data(), rc ? L(2) : std::max(0L, std::min(n, L(2))));
        }
        else if (fn == "encode_stream") {  // encoder, limit[, chunk, fmode]
            MemSink k(L(2), s.size() > 3 ? L(3) : -1, s.size() > 4 ? S(4) : "short");
            long n    = -77;
            rc        = odc_encode_to_stream(E(1), &k, MemSink::cwrite, &n);
            o["data"] = toHex(k.data.data(), k.data.size());
            o["v"]    = n;
        }
        else if (fn == "encode_fd") {  // encoder, path[, limit, append]
            bool append = s.size() > 4 && L(4);
            int fd      = open(S(2).c_str(), O_RDWR | O_CREAT | (append ? 0 : O_TRUNC), 0644);
            off_t start = append ? lseek(fd, 0, SEEK_END) : 0;
            struct rlimit old;
            getrlimit(RLIMIT_FSIZE, &old);
            if (s.size() > 3 && L(3) >= 0) {
                signal(SIGXFSZ, SIG_IGN);
                struct rlimit lim = {rlim_t(start + L(3)), old.rlim_max};
                setrlimit(RLIMIT_FSIZE, &lim);
            }
            long n = -77;
            rc     = odc_encode_to_file_descriptor(E(1), fd, &n);
            setrlimit(RLIMIT_FSIZE, &old);
            // the caller's descriptor stays open
            o["open"] = fcntl(fd, F_GETFD) != -1;
            auto b    = readFile(S(2));
            o["data"] = toHex(b.data() + start, b.size() - start);
            o["v"]    = n;
            close(fd);
        }
        else if (fn == "encode_pipe") {  // encoder
            int p[2];
            if (pipe(p) != 0)
                throw std::runtime_error("pipe");
            std::vector<char> b;
            std::thread rd([&] {
                char c[4096];
                ssize_t k;
                while ((k = read(p[0], c, sizeof(c))) > 0)
                    b.insert(b.end(), c, c + k);
            });
            long n = -77;
            rc     = odc_encode_to_file_descriptor(E(1), p[1], &n);
            o["open"] = fcntl(p[1], F_GETFD) != -1;
            close(p[1]);
            rd.join();
            close(p[0]);
            o["data"] = toHex(b.data(), b.size());
            o["v"]    = n;
        }
        else if (fn == "type_name") {
            const char* nm = nullptr;
            rc             = odc_column_type_name(L(1), &nm);
            if (!rc)
                o["v"] = nm;
        }
        else if (fn == "type_count") {
            int n  = -77;
            rc     = odc_column_type_count(&n);
            o["v"] = n;
        }
        else if (fn == "integer_behaviour")
            rc = odc_integer_behaviour(L(1));
        else if (fn == "error_string") {
            const char* e = odc_error_string(L(1));
            o["v"]        = e ? e : "(null)";
        }
        else {
            json r;
            r["fatal"] = "unknown capi step " + fn;
            return r;
        }
        if (opt.contains("as"))  // what was written can be read by a later step
            w.bufs[opt["as"].get<std::string>()] = std::make_unique<std::vector<char>>(fromHex(o["data"].get<std::string>()));
        o["rc"] = rc;
        if (rc != 0) {
            const char* e = odc_error_string(rc);
            o["err"]      = e ? e : "(null)";
        }
        if (!o.contains("notified"))
            o["notified"] = g_failures - before;
        out.push_back(o);
        (void)bail;
    }
    for (auto& kv : w.f)
        if (kv.second)
            odc_free_frame(kv.second);
    for (auto& kv : w.r)
        if (kv.second)
            odc_close(kv.second);
    for (auto& kv : w.d)
        if (kv.second)
            odc_free_decoder(kv.second);
    for (auto& kv : w.e)
        if (kv.second)
            odc_free_encoder(kv.second);
    odc_set_failure_handler(nullptr, nullptr);
    json r;
    r["out"] = out;
    return r;
}
