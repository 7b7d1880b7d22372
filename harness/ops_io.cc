// encode / decode through the public C and C++ APIs, with byte-exact guards around every target.
#include "driver.h"

#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cstring>
#include <memory>
#include <set>

#include "eckit/exception/Exceptions.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/io/AutoCloser.h"
#include "eckit/io/Buffer.h"
#include "eckit/io/DataHandle.h"
#include "eckit/io/FileHandle.h"
#include "eckit/io/MemoryHandle.h"
#include "odc/api/ColumnInfo.h"
#include "odc/api/Odb.h"
#include "odc/api/odc.h"
#include "odc/MDI.h"
#include "odc/ODBAPISettings.h"

#include "iohandles.h"

using namespace odc::api;

//--------------------------------------------------------------------------------------------------------------

OP(settings) {
    json r = json::object();
    if (rq.contains("ints")) {
        r["rc_ints"] = odc_integer_behaviour(rq["ints"] == "long"     ? ODC_INTEGERS_AS_LONGS
                                             : rq["ints"] == "double" ? ODC_INTEGERS_AS_DOUBLES
                                                                      : 77);
    }
    if (rq.contains("miss_int"))
        r["rc_mi"] = odc_set_missing_integer(rq["miss_int"].get<long>());
    if (rq.contains("miss_dbl")) {
        auto b = fromHex(rq["miss_dbl"].get<std::string>());
        double d;
        memcpy(&d, b.data(), 8);
        r["rc_md"] = odc_set_missing_double(d);
    }
    if (rq.contains("longconst"))
        rq["longconst"].get<bool>() ? setenv("ODC_ENABLE_WRITING_LONG_STRING_CODEC", "1", 1)
                                    : unsetenv("ODC_ENABLE_WRITING_LONG_STRING_CODEC");
    if (rq.contains("hbuf"))
        odc::ODBAPISettings::instance().headerBufferSize(rq["hbuf"].get<size_t>());
    long mi;
    double md;
    odc_missing_integer(&mi);
    odc_missing_double(&md);
    r["miss_int"] = mi;
    r["miss_dbl"] = toHex(&md, 8);
    return r;
}

//--------------------------------------------------------------------------------------------------------------

namespace {

struct ColSpec {
    std::string name;
    int type;
    long size;
    long pad;
    std::vector<std::pair<std::string, int>> bits;
    std::vector<char> packed;  // nrows * size
    std::vector<char> strided;
};

std::vector<ColSpec> colSpecs(const json& rq) {
    std::vector<ColSpec> v;
    for (const auto& c : rq["cols"]) {
        ColSpec s;
        s.name = c["name"];
        s.type = c["type"];
        s.size = c.value("size", 8);
        s.pad  = c.value("pad", 0);
        if (c.contains("bits"))
            for (const auto& b : c["bits"])
                s.bits.emplace_back(b[0].get<std::string>(), b[1].get<int>());
        s.packed = fromHex(c["data"].get<std::string>());
        v.push_back(std::move(s));
    }
    return v;
}

}  // namespace

OP(encode) {
    json r;
    size_t nrows     = rq["nrows"];
    long rpf         = rq.value("rpf", 10000);
    std::string via  = rq.value("via", "c");
    std::string dest = rq.value("dest", "buffer");
    std::string lay  = rq.value("layout", "cols");
    long limit       = rq.value("limit", -1L);
    long chunk       = rq.value("chunk", -1L);
    std::string fmode = rq.value("fmode", "short");
    auto cols        = colSpecs(rq);
    int repeat       = rq.value("repeat", 1);

    // Build the source memory
    std::vector<char> array;
    long rowBytes = 0;
    for (auto& c : cols)
        rowBytes += c.size;
    size_t extraRows = rq.value("extra_rows", 0);
    long extraWidth  = rq.value("extra_width", 0);
    size_t height    = nrows + extraRows;
    if (lay == "row") {
        array.assign((rowBytes + extraWidth) * height, char(0x5a));
        long off = 0;
        for (auto& c : cols) {
            for (size_t i = 0; i < nrows; ++i)
                memcpy(&array[i * (rowBytes + extraWidth) + off], &c.packed[i * c.size], c.size);
            off += c.size;
        }
    }
    else if (lay == "col") {
        // 8-byte wide columns: wide elements spread over several adjacent columns
        array.assign((rowBytes + extraWidth) * height, char(0x5a));
        long off = 0;
        for (auto& c : cols) {
            for (size_t i = 0; i < nrows; ++i)
                for (long k = 0; k < c.size / 8; ++k)
                    memcpy(&array[off + (i + k * height) * 8], &c.packed[i * c.size + k * 8], 8);
            off += c.size * height;
        }
    }
    else {
        for (auto& c : cols) {
            long st = c.size + c.pad;
            c.strided.assign(st * (nrows ? nrows : 1) + 8, char(0x5a));
            for (size_t i = 0; i < nrows; ++i)
                memcpy(&c.strided[i * st], &c.packed[i * c.size], c.size);
        }
    }
    std::vector<char> arrayBefore = array;

    MemSink sink(limit, chunk, fmode);
    long nbytes = -1;
    int rc      = 0;
    std::string exc;

    if (via == "c") {
        odc_encoder_t* e = nullptr;
        odc_new_encoder(&e);
        std::vector<int> rcs;
        for (size_t i = 0; i < cols.size(); ++i) {
            rcs.push_back(odc_encoder_add_column(e, cols[i].name.c_str(), cols[i].type));
            for (auto& b : cols[i].bits)
                rcs.push_back(odc_encoder_column_add_bitfield(e, i, b.first.c_str(), b.second));
            if (lay == "cols")
                rcs.push_back(odc_encoder_column_set_data_array(e, i, cols[i].size,
                                                                cols[i].pad ? cols[i].size + cols[i].pad : 0,
                                                                cols[i].strided.data()));
            else
                rcs.push_back(odc_encoder_column_set_data_size(e, i, cols[i].size));
        }
        if (rq.contains("props"))
            for (auto& p : rq["props"])
                odc_encoder_add_property(e, p[0].get<std::string>().c_str(), p[1].get<std::string>().c_str());
        rcs.push_back(odc_encoder_set_row_count(e, nrows));
        rcs.push_back(odc_encoder_set_rows_per_frame(e, rpf));
        for (int rep = 0; rep < repeat; ++rep) {
            if (lay == "row" || lay == "col")
                rcs.push_back(odc_encoder_set_data_array(e, array.data(), rowBytes + extraWidth, height,
                                                         lay == "col" ? 8 : 0));
            if (dest == "buffer") {
                size_t cap = limit >= 0 ? limit : (1 << 22) + 64 * nrows * (rowBytes + 64);
                std::vector<char> buf(cap + 64, char(0xa5));
                rc           = odc_encode_to_buffer(e, buf.data(), cap, &nbytes);
                bool guardOk = true;
                for (size_t i = cap; i < buf.size(); ++i)
                    guardOk = guardOk && buf[i] == char(0xa5);
                r["guard"] = guardOk;
                if (rc == 0 && nbytes >= 0 && size_t(nbytes) <= cap)
                    sink.data.insert(sink.data.end(), buf.begin(), buf.begin() + nbytes);
            }
            else if (dest == "stream") {
                rc = odc_encode_to_stream(e, &sink, MemSink::cwrite, &nbytes);
            }
            else if (dest == "fd") {
                int fd = open(rq["path"].get<std::string>().c_str(), O_CREAT | O_RDWR | (rep ? O_APPEND : O_TRUNC), 0644);
                rc     = odc_encode_to_file_descriptor(e, fd, &nbytes);
                close(fd);
            }
        }
        for (int x : rcs)
            if (x != 0)
                r["setup_rc"] = x;
        if (rc)
            r["err"] = odc_error_string(rc);
        odc_free_encoder(e);
    }
    else {
        std::vector<ColumnInfo> ci;
        std::vector<ConstStridedData> sd;
        for (size_t i = 0; i < cols.size(); ++i) {
            auto& c = cols[i];
            ColumnInfo info;
            info.name        = c.name;
            info.type        = ColumnType(c.type);
            info.decodedSize = c.size;
            int off          = 0;
            for (auto& b : c.bits) {
                info.bitfield.push_back(ColumnInfo::Bit{b.first, b.second, off});
                off += b.second;
            }
            ci.push_back(info);
            if (lay == "cols")
                sd.emplace_back(c.strided.data(), nrows, size_t(c.size), size_t(c.size + c.pad));
        }
        if (lay == "row") {
            long off = 0;
            for (auto& c : cols) {
                sd.emplace_back(array.data() + off, nrows, size_t(c.size), size_t(rowBytes + extraWidth));
                off += c.size;
            }
        }
        std::map<std::string, std::string> props;
        if (rq.contains("props"))
            for (auto& p : rq["props"])
                props[p[0]] = p[1];
        try {
            for (int rep = 0; rep < repeat; ++rep) {
                if (dest == "file") {
                    eckit::FileHandle fh(rq["path"].get<std::string>());
                    if (rep)
                        fh.openForAppend(0);
                    else
                        fh.openForWrite(0);
                    eckit::AutoClose c(fh);
                    odc::api::encode(fh, ci, sd, props, rpf);
                    nbytes = fh.position();
                }
                else {
                    SinkHandle sh(sink);
                    sh.openForWrite(0);
                    odc::api::encode(sh, ci, sd, props, rpf);
                    nbytes = sink.data.size();
                }
            }
        }
        catch (std::exception& ex) {
            rc       = 2;
            r["err"] = ex.what();
        }
    }
    r["rc"]     = rc;
    r["nbytes"] = nbytes;
    r["src_unchanged"] = (array == arrayBefore);
    if (dest == "fd" || dest == "file") {
        if (rq.value("want_data", true)) {
            auto d    = readFile(rq["path"]);
            r["data"] = toHex(d.data(), d.size());
        }
    }
    else {
        if (rq.contains("path")) {
            int fd = open(rq["path"].get<std::string>().c_str(),
                          O_CREAT | O_WRONLY | (rq.value("append", false) ? O_APPEND : O_TRUNC), 0644);
            if (write(fd, sink.data.data(), sink.data.size()) != ssize_t(sink.data.size()))
                r["fatal"] = "write";
            close(fd);
        }
        if (rq.value("want_data", true))
            r["data"] = toHex(sink.data.data(), sink.data.size());
    }
    return r;
}

//--------------------------------------------------------------------------------------------------------------

namespace {

const unsigned char GUARD = 0xA5;

struct Target {
    // one column's destination inside some allocation
    char* base;
    long size;
    long stride;
    bool split8;       // col-major wide: element spread over 8-byte columns
    long height;       // rows in the allocation (col-major)
};

// Extract the cells as packed hex, and overwrite them with the guard byte so that afterwards every byte of the
// allocation must equal the guard.
std::string take(Target& t, size_t rows) {
    std::string packed(rows * t.size, '\0');
    for (size_t i = 0; i < rows; ++i) {
        if (t.split8) {
            for (long k = 0; k < t.size / 8; ++k)
                memcpy(&packed[i * t.size + 8 * k], t.base + (i + k * t.height) * 8, 8);
        }
        else
            memcpy(&packed[i * t.size], t.base + i * t.stride, t.size);
    }
    for (size_t i = 0; i < rows; ++i) {
        if (t.split8) {
            for (long k = 0; k < t.size / 8; ++k)
                memset(t.base + (i + k * t.height) * 8, GUARD, 8);
        }
        else
            memset(t.base + i * t.stride, GUARD, t.size);
    }
    return toHex(packed.data(), packed.size());
}

bool allGuard(const std::vector<char>& v) {
    for (char c : v)
        if (static_cast<unsigned char>(c) != GUARD)
            return false;
    return true;
}

json infoJson(const std::vector<ColumnInfo>& ci) {
    json a = json::array();
    for (const auto& c : ci) {
        json b = json::array();
        for (const auto& x : c.bitfield)
            b.push_back({x.name, x.offset, x.size});
        a.push_back({{"name", c.name}, {"type", int(c.type)}, {"size", c.decodedSize}, {"bits", b}});
    }
    return a;
}

json propsJson(const std::map<std::string, std::string>& m) {
    json a = json::array();
    for (const auto& kv : m)
        a.push_back({kv.first, kv.second});
    return a;
}

}  // namespace

OP(decode) {
    json r;
    std::string via  = rq.value("via", "cpp");
    std::string how  = rq.value("open", "path");
    bool agg         = rq.value("agg", false);
    long maxrows     = rq.value("max", -1L);
    std::string lay  = rq.value("layout", "cols");
    long pad         = rq.value("pad", 0);
    int nthreads     = rq.value("nthreads", 1);
    size_t extraRows = rq.value("extra_rows", 0);
    bool wantData    = rq.value("want_data", true);
    bool allDecode   = rq.value("decode", true);
    long mostRows    = rq.value("most_rows", 1L << 40);  // frames of more rows are not decoded
    long stopAfter   = rq.value("stop_after", 1L << 40);
    bool wantEncoded = rq.value("encoded", false);
    bool reuse       = rq.value("copy_frames", false);  // keep frames, decode after the reader has moved on
    bool haveCols    = rq.contains("cols") && !rq["cols"].is_null();
    std::vector<std::string> want;
    if (haveCols)
        for (auto& s : rq["cols"])
            want.push_back(s);
    std::vector<long> sizes;
    if (rq.contains("sizes"))
        for (auto& s : rq["sizes"])
            sizes.push_back(s);

    std::vector<char> bytes;
    std::string path;
    if (rq.contains("path"))
        path = rq["path"];
    if (how == "buffer" || how == "stream" || how == "dh" || how == "mem") {
        if (rq.contains("hex"))
            bytes = fromHex(rq["hex"]);
        else
            bytes = readFile(path);
    }
    json frames = json::array();

    if (via == "c") {
        odc_reader_t* rd = nullptr;
        MemSource src(bytes, rq.value("chunk", -1L));
        int rc = 0, fd = -1;
        if (how == "path")
            rc = odc_open_path(&rd, path.c_str());
        else if (how == "fd") {
            fd = open(path.c_str(), O_RDONLY);
            rc = odc_open_file_descriptor(&rd, fd);
            if (fd >= 0)
                close(fd);
        }
        else if (how == "buffer" || how == "mem")
            rc = odc_open_buffer(&rd, bytes.data(), bytes.size());
        else
            rc = odc_open_stream(&rd, &src, MemSource::cread);
        r["open_rc"] = rc;
        if (rc) {
            r["err"]    = odc_error_string(rc);
            r["frames"] = frames;
            return r;
        }
        odc_frame_t* fr = nullptr;
        odc_new_frame(&fr, rd);
        std::vector<odc_frame_t*> kept;
        auto process = [&](odc_frame_t* f) {
            json j;
            long rows = -1;
            int nc = -1, np = -1;
            odc_frame_row_count(f, &rows);
            odc_frame_column_count(f, &nc);
            odc_frame_properties_count(f, &np);
            j["rows"]  = rows;
            json infos = json::array();
            for (int i = 0; i < nc; ++i) {
                const char* nm;
                int ty, sz, nb;
                odc_frame_column_attributes(f, i, &nm, &ty, &sz, &nb);
                json bits = json::array();
                for (int b = 0; b < nb; ++b) {
                    const char* bn;
                    int bo, bs;
                    odc_frame_bitfield_attributes(f, i, b, &bn, &bo, &bs);
                    bits.push_back({bn, bo, bs});
                }
                infos.push_back({{"name", nm}, {"type", ty}, {"size", sz}, {"bits", bits}});
            }
            j["cols"]  = infos;
            json props = json::array();
            for (int i = 0; i < np; ++i) {
                const char *k, *v;
                int prc = odc_frame_property_idx(f, i, &k, &v);
                if (prc) {
                    props.push_back({{"rc", prc}});
                    continue;
                }
                const char* v2 = nullptr;
                odc_frame_property(f, k, &v2);
                props.push_back({k, v});
                if (!v2 || std::string(v2) != v)
                    j["prop_inconsistent"] = true;
            }
            j["props"] = props;
            if (allDecode && rows <= mostRows) {
                std::vector<std::string> names;
                std::vector<long> esz;
                std::vector<int> types;
                if (haveCols)
                    names = want;
                else
                    for (auto& c : infos)
                        names.push_back(c["name"]);
                for (size_t i = 0; i < names.size(); ++i) {
                    long sz = 8;
                    for (auto& c : infos)
                        if (c["name"] == names[i])
                            sz = c["size"];
                    esz.push_back(i < sizes.size() && sizes[i] ? sizes[i] : sz);
                }
                odc_decoder_t* d = nullptr;
                odc_new_decoder(&d);
                if (!haveCols && rq.value("defaults", true))
                    odc_decoder_defaults_from_frame(d, f);
                else
                    for (auto& n : names)
                        odc_decoder_add_column(d, n.c_str());
                int cnt = -1;
                odc_decoder_column_count(d, &cnt);
                j["ncolsel"] = cnt;
                long height  = rows + extraRows;
                odc_decoder_set_row_count(d, height);
                std::vector<std::vector<char>> allocs;
                std::vector<Target> tg;
                long total = 0;
                for (long s : esz)
                    total += s;
                const long G = 64;
                if (lay == "cols") {
                    for (size_t i = 0; i < names.size(); ++i) {
                        long st = esz[i] + pad;
                        allocs.emplace_back(2 * G + st * height, char(GUARD));
                    }
                    for (size_t i = 0; i < names.size(); ++i) {
                        long st = esz[i] + pad;
                        char* b = allocs[i].data() + G;
                        odc_decoder_column_set_data_array(d, i, esz[i], pad ? st : 0, b);
                        tg.push_back(Target{b, esz[i], st, false, height});
                    }
                    // stride 0 = packed is only resolved by the library when it fills in the decoder; be explicit
                    for (size_t i = 0; i < names.size(); ++i)
                        odc_decoder_column_set_data_array(d, i, esz[i], esz[i] + pad, tg[i].base);
                }
                else if (lay == "ext_row" || lay == "ext_col") {
                    long width = total + pad;
                    allocs.emplace_back(2 * G + width * height, char(GUARD));
                    char* b = allocs[0].data() + G;
                    odc_decoder_set_data_array(d, b, width, height, lay == "ext_col");
                    long off = 0;
                    for (size_t i = 0; i < names.size(); ++i) {
                        if (lay == "ext_row") {
                            tg.push_back(Target{b + off, esz[i], width, false, height});
                            off += esz[i];
                        }
                        else {
                            tg.push_back(Target{b + off, esz[i], esz[i], esz[i] > 8, height});
                            off += esz[i] * height;
                        }
                    }
                }
                else {
                    odc_decoder_set_column_major(d, lay == "own_col");
                    if (!sizes.empty())
                        for (size_t i = 0; i < names.size(); ++i)
                            if (i < sizes.size() && sizes[i])
                                odc_decoder_column_set_data_size(d, i, esz[i]);
                }
                long dec = -1;
                int drc  = nthreads > 1 ? odc_decode_threaded(d, f, &dec, nthreads) : odc_decode(d, f, &dec);
                j["drc"] = drc;
                if (drc)
                    j["derr"] = odc_error_string(drc);
                else {
                    j["rows_decoded"] = dec;
                    if (lay == "own_row" || lay == "own_col") {
                        const void* p = nullptr;
                        long w, h;
                        bool cm;
                        odc_decoder_data_array(d, &p, &w, &h, &cm);
                        j["width"]    = w;
                        j["height"]   = h;
                        j["colmajor"] = cm;
                        if (w == total && h == height) {
                            char* b  = static_cast<char*>(const_cast<void*>(p));
                            long off = 0;
                            for (size_t i = 0; i < names.size(); ++i) {
                                if (!cm) {
                                    tg.push_back(Target{b + off, esz[i], w, false, h});
                                    off += esz[i];
                                }
                                else {
                                    tg.push_back(Target{b + off, esz[i], esz[i], esz[i] > 8, h});
                                    off += esz[i] * h;
                                }
                            }
                            // accessor must describe the same cells
                            for (size_t i = 0; i < names.size(); ++i) {
                                int es, st;
                                const void* dp;
                                odc_decoder_column_data_array(d, i, &es, &st, &dp);
                                if (es != tg[i].size || st != tg[i].stride || dp != tg[i].base)
                                    j["accessor_mismatch"] = int(i);
                            }
                        }
                        else
                            j["bad_shape"] = true;
                    }
                    json data = json::array();
                    for (auto& t : tg)
                        data.push_back(take(t, rows));
                    if (wantData)
                        j["data"] = data;
                    bool g = true;
                    for (auto& a : allocs)
                        g = g && allGuard(a);
                    j["guard"] = g;
                }
                odc_free_decoder(d);
            }
            return j;
        };
        long n = 0;
        while (true) {
            if (n >= stopAfter) {
                r["end_rc"] = -1;
                break;
            }
            rc = agg ? odc_next_frame_aggregated(fr, maxrows) : odc_next_frame(fr);
            if (rc != ODC_SUCCESS) {
                r["end_rc"] = rc;
                if (rc != ODC_ITERATION_COMPLETE)
                    r["err"] = odc_error_string(rc);
                break;
            }
            ++n;
            if (reuse) {
                odc_frame_t* cp = nullptr;
                odc_copy_frame(fr, &cp);
                kept.push_back(cp);
            }
            else
                frames.push_back(process(fr));
        }
        if (reuse) {
            odc_free_frame(fr);
            for (auto* k : kept)
                frames.push_back(process(k));
            for (auto* k : kept)
                odc_free_frame(k);
        }
        else
            odc_free_frame(fr);
        odc_close(rd);
    }
    else {
        // C++ API
        try {
            std::unique_ptr<MemSource> src;
            std::unique_ptr<eckit::DataHandle> dh;
            std::unique_ptr<Reader> reader;
            if (how == "path")
                reader.reset(new Reader(path, agg, maxrows));
            else {
                if (how == "mem" || how == "buffer")
                    dh.reset(new eckit::MemoryHandle(bytes.data(), bytes.size()));
                else if (how == "file")
                    dh.reset(new eckit::FileHandle(path));
                else {
                    src.reset(new MemSource(bytes, rq.value("chunk", -1L)));
                    dh.reset(new SourceHandle(*src, rq.value("seekable", true)));
                }
                dh->openForRead();
                reader.reset(new Reader(*dh, agg, maxrows));
            }
            std::vector<Frame> kept;
            auto process = [&](Frame& f) {
                json j;
                size_t rows = f.rowCount();
                j["rows"]   = rows;
                j["ncols"]  = f.columnCount();
                j["offset"] = long(f.offset());
                j["length"] = (long long)(f.length());
                j["cols"]   = infoJson(f.columnInfo());
                j["props"]  = propsJson(f.properties());
                if (wantEncoded && long(rows) <= mostRows) {
                    try {
                        eckit::Buffer b = f.encodedData();
                        j["encoded"]    = toHex(b.data(), b.size());
                    }
                    catch (std::exception& e) {
                        j["encoded_err"] = e.what();
                    }
                }
                if (allDecode && long(rows) <= mostRows) {
                    std::vector<std::string> names;
                    std::vector<long> esz;
                    if (haveCols)
                        names = want;
                    else
                        for (auto& c : f.columnInfo())
                            names.push_back(c.name);
                    for (size_t i = 0; i < names.size(); ++i) {
                        long sz = 8;
                        for (auto& c : f.columnInfo())
                            if (c.name == names[i])
                                sz = c.decodedSize;
                        esz.push_back(i < sizes.size() && sizes[i] ? sizes[i] : sz);
                    }
                    const long G = 64;
                    std::vector<std::vector<char>> allocs;
                    std::vector<Target> tg;
                    std::vector<StridedData> facade;
                    long height = rows + extraRows;
                    if (lay == "ext_row" || lay == "own_row") {
                        long total = pad;
                        for (long s : esz)
                            total += s;
                        allocs.emplace_back(2 * G + total * height, char(GUARD));
                        long off = 0;
                        for (size_t i = 0; i < names.size(); ++i) {
                            char* b = allocs[0].data() + G + off;
                            tg.push_back(Target{b, esz[i], total, false, height});
                            facade.emplace_back(b, size_t(height), size_t(esz[i]), size_t(total));
                            off += esz[i];
                        }
                    }
                    else {
                        for (size_t i = 0; i < names.size(); ++i)
                            allocs.emplace_back(2 * G + (esz[i] + pad) * height, char(GUARD));
                        for (size_t i = 0; i < names.size(); ++i) {
                            char* b = allocs[i].data() + G;
                            tg.push_back(Target{b, esz[i], esz[i] + pad, false, height});
                            facade.emplace_back(b, size_t(height), size_t(esz[i]), size_t(esz[i] + pad));
                        }
                    }
                    try {
                        Decoder d(names, facade);
                        d.decode(f, nthreads);
                        j["drc"]          = 0;
                        j["rows_decoded"] = rows;
                        json data         = json::array();
                        for (auto& t : tg)
                            data.push_back(take(t, rows));
                        if (wantData)
                            j["data"] = data;
                        bool g = true;
                        for (auto& a : allocs)
                            g = g && allGuard(a);
                        j["guard"] = g;
                    }
                    catch (std::exception& e) {
                        j["drc"]  = 2;
                        j["derr"] = e.what();
                    }
                }
                return j;
            };
            long n = 0;
            while (n < stopAfter) {
                Frame f = reader->next();
                if (!f) {
                    r["end_rc"] = 1;
                    break;
                }
                ++n;
                if (reuse)
                    kept.push_back(f);
                else
                    frames.push_back(process(f));
            }
            if (reuse) {
                reader.reset();
                for (auto& f : kept)
                    frames.push_back(process(f));
            }
            if (!r.contains("end_rc"))
                r["end_rc"] = -1;
        }
        catch (std::exception& e) {
            r["end_rc"] = 2;
            r["err"]    = e.what();
        }
    }
    r["frames"] = frames;
    return r;
}
