// Conformance driver: executes scripted actions (one JSON object per input line) against the real odc
// library and answers each with one JSON line holding the projected state / observable outcome.
// It contains no oracle: expectations come from the TLA+ specifications.
#include "driver.h"

#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <cstring>
#include <fstream>
#include <iostream>

#include "eckit/runtime/Main.h"

std::map<std::string, OpFn>& ops() {
    static std::map<std::string, OpFn> m;
    return m;
}

std::string toHex(const void* p, size_t n) {
    static const char* d = "0123456789abcdef";
    std::string s(n * 2, '0');
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) {
        s[2 * i]     = d[c[i] >> 4];
        s[2 * i + 1] = d[c[i] & 15];
    }
    return s;
}
static int nib(char c) {
    return c <= '9' ? c - '0' : c - 'a' + 10;
}
std::vector<char> fromHex(const std::string& s) {
    std::vector<char> v(s.size() / 2);
    for (size_t i = 0; i < v.size(); ++i)
        v[i] = char((nib(s[2 * i]) << 4) | nib(s[2 * i + 1]));
    return v;
}
std::vector<char> readFile(const std::string& path) {
    std::ifstream f(path, std::ios::binary);
    return std::vector<char>((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}

int main(int argc, char** argv) {
    // Protocol goes to a private copy of stdout; library chatter goes to stderr.
    int outfd = dup(1);
    dup2(2, 1);
    FILE* out = fdopen(outfd, "w");

    static char name[]   = "vdrv";
    static char* args[2] = {name, nullptr};
    eckit::Main::initialise(1, args);

    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty())
            continue;
        json reply;
        try {
            json req = json::parse(line);
            auto it  = ops().find(req.at("op").get<std::string>());
            if (it == ops().end())
                reply = {{"fatal", "unknown op"}};
            else
                reply = it->second(req);
        }
        catch (json::exception& e) {
            reply = {{"fatal", e.what()}};
        }
        catch (std::exception& e) {
            reply = {{"exc", e.what()}};
        }
        catch (...) {
            reply = {{"exc", "unknown"}};
        }
        std::string s = reply.dump(-1, ' ', false, json::error_handler_t::replace);
        fwrite(s.data(), 1, s.size(), out);
        fputc('\n', out);
        fflush(out);
    }
    return 0;
}
