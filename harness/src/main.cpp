#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>

#include "ctx.h"
#include "Includes.h"

static const int kProg = 4096;
static const unsigned kCaseSeconds = 60;
static Ctx* g_ctx = nullptr;

std::map<std::string, PropFn>& propRegistry() {
    static std::map<std::string, PropFn> m;
    return m;
}
PropReg::PropReg(const char* id, PropFn f) { propRegistry()[id] = f; }

std::string fmt(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    char buf[4096];
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

void Ctx::openProgress(const std::string& path) {
    int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, kProg) != 0) return;
    _progress = (char*)mmap(nullptr, kProg, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (_progress == MAP_FAILED) _progress = nullptr;
    close(fd);
}

void Ctx::run(const std::string& id, const std::function<void()>& body) {
    uint64_t n = enumerated++;
    if (!replay.empty()) {
        if (id != replay) return;
    } else if ((int)(n % nshards) != shard) {
        return;
    }
    _current = id;
    if (_progress) {
        size_t l = std::min<size_t>(id.size(), kProg - 1);
        memcpy(_progress, id.data(), l);
        _progress[l] = 0;
    }
    ++cases;
    if ((cases & (cases - 1)) == 0 && samples.size() < 12) samples.push_back(id);
    alarm(kCaseSeconds);
    try {
        body();
    } catch (const std::exception& e) {
        fail("exception", std::string("exception escaped: ") + e.what());
    } catch (...) {
        fail("exception", "unknown exception escaped");
    }
    alarm(0);
    if (_progress) _progress[0] = 0;
}

void Ctx::fail(const std::string& key, const std::string& msg) {
    uint64_t c = ++failureCount[key];
    static bool group = getenv("HB_GROUP") != nullptr;  // development aid: histogram by case prefix
    if (group) ++dims["FAIL " + key + " " + _current.substr(0, _current.rfind('/'))];
    if (c <= 40) failures.push_back({key, _current, msg});
}

static std::string js(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c < 32) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += c;
    }
    return o + "\"";
}

int main(int argc, char** argv) {
    Ctx ctx;
    g_ctx = &ctx;
    std::string out = "/dev/stdout", progress;
    if (argc < 2) {
        for (auto& [k, f] : propRegistry()) printf("%s\n", k.c_str());
        return 0;
    }
    ctx.prop = argv[1];
    bool keepErr = false;
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&] { return std::string(argv[++i]); };
        if (a == "--tier") ctx.tier = next();
        else if (a == "--shard") {
            std::string s = next();
            sscanf(s.c_str(), "%d/%d", &ctx.shard, &ctx.nshards);
        } else if (a == "--out") out = next();
        else if (a == "--progress") progress = next();
        else if (a == "--replay") ctx.replay = next();
        else if (a == "-v") keepErr = true;
    }
    if (!propRegistry().count(ctx.prop)) {
        fprintf(stderr, "unknown property %s\n", ctx.prop.c_str());
        return 64;
    }
    if (!progress.empty()) ctx.openProgress(progress);
    if (!keepErr) {
        LogSetLevel(LogLevel::Error);
        int dn = open("/dev/null", O_WRONLY);
        dup2(dn, 2);
        if (out != "/dev/stdout") dup2(dn, 1);
    }
    propRegistry()[ctx.prop](ctx);
    std::ofstream f(out);
    f << "{\"cases\":" << ctx.cases << ",\"enumerated\":" << ctx.enumerated << ",\"transitions\":" << ctx.transitions
      << ",\"validated\":" << ctx.validated << ",\"states\":" << ctx.stateCount() << ",\"dims\":{";
    bool first = true;
    for (auto& [k, v] : ctx.dims) {
        f << (first ? "" : ",") << js(k) << ":" << v;
        first = false;
    }
    f << "},\"samples\":[";
    for (size_t i = 0; i < ctx.samples.size(); ++i) f << (i ? "," : "") << js(ctx.samples[i]);
    f << "],\"failureCount\":{";
    first = true;
    for (auto& [k, v] : ctx.failureCount) {
        f << (first ? "" : ",") << js(k) << ":" << v;
        first = false;
    }
    f << "},\"failures\":[";
    for (size_t i = 0; i < ctx.failures.size(); ++i)
        f << (i ? "," : "") << "{\"key\":" << js(ctx.failures[i].key) << ",\"case\":" << js(ctx.failures[i].caseId)
          << ",\"msg\":" << js(ctx.failures[i].msg) << "}";
    f << "]}\n";
    f.close();
    if (out != "/dev/stdout") {
        std::ofstream g(out + ".states", std::ios::binary);
        for (uint64_t h : ctx.stateSet()) g.write((const char*)&h, 8);
    }
    return 0;
}
