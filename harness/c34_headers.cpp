// Use in programs: every header, alone and with every other in both orders, in two translation units of one program,
// for each compiler, standard library, language standard and build option, with the platform's own code path.
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include "mc.h"
static std::string run(const std::string& cmd, int& rc) {
    std::string out; FILE* p = popen((cmd + " 2>&1").c_str(), "r"); if (!p) { rc = -1; return "popen"; }
    char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) out.append(b, n); rc = pclose(p); return out;
}
static std::string complaint(const std::string& t) {
    std::istringstream in(t); std::string l, first; while (std::getline(in, l)) { if (first.empty()) first = l; if (l.find("error") != std::string::npos || l.find("multiple definition") != std::string::npos) return l.substr(0, 300); } return first.substr(0, 300);
}
static const char* CC[] = {"clang++-18 -stdlib=libc++ -std=c++17", "clang++-18 -std=c++17", "g++ -std=c++17", "clang++-18 -stdlib=libc++ -std=c++17 -DCYTHON_ABI", "clang++-18 -stdlib=libc++ -std=c++17 -DCMMCORE_DEBUG", "clang++-18 -stdlib=libc++ -std=c++20", "g++ -std=c++20", "g++ -std=c++17 -DCYTHON_ABI", "g++ -std=c++17 -DCMMCORE_DEBUG"};
static void program(mc::Ctx& c, const std::string& root, const std::string& a, const std::string& b, const char* cc, const std::string& h) {
    std::string d = mc::fmt("p%d", (int)getpid()); mkdir(d.c_str(), 0700);
    auto put = [&](const char* n, const std::string& t) { FILE* f = fopen((d + "/" + n).c_str(), "w"); fwrite(t.data(), 1, t.size(), f); fclose(f); };
    auto inc = [](const std::string& x) { return x.empty() ? std::string() : "#include \"cmmcore/" + x + "\"\n"; };
    put("main.cpp", inc(a) + inc(b) + "int other();\nint main() { return other() - 7; }\n"); put("other.cpp", inc(b) + inc(a) + "int other() { return 7; }\n");
    int rc; std::string base = std::string(cc) + " -w -O0 -I" + root + " ";
    c.at(h.c_str()); c.trans(4);
    for (const char* f : {"main", "other"}) { std::string o = run(base + "-c " + d + "/" + f + ".cpp -o " + d + "/" + f + ".o", rc); if (rc) { c.fail("compile|" + (b.empty() ? a : a + "|" + b), "%s: %s", h.c_str(), complaint(o).c_str()); goto end; } }
    { std::string o = run(base + d + "/main.o " + d + "/other.o -o " + d + "/prog -lpthread", rc); if (rc) { c.fail("link|" + (b.empty() ? a : a + "|" + b), "%s in two translation units: %s", h.c_str(), complaint(o).c_str()); goto end; } }
    { run("./" + d + "/prog", rc); if (rc) c.fail("run|" + a, "%s: the program ends with %d", h.c_str(), rc); }
end:
    for (const char* n : {"main.cpp", "other.cpp", "main.o", "other.o", "prog"}) unlink((d + "/" + n).c_str());
    rmdir(d.c_str()); c.state(mc::mix(std::hash<std::string>()(a + "|" + b), std::hash<std::string>()(cc)));
}
void mc_explore(mc::Ctx& c) {
    const char* e = getenv("CMMCORE_REPO"); std::string root = e ? e : "/repo"; std::vector<std::string> H;
    if (DIR* d = opendir((root + "/cmmcore").c_str())) { while (dirent* x = readdir(d)) { std::string n = x->d_name; if ((n.size() > 2 && n.substr(n.size() - 2) == ".h") || (n.size() > 4 && n.substr(n.size() - 4) == ".hpp")) H.push_back(n); } closedir(d); }
    std::sort(H.begin(), H.end());
    if (H.size() < 5 && c.next("headers")) { c.fail("headers", "%zu headers in %s", H.size(), root.c_str()); return; }
    for (auto& h : H) for (int k = 0; k < (c.thorough ? 9 : 5); k++) {
        if (!c.next("%s with %s", h.c_str(), CC[k])) continue;
        c.guard([&] { program(c, root, h, "", CC[k], mc::fmt("%s with %s", h.c_str(), CC[k])); c.tag("alone"); });
    }
    for (size_t i = 0; i < H.size(); i++) for (size_t j = i + 1; j < H.size(); j++) {
        if (!c.thorough && (i * 7 + j) % 13) continue;
        if (!c.next("%s and %s", H[i].c_str(), H[j].c_str())) continue;
        c.guard([&] { program(c, root, H[i], H[j], CC[0], mc::fmt("%s and %s in both orders", H[i].c_str(), H[j].c_str())); c.tag("pairs"); });
    }
}
