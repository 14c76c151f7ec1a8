// The diagram preview of the VS Code extension, run under node against a stand-in for the editor.
#include "pbt.hpp"
#include <csignal>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
static std::string root() { const char* r = getenv("CLER_REPO"); return r ? r : "/repo"; }
struct Node { pid_t pid = 0; FILE *to = nullptr, *from = nullptr;
    void start() { int a[2], b[2]; if (pipe(a) || pipe(b)) abort(); pid_t me = getpid(); pid = fork(); if (!pid) { prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != me) _exit(1); dup2(a[0], 0); dup2(b[1], 1); for (int i = 3; i < 256; ++i) close(i); execlp("node", "node", EXT_DRIVER, (root() + "/tools/mermaid/vscode-extension/src").c_str(), (char*)nullptr); _exit(127); } close(a[0]); close(b[1]); to = fdopen(a[1], "w"); from = fdopen(b[0], "r"); }
    std::string ask(const std::string& q) { if (!pid) start(); signal(SIGPIPE, SIG_IGN); fputs(q.c_str(), to); fputc('\n', to); fflush(to); std::string r; int c; while ((c = fgetc(from)) != EOF && c != '\n') r += (char)c; return r; } };
static std::string json(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') r += '\\', r += (char)c; else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char)c; } return r + "\""; }
struct In { std::istringstream s; std::string word() { std::string w; s >> w; return w; } size_t num() { size_t n = 0; s >> n; return n; } std::string text(bool* none = nullptr) { std::string w = word(), r; if (none) *none = w == "-"; for (size_t i = 1; i + 1 < w.size(); i += 2) r += (char)strtol(w.substr(i, 2).c_str(), nullptr, 16); return r; } };
struct Doc { std::string name; bool cpp; std::string text; int version = 0; };
static const char* odd[] = {"main", "a b", "$(touch pwned)", "`touch pwned`", "x\" ; touch pwned ; \"y", "$HOME", "it's", "\\", "ü→", "a&b|c;d", "-v", "x\ny", "%s", "*", "a.b", "main"};
static std::string label(const std::string& n) { std::string r; for (char c : n) r += c == '\n' ? '~' : c; return r; }

PROPERTY_T(preview, 480, 6000, 3, "a preview was opened and its source saved or changed afterwards") {
    std::vector<Doc> docs; size_t n = s.range(1, 4); for (size_t i = 0; i < n; ++i) { Doc d; std::string dir = s.chance(1, 3) ? s.pick<std::string>({"p", "q", "$(touch pwned)"}) + "/" : ""; d.name = dir + odd[s.below(sizeof odd / sizeof *odd)] + (s.chance(7, 8) ? ".cpp" : ".hpp"); for (auto& e : docs) if (e.name == d.name) d.name = dir + "other" + std::to_string(i) + ".cpp"; d.cpp = !i || s.chance(7, 8); docs.push_back(d); }
    std::string place; const char* names[] = {"configured", "workspace", "path", "home"}; bool conf = s.chance(1, 3), ws = s.flip(); std::string tools = "["; bool any = false; for (int i = 0; i < 4; ++i) if (i == 2 ? s.chance(9, 10) : s.chance(1, 3)) { tools += std::string(any ? "," : "") + json(names[i]); any = true; if (place.empty() && (i > 1 || (i ? ws : conf))) place = names[i]; } tools += "]";
    auto fresh = [&](size_t k) { Doc& d = docs[k]; d.text = "doc " + std::to_string(k) + " v" + std::to_string(++d.version) + (s.chance(1, 12) ? " FAIL" : s.chance(1, 12) ? " NONE" : "") + (s.chance(1, 3) ? " SLOW" : "") + (s.flip() ? "\n" : ""); };
    std::string list = "["; for (size_t k = 0; k < n; ++k) { fresh(k); list += (k ? "," : "") + std::string("{\"name\":") + json(docs[k].name) + ",\"cpp\":" + (docs[k].cpp ? "true" : "false") + ",\"text\":" + json(docs[k].text) + "}"; } list += "]";
    s.note("tool %s; documents:", place.empty() ? "missing" : place.c_str()); for (auto& d : docs) s.note(" '%s'%s", label(d.name).c_str(), d.cpp ? "" : " (not C++)"); s.note(";");
    // the history and what it should lead to
    auto good = [](const std::string& t) { return t.find("FAIL") == t.npos && t.find("NONE") == t.npos; }; std::string ops = "["; int cur = -1; bool autoup = true, used = false; size_t warnings = 0, errors = 0; struct Show { size_t doc; std::string text; }; std::vector<Show> shows; std::vector<std::string> now(n); std::vector<size_t> most(n); std::vector<bool> pend(n); std::vector<bool> sure(n, true);
    auto op = [&](const std::string& o) { ops += (ops.size() > 1 ? "," : "") + o; }; auto q = [](size_t k) { return std::to_string(k); };
    // `now`: content of the diagram at rest; changes are pending until the extension rests
    auto settle = [&] { if (cur >= 0 && pend[(size_t)cur]) { size_t c = (size_t)cur; pend[c] = false; if (good(docs[c].text)) now[c] = docs[c].text, sure[c] = true; else sure[c] = false; } };
    size_t bursts = 0;
    bool first = s.chance(5, 6);
    do {
        switch (first ? 0 : s.weighted({3, 6, 3, 2, 2, 1})) {
        case 0: { size_t k = first ? 0 : s.below(n + 1); first = false; op("{\"op\":\"quiet\"}"); settle(); op("{\"op\":\"open\",\"doc\":" + q(k) + "}"); s.note(" open %zu;", k); if (k == n || !docs[k].cpp) { ++warnings; break; } if (place.empty() || !good(docs[k].text)) { ++errors; if (!place.empty()) ++most[k]; break; } ++most[k]; cur = (int)k; now[k] = docs[k].text; sure[k] = true; shows.push_back({k, docs[k].text}); break; }
        case 1: case 2: { size_t k = cur >= 0 && s.chance(3, 4) ? (size_t)cur : s.below(n); bool save = s.flip(); size_t burst = save ? 1 : s.size(1, 4); for (size_t i = 0; i < burst; ++i) { fresh(k); op(std::string("{\"op\":\"") + (save ? "save" : "change") + "\",\"doc\":" + q(k) + ",\"text\":" + json(docs[k].text) + "}"); } s.note(" %s %zu%s;", save ? "save" : "change", k, good(docs[k].text) ? "" : " (no diagram)"); if ((int)k == cur && autoup && docs[k].cpp) { pend[k] = true; used = true; ++most[k]; ++bursts; if (docs[k].text.find("SLOW") != std::string::npos && s.chance(2, 3)) { op("{\"op\":\"wait\",\"ms\":" + q(save ? 20 : 40) + "}"); s.note(" (while the tool runs)"); } } break; }
        case 3: { size_t ms = s.pick({1, 5, 12, 30}); op("{\"op\":\"wait\",\"ms\":" + q(ms) + "}"); break; }
        case 4: op("{\"op\":\"quiet\"}"); s.note(" rest;"); settle(); break;
        default: op("{\"op\":\"quiet\"}"); settle(); autoup = !autoup; op(std::string("{\"op\":\"auto\",\"on\":") + (autoup ? "true" : "false") + "}"); s.note(" auto-update %s;", autoup ? "on" : "off");
        }
    } while (s.more(10));
    bool off = s.chance(1, 6); if (off) { op("{\"op\":\"quiet\"}"); settle(); if (cur >= 0) { fresh((size_t)cur); op("{\"op\":\"change\",\"doc\":" + q((size_t)cur) + ",\"text\":" + json(docs[(size_t)cur].text) + "}"); } op("{\"op\":\"deactivate\"}"); s.note(" change and deactivate;"); } else settle(); ops += "]";
    static Node node; static int serial = 0; char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) abort(); std::string dir = std::string(cwd) + "/case" + std::to_string(getpid()) + "_" + std::to_string(serial++); size_t delay = s.pick({10, 1, 25});
    std::string a = node.ask("{\"dir\":" + json(dir) + ",\"tools\":" + tools + ",\"configured\":" + (conf ? "true" : "false") + ",\"workspace\":" + (ws ? "true" : "false") + ",\"delay\":" + q(delay) + ",\"docs\":" + list + ",\"ops\":" + ops + "}");
    In in{std::istringstream(a)}; std::string st = in.word(); CHECK(st == "ok", "the extension does not run: %s", st == "bad" ? in.text().c_str() : a.c_str());
    size_t w = 0, e = 0; struct Got { std::string file, then, end; bool gone; }; std::vector<Got> got; for (size_t k = in.num(); k--;) { std::string kind = in.word(), m = in.text(); bool t0, t1; std::string then = in.text(&t0), end = in.text(&t1); if (kind == "warning") ++w; else if (kind == "error") ++e; else { CHECK(!t0, "a preview of a file that does not exist is shown"); got.push_back({m, then, end, t1}); } }
    CHECK(w == warnings, "%zu warnings for %zu requests without C++ file", w, warnings); CHECK(e == errors, "%zu errors shown for %zu previews that could not be made", e, errors); CHECK(got.size() == shows.size(), "%zu previews shown, %zu asked for and possible", got.size(), shows.size());
    std::map<size_t, std::string> file; for (size_t i = 0; i < got.size(); ++i) { CHECK(got[i].then == shows[i].text, "the preview of '%s' shows '%s', its source was '%s'", label(docs[shows[i].doc].name).c_str(), got[i].then.c_str(), shows[i].text.c_str()); if (file.count(shows[i].doc)) CHECK(file[shows[i].doc] == got[i].file, "two diagrams of one source"); file[shows[i].doc] = got[i].file; }
    for (auto& x : file) for (auto& y : file) if (x.first != y.first) CHECK(x.second != y.second, "'%s' and '%s' have one diagram", label(docs[x.first].name).c_str(), label(docs[y.first].name).c_str());
    std::vector<size_t> runs(n); for (size_t k = in.num(); k--;) { size_t c = in.num(); std::vector<std::string> v; while (c--) v.push_back(in.text()); CHECK(v.size() == 4 && v[2] == "-o", "the tool is run with %zu arguments", v.size() - 1); CHECK(v[0] == place, "the tool run is the one of %s, not of %s", v[0].c_str(), place.c_str()); bool known = false; for (size_t i = 0; i < n; ++i) if (v[1] == dir + "/src/" + docs[i].name) ++runs[i], known = true; CHECK(known, "the tool is run on '%s', which is no document", label(v[1]).c_str()); }
    for (size_t i = 0; i < n; ++i) CHECK(runs[i] <= most[i], "the tool is run %zu times on '%s', it was opened or changed %zu times", runs[i], label(docs[i].name).c_str(), most[i]);
    size_t stray = in.num(); CHECK(!stray, "a file name was run as a command: '%s' exists", in.text().c_str());
    if (cur >= 0 && sure[(size_t)cur]) { CHECK(!got.back().gone, "the diagram is gone"); CHECK(got.back().end == now[(size_t)cur], "the preview of '%s' stays at '%s'; its source is '%s', when the extension came to rest%s", label(docs[(size_t)cur].name).c_str(), got.back().end.c_str(), now[(size_t)cur].c_str(), off ? " and was switched off" : ""); }
    s.nontrivial(used && !shows.empty()); s.label(bursts > 2, "several updates"); s.label(off, "switched off");
}
