// C39: generated flowgraph sources through the diagram tool's reader (over a stand-in for tree-sitter) and its command line.
#include "pbt.hpp"
#include "stubs/ts/ts_standin.hpp"
#define main cler_mermaid_main
#include "tools/mermaid/src/main.cpp"
#undef main
#include <algorithm>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
using Str = std::string;
struct Blk { Str type, qual, params; size_t at = 0; bool used = false; std::set<Str> in; bool out = false; };
struct Con { Str from, to, ch; int idx; };
struct Made { Str text, name; std::map<Str, Blk> blocks; std::vector<Con> cons; Str unknown; size_t comments = 0; };
// layout and things that look like code but are none
static Str gap(pbt::Bulk& r, Made& m, bool must = false) {
    Str g; size_t k = r.below(12); if (k < 7) g = ""; else if (k < 9) g = " "; else if (k < 11) g = "\n        "; else { ++m.comments; static const char* c[] = {" /* out */ ", " // e.g. the left one\n        ", " /* b.in */ ", " // see GainBlock, BlockRunner(&x, &y.in)\n  ", " /* , ( */ ", " // a.b.c\n"}; g = c[r.below(6)]; }
    if (must && g.empty()) g = " "; return g;
}
static Str space(pbt::Bulk& r) { return r.below(6) ? "" : r.below(2) ? " " : "\n            "; }
static Str decoy(pbt::Bulk& r, int i) {
    Str n = "d" + std::to_string(i);
    switch (r.below(21)) {
    case 18: return "GainBlock* p" + n + " = elsewhere;\n"; case 19: return "GainBlock& q" + n + " = elsewhere;\n"; case 20: return "GainBlock* r" + n + ";\n";
    case 0: return "// GainBlock " + n + "(\"" + n + "\");\n"; case 1: return "/* auto fg = cler::make_other_flowgraph(cler::BlockRunner(&" + n + ", &x.in)); */\n"; case 2: return "const size_t " + n + " = 1000;\n"; case 3: return "std::vector<int> " + n + "{1, 2, 3};\n";
    case 4: return "float " + n + " = 2.0f * gainOf(3, \"BlockRunner(&a, &b.in)\");\n"; case 5: return "std::string " + n + "(\"GainBlock q(1); make_x_flowgraph(\");\n"; case 6: return "if (flag > 3 && other) { printf(\"%d\\n\", 4); }\n"; case 7: return "for (int i = 0; i < 4; ++i) { total += table[i]; }\n";
    case 8: return "auto " + n + " = [&](float x) { return x * 2.0f; };\n"; case 9: return "gui.set_window(0, 0, 800, 600);\n"; case 10: return "using Sample" + n + " = std::complex<float>;\n"; case 11: return "// it's a comment with \"quotes\n";
    case 12: return "std::complex<float> " + n + "(1.0f, 0.0f);\n"; case 13: return "int " + n + ", e" + n + " = 3;\n"; case 14: return "while (running) { step(\"/* no comment\"); }\n"; case 15: return "std::unique_ptr<Window> " + n + " = std::make_unique<Window>(\"w\");\n"; case 16: return "Gadget " + n + "(\"g\", 3);\n"; default: return "\n";
    }
}
static Str args(pbt::Bulk& r, bool some) {
    static const char* a[] = {"\"Name\"", "\"a, b\"", "\"x(1)\"", "1.0f", "-3", "2 * 1024", "N", "cfg.rate", "Mode::Fast", "{\"I\", \"Q\"}", "static_cast<float>(N)", "\"// no comment\"", "std::vector<int>{1, 2}", "[](float x) { return x > 1.0f; }", "\"\\\"quoted\\\"\"", "'c'", "true", "&cfg", "std::complex<float>(1, 2)", "flags[2]"};
    Str t = some ? "\"n\"" : ""; size_t n = r.below(4); for (size_t i = 0; i < n; ++i) { if (!t.empty()) t += ","; t += space(r) + Str(t.empty() ? "" : " ") + a[r.below(sizeof a / sizeof *a)]; } return t;
}
static Made source(pbt::Src& s, bool plainly) {
    Made m; pbt::Bulk r(s.subseed()); std::vector<Str> names; size_t n = s.size(1, 10);
    static const char* heads[] = {"#include \"cler.hpp\"\n#include <complex>\n", "// the flowgraph\n#include \"cler.hpp\"\n\nstruct GainBlock : public cler::BlockBase {\n    cler::Channel<float> in;\n    GainBlock(const char* name, float g) : cler::BlockBase(name), in(1024), _gain(g) {}\n    cler::Result<cler::Empty, cler::Error> procedure(cler::ChannelBase<float>* out) { float v; while (in.size() > 0) { in.pop(v); out->push(v * _gain); } return cler::Empty{}; }\nprivate:\n    float _gain;\n};\n", "using namespace cler;\n", ""};
    m.text = heads[s.below(4)]; int scope = (int)s.below(5); m.text += scope == 0 ? "int main() {\n" : scope == 1 ? "namespace app {\nvoid run(int argc, char** argv) {\n" : scope == 2 ? "int main(int argc, char* argv[]) {\n    try {\n" : scope == 3 ? "int main() {\n    if (argc > 2) {\n" : "auto task = [](int x) {\n";
    int nest = s.chance(1, 6) ? 1 + (int)s.below(s.chance(1, 4) ? 60 : 5) : 0; for (int i = 0; i < nest; ++i) m.text += r.below(2) ? "{ " : "if (ready(" + std::to_string(i) + ")) {\n";
    // names and the order they are declared in
    for (size_t i = 0; i < n; ++i) { static const char* w[] = {"source", "sink", "adder", "gain", "fanout", "lpf", "x", "my_block", "Throttle", "in", "make_it", "a_flowgraph"}; Str nm = w[s.below(12)]; if (s.flip()) nm += std::to_string(s.below(12)); if (std::find(names.begin(), names.end(), nm) == names.end()) names.push_back(nm); }
    int dk = 0; size_t runs = 0;
    auto declare = [&](size_t from, size_t to) {
        for (size_t i = from; i < to;) {
            while (s.chance(1, 3)) m.text += "    " + decoy(r, dk++);
            Blk b; b.type = s.pick<Str>({"GainBlock", "AddBlock", "my_block_t", "BlockAverager", "SourceCWBlock", "blocky"}); if (s.chance(1, 3)) b.params = s.pick<Str>({"float", "std::complex<float>", "std::array<uint8_t, 4>", "int, 4", "cler::Foo<Bar<int>, std::vector<float>>", "float, (3 > 2)"}); if (!plainly && s.chance(1, 6)) b.qual = s.pick<Str>({"my::", "a::b::", "::lib::"});
            m.text += "    " + Str(s.chance(1, 8) ? "static " : s.chance(1, 10) ? "const " : "") + b.qual + b.type + (b.params.empty() ? "" : "<" + b.params + ">");
            size_t many = !plainly && s.chance(1, 6) ? 1 + s.below(3) : 1;
            for (size_t k = 0; k < many && i < to; ++k, ++i) { m.text += k ? "," + space(r) + " " : gap(r, m, true); b.at = m.text.size(); m.text += names[i]; switch (s.below(plainly ? 3 : 4)) { case 0: m.text += "(" + space(r) + args(r, true) + space(r) + ")"; break; case 1: m.text += "{" + args(r, true) + "}"; break; case 2: m.text += " = " + b.qual + b.type + (b.params.empty() ? "" : "<" + b.params + ">") + "(" + args(r, false) + ")"; break; default: break; } m.blocks[names[i]] = b; }
            m.text += ";" + Str(s.chance(1, 8) ? " // was: GainBlock old(\"x\");" : "") + "\n";
        }
    };
    declare(0, names.size());
    while (s.chance(1, 4)) m.text += "    " + decoy(r, dk++);
    if (s.chance(1, 25)) for (size_t k = 30 + s.below(250); k--;) m.text += "    " + decoy(r, dk++);
    if (s.chance(1, 10)) m.text += "    GainBlock* by_pointer = &" + names[0] + ";\n"; if (s.chance(1, 10)) m.text += "    GainBlock& by_reference = " + names[0] + ";\n";
    if (s.chance(5, 6)) {
        Str kind = s.pick<Str>({"desktop", "freertos", "my_own", "x"}), cl = s.flip() ? "cler::" : ""; m.name = kind; size_t runners = s.size(1, names.size() + 2);
        if (s.chance(1, 8)) { m.name = ""; m.text += "    auto fg = cler::FlowGraph<cler::" + kind + "TaskPolicy>("; } else
        m.text += "    auto fg = " + cl + "make_" + kind + "_flowgraph(";
        for (size_t k = 0; k < runners; ++k) {
            Str from = k < names.size() && s.chance(4, 5) ? names[k] : s.pick(names); bool bad = s.chance(1, 60); if (bad) from = "nobody";
            m.text += (k ? "," : "") + gap(r, m) + (s.chance(3, 4) ? "cler::" : "") + "BlockRunner(" + (plainly ? "" : gap(r, m)) + "&" + from; ++runs; size_t outs = s.weighted({2, 4, 2, 1}); if (m.blocks.count(from)) m.blocks[from].used = true;
            for (size_t o = 0; o < outs; ++o) {
                Str to = s.chance(1, 80) ? "unheard_of" : s.pick(names), ch = s.pick<Str>({"in", "in0", "in()", "ports.left", "measured_in"}); int idx = -1; Str full = ch;
                if (s.chance(1, 3)) { static const char* ix[] = {"0", "1", "2", "3", "17", "N", "i", "i + 1", "N - 1", "99999999999"}; static const char* odd[] = {"2 * i", "3 - k", "0x10", "1 + 1"}; Str e = !plainly && s.chance(1, 6) ? odd[s.below(4)] : ix[s.below(10)]; ch = "in"; full = "in[" + e + "]"; if (e.size() < 3 && isdigit((unsigned char)e[0])) idx = atoi(e.c_str()); else ch = full; }
                m.text += "," + (plainly ? space(r) : gap(r, m)) + (s.chance(9, 10) || full == "in()" ? full == "in()" ? "" : "&" : "&") + to + "." + full;
                Con c{from, to, ch, idx}; if (m.blocks.count(to)) m.blocks[to].used = true;
                if (std::none_of(m.cons.begin(), m.cons.end(), [&](const Con& d) { return d.from == c.from && d.to == c.to && d.ch == c.ch && d.idx == c.idx; })) m.cons.push_back(c);
                if (m.blocks.count(from)) m.blocks[from].out = true; if (m.blocks.count(to)) m.blocks[to].in.insert(full);
            }
            m.text += (plainly ? Str() : gap(r, m)) + ")";
        }
        m.text += gap(r, m) + ");\n"; if (s.flip()) m.text += "    fg.run();\n";
        if (s.flip()) m.text += "    " + decoy(r, dk++);
    }
    for (int i = 0; i < nest; ++i) m.text += "}\n";
    m.text += scope == 0 ? "    return 0;\n}\n" : scope == 1 ? "}\n}\n" : scope == 2 ? "    } catch (const std::exception& e) { puts(\"failed\"); }\n    return 0;\n}\n" : scope == 3 ? "    }\n    return 0;\n}\n" : "};\n";
    for (auto& c : m.cons) { if (m.unknown.empty() && !m.blocks.count(c.from)) m.unknown = c.from; if (m.unknown.empty() && !m.blocks.count(c.to)) m.unknown = c.to; }
    return m;
}
static Str stem(const Str& f) { Str n = f.substr(f.find_last_of('/') + 1); size_t d = n.find(".cpp"); return d == Str::npos ? n : n.substr(0, d); }
static void compare(const Made& m, const cler::FlowGraph& g, const Str& file) {
    const char* T = m.text.c_str();
    for (auto& [n, b] : m.blocks) {
        auto it = g.blocks.find(n); CHECK(it != g.blocks.end(), "block %s is not found in:\n%s", n.c_str(), T); const cler::Block& k = it->second;
        CHECK(k.name == n && (k.type == b.type || k.type == b.qual + b.type), "block %s: called %s, type %s, not %s", n.c_str(), k.name.c_str(), k.type.c_str(), b.type.c_str()); CHECK(k.template_params == b.params, "block %s: template parameters '%s', not '%s' in:\n%s", n.c_str(), k.template_params.c_str(), b.params.c_str(), T);
        int line = 1 + (int)std::count(m.text.begin(), m.text.begin() + (long)b.at, '\n'), col = (int)(b.at - (m.text.rfind('\n', b.at) + 1)); CHECK(k.line == line && k.column == col, "block %s: line %d column %d, not %d, %d", n.c_str(), k.line, k.column, line, col);
        CHECK(k.in_flowgraph == b.used, "block %s is %s in the flowgraph:\n%s", n.c_str(), k.in_flowgraph ? "said to be" : "not said to be", T);
        CHECK(std::set<Str>(k.inputs.begin(), k.inputs.end()) == b.in && k.inputs.size() == b.in.size(), "block %s: %zu inputs, not %zu in:\n%s", n.c_str(), k.inputs.size(), b.in.size(), T); CHECK(k.outputs.size() == (b.out ? 1 : 0), "block %s: %zu outputs", n.c_str(), k.outputs.size());
    }
    for (auto& [n, b] : g.blocks) CHECK(m.blocks.count(n), "%s of type %s is no block of:\n%s", n.c_str(), b.type.c_str(), T);
    CHECK(g.connections.size() == m.cons.size(), "%zu connections, not %zu in:\n%s", g.connections.size(), m.cons.size(), T);
    for (auto& c : m.cons) CHECK(std::any_of(g.connections.begin(), g.connections.end(), [&](const cler::Connection& d) { return d.source_block == c.from && d.target_block == c.to && d.target_channel == c.ch && d.channel_index == c.idx; }), "no connection %s -> %s.%s (%d) in:\n%s", c.from.c_str(), c.to.c_str(), c.ch.c_str(), c.idx, T);
    CHECK(g.is_valid == m.unknown.empty(), "%s, unknown: '%s'", g.is_valid ? "valid" : g.error_message.c_str(), m.unknown.c_str()); if (!g.is_valid) { bool named = false; for (auto& c : m.cons) for (auto& w : {c.from, c.to}) if (!m.blocks.count(w) && g.error_message.find(w) != Str::npos) named = true; CHECK(named, "the unknown block is not named: %s", g.error_message.c_str()); }
    Str want = m.name.empty() ? stem(file) : m.name; CHECK(g.name == want, "the flowgraph is called %s, not %s", g.name.c_str(), want.c_str());
}
static void at_rest() { CHECK(ts_standin::trees == 0, "%d syntax trees are not given back", ts_standin::trees); }
static const Str FILES[] = {"a.cpp", "dir/b.cpp", "some.dir/c.cpp", "main.cc", "noext", "/tmp/x/y.cpp"};
PROPERTY(read_source, 4000, 80000, "one to three generated sources read one after another with the same reader; non-trivial: at least three blocks and two connections") {
    cler::CppParser p; size_t n = 1 + s.below(3), blocks = 0, cons = 0, comments = 0;
    for (size_t i = 0; i < n; ++i) {
        Made m = source(s, false); Str f = FILES[s.below(6)]; if (i == 0) s.note("%s", m.text.c_str()); size_t before = ts_standin::errors;
        if (!m.cons.empty()) CHECK(cler::CppParser::is_flowgraph_file(m.text), "not taken for a flowgraph:\n%s", m.text.c_str());
        cler::FlowGraph g = p.parse_file(m.text, f); if (ts_standin::errors != before) { fprintf(stderr, "the stand-in cannot read:\n%s\n%s\n", m.text.c_str(), ts_standin::dump(m.text).c_str()); abort(); }
        compare(m, g, f); at_rest(); blocks += m.blocks.size(); cons += m.cons.size(); comments += m.comments;
        if (s.chance(1, 8)) { ts_standin::fail = true; cler::FlowGraph h = p.parse_file(m.text, f); ts_standin::fail = false; CHECK(!h.is_valid && !h.error_message.empty(), "a source that could not be read is taken as valid"); at_rest(); }
    }
    s.nontrivial(blocks > 2 && cons > 1); s.label(comments > 0, "comments between"); s.label(n > 1, "several files");
}
PROPERTY(any_text, 3000, 60000, "generated sources cut, spliced and damaged, and arbitrary text; non-trivial: something was changed") {
    Made m = source(s, false); Str t = m.text; pbt::Bulk r(s.subseed()); size_t n = 1 + s.below(6);
    for (size_t i = 0; i < n; ++i) switch (s.below(5)) {
    case 0: t.resize(r.below(t.size() + 1)); break; case 1: { size_t a = r.below(t.size() + 1), l = r.below(30); t.erase(std::min(a, t.size()), l); break; } case 2: { static const char* w[] = {"(", ")", "{", "}", "[", "]", "<", ">", ",", ";", ".", "&", "\"", "/*", "//", "BlockRunner(", "Block", "BlockRunner()", "make_x_flowgraph()", "make_flowgraph(BlockRunner(a))", "BlockRunner(&)", "BlockRunner(., .)", "in[", "&x.in]["}; t.insert(r.below(t.size() + 1), w[r.below(sizeof w / sizeof *w)]); break; }
    case 3: { size_t a = r.below(t.size() + 1), b = r.below(t.size() + 1); t.insert(a, t.substr(b, r.below(40))); break; } default: if (!t.empty()) t[r.below(t.size())] = (char)(r.below(3) ? 32 + r.below(95) : r.below(256)); }
    if (t.size() > 6000) t.resize(6000);
    cler::CppParser p; cler::FlowGraph g = p.parse_file(t, "x.cpp"); at_rest(); s.nontrivial(t != m.text);
    for (auto& c : g.connections) CHECK(t.find(c.source_block) != Str::npos && t.find(c.target_block) != Str::npos, "connection of %s and %s, which the text does not have", c.source_block.c_str(), c.target_block.c_str());
    for (auto& [nm, b] : g.blocks) CHECK(t.find(nm) != Str::npos, "block %s, which the text does not have", nm.c_str());
    cler::FlowGraph h = p.parse_file(t, "x.cpp"); CHECK(h.blocks.size() == g.blocks.size() && h.connections.size() == g.connections.size() && h.is_valid == g.is_valid && h.error_message == g.error_message && h.warnings == g.warnings, "read again, it is something else");
}
static Str slurp(const Str& f) { std::ifstream i(f, std::ios::binary); std::stringstream o; o << i.rdbuf(); return o.str(); }
static bool there(const Str& f) { struct stat st; return !stat(f.c_str(), &st); }
static bool no_folder(const Str& to) { return to != "out" && to != "in/t"; }     // no such folder
PROPERTY(command_line, 1500, 30000, "one to five files, of which some have no flowgraph, an unknown block, no block, or do not exist, and options; non-trivial: at least two files or a target given") {
    mkdir("in.d", 0700); mkdir("in", 0700); static const Str names[] = {"a.cpp", "in/b.cpp", "in.d/c.cpp", "in.d/noext", "e.f.cc", "in/no_ext", "./g.cpp"}; static const Str outs[] = {"a_flowgraph.md", "b_flowgraph.md", "c_flowgraph.md", "noext_flowgraph.md", "e.f_flowgraph.md", "no_ext_flowgraph.md", "g_flowgraph.md"};
    for (auto& o : outs) unlink(o.c_str()); for (auto& f : names) unlink(f.c_str()); unlink("out.md"); unlink("in/t.md");
    size_t n = 1 + s.weighted({2, 2, 2, 1, 1}); bool verbose = s.chance(1, 3), target = s.chance(1, 4); Str to = target ? s.pick<Str>({"out", "in/t", "nodir/t", "/dev/full/t"}) : ""; std::vector<size_t> id{0, 1, 2, 3, 4, 5, 6}; for (size_t i = 0; i < 7; ++i) std::swap(id[i], id[i + s.below(7 - i)]);
    std::vector<Str> av{"cler-mermaid"}; std::map<Str, Str> want; size_t good = 0, bad = 0, skipped = 0, nb = 0, nc = 0, nw = 0; size_t where = s.below(n + 1);
    for (size_t i = 0; i < n; ++i) {
        const Str& f = names[id[i]]; const Str o = target ? to + ".md" : outs[id[i]]; if (target && i == where) { av.push_back("-o"); av.push_back(to); } av.push_back(f);
        switch (s.weighted({6, 1, 1, 1, 1})) {
        case 0: { Made m = source(s, true); std::ofstream(f, std::ios::binary) << m.text; if (m.cons.empty() && m.text.find("BlockRunner") == Str::npos && !(m.text.find("make_") != Str::npos && m.text.find("_flowgraph") != Str::npos)) { ++skipped; break; } if (!m.unknown.empty()) { ++bad; break; } cler::CppParser p; auto g = p.parse_file(m.text, f); if (target && no_folder(to)) { ++bad; break; } want[o] = cler::MermaidRenderer().render(g); ++good; nb += g.blocks.size(); nc += g.connections.size(); nw += g.warnings.size(); break; }
        case 1: std::ofstream(f) << "int main() { return 0; }\n"; ++skipped; break;
        case 2: std::ofstream(f) << "int main() { GainBlock a(\"a\"); cler::BlockRunner(&a, &b.in); }\n"; ++bad; break;
        case 3: std::ofstream(f) << "int main() { auto f = make_desktop_flowgraph(); }\n"; ++bad; break;
        default: ++bad;
        }
    }
    if (target && where == n) { av.push_back("-o"); av.push_back(to); } if (verbose) av.insert(av.begin() + 1 + (long)s.below(av.size() - (target && where == n ? 2 : 0)) * 0, s.flip() ? "-v" : "--verbose");
    int want_rc = bad > 0; bool refused = target && n > 1, help = false, wrong = false;
    if (s.chance(1, 12)) { help = true; av.insert(av.begin() + 1, s.flip() ? "-h" : "--help"); want_rc = 0; } else if (s.chance(1, 12)) { wrong = true; av.insert(av.begin() + 1, s.pick<Str>({"-x", "--output", "-"})); }
    if ((refused || wrong) && !help) want_rc = 1; if (refused || help || wrong) want.clear();
    std::vector<char*> argv; for (auto& a : av) argv.push_back(a.data()); argv.push_back(nullptr);
    std::ostringstream co, ce; auto* o1 = std::cout.rdbuf(co.rdbuf()); auto* o2 = std::cerr.rdbuf(ce.rdbuf()); int rc; try { rc = cler_mermaid_main((int)av.size(), argv.data()); } catch (...) { std::cout.rdbuf(o1); std::cerr.rdbuf(o2); throw; } std::cout.rdbuf(o1); std::cerr.rdbuf(o2);
    Str line; for (auto& a : av) line += a + " "; s.note("%s", line.c_str()); at_rest(); CHECK(ts_standin::parsers == 0, "%d parsers are not given back", ts_standin::parsers);
    CHECK(rc == want_rc, "%s: ends with %d, not %d; says %s%s", line.c_str(), rc, want_rc, co.str().c_str(), ce.str().c_str());
    for (auto& [f, t] : want) { CHECK(there(f), "%s: %s is not written; says %s%s", line.c_str(), f.c_str(), co.str().c_str(), ce.str().c_str()); CHECK(slurp(f) == t, "%s: %s differs from the diagram of its source:\n%s", line.c_str(), f.c_str(), slurp(f).c_str()); }
    for (auto& o : outs) CHECK(want.count(o) || !there(o), "%s: %s is written", line.c_str(), o.c_str()); for (auto o : {"out.md", "in/t.md"}) CHECK(want.count(o) || !there(o), "%s: %s is written", line.c_str(), o);
    if (!help && !wrong && !refused) {
        Str so = co.str(); auto num = [&](const char* k) { size_t p = so.find(k); return p == Str::npos ? -1L : atol(so.c_str() + p + strlen(k)); };
        if (verbose || n > 1) CHECK(num("Files scanned: ") == (long)n && num("Files skipped: ") == (long)skipped && num("Succeeded: ") == (long)good && num("Failed: ") == (long)bad, "%s: summary of %zu files, %zu skipped, %zu good, %zu bad: %s", line.c_str(), n, skipped, good, bad, so.c_str());
        if (verbose) CHECK(num("Total blocks: ") == (long)nb && num("Total connections: ") == (long)nc && num("Total warnings: ") == (long)nw, "%s: totals %zu, %zu, %zu: %s", line.c_str(), nb, nc, nw, so.c_str());
    }
    s.nontrivial(n > 1 || target); s.label(bad > 0 && good > 0, "good and bad files together");
}
