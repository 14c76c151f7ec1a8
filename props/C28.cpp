// C28: Mermaid text read back and compared with the description it was made from.
#include "pbt.hpp"
#include "tools/mermaid/src/flowgraph.h"
#include "tools/mermaid/src/mermaid_renderer.h"
#include <algorithm>
#include <fstream>
#include <set>
#include <sstream>
using namespace cler; using Str = std::string;

static Str awkward(pbt::Src& s) {
    static const char* bits[] = {"a", "B", "7", "_", " ", "-", ".", "[", "]", "(", ")", "<", ">", "&", "\"", "'", "/", "\\", "{", "}", "|", ":", ";", "-->", "end", "style", "::", "\xc3\xa4", "\xe2\x82\xac", "Block", "node", "\xff", "%", "="};
    Str n; size_t k = 1 + s.size(0, 6); for (size_t i = 0; i < k; ++i) n += bits[s.below(sizeof bits / sizeof *bits)]; return n;
}
static Str plain(pbt::Src& s) { static const char* w[] = {"source", "sink", "adder", "gain", "fanout", "lpf", "x", "y1", "my_block", "Throttle", "node_a"}; Str n = w[s.below(11)]; if (s.flip()) n += std::to_string(s.below(12)); return n; }
static FlowGraph description(pbt::Src& s, bool dangling, bool odd) {
    FlowGraph g; g.name = odd ? awkward(s) : plain(s); size_t n = s.size(0, 12); std::vector<Str> names;
    for (size_t i = 0; i < n; ++i) {
        Block b; b.name = odd && s.flip() ? awkward(s) : plain(s); if (odd && !names.empty() && s.chance(1, 3)) { b.name = names[s.below(names.size())]; char c = "_-. +"[s.below(5)]; if (s.flip()) b.name += c; else b.name[s.below(b.name.size())] = c; }
        if (g.blocks.count(b.name)) continue;
        b.type = odd && s.chance(1, 2) ? awkward(s) : s.pick<Str>({"AddBlock", "SourceCWBlock", "SinkNull", "ns::GainBlock", "BlockAverager", "Custom"});
        if (s.chance(1, 2)) b.template_params = odd ? awkward(s) : s.pick<Str>({"float", "std::complex<float>", "int, 4", "std::array<char, 2>"});
        if (s.chance(2, 3)) b.inputs.push_back("in"); if (s.chance(2, 3)) b.outputs.push_back("out");
        b.in_flowgraph = s.chance(4, 5); b.line = (int)s.below(200); names.push_back(b.name); g.blocks[b.name] = b;
    }
    size_t e = names.empty() ? 0 : s.size(0, 16);
    for (size_t i = 0; i < e; ++i) { Connection c; c.source_block = s.pick(names); c.target_block = s.pick(names); c.source_channel = "out"; c.target_channel = "in"; c.channel_index = (int)s.below(4) - 1; if (s.chance(1, 8) && i) c = g.connections[s.below(i)]; g.connections.push_back(c); }
    if (dangling && s.chance(1, 2)) for (size_t k = 1 + s.below(3); k--;) { Connection c; c.source_block = names.empty() || s.flip() ? "nowhere" + std::to_string(s.below(3)) : s.pick(names); c.target_block = names.empty() || s.flip() ? "nothing" + std::to_string(s.below(3)) : s.pick(names); size_t at = g.connections.empty() ? 0 : s.below(g.connections.size() + 1); g.connections.insert(g.connections.begin() + at, c); }
    return g;
}
static bool id_ok(const Str& i) { if (i.empty() || i == "end") return false; for (unsigned char c : i) if (!isalnum(c) && c != '_') return false; return true; }
static Str unescape(const Str& t) {
    Str r; for (size_t i = 0; i < t.size();) {
        if (t[i] == '&') { static const std::pair<const char*, char> E[] = {{"&lt;", '<'}, {"&gt;", '>'}, {"&amp;", '&'}, {"&quot;", '"'}, {"&apos;", '\''}, {"&#39;", '\''}, {"&#34;", '"'}}; bool hit = false; for (auto& e : E) if (!t.compare(i, strlen(e.first), e.first)) { r += e.second; i += strlen(e.first); hit = true; break; } if (hit) continue; FAIL_CASE("a bare '&' in a label: %s", t.c_str()); }
        CHECK(t[i] != '<' && t[i] != '>' && t[i] != '"', "a bare '%c' in a label part: %s", t[i], t.c_str()); r += t[i++];
    } return r;
}
struct Node { Str id, name, type, params; int shape; };
struct Drawn { Str dir; std::vector<Node> nodes; std::vector<std::pair<Str, Str>> edges; std::map<Str, int> styles; };
static Drawn read_back(const Str& text, const Str& fence) {
    Drawn d; std::vector<Str> L; std::istringstream ss(text); Str l; while (std::getline(ss, l)) L.push_back(l);
    CHECK(!text.empty() && text.back() == '\n', "the text does not end with a line end"); size_t a = 0, b = L.size();
    if (fence == "backticks") { CHECK(b >= 3 && L[0] == "```mermaid" && L[b - 1] == "```", "fences"); ++a; --b; } else if (fence == "colons") { CHECK(b >= 3 && L[0] == "::: mermaid" && L[b - 1] == ":::", "fences"); ++a; --b; }
    CHECK(a < b && L[a].compare(0, 10, "flowchart ") == 0, "no flowchart header"); d.dir = L[a].substr(10);
    for (size_t i = a + 1; i < b; ++i) {
        Str t = L[i]; while (!t.empty() && t[0] == ' ') t.erase(0, 1); if (t.empty()) continue;
        if (t.compare(0, 6, "style ") == 0) { Str id = t.substr(6, t.find(' ', 6) - 6); CHECK(id_ok(id), "style of '%s'", id.c_str()); CHECK(t.find(" fill:#", 6) != Str::npos, "style line '%s'", t.c_str()); d.styles[id]++; continue; }
        size_t p = 0; while (p < t.size() && (isalnum((unsigned char)t[p]) || t[p] == '_')) ++p; Str id = t.substr(0, p), rest = t.substr(p); CHECK(id_ok(id), "line '%s' does not start with an identifier", t.c_str());
        if (rest.compare(0, 5, " --> ") == 0) { Str to = rest.substr(5); CHECK(id_ok(to), "edge to '%s'", to.c_str()); d.edges.push_back({id, to}); continue; }
        static const char* sh[3][2] = {{"([\"", "\"])"}, {"[/\"", "\"/]"}, {"[\"", "\"]"}}; bool hit = false;
        for (int k = 0; k < 3 && !hit; ++k) { Str o = sh[k][0], c = sh[k][1]; if (rest.size() >= o.size() + c.size() && !rest.compare(0, o.size(), o) && !rest.compare(rest.size() - c.size(), c.size(), c)) {
            Str lab = rest.substr(o.size(), rest.size() - o.size() - c.size()); CHECK(lab.find('"') == Str::npos, "a quote within the label '%s' ends it early", lab.c_str());
            std::vector<Str> part; size_t q; while ((q = lab.find("<br/>")) != Str::npos) { part.push_back(lab.substr(0, q)); lab.erase(0, q + 5); } part.push_back(lab); CHECK(part.size() == 2 || part.size() == 3, "label of %zu parts", part.size());
            Node n{id, unescape(part[0]), unescape(part[1]), "", k}; if (part.size() == 3) n.params = unescape(part[2]); d.nodes.push_back(n); hit = true; } }
        CHECK(hit, "line '%s' is neither a node nor an edge", t.c_str());
    }
    return d;
}
static bool same(const FlowGraph& a, const FlowGraph& b) {
    auto key = [](const FlowGraph& g) { std::ostringstream o; o << g.name << '\1' << g.is_valid << g.error_message; for (auto& w : g.warnings) o << '\2' << w; for (auto& [n, b] : g.blocks) { o << '\3' << n << '\1' << b.name << '\1' << b.type << '\1' << b.template_params << '\1' << b.in_flowgraph << b.line << ' ' << b.inputs.size() << ' ' << b.outputs.size(); } for (auto& c : g.connections) o << '\4' << c.source_block << '\1' << c.source_channel << '\1' << c.target_block << '\1' << c.target_channel << c.channel_index; return o.str(); };
    return key(a) == key(b);
}
static void compare(const FlowGraph& g, const Drawn& d, const Str& dir) {
    CHECK(d.dir == dir, "direction '%s'", d.dir.c_str()); std::map<Str, Str> id_of; std::set<Str> ids; size_t used = 0;
    for (auto& n : d.nodes) {
        auto it = g.blocks.find(n.name); CHECK(it != g.blocks.end(), "a node for '%s', which is not a block", n.name.c_str()); const Block& b = it->second;
        CHECK(b.in_flowgraph, "a node for '%s', which has no runner", n.name.c_str()); CHECK(!id_of.count(n.name), "two nodes for '%s'", n.name.c_str()); id_of[n.name] = n.id; CHECK(ids.insert(n.id).second, "two nodes are both called %s", n.id.c_str());
        Str t = n.type; CHECK(t.size() >= 2 && t[0] == '(' && t.back() == ')', "type part '%s'", t.c_str()); t = t.substr(1, t.size() - 2); bool ok = t == b.type; for (size_t p = 0; (p = b.type.find("Block", p)) != Str::npos; ++p) { Str u = b.type; u.erase(p, 5); ok |= t == u; } CHECK(ok, "type '%s' is shown as '%s'", b.type.c_str(), t.c_str());
        if (b.template_params.empty()) CHECK(n.params.empty(), "parameters '%s' shown", n.params.c_str()); else CHECK(n.params == "<" + b.template_params + ">", "parameters '%s' are shown as '%s'", b.template_params.c_str(), n.params.c_str());
        int want = b.inputs.empty() && !b.outputs.empty() ? 0 : b.outputs.empty() && !b.inputs.empty() ? 1 : 2; CHECK(n.shape == want, "'%s' has shape %d instead of %d", n.name.c_str(), n.shape, want);
        CHECK(d.styles.count(n.id) && d.styles.at(n.id) == 1, "'%s' is styled %d times", n.name.c_str(), d.styles.count(n.id) ? d.styles.at(n.id) : 0);
    }
    for (auto& [n, b] : g.blocks) if (b.in_flowgraph) { ++used; CHECK(id_of.count(n), "block '%s' is not drawn", n.c_str()); }
    CHECK(d.styles.size() == used, "%zu styles for %zu blocks", d.styles.size(), used);
    CHECK(d.edges.size() == g.connections.size(), "%zu edges for %zu connections", d.edges.size(), g.connections.size());
    // blocks without a runner have no node line; their identifier has to be theirs alone, too
    for (size_t i = 0; i < d.edges.size(); ++i) for (int k = 0; k < 2; ++k) {
        const Str& name = k ? g.connections[i].target_block : g.connections[i].source_block; const Str& id = k ? d.edges[i].second : d.edges[i].first;
        auto it = id_of.find(name); if (it == id_of.end()) { CHECK(ids.insert(id).second, "an edge of '%s' is drawn at another block (%s)", name.c_str(), id.c_str()); id_of[name] = id; } else CHECK(it->second == id, "edge %zu is drawn at %s, not at '%s'", i, id.c_str(), name.c_str());
    }
}
PROPERTY(drawing, 4000, 200000, "a generated description (awkward and look-alike names, parallel and self connections, unused blocks) drawn, read back and compared; non-trivial: at least two blocks and a connection") {
    bool odd = s.chance(2, 3); FlowGraph g = description(s, true, odd), g0 = g; Str dir = s.pick<Str>({"LR", "TD", "TB", "RL", "BT"}), fence = s.pick<Str>({"backticks", "colons", "none"});
    MermaidRenderer r(dir, fence); Str t = r.render(g); CHECK(same(g, g0), "drawing changed the description"); compare(g, read_back(t, fence), dir);
    CHECK(r.render(g) == t, "drawing again gives something else"); MermaidRenderer r2(dir, fence); CHECK(r2.render(g) == t, "another renderer gives something else");
    if (s.chance(1, 4)) { FlowGraph h = description(s, true, odd); compare(h, read_back(r.render(h), fence), dir); CHECK(r.render(g) == t, "drawing something else in between changes the drawing"); s.label("two descriptions"); }
    if (s.chance(1, 8)) { r.render_to_file(g, "out"); std::ifstream f("out.md", std::ios::binary); std::stringstream ss; ss << f.rdbuf(); CHECK(ss.str() == t, "the file differs from the drawing"); s.label("written to a file"); }
    s.note("%zu blocks, %zu connections", g.blocks.size(), g.connections.size()); for (auto& b : g.blocks) s.note(" '%s'", b.first.c_str());
    s.nontrivial(g.blocks.size() >= 2 && !g.connections.empty()); s.label(odd, "awkward names");
}
PROPERTY(validity, 4000, 200000, "the validity report of a generated description against its connections and runners; non-trivial: something to report") {
    FlowGraph g = description(s, s.chance(1, 2), s.chance(1, 3)); g.is_valid = s.flip(); if (s.flip()) { g.error_message = "old"; g.warnings = {"old"}; }
    auto blocks = g.blocks.size(); auto conns = g.connections.size(); std::set<Str> unknown, alone, unused;
    for (auto& c : g.connections) for (auto& n : {c.source_block, c.target_block}) if (!g.blocks.count(n)) unknown.insert(n);
    for (auto& [n, b] : g.blocks) { bool con = false; for (auto& c : g.connections) con |= c.source_block == n || c.target_block == n; if (b.in_flowgraph && !con) alone.insert(n); if (!b.in_flowgraph) unused.insert(n); }
    FlowGraph before = g; bool v = g.validate(); CHECK(g.is_valid == v, "validity is %d, reported is %d", (int)g.is_valid, (int)v); CHECK(g.blocks.size() == blocks && g.connections.size() == conns, "validation changed the description");
    auto ends = [](const Str& a, const Str& b) { return a.size() >= b.size() && !a.compare(a.size() - b.size(), b.size(), b); };
    if (!unknown.empty()) { CHECK(!v, "a connection to something unknown is found valid"); bool named = false; for (auto& n : unknown) named |= ends(g.error_message, n); CHECK(named, "the error '%s' does not name what is unknown", g.error_message.c_str()); }
    else {
        CHECK(v, "refused without reason: %s", g.error_message.c_str()); CHECK(g.error_message.empty(), "error '%s' without reason", g.error_message.c_str());
        CHECK(g.warnings.size() == alone.size() + unused.size(), "%zu warnings, due are %zu", g.warnings.size(), alone.size() + unused.size());
        std::multiset<Str> w(g.warnings.begin(), g.warnings.end());
        for (auto& n : alone) { bool hit = false; for (auto& x : w) hit |= ends(x, n) && x.find("solated") != Str::npos; CHECK(hit, "no warning that '%s' is isolated", n.c_str()); }
        for (auto& n : unused) { bool hit = false; for (auto& x : w) hit |= ends(x, n) && x.find("not used") != Str::npos; CHECK(hit, "no warning that '%s' is not used", n.c_str()); }
    }
    FlowGraph again = g; CHECK(again.validate() == v && again.warnings == g.warnings && again.error_message == g.error_message, "validating again gives another report");
    s.note("%zu blocks, %zu connections, unknown %zu isolated %zu unused %zu", blocks, conns, unknown.size(), alone.size(), unused.size()); s.nontrivial(!unknown.empty() || !alone.empty() || !unused.empty());
}
