// Stand-in for tree-sitter with its C++ grammar: makes the same kinds of nodes for the part of C++ that
// flowgraph sources are made of (includes, namespaces, types, functions, declarations, calls, lambdas, comments).
#include "tree_sitter/api.h"
#include "ts_standin.hpp"
#include <cctype>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
namespace {
struct N { const char* type; bool named = true; uint32_t a = 0, b = 0; N* parent = nullptr; size_t at = 0; std::vector<N*> kids; std::vector<const char*> field; bool extra = false; };
struct Tok { char k; uint32_t a, b; };      // i identifier, n number, s string, c character, p punctuation, x comment, h preprocessor line, e end
}
struct TSParser { const TSLanguage* lang = nullptr; };
struct TSTree { std::vector<std::unique_ptr<N>> all; N* root = nullptr; std::vector<uint32_t> lines; std::vector<std::unique_ptr<char[]>> names; };
namespace ts_standin { int trees = 0, parsers = 0; size_t errors = 0; bool fail = false; }
namespace {
struct P {
    const std::string t; TSTree* tr; std::vector<Tok> T; size_t i = 0;
    P(const char* s, uint32_t n, TSTree* tree) : t(s, n), tr(tree) { lex(); }
    void lex() {
        uint32_t p = 0, n = (uint32_t)t.size(); static const char* two[] = {"<<=", ">>=", "...", "->*", "::", "->", "++", "--", "<<", ">=", "<=", "==", "!=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^="};
        bool bol = true;
        while (p < n) {
            char c = t[p]; if (c == '\n') { bol = true; ++p; continue; } if (isspace((unsigned char)c)) { ++p; continue; } uint32_t a = p;
            if (c == '/' && p + 1 < n && t[p + 1] == '/') { while (p < n && t[p] != '\n') ++p; T.push_back({'x', a, p}); continue; }
            if (c == '/' && p + 1 < n && t[p + 1] == '*') { p += 2; while (p + 1 < n && !(t[p] == '*' && t[p + 1] == '/')) ++p; p = p + 2 > n ? n : p + 2; T.push_back({'x', a, p}); continue; }
            if (c == '#' && bol) { while (p < n && t[p] != '\n') ++p; T.push_back({'h', a, p}); continue; }
            bol = false;
            if (isalpha((unsigned char)c) || c == '_') { while (p < n && (isalnum((unsigned char)t[p]) || t[p] == '_')) ++p; T.push_back({'i', a, p}); continue; }
            if (isdigit((unsigned char)c) || (c == '.' && p + 1 < n && isdigit((unsigned char)t[p + 1]))) { while (p < n && (isalnum((unsigned char)t[p]) || t[p] == '.' || t[p] == '\'' || ((t[p] == '+' || t[p] == '-') && (t[p - 1] == 'e' || t[p - 1] == 'E')))) ++p; T.push_back({'n', a, p}); continue; }
            if (c == '"' || c == '\'') { ++p; while (p < n && t[p] != c) p += t[p] == '\\' ? 2 : 1; p = p + 1 > n ? n : p + 1; T.push_back({c == '"' ? 's' : 'c', a, p}); continue; }
            size_t len = 1; for (auto w : two) if (!t.compare(p, strlen(w), w)) { len = strlen(w); break; }
            p += (uint32_t)len; T.push_back({'p', a, p});
        }
        T.push_back({'e', n, n});
    }
    // tokens; comments are taken in as extras of the node that is being built
    struct Back { N* n; }; struct Fail {};
    size_t la(size_t j) const { while (T[j].k == 'x') ++j; return j; }
    std::string str(size_t j) const { return t.substr(T[j].a, T[j].b - T[j].a); }
    std::string peek() const { return str(la(i)); } char kind() const { return T[la(i)].k; }
    std::string peek2() const { size_t j = la(i); return T[j].k == 'e' ? "" : str(la(j + 1)); }
    N* mk(const char* type, bool named = true) { tr->all.push_back(std::make_unique<N>()); N* n = tr->all.back().get(); n->type = type; n->named = named; n->a = n->b = UINT32_MAX; return n; }
    void add(N* to, N* k, const char* f = nullptr) { k->parent = to; k->at = to->kids.size(); to->kids.push_back(k); to->field.push_back(f); if (to->a == UINT32_MAX) to->a = k->a; to->b = k->b; }
    void extras(N* to) { while (T[i].k == 'x') { N* c = mk("comment"); c->a = T[i].a; c->b = T[i].b; c->extra = true; ++i; add(to, c); } }
    const char* keep(const std::string& s) { auto p = std::make_unique<char[]>(s.size() + 1); memcpy(p.get(), s.c_str(), s.size() + 1); tr->names.push_back(std::move(p)); return tr->names.back().get(); }
    N* leaf(const char* type, bool named = true) { N* n = mk(type, named); n->a = T[i].a; n->b = T[i].b; ++i; return n; }
    void tok(N* to, const char* want = nullptr) { extras(to); if (want && str(i) != want) throw Fail(); if (T[i].k == 'e') throw Fail(); add(to, leaf(keep(str(i)), false)); }
    void named(N* to, const char* type, const char* f = nullptr) { extras(to); if (T[i].k == 'e') throw Fail(); add(to, leaf(type), f); }
    bool is(const char* s) const { return peek() == s; }
    static bool prim(const std::string& s) { for (auto w : {"int", "float", "double", "bool", "char", "void", "size_t", "uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t", "ssize_t"}) if (s == w) return true; return false; }
    static bool keyword(const std::string& s) { for (auto w : {"return", "if", "else", "while", "for", "do", "switch", "new", "delete", "throw", "try", "catch", "using", "namespace", "struct", "class", "template", "public", "private", "protected", "break", "continue", "case", "default", "true", "false", "nullptr", "this", "sizeof", "const", "static", "constexpr", "auto", "inline", "volatile", "virtual", "explicit", "unsigned", "signed", "operator", "typename", "enum", "union", "goto"}) if (s == w) return true; return false; }
    template <class F> N* attempt(F f) { size_t at = i, made = tr->all.size(); try { return f(); } catch (Fail&) { i = at; (void)made; return nullptr; } }
    // types
    N* targs() {
        N* n = mk("template_argument_list"); tok(n, "<");
        while (!is(">")) {
            N* a = attempt([&] { N* d = mk("type_descriptor"); N* ty = type(); extras(d); add(d, ty, "type"); if (is("*") || is("&")) { N* p = mk(is("*") ? "abstract_pointer_declarator" : "abstract_reference_declarator"); tok(p); add(d, p, "declarator"); } if (!is(",") && !is(">")) throw Fail(); return d; });
            if (!a) a = expr(9); add(n, a); if (is(",")) tok(n, ","); else if (!is(">")) throw Fail();
        }
        tok(n, ">"); return n;
    }
    N* name(bool ty) {      // identifier, maybe with arguments, maybe qualified
        if (kind() != 'i' && !is("::")) throw Fail();
        size_t w = la(i);
        if (is("::")) { N* q = mk("qualified_identifier"); tok(q, "::"); add(q, name(ty), "name"); return q; }
        std::string s = str(w); if (keyword(s)) throw Fail();
        N* l = nullptr; bool nextq = T[w].k != 'e' && str(la(w + 1)) == "::";
        if (str(la(w + 1)) == "<") l = attempt([&] {
            N* tt = mk(ty ? "template_type" : "template_function"); named(tt, ty ? "type_identifier" : "identifier", "name"); add(tt, targs(), "arguments");
            std::string nx = peek(); char nk = kind(); if (ty ? !(nk == 'i' || nx == "::" || nx == ">" || nx == "," || nx == "(" || nx == "{" || nx == "*" || nx == "&" || nx == ";" || nx == ")" || nx == "&&") : !(nx == "(" || nx == "::" || nx == "{")) throw Fail();
            if (nx == "::") { tt->type = "template_type"; tt->kids[0]->type = "type_identifier"; nextq = true; } else nextq = false; return tt; });
        if (!l) { while (T[i].k == 'x') ++i; l = leaf(nextq ? "namespace_identifier" : ty ? (prim(s) ? "primitive_type" : "type_identifier") : "identifier"); }
        if (nextq) { N* q = mk("qualified_identifier"); add(q, l, "scope"); tok(q, "::"); add(q, name(ty), "name"); return q; }
        return l;
    }
    N* type() { if (is("auto")) { while (T[i].k == 'x') ++i; N* n = leaf("placeholder_type_specifier"); N* k = mk("auto", false); k->a = n->a; k->b = n->b; add(n, k); return n; } if (is("unsigned") || is("signed")) { N* n = mk("sized_type_specifier"); tok(n); if (prim(peek())) named(n, "primitive_type"); return n; } return name(true); }
    // expressions
    N* list(const char* type, const char* o, const char* c) {
        N* n = mk(type); tok(n, o);
        while (!is(c)) { if (kind() == 'e') throw Fail(); if (is(",")) { tok(n, ","); continue; } extras(n); if (is(".")) { N* p = mk("initializer_pair"); N* d = mk("field_designator"); tok(d); named(d, "field_identifier"); add(p, d, "designator"); tok(p, "="); add(p, is("{") ? list("initializer_list", "{", "}") : expr(1), "value"); add(n, p); } else add(n, is("{") ? list("initializer_list", "{", "}") : expr(1)); if (!is(",") && !is(c)) throw Fail(); }
        extras(n); tok(n, c); return n;
    }
    N* prim_expr() {
        while (T[i].k == 'x') ++i;
        std::string s = str(i); switch (T[i].k) {
        case 'n': return leaf("number_literal"); case 'c': return leaf("char_literal");
        case 's': { N* n = mk("string_literal"); uint32_t a = T[i].a, b = T[i].b; auto part = [&](const char* ty, bool nm, uint32_t x, uint32_t y) { N* k = mk(ty, nm); k->a = x; k->b = y; add(n, k); }; part("\"", false, a, a + 1); if (b > a + 2) part("string_content", true, a + 1, b - 1); part("\"", false, b - 1, b); ++i; return n; }
        case 'i':
            if (s == "true" || s == "false") return leaf(keep(s)); if (s == "nullptr") return leaf("null"); if (s == "this") return leaf("this");
            if (s == "new") { N* n = mk("new_expression"); tok(n, "new"); add(n, name(true), "type"); if (is("(")) add(n, list("argument_list", "(", ")"), "arguments"); return n; }
            if (s == "delete") { N* n = mk("delete_expression"); tok(n); if (is("[")) { tok(n); tok(n, "]"); } add(n, expr(13)); return n; }
            if (s == "sizeof") { N* n = mk("sizeof_expression"); tok(n); add(n, expr(14), "value"); return n; }
            if (prim(s)) { N* n = leaf("primitive_type"); return n; }
            return name(false);
        case 'p':
            if (s == "(") { N* n = mk("parenthesized_expression"); tok(n, "("); extras(n); add(n, expr(0)); extras(n); tok(n, ")"); return n; }
            if (s == "[") { N* n = mk("lambda_expression"); N* c = mk("lambda_capture_specifier"); tok(c, "["); while (!is("]")) { if (kind() == 'e') throw Fail(); if (kind() == 'i') named(c, "identifier"); else tok(c); } tok(c, "]"); add(n, c, "captures"); if (is("(")) { N* d = mk("abstract_function_declarator"); add(d, params(), "parameters"); add(n, d, "declarator"); } if (is("mutable")) tok(n); if (is("->")) { tok(n); add(n, type()); } add(n, block(), "body"); return n; }
            if (s == "::") return name(false);
            [[fallthrough]];
        default: throw Fail();
        }
    }
    static int prec(const std::string& o) { static const std::pair<const char*, int> W[] = {{"||", 3}, {"&&", 4}, {"|", 5}, {"^", 6}, {"&", 7}, {"==", 8}, {"!=", 8}, {"<", 9}, {">", 9}, {"<=", 9}, {">=", 9}, {"<<", 10}, {"+", 11}, {"-", 11}, {"*", 12}, {"/", 12}, {"%", 12}}; for (auto& w : W) if (o == w.first) return w.second; return -1; }
    N* unary() {
        while (T[i].k == 'x') ++i;
        std::string s = T[i].k == 'p' ? str(i) : ""; const char* ty = s == "&" || s == "*" ? "pointer_expression" : s == "!" || s == "-" || s == "+" || s == "~" ? "unary_expression" : s == "++" || s == "--" ? "update_expression" : nullptr;
        if (ty) { N* n = mk(ty); tok(n); extras(n); add(n, unary(), "argument"); return n; }
        N* l = prim_expr();
        for (;;) {
            if (is("(")) { N* n = mk("call_expression"); add(n, l, "function"); extras(n); add(n, list("argument_list", "(", ")"), "arguments"); l = n; }
            else if (is("{") && (!strcmp(l->type, "template_function") || !strcmp(l->type, "qualified_identifier"))) { N* n = mk("compound_literal_expression"); add(n, l, "type"); add(n, list("initializer_list", "{", "}"), "value"); l = n; }
            else if (is(".") || is("->")) { N* n = mk("field_expression"); add(n, l, "argument"); tok(n); if (kind() != 'i') throw Fail(); named(n, "field_identifier", "field"); l = n; }
            else if (is("[")) { N* n = mk("subscript_expression"); add(n, l, "argument"); add(n, list("subscript_argument_list", "[", "]"), "indices"); l = n; }
            else if (is("++") || is("--")) { N* n = mk("update_expression"); add(n, l, "argument"); tok(n); l = n; }
            else return l;
        }
    }
    N* expr(int min) {
        N* l = unary();
        for (;;) {
            std::string o = peek(); if (kind() != 'p') return l; int p = prec(o);
            if (p >= 0 && p > min) { N* n = mk("binary_expression"); add(n, l, "left"); tok(n); extras(n); add(n, expr(p), "right"); l = n; continue; }
            if (min <= 1 && (o == "=" || o == "+=" || o == "-=" || o == "*=" || o == "/=" || o == "|=" || o == "&=")) { N* n = mk("assignment_expression"); add(n, l, "left"); tok(n); extras(n); add(n, is("{") ? list("initializer_list", "{", "}") : expr(1), "right"); return n; }
            if (min <= 1 && o == "?") { N* n = mk("conditional_expression"); add(n, l, "condition"); tok(n); add(n, expr(1), "consequence"); tok(n, ":"); add(n, expr(1), "alternative"); return n; }
            if (min <= 0 && o == ",") { N* n = mk("comma_expression"); add(n, l, "left"); tok(n); add(n, expr(0), "right"); return n; }
            return l;
        }
    }
    // declarations and statements
    void quals(N* n) { for (;;) { std::string s = peek(); if (s == "static" || s == "inline" || s == "extern") { N* q = mk("storage_class_specifier"); tok(q); extras(n); add(n, q); } else if (s == "const" || s == "constexpr" || s == "volatile" || s == "mutable") { N* q = mk("type_qualifier"); tok(q); add(n, q); } else if (s == "virtual") { tok(n); } else return; } }
    N* params() {
        N* n = mk("parameter_list"); tok(n, "(");
        while (!is(")")) { if (kind() == 'e') throw Fail(); if (is(",")) { tok(n, ","); continue; } if (is("...")) { tok(n); continue; }
            extras(n); N* d = mk("parameter_declaration"); quals(d); add(d, type(), "type"); quals(d); if (!is(",") && !is(")") && !is("=")) add(d, declarator("identifier", true), "declarator"); if (is("=")) { d->type = "optional_parameter_declaration"; tok(d); add(d, expr(1), "default_value"); } add(n, d); if (!is(",") && !is(")")) throw Fail(); }
        extras(n); tok(n, ")"); return n;
    }
    N* declarator(const char* leafty, bool abs = false) {
        if (is("*")) { N* n = mk("pointer_declarator"); tok(n); quals(n); if (!(abs && (is(",") || is(")")))) add(n, declarator(leafty, abs), "declarator"); return n; }
        if (is("&") || is("&&")) { N* n = mk("reference_declarator"); tok(n); if (!(abs && (is(",") || is(")")))) add(n, declarator(leafty, abs)); return n; }
        if (is("[")) { N* n = mk("structured_binding_declarator"); tok(n); while (!is("]")) { if (kind() == 'i') named(n, "identifier"); else tok(n, ","); } tok(n); return n; }
        if (kind() != 'i' || keyword(peek())) throw Fail();
        while (T[i].k == 'x') ++i; N* l = leaf(leafty);
        while (is("[")) { N* n = mk("array_declarator"); add(n, l, "declarator"); tok(n); if (!is("]")) add(n, expr(1), "size"); tok(n, "]"); l = n; }
        return l;
    }
    N* init(N* d) {      // what follows a declared name
        if (is("(")) { size_t at = i; N* f = attempt([&] { list("argument_list", "(", ")"); return d; }); i = at; if (!f) { N* n = mk("function_declarator"); add(n, d, "declarator"); add(n, params(), "parameters"); return n; } }
        if (is("(")) { N* n = mk("init_declarator"); add(n, d, "declarator"); extras(n); add(n, list("argument_list", "(", ")"), "value"); return n; }
        if (is("{")) { N* n = mk("init_declarator"); add(n, d, "declarator"); add(n, list("initializer_list", "{", "}"), "value"); return n; }
        if (is("=")) { N* n = mk("init_declarator"); add(n, d, "declarator"); tok(n); extras(n); add(n, is("{") ? list("initializer_list", "{", "}") : expr(1), "value"); return n; }
        return d;
    }
    N* decl() { N* n = mk("declaration"); quals(n); extras(n); add(n, type(), "type"); quals(n); for (;;) { extras(n); N* d = init(declarator("identifier")); add(n, d, "declarator"); if (is(",")) { tok(n, ","); continue; } extras(n); tok(n, ";"); return n; } }
    N* block() { N* n = mk("compound_statement"); tok(n, "{"); for (;;) { extras(n); if (is("}")) break; if (kind() == 'e') throw Fail(); add(n, statement()); } tok(n, "}"); return n; }
    N* cond() { N* n = mk("condition_clause"); tok(n, "("); N* d = attempt([&] { N* x = mk("declaration"); quals(x); add(x, type(), "type"); add(x, declarator("identifier"), "declarator"); tok(x, "="); add(x, expr(1), "value"); if (!is(")")) throw Fail(); return x; }); add(n, d ? d : expr(0), "value"); tok(n, ")"); return n; }
    N* skip(const char* e) { ts_standin::errors++; N* n = mk(e); int depth = 0; while (kind() != 'e') { std::string s = peek(); if (s == "}" && depth == 0) break; if (s == "{" || s == "(") ++depth; if (s == "}" || s == ")") --depth; tok(n); if ((s == ";" || s == "}") && depth <= 0) break; } if (n->kids.empty()) { if (kind() == 'e') { n->a = n->b = T.back().a; } else tok(n); } return n; }
    N* statement() {
        std::string s = peek(); N* r = nullptr;
        if (kind() == 'h') { while (T[i].k == 'x') ++i; return leaf(str(i).find("include") != std::string::npos ? "preproc_include" : "preproc_call"); }
        if (s == "{") { r = attempt([&] { return block(); }); return r ? r : skip("ERROR"); }
        if (s == ";") { N* n = mk("expression_statement"); tok(n); return n; }
        if (s == "return" || s == "break" || s == "continue" || s == "throw") { r = attempt([&] { N* n = mk(s == "return" ? "return_statement" : s == "break" ? "break_statement" : s == "throw" ? "throw_statement" : "continue_statement"); tok(n); if (!is(";")) { extras(n); add(n, is("{") ? list("initializer_list", "{", "}") : expr(0)); } tok(n, ";"); return n; }); }
        else if (s == "if") r = attempt([&] { N* n = mk("if_statement"); tok(n); if (is("constexpr")) tok(n); add(n, cond(), "condition"); extras(n); add(n, statement(), "consequence"); if (is("else")) { N* e = mk("else_clause"); tok(e); extras(e); add(e, statement()); extras(n); add(n, e, "alternative"); } return n; });
        else if (s == "try") r = attempt([&] { N* n = mk("try_statement"); tok(n); extras(n); add(n, block(), "body"); while (is("catch")) { N* c = mk("catch_clause"); tok(c); add(c, params(), "parameters"); add(c, block(), "body"); extras(n); add(n, c); } return n; });
        else if (s == "while") r = attempt([&] { N* n = mk("while_statement"); tok(n); add(n, cond(), "condition"); extras(n); add(n, statement(), "body"); return n; });
        else if (s == "for") r = attempt([&] { N* n = mk("for_statement"); tok(n); tok(n, "("); N* rg = attempt([&] { N* x = mk("for_range_loop"); quals(x); add(x, type(), "type"); add(x, declarator("identifier"), "declarator"); tok(x, ":"); add(x, expr(1), "right"); return x; }); if (rg) { n->type = "for_range_loop"; for (size_t k = 0; k < rg->kids.size(); ++k) add(n, rg->kids[k], rg->field[k]); } else { if (is(";")) tok(n); else { N* d = attempt([&] { return decl(); }); if (d) add(n, d, "initializer"); else { add(n, expr(0), "initializer"); tok(n, ";"); } } if (!is(";")) add(n, expr(0), "condition"); tok(n, ";"); if (!is(")")) add(n, expr(0), "update"); } tok(n, ")"); extras(n); add(n, statement(), "body"); return n; });
        else if (s == "using") r = attempt([&] { N* n = mk("using_declaration"); tok(n); if (is("namespace")) tok(n); add(n, name(false)); if (is("=")) { n->type = "alias_declaration"; tok(n); add(n, type(), "type"); } tok(n, ";"); return n; });
        else if (s == "struct" || s == "class") r = attempt([&] { return klass(); });
        else if (s == "namespace") r = attempt([&] { N* n = mk("namespace_definition"); tok(n); if (!is("{")) named(n, "namespace_identifier", "name"); N* d = mk("declaration_list"); tok(d, "{"); for (;;) { extras(d); if (is("}")) break; if (kind() == 'e') throw Fail(); add(d, statement()); } tok(d, "}"); extras(n); add(n, d, "body"); return n; });
        else if (s == "template") r = attempt([&] { N* n = mk("template_declaration"); tok(n); N* p = mk("template_parameter_list"); tok(p, "<"); while (!is(">")) { if (kind() == 'e') throw Fail(); tok(p); } tok(p, ">"); add(n, p, "parameters"); extras(n); add(n, statement()); return n; });
        else {
            r = attempt([&] { return func("identifier"); });
            if (!r) r = attempt([&] { return decl(); });
            if (!r) r = attempt([&] { N* n = mk("expression_statement"); add(n, expr(0)); extras(n); tok(n, ";"); return n; });
        }
        return r ? r : skip("ERROR");
    }
    N* func(const char* leafty) {
        N* n = mk("function_definition"); quals(n); if (is("explicit")) tok(n); if (peek2() != "(" && !is("~")) { extras(n); add(n, type(), "type"); }
        N* d = mk("function_declarator"); N* ptr = nullptr; if (is("*") || is("&")) { ptr = mk(is("*") ? "pointer_declarator" : "reference_declarator"); tok(ptr); }
        extras(d); if (is("~")) { N* x = mk("destructor_name"); tok(x); named(x, "identifier"); add(d, x, "declarator"); } else { if (kind() != 'i' || keyword(peek())) throw Fail(); while (T[i].k == 'x') ++i; add(d, leaf(leafty), "declarator"); } add(d, params(), "parameters"); while (is("const") || is("noexcept") || is("override")) { N* q = mk(is("const") ? "type_qualifier" : is("override") ? "virtual_specifier" : "noexcept"); tok(q); add(d, q); }
        if (ptr) { add(ptr, d, "declarator"); d = ptr; } add(n, d, "declarator");
        if (is(":")) { N* l = mk("field_initializer_list"); tok(l); for (;;) { N* fi = mk("field_initializer"); add(fi, name(true)); if (!strcmp(fi->kids[0]->type, "type_identifier")) fi->kids[0]->type = "field_identifier"; add(fi, is("{") ? list("initializer_list", "{", "}") : list("argument_list", "(", ")")); extras(l); add(l, fi); if (is(",")) tok(l); else break; } add(n, l); }
        if (!is("{")) throw Fail(); extras(n); add(n, block(), "body"); return n;
    }
    N* klass() {
        N* c = mk(is("struct") ? "struct_specifier" : "class_specifier"); tok(c); if (kind() != 'i') throw Fail(); named(c, "type_identifier", "name");
        if (is(":")) { N* b = mk("base_class_clause"); tok(b); for (;;) { if (is("public") || is("private") || is("protected")) { N* a = mk("access_specifier"); tok(a); add(b, a); } add(b, name(true)); if (is(",")) tok(b); else break; } add(c, b); }
        if (!is("{")) throw Fail(); N* l = mk("field_declaration_list"); tok(l, "{");
        for (;;) {
            extras(l); if (is("}")) break; if (kind() == 'e') throw Fail();
            if (is("public") || is("private") || is("protected")) { N* a = mk("access_specifier"); tok(a); add(l, a); tok(l, ":"); continue; }
            if (is("struct") || is("class") || is("using") || is("template")) { add(l, statement()); continue; }
            N* f = attempt([&] { return func("field_identifier"); }); if (f) { add(l, f); continue; }
            f = attempt([&] { N* n = mk("field_declaration"); quals(n); extras(n); add(n, type(), "type"); quals(n); for (;;) { extras(n); add(n, declarator("field_identifier"), "declarator"); if (is("=")) { tok(n); add(n, expr(1), "default_value"); } else if (is("{")) add(n, list("initializer_list", "{", "}"), "default_value"); if (is(",")) tok(n); else break; } tok(n, ";"); return n; });
            add(l, f ? f : skip("ERROR"));
        }
        tok(l, "}"); add(c, l, "body"); if (is(";")) { N* d = c; (void)d; } N* w = c; return (tail(w), w);
    }
    void tail(N*) { pending = true; }
    bool pending = false;
    void run() { N* r = mk("translation_unit"); tr->root = r; for (;;) { extras(r); if (T[i].k == 'e') break; if (pending && is(";")) { tok(r, ";"); pending = false; continue; } pending = false; if (is("}")) { tok(r); ts_standin::errors++; continue; } add(r, statement()); } r->a = 0; r->b = (uint32_t)t.size(); }
};
const N* nd(TSNode n) { return (const N*)n.id; }
TSNode mkn(const N* n, const TSTree* t) { TSNode r; memset(&r, 0, sizeof r); r.id = n; r.tree = n ? t : nullptr; return r; }
TSPoint pt(const TSTree* t, uint32_t b) { uint32_t lo = 0, hi = (uint32_t)t->lines.size(); while (hi - lo > 1) { uint32_t m = (lo + hi) / 2; if (t->lines[m] <= b) lo = m; else hi = m; } return {lo, b - t->lines[lo]}; }
[[noreturn]] void misuse(const char* w) { fprintf(stderr, "tree-sitter stand-in: %s\n", w); abort(); }
}
struct TSLanguage { int x; }; static const TSLanguage CPP{1};
extern "C" {
const TSLanguage* tree_sitter_cpp() { return &CPP; }
TSParser* ts_parser_new(void) { ++ts_standin::parsers; return new TSParser; }
void ts_parser_delete(TSParser* p) { if (p) { --ts_standin::parsers; delete p; } }
bool ts_parser_set_language(TSParser* p, const TSLanguage* l) { p->lang = l; return true; }
const TSLanguage* ts_parser_language(const TSParser* p) { return p->lang; }
void ts_parser_reset(TSParser*) {}
TSTree* ts_parser_parse_string(TSParser* p, const TSTree* old, const char* s, uint32_t n) { if (!p->lang || ts_standin::fail) return nullptr; if (old) misuse("parsing with an old tree is not supported"); TSTree* t = new TSTree; ++ts_standin::trees; t->lines.push_back(0); for (uint32_t k = 0; k < n; ++k) if (s[k] == '\n') t->lines.push_back(k + 1); P q(s, n, t); q.run(); return t; }
TSTree* ts_tree_copy(const TSTree*) { misuse("copies are not supported"); }
void ts_tree_delete(TSTree* t) { if (!t) return; --ts_standin::trees; delete t; }
TSNode ts_tree_root_node(const TSTree* t) { return mkn(t->root, t); }
const char* ts_node_type(TSNode n) { if (!n.id) misuse("type of no node"); return nd(n)->type; }
uint32_t ts_node_start_byte(TSNode n) { return n.id ? nd(n)->a : 0; } uint32_t ts_node_end_byte(TSNode n) { return n.id ? nd(n)->b : 0; }
TSPoint ts_node_start_point(TSNode n) { return pt(n.tree, nd(n)->a); } TSPoint ts_node_end_point(TSNode n) { return pt(n.tree, nd(n)->b); }
bool ts_node_is_null(TSNode n) { return !n.id; } bool ts_node_is_named(TSNode n) { return nd(n)->named; } bool ts_node_is_missing(TSNode) { return false; } bool ts_node_is_extra(TSNode n) { return nd(n)->extra; } bool ts_node_is_error(TSNode n) { return !strcmp(nd(n)->type, "ERROR"); }
bool ts_node_has_error(TSNode n) { if (ts_node_is_error(n)) return true; for (auto k : nd(n)->kids) if (ts_node_has_error(mkn(k, n.tree))) return true; return false; }
bool ts_node_eq(TSNode a, TSNode b) { return a.id == b.id && a.tree == b.tree; }
TSNode ts_node_parent(TSNode n) { return mkn(nd(n)->parent, n.tree); }
uint32_t ts_node_child_count(TSNode n) { return n.id ? (uint32_t)nd(n)->kids.size() : 0; }
TSNode ts_node_child(TSNode n, uint32_t i) { return mkn(n.id && i < nd(n)->kids.size() ? nd(n)->kids[i] : nullptr, n.tree); }
uint32_t ts_node_named_child_count(TSNode n) { uint32_t r = 0; if (n.id) for (auto k : nd(n)->kids) r += k->named; return r; }
TSNode ts_node_named_child(TSNode n, uint32_t i) { if (n.id) for (auto k : nd(n)->kids) if (k->named && i-- == 0) return mkn(k, n.tree); return mkn(nullptr, nullptr); }
const char* ts_node_field_name_for_child(TSNode n, uint32_t i) { return n.id && i < nd(n)->field.size() ? nd(n)->field[i] : nullptr; }
TSNode ts_node_child_by_field_name(TSNode n, const char* f, uint32_t len) { if (n.id) for (size_t i = 0; i < nd(n)->kids.size(); ++i) { const char* g = nd(n)->field[i]; if (g && strlen(g) == len && !strncmp(g, f, len)) return mkn(nd(n)->kids[i], n.tree); } return mkn(nullptr, nullptr); }
static TSNode sib(TSNode n, int step, bool named) { const N* p = nd(n)->parent; if (!p) return mkn(nullptr, nullptr); for (long k = (long)nd(n)->at + step; k >= 0 && k < (long)p->kids.size(); k += step) if (!named || p->kids[k]->named) return mkn(p->kids[k], n.tree); return mkn(nullptr, nullptr); }
TSNode ts_node_next_sibling(TSNode n) { return sib(n, 1, false); } TSNode ts_node_prev_sibling(TSNode n) { return sib(n, -1, false); } TSNode ts_node_next_named_sibling(TSNode n) { return sib(n, 1, true); } TSNode ts_node_prev_named_sibling(TSNode n) { return sib(n, -1, true); }
static TSNode cur(const TSTreeCursor* c) { return mkn((const N*)c->id, (const TSTree*)c->tree); }
TSTreeCursor ts_tree_cursor_new(TSNode n) { TSTreeCursor c; memset(&c, 0, sizeof c); c.tree = n.tree; c.id = n.id; return c; } void ts_tree_cursor_delete(TSTreeCursor*) {}
TSNode ts_tree_cursor_current_node(const TSTreeCursor* c) { return cur(c); }
static bool go(TSTreeCursor* c, TSNode n) { if (!n.id) return false; c->id = n.id; return true; }
bool ts_tree_cursor_goto_first_child(TSTreeCursor* c) { return go(c, ts_node_child(cur(c), 0)); } bool ts_tree_cursor_goto_next_sibling(TSTreeCursor* c) { return go(c, ts_node_next_sibling(cur(c))); } bool ts_tree_cursor_goto_parent(TSTreeCursor* c) { return go(c, ts_node_parent(cur(c))); }
const char* ts_tree_cursor_current_field_name(const TSTreeCursor* c) { const N* n = (const N*)c->id; return n->parent ? n->parent->field[n->at] : nullptr; }
}
namespace ts_standin { static void dumpn(const N* n, const std::string& t, std::string& o, int d) { o += std::string(d * 2, ' ') + n->type + (n->kids.empty() ? "  " + t.substr(n->a, n->b - n->a) : "") + "\n"; for (auto k : n->kids) dumpn(k, t, o, d + 1); }
std::string dump(const std::string& t) { TSTree tr; P q(t.c_str(), (uint32_t)t.size(), &tr); q.run(); std::string o; dumpn(tr.root, t, o, 0); return o; } }
