// Drives SPARQLLexer and SPARQLParser: token by token, and whole texts, whose structure is written down in full.
#include "harness.h"
#include <map>
#include <set>
#include <algorithm>
#include "cts/parser/SPARQLLexer.hpp"
#include "cts/parser/SPARQLParser.hpp"
using namespace std;
typedef vector<string> W; typedef SPARQLParser P; typedef SPARQLLexer L;
static W split(const string &l) { istringstream s(l); W w; string x; while (s >> x) w.push_back(x); return w; }
static string unhex(const string &h) { string r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), NULL, 16); return r; }
static vector<int> codes(const string &s) { vector<int> v; for (unsigned char c : s) v.push_back(c); return v; }
static string cs(const string &s) { string o = "["; for (size_t i = 0; i < s.size(); ++i) o += (i ? "," : "") + to_string((int)(unsigned char)s[i]); return o + "]"; }
static const char *names[] = {"None", "Error", "Eof", "IRI", "String", "Variable", "Identifier", "Colon", "Semicolon", "Comma", "Dot", "Underscore", "LCurly", "RCurly", "LParen", "RParen", "LBracket", "RBracket", "Anon", "Equal", "NotEqual", "Less", "LessOrEqual", "Greater", "GreaterOrEqual", "At", "Type", "Not", "Or", "And", "Plus", "Minus", "Mul", "Div", "Integer", "Decimal", "Double"};
static const L::Token toks[] = {L::None, L::Error, L::Eof, L::IRI, L::String, L::Variable, L::Identifier, L::Colon, L::Semicolon, L::Comma, L::Dot, L::Underscore, L::LCurly, L::RCurly, L::LParen, L::RParen, L::LBracket, L::RBracket, L::Anon, L::Equal, L::NotEqual, L::Less, L::LessOrEqual, L::Greater, L::GreaterOrEqual, L::At, L::Type, L::Not, L::Or, L::And, L::Plus, L::Minus, L::Mul, L::Div, L::Integer, L::Decimal, L::Double};
static string name(L::Token t) { for (size_t i = 0; i < sizeof(toks) / sizeof(*toks); ++i) if (toks[i] == t) return names[i]; return "?"; }
static L::Token tok(const string &n) { for (size_t i = 0; i < sizeof(toks) / sizeof(*toks); ++i) if (n == names[i]) return toks[i]; return L::None; }
// Writes structures as JSON.  Variables are written by name; those without one by their rank.
struct Dump {
    map<unsigned, int> ranks; set<unsigned> anon; bool count; map<string, unsigned> ids; bool same;
    Dump() : count(true), same(true) {}
    string var(const P &p, unsigned id) {
        string n = p.getVariableName(id);
        if (n.empty()) { if (count) anon.insert(id); return el("anon", "", 0, "", ranks[id]); }
        if (ids.count(n) && ids[n] != id) same = false; ids[n] = id;
        return el("var", n, 0, "", 0);
    }
    string el(const char *t, const string &n, int x, const string &y, int k) { return string("{\"t\":\"") + t + "\",\"n\":" + cs(n) + ",\"x\":" + to_string(x) + ",\"y\":" + cs(y) + ",\"k\":" + to_string(k) + "}"; }
    string element(const P &p, const P::Element &e) {
        if (e.type == P::Element::Variable) return var(p, e.id);
        if (e.type == P::Element::IRI) return el("iri", e.value, 0, "", 0);
        return el("lit", e.value, e.subType == P::Element::None ? 0 : e.subType == P::Element::CustomLanguage ? 1 : 2, e.subType == P::Element::None ? "" : e.subTypeValue, 0);
    }
    template <class V, class F> string list(const V &v, F f) { string o = "["; bool first = true; for (auto &x : v) { if (!first) o += ","; first = false; o += f(x); } return o + "]"; }
    string filter(const P &p, const P::Filter &f) {
        typedef P::Filter F; string t; string n = f.value, y; int x = 0, d = 0;
        switch (f.type) {
#define C(a, b) case F::a: t = b; break;
            C(Or, "or") C(And, "and") C(Equal, "eq") C(NotEqual, "ne") C(Less, "lt") C(LessOrEqual, "le") C(Greater, "gt") C(GreaterOrEqual, "ge") C(Plus, "plus") C(Minus, "minus") C(Mul, "mul") C(Div, "div")
            C(Not, "not") C(UnaryPlus, "uplus") C(UnaryMinus, "uminus") C(IRI, "iri") C(Function, "call") C(ArgumentList, "list") C(Builtin_str, "str") C(Builtin_lang, "lang") C(Builtin_langmatches, "langmatches")
            C(Builtin_datatype, "datatype") C(Builtin_bound, "bound") C(Builtin_sameterm, "sameterm") C(Builtin_isiri, "isiri") C(Builtin_isblank, "isblank") C(Builtin_isliteral, "isliteral") C(Builtin_regex, "regex")
            C(Builtin_replace, "replace") C(Builtin_in, "in") C(Builtin_notin, "notin") C(Builtin_notexists, "notexists") C(Builtin_contains, "contains") C(Builtin_xsddecimal, "xsddecimal") C(Builtin_xsdstring, "xsdstring")
#undef C
#define A(a, b) case F::a: t = b; d = f.distinct; break;
            A(Aggregate_min, "min") A(Aggregate_max, "max") A(Aggregate_sum, "sum") A(Aggregate_avg, "avg") A(Aggregate_sample, "sample") A(Aggregate_count, "count") A(Aggregate_group_concat, "group_concat")
#undef A
            case F::Literal: t = "lit"; x = f.valueArg == P::Element::None ? 0 : f.valueArg == P::Element::CustomLanguage ? 1 : 2; y = x ? f.valueType : ""; break;
            case F::Variable: t = "var"; n = p.getVariableName(f.valueArg); if (ids.count(n) && ids[n] != f.valueArg) same = false; ids[n] = f.valueArg; break;
            default: t = "?";
        }
        string o = "{\"f\":\"" + t + "\",\"a\":["; const F *a[] = {f.arg1, f.arg2, f.arg3, f.arg4};
        for (int i = 0; i < 4; ++i) o += string(i ? "," : "") + "[" + (a[i] ? filter(p, *a[i]) : "") + "]";
        return o + "],\"n\":" + cs(n) + ",\"x\":" + to_string(x) + ",\"y\":" + cs(y) + ",\"d\":" + to_string(d) + ",\"q\":[" + (f.pointerToSubquery ? query(*f.pointerToSubquery) : "") + "],\"g\":[" +
               (f.pointerToSubPattern ? group(p, *f.pointerToSubPattern) : "") + "]}";
    }
    string group(const P &p, const P::PatternGroup &g) {
        auto gs = [&](const vector<P::PatternGroup> &v) { return list(v, [&](const P::PatternGroup &x) { return group(p, x); }); };
        return "{\"p\":" + list(g.patterns, [&](const P::Pattern &x) { return "{\"s\":" + element(p, x.subject) + ",\"p\":" + element(p, x.predicate) + ",\"o\":" + element(p, x.object) + "}"; }) +
               ",\"as\":" + assigns(p, g.assignments) + ",\"fl\":" + list(g.filters, [&](const P::Filter &x) { return filter(p, x); }) + ",\"opt\":" + gs(g.optional) +
               ",\"un\":" + list(g.unions, gs) + ",\"sq\":" + list(g.subqueries, [&](const shared_ptr<P> &x) { return query(*x); }) + ",\"mi\":" + gs(g.minuses) +
               ",\"va\":" + list(g.values, [&](const P::PatternGroup::ValueBindings &x) { return "{\"vars\":" + list(x.variables, [&](unsigned v) { return var(p, v); }) + ",\"vals\":" + list(x.values, [&](const P::Element &e) { return element(p, e); }) + "}"; }) + "}";
    }
    string assigns(const P &p, const vector<P::Assignment> &v) { return list(v, [&](const P::Assignment &x) { return "{\"e\":" + filter(p, *x.expression) + ",\"v\":" + element(p, x.outputVar) + "}"; }); }
    string by(const P &p, const P::Filter *e, unsigned id, int d) { return string("{\"e\":[") + (e ? filter(p, *e) : "") + "],\"v\":[" + (id != ~0u ? var(p, id) : "") + "],\"d\":" + to_string(d) + "}"; }
    string query(const P &p) {
        int mod = p.getProjectionModifier() == P::Modifier_None ? 0 : p.getProjectionModifier() == P::Modifier_Distinct ? 1 : p.getProjectionModifier() == P::Modifier_Reduced ? 2 : p.getProjectionModifier() == P::Modifier_Count ? 3 : 4;
        return "{\"mod\":" + to_string(mod) + ",\"proj\":" + list(vector<unsigned>(p.projectionBegin(), p.projectionEnd()), [&](unsigned v) { return var(p, v); }) + ",\"gas\":" + assigns(p, p.getGlobalAssignments()) + ",\"pat\":" + group(p, p.getPatterns()) +
               ",\"gb\":" + list(p.getGroupBys(), [&](const P::GroupBy &g) { return by(p, g.expr, g.id, 0); }) + ",\"hv\":" + list(p.getHavings(), [&](P::Filter *f) { return filter(p, *f); }) +
               ",\"ob\":" + list(vector<P::Order>(p.orderBegin(), p.orderEnd()), [&](const P::Order &o) { return by(p, o.expr, o.id, o.descending); }) +
               ",\"lim\":[" + (p.getLimit() == ~0u ? "" : to_string(p.getLimit())) + "],\"off\":[" + (p.getOffset() ? to_string(p.getOffset()) : "") + "]}";
    }
};
static void scenario(vector<string> &lines) {
    string text; L *lex = NULL; L::Token cur = L::None;
    for (auto &line : lines) {
        W w = split(line); const string &o = w[0]; string a = w.size() > 1 ? w[1] : "";
        if (o == "text") { text = unhex(a); delete lex; lex = new L(text); cur = L::None; Js("text").arr("v", codes(text)).log(); }
        else if (o == "next") { cur = lex->getNext(); Js("next").str("k", name(cur)).log(); }
        else if (o == "unget") { if (cur != L::None) { lex->unget(cur); Js("unget").log(); } }
        else if (o == "has") { bool r = lex->hasNext(tok(a)); Js("has").str("k", a).b("r", r).log(); cur = lex->getNext(); lex->unget(cur); }
        else if (cur == L::None && o != "parse") {}
        else if (o == "value") Js("value").arr("v", codes(lex->getTokenValue())).log();
        else if (o == "iri") Js("iri").arr("v", codes(lex->getIRIValue())).log();
        else if (o == "lit") Js("lit").arr("v", codes(lex->getLiteralValue())).log();
        else if (o == "kw") { string k = unhex(a); Js("kw").arr("w", codes(k)).b("r", lex->isKeyword(k.c_str())).log(); }
        else if (o == "parse") {
            L l(text); P p(l); bool ok = true;
            try { p.parse(false, true); } catch (const P::ParserException &e) { ok = false; }
            if (!ok) { Js("parse").b("ok", false).raw("q", "[]").log(); continue; }
            Dump d; d.query(p); int k = 0; for (unsigned id : d.anon) d.ranks[id] = ++k; d.count = false;
            string q = d.query(p); Js("parse").b("ok", d.same).raw("q", "[" + q + "]").log();
        }
    }
}
int main(int argc, char **argv) { return h_main(argc, argv, scenario, 20); }
