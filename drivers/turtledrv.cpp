// Drives the Turtle parser: "doc HEX" parses a document to its end or its first error.
#include "harness.h"
#include "cts/parser/TurtleParser.hpp"
using namespace std;
static vector<int> bytes(const string &s) { vector<int> v; for (unsigned char c : s) v.push_back(c); return v; }
static const char *tname(Type::ID t) {
    switch (t) { case Type::URI: return "URI"; case Type::Literal: return "Literal"; case Type::CustomLanguage: return "CustomLanguage"; case Type::CustomType: return "CustomType"; case Type::String: return "String";
        case Type::Integer: return "Integer"; case Type::Decimal: return "Decimal"; case Type::Double: return "Double"; case Type::Boolean: return "Boolean"; default: return "Other"; }
}
static void run(vector<string> &lines) {
    for (auto &ln : lines) {
        istringstream is(ln); string op, hex, text; is >> op >> hex;
        for (size_t i = 0; i + 1 < hex.size(); i += 2) text += (char) stoi(hex.substr(i, 2), 0, 16);
        Js("doc").arr("text", bytes(text)).log();
        istringstream in(text); TurtleParser p(in); string s, pr, o, sub; Type::ID ty = Type::URI;
        try {
            int n = 0;
            while (p.parse(s, pr, o, ty, sub)) {
                Js("t").arr("s", bytes(s)).arr("p", bytes(pr)).str("ty", tname(ty)).arr("o", bytes(o)).arr("sub", Type::hasSubType(ty) ? bytes(sub) : vector<int>()).log();
                if (++n > 2000) { Js("abort").str("why", "too many triples").log(); return; }
            }
            bool again = p.parse(s, pr, o, ty, sub);      // the end stays the end
            if (again) { Js("abort").str("why", "a triple after the end").log(); return; }
            Js("eof").log();
        } catch (TurtleParser::Exception &e) { Js("err").str("msg", e.message).log(); }
    }
}
int main(int argc, char **argv) { return h_main(argc, argv, run, 20); }
