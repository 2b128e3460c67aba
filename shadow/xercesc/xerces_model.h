// The part of Xerces-C the library uses, for symbolic execution: documents are parsed by RapidXML and validated
// against the part of XML Schema that the library's schema is written in.  Counterexamples are replayed with Xerces itself.
#pragma once
#include <boost/property_tree/detail/rapidxml.hpp>
#include <cstring>
#include <fstream>
#include <iterator>
#include <map>
#include <memory>
#include <string>
#include <vector>
typedef char16_t XMLCh; typedef unsigned char XMLByte; typedef size_t XMLSize_t; typedef unsigned long long XMLFileLoc;
namespace xercesc
{
struct XMLString
{
    static XMLCh* transcode(const char* s) { size_t n = strlen(s); auto r = new XMLCh[n + 1]; for (size_t i = 0; i <= n; ++i) r[i] = (XMLCh)(unsigned char)s[i]; return r; }
    static char* transcode(const XMLCh* s) { if (!s) return nullptr; size_t n = 0; while (s[n]) ++n; auto r = new char[n + 1]; for (size_t i = 0; i <= n; ++i) r[i] = (char)s[i]; return r; }
    static void release(XMLCh** p) { delete[] *p; *p = nullptr; }
    static void release(char** p) { delete[] *p; *p = nullptr; }
};
struct XMLPlatformUtils { static void Initialize() {} static void Terminate() {} };
struct XMLUni { static constexpr const char16_t* fgDOMErrorHandler = u"error-handler"; static constexpr const char16_t *fgXercesUseCachedGrammarInParse = u"c", *fgDOMComments = u"co", *fgDOMDatatypeNormalization = u"n", *fgDOMEntities = u"e", *fgDOMNamespaces = u"ns", *fgDOMElementContentWhitespace = u"w", *fgDOMValidate = u"validate", *fgXercesSchema = u"s", *fgXercesSchemaFullChecking = u"f", *fgXercesLoadSchema = u"l"; };
struct Grammar { enum GrammarType { DTDGrammarType, SchemaGrammarType }; };
struct MemBufInputSource { std::string text; MemBufInputSource(const XMLByte* b, size_t n, const char*) : text(reinterpret_cast<const char*>(b), n) {} };
struct DOMLSInput { const MemBufInputSource* s; };
struct Wrapper4InputSource : DOMLSInput { Wrapper4InputSource(MemBufInputSource* m, bool) { s = m; } };
inline std::basic_string<XMLCh> _wide(const std::string& s) { std::basic_string<XMLCh> r; for (char c : s) r += (XMLCh)(unsigned char)c; return r; }
inline std::string _thin(const XMLCh* s) { std::string r; for (; *s; ++s) r += (char)*s; return r; }
class DOMElement;
class DOMNode
{
public:
    virtual ~DOMNode() = default;
    std::basic_string<XMLCh> name_, text_;
    const XMLCh* getNodeName() const { return name_.c_str(); }
    const XMLCh* getTextContent() const { return text_.c_str(); }
};
class DOMNodeList { public: std::vector<DOMNode*> v; DOMNode* item(XMLSize_t i) const { return i < v.size() ? v[i] : nullptr; } XMLSize_t getLength() const { return v.size(); } };
class DOMElement : public DOMNode
{
public:
    std::string tag, own; std::vector<std::pair<std::string, std::string>> attrs; std::vector<std::unique_ptr<DOMElement>> kids; DOMElement* next = nullptr;
    std::vector<std::unique_ptr<std::basic_string<XMLCh>>> given; std::vector<std::unique_ptr<DOMNodeList>> lists;
    const XMLCh* getTagName() const { return name_.c_str(); }
    const std::string* attr(const std::string& n) const { for (auto& a : attrs) if (a.first == n) return &a.second; return nullptr; }
    const XMLCh* getAttribute(const XMLCh* n) { auto a = attr(_thin(n)); given.push_back(std::make_unique<std::basic_string<XMLCh>>(_wide(a ? *a : std::string()))); return given.back()->c_str(); }
    bool hasAttribute(const XMLCh* n) { return attr(_thin(n)) != nullptr; }
    DOMElement* getFirstElementChild() const { return kids.empty() ? nullptr : kids[0].get(); }
    DOMElement* getNextElementSibling() const { return next; }
    void find(const std::string& n, DOMNodeList& l) { for (auto& k : kids) { if (n == "*" || k->tag == n) l.v.push_back(k.get()); k->find(n, l); } }
    DOMNodeList* getElementsByTagName(const XMLCh* n) { lists.push_back(std::make_unique<DOMNodeList>()); find(_thin(n), *lists.back()); return lists.back().get(); }
};
class DOMDocument { public: std::unique_ptr<DOMElement> root; DOMElement* getDocumentElement() const { return root.get(); } };
class DOMLocator { public: const XMLCh* getURI() const { return u"document"; } XMLFileLoc getLineNumber() const { return 1; } XMLFileLoc getColumnNumber() const { return 1; } };
class DOMError { public: enum ErrorSeverity { DOM_SEVERITY_WARNING = 1, DOM_SEVERITY_ERROR, DOM_SEVERITY_FATAL_ERROR }; ErrorSeverity s; mutable DOMLocator l; std::basic_string<XMLCh> m; ErrorSeverity getSeverity() const { return s; } DOMLocator* getLocation() const { return &l; } const XMLCh* getMessage() const { return m.c_str(); } };
class DOMErrorHandler { public: virtual ~DOMErrorHandler() = default; virtual bool handleError(const DOMError&) = 0; };
// validation
struct _Schema
{
    const DOMElement* s;
    const DOMElement* type(const std::string& n) const { auto c = n.find(':'); auto l = c == n.npos ? n : n.substr(c + 1); for (auto& k : s->kids) if (k->tag == "xs:complexType" && *k->attr("name") == l) return k.get(); return nullptr; }
    static bool number(const std::string& t, bool real)
    {
        if (t.size() == 3 && t[0] == 2) return t[1] == 'i' || real;
        if (real && (t == "INF" || t == "-INF" || t == "NaN")) return true;
        size_t i = !t.empty() && (t[0] == '-' || t[0] == '+'); bool digits = false;
        for (; i < t.size() && t[i] >= '0' && t[i] <= '9'; ++i) digits = true;
        if (!real) return digits && i == t.size();
        if (i < t.size() && t[i] == '.') for (++i; i < t.size() && t[i] >= '0' && t[i] <= '9'; ++i) digits = true;
        if (!digits) return false;
        if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) { ++i; if (i < t.size() && (t[i] == '-' || t[i] == '+')) ++i; bool d = false; for (; i < t.size() && t[i] >= '0' && t[i] <= '9'; ++i) d = true; if (!d) return false; }
        return i == t.size();
    }
    static bool simple(const std::string& type, const std::string& v)
    {
        if (type == "xs:double") return number(v, true);
        if (type == "xs:int") { if (!number(v, false)) return false; if (v[0] == 2) return true; long long x = 0; bool neg = false; for (char c : v) { if (c == '-') neg = true; else if (c >= '0' && c <= '9' && x < 100000000000ll) x = x * 10 + (c - '0'); } if (neg) x = -x; return x >= -2147483648ll && x <= 2147483647ll; }
        if (type == "xs:positiveInteger") return number(v, false) && (v[0] == 2 ? (long long)std::_sh_tokens().v[v[2] - '@'] > 0 : v[0] != '-' && v.find_first_of("123456789") != v.npos);
        if (type == "xs:boolean") return v == "true" || v == "false" || v == "0" || v == "1";
        return true;
    }
    static long occurs(const DOMElement* p, const char* a) { auto v = p->attr(a); return !v ? 1 : *v == "unbounded" ? 1000000 : (long)(*v)[0] - '0'; }
    // the position after what the particle matches, -1: no match
    long match(const DOMElement* p, const DOMElement* e, size_t at) const
    {
        long n = 0, lo = occurs(p, "minOccurs"), hi = occurs(p, "maxOccurs");
        for (; n < hi; ++n) {
            size_t before = at;
            if (p->tag == "xs:element") {
                if (at >= e->kids.size() || e->kids[at]->tag != *p->attr("name")) break;
                if (!element(p, e->kids[at].get())) return -1;
                ++at;
            } else {
                long r = once(p, e, at);
                if (r < 0) break;
                at = (size_t)r;
                if (at == before) { n = lo; break; }
            }
        }
        return n < lo ? -1 : (long)at;
    }
    long once(const DOMElement* p, const DOMElement* e, size_t at) const
    {
        if (p->tag == "xs:sequence") { for (auto& k : p->kids) { long r = match(k.get(), e, at); if (r < 0) return -1; at = (size_t)r; } return (long)at; }
        if (p->tag == "xs:choice") { bool empty = false; for (auto& k : p->kids) { long r = match(k.get(), e, at); if (r > (long)at) return r; if (r == (long)at) empty = true; } return empty ? (long)at : -1; }
        std::vector<bool> had(p->kids.size()); // xs:all
        for (;;) { bool any = false; for (size_t i = 0; i < had.size() && !any; ++i) if (!had[i] && at < e->kids.size() && e->kids[at]->tag == *p->kids[i]->attr("name")) { if (!element(p->kids[i].get(), e->kids[at].get())) return -1; had[i] = any = true; ++at; } if (!any) break; }
        for (size_t i = 0; i < had.size(); ++i) if (!had[i] && occurs(p->kids[i].get(), "minOccurs") > 0) return -1;
        return (long)at;
    }
    bool element(const DOMElement* decl, const DOMElement* e) const
    {
        const DOMElement* t = nullptr;
        if (auto ty = decl->attr("type")) { t = type(*ty); if (!t) { std::string v = _thin(e->text_.c_str()); return e->kids.empty() && e->attrs.empty() && (v.empty() && decl->attr("default") ? true : simple(*ty, v)); } }
        else for (auto& k : decl->kids) if (k->tag == "xs:complexType") t = k.get();
        if (!t) return true;
        long at = 0; size_t known = 0;
        for (auto& k : t->kids) {
            if (k->tag == "xs:attribute") {
                auto v = e->attr(*k->attr("name"));
                if (!v) { if (k->attr("use") && *k->attr("use") == "required") return false; continue; }
                ++known;
                if (k->attr("type") && !simple(*k->attr("type"), *v)) return false;
                if (k->attr("fixed") && *k->attr("fixed") != *v) return false;
            } else if (k->tag != "xs:annotation") { at = match(k.get(), e, 0); if (at < 0) return false; }
        }
        for (auto& a : e->attrs) if (a.first.compare(0, 5, "xmlns") == 0 || a.first.compare(0, 4, "xsi:") == 0) ++known;
        if (known != e->attrs.size() || (size_t)at != e->kids.size()) return false;
        for (char c : e->own) if (c != ' ' && c != '\n' && c != '\t' && c != '\r') return false;
        return true;
    }
    bool valid(const DOMElement* root) const
    {
        auto ns = root->attr("xmlns");
        if (!ns || *ns != *s->attr("targetNamespace")) return false;
        for (auto& k : s->kids) if (k->tag == "xs:element" && *k->attr("name") == root->tag) return element(k.get(), root);
        return false;
    }
};
// parsing
inline std::unique_ptr<DOMElement> _element(boost::property_tree::detail::rapidxml::xml_node<char>* n)
{
    namespace rx = boost::property_tree::detail::rapidxml;
    auto e = std::make_unique<DOMElement>();
    e->tag.assign(n->name(), n->name_size()); e->name_ = _wide(e->tag);
    for (auto a = n->first_attribute(); a; a = a->next_attribute()) e->attrs.emplace_back(std::string(a->name(), a->name_size()), std::string(a->value(), a->value_size()));
    for (auto k = n->first_node(); k; k = k->next_sibling()) {
        if (k->type() == rx::node_element) { auto c = _element(k); if (!e->kids.empty()) e->kids.back()->next = c.get(); e->text_ += c->text_; e->kids.push_back(std::move(c)); }
        else if (k->type() == rx::node_data || k->type() == rx::node_cdata) { e->own.append(k->value(), k->value_size()); e->text_ += _wide(std::string(k->value(), k->value_size())); }
    }
    return e;
}
inline std::unique_ptr<DOMElement> _parse(const std::string& text) // null: not well-formed
{
    namespace rx = boost::property_tree::detail::rapidxml;
    std::vector<char> b(text.begin(), text.end()); b.push_back(0);
    rx::xml_document<char> d;
    try { d.parse<rx::parse_validate_closing_tags>(b.data()); } catch (const rx::parse_error&) { return nullptr; }
    std::unique_ptr<DOMElement> root;
    for (auto n = d.first_node(); n; n = n->next_sibling()) if (n->type() == rx::node_element) { if (root) return nullptr; root = _element(n); }
    if (root) { // attributes have different names
        std::vector<DOMElement*> todo{root.get()};
        while (!todo.empty()) { auto e = todo.back(); todo.pop_back(); for (size_t i = 0; i < e->attrs.size(); ++i) for (size_t j = 0; j < i; ++j) if (e->attrs[i].first == e->attrs[j].first) return nullptr; for (auto& k : e->kids) todo.push_back(k.get()); }
    }
    return root;
}
class DOMConfiguration
{
public:
    DOMErrorHandler* handler = nullptr; bool validate = false;
    void setParameter(const XMLCh* n, const void* v) { if (_thin(n) == "error-handler") handler = static_cast<DOMErrorHandler*>(const_cast<void*>(v)); }
    void setParameter(const XMLCh* n, bool v) { if (_thin(n) == "validate") validate = v; }
    void setParameter(const XMLCh* n, DOMErrorHandler* v) { setParameter(n, static_cast<const void*>(v)); }
};
class DOMLSParser
{
    DOMConfiguration c; std::unique_ptr<DOMElement> grammar; std::vector<std::unique_ptr<DOMDocument>> docs;
    void report(DOMError::ErrorSeverity s, const char* m) { if (c.handler) { DOMError e; e.s = s; e.m = _wide(m); c.handler->handleError(e); } }
public:
    DOMConfiguration* getDomConfig() { return &c; }
    Grammar* loadGrammar(const DOMLSInput* i, Grammar::GrammarType, bool) { grammar = _parse(i->s->text); return nullptr; }
    DOMDocument* parseURI(const char* p)
    {
        std::ifstream f(p, std::ios::binary);
        if (!f) { report(DOMError::DOM_SEVERITY_FATAL_ERROR, "cannot open"); return nullptr; }
        std::string text((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        docs.push_back(std::make_unique<DOMDocument>());
        docs.back()->root = _parse(text);
        if (!docs.back()->root) report(DOMError::DOM_SEVERITY_FATAL_ERROR, "not well-formed");
        else if (c.validate && (!grammar || !_Schema{grammar.get()}.valid(docs.back()->root.get()))) report(DOMError::DOM_SEVERITY_ERROR, "invalid");
        return docs.back().get();
    }
};
class DOMImplementation { public: virtual ~DOMImplementation() = default; };
class DOMImplementationLS { public: enum DOMImplementationLSMode { MODE_SYNCHRONOUS = 1, MODE_ASYNCHRONOUS }; DOMLSParser* createLSParser(DOMImplementationLSMode, const XMLCh*) { return new DOMLSParser; } };
struct _Impl : DOMImplementation, DOMImplementationLS {};
struct DOMImplementationRegistry { static _Impl* getDOMImplementation(const XMLCh*) { static _Impl i; return &i; } };
}
