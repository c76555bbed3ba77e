// Stand-in for tinyxml2 (header not installed in this sandbox): a small, strict, read-only XML parser with tinyxml2's API.
#pragma once
#include <cctype>
#include <cstring>
#include <list>
#include <memory>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
namespace tinyxml2
{
enum XMLError
{
    XML_SUCCESS = 0,
    XML_ERROR_PARSING_ELEMENT = 6,
    XML_ERROR_PARSING_ATTRIBUTE,
    XML_ERROR_PARSING_TEXT,
    XML_ERROR_PARSING_CDATA,
    XML_ERROR_PARSING_COMMENT,
    XML_ERROR_PARSING_DECLARATION,
    XML_ERROR_PARSING_UNKNOWN,
    XML_ERROR_EMPTY_DOCUMENT,
    XML_ERROR_MISMATCHED_ELEMENT,
    XML_ERROR_PARSING,
    XML_CAN_NOT_CONVERT_TEXT,
    XML_NO_TEXT_NODE,
    XML_ELEMENT_DEPTH_EXCEEDED,
};
class XMLElement
{
  public:
    [[nodiscard]] const char* Name() const { return name.c_str(); }
    [[nodiscard]] const char* Value() const { return name.c_str(); }
    [[nodiscard]] const char* GetText() const { return first_is_text ? text.c_str() : nullptr; }
    [[nodiscard]] const char* Attribute(const char* n) const
    {
        for (const auto& a : attrs)
        {
            if (a.first == n)
            {
                return a.second.c_str();
            }
        }
        return nullptr;
    }
    XMLElement*                     FirstChildElement(const char* n = nullptr) { return next(0, n); }
    [[nodiscard]] const XMLElement* FirstChildElement(const char* n = nullptr) const
    {
        return const_cast<XMLElement*>(this)->next(0, n);
    }
    XMLElement*                     NextSiblingElement(const char* n = nullptr) { return parent ? parent->next(pos + 1, n) : nullptr; }
    [[nodiscard]] const XMLElement* NextSiblingElement(const char* n = nullptr) const
    {
        return parent ? parent->next(pos + 1, n) : nullptr;
    }

    XMLElement* next(std::size_t i, const char* n)
    {
        for (; i < children.size(); ++i)
        {
            if (n == nullptr || children[i]->name == n)
            {
                return children[i].get();
            }
        }
        return nullptr;
    }
    std::string                                      name{}, text{};
    bool                                             first_is_text{false}, any_child{false};
    std::vector<std::pair<std::string, std::string>> attrs{};
    std::vector<std::unique_ptr<XMLElement>>         children{};
    XMLElement*                                      parent{nullptr};
    std::size_t                                      pos{0};
};
class XMLDocument
{
  public:
    XMLError Parse(const char* p, std::size_t n = static_cast<std::size_t>(-1))
    {
        root.children.clear();
        err = XML_SUCCESS;
        s   = n == static_cast<std::size_t>(-1) ? std::string_view(p) : std::string_view(p, strnlen(p, n));
        i   = 0;
        skip();
        if (i >= s.size())
        {
            return err = XML_ERROR_EMPTY_DOCUMENT;
        }
        content(root, 0);
        if (err != XML_SUCCESS)
        {
            root.children.clear();
        }
        return err;
    }
    [[nodiscard]] XMLError    ErrorID() const { return err; }
    [[nodiscard]] bool        Error() const { return err != XML_SUCCESS; }
    [[nodiscard]] const char* ErrorName() const
    {
        return err == XML_SUCCESS ? "XML_SUCCESS" : (err == XML_ERROR_EMPTY_DOCUMENT ? "XML_ERROR_EMPTY_DOCUMENT" : "XML_ERROR_PARSING");
    }
    XMLElement* FirstChildElement(const char* n = nullptr) { return root.FirstChildElement(n); }
    XMLElement* RootElement() { return root.FirstChildElement(); }

  private:
    void skip()
    {
        while (i < s.size() && std::isspace(static_cast<unsigned char>(s[i])) != 0)
        {
            ++i;
        }
    }
    bool starts(const char* t) const { return s.substr(i, std::strlen(t)) == t; }
    bool jump(const char* t)
    {
        const auto e = s.find(t, i);
        if (e == std::string_view::npos)
        {
            return false;
        }
        i = e + std::strlen(t);
        return true;
    }
    static std::string decode(std::string_view v)
    {
        static const std::pair<const char*, char> ents[] = {
            {"&quot;", '"'}, {"&amp;", '&'}, {"&apos;", '\''}, {"&lt;", '<'}, {"&gt;", '>'}};
        std::string r;
        for (std::size_t k = 0; k < v.size();)
        {
            bool hit = false;
            for (const auto& [e, c] : ents)
            {
                if (v.substr(k, std::strlen(e)) == e)
                {
                    r += c;
                    k += std::strlen(e);
                    hit = true;
                    break;
                }
            }
            if (!hit)
            {
                if (v[k] == '\r')
                {
                    r += '\n';
                    ++k;
                    if (k < v.size() && v[k] == '\n')
                    {
                        ++k;
                    }
                }
                else
                {
                    r += v[k++];
                }
            }
        }
        return r;
    }
    static bool name_start(char c) { return std::isalpha(static_cast<unsigned char>(c)) != 0 || c == '_' || c == ':' || (static_cast<unsigned char>(c) & 0x80) != 0; }
    static bool name_char(char c) { return name_start(c) || std::isdigit(static_cast<unsigned char>(c)) != 0 || c == '.' || c == '-'; }
    std::string ident()
    {
        const auto b = i;
        if (i < s.size() && name_start(s[i]))
        {
            while (i < s.size() && name_char(s[i]))
            {
                ++i;
            }
        }
        return std::string(s.substr(b, i - b));
    }
    // parses children of e up to (not including) the closing tag
    void content(XMLElement& e, int depth)
    {
        if (depth > 100)
        {
            err = XML_ELEMENT_DEPTH_EXCEEDED;
            return;
        }
        while (err == XML_SUCCESS)
        {
            const auto save = i;
            skip();
            if (i >= s.size())
            {
                if (depth > 0)
                {
                    err = XML_ERROR_PARSING;
                }
                return;
            }
            if (s[i] != '<')
            {
                i            = save;
                const auto l = s.find('<', i);
                if (l == std::string_view::npos || depth == 0)
                {
                    err = XML_ERROR_PARSING_TEXT;
                    return;
                }
                auto t = decode(s.substr(i, l - i));
                if (!e.any_child)
                {
                    e.first_is_text = true;
                    e.text          = t;
                }
                e.any_child = true;
                i           = l;
                continue;
            }
            if (starts("</"))
            {
                if (depth == 0)
                {
                    err = XML_ERROR_MISMATCHED_ELEMENT;
                }
                return;
            }
            if (starts("<?"))
            {
                if (!jump("?>"))
                {
                    err = XML_ERROR_PARSING_DECLARATION;
                }
                continue;
            }
            if (starts("<!--"))
            {
                if (!jump("-->"))
                {
                    err = XML_ERROR_PARSING_COMMENT;
                }
                e.any_child = true;
                continue;
            }
            if (starts("<!"))
            {
                if (!jump(">"))
                {
                    err = XML_ERROR_PARSING_UNKNOWN;
                }
                e.any_child = true;
                continue;
            }
            ++i;
            auto c  = std::make_unique<XMLElement>();
            c->name = ident();
            if (c->name.empty())
            {
                err = XML_ERROR_PARSING_ELEMENT;
                return;
            }
            bool closed = false;
            for (;;)
            {
                skip();
                if (i >= s.size())
                {
                    err = XML_ERROR_PARSING_ELEMENT;
                    return;
                }
                if (s[i] == '>')
                {
                    ++i;
                    break;
                }
                if (starts("/>"))
                {
                    i += 2;
                    closed = true;
                    break;
                }
                const auto n = ident();
                skip();
                if (n.empty() || i >= s.size() || s[i] != '=' || c->Attribute(n.c_str()) != nullptr)
                {
                    err = XML_ERROR_PARSING_ATTRIBUTE;
                    return;
                }
                ++i;
                skip();
                if (i >= s.size() || (s[i] != '"' && s[i] != '\''))
                {
                    err = XML_ERROR_PARSING_ATTRIBUTE;
                    return;
                }
                const char q = s[i++];
                const auto f = s.find(q, i);
                if (f == std::string_view::npos)
                {
                    err = XML_ERROR_PARSING_ATTRIBUTE;
                    return;
                }
                c->attrs.emplace_back(n, decode(s.substr(i, f - i)));
                i = f + 1;
            }
            c->parent   = &e;
            c->pos      = e.children.size();
            e.any_child = true;
            if (!closed)
            {
                content(*c, depth + 1);
                if (err != XML_SUCCESS)
                {
                    return;
                }
                i += 2;
                const auto n = ident();
                skip();
                if (n != c->name || i >= s.size() || s[i] != '>')
                {
                    err = XML_ERROR_MISMATCHED_ELEMENT;
                    return;
                }
                ++i;
            }
            e.children.push_back(std::move(c));
        }
    }
    XMLElement       root{};
    XMLError         err{XML_SUCCESS};
    std::string_view s{};
    std::size_t      i{0};
};
}  // namespace tinyxml2
