// U02: the utilities, used by several threads at once.
#include "quiet_logger.hpp"

#include "fly/coders/base64/base64_coder.hpp"
#include "fly/coders/coder_config.hpp"
#include "fly/coders/huffman/huffman_decoder.hpp"
#include "fly/coders/huffman/huffman_encoder.hpp"
#include "fly/net/endpoint.hpp"
#include "fly/net/ipv4_address.hpp"
#include "fly/net/ipv6_address.hpp"
#include "fly/parser/ini_parser.hpp"
#include "fly/parser/json_parser.hpp"
#include "fly/system/system.hpp"
#include "fly/types/bit_stream/bit_stream_reader.hpp"
#include "fly/types/bit_stream/bit_stream_writer.hpp"
#include "fly/types/json/json.hpp"
#include "fly/types/string/format.hpp"
#include "fly/types/string/string.hpp"

#include <cmath>
#include <sstream>

using namespace sim;

namespace {

enum Kind
{
    FormatInt, FormatFloat, FormatText, FormatWide, Convert, Strings, Escape, Random, ParseJson, ReadJson, ParseIni, Base64, Huffman, Address, Bits, System, Literals, EditJson, JsonTypes, ParseMore, Unicode, FormatMore, StringsMore, Damaged, NumKinds
};
char const *const kind_names[] = {
    "format integers", "format floating point numbers", "format text", "format wide strings", "convert strings to numbers", "split and join", "escape", "generate a random string",
    "parse JSON", "read the shared JSON value", "parse INI", "Base64", "Huffman", "addresses", "bit streams", "system helpers", "shared text",
    "edit a JSON value", "convert JSON values", "parse with features and errors", "Unicode", "format with alignment and positions", "search and classify", "decode damaged input"};

struct Settings : fly::coders::CoderConfig
{
    Settings()
    {
        m_default_huffman_encoder_chunk_size_kb = 1;
        m_default_huffman_encoder_max_code_length = 8;
    }
};

struct Op
{
    Kind kind;
    std::uint64_t a, b;
};

struct Shared // read by all threads
{
    fly::Json doc;
    std::string text;
    std::shared_ptr<fly::coders::CoderConfig> config;
};

template <typename S>
std::string narrow(S const &s)
{
    std::string r;
    for (auto c : s) r += std::to_string(static_cast<unsigned long>(c)) + " ";
    return r;
}

std::string mixed_text(std::uint64_t a, std::uint64_t b)
{
    static char const *const parts[] = {"plain", "\xc3\xa9t\xc3\xa9", "\xf0\x9f\x8d\x95", " tab\t", "quote\"", "back\\slash", "\xe2\x82\xac", "x=y;"};
    std::string s;
    for (int i = 0; i < 4 + static_cast<int>(a % 7); ++i) s += parts[(b >> (3 * i)) & 7];
    return s;
}

// The uses of the utilities; the result tells everything about each. (Each has a large stack frame: not inlined.)
[[gnu::noinline]] std::string use_FormatInt(std::uint64_t a, std::uint64_t b, std::int64_t i, Shared const &shared)
{
    return fly::string::format("{} {:#x} {:+d} {:064b} {:o} {:X} {:<20d}|{:^+21d}|{:c}", a, b, i, a ^ b, b, a, static_cast<int>(b), static_cast<short>(a), static_cast<int>('a' + a % 26));
}

[[gnu::noinline]] std::string use_FormatFloat(std::uint64_t a, std::uint64_t b, std::int64_t i, Shared const &shared)
{
    double const x = static_cast<double>(i) / 1024.0, y = std::ldexp(static_cast<double>(b % 1000003), static_cast<int>(a % 300) - 150);
    return fly::string::format("{} {:.3f} {:e} {:+.12g} {:a} {:>20.2f} {:E}", y, x, y, x, x, static_cast<float>(y), x);
}

[[gnu::noinline]] std::string use_FormatText(std::uint64_t a, std::uint64_t b, std::int64_t i, Shared const &shared)
{
    std::string const s = mixed_text(a, b);
    return fly::string::format("{:>30s}|{:*^24s}|{}|{:.3s}|{:{}d}|{}", s, "abc", (a & 1) != 0, s, b % 1000, static_cast<int>(10 + a % 20), std::string_view(s).substr(0, 1));
}

[[gnu::noinline]] std::string use_FormatWide(std::uint64_t a, std::uint64_t b, std::int64_t i, Shared const &shared)
{
    return narrow(fly::string::format(u"{} {:x} {}", a, b, u"wide")) + narrow(fly::string::format(U"{} {:+d} {:.4f}", b, i, static_cast<double>(a % 1000) / 7.0)) +
        narrow(fly::string::format(L"{} {:o}", i, b));
}

[[gnu::noinline]] std::string use_Convert(std::uint64_t a, std::uint64_t b, std::int64_t i, Shared const &shared)
{
    std::string const s = std::to_string(i % 100000), f = std::to_string(static_cast<double>(b % 1000000) / 1000.0);
    auto const n = fly::String::convert<int>(s);
    auto const u = fly::String::convert<std::uint64_t>(std::to_string(b));
    auto const d = fly::String::convert<double>(f);
    auto const g = fly::String::convert<float>(f);
    auto const bad = fly::String::convert<std::int8_t>(std::to_string(a % 1000));
    auto const wide = fly::String::convert<std::u16string>(mixed_text(a, b));
    return std::to_string(n.value_or(-1)) + "," + std::to_string(u.value_or(1)) + "," + std::to_string(d.value_or(-1)) + "," + std::to_string(static_cast<double>(g.value_or(-1))) + "," +
        std::to_string(bad ? *bad : 999) + "," + (wide ? narrow(*wide) : "-");
}

[[gnu::noinline]] std::string use_Strings(std::uint64_t a, std::uint64_t b, std::int64_t i, Shared const &shared)
{
    std::string s = mixed_text(a, b) + " " + mixed_text(b, a);
    std::string r;
    for (auto const &p : fly::String::split(s, ' ')) r += "[" + p + "]";
    for (auto const &p : fly::String::split(s, 'e', 3)) r += "(" + p + ")";
    fly::String::replace_all(s, "tab", std::string_view("bat"));
    fly::String::remove_all(s, "plain");
    fly::String::trim(s);
    return r + s + fly::String::join('/', std::string("a"), s, 'c', std::string("d")) + (fly::String::wildcard_match(s, "*bat*") ? "+" : "-") + (fly::String::validate(s) ? "v" : "i");
}

[[gnu::noinline]] std::string use_Escape(std::uint64_t a, std::uint64_t b, std::int64_t i, Shared const &shared)
{
    std::string const s = mixed_text(a, b);
    auto const e = fly::String::escape_all_codepoints<'u'>(s);
    auto const back = e ? fly::String::unescape_all_codepoints(*e) : std::nullopt;
    return (e ? *e : "-") + "|" + (back ? *back : "-");
}

[[gnu::noinline]] std::string use_Random(std::uint64_t a, std::uint64_t b, std::int64_t i, Shared const &shared)
{
    std::string const r = fly::String::generate_random_string(static_cast<std::size_t>(a % 40));
    for (char const c : r)
        if (!std::isalnum(static_cast<unsigned char>(c))) return "a random string has the character " + std::to_string(c);
    return std::to_string(r.size());
}

[[gnu::noinline]] std::string use_ParseJson(std::uint64_t a, std::uint64_t b, std::int64_t i, Shared const &shared)
{
    std::string const t = "{\"a\":[1,-2.5e3,true,null,\"" + std::to_string(a) + "\\u00e9\\n\"],\"b\":{\"" + std::to_string(b % 100) + "\":" + std::to_string(i) + ",\"e\":{},\"f\":[]}}";
    fly::parser::JsonParser p;
    auto const v = p.parse_string(b % 11 == 0 ? t.substr(0, t.size() - 1 - b % 20) : t);
    return v ? v->serialize() : "none";
}

[[gnu::noinline]] std::string use_ReadJson(std::uint64_t a, std::uint64_t b, std::int64_t i, Shared const &shared)
{
    fly::Json const &d = shared.doc;
    std::string r = d.serialize();
    fly::Json const &list = d["list"];
    for (auto const &v : list) r += fly::string::format("{};", v);
    r += std::to_string(static_cast<int>(list[a % list.size()])) + std::to_string(d.size()) + (d.contains("number") ? "y" : "n") + (d.contains("absent") ? "y" : "n");
    for (auto it = d.begin(); it != d.end(); ++it) r += it.key() + "=" + std::to_string(it->size());
    fly::Json copy = d;
    copy["number"] = static_cast<std::int64_t>(a % 1000);
    r += copy == d ? "same" : "other";
    r += copy["number"].serialize() + std::to_string(static_cast<double>(d["number"]));
    try
    {
        r += static_cast<std::string>(d["absent"]);
    }
    catch (fly::JsonException const &e)
    {
        r += e.what();
    }
    return r;
}

[[gnu::noinline]] std::string use_ParseIni(std::uint64_t a, std::uint64_t b, std::int64_t i, Shared const &shared)
{
    fly::parser::IniParser p;
    auto const v = p.parse_string("[one]\nname=" + std::to_string(a) + "\n; comment\n[two]\nx = \"y " + std::to_string(b) + "\"\n" + (b % 9 == 0 ? "[three\n" : ""));
    return v ? v->serialize() : "none";
}

[[gnu::noinline]] std::string use_Base64(std::uint64_t a, std::uint64_t b, std::int64_t i, Shared const &shared)
{
    fly::coders::Base64Coder coder;
    std::string const in = mixed_text(a, b) + std::string(a % 5, '\0') + shared.text.substr(0, b % 60);
    std::string enc, dec;
    bool const x = coder.encode_string(in, enc), y = coder.decode_string(enc, dec);
    return std::to_string(x) + std::to_string(y) + enc + (dec == in ? " ok" : " damaged");
}

[[gnu::noinline]] std::string use_Huffman(std::uint64_t a, std::uint64_t b, std::int64_t i, Shared const &shared)
{
    std::string in, enc, dec;
    for (std::uint64_t k = 0; k < 30 + a % 90; ++k) in.push_back(static_cast<char>('a' + ((b >> (k % 50)) & 7)));
    fly::coders::HuffmanEncoder encoder(shared.config);
    fly::coders::HuffmanDecoder decoder;
    bool const x = encoder.encode_string(in, enc), y = decoder.decode_string(enc, dec);
    return std::to_string(x) + std::to_string(y) + narrow(enc) + (dec == in ? " ok" : " damaged");
}

[[gnu::noinline]] std::string use_Address(std::uint64_t a, std::uint64_t b, std::int64_t i, Shared const &shared)
{
    std::string const four = std::to_string(a & 255) + "." + std::to_string((a >> 8) & 255) + "." + std::to_string((b >> 8) & 255) + "." + std::to_string(b & 255);
    auto const v4 = fly::net::IPv4Address::from_string(four);
    auto const v6 = fly::net::IPv6Address::from_string(fly::string::format("{:x}:{:x}::{:x}", a & 0xffff, (a >> 16) & 0xffff, b & 0xffff));
    auto const e = fly::net::Endpoint<fly::net::IPv4Address>::from_string(four + ":" + std::to_string(b % 65536));
    return fly::string::format("{} {} {}", v4 ? fly::string::format("{}", *v4) : "-", v6 ? fly::string::format("{}", *v6) : "-", e ? fly::string::format("{}", *e) : "-");
}

[[gnu::noinline]] std::string use_Bits(std::uint64_t a, std::uint64_t b, std::int64_t i, Shared const &shared)
{
    std::stringstream stream;
    fly::BitStreamWriter w(stream);
    std::uint64_t x = b | 1;
    for (int k = 0; k < 20; ++k)
    {
        x = x * 6364136223846793005ULL + 1442695040888963407ULL;
        auto const width = static_cast<fly::byte_type>(1 + (x >> 60));
        w.write_bits(static_cast<std::uint16_t>((x >> 20) & ((1u << width) - 1)), width);
    }
    std::string r = std::to_string(w.finish()) + narrow(stream.str());
    fly::BitStreamReader reader(stream);
    std::uint16_t v = 0;
    while (reader.read_bits(v, static_cast<fly::byte_type>(5)) == 5) r += std::to_string(v) + ",";
    return r;
}

[[gnu::noinline]] std::string use_System(std::uint64_t a, std::uint64_t b, std::int64_t i, Shared const &shared)
{
    std::string const t = fly::system::local_time();
    if (t.size() != 19) return "the local time is '" + t + "'";
    for (std::size_t k = 0; k < 19; ++k)
        if ("dd-dd-dddd dd:dd:dd"[k] == 'd' ? !std::isdigit(static_cast<unsigned char>(t[k])) : t[k] != "dd-dd-dddd dd:dd:dd"[k]) return "the local time is '" + t + "'";
    return fly::system::get_error_string(static_cast<int>(a % 130));
}

[[gnu::noinline]] std::string use_SharedText(std::uint64_t a, std::uint64_t b, std::int64_t i, Shared const &shared)
{
    std::string const &s = shared.text;
    std::string r = fly::string::format("{}:{:>200s}", s.size(), s);
    for (auto const &p : fly::String::split(s, ',')) r += fly::String::convert<int>(p) ? "n" : "t";
    auto const wide = fly::String::convert<std::u32string>(s);
    return r + (wide ? narrow(*wide) : "-");
}

// A small generator for uses that do a number of things.
struct Dice
{
    std::uint64_t x;
    std::uint64_t operator()(std::uint64_t n)
    {
        x ^= x << 13, x ^= x >> 7, x ^= x << 17;
        return (x >> 11) % n;
    }
};

fly::Json some_json(Dice &d, int depth)
{
    switch (d(depth > 0 ? 9 : 6))
    {
        case 0: return fly::Json(nullptr);
        case 1: return fly::Json(d(2) == 0);
        case 2: return fly::Json(static_cast<std::int64_t>(d(2000)) - 1000);
        case 3: return fly::Json(static_cast<std::uint64_t>(d(1u << 30)));
        case 4: return fly::Json(static_cast<double>(d(4000)) / 8.0 - 100);
        case 5:
        {
            std::string t = mixed_text(d(100), d(1u << 20)), plain; // (what must be escaped is refused)
            for (char const c : t)
                if (c == '"' || c == '\\') plain += std::string("\\") + c;
                else if (c != '\t') plain += c;
            return fly::Json(plain);
        }
        case 6:
        {
            std::vector<std::string> v;
            for (auto n = d(4); n > 0; --n) v.push_back(std::to_string(d(100)));
            return fly::Json(v);
        }
        case 7:
        {
            fly::Json j = fly::json_array_type();
            for (auto n = d(4); n > 0; --n) j.push_back(some_json(d, depth - 1));
            return j;
        }
        default:
        {
            fly::Json j = fly::json_object_type();
            for (auto n = d(4); n > 0; --n) j["k" + std::to_string(d(6))] = some_json(d, depth - 1);
            return j;
        }
    }
}

[[gnu::noinline]] void edit_step(Dice &d, fly::Json &j, fly::Json &other, std::string &r)
{
    std::string const key = "k" + std::to_string(d(6));
    auto const index = static_cast<fly::Json::size_type>(d(5));
    switch (d(27))
    {
        case 0: j[key] = some_json(d, 1); break;
        case 1: j[index] = some_json(d, 1); break;
        case 2: j.push_back(some_json(d, 1)); break;
        case 3: j.push_back(std::move(other)); other = some_json(d, 2); break;
        case 4: j.pop_back(); break;
        case 5: r += std::to_string(j.erase(key)); break;
        case 6: j.erase(index); break;
        case 7: r += j.insert(j.begin(), some_json(d, 0))->serialize(); break;
        case 8: r += j.insert(j.end(), 2, other)->serialize(); break;
        case 9: j.insert(j.end(), other.begin(), other.end()); break;
        case 10: j.insert(other.begin(), other.end()); break;
        case 11: r += j.insert_or_assign(key, some_json(d, 1)).second ? "i" : "a"; break;
        case 12: j.merge(other); break;
        case 13: j.merge(std::move(other)); other = some_json(d, 2); break;
        case 14: j.swap(other); break;
        case 15: j.clear(); break;
        case 16:
            if (!j.is_string()) j.resize(index); // (a string could be cut within a character)
            break;
        case 17: j.reserve(index); r += j.capacity() >= index ? "c" : "-"; break;
        case 18: r += j.at(key).serialize(); break;
        case 19: r += std::as_const(j).at(index).serialize(); break;
        case 20: r += j.front().serialize() + j.back().serialize(); break;
        case 21:
            for (auto it = j.rbegin(); it != j.rend(); ++it) r += it->serialize();
            break;
        case 22:
            for (auto it = j.cbegin(); it != j.cend(); ++it) r += std::to_string(it->size());
            break;
        case 23: r += (j < other ? "<" : "-") + std::string(j == other ? "=" : "-") + (j >= other ? "g" : "-") + (j != other ? "n" : "-"); break;
        case 24:
        {
            auto it = j.find(key);
            r += it == j.end() ? "none" : it->serialize() + std::to_string(j.count(key));
            if (it != j.end()) j.erase(it);
            break;
        }
        case 25: j.erase(j.begin(), j.end()); break;
        case 26:
        {
            std::map<std::string, fly::Json> m {{key, some_json(d, 0)}};
            j.insert(std::make_move_iterator(m.begin())->first, m.begin()->second);
            break;
        }
    }
}

[[gnu::noinline]] std::string use_EditJson(std::uint64_t a, std::uint64_t b, std::int64_t i, Shared const &shared)
{
    Dice d {a * 31 + b + 1};
    fly::Json j = d(3) ? some_json(d, 3) : fly::Json(shared.doc), other = d(3) ? some_json(d, 2) : fly::Json(shared.doc["nested"]);
    std::string r;
    for (int k = 0; k < 8; ++k)
    {
        if (j.serialize().size() > 500) j = some_json(d, 1);
        if (other.serialize().size() > 500) other = some_json(d, 1);
        try
        {
            edit_step(d, j, other, r);
        }
        catch (fly::JsonException const &e)
        {
            r += e.what();
        }
        r += std::to_string(std::hash<fly::Json>()(j) == std::hash<fly::Json>()(fly::Json(j)));
    }
    return r + j.serialize() + other.serialize() + (j.empty() ? "e" : std::to_string(j.size()));
}

template <typename T>
void json_as(fly::Json const &j, std::string &r)
{
    try
    {
        r += fly::string::format("{};", static_cast<T>(j));
    }
    catch (fly::JsonException const &e)
    {
        r += e.what();
    }
}

template <typename T>
void json_list_as(fly::Json const &j, std::string &r)
{
    try
    {
        for (auto const &x : static_cast<T>(j)) r += fly::string::format("{},", x);
    }
    catch (fly::JsonException const &e)
    {
        r += e.what();
    }
}

[[gnu::noinline]] std::string use_JsonTypes(std::uint64_t a, std::uint64_t b, std::int64_t i, Shared const &shared)
{
    Dice d {a * 37 + b + 1};
    std::string r;
    for (int k = 0; k < 4; ++k)
    {
        fly::Json const j = d(4) ? some_json(d, 2) : fly::Json(std::to_string(d(70000)));
        json_as<int>(j, r), json_as<std::uint8_t>(j, r), json_as<double>(j, r), json_as<bool>(j, r), json_as<std::string>(j, r), json_as<std::int64_t>(j, r), json_as<float>(j, r);
        json_list_as<std::vector<std::string>>(j, r), json_list_as<std::vector<int>>(j, r), json_list_as<std::set<std::string>>(j, r), json_list_as<std::array<int, 2>>(j, r), json_list_as<std::u16string>(j, r);
        r += std::to_string(j.is_null() + 2 * j.is_string() + 4 * j.is_object() + 8 * j.is_array() + 16 * j.is_boolean() + 32 * j.is_signed_integer() + 64 * j.is_unsigned_integer() + 128 * j.is_float() + 256 * j.is_object_like());
        r += fly::string::format("{}", j);
    }
    fly::Json const list {"x", static_cast<std::int64_t>(a % 100), b % 2 == 0}, object {{"p", static_cast<std::int64_t>(a % 10)}, {"q", list}};
    return r + list.serialize() + object.serialize();
}

[[gnu::noinline]] std::string use_ParseMore(std::uint64_t a, std::uint64_t b, std::int64_t i, Shared const &shared)
{
    using Features = fly::parser::JsonParser::Features;
    Dice d {a * 41 + b + 1};
    static char const *const texts[] = {"/* a */ [1, 2, // b\n 3]", "[1, 2, ]", "{\"a\" : 1, }", "12", "\"t\\u20ac\\n\"", "/ 1", "[1 2]", "{\"a\" 1}", "[tru]", "[1]]", "[/* open", "{\"a\":[{\"b\":-0.5e-3}]}",
        "[\"\\ud83c\\udf55\", \"\\b\\f\\r\\t\\\\\\/\\\"\"]", "[18446744073709551615, -9223372036854775808]", "[01]", "[\"a\tb\"]", "[\"\\x\"]", "[\"\\ud83c\"]"};
    std::string r;
    for (int k = 0; k < 4; ++k)
    {
        Features f = Features::Strict;
        if (d(2)) f = f | Features::AllowComments;
        if (d(2)) f = f | Features::AllowTrailingComma;
        if (d(2)) f = f | Features::AllowAnyType;
        fly::parser::JsonParser p(f);
        for (int again = 0; again < 2; ++again)
        {
            auto const v = p.parse_string(std::string(texts[d(sizeof texts / sizeof *texts)]));
            r += v ? v->serialize() : "none";
        }
    }
    static char const *const inis[] = {"a=1\n", "[s]\na\n", "[\"s\"]\n", "['s]\n", "[s]\n\"a\"=1\n", "[s]\na=b=c\n", "[s]\n a = ' b ' \n[t]\nx=y\n", "[s\n", "[s]\na=\n"};
    fly::parser::IniParser p;
    for (int k = 0; k < 3; ++k)
    {
        auto const v = p.parse_string(std::string(inis[d(sizeof inis / sizeof *inis)]));
        r += v ? v->serialize() : "none";
    }
    return r;
}

template <typename S>
void unicode_in(std::string const &text, Dice &d, std::string &r)
{
    using Str = fly::BasicString<typename S::value_type>;
    auto converted = fly::String::convert<S>(text);
    if (!converted)
    {
        r += "-";
        return;
    }
    S s = *converted;
    if (d(3) == 0 && !s.empty()) s.erase(s.begin() + static_cast<std::ptrdiff_t>(d(s.size()))); // maybe not valid any more
    r += Str::validate(s) ? "v" : "i";
    auto const end = s.cend();
    for (auto it = s.cbegin(); it != end;)
    {
        auto const c = Str::decode_codepoint(it, end);
        if (!c)
        {
            r += "!";
            break;
        }
        auto const e = Str::encode_codepoint(*c);
        r += std::to_string(static_cast<unsigned long>(*c)) + (e ? ":" + std::to_string(e->size()) : "?");
    }
    auto const u = Str::template escape_all_codepoints<'U'>(s);
    r += u ? narrow(*u) : "none";
    auto const back = u ? Str::unescape_all_codepoints(*u) : std::nullopt;
    r += back && *back == s ? "same" : "other";
    auto const utf8 = Str::template convert<std::string>(s);
    r += utf8 ? *utf8 : "none";
}

[[gnu::noinline]] std::string use_Unicode(std::uint64_t a, std::uint64_t b, std::int64_t i, Shared const &shared)
{
    Dice d {a * 43 + b + 1};
    std::string const s = mixed_text(a, b);
    std::string r;
    unicode_in<std::string>(s, d, r), unicode_in<std::u16string>(s, d, r), unicode_in<std::u32string>(s, d, r), unicode_in<std::wstring>(s, d, r);
    for (char const *text : {"\\u00e9", "\\xe9", "\\ud83c\\udf55", "\\ud83c", "\\U0001f355", "\\u12", "x\\\\y", "\\U99999999"})
    {
        auto const u = fly::String::unescape_all_codepoints(text);
        r += u ? *u : "none";
    }
    auto const e = fly::String::encode_codepoint(static_cast<std::uint32_t>(a % 0x120000));
    return r + (e ? *e : "none") + (fly::String::validate(s.substr(0, 1 + b % s.size())) ? "v" : "i");
}

[[gnu::noinline]] std::string use_FormatMore(std::uint64_t a, std::uint64_t b, std::int64_t i, Shared const &shared)
{
    double const x = static_cast<double>(i % 100000) / 64.0;
    char const c = static_cast<char>('a' + a % 26);
    std::string r = fly::string::format("{1} {0} {2:{3}d}|{2:<{3}d}|", a, c, b % 1000, static_cast<int>(3 + a % 9));
    r += fly::string::format("{:_<8c}|{:_^8c}|{:_>8c}|{:x}|{{}}|{: d}|{:010d}|{:#o}|{:#b}|{:#B}|{:#X}", c, c, c, c, i % 1000, static_cast<int>(b % 1000), a, b % 256, b % 64, a);
    r += fly::string::format("{:08.3f}|{:_<12.2f}|{:_^12.2f}|{: .1e}|{:g}|{:#g}|{:G}|{:A}|{:.{}f}|{}", x, x, -x, x, x * 1e12, x, x * 1e20, x, x, static_cast<int>(a % 6), static_cast<long double>(x));
    r += fly::string::format("{}|{:d}|{:>7s}|{:_^9s}|{:c}|{}|{}", true, b % 2 == 0, a % 2 == 0, false, static_cast<int>('A' + b % 26), std::nan(""), static_cast<double>(INFINITY));
    r += fly::string::format("{:L}|{:L}|{:p}|{}", a, x, reinterpret_cast<void const *>(a), u"wide \u00e9");
    r += fly::string::format("{:.2s}|{:_<{}.{}s}|{}", mixed_text(a, b), "abcdef", static_cast<int>(8 + a % 8), static_cast<int>(b % 6), shared.doc["list"]);
    return r + narrow(fly::string::format(u"{:_^12.1f}|{:#x}|{:>8s}|{}", x, a, u"w", true)) + narrow(fly::string::format(U"{:+e}|{:c}", x, U'\u00e9'));
}

[[gnu::noinline]] std::string use_StringsMore(std::uint64_t a, std::uint64_t b, std::int64_t i, Shared const &shared)
{
    Dice d {a * 47 + b + 1};
    std::string s, r;
    for (int k = 0; k < 24; ++k) s += "ab,* \t\nAxZ09/\xc3\xa9"[d(16)];
    for (char const c : s)
        r += std::to_string(fly::String::is_alpha(c) + 2 * fly::String::is_upper(c) + 4 * fly::String::is_lower(c) + 8 * fly::String::is_digit(c) + 16 * fly::String::is_x_digit(c) + 32 * fly::String::is_space(c)) + fly::String::to_upper(c) + fly::String::to_lower(c);
    static char const *const patterns[] = {"*", "*a*", "a*b", "*,*", "", "**", "a*", "*9", "x*Z*0"};
    for (char const *p : patterns) r += fly::String::wildcard_match(s, p) ? "y" : "n";
    for (auto const &p : fly::String::split(s, ',')) r += "<" + p + ">";
    for (auto const &p : fly::String::split(s, 'a', 2)) r += "(" + p + ")";
    std::string t = s;
    fly::String::replace_all(t, "a", 'q');
    fly::String::replace_all(t, "b", std::string_view("cd"));
    fly::String::replace_all(t, "", 'z');
    fly::String::remove_all(t, "x");
    fly::String::trim(t);
    std::u16string w = u"  \u00e9" + std::u16string(a % 5, u'w') + u" ";
    fly::String16::trim(w);
    fly::String16::replace_all(w, u"w", u'v');
    r += narrow(fly::String16::join(u'.', w, std::u16string(u"end"), u'c'));
    auto const random = fly::String16::generate_random_string(a % 9);
    for (auto const c : random)
        if (!fly::String16::is_alpha(c) && !fly::String16::is_digit(c)) r += "a random string has an unexpected character";
    for (char const *n : {"12", "-7", "1.5", "x1", "99999999999", "0x10", "", " 1", "1 "})
    {
        auto const v = fly::String::convert<int>(n);
        auto const f = fly::String::convert<long double>(n);
        r += v ? std::to_string(*v) : "-";
        r += f ? std::to_string(static_cast<double>(*f)) : "-";
    }
    return r + t + std::to_string(random.size()) + std::to_string(fly::String::size(t));
}

[[gnu::noinline]] std::string use_Damaged(std::uint64_t a, std::uint64_t b, std::int64_t i, Shared const &shared)
{
    Dice d {a * 53 + b + 1};
    std::string in, enc, r;
    for (std::uint64_t k = 0; k < 20 + a % 60; ++k) in.push_back(static_cast<char>('a' + d(9)));
    bool const huffman = d(2) == 0;
    auto const e = std::make_unique<fly::coders::HuffmanEncoder>(shared.config); // (large objects)
    auto const h = std::make_unique<fly::coders::HuffmanDecoder>();
    auto &encoder = *e;
    auto &decoder = *h;
    auto const c = std::make_unique<fly::coders::Base64Coder>();
    auto &base64 = *c;
    if (huffman ? !encoder.encode_string(in, enc) : !base64.encode_string(in, enc)) return "not encoded";
    for (int k = 0; k < 3; ++k) // the same decoder goes on after a failure
    {
        std::string bad = enc, dec;
        if (d(2)) bad.resize(d(bad.size()));
        if (d(2) && !bad.empty()) bad[d(bad.size())] = static_cast<char>(d(256));
        if (huffman && bad.size() > 3) bad[1] = enc[1], bad[2] = enc[2]; // not a huge chunk
        bool const ok = huffman ? decoder.decode_string(bad, dec) : base64.decode_string(bad, dec);
        r += ok ? "ok " + narrow(dec) : "rejected;";
    }
    std::string dec;
    bool const ok = huffman ? decoder.decode_string(enc, dec) : base64.decode_string(enc, dec);
    return r + (ok && dec == in ? "ok" : "an intact input is damaged");
}

std::string use(Op const &op, Shared const &shared)
{
    switch (op.kind)
    {
        case FormatInt: return use_FormatInt(op.a, op.b, static_cast<std::int64_t>(op.a), shared);
        case FormatFloat: return use_FormatFloat(op.a, op.b, static_cast<std::int64_t>(op.a), shared);
        case FormatText: return use_FormatText(op.a, op.b, static_cast<std::int64_t>(op.a), shared);
        case FormatWide: return use_FormatWide(op.a, op.b, static_cast<std::int64_t>(op.a), shared);
        case Convert: return use_Convert(op.a, op.b, static_cast<std::int64_t>(op.a), shared);
        case Strings: return use_Strings(op.a, op.b, static_cast<std::int64_t>(op.a), shared);
        case Escape: return use_Escape(op.a, op.b, static_cast<std::int64_t>(op.a), shared);
        case Random: return use_Random(op.a, op.b, static_cast<std::int64_t>(op.a), shared);
        case ParseJson: return use_ParseJson(op.a, op.b, static_cast<std::int64_t>(op.a), shared);
        case ReadJson: return use_ReadJson(op.a, op.b, static_cast<std::int64_t>(op.a), shared);
        case ParseIni: return use_ParseIni(op.a, op.b, static_cast<std::int64_t>(op.a), shared);
        case Base64: return use_Base64(op.a, op.b, static_cast<std::int64_t>(op.a), shared);
        case Huffman: return use_Huffman(op.a, op.b, static_cast<std::int64_t>(op.a), shared);
        case Address: return use_Address(op.a, op.b, static_cast<std::int64_t>(op.a), shared);
        case Bits: return use_Bits(op.a, op.b, static_cast<std::int64_t>(op.a), shared);
        case System: return use_System(op.a, op.b, static_cast<std::int64_t>(op.a), shared);
        case EditJson: return use_EditJson(op.a, op.b, static_cast<std::int64_t>(op.a), shared);
        case JsonTypes: return use_JsonTypes(op.a, op.b, static_cast<std::int64_t>(op.a), shared);
        case ParseMore: return use_ParseMore(op.a, op.b, static_cast<std::int64_t>(op.a), shared);
        case Unicode: return use_Unicode(op.a, op.b, static_cast<std::int64_t>(op.a), shared);
        case FormatMore: return use_FormatMore(op.a, op.b, static_cast<std::int64_t>(op.a), shared);
        case StringsMore: return use_StringsMore(op.a, op.b, static_cast<std::int64_t>(op.a), shared);
        case Damaged: return use_Damaged(op.a, op.b, static_cast<std::int64_t>(op.a), shared);
        default: return use_SharedText(op.a, op.b, static_cast<std::int64_t>(op.a), shared);
    }
}

} // namespace

SIM_SCENARIO(utility_threads, 1, "threads_used_the_same_utility")
{
    quiet_default_logger();
    int const nthreads = static_cast<int>(sim_param("threads", 2, 5));
    int const total = amount("uses", 2, 10, 60);
    bool const same = coin(60); // all threads do the same
    Kind const focus = static_cast<Kind>(R(0, NumKinds - 1));
    std::vector<std::vector<std::pair<Op, std::string>>> plan(static_cast<std::size_t>(nthreads));
    Shared shared;
    shared.config = std::make_shared<Settings>();
    shared.text = "12,shared,-7,t\xc3\xa9xt,99999999999,x";
    {
        fly::parser::JsonParser p;
        auto doc = p.parse_string(std::string(R"({"list" : [1, 2, 3, 5, 8], "text" : "sh\"ared\u00e9", "number" : 12.5, "nested" : {"deep" : [true, null, "x"]}})"));
        if (!doc) sim_fail("oracle:parse", "a JSON document was not parsed");
        shared.doc = *doc;
    }
    std::map<int, std::set<std::size_t>> users;
    for (int n = 0; n < total; ++n)
    {
        std::size_t const t = R(0, static_cast<std::uint64_t>(nthreads - 1));
        Op op {same && coin(80) ? focus : static_cast<Kind>(R(0, NumKinds - 1)), R(0, ~0ULL >> 1) >> R(0, 60), R(0, ~0ULL >> 1) >> R(0, 40)};
        if (sim_op("thread %zu: %s %lu %lu", t, kind_names[op.kind], (unsigned long)op.a, (unsigned long)op.b))
        {
            plan[t].emplace_back(op, "");
            users[op.kind].insert(t);
        }
    }
    // What every use returns when it is alone: asked before or after the threads run, as lazily initialised state may be one or the other.
    bool const before = coin(50);
    auto alone = [&] {
        for (auto &list : plan)
            for (auto &[op, expected] : list)
            {
                std::string got = use(op, shared);
                if (before) expected = std::move(got);
                else if (got != expected)
                    sim_fail("oracle:differs", "%s (%lu, %lu) returned '%s' with other threads around, and '%s' alone", kind_names[op.kind], (unsigned long)op.a, (unsigned long)op.b, expected.c_str(), got.c_str());
            }
    };
    if (before) alone();
    {
        Threads threads;
        for (std::size_t t = 0; t < plan.size(); ++t)
            threads.start([&shared, &list = plan[t], before] {
                for (auto &[op, expected] : list)
                {
                    std::string got = use(op, shared);
                    if (!before) expected = std::move(got);
                    else if (got != expected)
                        sim_fail("oracle:differs", "%s (%lu, %lu) returned '%s' with other threads around, and '%s' alone", kind_names[op.kind], (unsigned long)op.a, (unsigned long)op.b, got.c_str(), expected.c_str());
                    sim_point();
                }
            });
        threads.join();
    }
    if (!before) alone();
    for (auto const &[k, who] : users)
        if (who.size() > 1) { sim_probe(0); break; }
    sim_stop();
}
