// C20: text to numbers, command lines and configuration files. Texts are generated together with their meaning (or are
// random) and every result of the real code is compared with that meaning.
#include "common.hpp"
#include "iceoryx_posh/iceoryx_posh_types.hpp"
#include "iceoryx_posh/gateway/toml_gateway_config_parser.hpp"
#include "iceoryx_posh/roudi/roudi_cmd_line_parser.hpp"
#include "iceoryx_posh/roudi/roudi_cmd_line_parser_config_file_option.hpp"
#include "iceoryx_posh/roudi/roudi_config_toml_file_provider.hpp"
#include "iox/cli/command_line_parser.hpp"
#include "iox/cli_definition.hpp"
#include "iox/detail/convert.hpp"
#include "iox/logging.hpp"
#include "iox/posix_group.hpp"
#include <cmath>
#include <getopt.h>
#include <iostream>
#include <limits>
#include <sstream>

using namespace vh;
using namespace iox;
namespace
{
Rng* R;
std::string g_trace;
#define CK(c, key, ...) VH_CHECK(c, key, "%s\n  input: %s", fmt(__VA_ARGS__).c_str(), g_trace.c_str())
typedef __int128 i128;

// ------------------------------------------------------------------------------------------------------ numbers
std::string dec(i128 v)
{
    if (v == 0) return "0";
    bool n = v < 0;
    std::string s;
    unsigned __int128 u = n ? -(unsigned __int128)v : (unsigned __int128)v;
    while (u) { s.insert(s.begin(), char('0' + int(u % 10))); u /= 10; }
    return n ? "-" + s : s;
}
std::string numberText(Rng& r)
{
    static const i128 borders[] = {0, 1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647ll, 2147483648ll, 4294967295ll, 4294967296ll,
                                   i128(9223372036854775807ll), i128(9223372036854775807ll) + 1, i128(18446744073709551615ull), i128(18446744073709551615ull) + 1};
    i128 v;
    if (r.chance(650))
    {
        v = borders[r.below(sizeof borders / sizeof *borders)] + i128(r.below(5)) - 2;
        if (r.chance(400)) v = -v;
    }
    else if (r.chance(700)) v = i128(r.next() >> r.below(64)) * (r.chance(300) ? -1 : 1);
    else v = i128(r.next()) * i128(r.below(1000000)) * (r.chance(300) ? -1 : 1);
    std::string s = dec(v);
    if (r.chance(150)) s.insert(s[0] == '-' ? 1 : 0, std::string(r.range(1, 30), '0'));
    if (s[0] != '-' && r.chance(150)) s.insert(0, "+");
    return s;
}
std::string floatText(Rng& r)
{
    if (r.chance(80))
    {
        static const char* sp[] = {"inf", "-inf", "nan", "infinity", "INF", "NaN", "-nan", "nan(0)", "infin", "na", "1e", "1e+", "e5", ".", "-.", "0x", "0x1p4", "0x1.8p-3", "1.5f", "--1", "+-1", "1e400", "1e-400", "-1e400", "3.5e38", "1e39", "1e-46", "1.8e308", "3.4028235e38", "3.4028236e38", "1.7976931348623157e308", "1.7976931348623159e308", "1.17549435e-38", "2.2250738585072014e-308"};
        return sp[r.below(sizeof sp / sizeof *sp)];
    }
    std::string s;
    if (r.chance(300)) s += r.chance(800) ? "-" : "+";
    for (uint64_t i = r.below(r.chance(800) ? 8 : 30); i; --i) s += char('0' + r.below(10));
    if (r.chance(600))
    {
        s += '.';
        for (uint64_t i = r.below(r.chance(800) ? 10 : 40); i; --i) s += char('0' + r.below(10));
    }
    if (r.chance(400))
    {
        s += r.chance(500) ? "e" : "E";
        if (r.chance(500)) s += r.chance(700) ? "-" : "+";
        s += dec(i128(r.below(r.chance(700) ? 40 : 500)));
    }
    return s;
}
std::string damage(Rng& r, std::string s)
{
    static const char junk[] = " \t\n+-.,;eExX0123456789abcfuLlinf_()%$\x80\xff'\"";
    for (uint64_t n = r.range(1, 2); n; --n)
    {
        uint64_t at = r.below(s.size() + 1);
        switch (r.below(3))
        {
        case 0: s.insert(at, 1, junk[r.below(sizeof junk - 1)]); break;
        case 1: if (at < s.size()) s.erase(at, 1); break;
        default: if (at < s.size()) s[at] = junk[r.below(sizeof junk - 1)]; break;
        }
    }
    return s;
}
// whole text = optional sign and digits
bool integer(const std::string& t, bool& blanks, i128& v, bool& huge, bool& minus)
{
    size_t i = 0;
    blanks = huge = minus = false;
    while (i < t.size() && isspace((unsigned char)t[i])) { ++i; blanks = true; }
    if (i < t.size() && (t[i] == '-' || t[i] == '+')) minus = t[i++] == '-';
    if (i == t.size()) return false;
    v = 0;
    for (; i < t.size(); ++i)
    {
        if (t[i] < '0' || t[i] > '9') return false;
        v = v * 10 + (t[i] - '0');
        if (v > (i128(1) << 100)) huge = true, v = i128(1) << 100;
    }
    if (minus) v = -v;
    return true;
}
template <typename T>
void judgeInt(const std::string& t, const char* name)
{
    auto res = convert::from_string<T>(t.c_str());
    bool blanks, huge, minus;
    i128 v;
    bool num = integer(t, blanks, v, huge, minus);
    bool fits = num && !huge && v >= i128(std::numeric_limits<T>::min()) && v <= i128(std::numeric_limits<T>::max());
    if (!std::numeric_limits<T>::is_signed && minus) fits = false;
    count("conversions");
    if (res.has_value())
    {
        CK(fits, "accepted", "'%s' is no %s but was converted to %s", t.c_str(), name, dec(i128(res.value())).c_str());
        CK(i128(res.value()) == v, "value", "'%s' was converted to the %s %s", t.c_str(), name, dec(i128(res.value())).c_str());
        count("accepted");
        // and back
        CK(blanks || convert::toString(res.value()) == dec(v), "to-string", "%s %s is written as '%s'", name, dec(v).c_str(), convert::toString(res.value()).c_str());
    }
    else
    {
        CK(!fits || blanks || minus, "rejected", "'%s' is a valid %s but was rejected", t.c_str(), name);
        if (minus && std::numeric_limits<T>::is_signed) CK(!fits || blanks, "rejected", "'%s' is a valid %s but was rejected", t.c_str(), name);
        count("rejected");
    }
}
template <typename T, typename F>
void judgeFloat(const std::string& t, const char* name, F ref)
{
    auto res = convert::from_string<T>(t.c_str());
    char* end = nullptr;
    errno = 0;
    T v = ref(t.c_str(), &end);
    bool whole = end != t.c_str() && *end == 0 && size_t(end - t.c_str()) == t.size();
    bool range = errno != ERANGE;
    bool blanks = !t.empty() && isspace((unsigned char)t[0]);
    bool sub = std::fpclassify(v) == FP_SUBNORMAL; // may be refused
    count("conversions");
    if (res.has_value())
    {
        CK(whole && (range || sub), "accepted", "'%s' is no %s but was converted to %.20Lg", t.c_str(), name, (long double)res.value());
        T g = res.value();
        CK((std::isnan(v) && std::isnan(g)) || (v == g && std::signbit(v) == std::signbit(g)), "value", "'%s' was converted to the %s %.22Lg instead of %.22Lg", t.c_str(), name, (long double)g, (long double)v);
        count("accepted");
    }
    else
    {
        CK(!whole || !range || sub || blanks, "rejected", "'%s' is a valid %s but was rejected", t.c_str(), name);
        count("rejected");
    }
}
void runConvert()
{
    Rng& r = *R;
    for (unsigned k = 0; k < 30; ++k)
    {
        std::string t = r.chance(650) ? numberText(r) : floatText(r);
        if (r.chance(250)) t = damage(r, t);
        t = t.c_str(); // no embedded zeros
        g_trace = t;
        judgeInt<signed char>(t, "int8");
        judgeInt<unsigned char>(t, "uint8");
        judgeInt<short>(t, "int16");
        judgeInt<unsigned short>(t, "uint16");
        judgeInt<int>(t, "int32");
        judgeInt<unsigned int>(t, "uint32");
        judgeInt<long>(t, "int64");
        judgeInt<unsigned long>(t, "uint64");
        judgeInt<long long>(t, "long long");
        judgeInt<unsigned long long>(t, "unsigned long long");
        judgeInt<bool>(t, "bool");
        judgeFloat<float>(t, "float", strtof);
        judgeFloat<double>(t, "double", strtod);
        judgeFloat<long double>(t, "long double", strtold);
        auto c = convert::from_string<char>(t.c_str());
        CK(c.has_value() == (t.size() == 1) && (!c || c.value() == t[0]), "char", "conversion of '%s' to char is wrong", t.c_str());
        auto s = convert::from_string<string<8>>(t.c_str());
        CK(s.has_value() == (t.size() <= 8) && (!s || t == s->c_str()), "string", "conversion of '%s' to string<8> is wrong", t.c_str());
        distinct(mix(std::hash<std::string>()(t), 1));
    }
    count("runs_convert");
}
// ------------------------------------------------------------------------------------------------- command lines
struct Opt
{
    char s;          // 0: none
    std::string l;   // empty: none
    cli::OptionType type;
    std::string def;
    bool help{false};
};
std::string word(Rng& r, uint64_t lo, uint64_t hi)
{
    std::string s;
    for (uint64_t n = r.range(lo, hi); n; --n) s += "abcdefghijklmnopqrstuvwxyzABCDEFGHXYZ0123456789-_"[r.below(s.empty() ? 46 : 48)];
    return s;
}
std::string valueText(Rng& r)
{
    switch (r.below(8))
    {
    case 0: return word(r, 100, 140);
    case 1: case 2: return numberText(r);
    case 3: return floatText(r);
    case 4: return "-" + word(r, 1, 3);
    case 5: return r.chance(500) ? "true" : "false";
    case 6: return r.chance(300) ? "" : word(r, 1, 2);
    default: return word(r, 1, 12);
    }
}
void runCli()
{
    Rng& r = *R;
    std::vector<Opt> opts;
    opts.push_back({'h', "help", cli::OptionType::Switch, "", true});
    int failures = 0;
    cli::OptionDefinition def("a program", [&] { ++failures; });
    for (uint64_t n = r.below(9); n; --n)
    {
        Opt o;
        o.s = r.chance(800) ? "abcdefgijklXYZ019"[r.below(17)] : 0;
        o.l = (o.s == 0 || r.chance(800)) ? word(r, 2, r.chance(900) ? 12 : 28) : "";
        o.type = cli::OptionType(r.below(3));
        if (o.type == cli::OptionType::Optional) o.def = valueText(r).substr(0, 128);
        bool clash = false;
        for (auto& p : opts) clash |= (o.s && p.s == o.s) || (!o.l.empty() && p.l == o.l);
        int before = failures;
        cli::OptionName_t ln(TruncateToCapacity, o.l.c_str());
        if (o.type == cli::OptionType::Switch) def.addSwitch(o.s, ln, "d");
        else if (o.type == cli::OptionType::Required) def.addRequired(o.s, ln, "d", "t");
        else def.addOptional(o.s, ln, "d", "t", cli::Argument_t(TruncateToCapacity, o.def.c_str()));
        CK((failures != before) == clash, "definition", "defining -%c --%s %s", o.s ? o.s : '?', o.l.c_str(), clash ? "twice was not refused" : "was refused");
        if (!clash) opts.push_back(o);
    }
    failures = 0;
    // a command line with its meaning
    std::vector<std::string> args{"prog"};
    uint64_t offset = 1;
    if (r.chance(200)) { args.push_back("subcommand"); offset = 2; }
    std::map<size_t, std::string> got;
    bool bad = false, noValue = false;
    std::vector<size_t> order;
    for (size_t i = 1; i < opts.size(); ++i)
        if (r.chance(opts[i].type == cli::OptionType::Required ? 970 : 500)) order.push_back(i);
    if (r.chance(40)) order.push_back(0);
    if (r.chance(60) && !order.empty()) order.push_back(order[r.below(order.size())]); // twice
    for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
    for (size_t k = 0; k < order.size(); ++k)
    {
        Opt& o = opts[order[k]];
        std::string name = (o.s && (o.l.empty() || r.chance(500))) ? std::string("-") + o.s : "--" + o.l;
        args.push_back(name);
        if (got.count(order[k])) bad = true;
        std::string v;
        if (o.type != cli::OptionType::Switch)
        {
            v = valueText(r);
            if (k + 1 == order.size() && r.chance(50)) { bad = true; noValue = true; got[order[k]]; break; }
            args.push_back(v);
            if (v.size() > cli::MAX_OPTION_ARGUMENT_LENGTH) bad = true;
        }
        if (o.help) bad = true;
        if (!got.count(order[k])) got[order[k]] = v;
    }
    for (size_t i = 0; i < opts.size(); ++i)
        if (opts[i].type == cli::OptionType::Required && !got.count(i)) bad = true;
    if (!noValue && r.chance(120)) // something that is no option at its place
    {
        size_t at = args.size();
        switch (r.below(6))
        {
        case 0: args.push_back("nodash"); break;
        case 1: args.push_back("-"); break;
        case 2: args.push_back("--"); break;
        case 3: args.push_back("---help"); break;
        case 4: args.push_back("--unknown-opt~"); break;
        default: args.push_back("-qq"); break;
        }
        (void)at;
        bad = true;
    }
    g_trace.clear();
    for (auto& o : opts) g_trace += fmt("[-%c --%s %s %s] ", o.s ? o.s : '?', o.l.c_str(), o.type == cli::OptionType::Switch ? "switch" : o.type == cli::OptionType::Required ? "required" : "optional", o.def.c_str());
    for (auto& a : args) g_trace += "'" + a + "' ";
    std::vector<char*> argv;
    for (auto& a : args) argv.push_back(const_cast<char*>(a.c_str()));
    argv.push_back(nullptr);
    auto res = cli::parseCommandLineArguments(def, int(args.size()), argv.data(), offset);
    count("command_lines");
    CK((failures > 0) == bad, bad ? "accepted" : "rejected", "the command line is %s but was %s", bad ? "wrong" : "right", failures ? "rejected" : "accepted");
    if (bad) { count("rejected_lines"); return; }
    CK(strcmp(res.binaryName(), "prog") == 0, "binary-name", "binary name is %s", res.binaryName());
    for (size_t i = 0; i < opts.size(); ++i)
    {
        Opt& o = opts[i];
        std::vector<std::string> names;
        if (o.s) names.push_back(std::string(1, o.s));
        if (!o.l.empty()) names.push_back(o.l);
        for (auto& n : names)
        {
            cli::OptionName_t on(TruncateToCapacity, n.c_str());
            if (o.type == cli::OptionType::Switch)
            {
                CK(res.isSwitchSet(on) == (got.count(i) == 1), "switch", "switch %s is reported %s", n.c_str(), res.isSwitchSet(on) ? "set" : "unset");
                continue;
            }
            std::string want = got.count(i) ? got[i] : o.def;
            auto s = res.get<string<200>>(on);
            CK(!s.has_error() && want == s.value().c_str(), "option-value", "option %s is '%s' instead of '%s'", n.c_str(), s.has_error() ? "(error)" : s.value().c_str(), want.c_str());
            auto v = res.get<int32_t>(on);
            auto c = convert::from_string<int32_t>(want.c_str());
            CK(v.has_error() != c.has_value() && (v.has_error() || v.value() == c.value()), "option-value", "option %s='%s' as number is wrong", n.c_str(), want.c_str());
            if (v.has_error()) CK(v.error() == cli::Arguments::Error::UNABLE_TO_CONVERT_VALUE, "option-error", "wrong error for an unconvertible value");
            auto b = res.get<bool>(on);
            CK(b.has_error() != (want == "true" || want == "false") && (b.has_error() || b.value() == (want == "true")), "option-value", "option %s='%s' as bool is wrong", n.c_str(), want.c_str());
            CK(!res.isSwitchSet(on), "switch", "option %s is reported as switch", n.c_str());
            count("option_values");
        }
    }
    auto none = res.get<int32_t>("~nothing");
    CK(none.has_error() && none.error() == cli::Arguments::Error::NO_SUCH_VALUE, "option-error", "an undefined option has a value");
    distinct(std::hash<std::string>()(g_trace));
}
std::string g_defText;
double g_defDouble{0};
float g_defFloat{0};
bool g_defBool{false};
int16_t g_defShort{0};
string<100> defText() { return string<100>(TruncateToCapacity, g_defText.c_str()); }
struct Line
{
    IOX_CLI_DEFINITION(Line);
    IOX_CLI_OPTIONAL(string<100>, both, defText(), 's', {"both-names"}, {"d"});
    IOX_CLI_OPTIONAL(int16_t, onlyShort, g_defShort, 'o', {""}, {"d"});
    IOX_CLI_OPTIONAL(string<100>, onlyLong, defText(), iox::cli::NO_SHORT_OPTION, {"only-long"}, {"d"});
    IOX_CLI_OPTIONAL(double, real, g_defDouble, 'r', {"real"}, {"d"});
    IOX_CLI_OPTIONAL(float, single, g_defFloat, 'f', {"single"}, {"d"});
    IOX_CLI_OPTIONAL(bool, flag, g_defBool, 'b', {"flag"}, {"d"});
    IOX_CLI_SWITCH(lightShort, 'l', {""}, {"d"});
    IOX_CLI_SWITCH(lightLong, iox::cli::NO_SHORT_OPTION, {"light-long"}, {"d"});
    IOX_CLI_REQUIRED(uint8_t, must, 'm', {"must"}, {"d"});
};
void runDefinition()
{
    Rng& r = *R;
    g_defText = word(r, 1, 20);
    g_defDouble = r.chance(500) ? double(int64_t(r.next())) / double(r.range(1, 1000000)) : double(r.below(100)) / 10;
    g_defFloat = float(g_defDouble);
    g_defBool = r.chance(500);
    g_defShort = int16_t(r.next());
    std::vector<std::string> args{"prog"};
    auto text = g_defText;
    auto lng = g_defText;
    auto d = g_defDouble;
    auto f = g_defFloat;
    auto b = g_defBool;
    auto s = g_defShort;
    bool ls = false, ll = false;
    if (r.chance(400)) { text = word(r, 1, 20); args.push_back(r.chance(500) ? "-s" : "--both-names"); args.push_back(text); }
    if (r.chance(400)) { s = int16_t(r.next()); args.push_back("-o"); args.push_back(dec(s)); }
    if (r.chance(400)) { lng = word(r, 1, 20); args.push_back("--only-long"); args.push_back(lng); }
    if (r.chance(400)) { d = double(int64_t(r.next())) / 1024.0; args.push_back("-r"); args.push_back(fmt("%.17g", d)); }
    if (r.chance(400)) { f = float(int32_t(r.next())) / 1024.0f; args.push_back("--single"); args.push_back(fmt("%.9g", double(f))); }
    if (r.chance(400)) { b = r.chance(500); args.push_back("-b"); args.push_back(b ? "true" : "false"); }
    if (r.chance(400)) { ls = true; args.push_back("-l"); }
    if (r.chance(400)) { ll = true; args.push_back("--light-long"); }
    uint8_t must = uint8_t(r.next());
    args.push_back(r.chance(500) ? "-m" : "--must");
    args.push_back(dec(must));
    g_trace = fmt("defaults '%s' %d %.17g %s: ", g_defText.c_str(), int(g_defShort), g_defDouble, g_defBool ? "true" : "false");
    std::vector<char*> argv;
    for (auto& a : args) { argv.push_back(const_cast<char*>(a.c_str())); g_trace += "'" + a + "' "; }
    argv.push_back(nullptr);
    // a failure here would go on with garbage, therefore it ends the run at once
    auto l = Line::parse(int(args.size()), argv.data(), "program", 1U, [] { CK(false, "rejected", "a valid command line was rejected"); });
    count("definitions");
    CK(text == l.both().c_str(), "option-value", "both-names is '%s'", l.both().c_str());
    CK(lng == l.onlyLong().c_str(), "option-value", "only-long is '%s'", l.onlyLong().c_str());
    CK(s == l.onlyShort(), "option-value", "-o is %d", int(l.onlyShort()));
    CK(d == l.real(), "option-value", "real is %.17g instead of %.17g", l.real(), d);
    CK(f == l.single(), "option-value", "single is %.9g instead of %.9g", double(l.single()), double(f));
    CK(b == l.flag(), "option-value", "flag is %d", int(l.flag()));
    CK(ls == l.lightShort() && ll == l.lightLong(), "switch", "switches are %d %d", int(l.lightShort()), int(l.lightLong()));
    CK(must == l.must(), "option-value", "must is %d", int(l.must()));
    distinct(std::hash<std::string>()(g_trace));
}
// --------------------------------------------------------------------------------------------- daemon command line
void runRouDiLine()
{
    Rng& r = *R;
    config::RouDiConfig want;
    std::string file;
    bool run = true, bad = false, help = false, cfg = r.chance(500);
    std::vector<std::string> args{"iox-roudi"};
    auto add = [&](char s, const char* l, const std::string& v) {
        switch (r.below(3))
        {
        case 0: args.push_back(std::string("-") + s); args.push_back(v); break;
        case 1: args.push_back(std::string("--") + l); args.push_back(v); break;
        default: args.push_back(std::string("--") + l + "=" + v); break;
        }
    };
    auto number = [&](uint64_t max, uint64_t& v) {
        std::string t = r.chance(700) ? dec(i128(r.chance(500) ? r.below(100) : r.below(max + 1))) : r.chance(600) ? numberText(r) : damage(r, numberText(r));
        bool blanks, huge, minus;
        i128 x = 0;
        bool ok = integer(t, blanks, x, huge, minus) && !huge && !minus && x <= i128(max) && t.find('\n') == std::string::npos;
        if (blanks) { t = "7"; x = 7; ok = true; }
        t = t.c_str();
        if (!ok) bad = true;
        v = uint64_t(x);
        return t;
    };
    for (uint64_t n = r.below(6); n && !bad; --n)
    {
        switch (r.below(9))
        {
        case 0: if (r.chance(200)) { args.push_back(r.chance(500) ? "-h" : "--help"); run = false; help = true; } break;
        case 1: if (r.chance(200)) { args.push_back(r.chance(500) ? "-v" : "--version"); run = false; } break;
        case 2: { uint64_t v; auto t = number(65535, v); add('d', "domain-id", t); if (!bad && experimental::hasExperimentalPoshFeaturesEnabled()) want.domainId = DomainId{uint16_t(v)}; break; }
        case 3: { uint64_t v; auto t = number(65535, v); add('u', "unique-roudi-id", t); if (!bad) want.uniqueRouDiId = roudi::UniqueRouDiId{uint16_t(v)}; break; }
        case 4:
        {
            static const char* o[] = {"on", "off", "ON", "o", "onn", ""};
            uint64_t k = r.chance(800) ? r.below(2) : r.below(6);
            add('m', "monitoring-mode", o[k]);
            if (k > 1) bad = true;
            else want.monitoringMode = k == 0 ? roudi::MonitoringMode::ON : roudi::MonitoringMode::OFF;
            break;
        }
        case 5:
        {
            static const char* o[] = {"off", "fatal", "error", "warning", "info", "debug", "trace", "warn", "Info", "tracee"};
            using L = iox::log::LogLevel;
            static const L v[] = {L::Off, L::Fatal, L::Error, L::Warn, L::Info, L::Debug, L::Trace};
            uint64_t k = r.chance(800) ? r.below(7) : r.below(10);
            add('l', "log-level", o[k]);
            if (k > 6) bad = true;
            else want.logLevel = v[k];
            break;
        }
        case 6: { uint64_t v; auto t = number(UINT32_MAX, v); bool k = r.chance(500); add(k ? 'k' : 't', k ? "kill-delay" : "termination-delay", t); if (!bad) (k ? want.processKillDelay : want.processTerminationDelay) = units::Duration::fromSeconds(v); break; }
        case 7:
        {
            static const char* o[] = {"off", "major", "minor", "patch", "commitId", "buildDate", "commitid", "none"};
            using L = version::CompatibilityCheckLevel;
            static const L v[] = {L::OFF, L::MAJOR, L::MINOR, L::PATCH, L::COMMIT_ID, L::BUILD_DATE};
            uint64_t k = r.chance(800) ? r.below(6) : r.below(8);
            add('x', "compatibility", o[k]);
            if (k > 5) bad = true;
            else want.compatibilityCheckLevel = v[k];
            break;
        }
        default:
            if (cfg)
            {
                file = "/" + word(r, 1, r.chance(900) ? 60 : 1100);
                add('c', "config-file", file);
                if (file.size() > roudi::ConfigFilePathString_t::capacity()) bad = true;
            }
            else if (r.chance(100))
            {
                args.push_back(r.chance(500) ? "--nonsense" : "-q");
                bad = true;
            }
        }
    }
    if (!bad && r.chance(40))
    {
        args.push_back("-t"); // the value is missing
        bad = true;
    }
    g_trace.clear();
    std::vector<char*> argv;
    for (auto& a : args) { argv.push_back(const_cast<char*>(a.c_str())); g_trace += "'" + a + "' "; }
    argv.push_back(nullptr);
    optind = 0;
    opterr = 0;
    config::CmdLineParser plain;
    config::CmdLineParserConfigFileOption withFile;
    auto res = cfg ? withFile.parse(int(args.size()), argv.data()) : plain.parse(int(args.size()), argv.data());
    count("daemon_lines");
    // with --help the outer parser hands everything to the inner one, which does not know --config-file: only the
    // absence of crashes is judged there
    if (cfg && help) { distinct(std::hash<std::string>()(g_trace)); return; }
    CK(res.has_error() == bad, bad ? "accepted" : "rejected", "the daemon's command line is %s but was %s", bad ? "wrong" : "right", res.has_error() ? "rejected" : "accepted");
    distinct(std::hash<std::string>()(g_trace));
    if (bad) { count("rejected_lines"); return; }
    auto& got = res.value();
    auto& c = got.roudiConfig;
    CK(got.run == run, "run", "run is %d", int(got.run));
    CK(file == got.configFilePath.c_str(), "config-file", "config file is '%s'", got.configFilePath.c_str());
    CK(c.domainId == want.domainId && c.uniqueRouDiId == want.uniqueRouDiId && c.logLevel == want.logLevel && c.monitoringMode == want.monitoringMode && c.compatibilityCheckLevel == want.compatibilityCheckLevel
           && c.processTerminationDelay == want.processTerminationDelay && c.processKillDelay == want.processKillDelay && c.sharesAddressSpaceWithApplications == want.sharesAddressSpaceWithApplications
           && c.introspectionChunkCount == want.introspectionChunkCount && c.discoveryChunkCount == want.discoveryChunkCount,
       "daemon-config", "the resulting configuration differs from the command line");
}
// ---------------------------------------------------------------------------------------------- configuration files
std::string blank(Rng& r) { return r.chance(900) ? "" : r.chance(500) ? "  " : "# a comment\n"; }
std::string eq(Rng& r) { return r.chance(700) ? " = " : r.chance(500) ? "=" : "   =  "; }
std::string tomlNumber(Rng& r, i128 max, bool& ok, i128& v)
{
    switch (r.below(20))
    {
    case 0: v = -i128(r.range(1, 1000)); ok = false; return dec(v);
    case 1: if (max < (i128(1) << 63)) { v = max + 1 + i128(r.below(1000)); ok = false; return dec(v); } /* fallthrough */
    case 2: ok = false; return "\"" + dec(i128(r.below(1000))) + "\"";
    case 3: ok = false; return dec(i128(r.below(1000))) + ".5";
    case 4: v = max >= (i128(1) << 63) ? i128(INT64_MAX) : max; ok = true; return dec(v);
    case 5: v = 1000 + i128(r.below(1000)); ok = true; { auto s = dec(v); s.insert(1, "_"); return s; }
    default: v = i128(r.below(r.chance(500) ? 100 : 100000)); ok = true; return dec(v);
    }
}
void runToml()
{
    Rng& r = *R;
    using E = roudi::RouDiConfigFileParseError;
    struct Seg { std::string rd, wr; std::vector<std::pair<uint64_t, uint32_t>> p; };
    std::vector<Seg> segs;
    std::set<E> why;
    std::string own = PosixGroup::getGroupOfCurrentProcess().getName().c_str();
    std::string d;
    d += blank(r);
    if (r.chance(970))
    {
        d += "[general]\n";
        if (r.chance(960))
        {
            uint64_t k = r.chance(950) ? 0 : r.range(1, 6);
            static const char* v[] = {"1", "2", "0", "-1", "\"1\"", "4294967297", "1.0"};
            d += "version" + eq(r) + v[k] + "\n";
            if (k) { why.insert(E::INVALID_CONFIG_FILE_VERSION); why.insert(E::EXCEPTION_IN_PARSER); }
        }
        else why.insert(E::INVALID_CONFIG_FILE_VERSION);
    }
    else why.insert(E::NO_GENERAL_SECTION);
    uint64_t ns = r.chance(30) ? r.range(MAX_SHM_SEGMENTS - 1, MAX_SHM_SEGMENTS + 2) : r.chance(40) ? 0 : r.range(1, 4);
    if (ns == 0) why.insert(E::NO_SEGMENTS);
    if (ns > MAX_SHM_SEGMENTS) why.insert(E::MAX_NUMBER_OF_SEGMENTS_EXCEEDED);
    bool many = ns > 8;
    for (uint64_t i = 0; i < ns; ++i)
    {
        Seg s{own, own, {}};
        d += blank(r) + "[[segment]]\n";
        if (r.chance(500)) { s.rd = word(r, 1, 30); d += "reader" + eq(r) + "\"" + s.rd + "\"\n"; }
        if (r.chance(500)) { s.wr = word(r, 1, 30); d += "writer" + eq(r) + "\"" + s.wr + "\"" + (r.chance(100) ? " # group" : "") + "\n"; }
        uint64_t np = many ? 1 : r.chance(30) ? 0 : r.chance(60) ? r.range(MAX_NUMBER_OF_MEMPOOLS - 1, MAX_NUMBER_OF_MEMPOOLS + 2) : r.range(1, 5);
        if (np == 0) why.insert(E::SEGMENT_WITHOUT_MEMPOOL);
        if (np > MAX_NUMBER_OF_MEMPOOLS) why.insert(E::MAX_NUMBER_OF_MEMPOOLS_PER_SEGMENT_EXCEEDED);
        for (uint64_t k = 0; k < np; ++k)
        {
            d += "[[segment.mempool]]\n" + blank(r);
            i128 sz = 0, ct = 0;
            bool ok1 = true, ok2 = true;
            std::string a, b;
            bool risky = r.chance(150);
            if (!risky) { sz = i128(r.below(100000)); ct = i128(r.below(100000)); a = dec(sz); b = dec(ct); }
            else { a = tomlNumber(r, i128(UINT64_MAX), ok1, sz); b = tomlNumber(r, i128(UINT32_MAX), ok2, ct); }
            std::string l1 = "size" + eq(r) + a + "\n", l2 = "count" + eq(r) + b + "\n";
            if (r.chance(many ? 1 : 8)) { l1.clear(); ok1 = false; }
            if (r.chance(many ? 1 : 8)) { l2.clear(); ok2 = false; }
            if (!ok1) { why.insert(E::MEMPOOL_WITHOUT_CHUNK_SIZE); why.insert(E::EXCEPTION_IN_PARSER); }
            if (!ok2) { why.insert(E::MEMPOOL_WITHOUT_CHUNK_COUNT); why.insert(E::EXCEPTION_IN_PARSER); }
            d += r.chance(500) ? l1 + l2 : l2 + l1;
            s.p.push_back({uint64_t(sz), uint32_t(ct)});
        }
        segs.push_back(s);
    }
    bool broken = r.chance(60);
    if (broken) d = damage(r, d);
    g_trace = d;
    std::istringstream in(d);
    auto res = config::TomlRouDiConfigFileProvider::parse(in);
    count("toml_files");
    distinct(std::hash<std::string>()(d));
    if (broken) { count("toml_broken"); return; } // must not crash; the meaning is unknown
    if (!why.empty())
    {
        CK(res.has_error(), "accepted", "a wrong configuration was accepted");
        CK(why.count(res.error()) == 1, "wrong-error", "the configuration was refused with the wrong error %s", roudi::ROUDI_CONFIG_FILE_PARSE_ERROR_STRINGS[int(res.error())]);
        count("toml_rejected");
        return;
    }
    CK(!res.has_error(), "rejected", "a valid configuration was rejected: %s", roudi::ROUDI_CONFIG_FILE_PARSE_ERROR_STRINGS[int(res.error())]);
    auto check = [&](IceoryxConfig& c) {
        CK(c.m_sharedMemorySegments.size() == segs.size(), "toml-config", "%llu segments instead of %zu", (unsigned long long)c.m_sharedMemorySegments.size(), segs.size());
        for (size_t i = 0; i < segs.size(); ++i)
        {
            auto& g = c.m_sharedMemorySegments[i];
            CK(segs[i].rd == g.m_readerGroup.c_str() && segs[i].wr == g.m_writerGroup.c_str(), "toml-config", "groups of segment %zu are %s/%s instead of %s/%s", i, g.m_readerGroup.c_str(), g.m_writerGroup.c_str(), segs[i].rd.c_str(), segs[i].wr.c_str());
            auto& mp = *g.m_mempoolConfig.getMemPoolConfig();
            CK(mp.size() == segs[i].p.size(), "toml-config", "segment %zu has %llu pools instead of %zu", i, (unsigned long long)mp.size(), segs[i].p.size());
            for (size_t k = 0; k < segs[i].p.size(); ++k)
                CK(mp[k].m_size == segs[i].p[k].first && mp[k].m_chunkCount == segs[i].p[k].second, "toml-config", "pool %zu of segment %zu is %llux%u instead of %llux%u", k, i, (unsigned long long)mp[k].m_size, mp[k].m_chunkCount, (unsigned long long)segs[i].p[k].first, segs[i].p[k].second);
        }
    };
    check(res.value());
    count("toml_accepted");
    if (r.chance(150)) // through a file, together with a command line
    {
        int fd = memfd_create("cfg", 0);
        if (fd < 0) return;
        (void)!write(fd, d.data(), d.size());
        config::CmdLineArgs_t a;
        a.configFilePath = roudi::ConfigFilePathString_t(TruncateToCapacity, fmt("/proc/self/fd/%d", fd).c_str());
        a.roudiConfig.uniqueRouDiId = roudi::UniqueRouDiId{uint16_t(r.next())};
        a.roudiConfig.processKillDelay = units::Duration::fromSeconds(r.below(1000));
        a.roudiConfig.monitoringMode = r.chance(500) ? roudi::MonitoringMode::ON : roudi::MonitoringMode::OFF;
        config::TomlRouDiConfigFileProvider p(a);
        auto f = p.parse();
        close(fd);
        CK(!f.has_error(), "rejected", "a valid configuration file was rejected");
        check(f.value());
        CK(f.value().uniqueRouDiId == a.roudiConfig.uniqueRouDiId && f.value().processKillDelay == a.roudiConfig.processKillDelay && f.value().monitoringMode == a.roudiConfig.monitoringMode, "toml-config", "the options of the command line were lost");
        count("toml_through_file");
    }
}
void runGateway()
{
    Rng& r = *R;
    using E = config::TomlGatewayConfigParseError;
    std::set<int> why;
    std::string d;
    std::vector<std::vector<std::string>> v;
    uint64_t n = r.chance(50) ? 0 : r.chance(30) ? r.range(MAX_GATEWAY_SERVICES - 1, MAX_GATEWAY_SERVICES + 1) : r.range(1, 4);
    if (n == 0) why.insert(E::INCOMPLETE_CONFIGURATION);
    if (n > MAX_GATEWAY_SERVICES) why.insert(E::MAXIMUM_NUMBER_OF_ENTRIES_EXCEEDED);
    bool many = n > 8;
    for (uint64_t i = 0; i < n; ++i)
    {
        d += blank(r) + "[[services]]\n";
        static const char* key[] = {"service", "instance", "event"};
        std::vector<std::string> e;
        for (auto k : key)
        {
            std::string s;
            for (uint64_t m = r.range(1, r.chance(900) || many ? 20 : 130); m; --m) s += "abcxyzABCXYZ_0123456789"[r.below(s.empty() ? 13 : 23)];
            if (!many && r.chance(20)) { s.insert(r.below(s.size() + 1), 1, "-/ .$5"[r.below(5)]); why.insert(E::INVALID_SERVICE_DESCRIPTION); }
            if (s.size() > capro::IdString_t::capacity()) why.insert(E::INVALID_SERVICE_DESCRIPTION);
            e.push_back(s);
            if (!many && r.chance(15)) why.insert(E::INCOMPLETE_SERVICE_DESCRIPTION);
            else if (!many && r.chance(10)) { d += std::string(k) + " = 5\n"; why.insert(E::INCOMPLETE_SERVICE_DESCRIPTION); }
            else d += k + eq(r) + "\"" + s + "\"\n";
        }
        v.push_back(e);
    }
    g_trace = d;
    std::istringstream in(d);
    auto res = config::TomlGatewayConfigParser::parse(in);
    count("gateway_files");
    distinct(std::hash<std::string>()(d));
    if (!why.empty())
    {
        CK(res.has_error(), "accepted", "a wrong gateway configuration was accepted");
        CK(why.count(res.error()) == 1, "wrong-error", "the gateway configuration was refused with the wrong error %d", int(res.error()));
        return;
    }
    CK(!res.has_error(), "rejected", "a valid gateway configuration was rejected (%d)", int(res.error()));
    auto& g = res.value().m_configuredServices;
    CK(g.size() == v.size(), "gateway-config", "%llu services instead of %zu", (unsigned long long)g.size(), v.size());
    for (size_t i = 0; i < v.size(); ++i)
    {
        auto& s = g[i].m_serviceDescription;
        CK(v[i][0] == s.getServiceIDString().c_str() && v[i][1] == s.getInstanceIDString().c_str() && v[i][2] == s.getEventIDString().c_str(), "gateway-config", "service %zu is wrong", i);
    }
}
struct NullBuf : std::streambuf
{
    int overflow(int c) override { return c; }
    std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
} // namespace
int main(int argc, char** argv)
{
    init(argc, argv, "random numbers around the borders of all types, damaged numbers, command lines and configuration files generated together with their meaning; distinct = different texts");
    iox::log::Logger::setLogLevel(iox::log::LogLevel::Off);
    static NullBuf nb;
    std::cout.rdbuf(&nb);
    ctx().trace = &g_trace;
    return runCases([&](uint64_t seed, uint64_t) {
        Rng r(seed);
        R = &r;
        g_trace.clear();
        switch (r.below(8))
        {
        case 0: case 1: runConvert(); break;
        case 2: case 3: runCli(); break;
        case 4: runDefinition(); break;
        case 5: runRouDiLine(); break;
        case 6: runToml(); break;
        default: runGateway(); break;
        }
        sample(g_trace.substr(0, 600));
    });
}
