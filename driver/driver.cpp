// Runs the real code of /repo on requests read from stdin, one per line, and
// prints one line per request.  Used to replay counterexamples and to compare
// the code with the executable contracts on concrete inputs.
#include <csignal>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <memory>
#include <map>
#include <sys/resource.h>
#include <sys/time.h>

#include "src/parsers/en/ENISOFormatParser.hpp"
#include "src/parsers/en/ENTimeLaterParser.hpp"
#include "src/parsers/en/ENMonthNameParser.hpp"
#include "src/parsers/en/ENCasualTimeParser.hpp"
#include "src/parsers/en/ENCasualDateParser.hpp"
#include "src/parsers/en/ENUSHolidaysParser.hpp"
#include "src/parsers/en/ENDayOfTheWeekParser.hpp"
#include "src/parsers/en/ENTimeAgoFormatParser.hpp"
#include "src/parsers/en/ENDeadlineFormatParser.hpp"
#include "src/parsers/en/ENTimeExpressionParser.hpp"
#include "src/parsers/en/ENWeekExperessionParser.hpp"
#include "src/parsers/en/ENRelativeDateFormatParser.hpp"
#include "src/parsers/en/ENMonthNameMiddleEndianParser.hpp"
#include "src/refiners/OverlapRemovalRefiner.hpp"
#include "src/refiners/en/ENMergeDateRangeRefiner.hpp"
#include "src/refiners/ExtractTimeZoneAbbreviation.hpp"
#include "src/refiners/en/ENMergeDateAndTimeRefiner.hpp"

using std::string;
typedef parse::ParsedComponents PC;
typedef parse::ParsedResult PR;

struct Open : PR {                       // read access to the protected text
    explicit Open(const PR& r) : PR(r) {}
    string txt() const { return text; }
};

static string hex(const string& s) {
    static const char* d = "0123456789abcdef";
    string o = "x";
    for(unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
    return o;
}
static string unhex(const string& s) {
    string o;
    for(size_t i = 1; i + 1 < s.size(); i += 2) o += static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16));
    return o;
}
static const char* NAMES[8] = {"year", "month", "mday", "wday", "hour", "min", "sec", "tzoffset"};

static int get(PC& c, int f) {
    switch(f) {
        case 0: return c.getYear();
        case 1: return c.getMonth();
        case 2: return c.get_mDay();
        case 3: return c.get_wDay();
        case 4: return c.getHour();
        case 5: return c.getMinute();
        case 6: return c.getSeconds();
        default: return c.getTimeZoneOffset();
    }
}
static void put(PC& c, int f, int v) {
    switch(f) {
        case 0: c.setYear(v); break;
        case 1: c.setMonth(v); break;
        case 2: c.set_mDay(v); break;
        case 3: c.set_wDay(v); break;
        case 4: c.setHour(v); break;
        case 5: c.setMinute(v); break;
        case 6: c.setSeconds(v); break;
        default: c.setTimeZoneOffset(v);
    }
}
static string showC(PC& c) {
    std::ostringstream o;
    for(int f = 0; f < 8; f++) o << (f ? "," : "") << (c.isCertain(NAMES[f]) ? "!" : "?") << get(c, f);
    return o.str();
}
static string showR(const PR& r0) {
    PR r(r0);
    std::ostringstream o;
    o << r.getIndex() << ";" << hex(Open(r).txt()) << ";";
    for(int t = 0; t < 15; t++) o << (r.getTag(static_cast<utils::Modifiers>(t)) ? '1' : '0');
    o << ";" << showC(r.startDate) << ";";
    if(r.end()) o << showC(r.endDate); else o << "-";
    return o.str();
}
static string showL(const Result& l) {
    string o = "[";
    for(size_t i = 0; i < l.size(); i++) o += (i ? "|" : "") + showR(l[i]);
    return o + "]";
}
static std::vector<string> split(const string& s, char c) {
    std::vector<string> v; string cur;
    for(char ch : s) { if(ch == c) { v.push_back(cur); cur.clear(); } else cur += ch; }
    v.push_back(cur);
    return v;
}
static void readC(PC& c, const string& s) {
    auto v = split(s, ',');
    for(int f = 0; f < 8 && f < static_cast<int>(v.size()); f++) {
        if(v[f].empty() || v[f] == "-") continue;
        int n = std::stoi(v[f].substr(1));
        if(v[f][0] == '!') put(c, f, n); else c.implyComponent(NAMES[f], n);
    }
}
// index;xhex;tags;start;end
static PR readR(const string& s, const posix_time::ptime& ref) {
    auto v = split(s, ';');
    PR r(ref, std::stol(v[0]), unhex(v[1]));
    for(int t = 0; t < 15; t++) if(v[2][t] == '1') r.setTag(static_cast<utils::Modifiers>(t));
    readC(r.startDate, v[3]);
    if(v[4] != "-") { readC(r.endDate, v[4]); r.makeEndDateValid(); }
    return r;
}
static Result readL(const string& s, const posix_time::ptime& ref) {
    Result l;
    if(s.size() <= 2) return l;
    for(auto& p : split(s.substr(1, s.size() - 2), '|')) l.push_back(readR(p, ref));
    return l;
}
static posix_time::ptime readT(const string& s) {   // YYYY-MM-DD_HH:MM:SS[.ffffff]
    string t = s;
    t[10] = ' ';
    return posix_time::time_from_string(t);
}
static string showT(const posix_time::ptime& t) { return posix_time::to_iso_extended_string(t); }

// component program: ops on two slots  s<slot><field>=v  i<slot><field>=v  c (1:=copy of 0)  a (1=0)
// v (view both)  u<slot> (imply unknown name)  q (query unknown certainty)  d<slot> (fresh default)
static string compProg(const string& prog) {
    PC c[2];
    string out;
    for(auto& op : split(prog, ' ')) {
        if(op.empty()) continue;
        char k = op[0];
        if(k == 's') put(c[op[1] - '0'], op[2] - '0', std::stoi(op.substr(4)));
        else if(k == 'i') c[op[1] - '0'].implyComponent(NAMES[op[2] - '0'], std::stoi(op.substr(4)));
        else if(k == 'u') c[op[1] - '0'].implyComponent("nosuchfield", 7);
        else if(k == 'q') out += c[op[1] - '0'].isCertain("nosuchfield") ? "yes " : "no ";
        else if(k == 'c') { PC t(c[0]); PC u(std::move(t)); c[1] = std::move(u); }
        else if(k == 'a') c[1] = c[0];
        else if(k == 'v') out += showC(c[0]) + "/" + showC(c[1]) + " ";
    }
    return out + showC(c[0]) + "/" + showC(c[1]);
}
// result program: slots 0..2
static string resProg(const string& prog, const posix_time::ptime& ref) {
    PR r[3];
    string out;
    for(auto& op : split(prog, ' ')) {
        if(op.empty()) continue;
        char k = op[0];
        int s = op.size() > 1 ? op[1] - '0' : 0;
        if(k == 'R') r[s] = readR(op.substr(2), ref);
        else if(k == '=') r[s] = r[op[2] - '0'];                 // assign
        else if(k == 'C') { PR t(r[op[2] - '0']); PR u(std::move(t)); r[s] = u; }      // construct from one, and from one given up
        else if(k == 'L') { Result l; l.push_back(r[op[2] - '0']); l.push_back(r[s]); l.push_back(r[op[2] - '0']); r[s] = std::move(l[op[1] == op[2] ? 2 : 0]); }
        else if(k == 't') r[s].setTag(static_cast<utils::Modifiers>(std::stoi(op.substr(2))));
        else if(k == 'g') out += r[s].getTag(static_cast<utils::Modifiers>(std::stoi(op.substr(2)))) ? "1 " : "0 ";
        else if(k == 'x') r[s].setIndex(std::stoi(op.substr(2)));
        else if(k == 'X') r[s].setText(unhex(op.substr(2)));
        else if(k == 'e') r[s].makeEndDateValid();
        else if(k == 's') put(r[s].startDate, op[2] - '0', std::stoi(op.substr(4)));
        else if(k == 'z') put(r[s].endDate, op[2] - '0', std::stoi(op.substr(4)));
        else if(k == 'm') out += string(r[s].isEmpty() ? "E" : "N") + std::to_string(r[s].textLength()) + " ";
        else if(k == 'v') out += showR(r[s]) + " ";
    }
    return out + showR(r[0]) + " " + showR(r[1]) + " " + showR(r[2]);
}
static string mapS(const std::map<string, double>& m) {
    std::ostringstream o;
    o << "{";
    for(auto& a : m) o << a.first << "=" << a.second << " ";
    return o.str() + "}";
}
static string tables() {
    std::ostringstream o;
    auto u = [&](const std::map<string, unsigned>& m) { o << "{"; for(auto& a : m) o << a.first << "=" << a.second << ","; o << "}"; };
    auto s = [&](const std::map<string, short unsigned>& m) { o << "{"; for(auto& a : m) o << a.first << "=" << a.second << ","; o << "}"; };
    u(utils::INTEGER_WORDS); u(utils::ORDINAL_WORDS); s(utils::MONTH_CONSTANTS); s(utils::WEEKDAY_OFFSET);
    o << "{"; for(auto& a : utils::DEFAULT_TIMEZONE_ABBR_MAP) o << a.first << "=" << a.second << ","; o << "}";
    for(auto m : utils::ModList) o << m << " ";
    o << hex(utils::ordinalWords) << hex(utils::INTEGER_WORDS_PATTERN) << hex(utils::TIME_UNIT);
    return hex(o.str());
}

int main() {
    std::map<string, std::shared_ptr<parser::Parser>> P;
    P["casualtime"]  = std::make_shared<parser::ENCasualTimeParser>();
    P["deadline"]    = std::make_shared<parser::ENDeadlineFormatParser>();
    P["casualdate"]  = std::make_shared<parser::ENCasualDateParser>();
    P["weekday"]     = std::make_shared<parser::ENDayOfWeekParser>();
    P["monthday"]    = std::make_shared<parser::ENMonthNameMiddleEndianParser>();
    P["later"]       = std::make_shared<parser::ENTimeLaterParser>();
    P["month"]       = std::make_shared<parser::ENMonthNameParser>();
    P["ago"]         = std::make_shared<parser::ENTimeAgoFormatParser>();
    P["iso"]         = std::make_shared<parser::ENISOFormatParser>();
    P["holiday"]     = std::make_shared<parser::ENHolidayParser>();
    P["week"]        = std::make_shared<parser::ENWeekExpressionParser>();
    P["time"]        = std::make_shared<parser::ENTimeExpressionParser>();
    P["relative"]    = std::make_shared<parser::ENRelativeDateFormatParser>();
    std::map<string, std::shared_ptr<refiners::Refiner>> F;
    F["overlap"]     = std::make_shared<OverlapRemover>();
    F["timezone"]    = std::make_shared<ExtractTimeZoneAbbreviation>();
    F["datetime"]    = std::make_shared<ENMergeDateAndTime>();
    F["range"]       = std::make_shared<ENMergeDateRange>();

    string line;
    std::ios::sync_with_stdio(false);
    std::streambuf* keep = std::cerr.rdbuf();
    std::ostringstream sink;
    std::cerr.rdbuf(sink.rdbuf());
#ifndef __SANITIZE_ADDRESS__
    rlimit most = {1ul << 30, 1ul << 30};
    setrlimit(RLIMIT_AS, &most);
#endif
    while(std::getline(std::cin, line)) {
        itimerval t = {{0, 0}, {10, 0}};        // a request that never returns ends the process (SIGPROF)
        setitimer(ITIMER_PROF, &t, nullptr);
        sink.str("");
        std::istringstream in(line);
        string cmd, out;
        in >> cmd;
        try {
            if(cmd == "parse") {            // parse <parser> <ref> <xtext>
                string p, t, x; in >> p >> t >> x;
                posix_time::ptime ref = readT(t);
                string text = unhex(x);
                Result r = P.at(p)->execute(text, ref);
                out = showL(r) + " " + hex(text) + " " + showT(ref);
                bool first = true;
                for(auto& q : r) {
                    string d;
                    try { d = q.toDate(); } catch(std::exception& e) { d = "FAILED"; }
                    for(char& c : d) if(c == ' ') c = '_';
                    out += (first ? " " : "|") + d;
                    first = false;
                }
            }
            else if(cmd == "extract") {     // every interpretation, also impossible ones
                string p, t, x; in >> p >> t >> x;
                posix_time::ptime ref = readT(t);
                string text = unhex(x);
                std::smatch m;
                if(std::regex_search(text, m, P.at(p)->getPattern())) {
                    PR r = P.at(p)->extract(text, m, ref, m.position(0));
                    out = showR(r) + (r.hasPossibleDates() ? " possible" : " impossible");
                }
                else out = "nomatch";
            }
            else if(cmd == "match") {       // pattern only: position:group0,group1,...
                string p, x; in >> p >> x;
                string text = unhex(x);
                std::smatch m;
                if(std::regex_search(text, m, P.at(p)->getPattern())) {
                    out = std::to_string(m.position(0));
                    for(size_t i = 0; i < m.size(); i++) out += "," + hex(m.str(i));
                }
                else out = "nomatch";
            }
            else if(cmd == "refine") {      // refine <refiner> <ref> <xtext> <list>
                string p, t, x, l; in >> p >> t >> x >> l;
                posix_time::ptime ref = readT(t);
                out = showL(F.at(p)->refine(readL(l, ref), unhex(x)));
            }
            else if(cmd == "comp") { string rest; std::getline(in, rest); out = compProg(rest); }
            else if(cmd == "result") { string t, rest; in >> t; std::getline(in, rest); out = resProg(rest, readT(t)); }
            else if(cmd == "possible") { string t, x; in >> t >> x; PR r = readR(x, readT(t)); out = r.hasPossibleDates() ? "yes" : "no"; if(r.startDate.isPossibleDate()) out += "+"; }
            else if(cmd == "render") { string t, x; in >> t >> x; PR r = readR(x, readT(t)); out = r.toDate(); }
            else if(cmd == "date") { string t, x; in >> t >> x; PR r = readR(x, readT(t)); out = showT(r.startDate.date()); }
            else if(cmd == "ordinal") { string x; in >> x; out = std::to_string(utils::argToOrdinalValue(unhex(x))); }
            else if(cmd == "fragments") { string x; in >> x; out = mapS(utils::extractDateTimeUnitFragments(unhex(x))); }
            else if(cmd == "tables") out = tables();
            else out = "badcommand";
        }
        catch(std::bad_alloc&) { raise(SIGPROF); }    // the same for one that takes all memory
        catch(std::exception& e) { out = string("EXCEPTION ") + e.what(); }
        catch(...) { out = "EXCEPTION ?"; }
        for(char& c : out) if(c == '\n') c = ' ';
        std::fputs((out + "\n").c_str(), stdout);
        std::fflush(stdout);
    }
    std::cerr.rdbuf(keep);
    return 0;
}
