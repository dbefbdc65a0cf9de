// One translation unit with every header of the library, so that the verifier
// sees the bodies of all header-only functions.
#include "src/parsers/en/ENISOFormatParser.hpp"
#include "src/parsers/en/ENTimeLaterParser.hpp"
#include "src/parsers/en/ENMonthNameParser.hpp"
#include "src/parsers/en/ENCasualTimeParser.hpp"
#include "src/parsers/en/ENCasualDateParser.hpp"
#include "src/parsers/en/ENUSHolidaysParser.hpp"
#include "src/parsers/en/ENDayOfTheWeekParser.hpp"
#include "src/parsers/en/ENTimeAgoFormatParser.hpp"
#include "src/parsers/en/ENDeadlineFormatParser.hpp"
#include "src/parsers/en/ENTimeExpressionParser.hpp"
#include "src/parsers/en/ENWeekExperessionParser.hpp"
#include "src/parsers/en/ENRelativeDateFormatParser.hpp"
#include "src/parsers/en/ENMonthNameMiddleEndianParser.hpp"
#include "src/refiners/OverlapRemovalRefiner.hpp"
#include "src/refiners/ExtractTimeZoneAbbreviation.hpp"
#ifndef VF_TOOL                                  // the tool has included these two, which have no guards
#include "src/refiners/en/ENMergeDateRangeRefiner.hpp"
#include "src/refiners/en/ENMergeDateAndTimeRefiner.hpp"
#endif

// Construct every class once: this emits the virtual functions and constructors.
void vf_instantiate() {
    parser::ENISOFormatParser iso;
    parser::ENTimeLaterParser later;
    parser::ENMonthNameParser month;
    parser::ENCasualTimeParser casualtime;
    parser::ENCasualDateParser casualdate;
    parser::ENHolidayParser holiday;
    parser::ENDayOfWeekParser weekday;
    parser::ENTimeAgoFormatParser ago;
    parser::ENDeadlineFormatParser deadline;
    parser::ENTimeExpressionParser time;
    parser::ENWeekExpressionParser week;
    parser::ENRelativeDateFormatParser relative;
    parser::ENMonthNameMiddleEndianParser monthday;
    OverlapRemover overlap;
    ENMergeDateRange range;
    ExtractTimeZoneAbbreviation timezone;
    ENMergeDateAndTime datetime;
}

// A result made from, or assigned from, one that is given up.
void vf_moved(void* to, parse::ParsedResult& from) { new (to) parse::ParsedResult(std::move(from)); }
void vf_moveassigned(parse::ParsedResult& to, parse::ParsedResult& from) { to = std::move(from); }

// The numbers of the tags, in the order of spec.TAGS.
extern "C" const int vf_tags[] = {
    utils::ENCasualTimeParser, utils::ENCasualDateParser, utils::ENDeadlineFormatParser, utils::ENDayOfTheWeekParser,
    utils::ENMonthNameMiddleEndianParser, utils::ENTimeLaterParser, utils::ENMonthNameParser, utils::ENTimeAgoFormatParser,
    utils::ENISOFormatParser, utils::ENTimeExpressionParser, utils::ENUSHolidaysParser, utils::ENRelativeDateFormatParser,
    utils::ENMergeDateRangeRefiner, utils::ENMergeDateAndTimeRefiner, utils::ExtractTimeZoneAbbreviation};
