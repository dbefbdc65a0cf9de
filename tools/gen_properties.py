#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file; kept here so that the statements are easy to review)."""
import json, os
P = []
EN = 'src/parsers/en/'
def p(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe, hook_needed=None)))

p('C01', 'Explicit date components win over implied ones, field by field',
  "Each of the eight fields of a date (year, month, day of month, day of week, hour, minute, second, timezone offset) reads back the last explicitly set value once it has been set, otherwise the last implied value, otherwise 0. Implying a value never changes a field that was set explicitly, setting a field discards what was implied for it, and no operation on one field changes any other field; implying an unknown field name changes nothing.",
  ['inputs', 'histories'], 'every sequence of set/imply/read operations, every int value, every field',
  'Tests read back a handful of literal values after straight-line sets; the law is over all interleavings of set and imply and over the untouched fields.',
  ['src/result.hpp', 'src/result.cpp'],
  [('set*, implyComponent, get*', 'src/result.cpp')], ['ParsedComponents getters'],
  [('knownValues', 'explicit values with a set flag', 'src/result.hpp'), ('impliedValues', 'implied values', 'src/result.hpp')])

p('C02', 'A field is certain exactly when it was set explicitly',
  "Asking whether a field of a date is certain answers yes exactly when that field was set explicitly, whatever was implied before or after and whatever happened to other fields. For an unknown field name the answer is no, and asking never changes the date.",
  ['inputs', 'histories'], 'every sequence of set/imply operations followed by a certainty query on every field name',
  'No test queries certainty of minutes, seconds, weekday or year; refiners depend on it to classify results.',
  ['src/result.cpp'], [('isCertain', 'src/result.cpp')], ['isCertain'])

p('C03', 'Copying and assigning a result preserves it completely',
  "A copy or assignment of a result (also through passing, returning and storing in lists) has the same position, text, tags, start date and, when it has one, end date as the original, with the same explicit/implied status of every field, and later changes to either do not affect the other. Position, text length, emptiness, presence of an end date and each tag read back exactly what was last stored; a tag reads false until it is set and true afterwards even if it was queried in between.",
  ['inputs', 'histories'], 'all results, all copy/assign/mutate sequences',
  'The one assignment test looks at two fields; losing a tag, an end date or an implied field on copy shows only in specific chains.',
  ['src/result.cpp', 'src/result.hpp'],
  [('copy constructors, operator=', 'src/result.cpp'), ('setTag/getTag/setIndex/setText/end', 'src/result.cpp')], ['getters of ParsedResult'])

p('C04', 'A result renders as exactly the instants its fields denote',
  "Rendering a result that denotes possible dates gives its start as YYYY-Mon-DD HH:MM:SS, followed by ' - ' and the end in the same form exactly when the result has an end. When a timezone abbreviation was extracted, both printed instants are moved by the start's timezone offset (added, in minutes); otherwise the fields are printed unshifted, and hour 24 prints as hour 0 of the next day.",
  ['inputs'], 'every result whose fields denote dates of years 1400-9999 and whose shifted instants stay in that range',
  'No test calls the renderer with an end date or a timezone; carry over day, month and year boundaries needs arbitrary instants.',
  ['src/result.cpp'], [('toDate', 'src/result.cpp'), ('date', 'src/result.cpp')], ['ParsedResult::toDate', 'ParsedComponents::date'])

p('C05', 'Only dates that exist are reported, and existing ones are never refused',
  "A result counts as possible exactly when its start, and its end if it has one, have a year from 1400 to 9999, a month and day that exist in that year (leap years included), an hour from 0 to 24 and minutes and seconds from 0 to 59. Parsers report only possible results, so no reported result that lies before the end of the year 9999 makes rendering fail.",
  ['inputs'], 'all int values of all fields, start and end independently',
  'Tests check one empty result; month lengths, leap years and the end date need all values.',
  ['src/result.cpp', 'src/parsers/parsers.cpp'],
  [('isPossibleDate, hasPossibleDates', 'src/result.cpp'), ('filter in execute', 'src/parsers/parsers.cpp')], ['hasPossibleDates', 'results of execute'])

p('C06', 'Scanning reports every match once, in order, at its true position',
  "Running a parser over a text examines the lower-cased text from left to right: each match of its pattern is interpreted with the position it has in the full text, matches never overlap, each starts at or after the end of the previous one, and the scan ends. The results are exactly the possible interpretations in text order, and a match that yields none does not hide, shift or duplicate the matches after it.",
  ['inputs', 'histories'], 'every text, every number of matches, every pattern of accepted and rejected matches',
  'Tests contain at most one match per text; offsets drift, loops and drops only show with several matches and rejected ones in between.',
  ['src/parsers/parsers.cpp'], [('Parser::execute loop', 'src/parsers/parsers.cpp')], ['vector returned by execute'])

p('C07', 'No text can crash or abort a scan',
  "For every text and every valid reference time, running any of the parsers returns normally: numbers too large for an integer, counts that leave the supported calendar and dates that do not exist yield no result instead of an exception, and no result is computed from uninitialised, out-of-bounds or overflowed values. A count that cannot be applied exactly is never replaced by a different one.",
  ['inputs'], 'all texts accepted by the patterns, all reference times in the calendar, all digit strings',
  'Tests use small numbers near 2019; overflow and calendar limits need extreme numerals or boundary reference dates.',
  ['src/parsers/parsers.cpp', EN], [('exception barrier in execute', 'src/parsers/parsers.cpp'), ('checkedCount', 'src/utils/utils.cpp')], ['execute'])

def parser(id, title, st, why, f, extra=()):
    p(id, title, st, ['inputs'], 'every phrase of the form, in any letter case, every reference time (all of the calendar incl. month ends, leap days, midnight)', why,
      [EN + f] + list(extra), [('getPattern and extract', EN + f)], ['results of execute'])

parser('C08', 'Casual dates: today, tonight, tomorrow, yesterday, last night, now',
  "'today', 'tonight' and 'now' resolve to the reference date, 'yesterday' to the day before, 'tomorrow'/'tmr' to the day after (but to the reference date itself when the reference hour is 0), and 'last night' to the day before unless the reference hour is 6 or less, across month and year ends, with year, month and day explicit. 'tonight' implies hour 22, 'last night' implies hour 0, 'yesterday' implies the reference hour, 'now' sets hour, minute and second explicitly to the reference time, and nothing else is set.",
  'One reference date in mid-February is tested; the thresholds on the hour and month/year rollovers are not.', 'ENCasualDateParser.hpp')
parser('C09', 'Casual times: morning, noon, afternoon, evening, night',
  "'morning', 'noon', 'afternoon', 'evening' and 'night', with or without 'this', resolve to the reference date with implied hour 6, 12, 15, 20 and 20 respectively and the reference minute. All of year, month, day, day of week, hour and minute are implied, so any explicit value can override them.",
  'Tests use two reference times and never look at which fields are certain.', 'ENCasualTimeParser.hpp')
parser('C10', 'Weekday phrases resolve inside the right Sunday-based week',
  "A weekday name (full or abbreviated) alone or with 'this' resolves to that weekday in the reference date's Sunday-to-Saturday week, with 'last' in the week before and with 'next' in the week after, whether the modifier stands before or after the name; contradictory modifiers on both sides count as none. The date is explicit with 'last'/'next' and implied otherwise; a leading 'early'/'earlier' adds implied time 06:01 and 'late' 20:01.",
  'The tests use one Monday; seven weekdays times seven reference weekdays times modifiers, across month and year ends, are not sampled.', 'ENDayOfTheWeekParser.hpp')
parser('C11', "Deadlines: 'in/within N units' is N units after the reference",
  "'in' or 'within' followed by a count (digits, one to twelve, a/an, a few = 3, half) and a unit resolves to the reference moved forward by that many seconds, minutes, hours, days, weeks, months or years, abbreviated units (sec, min, hr, wk, yr and plurals) included, with date and time carrying over midnight, month and year ends. Day, week, month and year counts imply the date only; half a day, hour, minute, week, month and year mean 12 hours, 30 minutes, 30 seconds, 3 days, 15 days and 6 months and half a second counts as 1 second; all fields are implied.",
  'Tests use the current time and five phrases; carries over midnight and month ends and most count words and units are never reached.', 'ENDeadlineFormatParser.hpp', ['src/utils/utils.cpp'])
parser('C12', "'N units ago' is N units before the reference",
  "One or more counts with units followed by 'ago', 'before' or 'earlier' resolve to the reference moved back by all of them together, date and time carrying over midnight, month and year ends; half a unit means the same as in deadlines. Date units make year, month and day explicit, time units alone leave the date implied, any non-zero time unit makes hour, minute and second explicit, and when a unit is repeated the last count holds.",
  'The tests fix one reference time and single small counts.', 'ENTimeAgoFormatParser.hpp', ['src/utils/utils.cpp'])
parser('C13', "'N units later / from now' is N units after the reference",
  "One or more counts with units followed by 'later', 'after', 'from now', 'henceforth', 'forward' or 'out' resolve to the reference moved forward by all of them together, date and time carrying over midnight, month and year ends; half a unit means the same as in deadlines. Date units make year, month and day explicit, time units alone leave the date implied, any non-zero time unit makes hour, minute and second explicit, and when a unit is repeated the last count holds.",
  'The tests fix one reference time and single small counts.', 'ENTimeLaterParser.hpp', ['src/utils/utils.cpp'])
parser('C14', "'this/next/last N units' moves in the right direction by N",
  "'next' moves the reference forward and 'last'/'past' back by the count (one if absent, digits, one to twelve, few = 3, half) of seconds, minutes, hours, days, weeks, months or years, date units implying the date and time units implying date and time, with half a day, hour, minute, week, month and year as in deadlines. 'this week' is the range from Sunday to Saturday around the reference date, 'this month' the range from the first to the last day of its month and 'this year' from January 1 to December 31; 'this' with a count or with a smaller unit gives no result.",
  'Tests use one reference date and check no carries, no month lengths and few units.', 'ENRelativeDateFormatParser.hpp')
parser('C15', "'last/next N weeks' moves by exactly N weeks",
  "'next week' and 'last week' imply the date seven days after or before the reference, 'next'/'last' with a count in digits or words (one to twelve) that many weeks, and 'this week' the reference date. Any other word in place of the count gives no result.",
  'Two reference dates and two counts are tested; unknown words and year ends are not.', 'ENWeekExperessionParser.hpp')
parser('C16', 'ISO dates and times are read field by field',
  "A date YYYY-M-D, optionally with Thh:mm, seconds and a fraction (which is ignored), gives exactly those explicit fields; with a time, the timezone offset in minutes is the signed hh:mm offset (the sign applies to both parts) or 0 for Z or none, and without a time neither time nor offset is set. Months outside 1-12, days that do not exist in the month and hours, minutes or seconds out of range give no result.",
  'No test has a timezone offset, a fraction or an impossible date.', 'ENISOFormatParser.hpp')
parser('C17', 'Month-day phrases: day, year, era, weekday and day range',
  "A month name with a day (digits, digits with suffix, or spelled ordinal up to thirty-first) and optionally a year gives exactly that explicit day and month and the given year (two-digit values below 100 without era mean 2000 onwards, BE subtracts 543, AD leaves it), or without a year the one of the previous, current and next years in which the date lies nearest to the reference date, the current one on ties. A leading weekday name sets the day of week, and a range 'D1 - D2' gives the end the same month and year with day D2 at 23:59; dates that do not exist in the resulting year, or without a year in the reference year, give no result.",
  'The tests have one reference date and a dozen literals, no ordinals in words, no eras, no distance ties.', 'ENMonthNameMiddleEndianParser.hpp', ['src/utils/utils.cpp', 'src/utils/utils.hpp'])
parser('C18', 'Month names: explicit month, given or nearest year',
  "A month name or abbreviation, optionally followed by a four-digit year and era, resolves to that explicit month with the first day implied; a given year is explicit (BE subtracts 543, AD leaves it, below 100 without era means 2000 onwards). Without a year the implied year is the one of the previous, current and next years whose first of that month lies nearest to the reference date, the current one on ties.",
  'One reference date and five spellings of September are tested; the nearest-year rule never is.', 'ENMonthNameParser.hpp', ['src/utils/utils.hpp'])
parser('C19', 'Clock times and ranges: hour, minute, meridiem rules',
  "A clock time gives explicit hour 0-24 and minute 0-59 (explicit second when written), with noon 12:00, midnight 0:00, compact hhmm above 100 split in hour and minute, am/pm mapped so that 12am is 0 and 12pm is 12, and the date implied from the reference; out-of-range values and am/pm with an hour above 12 give no result. A valid second time after a range word gives the end by the same rules, where a missing am/pm is taken over from the other side only for hours below 12 (12am at the end becomes 0), and an invalid second time leaves just the start.",
  'Tests sample a dozen spellings; the hour/minute/meridiem cross product with ranges has thousands of combinations.', 'ENTimeExpressionParser.hpp')
parser('C20', 'US holidays fall on their defined day of the reference year',
  "Independence day is July 4, new year's January 1 (eve December 31), veterans day November 11, Christmas December 25 (eve December 24), MLK the third Monday of January, president's the third Monday of February, memorial the last Monday of May, labor the first Monday of September, Columbus the second Monday of October, Thanksgiving the fourth Thursday of November and black Friday the day after it, always in the reference date's year, with or without 'day'. Year, month and day are explicit with hour and minute 0, and the floating holidays also set the matching day of week.",
  'The holiday tests use the year 2019 only and omit four of the holidays; the weekday rules must hold in every year.', 'ENUSHolidaysParser.hpp')

p('C21', 'Overlap removal keeps the longest of overlapping results',
  "Given results ordered by position, the overlap refiner returns them in the same order with no two overlapping, keeps every result that overlaps no other, and of two overlapping neighbours keeps the longer one, the earlier on equal length. Kept results are unchanged, none is duplicated, and lists of fewer than two results come back as they are.",
  ['inputs', 'histories'], 'every list of results of any length',
  'The one test has two results; runs of overlapping results of growing and shrinking length need arbitrary lists.',
  ['src/refiners/OverlapRemovalRefiner.hpp'], [('refine loop', 'src/refiners/OverlapRemovalRefiner.hpp')], ['list returned by refine'])
p('C22', 'A date and a neighbouring time merge into one date-time',
  "Going through the results in order, a date-only result followed by a time-only one, or the reverse, becomes one result with the date's day and the time's clock fields (explicit if the time was explicit, otherwise implied) spanning both texts and carrying the tags of both; every other result passes unchanged, and each input is used exactly once and in order. If either part has an end the merged result has one, and an end time earlier than the start on the same date falls on the following calendar day, also across month and year ends (the merged result has no end when that day lies past the last day of the calendar).",
  ['inputs', 'histories'], 'every list of results, every combination of certain fields, ends and tags',
  'No test covers this refiner; pairs at the end of the list and overnight ranges at a month end are specific histories.',
  ['src/refiners/en/ENMergeDateAndTimeRefiner.hpp'], [('refine, mergeResult, mergeDateTimeComponent', 'src/refiners/en/ENMergeDateAndTimeRefiner.hpp')], ['list returned by refine'])
p('C23', 'Two dates joined by a range word merge into one ordered range',
  "Two neighbouring results without ends whose in-between text contains a range word (and, to, through, -) become one result that starts at the earlier and ends at the later of the two dates, spans both texts and carries the tags of both; all other results pass unchanged. Each input is used exactly once and in order.",
  ['inputs', 'histories'], 'every list of results, every text between them, both orders of the dates',
  'No test covers this refiner; reversed dates and pairs followed by further results are specific histories.',
  ['src/refiners/en/ENMergeDateRangeRefiner.hpp'], [('refine, isAbleToMerge, mergeResult', 'src/refiners/en/ENMergeDateRangeRefiner.hpp')], ['list returned by refine'])
p('C24', 'A trailing timezone abbreviation gives its offset to the whole time',
  "When the rest of the text after a clock-time result is exactly a known timezone abbreviation (any case, optional blanks before it, optional parentheses), the result is tagged and its start, and its end if it has one, receive that abbreviation's offset in minutes unless they already have an explicit one. Unknown abbreviations, other following text and results that are not clock times leave the result unchanged, and no result is added, dropped or moved.",
  ['inputs'], 'every list of results, every following text, all abbreviations of the table',
  'One abbreviation on one result is tested; ranges, unknown and lower-case abbreviations are not.',
  ['src/refiners/ExtractTimeZoneAbbreviation.hpp', 'src/utils/utils.hpp'], [('refine', 'src/refiners/ExtractTimeZoneAbbreviation.hpp'), ('timezone table', 'src/utils/utils.hpp')], ['list returned by refine'])
p('C25', 'Results do not depend on earlier calls',
  "The result of scanning a text depends only on the text and the reference time: no scan, refinement or vocabulary lookup changes the vocabularies (numbers, ordinals, months, weekdays, timezones, tags) or any other state seen by later calls, and the reference time is never modified.",
  ['histories', 'inputs'], 'all sequences of calls on the same or different parser and refiner objects',
  'Tests run each phrase from a fresh state; contamination of a shared table needs a specific earlier phrase.',
  ['src/utils/utils.hpp', 'src/utils/utils.cpp', EN], [('lookups in shared tables', 'src/utils/utils.hpp'), ('execute', 'src/parsers/parsers.cpp')], ['results of two consecutive calls'],
  [('INTEGER_WORDS, ORDINAL_WORDS, MONTH_CONSTANTS, WEEKDAY_OFFSET, DEFAULT_TIMEZONE_ABBR_MAP, ModList', 'vocabularies', 'src/utils/utils.hpp')])
p('C26', 'Number vocabulary: ordinals and compound durations',
  "Spelled ordinals first to thirty-first map to 1 to 31 in any letter case, with blanks or hyphens between the words and surrounding blanks ignored, and anything else maps to 0. A compound duration text is split into its units with their counts, scanned to its end wherever the units stand in it, where number words, digits, a/an = 1 and few = 3 give the count and half a unit is given in whole smaller units.",
  ['inputs', 'histories'], 'every argument string; every sequence of count-unit pairs',
  'No test covers these functions.',
  ['src/utils/utils.cpp', 'src/utils/utils.hpp'], [('argToOrdinalValue', 'src/utils/utils.cpp'), ('extractDateTimeUnitFragments, collectDateTimeFragment', 'src/utils/utils.cpp')], ['return values'])
p('C27', 'The command line tool reports the first resolved date of the text',
  "Given a text and a reference time the tool runs all twelve of its parsers on the text, orders their results by position, removes overlaps, attaches timezones, merges date with time and then ranges, and prints the rendering of the first remaining result, or the invalid-date message exactly when none remains or the first one lies past the ends of the calendar (years 1400 to 9999). It exits normally for every text.",
  ['inputs'], 'every text and reference time',
  'No test runs the tool.',
  ['time.cpp'], [('main', 'time.cpp')], ['standard output of the tool'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
