D = "pycalendar/"
I = "pycalendar/icalendar/"
V = "pycalendar/vcard/"

prop("P01", "Duplicates are complete copies",
     "Duplicating any calendar, card, component, property, parameter, value, date, duration, period or recurrence rule yields an object that carries every piece of the original's state: nothing a later read, write-out or comparison of the original could observe is left at its freshly-constructed value in the copy.",
     ["inputs", "histories"], "every object of every class with a duplicate operation, in every state it can reach",
     "Round-trip tests duplicate a handful of parsed calendars and compare text; state that is unset in those samples (flags, caches of parsed fields, rarely used rule parts) can be dropped unnoticed.",
     [D + "componentbase.py", D + "property.py", D + "datetime.py", I + "recurrence.py", I + "component.py", I + "valarm.py"],
     [("duplicate() of every class, reached through super()/constructors", "all value, property and component modules")])

prop("P02", "Duplicates share no mutable state with the original",
     "After an object is duplicated, no sequence of changes made to either the original or the copy through their public operations is visible through the other one: the two share no mutable list, map, date, value, property or component.",
     ["inputs", "histories"], "every class with a duplicate operation and every later mutation history of either object",
     "A test would have to mutate every nested part of every kind of object after copying it; the existing ones only compare text immediately after duplication.",
     [D + "componentbase.py", D + "property.py", D + "multivalue.py", I + "recurrence.py", I + "recurrenceset.py", I + "valarm.py"],
     [("duplicate() copies containers and nested objects", "all value, property and component modules")])

prop("P03", "A date-time's derived instant always follows its fields",
     "Whatever sequence of set, offset, adjust and parse operations is applied to a date-time, its instant (epoch seconds), and therefore its comparisons, always agrees with its currently visible year, month, day, hour, minute, second and time zone: no operation leaves a previously computed instant or zone offset behind after the fields it was computed from have changed.",
     ["histories"], "every interleaving of mutators and instant-reading operations on a date-time",
     "The stale value only shows if the instant was read before the mutation and read again after it; tests mostly mutate fresh objects.",
     [D + "datetime.py"],
     [("cache reset call in each mutator", "DateTime.changed / normalise / setters")],
     [("cached epoch seconds and cached zone offset", "derived data valid only for the fields they were computed from", "DateTime")],
     ["DateTime.getPosixTime", "DateTime.compareDateTime"])

prop("P04", "A recurrence rule's expansion never outlives the rule it was computed from",
     "After any change to a recurrence rule or recurrence set, an expansion reflects the changed rule, and asking for an expansion twice, over different or overlapping ranges, or after an expansion that failed, gives the same instances as asking a freshly built equal rule. Callers cannot corrupt later expansions by changing the dates or lists they passed in or got back.",
     ["histories"], "every history of rule edits, expansions over arbitrary ranges, failed expansions and caller-side mutations",
     "Tests expand a rule once from fresh; the interaction of edits, remembered results and caller mutations is a history property.",
     [I + "recurrence.py", I + "recurrenceset.py"],
     [("cache clear in every rule setter; cache validity test in expand", "Recurrence.expand / clear")],
     [("remembered expansion and its validity range", "must be a function of the current rule and start", "Recurrence")])

prop("P05", "Remembered lookups depend only on what they are keyed by",
     "Every remembered (memoised) result in the library - time zone offset lookups, time zone transition tables, calendar arithmetic helpers, zone rule tables - is only ever reused for a request that would compute the identical result: all inputs that influence the computation are part of the key or force recomputation, and changing the underlying data discards what was remembered.",
     ["histories", "inputs"], "every sequence of lookups with arbitrary arguments interleaved with changes to the underlying data",
     "A stale or over-broad memo only shows on the second lookup with different arguments; tests look up once or with one argument shape.",
     [I + "vtimezone.py", I + "vfreebusy.py", D + "utils.py", "zonal/rule.py", "zonal/zone.py"],
     [("key construction and cache fill sites", "VTimezone.getTimezoneOffsetSeconds, utils memo tables, Rule.fullExpand, Zone rule caches")])

prop("P06", "Time zone database loads only files inside its directory",
     "Looking up a time zone by identifier never opens a file outside the configured time zone data directory, whatever text (including parent-directory segments, absolute paths, look-alike sibling directories or names that only come to mean a parent directory after processing) the identifier contains: every path that is opened is first resolved and required to lie in the resolved directory, and a directory that has not been configured yields no file at all.",
     ["inputs"], "every time zone identifier string, including identifiers taken from parsed calendar data",
     "The set of hostile identifiers is unbounded and a test samples one or two.",
     [D + "timezonedb.py"],
     [("path normalisation and containment test before parsing", "TimezoneDatabase.cacheTimezone")], (), ["TimezoneDatabase.getTimezone"])

prop("P07", "A calendar's lookup indexes always match its component list",
     "After any sequence of adding, removing, re-identifying (through the calendar's own operation), parsing, duplicating and clearing components, looking a component up by identifier, or asking for the overrides or recurrence identifiers of an identifier, in a calendar finds exactly the components that the calendar currently contains: nothing removed is still found, nothing present is missed, and the three views (component list, by-identifier index, override index) agree. (Components that have no identifier are not covered, and a component is removed by equality.)",
     ["histories"], "every sequence of public operations on a calendar",
     "Tests parse a calendar once and look up; removal and bulk-removal paths after lookups are not enumerated.",
     [I + "calendar.py", D + "componentbase.py"],
     [("index update next to each list update", "Calendar.addComponent / removeComponent / changeUID")],
     [("component list and two by-identifier maps", "maps are a function of the list", "Calendar")])

prop("P08", "Cached component fields agree with the component's properties",
     "When an edit operation (the edit... operations, and those that set the identifier, sequence number or time stamp, exclude recurrences, or record that an alarm was triggered) changes a component's start, end, duration, summary, sequence, status, recurrence, trigger, action or similar value, both the value the accessor returns and the property that is written out change together, so that writing the component out and reading it back gives the same accessor values; this holds after one edit and after several. (Plain setters of remembered values are not edit operations, and an empty text is treated like an absent one.)",
     ["histories"], "every edit operation on every component type in every prior state",
     "Tests build components by parsing, where both views are set together; edits that update just one view are invisible until the component is written and re-read.",
     [I + "componentrecur.py", I + "vevent.py", I + "vtodo.py", I + "vfreebusy.py", I + "component.py"],
     [("edit operations write the cached field and the property", "ComponentRecur.edit*, VToDo.edit*, VFreeBusy.edit*")])

prop("P09", "Equality, inequality and hashing agree",
     "For every value-like object (values, properties, parameters, date-times, UTC offsets, durations, periods, recurrence rules and rule sets, structured name/address values, time zone compiler rules), equality compares the same attribute on both sides, equal objects hash alike (a hash uses only what equality compares), inequality is the negation of equality, two objects that differ in an attribute that carries meaning compare unequal, and orderings agree with equality. (A date-time that is a date compared with one that has a time is not covered.)",
     ["inputs"], "every pair of objects of every class that defines equality",
     "The statement quantifies over pairs; tests compare a few hand-picked pairs and rarely the hash or the inequality operator.",
     [D + "property.py", D + "parameter.py", D + "value.py", D + "datetime.py", D + "duration.py", D + "period.py", I + "recurrence.py", V + "property.py"],
     [("__eq__/__ne__/__hash__ definitions", "all value classes")])

prop("P10", "Every part of a recurrence rule survives every operation on the rule",
     "Each part a recurrence rule can carry (frequency, count, until, interval, every BY part, week start) that is read from text is also kept by copying, distinguished by comparison, and written by each of the text, XML and JSON writers, with the JSON reader accepting the same parts; parts never turn into one another, and every setter stores just its own part. (The default week start, Monday, need not be written; there is no XML reader.)",
     ["inputs"], "every recurrence rule, with every combination of parts",
     "The combinations of thirteen-odd parts times seven operations are not sampled by tests, which mostly use two or three common parts.",
     [I + "recurrence.py"],
     [("parallel field lists in init/duplicate/equality/hash/generate/XML/JSON", "Recurrence")])

prop("P11", "BY-part expand and limit behaviour follows the RFC 5545 table",
     "For each frequency, each BY part present in a rule is applied exactly once and in the role (generate more dates, or filter) and in the order that the recurrence standard's table prescribes, invalid dates are discarded before positions are selected, and position selection comes last.",
     ["inputs"], "every frequency and every subset of BY parts",
     "There are 7 x 2^9 combinations; the example file covers the few in the RFC.",
     [I + "recurrence.py"],
     [("per-frequency set generators calling BY helpers", "Recurrence.generateYearlySet ... generateSecondlySet")])

prop("P12", "Recurrence expansion respects its bounds",
     "An expanded recurrence never contains an instance beyond the rule's count, after its until date, outside the requested range, or before the start, and expansion stops as soon as the configured maximum number of instances is exceeded rather than continuing to grow.",
     ["inputs"], "every rule, start date and requested range",
     "Off-by-one and missing-bound errors depend on which of the expansion loops the rule takes and on where the bound falls inside a generated set.",
     [I + "recurrence.py"],
     [("bound tests on every path to an append", "Recurrence.simpleExpand / complexExpand")])

prop("P13", "Value-type vocabulary is complete and consistent",
     "Every value type name a calendar or card can use in a VALUE parameter maps to exactly one type and back to the same name, every default or special type of every property can be constructed, the object constructed for a type reports that type and can be written as text, XML and JSON under that type's own name, and a property is given the type its VALUE parameter or else the tables say. (Date-time objects report DATE or DATE-TIME by what they hold.)",
     ["inputs"], "every property name, VALUE parameter and value type in the tables",
     "Tests touch the common properties only; an inconsistent row in a table shows only for the property it belongs to.",
     [D + "value.py", D + "__init__.py", I + "property.py", V + "property.py", D + "property.py"],
     [("type registry and per-format tables", "Value.registerType, icalendar/vcard Property tables")])

prop("P14", "Malformed input is rejected only with the library's own errors",
     "Whatever text is given to a calendar, card or component parser, the parser either succeeds or fails with one of the library's documented invalid-data errors; conversions, look-ups and unpackings of input-derived text never surface as raw built-in exceptions.",
     ["inputs"], "every input text",
     "The input space is unbounded; tests sample a handful of malformed inputs.",
     [D + "containerbase.py", D + "property.py", D + "datetime.py", D + "duration.py", D + "period.py", I + "recurrence.py", D + "utcoffsetvalue.py", D + "geovalue.py"],
     [("guarded conversions that raise InvalidData", "value parsers"), ("conversion of value errors into InvalidProperty", "PropertyBase.createValue / parse")])

prop("P15", "Unbalanced or truncated component structure is rejected",
     "Text whose begin and end markers do not nest properly, that ends before every opened component has been closed, or that has a stray end marker or content outside a component, is never accepted as a complete calendar, calendar component or card (or sequence of cards); text that nests properly is accepted, and each property and sub-component is placed in the component whose markers immediately enclose it.",
     ["inputs"], "every input text, cut at every point",
     "Truncation points and mis-nestings are unbounded; tests try a few.",
     [D + "containerbase.py", I + "calendar.py", V + "card.py"],
     [("parser state machine and end-of-input state test", "ContainerBase.parse, Calendar.parseComponent, Card.parseMultiple")])

prop("P16", "Validation reports what it sees and changes nothing unless asked to fix",
     "Validating without the fix option never changes the object; with the fix option every change made is listed as fixed and every problem not repaired is listed as unfixed; a repaired problem is gone when validating again; and validation always covers the whole tree of sub-components and every check the component's ancestors define, with nothing reported being dropped on the way up, and the raise option raising exactly when something is listed as unfixed.",
     ["inputs", "configurations"], "every component tree and both settings of the fix option",
     "Each check has a fixing and a reporting path and tests drive only some checks down each path.",
     [D + "componentbase.py", I + "componentrecur.py", I + "vevent.py", I + "vtodo.py", I + "valarm.py", I + "vavailability.py", I + "available.py", I + "calendar.py"],
     [("validate overrides and check_cardinality_* methods", "component classes")])

prop("P17", "Strict parsing mode never silently repairs or ignores",
     "When the parser's options are all set to raise (its strictest setting), every deviation from the standard that one of the options names, and that would otherwise be tolerated, ignored or repaired, makes reading fail with one of the library's own errors wherever it occurs in a calendar or card; the same holds for each option set to raise alone; and input that does not deviate is never rejected by that setting. (The options for version 2 base64 values and for backslashes in URIs, which are documented to allow or fix only, and deviations no option names, such as a lone backslash at the end of a text, are not covered.)",
     ["configurations", "inputs"], "every leniency option at its raise setting and every input that trips it",
     "Each option is read at different sites; tests leave most options at their lenient default.",
     [D + "parser.py", D + "datetime.py", D + "duration.py", D + "property.py", D + "utils.py", D + "geovalue.py", D + "urivalue.py", I + "requeststatusvalue.py", V + "adr.py", V + "n.py"],
     [("per-option branch at each leniency site", "every read of a parser option")])

prop("P18", "Text escaping and unescaping are inverse and always applied",
     "Every character that the value syntax reserves is escaped whenever text (in a value, in a list of values, in a structured value or in a parameter value) is written, each escape sequence produced by a writer is turned back into the same character by the matching reader, and no user-supplied text reaches the output unescaped where the syntax requires escaping. (In parameter values, line breaks of every kind are written alike.)",
     ["inputs"], "every text value, structured value and parameter value",
     "The round trip is over all strings; tests use a few with commas and newlines.",
     [D + "utils.py", D + "textvalue.py", D + "parameter.py", V + "adr.py", V + "n.py", V + "orgvalue.py", I + "requeststatusvalue.py"],
     [("escape and unescape helper pairs", "utils.py")])

prop("P19", "Written content lines are terminated with CRLF and folded within 75 octets",
     "Every content line written by a text writer ends in CRLF, no physical line exceeds 75 octets excluding the line break, folds never split a multi-byte character, and removing the folds gives back exactly the unfolded line.",
     ["inputs"], "every property of every length and content",
     "Line length and the position of multi-byte characters relative to the fold point are unbounded.",
     [D + "property.py", D + "componentbase.py"],
     [("fold loop", "PropertyBase.generateValue")])

prop("P20", "Text, XML and JSON writers cover the same data",
     "Each writer (text, XML, JSON, and the filtered form of each) emits the component's properties and all nested components with the same writer and the same filter, and each emits for every property its name, parameters and value, so that no format drops or mis-routes something another format emits. (Property groups of cards are only written in text.)",
     ["inputs", "configurations"], "every component tree, output format and output filter",
     "Filtered XML/JSON output and the rarer value types are not exercised by tests.",
     [D + "componentbase.py", D + "property.py", D + "valueutils.py", D + "outputfilter.py"],
     [("parallel write*/write*Filtered*/write*XML/write*JSON methods", "ComponentBase, PropertyBase, value classes")])

prop("P21", "Output is a deterministic function of content",
     "Writing an object as text, XML or JSON, filtered or not, lists properties, parameters and components in an order decided by their content (names, identifiers, recurrence identifiers, an alarm's action and trigger; things that share these keep the order they were read in) - never by the order of a hash table, a memory address, a hash or a generated identifier, nor by the order in which differently named things were read. Expansions of recurring events and time zones come in an order that no set or map decides. The order of members in a JSON object is not claimed.",
     ["inputs", "histories"], "every object whose state includes unordered containers",
     "Hash order is stable within one interpreter run, so tests that compare against expected text cannot reveal a dependency on it.",
     [D + "componentbase.py", D + "property.py", D + "parameter.py", I + "recurrenceset.py", I + "vtimezone.py", I + "componentexpanded.py"],
     [("sorting before iteration at output sites; comparator functions", "writers, expand functions")])

prop("P22", "Queries do not modify what they query",
     "Reading operations - comparisons, accessors, text/XML/JSON generation, expansion, overlap tests, arithmetic that returns a new value - never change the observable content of the object they are called on or of the objects passed to them, other than containers passed in to be filled and results the object merely remembers.",
     ["inputs", "histories"], "every query operation, receiver and argument",
     "A side effect of a query is only visible to a later read of the same object, which tests seldom make.",
     [D + "datetime.py", D + "duration.py", D + "period.py", I + "recurrence.py", I + "recurrenceset.py", D + "componentbase.py"],
     [("copy before normalise/adjust", "DateTime, Period, Recurrence query methods")])

prop("P23", "Components nest only where the standard allows",
     "Adding a sub-component to a component type that restricts its children (VEVENT and VTODO hold VALARM; VTIMEZONE holds STANDARD and DAYLIGHT; VAVAILABILITY holds AVAILABLE; VVOTER holds VOTE) succeeds exactly for those children, adding each exactly once, and fails with an error otherwise leaving the parent as it was; each component type name is recognised by the parser as its own class with its own begin and end markers, unknown names are kept under their own name, and a component added to a parent refers back to that parent.",
     ["inputs"], "every pair of component types",
     "There are about 200 ordered pairs of component types; tests exercise the common legal ones.",
     [I + "calendar.py", I + "component.py", I + "vevent.py", I + "vtodo.py", I + "vtimezone.py", I + "vavailability.py", I + "vpoll.py", I + "vvoter.py"],
     [("addComponent overrides; component factory table", "component classes, Calendar/Component registration")])

prop("P24", "Cardinality and value tables follow the standard",
     "For each component type, the properties that validation treats as required, required-but-fixable, at-most-once and the enumerated values it accepts are those of the standard for that component (including relations between properties, such as an end and a duration excluding each other, or one requiring another): no required property is optional, no single-occurrence property may repeat, and a valid component is not reported.",
     ["inputs"], "every component type and every property name in the tables",
     "Each table row needs its own positive and negative test; the tests cover a few rows.",
     [I + "vevent.py", I + "vtodo.py", I + "vjournal.py", I + "vfreebusy.py", I + "valarm.py", I + "vtimezone.py", I + "calendar.py", I + "validation.py", V + "card.py", V + "validation.py"],
     [("class-level cardinality tuples and value check tables", "component classes")])

prop("P25", "Objects do not leak state into one another through shared defaults",
     "No operation on one object changes the behaviour or content of an unrelated object: apart from declared configuration (product and domain identification, the counter for new identifiers, the default time zone, the time zone database singleton, the parser option switches, type registries filled through their registration functions) and memo tables of plain values, nothing reachable from operations writes to class-level, module-level or default-argument state, and every object's containers are its own.",
     ["histories"], "every operation on every object, with any other object alive",
     "Cross-object interference needs two objects and a specific order; unit tests use isolated objects.",
     [D + "componentbase.py", D + "value.py", D + "utils.py", D + "timezone.py", D + "manager.py"],
     [("instance attributes initialised per object", "constructors")])

prop("P26", "Every operation can be carried out on every type that offers it",
     "No public operation fails merely because it refers to something that does not exist: every attribute, method, module function and name used in an operation exists on the type it is used on, every attribute read is one that construction or the class sets, and every call supplies an acceptable number of arguments.",
     ["inputs", "programs"], "every public operation of every class, on every path",
     "Python resolves names when a line runs; the tests run well under half of the lines.",
     [D + "componentbase.py", I + "calendar.py", I + "componentrecur.py", I + "recurrenceset.py", I + "vfreebusy.py", D + "datetime.py"],
     [("class attributes and method definitions", "whole tree")])

prop("P27", "Adding and removing durations uses consistent units",
     "Conversions between weeks, days, hours, minutes and seconds use the same unit factors in every place a duration, offset from UTC, date-time or period is decomposed or recomposed, so that no part of the value is counted twice or lost: the length of a duration is the sum of its parts, however it was built, read or written; moving a date-time by seconds, minutes, hours, days or a duration moves its instant by just that much, also across the ends of days, months and years; the difference of two date-times gives the duration that was added; and changing the offset of a date-time keeps its instant.",
     ["inputs"], "every duration and offset value",
     "An arithmetic slip shows only for values with the affected unit non-zero.",
     [D + "duration.py", D + "datetime.py", D + "utcoffsetvalue.py"],
     [("unit factors", "Duration.getTotalSeconds / setDuration / generate; DateTime.normalise / __add__ / __sub__ / adjustTimezone; UTCOffsetValue; Period")])

prop("P28", "Calendar arithmetic is numerically correct",
     "Day-of-week, day-of-year, week-number, leap-year and epoch-second calculations agree with the proleptic Gregorian calendar for every representable date.",
     ["inputs"], "every representable date", "The tests sample a few dates.",
     [D + "utils.py", D + "datetime.py"], [("calendar arithmetic helpers", "utils.py, datetime.py")])

prop("P29", "Reading back written data yields an equal object",
     "Reading the text or the JSON written for a property yields a property that compares equal to the original and writes the same text; reading the text or the JSON written for a calendar or a card, with components of every type nested in it, yields one that writes the same text, XML and JSON. (JSON carries names in lower case and the values of a repeated parameter as one list; vCard groups are only in the text. BOOLEAN and TIME values are not covered.)",
     ["inputs"], "every property form and component tree", "The space of values and trees is unbounded.",
     [D + "containerbase.py", D + "componentbase.py", D + "property.py", I + "calendar.py", V + "card.py"], [("parse/generate and parseJSON/writeJSON pairs", "all value classes, PropertyBase, ContainerBase")])

prop("P30", "Recurrence expansion yields the standard's instance set",
     "For every rule and start date the expanded instances are exactly those the recurrence standard defines.",
     ["inputs"], "every rule, start and range", "The rule space is unbounded; the RFC examples are sampled.",
     [I + "recurrence.py"], [("expansion algorithms", "Recurrence")])

prop("P31", "Time zone conversion yields the offsets defined by the zone data",
     "The offset used for any local or absolute time equals the one defined by the time zone's observance rules, including at transitions.",
     ["inputs"], "every time zone and instant", "Instants and zones are unbounded.",
     [I + "vtimezone.py", I + "vtimezoneelement.py"], [("observance search", "VTimezone")])

prop("P32", "Compiled zone files are equivalent to the source zone data",
     "The calendar-format zone files produced from the zone source database define the same offset at every instant as the source database does.",
     ["inputs"], "every zone in the source database and every instant", "Needs an independent interpreter of zone data.",
     ["zonal/zone.py", "zonal/rule.py", "zonal/tzconvert.py"], [("zone compiler", "zonal")])
