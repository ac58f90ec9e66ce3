prop("C01", "iCalendar text round trip loses and changes nothing",
     "Any well-formed iCalendar text is read to the components, properties, parameters, value types and values it states, and writing it gives text stating the same, for every value type, property and component including unknown ones. "
     "Writing again after reading gives the same text, and the typed accessors return the values stated.",
     ["inputs"], "all well-formed iCalendar objects: every property, value type, parameter, nested component and unknown extension",
     "tests compare a few dozen fixed documents; value forms, parameters and their combinations are unbounded",
     [I + "calendar.py", I + "component.py", I + "property.py", S + "componentbase.py", S + "parameter.py", S + "value.py", S + "valueutils.py"],
     [("reading", S + "property.py, " + I + "calendar.py: parse, parseComponent"), ("writing", S + "componentbase.py: generate; " + S + "property.py: generate"), ("values", S + "*value.py: parse, generate")],
     "reference-model monitor: random models written by a reference writer, read and written by the library, read back by a reference reader", "generated documents, several per stream, every property in the tables; corners listed in DESIGN.md are outside")

prop("C02", "Line folding is lossless, bounded and never splits a character",
     "Written lines are folded with CRLF-space or LF-space only, no line is longer than 75 octets, no UTF-8 character or line ending is split, and unfolding gives back exactly the unfolded text. "
     "Text folded anywhere by others, with CR, LF or CRLF endings and space or tab, reads the same as the unfolded text, from strings and from streams.",
     ["inputs"], "all texts of any length and script, all legal folding positions, all line-ending styles and read sizes",
     "folding only goes wrong at particular octet positions of particular characters",
     [S + "property.py", S + "utils.py", S + "vcard/property.py", S + "stringutils.py"],
     [("folding", S + "property.py: generateValue / fold loop"), ("unfolding", S + "utils.py: readFoldedLine")],
     "specification monitor over the raw octets written, and a refolding oracle for reading", "lengths biased around 74-76 and multiples, 1-4 octet characters")

prop("C03", "Any text survives escaping and can never change the structure",
     "Any string set as a text value, list member, structured-value part or parameter value, through the API or read from text, comes back identical after writing and reading. "
     "No value, whatever characters it holds, can add, split or end a line, property, parameter, list member or component.",
     ["inputs"], "all strings in all text-bearing positions of calendars and vCards",
     "injection and escaping faults need particular character sequences (backslash before a separator, quotes, caret, line breaks)",
     [S + "utils.py", S + "plaintextvalue.py", S + "textvalue.py", S + "multivalue.py", S + "parameter.py", S + "vcard/n.py", S + "vcard/adr.py", S + "vcard/orgvalue.py", I + "requeststatusvalue.py"],
     [("text escapes", S + "utils.py: writeTextValue, decodeTextValue"), ("parameter escapes", S + "utils.py: encodeParameterValue, decodeParameterValue"), ("lists", S + "multivalue.py: parse; " + S + "utils.py: parseTextList, parseDoubleNestedList")],
     "round-trip and structure monitor over hostile strings, with a reference reader deciding what the written octets state", "hostile alphabets; quoted parameter values ending in a backslash are outside (DESIGN.md)")

prop("C04", "jCal states the same calendar as the text",
     "Writing any calendar as JSON gives well-formed jCal (RFC 7265) with the same components, properties, parameters, types and values, in the extended date and offset forms, and reading any jCal gives the calendar it states. "
     "Text to JSON to text, and JSON to text to JSON, lose nothing.",
     ["inputs"], "all calendars representable in iCalendar, with every property, type, parameter and multi-valued form",
     "tests convert a few documents; types, multi-values, repeated parameters and extensions combine without bound",
     [S + "property.py", S + "componentbase.py", S + "parameter.py", S + "containerbase.py", I + "calendar.py", I + "recurrence.py", S + "datetime.py", S + "duration.py", S + "period.py", S + "utcoffsetvalue.py", S + "multivalue.py"],
     [("writing", S + "property.py: writeJSON; values: writeJSON"), ("reading", S + "property.py: parseJSON; values: parseJSON")],
     "reference-model monitor with an independent RFC 7265 reader and writer", "BOOLEAN and TIME values are carried uninterpreted")

prop("C05", "xCal states the same calendar as the text",
     "Writing any calendar as XML gives a well-formed xCal document (RFC 6321) in the iCalendar namespace with the same components, properties, parameters, types and values as the calendar, in the extended forms, for every value type and any characters. "
     "Writing XML changes nothing in the calendar.",
     ["inputs"], "all calendars representable in iCalendar, with every property, type, parameter and multi-valued form",
     "tests compare a few small documents; types, structured values and non-ASCII text are not covered together",
     [S + "property.py", S + "componentbase.py", S + "parameter.py", S + "xmlutils.py", I + "calendar.py", I + "recurrence.py", S + "datetime.py", S + "duration.py", S + "period.py", S + "utcoffsetvalue.py", S + "geovalue.py"],
     [("structure", S + "componentbase.py: writeXML; " + S + "property.py: generateValueXML"), ("values", "values: writeXML"), ("document", S + "xmlutils.py: toString")],
     "reference-model monitor: the JDK's XML parser and an independent RFC 6321 reader", "control characters are outside XML 1.0; there is no XML reader in the library")

prop("C06", "vCard text round trip loses and changes nothing",
     "Any well-formed vCard text is read to the groups, properties, parameters, types and values it states, alone or in a stream of several, and writing it gives text stating the same. "
     "Structured names, addresses and organizations keep every component and every value of each, and writing again after reading gives the same text.",
     ["inputs"], "all vCard 3.0 objects over every property, group, parameter and value type, with unknown extensions",
     "tests compare a few cards; structured values, lists and parameters combine without bound",
     [S + "vcard/card.py", S + "vcard/property.py", S + "vcard/n.py", S + "vcard/adr.py", S + "vcard/nvalue.py", S + "vcard/adrvalue.py", S + "vcard/orgvalue.py", S + "valueutils.py"],
     [("reading", S + "vcard/card.py: parseText; " + S + "vcard/property.py"), ("structured values", S + "vcard/n.py, adr.py, orgvalue.py")],
     "reference-model monitor: random models, reference writer and reader", "vCard 3.0 forms (RFC 2426)")

prop("C07", "jCard states the same cards as the text",
     "Writing any vCard as JSON gives well-formed jCard (RFC 7095): groups, parameters, types, structured and list values, extended dates; reading any jCard, alone or in an array, gives the card it states. Text to JSON to text loses nothing.",
     ["inputs"], "all vCards over every property, group, parameter and value type",
     "no test of the suite reads or writes jCard",
     [S + "vcard/card.py", S + "property.py", S + "containerbase.py", S + "componentbase.py", S + "vcard/n.py", S + "vcard/adr.py", S + "vcard/orgvalue.py"],
     [("writing", S + "property.py: writeJSON; " + S + "vcard/*: writeJSON"), ("reading", S + "vcard/card.py: parseMultipleJSONData; parseJSON")],
     "reference-model monitor with an independent RFC 7095 reader and writer", "vCard 3.0 properties")

prop("C11", "Timezone answers are those the VTIMEZONE data defines",
     "The UTC offset and name of any local time or instant are those of the latest observance onset at or before it, as listed by the zone's rules and dates, on both sides of every transition, in gaps and overlaps and for any year. "
     "The list of onsets for a window is complete, ordered and exact, and converting a date-time to UTC or to another zone keeps the instant, and a date the date.",
     ["inputs"], "all zone histories expressible with yearly rules and listed dates, all local times and instants after the first onset",
     "tests ask a few zones about a few dates; transitions, eras, seconds-long offsets and far years are unbounded",
     [I + "vtimezone.py", I + "vtimezoneelement.py", S + "timezone.py", S + "timezonedb.py", S + "datetime.py"],
     [("choice of observance", I + "vtimezone.py: findTimezoneElement, calculateTimezoneOffset..."), ("onsets", I + "vtimezoneelement.py: expandBelow, expandAll"), ("conversion", S + "datetime.py: adjustTimezone, adjustToUTC")],
     "reference-model monitor: the zone's own onset list built before its VTIMEZONE text", "random zone histories; nothing claimed before the first onset")

prop("C12", "A timezone answer never depends on earlier questions",
     "A timezone asked for offsets, names or onsets answers as a freshly parsed copy would, whatever it was asked before, in whatever order of years, after cache overflow, duplication, or a caller's edits of returned values.",
     ["histories"], "all question histories on one live timezone and the database holding it",
     "the caches are filled by particular question sequences, which tests do not explore",
     [I + "vtimezone.py", I + "vtimezoneelement.py", S + "timezonedb.py"],
     [("offset cache", I + "vtimezone.py: getTimezoneOffsetSeconds"), ("onset cache", I + "vtimezone.py: expandAll, findTimezoneElement; " + I + "vtimezoneelement.py: expandBelow")],
     "history monitor: each answer of a random history compared with a fresh zone asked only that", "histories of 8-20 questions, including database lookups and edits of returned onsets")

prop("C19", "Malformed input is refused cleanly, and what is accepted is usable",
     "Reading any text or JSON - truncated, corrupted, mis-nested, random - ends, and gives either a result or the library's own error, never another exception, a hang, or a timezone remembered from refused data. "
     "Missing or mismatched BEGIN and END, a missing VERSION, lines without name or value, broken parameter quoting, data before or after the object, and dates, times, durations, periods, rules, offsets, numbers and positions outside their grammar or range are refused. "
     "Whatever is accepted can be written as text and JSON, and the text is readable and states the same again.",
     ["inputs"], "all octet strings and JSON documents offered to the calendar, vCard, property and value readers",
     "tests try a few dozen broken inputs; the space of corruptions is unbounded",
     [S + "containerbase.py", S + "componentbase.py", S + "property.py", S + "vcard/card.py", S + "vcard/property.py", I + "calendar.py", I + "property.py", I + "recurrence.py", S + "datetime.py", S + "duration.py", S + "period.py", S + "utcoffsetvalue.py", S + "geovalue.py", S + "integervalue.py", S + "floatvalue.py", S + "utils.py"],
     [("structure", S + "containerbase.py: parse, parseJSONContainer; " + I + "calendar.py: parseComponent; " + S + "vcard/card.py: parseMultipleTextData"), ("properties", S + "property.py: parseText, parseTextParameters, parseJSON"), ("values", "values: parse")],
     "robustness monitor: mutation, grammar and structure fuzzing with an outcome, stability and must-refuse oracle", "default (lenient) parser settings; the watchdog decides hangs")

prop("C20", "Parser settings do what they say",
     "Under any combination of the parser settings, well-formed calendars and vCards read as they state. Each tolerated deviation - escaped colons, other invalid escapes, blank lines, vCard 2 parameters and BASE64, leading spaces in dates, inexact durations, over-long N and ADR, inexact REQUEST-STATUS, escaped URIs - "
     "is refused in the RAISE mode of its setting, passed on in ALLOW, dropped in IGNORE and repaired in FIX, changes nothing else in the data, and does not depend on the other settings. allRaise refuses every deviation.",
     ["inputs", "configurations"], "all settings, all placements of the deviations in calendars and vCards",
     "no test of the suite changes a parser setting; deviations are tried in a handful of places",
     [S + "parser.py", S + "utils.py", S + "duration.py", S + "datetime.py", S + "urivalue.py", S + "containerbase.py", S + "vcard/property.py", S + "vcard/card.py", I + "requeststatusvalue.py", I + "calendar.py"],
     [("settings", S + "parser.py: ParserContext"), ("text", S + "utils.py: decodeTextValue, parseDoubleNestedList"), ("vCard 2", S + "vcard/property.py: parseTextParameters"), ("values", S + "duration.py, " + S + "datetime.py, " + S + "urivalue.py, " + I + "requeststatusvalue.py: parse"), ("blank lines", S + "containerbase.py, " + S + "vcard/card.py, " + I + "calendar.py")],
     "reference-model monitor: reference result of each deviation and mode, in random surroundings and settings", "settings no code reads (INVALID_DATETIME_VALUE, BACKSLASH_IN_GEO_VALUE) are out of scope")

prop("C17", "Duplicates equal their originals and share nothing with them",
     "A duplicate of a calendar, vCard, component, property, value, date, duration, period, rule, timezone, free-busy item or expanded instance answers every public question, writes text, JSON and expansions, and compares exactly as its original and as a fresh reading do, also when the original has been used before. "
     "Whatever is changed afterwards in one, or in anything reached from it, is never seen in the other, and what was written as JSON is not tied to it.",
     ["inputs", "histories"], "all objects that can be read or built, all sequences of public changes to either side",
     "tests compare the text of a few duplicates; aliasing shows only for particular members after particular changes",
     [S + "componentbase.py", S + "property.py", S + "parameter.py", S + "multivalue.py", S + "valueutils.py", S + "datetime.py", S + "period.py", I + "calendar.py", I + "component.py", I + "componentrecur.py", I + "recurrence.py", I + "recurrenceset.py", I + "valarm.py", I + "vtodo.py", I + "vfreebusy.py", I + "vtimezone.py", I + "vtimezoneelement.py", S + "vcard/n.py", S + "vcard/adr.py", S + "vcard/property.py"],
     [("components", S + "componentbase.py, " + I + "*.py: duplicate"), ("properties and values", S + "property.py, parameter.py, multivalue.py, valueutils.py: duplicate"), ("rules", I + "recurrence.py, recurrenceset.py: duplicate")],
     "reflection monitor: all public answers before and after, and aliasing probes by public changes to reachable objects", "components without UID are compared without regard to their order")

prop("C31", "Expansion of any accepted rule ends and keeps to its window",
     "Whatever recurrence rule, start and window are accepted - any mix of BYxxx parts, huge INTERVAL, COUNT or DURATION, an UNTIL of another kind, a start that needs normalising - the expansion ends after work in proportion to the periods up to the window's end. "
     "It gives existing instances of the start's kind, ascending, each once, inside the window, within COUNT and UNTIL; any smaller window shows exactly its part; a limit on the number of instances raises exactly when there are more. Timezones whose observances follow any accepted rule answer too.",
     ["inputs"], "all rules the parser accepts, all starts, windows and limits",
     "a rule that never matches, never advances or advances too far shows only for particular combinations; tests use ordinary ones",
     [I + "recurrence.py", I + "recurrenceset.py", S + "datetime.py", S + "duration.py", I + "vtimezone.py", I + "vtimezoneelement.py"],
     [("expansion", I + "recurrence.py: expand, simpleExpand, complexExpand, generate*Set"), ("limits", I + "recurrenceset.py: expand"), ("advance", S + "datetime.py: recur, normalise"), ("zones", I + "vtimezone.py: getTimezoneOffsetSeconds, expandAll")],
     "call-budget monitor on expansion with window-restriction, order and bound oracles", "budgets are several times what the tree uses; a hang without calls is left to the watchdog")

prop("C26", "Equality means the same content",
     "Two components, properties or values are equal exactly if they say the same: the same type, and the same properties, sub-components, parameters and values, each as many times, in whatever order they come, however they were folded, quoted or escaped, and whether they came from text, from JSON, "
     "from a duplicate or from what the library wrote. Any one difference - a value or its type, a date instead of its midnight, UTC instead of floating time, one BYxxx part, a parameter value, a group, a property or component added, removed, doubled or moved - makes them unequal, in both directions, "
     "with != always the opposite of ==, and undoing it makes them equal again. Rules and recurrence sets changed through their setters equal what is read from their text. Equal properties, values, rules and parameters have equal hashes. Anything else is unequal without failing.",
     ["inputs", "histories"], "all components, cards, properties and values, and all sequences of edits to them",
     "an equality that leaves out one field, or a hash that keeps a spelling, shows only for pairs that differ in just that",
     [S + "componentbase.py", S + "property.py", S + "parameter.py", S + "value.py", S + "multivalue.py", S + "datetimevalue.py", S + "periodvalue.py", I + "property.py", I + "recurrence.py", S + "duration.py", S + "vcard/property.py", S + "vcard/adr.py", S + "vcard/n.py"],
     [("components", S + "componentbase.py: __eq__, compareProperties, compareComponents"), ("properties", I + "property.py, " + S + "vcard/property.py: __eq__, __hash__"), ("values", S + "value.py, multivalue.py, duration.py, period.py: __eq__, __hash__"), ("rules", I + "recurrence.py: equals, __hash__")],
     "differential monitor of ==, != and hash against equality of reference models", "names of properties are compared in the case given, as the library's tests require")

prop("C21", "The timezone database keeps to its directory and each name means one timezone",
     "However the directory is spelled, a timezone name is looked up as a file inside it and nowhere else: names that climb out, that are absolute or odd are simply not known, and no other file is read. Whatever was asked before, a name known from a file is standard and means that file; a name that came with a calendar means the first such "
     "timezone and is not standard; anything else - with no file, or one that is broken or holds another name - is None, with offset 0 and no name, without failing. Standard-ness, offsets, names and date-times agree with it. "
     "Files are read once until the database is cleared; clearing or changing the directory forgets everything. Calendars that brought or were given a timezone can be changed without effect on the database.",
     ["inputs", "histories"], "all names, directories, files and sequences of questions, calendars read, clearing and changes of directory",
     "containment depends on the spelling of names and directories, and what is cached on everything asked before; tests ask for a few names",
     [S + "timezonedb.py", I + "calendar.py", I + "vtimezone.py", S + "timezone.py"],
     [("lookup", S + "timezonedb.py: cacheTimezone, _getTimezone"), ("merge", S + "timezonedb.py: mergeTimezones, addTimezone"), ("standard", S + "timezonedb.py: _isStandardTimezone"), ("parse", I + "calendar.py: parseComponent")],
     "history monitor of the database against a model of files and merges, with recorded file opens", "the directory is not changed while in use")

prop("C22", "Written calendars carry exactly the timezones they need and were asked for",
     "Writing a calendar asking for all timezones adds every timezone the database knows that any date, date list or period anywhere in it uses and that it does not have; asking for the non-standard ones leaves out those the database has from files; asking for none, or str(), adds nothing. "
     "Each is added once, as the database has it, and nothing else changes, in text, JSON, XML and through the file interfaces, however often and in whatever order it is written. Stripping removes exactly the standard timezones and says whether it did. "
     "What is written with all timezones means the same instants to a reader who knows no timezones, and what is done to the calendar later never changes the database.",
     ["inputs", "histories"], "all calendars, databases, ways to write and sequences of writing, editing, copying and stripping",
     "a timezone missing from output makes it meaningless elsewhere, and shows only for the component, property and value form that is overlooked; tests use DTSTART of one event",
     [I + "calendar.py", I + "component.py", I + "property.py", S + "timezonedb.py"],
     [("collect", I + "component.py, property.py: getTimezones"), ("include", I + "calendar.py: includeMissingTimezones"), ("strip", I + "calendar.py: stripStandardTimezones"), ("read", I + "calendar.py: parseComponent, parseJSONContainer")],
     "history monitor of written calendars against a model, and instants read back with an empty database", "offsets read back are judged away from transitions; C12 judges them there")

prop("C30", "Filtered output is exactly what the filter names",
     "Writing through a filter gives the components and properties the filter names, and no others, at every level: all, some or none of the properties, with or without their values, all, some or none of the sub-components, each by its own filter. What is written of each is what full output has, in the same order, "
     "in text, JSON and XML, for calendars and vCards. A filter for everything gives the full output, and writing through a filter changes nothing.",
     ["inputs"], "all calendars and vCards and all trees of filters",
     "filters and contents combine without bound, and what must not be shown to a client leaks only for one of the combinations; tests use three filters",
     [S + "outputfilter.py", S + "componentbase.py", S + "property.py"],
     [("filter", S + "outputfilter.py"), ("components", S + "componentbase.py: writeComponentsFiltered*, writePropertiesFiltered*"), ("properties", S + "property.py: generateFiltered, writeXMLFiltered, writeJSONFiltered")],
     "reference-model monitor: projection of the model by the filter, compared with what is written", "names in filters are in upper case")

prop("C18", "Validation names exactly what is wrong and repairs exactly what it says",
     "Validating a calendar or vCard names every violated constraint on required, single and conflicting properties, on values that must be in UTC or in a range, on alarms by their action, on UNTIL and on timezones without observances, each with its component, and nothing else. Without repair it changes nothing; it raises exactly if asked to and something is wrong. "
     "With repair it removes, adds or changes exactly what makes the problems it lists as repaired go away and nothing else, so that validating again, also what is then written and read, finds just what was listed as left.",
     ["inputs"], "all calendars and vCards with any number of defects",
     "constraints interact (a repair removes or hides another problem) and depend on component, action and METHOD; tests check them one by one",
     [S + "componentbase.py", S + "containerbase.py", S + "validation.py", I + "validation.py", I + "componentrecur.py", I + "vevent.py", I + "vtodo.py", I + "valarm.py", I + "vtimezone.py", I + "vavailability.py", I + "available.py", S + "vcard/card.py", S + "vcard/validation.py"],
     [("cardinality", S + "componentbase.py: check_cardinality_*"), ("values", S + "validation.py: PropertyValueChecks"), ("repairs", I + "componentrecur.py, vevent.py, vtodo.py: validate"), ("alarms", I + "valarm.py: validate"), ("raising", S + "containerbase.py: validate")],
     "reference-model monitor: constraint tables judged on the model, before and after repair", "the wording of problems is not judged")

prop("C25", "Timezones made from tzdata source have the offsets the source states",
     "Reading tzdata source (Zone lines with their until times, Rule lines, with any spelling of days, times, clocks, signs, whitespace and order) and converting it gives, for any range of years, a VTIMEZONE whose observances and rules yield the source's UTC offset at every instant of that range: exactly at, before and after each transition and between. "
     "The expansion of a zone into transitions says the same, and asking again or for other years does not change the answer.",
     ["inputs", "histories"], "all tzdata sources (zones, rules, until times, clocks) and all ranges of years",
     "offsets go wrong for single years of single zones, where lines meet or rules shift over the end of a month; tests convert a handful of zones",
     ["src/zonal/tzconvert.py", "src/zonal/zone.py", "src/zonal/rule.py", "src/zonal/utils.py"],
     [("zones", "src/zonal/zone.py: expand, vtimezone, ZoneRule"), ("rules", "src/zonal/rule.py: RuleSet, Rule.expand, vtimezone"), ("dates", "src/zonal/utils.py: DateTime"), ("reading", "src/zonal/tzconvert.py: parse")],
     "reference-interpreter monitor: offsets of generated timezones against an independent reading of the source", "the reference interpreter was validated against every zone compiled by zic on this system")

prop("C27", "A generated timezone directory is complete and usable as the database",
     "Generating timezone files from tzdata source into a directory leaves there exactly one file for each zone, link and Windows alias selected, at the place its name says and holding a timezone of that name, and a list of links that agrees; files of an earlier run are gone and nothing outside the directory is touched. "
     "The timezone database reading that directory knows each of those names, as standard, with the offsets of the source; links behave as the zone they point at and carry their own name; links that lead nowhere are reported, not written.",
     ["inputs", "histories"], "all sources, links, aliases, filters, years and earlier contents of the directory",
     "links to links, names that contain one another, filters and old files interact; tests convert single zones in memory",
     ["src/zonal/tzconvert.py", "src/zonal/zone.py", S + "timezonedb.py"],
     [("files", "src/zonal/tzconvert.py: generateZoneinfoFiles"), ("links", "src/zonal/tzconvert.py: parseWindowsAliases, generateZoneinfoFiles"), ("use", S + "timezonedb.py: cacheTimezone")],
     "directory monitor with recorded removals and writes, and offsets asked of the database against the source", "")

prop("C23", "A calendar's answers agree with its components after any history of changes",
     "After any sequence of adding and removing components - as objects, by key, by type, all of them - putting them back, changing UIDs to new or used ones, and copying, the calendar has exactly the components that were left, and its counts, keys, master, overridden instances and instance times by UID, and its expansion are those of that same calendar written and read afresh.",
     ["histories"], "all sequences of additions, removals and changes of UID on calendars of recurring, overridden and other components",
     "indexes by UID are kept beside the list of components and go stale only after particular sequences; tests change each calendar once",
     [I + "calendar.py", S + "componentbase.py", I + "componentrecur.py", I + "component.py"],
     [("index", I + "calendar.py: addComponent, removeComponent, removeAllComponent, changeUID"), ("components", S + "componentbase.py: getComponents, removeComponentByKey, removeAllComponent"), ("keys", I + "componentrecur.py: setUID, getMapKey")],
     "history monitor: every step compared with a model and with the calendar read afresh", "UIDs are changed through the calendar, as its documentation asks")

prop("C24", "An instance derived from a recurring component is that instance",
     "Deriving the instance at a time (given in UTC, in the master's timezone or in another) gives the master's content without its recurrence, starting at that instant in the master's timezone and kind, with its end moved along where it had one, its duration where it had that, and that time as RECURRENCE-ID; properties, alarms and parent are the master's. The calendar and the argument are unchanged. "
     "Added to the calendar, nothing that is shown changes, and what is then done to the instance changes only that instance.",
     ["inputs", "histories"], "all masters (events, to-dos, journals; all-day, floating, UTC, zoned; any kind of end), all their instances and ways to name them",
     "kinds of start, of end and of the time asked for multiply, and sharing shows only after a later change; tests derive from a few events",
     [I + "calendar.py", I + "componentrecur.py", S + "datetime.py"],
     [("derive", I + "calendar.py: deriveComponent, masterComponent"), ("copy", I + "componentrecur.py: duplicate, finalise")],
     "reference-model monitor of the derived component, and the expansion before and after it is added", "instances next to a change of offset are not judged")

prop("C32", "What is written depends on the content alone",
     "The same content gives the same octets - as text, JSON and XML - in whatever order its components, properties and parameters were given, however it was folded or quoted, whether it was read from text or JSON, put together through the API or copied, and whatever was done with it that only reads; and writing again gives them again. "
     "What nothing tells apart (properties of one name, components without UID) stays in the order given.",
     ["inputs", "histories"], "all calendars and vCards and all orders and ways to come by them",
     "differences show for particular orders of particular siblings, and random keys only now and then; tests write each document from one order",
     [S + "componentbase.py", S + "property.py", S + "parameter.py", I + "component.py", I + "componentrecur.py", I + "valarm.py", I + "vtimezone.py", I + "vpoll.py", I + "vvoter.py"],
     [("order", S + "componentbase.py: sortedComponents, sortedPropertyKeys"), ("keys", I + "component.py, componentrecur.py, valarm.py: getSortKey"), ("parameters", S + "property.py, parameter.py: generate")],
     "metamorphic monitor: octets written from many orders and origins of one content", "in JSON and XML the values of one parameter keep the order given")

prop("C28", "Busy time is exactly the time of what makes it busy",
     "The busy time of a calendar in a window consists of every instance of its events shown there that is not all-day, empty, transparent or cancelled - tentative ones marked so - and of every period in the window of its FREEBUSY properties that are not free, with their type; nothing else, each once. "
     "As FREEBUSY properties it is the same time of the events in UTC, in order, with periods that overlap or touch joined. Asking again gives the same answer whatever was done with the previous one, copies answer alike, and the calendar is unchanged.",
     ["inputs", "histories"], "all calendars of events and VFREEBUSY components, and all windows",
     "kinds of event, free-busy types, spans and edges of windows multiply; no test asks for busy time",
     [I + "calendar.py", I + "vfreebusy.py", I + "freebusy.py", I + "vevent.py", S + "period.py"],
     [("events", I + "calendar.py: getFreeBusy, getVFreeBusyFB, getVEvents"), ("stored", I + "vfreebusy.py: cacheBusyTime, expandPeriodFB, expandPeriodComp, finalise"), ("periods", S + "period.py: isPeriodOverlap, adjustToUTC")],
     "reference-model monitor of busy items and merged periods against the generated model", "the order among busy items of different components is not judged")

prop("C29", "Edits change what they say, and nothing else",
     "An editing operation (UID, sequence, stamps, summary, description, location, any property, timing, recurrence set, status, completion, action, trigger, repeats and status of alarms, name and description of calendars, the observances of a time zone, the parts of N and ADR) changes in the written text exactly the properties it is about, to the values given. "
     "Afterwards, and after properties were replaced or removed and the component finalised, everything the components answer is what the calendar read back from that text answers, and its text is the same. Objects that were passed in, and duplicates made before, share nothing with it.",
     ["inputs", "histories"], "all calendars, sequences of edits and arguments",
     "edits, component types, forms of arguments and what was there before multiply; tests edit almost nothing",
     [I + "component.py", I + "componentrecur.py", I + "vevent.py", I + "vtodo.py", I + "vfreebusy.py", I + "valarm.py", I + "calendar.py", I + "vtimezone.py", I + "vtimezoneelement.py", S + "componentbase.py", S + "vcard/n.py", S + "vcard/adr.py"],
     [("timing", I + "componentrecur.py: editTiming, editTimingDue, editTimingStartEnd, editTimingStartDuration, FixStartEnd; vfreebusy.py: the same"), ("properties", I + "component.py: setUID, setSeq, initDTSTAMP, updateLastModified; componentbase.py: editProperty"),
      ("recurrence", I + "componentrecur.py: editRecurrenceSet, _resetRecurrenceSet"), ("status", I + "vevent.py, vtodo.py: editStatus, editCompleted"), ("alarms", I + "valarm.py: editAction, editTriggerOn, editTriggerBy, editRepeats, editStatus"), ("cached", I + "*.py: finalise")],
     "runtime monitor of edit histories: property-level difference against the request, and every answer against a re-read", "setters that only change what is cached are not edits")

prop("C33", "Leaving out an instance leaves out that instance",
     "Excluding an instance of a recurring event removes exactly that instance, whether it comes from a rule, a date or a period and in whichever clock it is named; excluding all from a moment on removes exactly the instances at or after it (the start itself always stays), whatever bounds the rules and dates had. "
     "It holds for the event edited, whatever was expanded before, for the one read back from its text and for duplicates; the rest of the event stays as it was and what is written is valid (UNTIL of the kind of the start, no rule without instances).",
     ["inputs", "histories"], "all recurring events, instances and moments",
     "rules, bounds, dates, periods, clocks and sequences of exclusions multiply; no test excludes anything",
     [I + "componentrecur.py", I + "recurrenceset.py", I + "recurrence.py"],
     [("exclude", I + "componentrecur.py: excludeRecurrence, excludeFutureRecurrence"), ("rules", I + "recurrence.py: excludeFutureRecurrence, clear, expand"), ("sets", I + "recurrenceset.py: excludeFutureRecurrence, expand")],
     "reference expansion oracle (independent of the library) over edited, re-read and duplicated events", "overridden instances are components of their own and stay")

prop("C34", "Alarms ring at each of their times, once",
     "An alarm's times are its first one (absolute, or its offset from the start or end of its component, however that end is stated) and each of its repeats an interval apart. Asked at any moment, the next time is the latest one that is due, not more than a day past and not acknowledged yet, or else the next to come, or none when the series is over. "
     "Acknowledging a time records it and gives the next, and after the last one the alarm is completed. Saving, re-reading or duplicating the calendar in between neither repeats nor loses a time.",
     ["inputs", "histories", "crash_points"], "all alarms, clocks and sequences of acknowledging and saving",
     "trigger forms, repeats, clock positions and restarts multiply; no test asks for a trigger time",
     [I + "valarm.py"],
     [("next", I + "valarm.py: getNextTrigger, initNextTrigger, getFirstTrigger"), ("acknowledge", I + "valarm.py: alarmTriggered"), ("saved", I + "valarm.py: finalise, duplicate, editStatus, editRepeats, editTriggerOn, editTriggerBy")],
     "reference-model monitor of alarm histories under a settable clock", "owners without a time zone are left out")
prop("C35", "The command line tools report what the data says",
     "tzdump lists exactly the transitions a time zone file has in the years asked for, with their local times and offsets to the second. tzverify reports exactly the zones and transitions in which two directories of zone files differ - each on the side that has it, at any depth of directories - and matches the rest, leaving out transitions that change nothing. "
     "The validator tells calendars from cards, prints problems exactly for data that has some (fixable ones included, and without changing it), fails on what cannot be parsed, and lists every control character with its position. "
     "The instances tool lists the start and every instance of a rule over a hundred years, in order and once each.",
     ["inputs"], "all zone files, directories, data files and rules given to the tools",
     "no test runs any of the tools; a tool that misses a difference or a problem says everything is well",
     ["src/zonal/tzdump.py", "src/zonal/tzverify.py", S + "validator.py", S + "instances.py"],
     [("tzdump", "src/zonal/tzdump.py: getExpandedDates, formattedExpandedDates"), ("tzverify", "src/zonal/tzverify.py: loadCalendarFromZoneinfo, compareCalendars"), ("validator", S + "validator.py: validate"), ("instances", S + "instances.py: instances")],
     "the tools are run as programs and their output compared with reference models of the files", "")
prop("C36", "People are shown what the data says",
     "The date, time and zone of any date-time are shown in every format as the calendar has them: weekday, month, twelve or twenty-four hour clock, the zone's name or offset at that time. The state and status text of a to-do follow from its status and from its due day against today, an instance of an event is going on from its start up to, not including, its end, "
     "and the present moment is the same instant in whatever zone it is asked for. The full name of a person is prefix, first, middle and last names and suffix, those that are there. Recurrences are classified as simple, advanced or complex, and described, by what their rules and dates are, whatever was asked before. "
     "The table of a month has each of its days once, under its weekday, fills its weeks from the months beside it and marks today. Generated UIDs are never empty and never repeated. Asking changes nothing.",
     ["inputs", "histories"], "all date-times, zones, to-dos, instances, names and recurrences, at all times of asking",
     "the tests show a few fixed dates; a wrong hour, day or state on a screen is what a user sees of everything else",
     [S + "datetime.py", S + "timezone.py", I + "vtodo.py", I + "componentexpanded.py", I + "recurrence.py", I + "recurrenceset.py", I + "component.py", S + "vcard/n.py", S + "utils.py"],
     [("month tables", S + "utils.py: getMonthTable, packDate"), ("forms", S + "datetime.py: getLocaleDate, getTime, getNow, getToday"), ("to-dos", I + "vtodo.py: getStatusText, getCompletionState"), ("instances", I + "componentexpanded.py: isNow"), ("rules", I + "recurrence.py: isSimpleRule, isAdvancedRule, getUIDescription; recurrenceset.py: isSimpleUI, isAdvancedUI"), ("names", S + "vcard/n.py: getFullName")],
     "every form shown is compared with a reference calendar and reference zones, under a settable clock", "")
