prop(
    "P01", "Recurrence rules expand correctly, whatever was asked or edited before",
    "Expanding a recurrence rule over a window returns exactly the instances RFC 5545 gives for the rule's current value and DTSTART: "
    "every one, once, in order, and none other (DTSTART itself is left to the caller). "
    "The answer never depends on earlier expansions (other windows, window objects moved in place, expansions aborted by the instance limit), on edits, duplicates or "
    "re-reads before it, or on what a caller did to dates it was given. "
    "The instance limit raises only when more instances than the limit lie before the window's end, and not raising means the limit was respected; "
    "the returned 'limited' flag is never false when instances lie outside the window.",
    ["histories", "inputs", "fault_sequences"],
    "All histories of queries, limit aborts, edits, duplications, re-reads and caller mutations on a rule; all valid rules over all "
    "frequencies and BYxxx parts (BYWEEKNO with BYDAY), DATE, UTC, floating and zoned DTSTART; windows of any kind.",
    "Rules cache their instances, and whether an answer is right depends on the order of queries, edits and aborts; the tests ask 16 fixed "
    "rules once each and one cached query twice.",
    ["src/pycalendar/icalendar/recurrence.py", "src/pycalendar/datetime.py"],
    [["instance cache wiped by start/range change", "Recurrence.expand"], ["edits clear the cache", "Recurrence.clear"],
     ["BYxxx expanders and limiters", "Recurrence.generate*Set"]],
    ["Recurrence.expand results", "TooManyInstancesError"],
    (2400, 80000),
    "Seeded histories of 3 to 12 operations over up to 4 live rule objects: query, query with an instance limit (injected abort), repeat, "
    "field edit, duplicate, re-read from text, DTSTART moved in place, replaced or changed between date, floating and UTC, window moved in place, returned date mutated; every "
    "answer compared with a brute force RFC 5545 model of the current rule.",
    "hash of (frequency, last five operation kinds on that rule, answer empty or not, value types, set of rule parts)",
    "seeded simulation of query/edit/abort histories against a brute-force RFC 5545 reference model",
    "Search over histories and rules, not proof; trusts the reference model (checked against the repository's own examples).",
    state=[["mRecurrences/mCacheUpto/mFullyCached", "cached instances and how far they reach", "Recurrence"]])

prop(
    "P02", "A window of the calendar holds exactly the events that take place in it",
    "For any window, the events a calendar answers are those its VEVENTs say: every instance of DTSTART, RRULE and RDATE not excluded by EXRULE or EXDATE that starts in the window, with the master's length (or the period's own), overridden instances replaced by their override wherever that takes place, THISANDFUTURE overrides carried to later instances, and single events that overlap the window; each once, in order, all-day first when asked. The answer depends only on what the calendar says now: not on earlier questions, aborted expansions, overrides or exclusions added and removed, duplicates or re-reads, or on what callers did to dates they were given or passed in.",
    ["histories", "inputs", "fault_sequences"],
    "All histories of windows asked, exclusions and overrides added and removed, moves, duplications, re-reads, limit aborts and caller mutations; all combinations of rules, dates, periods, exclusions and overrides; DATE, floating, UTC and zoned events, exclusions in another zone.",
    "The expansion joins per-rule caches, per-UID indexes of overrides and sets of dates; tests look at one window of a few fixed calendars.",
    ["src/pycalendar/icalendar/recurrenceset.py", "src/pycalendar/icalendar/componentrecur.py", "src/pycalendar/icalendar/componentexpanded.py", "src/pycalendar/icalendar/calendar.py"],
    [["include/exclude sets", "RecurrenceSet.expand"], ["overrides replace instances", "ComponentRecur.expandPeriod, Calendar.getRecurrenceInstancesIds"], ["instance start and end", "ComponentExpanded.initFromOwner"], ["order", "ComponentExpanded.sort_by_dtstart*"]],
    ["Calendar.getVEvents", "VEvent.expandPeriod", "ComponentExpanded start, end and owner"],
    (2000, 40000),
    "Seeded histories of 3 to 12 operations on calendars of 1 to 3 events: ask a window (calendar or event), ask again, expand with an instance limit (injected abort), change a returned date, exclude an instance, add or remove an override, move, duplicate, re-read. Every answer compared with a set model built on the brute-force RFC 5545 rule model.",
    "hash of (last five operations, size of the answer, value types, entry point, overrides answered)",
    "seeded simulation of query/edit/abort histories against a set model of RFC 5545 events",
    "Search, not proof; recurring instances that began before the window are not answered (as documented by the code), times that occur twice or never in a zone are compared by start only.",
    state=[["Recurrence caches, Calendar.mOverriddenComponentsByUID", "instances and overrides known so far", "Calendar"]],
    hook=None)

prop(
    "P03", "Time zone answers do not depend on what was asked before",
    "For any time at or after a time zone's first onset, the UTC offset (by UTC time and by wall clock), the abbreviation and the list of onsets in a "
    "window are those of the VTIMEZONE definition, to the second. "
    "A wall clock time that occurs twice has the offset of its first occurrence and one that does not exist has either neighbour's offset. "
    "Answers are the same whatever was asked before and in whatever order, through every public way of asking, for small caches, after the zone is duplicated or read again, "
    "and after the database is cleared and the zone supplied again.",
    ["histories", "inputs", "configurations"],
    "All interleavings of offset, abbreviation and onset queries at any years and around any onset, all cache sizes, clears and "
    "re-reads, all zone shapes (rules, dates, mixed, fixed, with seconds, in any observance order).",
    "Three caches (onsets by year, offsets by time, expansion below a date) are filled by whichever query comes first; tests ask a few "
    "times of a few zones in one order.",
    ["src/pycalendar/icalendar/vtimezone.py", "src/pycalendar/icalendar/vtimezoneelement.py", "src/pycalendar/timezonedb.py", "src/pycalendar/timezone.py"],
    [["onset cache by year", "VTimezone.getTimezoneOffsetSeconds"], ["offset cache", "VTimezone.mCachedOffsets"],
     ["expansion cache", "VTimezoneElement.expandBelow/expandAll"]],
    ["Timezone.timeZoneSecondsOffset", "TimezoneDatabase.getTimezoneOffsetSeconds/Descriptor", "VTimezone.expandAll"],
    (1600, 60000),
    "Seeded histories of 4 to 24 queries on one or two generated zones, half of them within an hour and a half of an onset; faults: offset "
    "cache of 1 to 4 entries, database cleared; duplication and re-reading of the zone in between. Every answer compared with an eager "
    "model that expands the whole zone without caches.",
    "hash of (last five operation kinds, kind of query, offset, abbreviation or number of onsets answered)",
    "seeded simulation of query histories and cache evictions against an eager cache-free zone model",
    "Search, not proof; times before a zone's first onset are out of scope (RFC 5545 leaves them undefined).",
    state=[["mCachedExpandAll/mCachedOffsets", "onsets and offsets cached by earlier queries", "VTimezone"],
           ["mCachedExpandBelowItems", "onsets of one observance", "VTimezoneElement"]])

prop(
    "P09", "Reading from a stream: all of it, or an error",
    "Reading a valid object from a stream or a string, through any entry point (calendar or card, text or JSON, parseText, parseData, "
    "parseComponent, parseMultiple), gives exactly the components, properties, parameters and values written, however lines are folded, ended or separated by blanks. "
    "If a read from the stream fails, at whatever byte and with whatever exception, the call raises; it never returns part of the data as if it were all. "
    "Data that ends inside an object is refused, whatever byte it ends at, and a later reading from a healthy stream is unaffected.",
    ["fault_sequences", "crash_points", "inputs"],
    "All documents and layouts; all bytes at which a read can fail or the data can end; all exception types; all entry points; all "
    "sequences of failed and good reads.",
    "Tests read strings that never fail, and one or two truncated texts; what happens when the stream raises on the 37th line is never run.",
    ["src/pycalendar/utils.py", "src/pycalendar/containerbase.py", "src/pycalendar/icalendar/calendar.py", "src/pycalendar/vcard/card.py",
     "src/pycalendar/property.py"],
    [["line reading and unfolding", "utils.readFoldedLine"], ["component state machine and truncation checks", "ContainerBase.parse, Calendar.parseComponent, Card.parseMultipleTextData"],
     ["whole-stream JSON reading", "ContainerBase.parseJSONData"]],
    ["object returned or exception raised by the entry point"],
    (700, 30000),
    "Seeded sequences of 1 to 4 documents, each read up to four times through one entry point from a simulated stream: failing at a "
    "byte (uniform, at a line boundary or near the end) with one of four exceptions, ending early, or healthy; layouts vary in line "
    "ends, folding widths down to one byte, blank lines and missing final line end. The content is compared with the generated document.",
    "hash of (outcome, entry point, exception or number of properties, line ends, folding)",
    "seeded simulation of stream faults and truncation against the generated document as reference",
    "Search, not proof; documents use well-formed values only, as grammar violations are out of scope here.",
    stub=["input streams (simulated file objects that fail or end at a chosen byte)"])

prop(
    "P10", "Reading and writing objects do not affect one another",
    "Reading or writing one object gives what its own data says, whatever other objects are being read, written or failing at the same time in other threads, "
    "interleaved at any read or write. "
    "A reading that fails leaves nothing behind: no time zone it mentioned becomes known. "
    "The time zones of a successful reading, text or JSON, are known afterwards, the first definition successfully read counts, and none of them counts as a standard zone.",
    ["schedules", "fault_sequences"],
    "All interleavings, at I/O points, of any readings and writings of distinct objects, with any of the readings failing at any byte.",
    "Tests read one object at a time and never look at process-wide state after a failure.",
    ["src/pycalendar/containerbase.py", "src/pycalendar/icalendar/calendar.py", "src/pycalendar/timezonedb.py", "src/pycalendar/utils.py"],
    [["time zones merged only after the whole text was read", "Calendar.parse, parseComponent, parseJSONData"], ["first definition wins", "TimezoneDatabase.mergeTimezone"]],
    ["parsed objects, written text, TimezoneDatabase.getTimezone, isStandardTimezone"],
    (800, 40000),
    "Seeded sets of 2 to 6 tasks (read text, component or JSON calendars, cards; write calendars) on threads of which one runs at a time, "
    "switched at simulated reads and writes as the seed says; a third of the readings meet a read error, an early end or a bad line.",
    "hash of (task kinds and faults, first twelve context switches) and of (order of completion, number of zones known)",
    "seeded baton-passing thread scheduler over simulated streams, compared with the serial meaning of each document",
    "Switches happen at I/O calls only, as the library holds no locks and promises nothing about sharing one object.",
    stub=["streams (simulated)", "thread scheduler (threads are real, one runs at a time)"],
    state=[["TimezoneDatabase.sTimezoneDatabase", "process-wide zones", "timezonedb.py"]])

prop(
    "P05", "A duplicate equals its original and then lives on its own",
    "A duplicate of a calendar, card, component or property has the same content, text and JSON as the original, answers the same questions the same way and compares equal to it. "
    "From then on no edit of either (properties, parameters, values changed in place, sub-components, re-finalising) changes what the other says, and nothing but a write to an object changes it. "
    "This holds for duplicates of duplicates, of parts, and of objects edited before.",
    ["histories"],
    "All histories of duplications, edits through the object model, in-place changes of values, and questions, over sets of objects that came from one another.",
    "Tests duplicate once and compare text; sharing of a value, list, map or cache between copies only shows after the right edit to the right copy.",
    ["src/pycalendar/componentbase.py", "src/pycalendar/property.py", "src/pycalendar/parameter.py", "src/pycalendar/multivalue.py", "src/pycalendar/icalendar/component.py",
     "src/pycalendar/icalendar/componentrecur.py", "src/pycalendar/vcard/property.py"],
    [["duplicate() of every class", "ComponentBase.duplicate, Property.duplicate, *Value.duplicate"], ["derived values copied", "ComponentRecur.duplicate"]],
    ["text, JSON, accessors and expansions of every live object"],
    (900, 25000),
    "Seeded histories of 4 to 14 operations over up to 6 live calendars, cards and components: duplicate whole or part, copy a property into another object, add, remove and change properties, "
    "parameters, values (in place or replaced) and sub-components, re-finalise, ask. After each operation every object is compared with what it said before, and the edited one with a plain-data mirror.",
    "hash of (last four operations, kinds of live objects, whether the object was edited since read)",
    "seeded simulation of edit and duplication histories against plain-data mirrors of every object",
    "Search, not proof; objects that are deliberately shared by the caller (one property object added to two parents) are out of scope.")

prop(
    "P11", "Writing to a stream: all of it, or an error and no trace",
    "Writing a calendar, card, component, property or filtered view to a stream gives the same bytes every time: lines ended by CRLF, of at most 75 octets, never cut inside a character, "
    "and for a filtered view exactly the lines of the whole that the filter keeps. "
    "If the stream refuses a write, at whatever byte and with whatever exception, the call raises and what the stream took is a beginning of those bytes; it never returns as if all was written. "
    "The object is the same after a write, failed or not (time zones it refers to may be added as asked), and a later write gives exactly what it would have given.",
    ["fault_sequences", "crash_points", "histories", "inputs"],
    "All documents and edit histories; all bytes at which a write can fail, torn or not, for good or once; all exception types; all write entry points, filters and time zone options.",
    "Writers buffer, fold and swallow exceptions at several levels; no test writes to anything that can fail, and which byte fails decides what is lost.",
    ["src/pycalendar/componentbase.py", "src/pycalendar/property.py", "src/pycalendar/icalendar/calendar.py", "src/pycalendar/vcard/card.py", "src/pycalendar/outputfilter.py"],
    [["writers at component and property level", "ComponentBase.generate, Property.generateValue"], ["zones added while writing", "Calendar.includeMissingTimezones"],
     ["filters", "ComponentBase.generateFiltered, OutputFilter"]],
    ["bytes the stream took", "exceptions", "object content and later writes"],
    (900, 30000),
    "Seeded histories of 3 to 10 edits and writes of one document, through 6 entry points; faults: stream full from a byte on, one write refused, torn or not, five exception types. "
    "Every write is compared byte for byte with that of a twin object with the same history and no faults, retried in peace, and the object compared before and after.",
    "hash of (last four operations, object kind, fault kind and exception, size class of the output)",
    "seeded simulation of write faults against a fault-free twin, and of filters against a line-level model",
    "Search, not proof; values written on their own (value.generate) only ever reach memory buffers through the public writers and are not faulted.",
    stub=["output stream (simulated)"])

prop(
    "P13", "What is written is read again as the same thing, after any edits",
    "After any history of edits through the object model, the text and the JSON written for a calendar or card are accepted by the library's own readers and give back exactly its "
    "components, properties, parameters and values; writing that again gives the same text, and text, JSON and text again changes nothing. "
    "Objects are equal exactly when their content is, whatever way they came about and in whatever order it was given.",
    ["histories", "inputs"],
    "All edit histories (properties from text or values, parameters, values changed in place, sub-components), all interleavings with writing, reading back and going on with what was read.",
    "Tests round-trip fixed files once; whether a value built or changed in memory survives depends on its type, parameters and what was done before.",
    ["src/pycalendar/componentbase.py", "src/pycalendar/property.py", "src/pycalendar/parameter.py", "src/pycalendar/icalendar/property.py", "src/pycalendar/vcard/property.py",
     "src/pycalendar/containerbase.py"],
    [["text and JSON writers and readers", "Property.generateValue/parseText/parseJSON/generateValueJSON"], ["equality", "ComponentBase.__eq__, Property.__eq__, Parameter.__eq__"]],
    ["text and JSON written", "content read back", "==, !="],
    (900, 30000),
    "Seeded histories of 4 to 14 operations on one calendar or card: edits as for P05, text and JSON round trips, chains through both formats, replacing the object by what was read back, "
    "keeping snapshots to compare for equality later, writing in another order. Compared with a plain-data mirror edited alongside.",
    "hash of (last five operations, object kind, number of components, number of snapshots)",
    "seeded simulation of edit/write/read histories against a plain-data mirror",
    "Search, not proof; floating point spelling and the order of multi-valued rule parts are not part of content.",
    hook=None)

prop(
    "P06", "The time zone database survives its files",
    "What is known of a time zone is what its file in the database directory says or, when it has no usable file, what the first calendar that defined it said; and it stays that until the database "
    "is cleared, whatever other calendars define. "
    "A file that cannot be opened or read for the moment makes the zone unknown for that lookup only, a damaged or half-written one makes it unknown and never partly known, raises nothing, "
    "and leaves no file open; once faults are over and the database is cleared every zone is found. "
    "A zone is standard exactly when it came from the directory.",
    ["fault_sequences", "histories", "inputs"],
    "All interleavings of lookups (offset, name, component, standard or not, dates and events, writing), definitions merged from calendars, clears, files appearing, changing, vanishing or damaged, "
    "and failures at any byte of a file.",
    "Tests read healthy files; what is left in the caches after a failed or partial read shows only in later lookups.",
    ["src/pycalendar/timezonedb.py", "src/pycalendar/timezone.py", "src/pycalendar/icalendar/calendar.py"],
    [["positive and negative caches", "TimezoneDatabase._getTimezone"], ["reading a file", "TimezoneDatabase.cacheTimezone"], ["first definition wins", "TimezoneDatabase.mergeTimezone"]],
    ["TimezoneDatabase.getTimezone, isStandardTimezone, getTimezoneOffsetSeconds, getTimezoneDescriptor, getTimezoneInCalendar", "Calendar.getText"],
    (1200, 50000),
    "Seeded histories of 4 to 16 operations on a database of up to 5 zones in a scratch directory behind simulated open(): lookups of six kinds, merges, clears, files written, removed or damaged; "
    "faults: open fails (EMFILE, EIO, EACCES), read fails or ends early at any byte, twelve kinds of damage. Compared with a model of the caches that says which definition holds.",
    "hash of (last four operations with fault marks, state of each zone, kind of lookup)",
    "seeded simulation of lookup histories with file system faults against a state model of the database",
    "Search, not proof; what a damaged but readable file gives is only required not to raise and not to change later; stat() failures are not injected.",
    stub=["open() and reading of files (simulated over a real scratch directory)"],
    state=[["tzcache, stdtzcache, notstdtzcache, calendar", "zones known, standard, unknown", "TimezoneDatabase"]])

prop(
    "P07", "Time zone identifiers lead to no file outside the database",
    "Whatever a time zone identifier is, and whether it comes from a caller or from calendar data being read, resolved or written, looking it up opens no file outside the database "
    "directory and gives no zone found there. "
    "The zones inside are found, also those in subdirectories, however the directory itself was written (relative, with a trailing slash, with dots).",
    ["inputs", "histories", "fault_sequences"],
    "All identifiers: parents, absolute paths, siblings whose name begins like the database's, detours that leave and come back, other separators and encodings; all ways of asking; all ways of writing the directory.",
    "Tests look up well-formed names in one directory; what an identifier taken from received data can reach is a matter of every spelling and of what happens to lie next to the directory.",
    ["src/pycalendar/timezonedb.py"],
    [["containment", "TimezoneDatabase.cacheTimezone"]],
    ["files opened", "zones given"],
    (2500, 80000),
    "Seeded histories of 3 to 14 lookups through eight ways of asking, with clears and the database opened again by another spelling of its directory; a scratch directory holds seven zones inside and "
    "seven zones just outside that answer to whatever name would reach them; every open() goes through the simulator. Faults: open or read fails.",
    "hash of (last three outcomes, way of asking, identifier, spelling of the directory)",
    "seeded simulation of lookup histories over a recorded scratch file system with canary files outside",
    "Search over spellings, not proof; symbolic links inside the database are taken to be part of it.",
    stub=["open() and reading of files (simulated over a real scratch directory)"])

prop(
    "P08", "A calendar carries the time zones it needs, and no others",
    "Written with all time zones, or all that are not standard, a calendar carries exactly one definition of every known zone that a date-time, list or period anywhere in its components refers to "
    "(of the non-standard ones only), besides those it had; read elsewhere they give the same offsets. "
    "Writing without them adds nothing, writing again adds nothing more, and nothing else of the calendar changes. "
    "Stripping removes exactly the standard zones and says whether it did; a definition included in a calendar is its own and the database is not changed through it.",
    ["histories", "inputs"],
    "All histories of writing in every mode and format, stripping, adding and removing components, references and definitions, merging, clearing, duplicating and re-reading over several calendars.",
    "What is included depends on what the database came to know earlier and on where in the object a zone is referred to; tests write a few calendars with zones at the top.",
    ["src/pycalendar/icalendar/calendar.py", "src/pycalendar/icalendar/component.py", "src/pycalendar/timezonedb.py"],
    [["inclusion", "Calendar.includeMissingTimezones, Component.getTimezones"], ["stripping", "Calendar.stripStandardTimezones"], ["standard or not", "TimezoneDatabase.isStandardTimezone"]],
    ["text and JSON written", "VTIMEZONE components of the calendar", "offsets after reading it with an empty database"],
    (1500, 50000),
    "Seeded histories of 3 to 12 operations over up to 4 calendars and a database with a directory of two zones; references in ten kinds of places down to sub-sub-components; two definitions of each zone. "
    "After every operation the zones each calendar holds are compared with a model; everything written is read again with an empty database and its offsets compared. Fault: database cleared.",
    "hash of (last three operations, zones of each calendar, zones the database knows)",
    "seeded simulation of write/strip/edit histories against a set model of references and definitions",
    "Search, not proof.",
    stub=["open() and reading of files (simulated over a real scratch directory)"])

prop(
    "P12", "What is edited is what an object answers and what it writes",
    "After any history of edits of events, to-dos, journals, alarms, free-busy entries and calendars through their editing methods (or of properties changed directly, then finalised), every answer an "
    "object gives - times, status, summary, recurrence and its instances, trigger, action, busy time - is that of the object read back from the text it writes. "
    "Each editing method sets what it was told, replaces exactly the properties concerned, and changes neither other objects nor the values it was given. "
    "Excluding an instance, or the future, of a recurrence removes just those instances, whatever rules, dates and periods it consists of.",
    ["histories", "inputs"],
    "All histories of edits over several components and alarms, with values passed on from one object to another, copies and re-reading in between and a clock that jumps.",
    "Objects keep what properties say in a second place that every edit has to keep in step; tests edit nothing but a few properties.",
    ["src/pycalendar/icalendar/component.py", "src/pycalendar/icalendar/componentrecur.py", "src/pycalendar/icalendar/recurrenceset.py", "src/pycalendar/icalendar/recurrence.py",
     "src/pycalendar/icalendar/vevent.py", "src/pycalendar/icalendar/vtodo.py", "src/pycalendar/icalendar/valarm.py", "src/pycalendar/icalendar/vfreebusy.py", "src/pycalendar/icalendar/calendar.py"],
    [["editing", "editSummary, editTiming*, editRecurrenceSet, exclude*, editStatus, editTrigger*, editAction, editRepeats"], ["values taken from properties", "finalise"]],
    ["answers of every getter, live and read back", "properties before and after each edit", "instances over two years"],
    (800, 40000),
    "Seeded histories of 4 to 16 edits over a calendar with up to 3 components and their alarms; after each, the properties are compared with what the edit should leave, all other objects with what they were, "
    "and all answers with those of the object read back. Faults: clock jumps forwards and backwards.",
    "hash of (last three edits, kind edited, properties present)",
    "seeded simulation of edit histories against a property-set model and the object read back",
    "Search, not proof; overridden instances are edited only as part of P02 and P05.",
    stub=["time module as seen by DateTime (simulated clock)"],
    state=[["mSummary, mStart, mEnd, mStatus ...", "property set", "ComponentRecur, VEvent, VToDo, VAlarm, VFreeBusy"]])

prop(
    "P14", "What a calendar knows by UID is what it holds",
    "After any history of adding, moving, removing (one, by key, by type, all), copying, re-reading and changing UIDs - also to one in use - a calendar holds exactly the components it should, the very ones "
    "that were not removed, and the overridden instances it gives for a type and UID are those among them. "
    "Expansion leaves out the overridden instances of the same type and UID and no others; the master component is the first that is one. "
    "An instance derived from it has the recurrence id and start asked for, the length, content and alarms of the master and no recurrence, and leaves the master alone.",
    ["histories"],
    "All histories over up to four calendars that exchange components, with several types sharing a UID, masters and overrides arriving in any order and components that say the same.",
    "The bookkeeping is a second record of the components, kept by each operation for itself; tests look at it after parsing only.",
    ["src/pycalendar/icalendar/calendar.py", "src/pycalendar/icalendar/componentrecur.py", "src/pycalendar/componentbase.py", "src/pycalendar/icalendar/component.py"],
    [["bookkeeping", "Calendar.addComponent, removeComponent, changeUID"], ["queries", "getRecurrenceInstancesItems, getRecurrenceInstancesIds, masterComponent, getComponentByKey"], ["derivation", "Calendar.deriveComponent"]],
    ["components held", "overridden instances by type and UID", "instances expanded", "derived instances"],
    (2500, 100000),
    "Seeded histories of 3 to 16 operations over up to four calendars; components are read from text or made property by property; after each, every query of every calendar is compared with a scan of a model "
    "list and the instances with those computed from it. Faults: removal of components that are not there, UID changes into ones in use.",
    "hash of (last two operations, components of each calendar)",
    "seeded simulation of component histories against a plain list of components",
    "Search, not proof.",
    state=[["mComponents, mMasterComponentsByTypeAndUID, mOverriddenComponentsByUID", "list of components", "Calendar"]])

prop(
    "P04", "Date-times, durations and periods stay coherent under any edits",
    "After any history of setting and offsetting fields, moving by weekday, week or recurrence, zone changes and conversions, copies, re-parsing and arithmetic, a date-time has the fields, text, "
    "weekday, week and UTC instant its current fields and zone say - never those of an earlier value - and converting it to another zone keeps the instant (dates stay the date). "
    "Comparison operators agree with each other, order equal zones by wall clock and different ones by instant, and equal values hash equally; differences are elapsed seconds. "
    "Durations and periods likewise are what they were last set to, and a period's start, end and duration always fit together, in whatever form it holds them, also when its start is edited in place.",
    ["histories", "inputs", "configurations"],
    "All histories over up to six date-times (dates, floating, UTC, zoned, fixed offset), four durations and periods, with copies made and the default zone changing at any point.",
    "The instant and the offset are cached in the value and in the zone, and every one of some forty operations has to drop them; tests look at fresh values.",
    ["src/pycalendar/datetime.py", "src/pycalendar/period.py", "src/pycalendar/duration.py", "src/pycalendar/timezone.py", "src/pycalendar/utils.py", "src/pycalendar/icalendar/vtimezone.py"],
    [["cached instant and offset", "DateTime.getPosixTime, timeZoneSecondsOffset, changed"], ["normalisation", "DateTime.normalise"], ["conversion", "DateTime.adjustTimezone, adjustToUTC"],
     ["ordering", "DateTime.compareDateTime, Duration, Period"], ["period forms", "Period.getEnd, getDuration, setUseDuration, adjustToUTC"]],
    ["every getter and both texts of every value after every operation", "every pair of values with every comparison operator and their difference"],
    (4000, 150000),
    "Seeded histories of 3 to 18 operations on a pool of values that includes the ones inside periods; two generated zones; after each operation everything is compared with independent civil calendar "
    "arithmetic and with a value made afresh. Faults: the default zone of the process changes, the zone database is emptied and refilled.",
    "hash of (last two operations, kinds and zones of all values, default zone)",
    "seeded simulation of edit histories against civil-calendar arithmetic and freshly made values",
    "Search, not proof; not claimed: instants of wall clock times that do not exist, addition across a change of offset (it is done on the wall clock), conversion from and to floating, hashes across kinds.",
    state=[["mPosixTimeCached, mTZOffset", "instant and offset of the value", "DateTime"], ["sDefaultTimezone", "zone of floating times", "Timezone"]])

prop(
    "P20", "Busy time is that of the events and free-busy data held now",
    "The busy time a calendar gives for a period covers every moment of it that an event's instances or VFREEBUSY data with a span meeting the period take, with the type they say (tentative events "
    "are tentative, unknown types busy), and no other: nothing for cancelled, transparent and all-day events or FREE data, and instances that are overridden count as the override says. "
    "It is never that of components, statuses, transparency, timings or FREEBUSY properties since changed or removed; it does not depend on what was asked before, nor on what callers do to answers. "
    "Asking changes neither calendar nor period, only adds to the caller's list, and finds exactly the VFREEBUSY components whose span meets the period.",
    ["histories", "inputs"],
    "All histories of queries and edits on calendars of events (recurring, overridden, UTC, zoned, floating, all-day), VFREEBUSY components in every form and other components.",
    "Busy time is cached in each VFREEBUSY and instances in each event, and every edit has to drop them; there are no tests of it (and it could not be asked for before).",
    ["src/pycalendar/icalendar/vfreebusy.py", "src/pycalendar/icalendar/freebusy.py", "src/pycalendar/icalendar/calendar.py", "src/pycalendar/icalendar/componentrecur.py", "src/pycalendar/icalendar/vevent.py"],
    [["cached busy time", "VFreeBusy.cacheBusyTime, expandPeriodFB, expandPeriodComp"], ["collection", "Calendar.getFreeBusy, getVFreeBusyList"]],
    ["type and period of each entry of Calendar.getFreeBusy and VFreeBusy.expandPeriodFB", "components of Calendar.getVFreeBusyList", "text of the calendar before and after"],
    (2500, 100000),
    "Seeded histories of 3 to 14 operations on one calendar; after each, busy time is compared moment by moment with that of a model computed anew. Faults: callers overwrite the answers they were given.",
    "hash of (last two operations, query, number of components, of spans met and of entries)",
    "seeded simulation of edit and query histories against busy time computed anew from a model",
    "Search, not proof; not settled and either answer accepted: instances of a rule that started before the period, local instances across a change of offset. Overlapping entries need not be merged (a TODO of the library).",
    state=[["mBusyTime, mSpanPeriod, mCachedBusyTime", "busy time worked out", "VFreeBusy"]])

prop(
    "P16", "Now and today are what the clock says, in what is told and in what is written",
    "At every moment, however the clock moved before, now in UTC or a zone is that instant, today in UTC or a zone is the date it shows there (else the date where the process runs), and the "
    "table of a month marks that day. DTSTAMP, LAST-MODIFIED and the COMPLETED of a to-do are the UTC instant of the edit that set them, once each, COMPLETED going when the status changes. "
    "An instance is going on from its start until just before its end, and a to-do with a status is done, cancelled, overdue, due today or due later by the clock now, not by one seen earlier.",
    ["histories", "clocks"],
    "All clocks (moving on, standing still, jumping back or on to any instant, with fractions of a second), process time zones and edit histories of events and to-dos.",
    "Tests run at the time they run, in the zone of the machine, and cannot see a date that is wrong for some hours of a day in some zones.",
    ["src/pycalendar/datetime.py", "src/pycalendar/utils.py", "src/pycalendar/icalendar/component.py", "src/pycalendar/icalendar/componentrecur.py", "src/pycalendar/icalendar/vtodo.py", "src/pycalendar/icalendar/componentexpanded.py"],
    [["clock", "DateTime.getNowUTC, getNow, getToday, setNow, setToday"], ["stamps", "Component.initDTSTAMP, updateLastModified; VToDo.editStatus, editCompleted"],
     ["state by the clock", "VToDo.getCompletionState; ComponentExpanded.isNow"], ["month table", "utils.getMonthTable"]],
    ["values of now and today and of the table of a month", "properties written", "isNow of every instance and getCompletionState of every to-do after every operation"],
    (3000, 120000),
    "Seeded histories of 6 to 24 operations under a simulated clock that is aimed at starts, ends, midnights here and in zones, changes of offset, ends of years and leap days, give or take a second. "
    "Faults: the clock jumps back or on or stands still, the process moves to another zone, the calendar is written and read again.",
    "hash of (states of all components, last operation, hour, difference of the dates)",
    "seeded simulation under a simulated clock and process zone against a model of civil time",
    "Search, not proof; which of the process's and the due time's own zone settles what is due today is left open, as is now for floating times and a to-do without STATUS.",
    stub=["the time module of pycalendar.datetime (simulated clock and process zone)"])

prop(
    "P21", "An alarm goes off once for each of its times, none passed over, none repeated",
    "Whenever an alarm is asked for what comes next, it is the latest of its times (trigger and repetitions, by where its event is now) that has passed within a day and was not triggered, or else "
    "the next one ahead, and it is completed only if there is none. Once triggered, that time is recorded, nothing at or before it is triggered again even if the clock goes back, and it says what "
    "is next and whether there is more. This depends only on what the calendar says and the clock: it is the same asked before or not, and after being written and read again.",
    ["histories", "clocks", "crash points"],
    "All histories of polling, stalls, clock jumps, edits of alarms and of their events, copies, restarts and crashes losing what was not saved, for absolute and relative alarms with repetitions.",
    "The next time was cached and the record of the last one is only read back after a restart; there are no tests of alarms going off (and relative ones could not).",
    ["src/pycalendar/icalendar/valarm.py", "src/pycalendar/icalendar/component.py", "src/pycalendar/datetime.py"],
    [["next time", "VAlarm.getNextTrigger, initNextTrigger, getFirstTrigger"], ["record", "VAlarm.alarmTriggered, finalise, editStatus"], ["edits", "VAlarm.editTriggerOn, editTriggerBy, editRepeats"]],
    ["getNextTrigger and getAlarmStatus whenever asked", "answers of alarmTriggered", "times gone off over the whole run", "text of the calendar before and after asking"],
    (3000, 120000),
    "Seeded histories of 6 to 30 operations of a program that minds one to six alarms of events and to-dos, the clock aimed at their times give or take a second or a day. Faults: stalls of more than "
    "a day, the clock going back, the program stopped with what was not saved lost, restarts.",
    "hash of (last two operations, record, repetitions, times gone off, what was answered, how late)",
    "seeded simulation with crashes and clock faults against a model of the alarm's times",
    "Search, not proof; not claimed: alarms of floating and all-day events, of recurring ones, times across a change of offset.",
    stub=["the time module of pycalendar.datetime (simulated clock)"])

prop(
    "P15", "Validation reports exactly what is wrong, and what it fixes stays fixed",
    "Validating any component tree reports exactly the constraints its properties break - required, single, exclusive and joint properties, values, what METHOD and an alarm's ACTION ask for, "
    "matching types of start and UNTIL - one entry for each, and without fixing changes nothing. Fixing reports the same, told apart in what it fixed and could not; it changes only what it says it fixed, "
    "as text and as all answers of the component, which are those of the text read anew, and an UNTIL it converts still ends with the instance of that day. Fixing again finds nothing left to fix.",
    ["histories", "inputs"],
    "All trees of calendar components and cards with any mix of missing, repeated, conflicting and wrong properties, after any history of edits, copies, re-reading, and validation of parts and wholes.",
    "Tests validate one defect at a time in fresh objects, comparing the text; combinations, answers cached from before the fix, and repeated validation are not seen.",
    ["src/pycalendar/componentbase.py", "src/pycalendar/validation.py", "src/pycalendar/icalendar/componentrecur.py", "src/pycalendar/icalendar/vevent.py", "src/pycalendar/icalendar/vtodo.py",
     "src/pycalendar/icalendar/valarm.py", "src/pycalendar/icalendar/vtimezone.py", "src/pycalendar/icalendar/vavailability.py", "src/pycalendar/icalendar/available.py", "src/pycalendar/icalendar/validation.py", "src/pycalendar/vcard/card.py"],
    [["constraints", "ComponentBase.validate, check_cardinality_*, propertyCardinality_*"], ["values", "PropertyValueChecks"], ["fixes", "ComponentRecur.validate, check_cardinality_STATUS_Fix; VEvent.validate, VToDo.validate"]],
    ["both lists returned", "content of every component after every operation", "all answers of the components against those of the text read anew, after fixing"],
    (2500, 100000),
    "Seeded trees of one to about ten components with histories of 3 to 12 edits and validations, reports and content compared with an independent table of constraints. No faults apply: validation does no I/O.",
    "hash of (last two operations, what was validated, problems)",
    "seeded simulation of edit and validation histories against an independent table of constraints",
    "Search, not proof; not settled: UNTIL of events whose start the zone's clock skips; not claimed: wrong VERSION and CALSCALE, which reading refuses.")

prop(
    "P19", "A new UID is like no other, and chance decides nothing else",
    "Every UID the library makes up differs from every other it ever made up: in the same thread, in another thread, before or after a restart under the same process number, with the clock standing "
    "still or set back. It becomes the only UID of just the component it is for, there and as written and read again, and survives being asked for again as a new one. "
    "What is written of a calendar does not depend on random numbers: read, copied or written any number of times, the same calendar gives the same text.",
    ["schedules", "histories", "crash points"],
    "All interleavings of threads making components, process lifetimes, process numbers, clock readings and random sources that do not themselves repeat; all mixes of components with and without UID.",
    "No test makes a UID (it could not work); that two never meet is a matter of schedules, restarts and clocks, and order by chance looks right most of the time.",
    ["src/pycalendar/icalendar/component.py", "src/pycalendar/icalendar/componentrecur.py", "src/pycalendar/icalendar/vunknown.py", "src/pycalendar/stringutils.py", "src/pycalendar/componentbase.py"],
    [["making a UID", "Component.setUID, stringutils.md5digest"], ["order", "ComponentBase.sortedComponents, getSortKey, getMapKey"]],
    ["every UID made, over all processes and threads", "UID property of components as held, written and read again", "text of calendars under different random sources"],
    (2500, 100000),
    "Seeded lives of one to five processes of one to three threads each, preempted at any line of the library, and calendars of two to six components written under three random sources. Faults: "
    "restart with the same number, clock still or set back, process killed, preemption.",
    "hash of (process number, threads, UIDs made, clock, operations) of a process",
    "seeded simulation of threads, processes, clock and randomness over the real library",
    "Search, not proof; assumes a random source that does not repeat; threads share no component.",
    stub=["uuid.uuid4, os.getpid, the time module of icalendar.component (simulated)", "thread scheduling (one runs at a time, switching where the seed says)"])

prop(
    "P18", "A zone made from time zone source has the offsets the source says",
    "For every zone of a time zone source, at every instant of the years asked for, the expansion and the VTIMEZONE generated from it (as the library then reads it, from its first onset on) give the "
    "offset that the Zone and Rule lines define: segments, rules of any form of day and time, wall, standard and UTC times, 24:00, rules running on and ending, savings in force when a segment begins. "
    "The answer depends on the source and the question only, not on what was asked before, in which order, for which years, of which zones, or how the lines are spread over files.",
    ["inputs", "histories"],
    "All orderly sources (rule sets in eras, zones of up to five segments from local mean time on, changes of offset and rule at any date), layouts of files, ranges of years and sequences of questions.",
    "The tests make one VTIMEZONE of one zone for five years; errors show only in zones with unusual rules, at the seams of segments, or in the second question.",
    ["src/zonal/tzconvert.py", "src/zonal/zone.py", "src/zonal/rule.py", "src/zonal/utils.py", "src/pycalendar/icalendar/vtimezone.py"],
    [["reading", "tzconvert.parse, parseZone, parseRule; Zone.parse, Rule.parse"], ["changes", "Zone.expand, ZoneRule.expand, Rule.fullExpand, datetimeForYear, DateTime.getUTC"],
     ["generating", "Zone.vtimezone, Rule.vtimezone, getOnDayDetails, _compressRDateComponents"]],
    ["results of expandZone and vtimezones over the history", "offsets of the VTIMEZONE as read by the library, around every change and in between"],
    (1000, 40000),
    "Seeded sources of one to three rule sets and zones with two to eight questions each, every answer checked second by second about each change against an independent compiler of the source. "
    "No faults apply here (see P17 for those of files).",
    "hash of (kind of question, number of changes or observances, years, position in the history)",
    "seeded simulation of question histories against an independent compiler of time zone source",
    "Search, not proof; not claimed: names (TZNAME), days of a rule crossing the end of a month, negative savings, newer forms of source (Sun<=, times over 24:00).")

prop(
    "P17", "Files of zones are never seen in part, and a good run leaves the right ones",
    "While zone files are being generated into a directory, and after the process is killed or a file operation fails at any point, every zone file anybody finds there is complete: that zone of an earlier "
    "run or of this one. A run that ends without an error leaves exactly one file for each zone asked for and each link to one (also by way of other links, and aliases), with that zone's VTIMEZONE under "
    "its own or the link's name and nothing else changed, and the list of those links, whatever was in the directory before, however earlier runs ended and whatever the converter was used for.",
    ["crash points", "histories", "faults"],
    "All sequences of runs over any sources, ranges, filters, links and aliases into one directory, killed or failing at any file operation, with any part of the data written.",
    "No test generates files; what a kill, a full disk or a leftover does shows only at those points.",
    ["src/zonal/tzconvert.py", "src/zonal/zone.py"],
    [["files", "tzconvert.generateZoneinfoFiles"], ["links and aliases", "tzconvert.parseLink, parseWindowsAliases"]],
    ["all files of the directory at every file operation", "the directory, every byte, after every run", "whether the run ended with an error"],
    (1200, 50000),
    "Seeded sequences of two to six runs from one or two sources. Faults at a chosen file operation: process killed, with part of what was being written on disk; the operation failing (input/output, "
    "access); disk full from then on. Files and directories left over from others.",
    "hash of (how the run ended, fault and operation it hit, operations done, number of files)",
    "seeded simulation of the file system with kills and errors at any operation",
    "Search, not proof; a kill of the process, not of the machine (data written before stays written); the content of each zone's VTIMEZONE is P18's matter.",
    stub=["open, os.remove, rmdir, makedirs, mkdir, rename within the directory (real files with faults)", "standard output", "ElementTree (no XML parser in this interpreter)"])

prop(
    "P22", "Damaged data is refused, or becomes a whole object; reading always ends",
    "Whatever has happened to the bytes of a calendar or card, or to the tree of its JSON, reading it ends: refused with one of the errors meant for it (or with nothing), or accepted as an object "
    "that can be written, as text and JSON, read again as the same content and text, duplicated, validated, expanded and asked for offsets and busy time, which all end without an internal error. "
    "Nothing of it stays behind: sound data reads, writes and expands after it as before.",
    ["faults", "inputs", "histories"],
    "All calendars and cards, all sequences of damage to them (bits, bytes, runs of bytes, lines, ends cut off, members of JSON), all ways of reading.",
    "The tests damage a handful of lines by hand; what media, transfers and other programs do to data has no end, and most damage is harmless.",
    ["src/pycalendar/property.py", "src/pycalendar/componentbase.py", "src/pycalendar/containerbase.py", "src/pycalendar/icalendar/calendar.py", "src/pycalendar/vcard/card.py",
     "src/pycalendar/datetime.py", "src/pycalendar/utils.py", "src/pycalendar/icalendar/recurrence.py", "src/pycalendar/icalendar/vtimezoneelement.py"],
    [["reading text", "Calendar.parse, parseComponent, Card.parse, PropertyBase.parse"], ["reading JSON", "ContainerBase.parseJSONData, ComponentBase.parseJSON, PropertyBase.parseJSON, parseJSONValue of the values"],
     ["values", "parse of DateTime, Duration, Period, Recurrence, UTC offsets, structured values"]],
    ["error or object of every read", "text, JSON, duplicate, validation, expansion, offsets and busy time of what was accepted", "a sound calendar and card read and expanded after each", "time taken (a run that does not end is reported)"],
    (1200, 60000),
    "Seeded documents, each damaged four to nine times in different ways and read by four entry points. Faults: damage to text (bit flips, bytes lost, doubled, zeroed, overwritten, cut off, changed "
    "digits, foreign pieces, lines lost, doubled, swapped) and to JSON (members lost, doubled, swapped, of another type, other names).",
    "hash of (format, entry point, outcome, kinds of damage)",
    "seeded simulation of damage to stored data against invariants of reading, writing and use",
    "Search, not proof; what an accepted document ought to say is not judged; refusing is allowed for any damage; text that is not UTF-8 may not be writable as JSON; a bare CR counts as a line end.")

prop(
    "P23", "What is written as XML, or through a filter, is what the calendar holds",
    "Whatever edits came before, the XML of a calendar is well-formed and says, element by element, what the calendar holds: every property with its parameters and values, of the right types, and "
    "every component, nothing else, nothing altered. XML and JSON written through a filter are exactly those components, properties and values of the whole that the filter lets pass, "
    "and writing either leaves the calendar as it was.",
    ["inputs", "histories"],
    "All calendars of any properties, values and components, all sequences of edits, copies and writes, all filters.",
    "The one test of XML writes one calendar of text, dates and a bare rule, and nothing tests filters: durations, periods, places, statuses and anything not ASCII never met either.",
    ["src/pycalendar/icalendar/calendar.py", "src/pycalendar/componentbase.py", "src/pycalendar/property.py", "src/pycalendar/xmlutils.py", "src/pycalendar/valueutils.py", "src/pycalendar/outputfilter.py",
     "src/pycalendar/parameter.py", "src/pycalendar/icalendar/recurrence.py"],
    [["XML", "Calendar.getTextXML, writeXML of components, properties, parameters and values, xmlutils.toString"], ["filters", "OutputFilter, writeXMLFiltered, writeJSONFiltered"]],
    ["the XML as an independent parser reads it", "XML and JSON through filters", "text and JSON before and after"],
    (1000, 40000),
    "Seeded calendars (with zones) under three to ten edits and writes, the XML read back by the Java platform's parser and compared with the model the edits were applied to. No faults apply (XML is "
    "made as a string; for failing streams see P11).",
    "hash of (last four operations, format, components, properties)",
    "seeded simulation of edit and write histories against an independent model",
    "Search, not proof; not claimed: value types of parameters (all are written as text), control characters (XML has none), <until> as text or typed, cards (which have no XML).")
