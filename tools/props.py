SETUP = "/opt/venv/bin/python -c 'import sys; sys.path.insert(0, \"/repo\"); import mt_metadata'"
NOTES = (
    "All checks run the real code from /repo's working tree (no build step: the package is pure "
    "Python and imported from source). Recorded genuine findings and repaired defects: "
    "known_findings.json."
)
PROPS = []
MC = "bounded exhaustive exploration of operation histories on the real code against a reference model"
LN = (
    "Exhaustive inside the stated bounds; every explored history is executed on the real "
    "implementation and compared step by step with the reference, so there is no model/code gap. "
    "Nothing is claimed beyond the bounds recorded in the evidence file. "
)


def P(id, title, statement, over, text, why, files, mech, technique=MC, note="", na=None,
      state=None, observe=None, level="model_checking"):
    anchors = {
        "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe or ["public API results"],
        "hook_needed": None,
    }
    if state:
        anchors["state"] = [{"name": n, "meaning": m} for n, m in state]
    PROPS.append(
        dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
             why_tests_cant=why, anchors=anchors, technique=technique, level_note=LN + note,
             na=na, level=level)
    )


import os as _os


class _T(str):
    pass


TODO = _T("check not built yet")
B = "mt_metadata/"

P("M01", "The keyed list is a consistent ordered mapping under every history",
  "The container that holds surveys, stations, runs, channels and levels behaves after any sequence of operations as one insertion-ordered mapping: keys, values, items, iteration, length, access by key and access by position all describe the same content. "
  "Removing or popping takes out exactly the named entry, assigning or appending an entry with a known key replaces only that entry and keeps its position, appending an item without identity never replaces another one, and sorting, slicing, copying and comparing neither lose nor invent entries. "
  "A copy shares nothing with its original.",
  ["histories"], "every history of up to 3 (quick) / 5 (thorough) operations over a complete alphabet, from an empty and a filled container",
  "tests call each method once on a fresh container; wrong-victim removal, key collisions and stale order only show after particular sequences",
  [B + "common/list_dict.py"], [("keyed list operations", "common/list_dict.py: ListDict methods")])

P("M02", "Metadata survives every serialisation format unchanged",
  "For the archive metadata objects of surveys, stations, runs, channels, filters, processing configurations, transfer functions and their building blocks: writing any valid content to a dictionary (flat or nested), JSON text, a JSON file, XML or a pandas series and loading it into a new object of the same type gives back an equal object with the same value in every field. "
  "Writing twice gives the same text, and neither writing nor loading changes the object, dictionary, or XML element it works from.",
  ["inputs"], "every class in scope x every field x every value of a per-type value lattice (boundary, unicode, escape, null-like, extreme numbers), and every pair of a field subset, through every format, plus chains of formats",
  "tests round-trip a few hand-made objects; a field that is dropped, renamed, re-typed or defaulted only for particular values or only in one format is not seen",
  [B + "base/metadata.py", B + "base/helpers.py"],
  [("to/from dict, json, xml, series", "base/metadata.py: MetadataBase"), ("nesting and xml conversion", "base/helpers.py")], na=TODO)

P("M03", "Equality is an equivalence on content and copies are independent",
  "Two metadata objects of one type compare equal exactly when all their compared fields hold equal values, whichever side is asked first; every object equals itself and its copy, and differs from an object in which one field was given a different value. "
  "Comparing never changes either object. Time stamps of processing and creation and the children of a container do not take part in a comparison. "
  "Changing any field of a copy, at any nesting depth, never changes the original, and the reverse.",
  ["inputs", "histories"], "every class in scope x every leaf field x every ordered pair of lattice values, and every single-field mutation of either side after a copy",
  "tests compare a couple of objects; asymmetry or aliasing shows only for particular nested fields",
  [B + "base/metadata.py"], [("__eq__", "base/metadata.py"), ("copy/deepcopy", "base/metadata.py")], na=TODO)

P("M04", "Field access by dotted name and updates are exact and atomic",
  "Every field reported by an object can be read and written by its dotted name, a read returns what the write stored, and writing one field leaves every other field as it was. "
  "A write that is rejected as invalid raises and leaves the whole object as it was. "
  "Updating an object from another takes over exactly the other's non-empty fields and keeps the rest.",
  ["histories", "inputs"], "every class in scope x every leaf field x every valid and invalid lattice value; all pairs of updates",
  "tests touch a few names; cross-field interference appears only for particular field combinations",
  [B + "base/metadata.py", B + "base/helpers.py", B + "utils/validators.py"],
  [("get/set by name", "base/metadata.py"), ("assignment validation", "base/metadata.py, utils/validators.py")], na=TODO)

P("M05", "Times parse, print, compare and hash consistently",
  "Every supported way of writing one instant (ISO text with or without zone, date only, epoch seconds or nanoseconds, datetime, numpy and pandas values, GPS flag off) produces the same time, always in UTC, and printing a time and parsing it back gives the same time to the nanosecond (a time given in epoch seconds to its floating point precision). "
  "Times are totally ordered by instant, comparisons agree with each other and with hashing and with comparisons against any of the accepted raw forms. "
  "Null-like inputs give the documented default and out-of-range values are clamped to the documented limits.",
  ["inputs"], "all instants of a calendar lattice (epoch, leap days, year ends, sub-second digits 1..9, range limits) x all representations x all ordered pairs",
  "tests compare a handful of dates; ordering and hash agreement quantify over pairs of representations",
  [B + "common/mttime.py"], [("parse, compare, hash", "common/mttime.py: MTime, MDate")], na=TODO)

P("M06", "Time arithmetic and GPS conversion are exact",
  "Adding a duration and subtracting it again returns the original time, the difference of two times is the number of seconds between them, and setting a calendar part changes only that part. "
  "A GPS time is converted to UTC with the number of leap seconds in force at that date, for every date the table covers including its boundaries.",
  ["inputs"], "all lattice instants x all lattice durations in every accepted type; every day around every leap second since 1980",
  "tests check one leap second and one addition",
  [B + "common/mttime.py"], [("arithmetic", "common/mttime.py"), ("leap second table", "common/mttime.py: calculate_leap_seconds")], na=TODO)

P("M07", "A run's channel list, recorded lists, time span and rate stay consistent",
  "After any sequence of adding, re-adding, replacing, removing and editing channels, a run's recorded-channel lists name exactly the channels it holds, split by kind, lookup by component finds each of them and nothing else, and counts agree. "
  "Adding a component that is already present updates that channel without touching the others. "
  "After a refresh the run's time span covers every dated channel, and a channel that was removed is gone from every view.",
  ["histories"], "every history of up to 3 (quick) / 4 (thorough) container operations",
  "tests build one run; the views diverge only after particular sequences",
  [B + "timeseries/run.py", B + "common/list_dict.py"], [("channel container", "timeseries/run.py: Run")], na=TODO)

P("M08", "A station's run list, time span and lookups stay consistent",
  "After any sequence of adding, re-adding, merging, removing and sorting runs, a station's run names, lookups and counts describe exactly the runs it holds, and re-adding a run updates it without duplicating it. "
  "Its time span covers every dated run after a refresh. Merging two stations yields the union of their runs.",
  ["histories"], "every history of up to 3 (quick) / 4 (thorough) container operations, for time-series and transfer-function stations",
  "tests build one station; the views diverge only after particular sequences",
  [B + "timeseries/station.py", B + "transfer_functions/tf/station.py"], [("run container", "timeseries/station.py: Station")], na=TODO)

P("M09", "Surveys and experiments keep stations, extents and times consistent",
  "After any sequence of adding, merging and removing surveys, stations and filters, names, lookups and counts describe exactly the contents. Merging never drops a survey or station name of either side (a same-named entry is taken from the other), and re-adding a known survey or station updates it and adds the new one's children. "
  "After a refresh the bounding box is the smallest box with correct corners that contains every located station, and the time span covers every dated station.",
  ["histories"], "every history of up to 3 (quick) / 4 (thorough) container operations over stations in all four hemispheres",
  "tests build one survey in one hemisphere",
  [B + "timeseries/survey.py", B + "timeseries/experiment.py"],
  [("station container, bounding box", "timeseries/survey.py: Survey"), ("survey container", "timeseries/experiment.py: Experiment")], na=TODO)

P("M10", "A whole experiment survives dictionary, JSON and XML round trips",
  "Writing an experiment (surveys, stations, runs, channels, filters) to a dictionary, JSON text or file, or XML file and reading it into a new experiment reproduces the same tree: the same surveys, stations, runs, channels and filters, in the same membership, with equal metadata and equal filter parameters. "
  "Writing does not change the experiment.",
  ["configurations"], "every tree shape up to 2 surveys x 2 stations x 2 runs x 2 channels incl. empty levels, every filter kind and every combination of up to 2 filter kinds, through every format",
  "tests read a few fixed files; single-child and empty-level shapes take different paths",
  [B + "timeseries/experiment.py", B + "timeseries/survey.py", B + "base/helpers.py"],
  [("experiment (de)serialisation", "timeseries/experiment.py")], na=TODO)

P("M11", "The list of filters applied to a channel stays ordered and complete",
  "After any sequence of adding, removing and replacing applied filters, the channel lists each filter once, in stage order with stages numbered from one without gaps after a removal, and keeps each filter's applied state; lookup by name finds exactly the listed filters. "
  "Legacy descriptions of the same filters load to the same list.",
  ["histories"], "every history of up to 4 operations over 3 filter names",
  "tests add one or two filters in order",
  [B + "timeseries/channel.py", B + "timeseries/filtered.py"], [("applied filters", "timeseries/channel.py: ChannelBase")], na=TODO)

P("M12", "Every filter's complex response equals its defining formula",
  "For every pole-zero, coefficient, time-delay, frequency-table and FIR filter, the complex response at any frequency equals the textbook value computed from its stored parameters, and gains, delays and normalisation enter exactly once (a stage without poles, zeros or coefficients counts as its gain). "
  "Converting a filter to its StationXML stage form and back gives a filter with the same response, name, units and kind.",
  ["inputs"], "a complete parameter grid for each filter kind x a frequency grid, compared with an independent evaluation",
  "tests check a few fixed filters",
  [B + "timeseries/filters/filter_base.py", B + "timeseries/filters/pole_zero_filter.py", B + "timeseries/filters/coefficient_filter.py", B + "timeseries/filters/time_delay_filter.py", B + "timeseries/filters/frequency_response_table_filter.py", B + "timeseries/filters/fir_filter.py", B + "timeseries/filters/obspy_stages.py"],
  [("complex_response", "timeseries/filters/*.py"), ("stage conversion", "timeseries/filters/*.py to_obspy, obspy_stages.py")], na=TODO)

P("M13", "A channel response is the product of its stages",
  "The total response of a list of filters equals the product of the individual responses for every order and selection of stages, with delays and decimation stages included only on request; total delay is the sum of the stage delays. "
  "A list whose physical units do not chain is refused, a list that chains is accepted, and its input and output units are those of the first and last stage.",
  ["inputs", "configurations"], "all filter lists of length up to 3 (quick) / 4 (thorough) over a filter alphabet of all kinds, x all selection flags",
  "tests use one or two fixed chains",
  [B + "timeseries/filters/channel_response.py"], [("combination", "timeseries/filters/channel_response.py")], na=TODO)

P("M14", "Units are recognised by name and symbol and normalised stably",
  "Every known unit is found by its name and by its symbol and both give the same unit; compound units made of known units with the supported separators give the combination of the parts. "
  "Normalising an already normalised unit changes nothing, and unknown units are reported as unknown or refused, never mapped to a different known unit.",
  ["inputs"], "all table entries in all spellings, all pairs and triples with all separators",
  "tests sample a few units",
  [B + "common/units.py", B + "utils/validators.py"], [("unit lookup", "common/units.py")], na=TODO)

P("M15", "FDSN channel codes encode rate, kind and direction consistently",
  "Every sample rate inside a tabulated band gets the letter of the band whose range contains it, every channel kind its instrument letter, and every azimuth the direction letter of its sector, independent of adding whole turns. "
  "Reading a generated code back gives a range that contains the rate, the same kind and direction, and the same component name.",
  ["inputs"], "all codes, all kinds, every integer azimuth of three turns plus sector boundaries, all band edges and neighbours",
  "tests check a few codes",
  [B + "timeseries/stationxml/fdsn_tools.py"], [("channel codes", "timeseries/stationxml/fdsn_tools.py")], na=TODO)

P("M16", "Experiments survive conversion to StationXML and back",
  "Converting an experiment to StationXML and back keeps every survey, station, run and channel, with the same times, sample rate, location, orientation, instruments and filters with equal responses. "
  "Run membership is kept: each channel comes back in exactly the runs it was in. (Stations with upper-case codes, channels that span their run, electrodes of one maker; names of decimating filters may get their rate appended.)",
  ["configurations"], "all run/channel membership patterns up to 3 runs x 3 channels with equal or different channel metadata, all filter kinds",
  "tests convert a few fixed files one way",
  [B + "timeseries/stationxml/xml_inventory_mt_experiment.py", B + "timeseries/stationxml/xml_channel_mt_channel.py", B + "timeseries/stationxml/xml_station_mt_station.py", B + "timeseries/stationxml/xml_network_mt_survey.py"],
  [("translation", "timeseries/stationxml/*.py")], na=TODO)

P("M17", "A transfer function stores exactly what was set",
  "Under any order of setting impedance, tipper, errors, covariances, periods or frequency, each quantity reads back exactly as last set on the right components, setting one never alters another one (except errors derived from covariances), the presence queries say which quantities hold data, and data of a wrong shape or kind is refused leaving the object as it was. "
  "When both covariances are set, errors equal the square root of the product of their diagonals.",
  ["histories"], "every history of up to 3 setter operations for 1 to 3 periods and several channel namings",
  "tests set each quantity once in a fixed order",
  [B + "transfer_functions/core.py"], [("data setters", "transfer_functions/core.py: TF")], na=TODO)

P("M18", "Merging transfer functions keeps exactly the selected periods",
  "Merging transfer functions with period limits gives, for every period selected from any input, the data of that input at that period, ordered by period and nothing else (a period selected from several inputs appears once for each), and leaves the inputs unchanged unless in-place merging was asked for. "
  "Metadata stays that of the receiver.",
  ["inputs", "configurations"], "all pairs and triples of disjoint period sets over a 4 period lattice in every order, all limits on and between periods",
  "tests merge one pair",
  [B + "transfer_functions/core.py"], [("merge", "transfer_functions/core.py: TF.merge")], na=TODO)

P("M19", "EDI files reproduce the transfer function and site",
  "Writing a transfer function to an EDI file and reading it back gives the same periods, impedance, tipper and errors at the file's precision, and the same station name, location and elevation; reading and writing again changes nothing. "
  "This holds for any number of periods, ascending or descending, with or without tipper, in degrees-minutes-seconds or decimal degrees. A file that gives apparent resistivity and phase instead yields the impedance with that magnitude and phase (a yx phase in the first quadrant means the opposite one).",
  ["inputs", "configurations"], "period counts around the line-block length x orders x present quantities x position formats x values lattice",
  "tests read fixed files and check few numbers",
  [B + "transfer_functions/io/edi/edi.py", B + "transfer_functions/core.py"], [("read/write", "transfer_functions/io/edi")], na=TODO)

P("M20", "EMTF XML files reproduce the transfer function and site",
  "Writing a transfer function to an EMTF XML file and reading it back gives the same periods, impedance, tipper, errors and covariances at the file's precision, and the same site identification, survey, location and elevation, for one or many periods and any set of estimates; an entry without a value is zero or the marker of the format, 1e32. Of the residual covariance the file keeps the electric block and the variance of hz; the survey name in the file is the geographic name where there is one, otherwise the id. "
  "Reading and writing again changes nothing.",
  ["inputs", "configurations"], "period counts x present quantities x value lattice",
  "tests read fixed files",
  [B + "transfer_functions/io/emtfxml/emtfxml.py", B + "transfer_functions/io/emtfxml/metadata/data.py"], [("read/write", "transfer_functions/io/emtfxml")], na=TODO)

P("M21", "EMTF Z-files reproduce the transfer function",
  "Writing a transfer function to a Z-file and reading it back gives the same periods, impedance, tipper, covariances and the errors that follow from the covariances at the file's precision, with and without tipper or impedance and for any names of the channels. "
  "Files with turned channels are read as they are or rotated according to the azimuths (fields are the sums of the components along the channels' axes, covariances rotate alike, declination is added on request), and writing the result and reading it again gives the same transfer function, block information included.",
  ["inputs", "configurations"], "period counts x channel sets x value lattice x azimuths",
  "tests read fixed files",
  [B + "transfer_functions/io/zfiles/zmm.py"], [("read/write", "transfer_functions/io/zfiles/zmm.py")], na=TODO)

P("M22", "Spectra in EDI files are converted to the least-squares transfer function",
  "When an EDI file holds cross spectra, the impedance and tipper computed from it are the least-squares (or remote-reference) estimates defined by those spectra, for every supported channel set; spectra built from a known transfer function without noise give back that transfer function. Errors are those of the residual variance and the inverse signal power, and the result can be written and read again.",
  ["inputs", "configurations"], "all supported channel sets x a lattice of transfer functions and source spectra",
  "tests read one fixed spectra file",
  [B + "transfer_functions/io/edi/edi.py"], [("spectra conversion", "transfer_functions/io/edi/edi.py")], na=TODO)

P("M23", "Frequency bands select exactly the frequencies inside them",
  "A band's harmonic indices are exactly the frequencies inside its limits respecting its open and closed ends, containment and overlap tests agree with interval arithmetic (a band contains another when both limits of the other lie inside it), and centres and widths match their definitions. "
  "A collection of bands keeps them as given, iterates them in the requested direction and reports its edges consistently.",
  ["inputs", "histories"], "all band limits on and between the points of a frequency grid x all end conventions x all pairs; all collections up to 3 bands",
  "tests use a few bands",
  [B + "common/band.py", B + "processing/aurora/frequency_bands.py"], [("bands", "common/band.py, processing/aurora/frequency_bands.py")], na=TODO)

P("M24", "Processing configurations keep levels, bands and windows consistent",
  "Building a processing configuration level by level, from a list, dictionary or single level, or from band edges keeps each level exactly once, retrievable by its number (an absent number raises KeyError), with its own channels, bands, factor and sample rate (the rate of the data divided by the factors of all levels down to it); a band made from its edges holds the harmonics from its lower edge on and below its upper edge; band tables, edges, bounds and harmonics follow the bands; settings for all levels reach every level and edits of one level no other; saving and loading (dictionary, JSON, XML) and copying reproduce the configuration. "
  "Archived-spectra settings are accepted exactly when they hold the channels and harmonics needed and the compared settings agree, in particular the settings made from the level itself. "
  "A window's taper, harmonics and advance are those of its current settings after any sequence of changes.",
  ["histories", "configurations"], "every history of level operations up to the bound; all single and paired setting differences; all factor and window series",
  "tests build one fixed configuration",
  [B + "processing/aurora/processing.py", B + "processing/aurora/decimation_level.py", B + "processing/window.py", B + "processing/aurora/channel_nomenclature.py"], [("configuration", "processing/aurora")])

P("M25", "Fourier-coefficient levels and channels stay consistent",
  "After any sequence of adding, re-adding, updating, renaming, assigning and removing decimation levels and channels, name lists (as of the next assignment to the level), lookups, indices, counts and contents agree, sources are left unchanged, copies are independent, and the time span covers every dated child (a child may be dated on one side only). "
  "A series of levels has consecutive numbers, the rate of the data divided by the factors down to each level, and separate levels. A time series is long enough exactly when the required number (one or more) of windows fits into it, and a level's frequencies are the multiples of its rate over its window length below Nyquist.",
  ["histories"], "every history of channel and level operations up to the bound; all factor series; all window/overlap/length combinations up to the bound",
  "tests add one level",
  [B + "processing/fourier_coefficients/fc.py", B + "processing/fourier_coefficients/decimation.py"], [("containers", "processing/fourier_coefficients")])

P("M26", "Weight kernels are monotone between zero and one",
  "Every weighting kernel returns weights between zero and one that are constant outside its bounds (its floor on the rejected side, its ceiling on the accepted side), and monotone between its bounds in the direction asked for; a composite kernel is the product of its parts that are active. The weight of a channel is the combination (product, mean, minimum or maximum) asked for of its features' weights, and the right weights are found for a band.",
  ["inputs"], "all kernel styles x directions x bounds lattice x value lattice incl. the bounds themselves",
  "tests check a few values",
  [B + "features/weights"], [("evaluate", "features/weights/*.py")], na=TODO)

P("M27", "Geographic positions convert exactly and reject impossible values",
  "A position written in degrees, minutes and seconds and parsed again is the same position, for both signs including positions within one degree of zero, and latitude and longitude outside their ranges are refused while every value inside is kept exactly.",
  ["inputs"], "every arc minute of the globe with second lattice around roll-overs, range limits and neighbours",
  "tests check a few positions",
  [B + "utils/location_helpers.py", B + "common/location.py"], [("conversion", "utils/location_helpers.py")], na=TODO)

P("M28", "Processing station tables round trip",
  "The table form of the stations, runs and time windows to process converts to objects and back without losing, merging or reordering windows, channels or scale factors of any station; loading a table replaces earlier content, and times with and without fractional seconds mix.",
  ["configurations"], "all tables up to 3 stations x 2 runs x 2 windows",
  "tests use one table",
  [B + "processing/aurora/station.py", B + "processing/aurora/stations.py", B + "processing/aurora/run.py"], [("table conversion", "processing/aurora/station(s).py")], na=TODO)

P("M29", "Survey, station and run of a transfer function stay one tree",
  "After any sequence of naming the station, survey or transfer function, setting its location, handing over run, station or survey metadata (as objects or dictionaries), taking over a time series station and copying, the metadata read back is what was handed over: other values stay, every part is held under its own id, the placeholders with id 0 give way to real stations and runs, there is always a run with channels, the current run is kept when a station is handed over and other runs are kept when a run is handed over. The attributes of the data set follow. "
  "Metadata operations never change impedance, tipper or periods; wrong types are refused with TypeError and None changes nothing. A copy equals its source, and is independent of it.",
  ["histories"], "every history of metadata operations up to the bound",
  "tests set one level at a time",
  [B + "transfer_functions/core.py", B + "transfer_functions/tf/station.py"], [("metadata setters", "transfer_functions/core.py")], na=TODO)

P("M30", "BIRRP J-files are read faithfully",
  "Every impedance and tipper component of a J-file has, at every period, the real part, imaginary part and error written in the file for that component and period; masked (-999), missing and unreadable numbers are zero and an infinite error is 1e6. Components may come in any order and subset, each with its own rows, and a masked row adds no period. Station name, location, sample rate and recorded channels of the transfer function follow from the file; reading leaves the file as it is.",
  ["inputs"], "every pattern of rows in one component over 3 periods; every subset and order of components; headers",
  "tests read one file",
  [B + "transfer_functions/io/jfiles/jfile.py", B + "transfer_functions/io/jfiles/metadata/header.py", B + "transfer_functions/core.py"], [("read", "transfer_functions/io/jfiles/jfile.py")], na=TODO)

P("M31", "Zonge AVG files are read faithfully and survive rewriting",
  "Every impedance and tipper component of an AVG file has, at every frequency, the complex value given by the magnitude and the phase in milliradians in the file, its impedance error follows from the relative error of the apparent resistivity, cells without a row are zero, and z positive up exchanges the axes and the sign of the tipper. Station, location, channel azimuths, dipole lengths and sensors follow from the headers. A file that was read and is written again reads back the same, and written impedance arrays read back within the precision of the file.",
  ["inputs", "configurations"], "every pattern of rows in one component over 3 frequencies; every subset and order of components; both header styles; both directions of z",
  "tests read three files",
  [B + "transfer_functions/io/zonge/zonge.py", B + "transfer_functions/io/zonge/metadata/header.py", B + "transfer_functions/core.py"], [("read and write", "transfer_functions/io/zonge/zonge.py")], na=TODO)

P("M32", "EMTF XML files keep survey, site, run and channel metadata",
  "What a transfer function says about its survey (project, country, summary, name, citation), its site (place, declination, orientation, people, archive, fdsn id), its processing (sign convention, who, when, software, type, runs, remote references, data quality), its runs (identifier, logger, rate, times, comments in the form the reader gives) and its channels (sensors, electrodes, positions, lengths, azimuths) is what is read from its EMTF XML file, and again after writing what was read; nothing is attached to another run or channel, and every run is kept; what its processing parameters say about the remote site, the run there, its dipoles and its magnetometers is kept as well. The channels of a run are those it had and those the estimates need. "
  "A file that lacks an optional element is read, and lacks only what that element says.",
  ["inputs", "configurations"], "every pair of fields; every shape of one and two runs; every pair of optional elements of a section removed",
  "tests compare a few files",
  [B + "transfer_functions/io/emtfxml/emtfxml.py", B + "transfer_functions/io/emtfxml/metadata", B + "transfer_functions/core.py"], [("metadata", "transfer_functions/io/emtfxml/emtfxml.py")], na=TODO)

P("M33", "EDI files keep survey, station and channel metadata",
  "What a transfer function with one run says about its survey (project, country, summary, name, citation), its station (place, declination, people, provenance), its processing (sign convention, who, software, type, remote references, data quality, parameters, whether named with dots, several equal signs or none) and its channels (sensor, electrodes, horizontal positions to the precision of the file, dipole lengths, magnetic azimuths) is what is read from its EDI file, for both latitude formats, and again after writing what was read; nothing is attached to another channel, and only values with angle brackets are outside of this. The keys other writers use in the information section (site name, run list, remote site, sensor numbers, dipole lengths, contact resistances, operator, software, project, year; any case, with : or =) and those of the header set the field they name and no other.",
  ["inputs", "configurations"], "every pair of fields; every set of channels of a run; every ordered pair of information lines and pair of header lines",
  "tests compare a few files",
  [B + "transfer_functions/io/edi/edi.py", B + "transfer_functions/io/edi/metadata", B + "transfer_functions/core.py"], [("metadata", "transfer_functions/io/edi/edi.py")], na=TODO)

P("M34", "A folder of metadata XML files becomes the experiment it describes",
  "Reading a folder with one XML file per survey, station, run and channel and one of filters gives an experiment with exactly the stations asked for (all of them, one, or a list, in that order), each with the runs and channels of its own files and no others: every channel keeps its metadata, its place (that of its station when it has none), its filters in order with their applied flags, and the dipole filter of an electric channel has the gain of its own dipole length; the survey holds the filters of the folder plus those dipoles; the response of a channel is the product of its filters; the files are not changed.",
  ["inputs", "configurations"], "every set of channels per run and pair of runs and stations",
  "no test",
  [B + "timeseries/tools/from_many_mt_files.py"], [("make_experiment", "timeseries/tools/from_many_mt_files.py")], na=TODO)

P("M35", "Coherence features belong to the right stations and measure coherence",
  "A coherence feature assigns each channel of its pair to a station: the one given when it is the local or the remote station, else the remote station for channels that start with r and the local one for others, and validating again changes nothing. Coherence of Fourier coefficients is the squared cross power over the product of the auto powers (zero where a power is zero), frequency by frequency, symmetric, independent of scale and of the order of windows; coherence of two series is Welch's estimate with the window, overlap, parameters and detrending of the feature; a striding coherence is that estimate in every window the advance reaches, missing samples as zeros, alone or in parallel; tapers and harmonics follow the window settings at any time; inputs are not changed.",
  ["inputs", "configurations"], "every matrix of coefficients over five values; every pair of channels and stations; every window type",
  "tests take random series and check ranges",
  [B + "features/coherence.py", B + "features/fc_coherence.py", B + "features/striding_window_coherence.py", B + "processing/window.py"], [("compute", "features/fc_coherence.py"), ("validate_station_ids", "features/coherence.py")], na=TODO)

P("M36", "Field descriptions are those of the class whatever was cached",
  "The fields of a class that the library knows (names, type, default, required, units, description, options), on which writing metadata depends, are those of its definition: in every process, after any other version of the library or any other process has filled the cache folder, after a crash or a failed file operation at any point of writing it, with truncated or zeroed cache files, while another process or thread asks at the same time, after an interrupt, with a cache folder that cannot be used, and for classes that were extended by a field and share their name; asking never fails because of the cache.",
  ["crash_points", "schedules", "histories", "fault_sequences"], "crash and fault at every file operation, every schedule of two processes and threads within a preemption bound, every change between two versions",
  "no test touches the cache",
  [B + "base/pydantic_helpers.py", B + "base/metadata.py"], [("get_all_fields_serializable", "base/pydantic_helpers.py"), ("_model_fingerprint", "base/pydantic_helpers.py")], na=TODO)

for _p in PROPS:  # a property is claimed as soon as its check exists
    if isinstance(_p["na"], _T) and _os.path.exists(
        _os.path.join(_os.path.dirname(__file__), "..", "mc", "checks", _p["id"].lower() + ".py")
    ):
        _p["na"] = None
